---------------------------- MODULE SamplingTrace ----------------------------
EXTENDS Sampling, Json, IOUtils, SequencesExt, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, m
tvars == <<ti, l, m>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ m = NoMeasure
Is(o) == Ev.op = o
Keep == m' = m
Built == Is("Built") /\ Ev.ret = "ok" /\ Keep
Done == Is("Done") /\ Ev.ret = "ok" /\ ~m.open /\ Keep
Measure == Is("Measure") /\ ~m.open /\ m' = Begin(Ev)
Draw == /\ Is("Draw") /\ m.open /\ Ev.off = 0
        /\ (\A i \in 1..Len(Ev.q) : Fits(Ev.q[i])) = TRUE
        /\ m' = Tally(m, Ev)
Unit == Is("Unit") /\ Ev.err = 0 /\ Ev.delta /\ Keep
Support == Is("Support") /\ Ev.uncovered = 0 /\ ~Ev.negative /\ Keep
Close == /\ Is("Close") /\ m.open /\ ~m.specular /\ m.n > 0
         /\ Distributed(m, Ev.p) = TRUE
         /\ Unbiased(m, Ev.w, Ev.f) = TRUE
         /\ m' = NoMeasure
CloseSpecular == Is("CloseSpecular") /\ m.open /\ m.specular /\ m.n > m.rej /\ m' = NoMeasure
Equals == /\ Is("Equal") /\ Keep
          /\ (\A i \in 1..Len(Ev.q) : Equal(Ev.q[i], IF "tol" \in DOMAIN Ev THEN Ev.tol ELSE 200)) = TRUE
Disk == Is("Disk") /\ Ev.covers /\ Near(Ev.inner * 2, Ev.n, Ev.n \div 100) /\ Keep
Select == Is("Select") /\ Selected(Ev) = TRUE /\ Keep
Fit == Is("Fit") /\ (\A i \in 1..Len(Ev.q) : Fits(Ev.q[i])) = TRUE /\ Keep
DirectCam == /\ Is("DirectCam") /\ Keep /\ (\A i \in 1..Len(Ev.q) : Fits(Ev.q[i])) = TRUE /\ (Ev.seen => Ev.some)
Dist == /\ Is("Dist") /\ Keep /\ Ev.in /\ ~Ev.empty /\ Len(Ev.at) = Ev.k
        /\ (\A j \in 1..Ev.k : Ev.at[j] = Owner(Ev.w, Ev.k, j - 1)) = TRUE
        /\ Ev.p[1] = 0 /\ Ev.p[Len(Ev.w) + 2] = 0 /\ Len(Ev.p) = Len(Ev.w) + 2
        /\ (\A i \in 1..Len(Ev.w) : Near(Ev.p[i + 1] * Sum(Ev.w), 1000000 * Ev.w[i], Sum(Ev.w))) = TRUE
        /\ \A i \in 1..2 : Ev.ends[i] \in 1..Len(Ev.w) /\ Ev.w[Ev.ends[i]] > 0
        /\ Ev.ends[3] \in 1..Len(Ev.w)
Dist2 == /\ Is("Dist2") /\ Keep /\ Ev.in
         /\ Sum(Ev.c) = Ev.k * Ev.k
         /\ (\A i \in 1..Len(Ev.w) : /\ Near(Ev.c[i] * Sum(Ev.w), Ev.k * Ev.k * Ev.w[i], 2 * Ev.k * Sum(Ev.w))
                                     /\ (Ev.w[i] = 0 => Ev.c[i] = 0)
                                     /\ Near(Ev.p[i] * Sum(Ev.w), 1000000 * Ev.w[i], Sum(Ev.w))) = TRUE
Law == /\ Is("Law") /\ Keep /\ Ev.some /\ Ev.spec
       \* the reflected part of glass
       /\ Ev.glass /\ Ev.ni > 1000 => /\ (Cos(Ev.wi, Ev.n) > 0 => Near(Ev.pr, Schlick(Ev.ni, Cos(Ev.wi, Ev.n)), 30))
                                     /\ (TIR(Ev.ni, Ev.n, Ev.wi) => Ev.pr = 10000)
                                     /\ (Ev.law = "refract" /\ Ev.pc > 0 /\ Cos(Ev.wi, Ev.n) < 0 => Near(Ev.pr, Schlick(Ev.ni, Cos(Ev.wo, Ev.n)), 30))
       /\ IF Ev.law = "pass" THEN /\ \A i \in 1..3 : Near(Ev.wo[i], - Ev.wi[i], 1)
                                  /\ \A i \in 1..3 : Ev.w[i] = 10000
          ELSE IF Ev.law = "reflect" THEN /\ Reflects(Ev.n, Ev.wi, Ev.wo)
                                          /\ \A i \in 1..3 : Near(Ev.w[i], Ev.pc, 1)
          ELSE Ev.pc > 0 =>
               /\ Refracts(Ev.n, Ev.wi, Ev.wo, Ev.ni)
               /\ Near(Ev.pcback, Ev.pc, 2)                         \* the same way back
               /\ \A i \in 1..3 : Near(Ev.woback[i], Ev.wi[i], 4)
               /\ LET eta == Eta(Ev.ni, Ev.n, Ev.wi) IN
                  \A i \in 1..3 : IF Ev.el THEN Near(Ev.w[i] * 1000, Ev.pc * ((eta * eta) \div 1000), Ev.pc * 6 + 20000) ELSE Near(Ev.w[i], Ev.pc, 1)
Albedo == /\ Is("Albedo") /\ Keep
          /\ \A i \in 1..3 : Ev.total[i] # Bad /\ Ev.total[i] >= 0 /\ Ev.total[i] <= Ev.max[i] + 50
          /\ Ev.expect # <<>> => \A i \in 1..3 : Near(Ev.total[i], Ev.expect[i], 50)
          /\ Ev.refls # <<>> => \A i \in 1..3 : Near(Ev.refl[i], Ev.refls[i], 1)
(* ---- the camera: view and up are the integer vectors it was given, axis: both are axes ---- *)
Camera == /\ Is("Camera") /\ Keep /\ Ev.pos
          /\ LET right == Cross(Ev.view, Ev.up)
                 top == Cross(right, Ev.view)
                 at(tf, as) == (tf * as) \div 1000 IN
             /\ (\A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN
                    /\ Near(q.back[1], q.rp[1], 3) /\ Near(q.back[2], q.rp[2], 3)
                    /\ Near(q.proj[1], q.rp[1], 3) /\ Near(q.proj[2], q.rp[2], 3) /\ q.unit = 0
                    /\ Dot(q.d, Ev.view) > 0
                    /\ Ev.axis => /\ Near(Dot(q.d, right) * Ev.k * 1000, Dot(q.d, Ev.view) * at(Ev.tf, Ev.aspect) * (2 * q.ij[1] - Ev.k), 40000 * Ev.k + 8 * Abs(Dot(q.d, Ev.view)) * Ev.k)
                                  /\ Near(Dot(q.d, top) * Ev.k * 1000, Dot(q.d, Ev.view) * Ev.tf * (2 * q.ij[2] - Ev.k), 40000 * Ev.k + 8 * Abs(Dot(q.d, Ev.view)) * Ev.k)) = TRUE
             /\ \A i \in 1..3 : Abs(Cross(Ev.c, Ev.view)[i]) <= 20
             /\ Dot(Ev.r, right) > 0 /\ Abs(Dot(Ev.r, top)) <= 100
             /\ Dot(Ev.u, top) > 0 /\ Abs(Dot(Ev.u, right)) <= 100
             /\ (\A i \in 1..Len(Ev.out) : LET o == Ev.out[i]
                                               z == Dot(o.d, Ev.view)
                                               x == Abs(Dot(o.d, right)) * 1000
                                               y == Abs(Dot(o.d, top)) * 1000 IN
                    /\ o.in => ~o.zero /\ o.direct = 1
                    /\ ~o.in => o.zero /\ o.direct = 0
                    /\ Ev.axis => /\ (z > 0 /\ x < z * at(Ev.tf, Ev.aspect) - 60000 /\ y < z * Ev.tf - 60000 => o.in)
                                  /\ (z < 0 \/ x > z * at(Ev.tf, Ev.aspect) + 60000 \/ y > z * Ev.tf + 60000 => ~o.in)) = TRUE
(* ---- media: tau: optical depths in eighths ---- *)
StatTol == 60
Medium == /\ Is("Medium") /\ Keep /\ Ev.on /\ Ev.wsurf /\ ~Ev.emit
          /\ (\A i \in 1..Len(Ev.q) : Ev.q[i].range /\ \A c \in 1..3 : Near(Ev.q[i].T[c], Atten(Ev.segtau[i]), StatTol)) = TRUE
          /\ (\A k \in 1..Len(Ev.cnt) : Near((Ev.cnt[k] * 10000) \div Ev.n, 10000 - Atten(Ev.tau[k]), StatTol)) = TRUE
          /\ Near((Ev.none * 10000) \div Ev.n, Atten(Ev.tauend), StatTol)
          /\ \A c \in 1..3 : Near(Ev.wmin[c], Ev.albedo[c], 1) /\ Near(Ev.wmax[c], Ev.albedo[c], 1)
(* flights through a scene: they end at the nearest surface, at infinity or nowhere when nothing of the medium stops them *)
Flight == /\ Is("Flight") /\ Keep /\ Ev.on /\ Ev.typed /\ Ev.wend
          /\ (\A k \in 1..Len(Ev.cnt) : Near((Ev.cnt[k] * 10000) \div Ev.n, 10000 - Atten(Ev.tau[k]), StatTol)) = TRUE
          /\ LET through == IF Ev.end = "surface" THEN Ev.surface ELSE IF Ev.end = "infinite" THEN Ev.infinite ELSE Ev.none IN
             /\ Near((through * 10000) \div Ev.n, Atten(Ev.tauend), StatTol)
             /\ Ev.surface + Ev.infinite + Ev.none = through
             /\ Ev.surface > 0 => Near(Ev.far, Ev.dist * 1000, 1)
             /\ Ev.tauend = 0 => through = Ev.n
          /\ \A c \in 1..3 : Near(Ev.wmin[c], Ev.albedo[c], 1) /\ Near(Ev.wmax[c], Ev.albedo[c], 1)
Transmit == /\ Is("Transmit") /\ Keep /\ Ev.range
            /\ \A c \in 1..3 : IF Ev.blocked THEN Ev.T[c] = 0 /\ Ev.B[c] = 0
                               ELSE /\ Near(Ev.T[c], Atten(Ev.tau), StatTol) /\ Near(Ev.B[c], Atten(Ev.tau), StatTol)
                                    /\ Ev.tau = 0 => Ev.T[c] = 10000 /\ Ev.B[c] = 10000
(* density fields at integer points, in units of 10^-3; bounds are doubled *)
D2(p, c) == (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) + (p[3] - c[3]) * (p[3] - c[3])
Within(p, lo, hi) == \A i \in 1..3 : lo[i] <= 2 * p[i] /\ 2 * p[i] <= hi[i]
CellOf(p, fl, i) == (5 * (2 * p[i] - fl.lo[i])) \div (fl.hi[i] - fl.lo[i])
RECURSIVE Density(_, _)
Density(fl, p) ==
    CASE fl.k = "constant" -> fl.s
      [] fl.k = "sphere" -> IF D2(p, fl.c) < fl.r * fl.r THEN fl.s ELSE 0
      [] fl.k = "gaussian" -> (fl.s * Atten(D2(p, fl.c) \div fl.q)) \div 10000   \* standard deviation 2 Sqrt(q)
      [] fl.k = "checker" -> IF (CellOf(p, fl, 1) + CellOf(p, fl, 2)) % 2 = 0 THEN 1000 ELSE 0
      [] fl.k = "multi" -> Sum([j \in 1..Len(fl.parts) |-> IF Within(p, fl.parts[j].lo, fl.parts[j].hi) THEN Density(fl.parts[j], p) ELSE 0])
RECURSIVE Greatest(_)
Greatest(fl) == IF fl.k = "multi" THEN Sum([j \in 1..Len(fl.parts) |-> Greatest(fl.parts[j])]) ELSE IF fl.k = "checker" THEN 1000 ELSE fl.s
Tone(fl, p, ch) == Sum([j \in 1..Len(fl.parts) |-> IF Within(p, fl.parts[j].lo, fl.parts[j].hi) THEN Density(fl.parts[j], p) * fl.parts[j].col[ch] ELSE 0])
Volume == /\ Is("Volume") /\ Keep /\ Ev.bounded
          /\ Near(Ev.max, Greatest(Ev.field), 1)
          /\ (\A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN
                /\ Near(q.v, Density(Ev.field, q.p), 3)
                /\ Ev.field.k \in {"sphere", "gaussian", "multi"} /\ 100 * Density(Ev.field, q.p) > Greatest(Ev.field) => Within(q.p, Ev.lo, Ev.hi)
                /\ q.c # <<>> /\ Density(Ev.field, q.p) > 100 => \A ch \in 1..3 : Near(q.c[ch] * Density(Ev.field, q.p), Tone(Ev.field, q.p, ch), 20 * Greatest(Ev.field))) = TRUE
TNext == /\ l <= Len(Traces[ti].ev) /\ l' = l + 1 /\ ti' = ti
         /\ \/ Built \/ Done \/ Measure \/ Draw \/ Unit \/ Support \/ Close \/ CloseSpecular \/ Equals \/ Disk
            \/ DirectCam \/ Select \/ Fit \/ Dist \/ Dist2 \/ Law \/ Albedo \/ Camera \/ Medium \/ Volume \/ Flight \/ Transmit
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
