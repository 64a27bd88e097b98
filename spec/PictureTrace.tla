---------------------------- MODULE PictureTrace ----------------------------
EXTENDS Picture, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, p
tvars == <<ti, l, p>>
Ev == Traces[ti].ev[l]
None == [w |-> 0, h |-> 0, c |-> 0, flip |-> FALSE, px |-> <<>>]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ p = None
Is(o) == Ev.op = o
Load == /\ Is("Load") /\ Ev.ret = Ev.expect
        /\ p' = IF Ev.expect = "ok" THEN Ev.pic ELSE None
        /\ (Ev.expect = "ok" => Ev.size = <<Ev.pic.w, Ev.pic.h>> /\ Ev.alpha = HasAlpha(Ev.pic)) = TRUE
Eval == /\ Is("Eval") /\ p' = p
        /\ (\A k \in 1..Len(Ev.q) : LET q == Ev.q[k]
                                       t == Texel(p, q.a, q.b, Ev.d)
                                   IN q.v = Color(t) /\ (HasAlpha(p) => q.al = Alpha(t))) = TRUE
Pixels == /\ Is("Pixels") /\ p' = p
          /\ (\A y \in 0..(p.h - 1) : \A x \in 0..(p.w - 1) : Ev.v[y * p.w + x + 1] = Color(At(p, x, y))) = TRUE
Env == /\ Is("Env") /\ Ev.ret = "ok" /\ p' = p
       /\ (\A k \in 1..Len(Ev.q) : EnvOk(Ev.pic, Ev.rot, Ev.q[k].d, Ev.q[k].v)) = TRUE
\* per pixel: thousandths of the value, and the code of an 8-bit picture it is the linear light of
Cast == /\ Is("Cast") /\ Ev.ret = "ok" /\ p' = p
        /\ (\A i \in 0..(Ev.n - 1) : \A j \in 0..(Ev.n - 1) :
              LET hs == Hits(Ev.qs, Ev.n, i, j, Ev.z, Ev.o)
                  v == Ev.v[j * Ev.n + i + 1]
                  e == Ev.e[j * Ev.n + i + 1] IN
              IF hs = {} THEN v = Ev.back
              ELSE LET q == Ev.qs[Nearest(Ev.qs, Ev.n, i, j, Ev.z, Ev.o)]
                       c == IF Ev.color = <<>> THEN Skin(q, Ev.n, i, j, Ev.z, Ev.o) ELSE Ev.color IN
                   CASE Ev.mode = "normal" -> v = <<0, 0, 1000>>
                     [] Ev.mode = "flat" /\ Ev.color = <<>> /\ q.pic # <<>> -> e = c
                     [] Ev.mode = "flat" -> v = c
                     [] OTHER -> (q.pic # <<>> /\ Ev.color = <<>>) \/ \A m \in 1..3 : Near(v[m], Shade(c[m], Ev.n, i, j), 3)) = TRUE
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Load \/ Eval \/ Pixels \/ Env \/ Cast)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
