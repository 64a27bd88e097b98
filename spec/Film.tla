-------------------------------- MODULE Film --------------------------------
(* Films as the renderers and users see them: pixels hold exact values; every
   operation on a pixel is atomic, also from several threads; operations on whole
   films touch exactly their pixels; files written from a film hold its content. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VScale(a, s) == <<a[1] * s, a[2] * s, a[3] * s>>
Black == <<0, 0, 0>>
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

NewFilm(w, h) == [w |-> w, h |-> h, px |-> [k \in 1..w*h |-> Black]]
At(f, x, y) == y * f.w + x + 1

\* One atomic operation on a pixel value c
PixOp(o, c) ==
    CASE o.k = "set"   -> o.v
      [] o.k = "splat" -> VAdd(c, o.v)
      [] o.k = "upd"   -> VAdd(VScale(c, 2), o.v)           \* update_pixel with a non-commuting function
      [] o.k = "ave"   -> <<c[1] + (o.v[1] - c[1]) \div (o.i + 1), c[2] + (o.v[2] - c[2]) \div (o.i + 1), c[3] + (o.v[3] - c[3]) \div (o.i + 1)>>

\* Raster position num/den along an axis of n pixels; far = 1 / -1: far outside
Axis(r, n) == IF r.far # 0 THEN (IF r.far > 0 THEN n - 1 ELSE 0) ELSE Clamp((r.num * n) \div r.den, 0, n - 1)
Where(f, o) == IF o.ras THEN At(f, Axis(o.rx, f.w), Axis(o.ry, f.h)) ELSE At(f, o.x, o.y)

Apply(films, o) ==
    CASE o.op = "New"     -> [n \in DOMAIN films \cup {o.f} |-> IF n = o.f THEN NewFilm(o.w, o.h) ELSE films[n]]
      [] o.op = "Pix"     -> [films EXCEPT ![o.f].px = [@ EXCEPT ![Where(films[o.f], o)] = PixOp(o, @)]]
      [] o.op = "Accum"   -> IF films[o.f].w = films[o.g].w /\ films[o.f].h = films[o.g].h
                             THEN [films EXCEPT ![o.f].px = [k \in DOMAIN @ |-> VAdd(@[k], films[o.g].px[k])]]
                             ELSE films
      [] o.op = "Rescale" -> [films EXCEPT ![o.f].px = [k \in DOMAIN @ |-> VScale(@[k], o.s)]]
      [] o.op = "Clear"   -> [films EXCEPT ![o.f].px = [k \in DOMAIN @ |-> Black]]
      [] OTHER -> films

(* Concurrent programs: every program is a sequence of pixel operations (p: pixel).  Operations on a
   pixel are atomic, so its outcome is that of some interleaving of the operations on it.             *)
RECURSIVE Outcomes(_, _)
Outcomes(c, progs) ==
    IF \A t \in DOMAIN progs : progs[t] = <<>> THEN {c}
    ELSE UNION {Outcomes(PixOp(Head(progs[t]), c), [progs EXCEPT ![t] = Tail(@)]) : t \in {u \in DOMAIN progs : progs[u] # <<>>}}
Proj(progs, p) == [t \in DOMAIN progs |-> SelectSeq(progs[t], LAMBDA o : o.p = p)]
=============================================================================
