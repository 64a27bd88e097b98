---------------------------- MODULE BridgeTrace ----------------------------
EXTENDS Bridge, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, film
tvars == <<ti, l, film>>
Ev == Traces[ti].ev[l]
Is(o) == Ev.op = o
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ film = <<>>
\* a value sent through the library comes back as what it became, by every route
Send == /\ Is("Send")
        /\ IF Takes(Ev.x) THEN Ev.ret = "ok" /\ Becomes(Ev.out) = Becomes(Ev.x) ELSE Ev.ret # "ok"
        /\ film' = film
AsVec == /\ Is("Vec")
         /\ IF IsVec(Ev.a, Ev.n) THEN Ev.ret = "ok" /\ Ev.out = Vec(Ev.a) ELSE Ev.ret = "TypeError"
         /\ film' = film
AsMat == /\ Is("Mat")
         /\ IF IsMat(Ev.a, 4) THEN Ev.ret = "ok" /\ Ev.out = Mat(Ev.a) ELSE Ev.ret = "TypeError"
         /\ film' = film
Helper == /\ Is("Helper") /\ Ev.ret = "ok"
          /\ Ev.out = (CASE Ev.f = "identity" -> MIdentity [] Ev.f = "translate" -> MTranslate(Ev.v) [] Ev.f = "scale" -> MScale(Ev.v) [] Ev.f = "rotate" -> MQuarter(Ev.v[1]))
          /\ film' = film
\* lm.array makes arrays the library takes; every registered name is listed once
Own == Is("Own") /\ Ev.ret = "ok" /\ Ev.out = Ev.v /\ film' = film
Names == Is("Names") /\ Ev.ret = "ok" /\ Ev.same /\ Ev.n > 30 /\ film' = film
NewFilm == Is("Film") /\ Ev.ret = "ok" /\ Ev.size = <<Ev.w, Ev.h>> /\ Ev.num = Ev.w * Ev.h /\ film' = Blank(Ev.w, Ev.h)
Pixel == Is("Pixel") /\ Ev.ret = "ok" /\ film' = SetPx(film, Ev.x, Ev.y, Ev.v)
Buffer == Is("Buffer") /\ Ev.ret = "ok" /\ Ev.out = film /\ film' = film
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Send \/ AsVec \/ AsMat \/ Helper \/ Own \/ Names \/ NewFilm \/ Pixel \/ Buffer)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
