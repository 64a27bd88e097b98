------------------------------ MODULE FilmTrace ------------------------------
EXTENDS Film, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, films
tvars == <<ti, l, films>>
Ev == Traces[ti].ev[l]
Observed(fs) == /\ {Ev.obs[j].f : j \in 1..Len(Ev.obs)} = DOMAIN fs
                /\ \A j \in 1..Len(Ev.obs) :
                     LET f == fs[Ev.obs[j].f] IN
                     /\ Ev.obs[j].w = f.w /\ Ev.obs[j].h = f.h /\ Ev.obs[j].n = f.w * f.h
                     /\ Ev.obs[j].px = f.px /\ Ev.obs[j].exact
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ films = <<>>
Step == /\ Ev.op \in {"New", "Pix", "Accum", "Rescale", "Clear"}
        /\ films' = Apply(films, Ev) /\ Observed(films')
\* saving: success exactly for a supported format and a writable place; the file holds the content
Save == /\ Ev.op = "Save"
        /\ Ev.ret = (Ev.known /\ Ev.writable)
        /\ Ev.ret => Ev.file = (IF Ev.bits THEN [k \in DOMAIN films[Ev.f].px |-> [c \in 1..3 |-> IF films[Ev.f].px[k][c] >= 1 THEN 1 ELSE 0]]
                                ELSE films[Ev.f].px)
        /\ UNCHANGED films /\ Observed(films)
Par == /\ Ev.op = "Par"
       /\ LET f == films[Ev.f]
              res == Ev.obs[CHOOSE j \in 1..Len(Ev.obs) : Ev.obs[j].f = Ev.f].px IN
          /\ DOMAIN res = DOMAIN f.px
          /\ \A k \in DOMAIN f.px : res[k] \in Outcomes(f.px[k], Proj(Ev.progs, k))
          /\ films' = [films EXCEPT ![Ev.f].px = res]
       /\ Observed(films')
\* many splats of one value on a few pixels from many threads: nothing is lost
Storm == /\ Ev.op = "Storm"
         /\ films' = [films EXCEPT ![Ev.f].px = [k \in DOMAIN @ |-> IF k <= Len(Ev.hits) THEN VAdd(@[k], VScale(Ev.v, Ev.hits[k])) ELSE @[k]]]
         /\ Observed(films')
TNext == /\ l <= Len(Traces[ti].ev) /\ (Step \/ Save \/ Par \/ Storm) /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
