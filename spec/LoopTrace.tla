------------------------------ MODULE LoopTrace ------------------------------
(* Trace validation of recorded parallel loops, progress reports and scheduler runs. *)
EXTENDS Loop, Json, IOUtils, SequencesExt, Big

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l,
          ctx,      \* parallel context: threads and update interval
          loops,    \* running loops by id
          sch,      \* running scheduler: configuration, pass, loop state as sets of <<pixel, sample>>
          rep,      \* progress reporters by name
          dly       \* delaying reporter under direct test
tvars == <<ti, l, ctx, loops, sch, rep, dly>>
Ev == Traces[ti].ev[l]
NoSch == [on |-> FALSE]

TInit == /\ ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0)
         /\ ctx = [t |-> 0, ivl |-> 0] /\ loops = <<>> /\ sch = NoSch /\ rep = <<>> /\ dly = [on |-> FALSE]

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitCtx == /\ Ev.op = "Init"
           /\ Ev.nt = NumThreads(Ev.cfg, Ev.hw)
           /\ ctx' = [t |-> Ev.nt, ivl |-> Ev.ivl]
           /\ UNCHANGED <<loops, sch, rep, dly>>

LoopStart == /\ Ev.op = "LoopStart" /\ Ev.id \notin DOMAIN loops
             /\ loops' = Put(loops, Ev.id, NewLoop(Ev.n, ctx.t, ctx.ivl))
             /\ UNCHANGED <<ctx, sch, rep, dly>>
\* main thread flag: at top level, thread 0 and only thread 0 is the main thread, and it is the caller
Begin == /\ Ev.op = "B" /\ Ev.id \in DOMAIN loops /\ CanBegin(loops[Ev.id], Ev.i, Ev.t)
         /\ Ev.top => (Ev.m = (Ev.t = 0))
         /\ loops' = [loops EXCEPT ![Ev.id] = DoBegin(@, Ev.i, Ev.t)]
         /\ UNCHANGED <<ctx, sch, rep, dly>>
End == /\ Ev.op = "E" /\ Ev.id \in DOMAIN loops /\ CanEnd(loops[Ev.id], Ev.i, Ev.t)
       /\ loops' = [loops EXCEPT ![Ev.id] = DoEnd(@, Ev.i, Ev.t)]
       /\ UNCHANGED <<ctx, sch, rep, dly>>
Throw == /\ Ev.op = "X" /\ Ev.id \in DOMAIN loops /\ CanEnd(loops[Ev.id], Ev.i, Ev.t)
         /\ loops' = [loops EXCEPT ![Ev.id] = DoThrow(@, Ev.i, Ev.t, Ev.x)]
         /\ UNCHANGED <<ctx, sch, rep, dly>>
Prog == /\ Ev.op = "P" /\ Ev.id \in DOMAIN loops /\ CanProgress(loops[Ev.id], Ev.v) /\ Ev.own
        /\ loops' = [loops EXCEPT ![Ev.id] = DoProgress(@, Ev.v)]
        /\ UNCHANGED <<ctx, sch, rep, dly>>
PThrow == /\ Ev.op = "PX" /\ Ev.id \in DOMAIN loops /\ Ev.own
          /\ loops' = [loops EXCEPT ![Ev.id] = DoProgressThrow(@, Ev.x)]
          /\ UNCHANGED <<ctx, sch, rep, dly>>
LoopReturn == /\ Ev.op = "LoopReturn" /\ Ev.id \in DOMAIN loops /\ CanReturn(loops[Ev.id], Ev.out)
              /\ loops' = Drop(loops, Ev.id)
              /\ UNCHANGED <<ctx, sch, rep, dly>>

\* Large loops: how many indices were processed how many times
Bulk == /\ Ev.op = "Bulk" /\ Ev.out = "ok" /\ Ev.outside = 0 /\ Ev.badthread = 0
        /\ Ev.hist = IF Ev.n = 0 THEN <<>> ELSE <<<<1, Ev.n>>>>
        /\ UNCHANGED <<ctx, loops, sch, rep, dly>>
\* All configured threads work at once when there is enough to do
Meet == /\ Ev.op = "Meet" /\ Ev.together = ctx.t
        /\ UNCHANGED <<ctx, loops, sch, rep, dly>>

SchStart == /\ Ev.op = "SchStart" /\ ~sch.on
            /\ sch' = [on |-> TRUE, s |-> Ev.s, k |-> 0, left |-> Pass(Ev.s, 0), run |-> {}, ndone |-> 0, thrown |-> {}, started |-> FALSE]
            /\ UNCHANGED <<ctx, loops, rep, dly>>
\* the next pass begins when the previous one is complete
Advance(s) == IF s.left = {} /\ s.run = {} /\ Again(s.s, s.k) THEN [s EXCEPT !.k = @ + 1, !.left = Pass(s.s, s.k + 1)] ELSE s
SB == /\ Ev.op = "SB" /\ sch.on
      /\ LET a == Advance(sch)  x == <<Ev.p, Ev.s>> IN
         /\ x \in a.left /\ Ev.t \in 0..ctx.t-1 /\ ~\E r \in a.run : r[2] = Ev.t
         /\ DOMAIN rep # {} /\ \A r \in DOMAIN rep : rep[r].st = "open"
         /\ ctx.t = 1 => a.thrown = {}
         /\ sch' = [a EXCEPT !.left = @ \ {x}, !.run = @ \cup {<<x, Ev.t>>}]
      /\ UNCHANGED <<ctx, loops, rep, dly>>
SE == /\ Ev.op = "SE" /\ sch.on /\ <<<<Ev.p, Ev.s>>, Ev.t>> \in sch.run
      /\ sch' = [sch EXCEPT !.run = @ \ {<<<<Ev.p, Ev.s>>, Ev.t>>}, !.ndone = @ + 1]
      /\ UNCHANGED <<ctx, loops, rep, dly>>
SX == /\ Ev.op = "SX" /\ sch.on /\ <<<<Ev.p, Ev.s>>, Ev.t>> \in sch.run
      /\ sch' = [sch EXCEPT !.run = @ \ {<<<<Ev.p, Ev.s>>, Ev.t>>}, !.thrown = @ \cup {Ev.x}]
      /\ UNCHANGED <<ctx, loops, rep, dly>>
SchReturn == /\ Ev.op = "SchReturn" /\ sch.on /\ sch.run = {}
             /\ DOMAIN rep # {} /\ \A r \in DOMAIN rep : rep[r].st = "ended"
             /\ IF sch.thrown = {} THEN Ev.out = "ok" /\ sch.left = {} /\ ~Again(sch.s, sch.k) /\ Ev.ret = Result(sch.s, sch.k)
                                   ELSE Ev.out \in sch.thrown
             /\ sch' = NoSch /\ rep' = <<>>
             /\ UNCHANGED <<ctx, loops, dly>>

\* Reporters seen by a scheduler run (Ev.r: name of the reporter)
RStart == /\ Ev.op = "RStart" /\ sch.on
          /\ Ev.r \notin DOMAIN rep                       \* started once per run
          /\ Ev.mode = Mode(sch.s) /\ Ev.total = Total(sch.s)
          /\ sch.run = {} /\ sch.ndone = 0
          /\ rep' = Put(rep, Ev.r, DoPStart(Ev.mode, Ev.total))
          /\ UNCHANGED <<ctx, loops, sch, dly>>
RUpdate == /\ Ev.op = "RUpdate" /\ sch.on /\ Ev.r \in DOMAIN rep
           /\ CanUpdate(rep[Ev.r], Ev.v) /\ Ev.v <= sch.ndone
           /\ rep' = [rep EXCEPT ![Ev.r] = DoUpdate(@, Ev.v)]
           /\ UNCHANGED <<ctx, loops, sch, dly>>
RTime == /\ Ev.op = "RTime" /\ sch.on /\ Ev.r \in DOMAIN rep
         /\ CanUpdateTime(rep[Ev.r], Ev.v, Ev.now)
         /\ rep' = [rep EXCEPT ![Ev.r] = DoUpdateTime(@, Ev.v)]
         /\ UNCHANGED <<ctx, loops, sch, dly>>
REnd == /\ Ev.op = "REnd" /\ sch.on /\ Ev.r \in DOMAIN rep /\ CanPEnd(rep[Ev.r])
        /\ rep' = [rep EXCEPT ![Ev.r] = DoPEnd(@)]
        /\ UNCHANGED <<ctx, loops, sch, dly>>

\* Large sample numbers: sample q of a loop over total samples is (p, s) with p * spp + s = q
BigSample == /\ Ev.op = "Big"
             /\ Ev.calls = 1 =>
                /\ BigEq(BigAdd(BigMul(Ev.p, Ev.spp), Ev.s), Ev.q)
                /\ BigLt(Ev.s, Ev.spp)
                /\ BigEq(Ev.total, BigMul(Ev.npix, Ev.spp))
                /\ BigEq(Ev.n, Ev.total)
             /\ Ev.calls >= 1
             /\ UNCHANGED <<ctx, loops, sch, rep, dly>>

\* Direct calls on a composition of reporters with a virtual clock: what reaches each leaf
\* tree: sequence of leaves, each with the delays (ms) of the delaying reporters above it
DInit == /\ Ev.op = "DInit"
         /\ dly' = [on |-> TRUE, leaves |-> Ev.leaves, last |-> [j \in 1..Len(Ev.leaves) |-> [m \in 1..Len(Ev.leaves[j]) |-> 0]]]
         /\ UNCHANGED <<ctx, loops, sch, rep>>
\* an update passes a chain of delays from the outside in, as long as each lets it through
RECURSIVE PassChain(_, _, _, _)
PassChain(ds, last, m, now) ==
    IF m > Len(ds) THEN [last |-> last, ok |-> TRUE]
    ELSE IF now - last[m] > ds[m] THEN PassChain(ds, [last EXCEPT ![m] = now], m + 1, now)
    ELSE [last |-> last, ok |-> FALSE]
DCall == /\ Ev.op = "DCall" /\ dly.on
         /\ LET n == Len(dly.leaves)
                R == [j \in 1..n |-> IF Ev.call \in {"update", "time"} THEN PassChain(dly.leaves[j], dly.last[j], 1, Ev.now)
                                     ELSE IF Ev.call = "start" THEN [last |-> [m \in 1..Len(dly.leaves[j]) |-> Ev.now], ok |-> TRUE]
                                     ELSE [last |-> dly.last[j], ok |-> TRUE]]
            IN /\ dly' = [dly EXCEPT !.last = [j \in 1..n |-> R[j].last]]
               /\ Ev.got = SelectSeq([j \in 1..n |-> IF R[j].ok THEN [r |-> j, call |-> Ev.call, a |-> Ev.a] ELSE [r |-> 0, call |-> Ev.call, a |-> Ev.a]], LAMBDA x : x.r # 0)
         /\ UNCHANGED <<ctx, loops, sch, rep>>

\* The default reporter: one line per half second at most, in its mode only; a final line
FInit == /\ Ev.op = "FInit"
         /\ dly' = [on |-> TRUE, mode |-> "none", total |-> 0, last |-> 0]
         /\ UNCHANGED <<ctx, loops, sch, rep>>
FCall == /\ Ev.op = "FCall" /\ dly.on
         /\ CASE Ev.call = "start" -> Ev.got = <<>> /\ dly' = [on |-> TRUE, mode |-> Ev.mode, total |-> Ev.a, last |-> Ev.now]
              [] Ev.call = "end" -> Len(Ev.got) = 1 /\ Ev.got[1].done = -1 /\ UNCHANGED dly
              [] OTHER -> IF (Ev.call = "update") = (dly.mode = "samples") /\ Ev.now - dly.last > 500
                          THEN /\ Len(Ev.got) = 1
                               /\ Ev.got[1].done = Ev.a /\ Ev.got[1].total = dly.total
                               /\ dly' = [dly EXCEPT !.last = Ev.now]
                          ELSE Ev.got = <<>> /\ UNCHANGED dly
         /\ UNCHANGED <<ctx, loops, sch, rep>>

TNext == /\ l <= Len(Traces[ti].ev)
         /\ \/ InitCtx \/ LoopStart \/ Begin \/ End \/ Throw \/ Prog \/ PThrow \/ LoopReturn \/ Bulk \/ Meet
            \/ SchStart \/ SB \/ SE \/ SX \/ SchReturn \/ RStart \/ RUpdate \/ RTime \/ REnd \/ BigSample
            \/ DInit \/ DCall \/ FInit \/ FCall
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
