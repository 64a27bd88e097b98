----------------------------- MODULE LoggerTrace -----------------------------
EXTENDS Logger, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, s, term, view
tvars == <<ti, l, s, term, view>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ s = Down /\ term = Term /\ view = Blank
Is(o) == Ev.op = o
Silent == Ev.ret = "ok" /\ Ev.out = <<>> /\ UNCHANGED term
Quiet == Silent /\ UNCHANGED view
InitOp == Is("Init") /\ s' = Fresh(Ev.show) /\ Silent /\ view' = Handover(view)
Shutdown == Is("Shutdown") /\ s' = Down /\ Silent /\ view' = Handover(view)
Severity == Is("Severity") /\ s' = Thresh(s, Ev.n) /\ Quiet
IndentOp == Is("Indent") /\ s' = Shift(s, Ev.n) /\ Quiet
Log == /\ Is("Log") /\ Ev.ret = "ok"
       /\ (~Shown(s, Ev) => Ev.out = <<>>) = TRUE
       /\ term' = Play(term, Ev.out)
       /\ view' = View(s, Ev, view)
       /\ Looks(term', view') = TRUE
       /\ s' = s
\* many threads at once: every line is whole; the lines of one message are together, those of a thread in order
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Storm == /\ Is("Storm") /\ Ev.ret = "ok"
         /\ LET n == Len(Ev.out)
                lines == [i \in 1..n |-> Ev.out[i].x]
                \* [t][k]: the lines of the k-th message of thread t
                text(t, k) == Texts(s, [Ev.msgs[t][k] EXCEPT !.time = Ev.time])
                Start(t, k) == {i \in 1..n : lines[i] = text(t, k)[1]}
            IN /\ \A i \in 1..n : Ev.out[i].e = "lf"
               /\ n = Len(Cat([t \in 1..Len(Ev.msgs) |-> Cat([k \in 1..Len(Ev.msgs[t]) |-> IF Shown(s, Ev.msgs[t][k]) THEN text(t, k) ELSE <<>>])]))
               /\ \A t \in 1..Len(Ev.msgs) : \A k \in 1..Len(Ev.msgs[t]) : Shown(s, Ev.msgs[t][k]) =>
                     \E i \in Start(t, k) : /\ i + Len(text(t, k)) - 1 <= n
                                            /\ \A j \in 1..Len(text(t, k)) : lines[i + j - 1] = text(t, k)[j]
                                            /\ \A k2 \in 1..(k - 1) : Shown(s, Ev.msgs[t][k2]) => \E i2 \in Start(t, k2) : i2 < i
         /\ term' = Play(term, Ev.out) /\ view' = [rows |-> term'.rows, cur |-> term'.cur, left |-> ""]
         /\ s' = s
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (InitOp \/ Shutdown \/ Severity \/ IndentOp \/ Log \/ Storm)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
