------------------------------ MODULE MCLogger ------------------------------
(* A logger that covers what is left of an unfinished progress message with blanks shows every *)
(* message and nothing else, in all histories.                                                  *)
EXTENDS Logger, FiniteSets, Json
CONSTANTS K, Msgs, Sevs
VARIABLES s, term, view, pend, hist
vars == <<s, term, view, pend, hist>>
Text(i) == CASE i = 1 -> "a" [] i = 2 -> "bbb" [] i = 3 -> "cc\nd" [] OTHER -> ""
Levels == {"Info", "Err", "Progress", "ProgressEnd"}
Sev(l) == CASE l = "Info" -> 10 [] l = "Err" -> 30 [] OTHER -> 100
M(l, i) == [level |-> l, sev |-> Sev(l), msg |-> Text(i), time |-> "0", line |-> 1, stem |-> "f"]
Init == s = Down /\ term = Term /\ view = Blank /\ pend = 0 /\ hist = <<>>
Cover(x) == x \o Spaces(pend - Len(x))
RECURSIVE Out(_)
Out(xs) == IF xs = <<>> THEN <<>> ELSE <<[x |-> Head(xs), e |-> "lf"]>> \o Out(Tail(xs))
Emits(m) == LET xs == Texts(s, m) IN
    IF s.up /\ m.level = "Progress" THEN <<[x |-> Cover(xs[1]), e |-> "cr"]>>
    ELSE Out([xs EXCEPT ![1] = Cover(@)])
Log(l, i) == LET m == M(l, i) IN
    /\ ~(IsProgress(l) /\ i = 3)
    /\ view' = View(s, m, view)
    /\ (IF Shown(s, m) THEN /\ term' = Play(term, Emits(m))
                            /\ pend' = IF s.up /\ l = "Progress" THEN Len(Texts(s, m)[1]) ELSE 0
        ELSE UNCHANGED <<term, pend>>) /\ UNCHANGED s
    /\ hist' = Append(hist, [op |-> "Log", level |-> l, msg |-> i])
Up == /\ s' = Fresh(TRUE) /\ hist' = Append(hist, [op |-> "Init"]) /\ view' = Handover(view) /\ pend' = 0 /\ UNCHANGED term
Off == /\ s.up /\ s' = Down /\ hist' = Append(hist, [op |-> "Shutdown"]) /\ view' = Handover(view) /\ pend' = 0 /\ UNCHANGED term
Ind(n) == s' = Shift(s, n) /\ hist' = Append(hist, [op |-> "Indent", n |-> n]) /\ UNCHANGED <<term, view, pend>>
Set(v) == s' = Thresh(s, v) /\ hist' = Append(hist, [op |-> "Severity", n |-> v]) /\ UNCHANGED <<term, view, pend>>
Next == /\ Len(hist) < K
        /\ \/ \E l \in Levels, i \in Msgs : Log(l, i)
           \/ Up \/ Off \/ \E n \in {-1, 1} : Ind(n) \/ \E v \in Sevs : Set(v)
Spec == Init /\ [][Next]_vars
Readable == Looks(term, view)
Emit == Len(hist) < K \/ PrintT("@@" \o ToJson(hist))
NoHist == <<s, term, view, pend, Len(hist)>>
=============================================================================
