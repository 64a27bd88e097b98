------------------------------- MODULE Logger -------------------------------
(* The logger and the terminal it writes to.  A message is shown iff the logger is up and its *)
(* severity is not below the threshold (without a logger every message is shown); each of its *)
(* lines gets the header and the indentation.  A progress message is shown on the current     *)
(* line and replaced by whatever is shown next; the last one of a progress stays.             *)
EXTENDS Integers, Sequences, TLC
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE Dots(_)
Dots(n) == IF n <= 0 THEN "" ELSE ".." \o Dots(n - 1)
RECURSIVE Lines(_)
\* the lines of a message: a final newline does not start another line
FirstNl(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "\n" THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "\n" /\ \A j \in 1..(i - 1) : Ch(s, j) # "\n" ELSE 0
Lines(s) == LET k == FirstNl(s) IN IF k = 0 THEN <<s>>
            ELSE IF k = Len(s) THEN <<SubSeq(s, 1, k - 1)>>
            ELSE <<SubSeq(s, 1, k - 1)>> \o Lines(SubSeq(s, k + 1, Len(s)))
Mark(l) == CASE l = "Debug" -> "D" [] l = "Info" -> "I" [] l = "Warn" -> "W" [] l = "Err" -> "E" [] OTHER -> "I"
IsProgress(l) == l \in {"Progress", "ProgressEnd"}
Min2(a, b) == IF a < b THEN a ELSE b
Field(s, n) == SubSeq(s, 1, Min2(n, Len(s))) \o Spaces(n - Len(s))
Header(show, m) == "[" \o Mark(m.level) \o "|" \o m.time \o (IF show THEN "|" \o Field(ToString(m.line) \o "@" \o m.stem, 10) ELSE "") \o "] "
Indent(n) == IF n > 0 THEN Dots(n) \o " " ELSE ""
(* ---- state: up, threshold, indentation, whether the place is shown ---- *)
Down == [up |-> FALSE, sev |-> 0, ind |-> 0, show |-> TRUE]
Fresh(show) == [up |-> TRUE, sev |-> 0, ind |-> 0, show |-> show]
Shift(s, n) == IF ~s.up THEN s ELSE [s EXCEPT !.ind = IF s.ind + n > 0 THEN s.ind + n ELSE 0]
Thresh(s, v) == IF ~s.up THEN s ELSE [s EXCEPT !.sev = v]
Shown(s, m) == ~s.up \/ m.sev >= s.sev
(* ---- what the reader of the terminal sees: the finished lines and the current one ---- *)
\* left: what another logger left unfinished in the current line and has not been written over
Blank == [rows |-> <<>>, cur |-> "", left |-> ""]
Over(x, left) == x \o SubSeq(left, Len(x) + 1, Len(left))
RECURSIVE Pieces(_)
Pieces(m) == LET k == FirstNl(m) IN IF k = 0 THEN <<m>> ELSE <<SubSeq(m, 1, k - 1)>> \o Pieces(SubSeq(m, k + 1, Len(m)))
\* without a logger, the message is written as it is
Texts(s, m) == IF ~s.up THEN Pieces(m.msg) ELSE LET ls == Lines(m.msg) IN [i \in 1..Len(ls) |-> Header(s.show, m) \o Indent(s.ind) \o ls[i]]
View(s, m, v) == IF ~Shown(s, m) THEN v
                 ELSE LET xs == Texts(s, m) IN
                      IF s.up /\ m.level = "Progress" THEN [v EXCEPT !.cur = Over(xs[1], v.left), !.left = Over(Spaces(Len(xs[1])), v.left)]
                      ELSE [rows |-> v.rows \o [xs EXCEPT ![1] = Over(@, v.left)], cur |-> "", left |-> ""]
\* another logger, or none, goes on from here
Handover(v) == [v EXCEPT !.left = v.cur]
(* ---- a terminal: rows, the row of the cursor and its column ---- *)
Term == [rows |-> <<>>, cur |-> "", col |-> 0]
Write(t, x) == [t EXCEPT !.cur = SubSeq(@, 1, t.col) \o x \o SubSeq(@, t.col + Len(x) + 1, Len(@)), !.col = t.col + Len(x)]
Return(t) == [t EXCEPT !.col = 0]
Newline(t) == [rows |-> Append(t.rows, t.cur), cur |-> "", col |-> 0]
Token(t, k) == LET w == Write(t, k.x) IN CASE k.e = "cr" -> Return(w) [] k.e = "lf" -> Newline(w) [] OTHER -> w
RECURSIVE Play(_, _)
Play(t, ks) == IF ks = <<>> THEN t ELSE Play(Token(t, Head(ks)), Tail(ks))
Looks(t, v) == /\ Trim(t.cur) = Trim(v.cur)
               /\ Len(t.rows) = Len(v.rows) /\ \A i \in 1..Len(t.rows) : Trim(t.rows[i]) = Trim(v.rows[i])
=============================================================================
