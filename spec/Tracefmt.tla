------------------------------ MODULE Tracefmt -------------------------------
(***************************************************************************)
(* The formatter of traces: it takes one event at a time, writes a header  *)
(* when the step is another one, and a line with the word and, in a column *)
(* of its own, the rule or the reason. The column is a multiple of eight   *)
(* cells; it moves right when a word does not fit, and by no more than     *)
(* needed for it to be set apart.                                          *)
(*                                                                         *)
(* case: events [step, word, width, why, rule], from, to (texts as code    *)
(* points) and lines, what was written. The machine is run over the lines; *)
(* a case is right if some behaviour writes exactly these lines.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
Cases == Data.cases
Say(x) == PrintT("@@" \o ToJson(x))

VARIABLES c, i, n, step, col, st
vars == <<c, i, n, step, col, st>>
K == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 1 /\ n = 1 /\ step = <<>> /\ col = 0 /\ st = "run"

Spaces(k) == [j \in 1..k |-> 32]
Bar == <<32, 124, 32>>
Quote == <<34>>
Arrow == <<34, 32, 45, 62, 32, 34>>
Detail(e) == IF e.rule THEN Bar \o Quote \o e.from \o Arrow \o e.to \o Quote
             ELSE IF e.why # <<>> THEN Bar \o <<40>> \o e.why \o <<41>>
             ELSE <<>>
RECURSIVE RTrim(_)
RTrim(w) == IF w # <<>> /\ w[Len(w)] = 32 THEN RTrim(SubSeq(w, 1, Len(w) - 1)) ELSE w
\* where the column may be after a word of the width w
Columns(w) == IF w <= col THEN {col} ELSE {k \in {8 * (w \div 8), 8 * (w \div 8) + 8} : k >= w}
\* with no detail the column is not to be seen
Line(e, k) == <<32, 32>> \o e.word \o Spaces(k - e.width) \o Detail(e)
Same(a, b, e) == IF Detail(e) = <<>> THEN RTrim(a) = RTrim(b) ELSE a = b

Header == /\ st = "run" /\ i <= Len(K.events) /\ K.events[i].step # step
        /\ n <= Len(K.lines) /\ K.lines[n] = <<91>> \o K.events[i].step \o <<93>>
        /\ step' = K.events[i].step /\ n' = n + 1 /\ UNCHANGED <<c, i, col, st>>
Event == /\ st = "run" /\ i <= Len(K.events) /\ K.events[i].step = step
         /\ n <= Len(K.lines)
         /\ \E k \in Columns(K.events[i].width) :
              /\ Same(K.lines[n], Line(K.events[i], k), K.events[i])
              /\ col' = k
         /\ i' = i + 1 /\ n' = n + 1 /\ UNCHANGED <<c, step, st>>
End == /\ st = "run" /\ i > Len(K.events) /\ n > Len(K.lines) /\ K.ended
       /\ st' = "right" /\ UNCHANGED <<c, i, n, step, col>>
Next == Header \/ Event \/ End
Spec == Init /\ [][Next]_vars
Emit == st = "right" => Say([id |-> K.id])

\* C30
ColumnOK == col % 8 = 0 /\ (i > 1 => col >= K.events[i - 1].width)
OnlyRight == [][col' >= col]_vars
OneLineEach == n - 1 = (i - 1) + Cardinality({j \in 1..i : j <= Len(K.events) /\ (j < i \/ K.events[j].step = step) /\ K.events[j].step # IF j = 1 THEN <<>> ELSE K.events[j - 1].step})
Inv == ColumnOK /\ OneLineEach
=============================================================================
