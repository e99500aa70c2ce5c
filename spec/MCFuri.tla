------------------------------- MODULE MCFuri -------------------------------
(***************************************************************************)
(* Every text of up to Data.depth characters (Data.alphabets) and every    *)
(* sequence of up to Data.tdepth tokens of Data.pool, with what the        *)
(* specification says about each, for the real code; the invariants are    *)
(* the promises, stated without the machines.                              *)
(***************************************************************************)
EXTENDS FuriEnv
VARIABLES mode, a, w
Init == \/ mode = "kana" /\ a \in 1..Len(Data.alphabets) /\ w = <<>>
        \/ mode = "token" /\ a = 0 /\ w = <<>>
Next == /\ \/ mode = "kana" /\ Len(w) < Data.alphabets[a].depth
              /\ \E i \in 1..Len(Data.alphabets[a].chars) : w' = Append(w, Data.alphabets[a].chars[i])
           \/ mode = "token" /\ Len(w) < Data.tdepth
              /\ \E i \in 1..Len(Data.pool) : w' = Append(w, i)
        /\ UNCHANGED <<mode, a>>

Marks == {12445, 12446, 12541, 12542}
KanaCheck ==
    mode = "kana" => \E r \in {F!Resolve(w)} : \E m \in {[n \in 1..Len(w) + 1 |-> F!Merge(w, n - 1)]} :
      /\ Say([k |-> "kana", w |-> w, r |-> r, m |-> m])
      /\ Len(r) = Len(w)
      /\ F!Resolve(r) = r
      /\ \A i \in 1..Len(w) :
           /\ w[i] \notin Marks => r[i] = w[i]
           /\ r[i] \in Marks => (i = 1 \/ Syll(r[i-1]) # (IF r[i] < 12500 THEN "hira" ELSE "kata"))
           /\ r[i] # w[i] => Pl(r[i]) = Pl(r[i-1])
      /\ \A n \in 1..Len(w) + 1 : \A i \in 1..Len(w) :
           /\ m[n][i] \in {w[i], F!LONG}
           /\ i < n => m[n][i] = w[i]
           /\ i >= n => m[n][i] = m[1][i]                          \* judged on the text itself
           /\ (m[n][i] # w[i]) => \E v \in DOMAIN F!Big : w[i] \in {F!Big[v], F!Small[v]}

Toks == [i \in 1..Len(w) |-> Data.pool[w[i]]]
Real == SelectSeq(Toks, LAMBDA t : ~t.dummy)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
TokenCheck ==
    mode = "token" => \E o \in {F!Write(Toks)} : \E q \in {Real} :
      LET core == SelectSeq(q, LAMBDA t : F!Class(t) # "aux")
          lead == IF q # <<>> /\ F!Class(q[1]) = "aux" THEN <<q[1]>> ELSE <<>>
          words == lead \o core
          spaces == Cardinality({i \in 2..Len(words) : F!Class(words[i]) = "person" /\ F!Class(words[i-1]) = "person"})
      IN /\ Say([k |-> "token", w |-> w, o |-> o])
         /\ Len(o) = Sum([i \in 1..Len(q) |-> Len(F!Sound(q[i]))]) + spaces
         \* taking the spaces away, every character is the written one or a long mark
         /\ spaces = 0 => LET flat == F!Concat([i \in 1..Len(q) |-> F!Sound(q[i])])
                          IN \A i \in 1..Len(o) : o[i] \in {flat[i], F!LONG}
Check == KanaCheck /\ TokenCheck
=============================================================================
