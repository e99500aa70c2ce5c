-------------------------------- MODULE MCTr ---------------------------------
(***************************************************************************)
(* Every text over each alphabet of Data.alphabets, for pinyin (country "")*)
(* or for a country's table; what the specification says goes to the real  *)
(* code, and the promises are checked without the machines.                *)
(***************************************************************************)
EXTENDS TrEnv
VARIABLES a, w
A == Data.alphabets[a]
Init == a \in 1..Len(Data.alphabets) /\ w = <<>>
Next == Len(w) < A.depth /\ \E i \in 1..Len(A.chars) : w' = Append(w, A.chars[i]) /\ UNCHANGED a

\* pinyin: cut the output at the separators; put every unit back
Cuts(o) == {i \in 1..Len(o) : o[i] = P!ZWSP}
PinyinCheck(o) ==
    LET hanzi == {i \in 1..Len(w) : Reads(w[i]) # <<>>}
        runs  == {i \in 1..Len(w) : i \notin hanzi /\ (i = 1 \/ i-1 \in hanzi)}
        rest  == SelectSeq(w, LAMBDA c : Reads(c) = <<>>)
        len[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE len[i-1] + IF i \in hanzi THEN Len(Reads(w[i])) ELSE 1
        units == Cardinality(hanzi) + Cardinality(runs)
    IN /\ Len(o) = len[Len(w)] + (IF units = 0 THEN 0 ELSE units - 1)
       /\ (\A i \in 1..Len(w) : w[i] # P!ZWSP) =>
             /\ Cardinality(Cuts(o)) = IF units = 0 THEN 0 ELSE units - 1
             /\ o # <<>> => o[1] # P!ZWSP /\ o[Len(o)] # P!ZWSP
             /\ \A i \in 2..Len(o) : ~(o[i] = P!ZWSP /\ o[i-1] = P!ZWSP)

\* cyrillic: the output is a greedy cover of the text
RECURSIVE Covers(_, _, _, _)
Covers(o, i, j, T) ==
    IF i > Len(w) THEN j = Len(o) + 1
    ELSE LET S == C!At(w, i, T)
             most == C!Max({0} \cup {Len(p[1]) : p \in S})
         IN IF most = 0 THEN j <= Len(o) /\ o[j] = w[i] /\ Covers(o, i+1, j+1, T)
            ELSE \E p \in S : Len(p[1]) = most /\ C!OccursAt(p[2], o, j) /\ Covers(o, i + most, j + Len(p[2]), T)
Check == \E o \in {IF A.country = "" THEN P!Pinyin(w) ELSE C!Cyrillic(w, A.country)} :
    /\ Say([a |-> a, w |-> w, o |-> o])
    /\ IF A.country = "" THEN PinyinCheck(o) ELSE Covers(o, 1, 1, Tab(A.country))
=============================================================================
