------------------------------- MODULE MCJamo -------------------------------
(***************************************************************************)
(* Composition of jamo: every sequence over an alphabet up to a length.    *)
(* Syllabic is what composition means, stated over the whole sequence.     *)
(***************************************************************************)
EXTENDS Jamo, Json, IOUtils, FiniteSets
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
VARIABLES k, w
Init == k \in 1..Len(Data.alphas) /\ w = <<>>
Next == /\ Len(w) < Data.lens[k]
        /\ \E i \in 1..Len(Data.alphas[k]) : w' = Append(w, Data.alphas[k][i])
        /\ UNCHANGED k
EmitResult == PrintT("@@" \o ToJson([k |-> k, w |-> w, out |-> Compose(w)]))

(* The syllables which the jamo and syllables of w begin: i begins one if   *)
(* nothing before it is still waiting for it.                               *)
HyphenBefore(i) == i > 1 /\ w[i-1] = HYPHEN
Prev(i) == LET c == {j \in 1..(i-1) : w[j] # HYPHEN} IN IF c = {} THEN 0 ELSE Max(c)
Role(i) == IF w[i] = HYPHEN THEN "none"
           ELSE IF IsVowel(w[i]) THEN "medial"
           ELSE IF IsConsonant(w[i]) THEN IF HyphenBefore(i) THEN "tail" ELSE "lead"
           ELSE IF IsSyllable(w[i]) THEN "whole" ELSE "other"
RECURSIVE Has(_, _)
(* has the syllable i belongs to a medial (1) / a tail (2) up to and        *)
(* including i                                                              *)
Joins(i) == LET p == Prev(i) IN
    /\ p # 0
    /\ Role(p) # "other"
    /\ CASE Role(i) = "medial" -> Has(p, 1) = FALSE /\ Has(p, 2) = FALSE
         [] Role(i) = "tail"   -> Has(p, 2) = FALSE
         [] OTHER -> FALSE
Has(i, part) ==
    \/ Role(i) = "medial" /\ part = 1
    \/ Role(i) = "tail" /\ part = 2
    \/ Role(i) = "whole" /\ part = 1
    \/ Role(i) = "whole" /\ part = 2 /\ TailOf(w[i]) # 0
    \/ Joins(i) /\ Has(Prev(i), part)
Starts == {i \in 1..Len(w) : Role(i) # "none" /\ ~Joins(i)}
MembersOf(i) == {i} \cup {j \in (i+1)..Len(w) : Role(j) # "none" /\ ~\E q \in Starts : i < q /\ q <= j}
Pick(S, r) == LET c == {j \in S : Role(j) = r} IN IF c = {} THEN 0 ELSE w[Min(c)]
One(i) == LET S == MembersOf(i) IN
    IF Role(i) = "other" THEN w[i]
    ELSE IF Role(i) = "whole"
         THEN IF Pick(S, "tail") = 0 THEN w[i] ELSE Syllable(LeadOf(w[i]), MedialOf(w[i]), Pick(S, "tail"))
         ELSE Syllable(Pick(S, "lead"), Pick(S, "medial"), Pick(S, "tail"))
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Ordered(S \ {Min(S)})
Syllabic == Compose(w) = LET q == Ordered(Starts) IN [j \in 1..Len(q) |-> One(q[j])]
NoHyphen == \A i \in 1..Len(Compose(w)) : Compose(w)[i] # HYPHEN
=============================================================================
