------------------------------ MODULE TraceFuri -----------------------------
(***************************************************************************)
(* Recorded transliterations. A case is either                             *)
(*   kind "kana":  word, out (of repeatKana), merges: <<[n, out]>>          *)
(*   kind "write": tokens (of the analyser on the resolved text), out       *)
(* read one character, one token at a time.                                *)
(***************************************************************************)
EXTENDS FuriEnv
VARIABLES c, i, s, v
Cases == Data.cases
K == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 1 /\ v = "run"
        /\ s = IF Cases[c].kind = "kana" THEN <<>> ELSE F!WriterStart
Step == /\ v = "run"
        /\ \/ K.kind = "kana" /\ i <= Len(K.word) /\ s' = F!ResolveNext(s, K.word[i])
           \/ K.kind = "write" /\ i <= Len(K.tokens) /\ \E n \in {F!ReadToken(s, K.tokens[i])} : s' = n
        /\ i' = i + 1 /\ UNCHANGED <<c, v>>
Judge == /\ v = "run"
         /\ \/ K.kind = "kana" /\ i > Len(K.word)
            \/ K.kind = "write" /\ i > Len(K.tokens)
         /\ LET want == IF K.kind = "kana" THEN s ELSE F!Finish(s)
                mg == IF K.kind = "kana" THEN K.merges ELSE <<>>
                bad == {j \in 1..Len(mg) : F!Merge(K.word, mg[j].n) # mg[j].out}
                right == want = K.out /\ bad = {}
            IN /\ v' = IF right THEN "ok" ELSE "bad"
               /\ Say([id |-> K.id, right |-> right, want |-> want,
                       merges |-> [j \in 1..Len(mg) |-> F!Merge(K.word, mg[j].n)]])
         /\ UNCHANGED <<c, i, s>>
Next == Step \/ Judge
=============================================================================
