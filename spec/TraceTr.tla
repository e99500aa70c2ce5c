------------------------------- MODULE TraceTr -------------------------------
(* Recorded transliterations, read one step at a time. A case: id, country  *)
(* ("" for pinyin), word (composed), out.                                   *)
EXTENDS TrEnv
VARIABLES c, i, s, v
Cases == Data.cases
K == Cases[c]
Pin(k) == Cases[k].country = ""
Init == c \in 1..Len(Cases) /\ i = 1 /\ v = "run" /\ s = IF Pin(c) THEN P!Begin ELSE C!Begin
Place == IF Pin(c) THEN i ELSE s.i
Step == /\ v = "run" /\ Place <= Len(K.word)
        /\ IF Pin(c) THEN \E n \in {P!ReadChar(s, K.word[i])} : s' = n ELSE \E n \in {C!Scan(K.word, s, Tab(K.country))} : s' = n
        /\ i' = i + 1 /\ UNCHANGED <<c, v>>
Judge == /\ v = "run" /\ Place > Len(K.word)
         /\ \E want \in {IF Pin(c) THEN P!Finish(s) ELSE s.out} :
              /\ v' = IF want = K.out THEN "ok" ELSE "bad"
              /\ Say([id |-> K.id, right |-> want = K.out, want |-> want])
         /\ UNCHANGED <<c, i, s>>
Next == Step \/ Judge
=============================================================================
