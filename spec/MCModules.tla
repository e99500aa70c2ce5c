----------------------------- MODULE MCModules ------------------------------
(***************************************************************************)
(* Every sequence of up to Data.depth questions and library calls of the   *)
(* pools Data.asks and Data.calls; a call may be settled at any time.  The *)
(* order of the questions is printed: the settling is the code's choice.   *)
(***************************************************************************)
EXTENDS ModEnv
VARIABLES up, open, h
Mods == {"pinyin", "furigana", "cyrillic"}
M == INSTANCE Modules WITH Says <- Answer, Gives <- Given, Names <- Mods
vars == <<up, open, h>>
Init == M!Start /\ h = <<>>
More == Len(h) < Data.depth
Next == \/ /\ More
           /\ \E j \in 1..Len(Data.asks) : LET q == Data.asks[j] IN
                /\ M!Ask(q.m, q.s, q.w, Answer(q.m, q.s, q.w))
                /\ h' = Append(h, <<"ask", j>>)
        \/ /\ More
           /\ \E j \in 1..Len(Data.calls) : LET q == Data.calls[j] IN
                /\ M!Call(Len(h) + 1, q.lang, q.w)
                /\ h' = Append(h, <<"call", j>>)
        \/ /\ \E c \in open : M!Settle(c.id, Given(c.lang, c.word)) /\ UNCHANGED h
Spec == Init /\ [][Next]_vars /\ WF_vars(\E c \in open : M!Settle(c.id, Given(c.lang, c.word)) /\ UNCHANGED h)
Emit == open = {} /\ h # <<>> => Say([h |-> h])
\* whatever was asked before, every module still runs and says the same
Always == [][up' = up]_vars
Steady == \A j \in 1..Len(Data.asks) : LET q == Data.asks[j] IN
             ENABLED M!Ask(q.m, q.s, q.w, Answer(q.m, q.s, q.w))
Settled == \A i \in 1..5 : (\E c \in open : c.id = i) ~> (\A c \in open : c.id # i)
=============================================================================
