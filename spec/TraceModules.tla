---------------------------- MODULE TraceModules ----------------------------
(* Recorded sessions: cases [id, steps: [t, m, s, w], log: [t, step, kind,  *)
(* text]], read one event at a time.                                        *)
EXTENDS ModEnv
VARIABLES c, i, up, open, next, v
Mods == {"pinyin", "furigana", "cyrillic", "version"}
M == INSTANCE Modules WITH Says <- Answer, Gives <- Given, Names <- Mods
Cases == Data.cases
vars == <<c, i, up, open, next, v>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ next = 1 /\ v = "run" /\ M!Start
K == Cases[c]
E == K.log[i]
Q == K.steps[E.step]
\* an event of the log as a step of the machine
InTurn == E.step = next /\ next' = next + 1
Good == \/ E.t = "ask"  /\ InTurn /\ Q.t = "ask"  /\ M!Ask(Q.m, Q.s, Q.w, <<E.kind, E.text>>)
        \/ E.t = "tick" /\ InTurn /\ Q.t = "tick" /\ UNCHANGED <<up, open>>
        \/ E.t = "call" /\ InTurn /\ Q.t = "call" /\ M!Call(E.step, Q.s, Q.w)
        \/ E.t = "settle" /\ M!Settle(E.step, <<E.kind, E.text>>) /\ UNCHANGED next
        \/ E.t = "end" /\ M!End /\ UNCHANGED next
Read == v = "run" /\ i <= Len(K.log) /\ Good /\ i' = i + 1 /\ UNCHANGED <<c, v>>
Want == IF E.step \in 1..Len(K.steps)
        THEN IF Q.t = "ask" THEN <<Answer(Q.m, Q.s, Q.w)>> ELSE IF Q.t = "call" THEN <<Given(Q.s, Q.w)>> ELSE <<>>
        ELSE <<>>
Stop == /\ v = "run"
        /\ \/ /\ i > Len(K.log)
              /\ LET ok == next = Len(K.steps) + 1 /\ open = {} IN
                 v' = (IF ok THEN "ok" ELSE "bad") /\ Say([id |-> K.id, bad |-> IF ok THEN 0 ELSE Len(K.log), want |-> <<>>])
           \/ /\ i <= Len(K.log) /\ ~ENABLED Good
              /\ v' = "bad" /\ Say([id |-> K.id, bad |-> i, want |-> Want])
        /\ UNCHANGED <<c, i, up, open, next>>
Next == Read \/ Stop
=============================================================================
