------------------------------ MODULE TraceWasm ------------------------------
(***************************************************************************)
(* Sessions recorded from the real wasm build under a JavaScript engine    *)
(* must be behaviours of Wasm.tla. Each case: calls ([known, scheme, word, *)
(* traced, native: outcomes by answer]) and log, the events in the order   *)
(* in which JavaScript saw them:                                           *)
(*   <<"reg", scheme, answer>>, <<"call", i, promise>>,                    *)
(*   <<"ask", scheme, word>>, <<"answer", word, kind>>,                    *)
(*   <<"trace", i, event>>, <<"settle", i, ok, text, isError>>, <<"end">>. *)
(* The first event that the machine cannot do is reported.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
Cases == Data.cases
Outcomes == Data.outcomes
FailKinds == {Data.fails[k] : k \in 1..Len(Data.fails)}
Say(x) == PrintT("@@" \o ToJson(x))
VARIABLES c, n, seen, bad, reg, st, ans, got
K == Cases[c]
TN(x) == Len(Cases[x].calls)
TKnown(x, i) == Cases[x].calls[i].known
TScheme(x, i) == Cases[x].calls[i].scheme
TNative(x, i, a) == LET q == Cases[x].calls[i].native IN
                 IF \E k \in 1..Len(q) : q[k][1] = a THEN Outcomes[q[CHOOSE k \in 1..Len(q) : q[k][1] = a][2]]
                 ELSE [ok |-> FALSE, text |-> "", msg |-> "no such answer", exact |-> TRUE, free |-> FALSE, trace |-> <<>>]
TFails(a) == a \in FailKinds
W == INSTANCE Wasm WITH NCalls <- TN, KnownIn <- TKnown, SchemeIn <- TScheme, NativeIn <- TNative, Fails <- TFails

Init == c \in 1..Len(Cases) /\ n = 1 /\ bad = 0 /\ seen = [i \in 1..Len(Cases[c].calls) |-> <<>>] /\ reg = {Cases[c].reg[k] : k \in 1..Len(Cases[c].reg)}
        /\ st = [i \in 1..Len(Cases[c].calls) |-> "off"] /\ ans = [i \in 1..Len(Cases[c].calls) |-> "-"]
        /\ got = [i \in 1..Len(Cases[c].calls) |-> W!None]
E == K.log[n]
Of(word) == {i \in 1..Len(K.calls) : K.calls[i].word = word}
Step ==
    CASE E[1] = "reg" -> E[3] = W!Accepts(E[2]) /\ W!Register(E[2]) /\ UNCHANGED seen
      [] E[1] = "call" -> E[3] /\ W!Call(E[2]) /\ UNCHANGED seen
      [] E[1] = "ask" -> \E i \in Of(E[3]) : TScheme(c, i) = E[2] /\ W!Ask(i) /\ UNCHANGED seen
      [] E[1] = "answer" -> \E i \in Of(E[2]) : W!Answer(i, E[3]) /\ UNCHANGED seen
      [] E[1] = "trace" -> /\ K.calls[E[2]].traced /\ st[E[2]] \notin {"off"}
                           /\ seen' = [seen EXCEPT ![E[2]] = Append(@, E[3])] /\ UNCHANGED <<c, reg, st, ans, got>>
      [] E[1] = "settle" -> W!Settle(E[2], [ok |-> E[3], text |-> IF E[3] THEN E[4] ELSE "", msg |-> IF E[3] THEN "" ELSE E[4], error |-> E[5]]) /\ UNCHANGED seen
      [] E[1] = "end" -> /\ \A i \in 1..Len(K.calls) : st[i] \in {"off", "done"}
                         /\ \A i \in 1..Len(K.calls) : st[i] = "done" /\ K.calls[i].traced /\ ~TNative(c, i, ans[i]).free => seen[i] = TNative(c, i, ans[i]).trace
                         /\ UNCHANGED <<c, reg, st, ans, got, seen>>
      [] OTHER -> FALSE
Next == bad = 0 /\ n <= Len(K.log) /\ 
        \/ Step /\ n' = n + 1 /\ UNCHANGED bad
        \/ ~ENABLED Step /\ bad' = n /\ UNCHANGED <<c, n, seen, reg, st, ans, got>>
Verdict == (bad > 0 \/ n > Len(K.log)) => Say([id |-> K.id, bad |-> bad, st |-> st])
Inv == W!FailureRejects /\ W!NoAnswerNoCall
\* the list of specs that JavaScript sees is the list of the library
SameSpecs == \A k \in 1..Len(Data.specs) : Data.specs[k].js = Data.specs[k].native
ASSUME Say([specs |-> {Data.specs[k].lang : k \in {j \in 1..Len(Data.specs) : Data.specs[j].js # Data.specs[j].native}}])
=============================================================================
