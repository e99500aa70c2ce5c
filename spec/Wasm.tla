-------------------------------- MODULE Wasm --------------------------------
(***************************************************************************)
(* The promises of the WebAssembly build. A call names a language and a    *)
(* word; if the language needs a transliterator that was registered from   *)
(* JavaScript when the call was made, JavaScript is asked for the word and *)
(* may answer at once or later, with a text or by failing in many ways.    *)
(* The call is then settled, once: with the text that the library gives    *)
(* for that answer, or with an Error.                                      *)
(*                                                                         *)
(* What the library says of a word is not part of this machine: Native(i,  *)
(* a) is the outcome of call i if its transliterator answers a ("-" when   *)
(* nothing is asked): [ok, text, msg, exact, free, trace]; free: the       *)
(* answer was no text, and what the call becomes is not said.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NCalls(_),       \* session -> how many calls it makes
          KnownIn(_, _),   \* session, call -> the language of the call exists
          SchemeIn(_, _),  \* the scheme the language of the call needs, "" for none
          NativeIn(_, _, _),
          Fails(_)         \* the answer is a failure

VARIABLES c,            \* the session
          reg,          \* registered schemes
          st,           \* call -> "off", "called", "asked", "answered", "done"
          ans,          \* call -> the answer; "-" none
          got           \* call -> how it was settled
wvars == <<c, reg, st, ans, got>>
Calls == 1..NCalls(c)
Known(i) == KnownIn(c, i)
Scheme(i) == SchemeIn(c, i)
Native(i, a) == NativeIn(c, i, a)

None == [ok |-> FALSE, text |-> "", msg |-> "none"]
WInit == reg = {} /\ st = [i \in Calls |-> "off"] /\ ans = [i \in Calls |-> "-"] /\ got = [i \in Calls |-> None]

Register(s) == reg' = reg \cup {s} /\ UNCHANGED <<c, st, ans, got>>
\* the answer to a registration: the first one stays
Accepts(s) == s \notin reg

\* what the call is bound to do is fixed when it is made
Asks(i) == Known(i) /\ Scheme(i) # "" /\ Scheme(i) \in reg
Call(i) == /\ st[i] = "off"
           /\ st' = [st EXCEPT ![i] = IF Asks(i) THEN "toask" ELSE "called"]
           /\ UNCHANGED <<c, reg, ans, got>>
Ask(i) == st[i] = "toask" /\ st' = [st EXCEPT ![i] = "asked"] /\ UNCHANGED <<c, reg, ans, got>>
Answer(i, a) == /\ st[i] = "asked"
                /\ st' = [st EXCEPT ![i] = "answered"] /\ ans' = [ans EXCEPT ![i] = a]
                /\ UNCHANGED <<c, reg, got>>
\* g: [ok, text, msg, error]: a failure comes as an Error with the message
Right(i, g) == LET n == Native(i, ans[i]) IN
               IF n.free THEN g.ok \/ g.error      \* the answer was no text: the call ends, somehow
               ELSE IF n.ok THEN g.ok /\ g.text = n.text
               ELSE ~g.ok /\ g.error /\ (n.exact => g.msg = n.msg)
Settle(i, g) == /\ st[i] \in {"called", "answered"}
                /\ Right(i, g)
                /\ st' = [st EXCEPT ![i] = "done"] /\ got' = [got EXCEPT ![i] = g]
                /\ UNCHANGED <<c, reg, ans>>
\* nothing is left to do for the library
Quiet == \A i \in Calls : st[i] \in {"off", "asked", "done"}

(* ---- what C29 says ------------------------------------------------------- *)
FailureRejects == \A i \in Calls : st[i] = "done" /\ ans[i] # "-" /\ Fails(ans[i]) => ~got[i].ok
NoAnswerNoCall == \A i \in Calls : ans[i] # "-" => Known(i) /\ Scheme(i) \in reg
\* a settled call stays settled, as it was
Once == [][\A i \in Calls : st[i] = "done" => st'[i] = "done" /\ got'[i] = got[i]]_wvars
\* calls do not disturb each other
Apart == [][\A i, j \in Calls : i # j /\ st[i] # st'[i] => st[j] = st'[j]]_wvars
\* every call whose answer has come is settled
Settled == ~Quiet ~> Quiet
=============================================================================
