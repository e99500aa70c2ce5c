------------------------------- MODULE MCWasm -------------------------------
(***************************************************************************)
(* Every schedule of a few calls: when each is made, when and how its      *)
(* transliterator answers (also before it is asked: the answer is then     *)
(* given at once), when the schemes are registered. Every complete         *)
(* schedule is printed; the wasm build is driven through each of them.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
Say(x) == PrintT("@@" \o ToJson(x))
KS == Data.calls                     \* [known, scheme, kinds]
SKnown(x, i) == KS[i].known
SScheme(x, i) == KS[i].scheme
Odd == {Data.odd[k] : k \in 1..Len(Data.odd)}
SFails(a) == a \notin {"value", "sync", "resolved", "thenable"} \cup Odd
SNative(x, i, a) == [ok |-> KS[i].known /\ (a = "-" => KS[i].scheme = "") /\ ~(a # "-" /\ SFails(a)), text |-> ToString(i) \o a, msg |-> "", exact |-> FALSE, free |-> a \in Odd, trace |-> <<>>]
SN(x) == Len(KS)
VARIABLES c, reg, st, ans, got, h, pre
W == INSTANCE Wasm WITH NCalls <- SN, KnownIn <- SKnown, SchemeIn <- SScheme, NativeIn <- SNative, Fails <- SFails
v == <<c, reg, st, ans, got, h, pre>>
Schemes == {KS[i].scheme : i \in 1..Len(KS)} \ {""}
Init == c = 1 /\ W!WInit /\ h = <<>> /\ pre = [i \in 1..Len(KS) |-> "-"]

Outcome(i) == LET n == SNative(1, i, ans[i]) IN [ok |-> n.ok, text |-> n.text, msg |-> n.msg, error |-> ~n.ok]
Lib == \E i \in 1..Len(KS) :
         \/ W!Ask(i) /\ UNCHANGED <<h, pre>>
         \/ st[i] = "asked" /\ pre[i] # "-" /\ W!Answer(i, pre[i]) /\ UNCHANGED <<h, pre>>
         \/ W!Settle(i, Outcome(i)) /\ UNCHANGED <<h, pre>>
Busy == ~W!Quiet \/ \E i \in 1..Len(KS) : st[i] = "asked" /\ pre[i] # "-"
Kinds(i) == {KS[i].kinds[k] : k \in 1..Len(KS[i].kinds)}
Answered(i) == \E k \in 1..Len(h) : h[k][1] = "answer" /\ h[k][2] = i
Env == \/ \E s \in Schemes : s \notin reg /\ W!Register(s) /\ h' = Append(h, <<"reg", s>>) /\ UNCHANGED pre
       \/ \E i \in 1..Len(KS) : W!Call(i) /\ h' = Append(h, <<"call", i>>) /\ UNCHANGED pre
       \/ \E i \in 1..Len(KS) : KS[i].scheme # "" /\ ~Answered(i) /\ \E a \in Kinds(i) :
            /\ IF st[i] = "off" THEN KS[i].early /\ pre' = [pre EXCEPT ![i] = a] /\ UNCHANGED <<c, reg, st, ans, got>>
               ELSE st[i] = "asked" /\ W!Answer(i, a) /\ UNCHANGED pre
            /\ h' = Append(h, <<"answer", i, a>>)
Next == IF Busy THEN Lib ELSE Env
Fair == WF_v(Lib)
Spec == Init /\ [][Next]_v /\ Fair
Complete == ~Busy /\ \A i \in 1..Len(KS) : st[i] = "done"
Emit == Complete => Say([h |-> h])
Inv == W!FailureRejects /\ W!NoAnswerNoCall
PApart == W!Apart
POnce == W!Once
Live == W!Settled
=============================================================================
