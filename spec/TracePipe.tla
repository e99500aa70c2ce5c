------------------------------ MODULE TracePipe -----------------------------
(***************************************************************************)
(* Trace validation: every recorded execution (spec, word, result, events) *)
(* of the real code must be a behaviour of Pipeline. A case is              *)
(*   [spec, word, mode, result, err, events, tl]                            *)
(* mode "result": only the result is compared; "trace": every event too.    *)
(* tl: recorded calls of transliterators <<scheme, in, out>>.               *)
(***************************************************************************)
EXTENDS Env
Cases == Data.cases

VARIABLES c, st, v    \* case, machine state, verdict: "run", "ok", "bad"

Init == c \in 1..Len(Cases) /\ st = <<>> /\ v = "new"

Tl(s, w) == LET T == Cases[c].tl
                k == {i \in 1..Len(T) : T[i][1] = s /\ T[i][2] = w}
            IN IF k = {} THEN <<-7>> ELSE T[CHOOSE i \in k : TRUE][3]

RECURSIVE TlAll(_, _, _)
TlAll(schemes, k, w) == IF k > Len(schemes) THEN w ELSE TlAll(schemes, k+1, Tl(schemes[k], w))

Report(what, got) ==
    Say([id |-> Cases[c].id, what |-> what, want |-> got.word, step |-> got.step, rule |-> got.rule])

Begin == v = "new" /\ v' = "run" /\ st' = P!Start(Cases[c].word) /\ UNCHANGED c

ResultOnly ==
    /\ v = "new" /\ Cases[c].mode = "result"
    /\ \E r \in {P!ResultOf(Specs[Cases[c].spec], TlAll(Specs[Cases[c].spec].schemes, 1, Cases[c].word))} :
       LET good == r = Cases[c].result
       IN /\ v' = IF good THEN "ok" ELSE "bad"
          /\ IF good THEN TRUE ELSE Report("result", P!Ev("Result", r, "", 0))
    /\ UNCHANGED <<c, st>>

Step ==
    /\ v = "run" /\ st.ph # "Done"
    /\ \E n \in {P!StepOf(Specs[Cases[c].spec], st, Tl)} :     \* (bound so that it is evaluated once)
       LET R == Cases[c].events
           match == n.n = st.n \/ (n.n <= Len(R) /\ R[n.n] = n.ev)
       IN /\ st' = n
          /\ v' = IF match THEN "run" ELSE "bad"
          /\ IF match THEN TRUE ELSE Report("event", n.ev)
    /\ UNCHANGED c

Finish ==
    /\ v = "run" /\ st.ph = "Done"
    /\ LET good == st.n = Len(Cases[c].events) /\ st.w = Cases[c].result
       IN /\ v' = IF good THEN "ok" ELSE "bad"
          /\ IF good THEN TRUE ELSE Report(IF st.w = Cases[c].result THEN "extra event" ELSE "result",
                            P!Ev("Result", st.w, "", st.n))
    /\ UNCHANGED <<c, st>>

(* What must be true of every result, whatever the rules are (C15): no      *)
(* letter of the language's script and no failed syllable, only characters. *)
Proper(cs, word, out) ==
    \A i \in 1..Len(out) :
        /\ ~P!InScript(cs.script, out[i])
        /\ out[i] = 65533 => \E j \in 1..Len(word) : word[j] \in {65533} \/ word[j] < 0
        /\ out[i] < 0 => \E j \in 1..Len(word) : word[j] < 0
TotalOnly ==
    /\ v = "new" /\ Cases[c].mode = "total"
    /\ LET good == Proper(Specs[Cases[c].spec], Cases[c].word, Cases[c].result)
       IN /\ v' = IF good THEN "ok" ELSE "bad"
          /\ IF good THEN TRUE ELSE Report("improper", P!Ev("Result", <<>>, "", 0))
    /\ UNCHANGED <<c, st>>

Next == IF v = "new" /\ Cases[c].mode = "total" THEN TotalOnly
        ELSE IF v = "new" /\ Cases[c].mode = "result" THEN ResultOnly ELSE Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_<<c, st, v>>

\* every case ends with a verdict
NoStuck == v \in {"new", "run", "ok", "bad"}
=============================================================================
