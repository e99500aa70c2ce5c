------------------------------- MODULE TraceCli ------------------------------
(***************************************************************************)
(* Runs of the real command. A case: known (the language or file loads),   *)
(* args, in, verbose, results (answers of the library: [w, ok, text,       *)
(* trace]), and what was observed: out (lines), err (text), code.          *)
(* With Data.every, the machine reads every input over Data.chars up to    *)
(* Data.depth instead and prints what the command must do.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
ASSUME TLCSet(2, TLCEval({Data.space[i] : i \in 1..Len(Data.space)}))
Cases == Data.cases
IsSpace(x) == x \in TLCGet(2)
ASSUME TLCSet(3, TLCEval([k \in 1..Len(Cases) |->
            LET R == Cases[k].results
                I == [w \in {R[i].w : i \in 1..Len(R)} |-> CHOOSE i \in 1..Len(R) : R[i].w = w]
            IN [w \in DOMAIN I |-> R[I[w]]]]))
\* a word without an answer must never be asked for
Answer(k, w) == LET F == TLCGet(3)[k]
                IN IF w \in DOMAIN F THEN F[w] ELSE [ok |-> FALSE, text |-> <<-9>>, trace |-> <<>>]
C == INSTANCE Cli WITH Space <- IsSpace, Lookup <- Answer
Say(x) == PrintT("@@" \o ToJson(x))

VARIABLES k, s, in
Every == Cases[k].every
Init == k \in 1..Len(Cases) /\ s = C!Begin(Cases[k].known) /\ in = IF Cases[k].every THEN <<>> ELSE Cases[k].in
Read == /\ s.st = "run" /\ ~Every
        /\ \E n \in {IF Cases[k].args # <<>> THEN C!ReadArg(s, k, Cases[k].args) ELSE IF Cases[k].coarse THEN C!ReadLine(s, k, in) ELSE C!ReadChar(s, k, in)} : s' = n
        /\ UNCHANGED <<k, in>>
Done(n, f) == /\ Say(f)
              /\ s' = [n EXCEPT !.st = "judged"]
              /\ UNCHANGED <<k, in>>
Judge == /\ s.st \in {"ok", "fail"} /\ ~Every
         /\ LET c == Cases[k]
                \* a failure prints an error and exits nonzero; the lines before it stay
                right == /\ c.out = s.lines
                         /\ (c.code = 0) = (s.st = "ok")
                         /\ s.st = "fail" => c.err # <<>>
                         /\ s.st = "ok" => c.err = IF c.verbose THEN s.traces ELSE <<>>
            IN Done(s, [id |-> c.id, right |-> right, want |-> s.lines, st |-> s.st, words |-> s.words])

\* every input: the machine reads what has been generated so far and is asked
\* what would happen if the input ended here
Grow == /\ Every /\ s.st # "judged" /\ Len(in) < Cases[k].depth
        /\ \E i \in 1..Len(Cases[k].chars) : in' = Append(in, Cases[k].chars[i])
        /\ \E n \in {IF s.st = "run" THEN C!ReadChar(s, k, in') ELSE s} : s' = n
        /\ UNCHANGED k
Next == Read \/ Judge \/ Grow

EndHere == IF s.st = "run" THEN C!ReadChar(s, k, in) ELSE s
Nonblank(q) == SelectSeq(q, LAMBDA w : w # <<>>)
RECURSIVE Lines(_, _)
Lines(q, cur) == IF q = <<>> THEN <<C!Trim(cur)>>
                 ELSE IF Head(q) = 10 THEN <<C!Trim(cur)>> \o Lines(Tail(q), <<>>) ELSE Lines(Tail(q), Append(cur, Head(q)))
\* the words, said again without the machine: the lines before the first blank one
Before(q) == LET B == {i \in 1..Len(q) : q[i] = <<>>}
             IN IF B = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in B : \A j \in B : i <= j) - 1)
\* the coarse reader is the fine one
RECURSIVE ByLine(_)
ByLine(q) == IF q.st = "run" THEN ByLine(C!ReadLine(q, k, in)) ELSE q
Check == Every => \E e \in {EndHere} :
            /\ Say([k |-> k, in |-> in, want |-> e.lines, st |-> e.st, words |-> e.words])
            /\ e.st = "ok" => e.words = Before(Lines(in, <<>>))
            /\ e.st = "fail" => e.words = SubSeq(Before(Lines(in, <<>>)), 1, Len(e.words))
            /\ \E b \in {ByLine(C!Begin(Cases[k].known))} : b.st = e.st /\ b.lines = e.lines /\ b.words = e.words /\ b.traces = e.traces
            /\ Len(e.lines) = Len(e.words) - (IF e.st = "fail" THEN 1 ELSE 0)
=============================================================================
