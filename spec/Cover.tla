-------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* 'hangulize test': the files are visited in order, the examples of each  *)
(* in order; a failing one is reported; the rules which changed a word are *)
(* hit. At the end the command fails if any example failed, and otherwise  *)
(* reports the coverage and writes the profile.                            *)
(*                                                                         *)
(* file: [name, src, ok, tests: <<[word, expected, ok, result, hits]>>]    *)
(* hits: sequence of <<step, id>>                                          *)
(***************************************************************************)
EXTENDS SpecFile

Begin == [f |-> 1, e |-> 0, failures |-> <<>>, hits |-> {}, st |-> "run"]

\* one file opened, or one example tried
Step(s, files) ==
    IF s.f > Len(files) THEN [s EXCEPT !.st = IF s.failures = <<>> THEN "ok" ELSE "fail"]
    ELSE LET f == files[s.f] IN
    IF ~f.ok THEN [s EXCEPT !.st = "error"]
    ELSE IF s.e >= Len(f.tests) THEN [s EXCEPT !.f = @ + 1, !.e = 0]
    ELSE LET t == f.tests[s.e + 1]
             good == t.ok /\ t.result = t.expected
         IN [s EXCEPT !.e = @ + 1,
                      !.failures = IF good THEN @ ELSE Append(@, <<f.name, t.word, t.result, t.expected, t.ok>>),
                      !.hits = @ \cup {<<f.name, t.hits[i][1], t.hits[i][2]>> : i \in 1..Len(t.hits)}]

\* bytes of a character in UTF-8
Size(c) == IF c < 0 THEN 1 ELSE IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE LineAt(_, _, _)
\* the text of the n-th line
LineAt(d, n, i) == IF n = 1 THEN SubSeq(d, i, H!Until(d, i, "line") - 1)
                   ELSE LineAt(d, n - 1, H!Until(d, i, "line") + 1)
RECURSIVE Bytes(_)
Bytes(w) == IF w = <<>> THEN 0 ELSE Size(Head(w)) + Bytes(Tail(w))
Width(d, n) == LET l == LineAt(d, n, 1)
                   m == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l)-1) ELSE l
               IN Bytes(m)

\* the rules of a file, as <<step, id, line>>
RulesOf(p) == LET R == Sec(p, N.rewrite).pairs  T == Sec(p, N.transcribe).pairs
              IN {<<"Rewrite", i - 1, R[i].line>> : i \in 1..Len(R)} \cup {<<"Transcribe", i - 1, T[i].line>> : i \in 1..Len(T)}
=============================================================================
