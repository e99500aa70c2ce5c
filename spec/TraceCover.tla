------------------------------ MODULE TraceCover -----------------------------
(***************************************************************************)
(* Runs of 'hangulize test'. A case: files, cover (asked for), profile     *)
(* (asked for), and observed: code, reports (<<name, word, result,         *)
(* expected>> found in the output), percent10 (ten times the percentage    *)
(* printed, or -1), lines (of the profile: <<name, line, width, hit>>),    *)
(* wrote (a profile with its heading was found).                           *)
(***************************************************************************)
EXTENDS Cover
Cases == Data.cases
VARIABLES c, s
K == [Cases[c] EXCEPT !.files = [i \in 1..Len(Cases[c].files) |-> Data.files[Cases[c].files[i]]]]
Init == c \in 1..Len(Cases) /\ s = Begin
Go == s.st = "run" /\ \E n \in {Step(s, K.files)} : s' = n /\ UNCHANGED c

\* what the sources say, read once: the rules of every file, and the lines of
\* the profile with an open end
ASSUME TLCSet(4, TLCEval([f \in 1..Len(Data.files) |->
            LET R == IF Data.files[f].ok THEN RulesOf(H!Parsed(Data.files[f].src)) ELSE {}
            IN [r \in R |-> Width(Data.files[f].src, r[3]) + 1]]))
Profile == TLCGet(4)
\* each file once
Used == {Cases[c].files[i] : i \in 1..Len(Cases[c].files)}
Hit(f, r) == IF <<Data.files[f].name, r[1], r[2]>> \in s.hits THEN 1 ELSE 0
RECURSIVE FlatOf(_, _)
FlatOf(f, D) == IF D = {} THEN <<>> ELSE LET r == CHOOSE x \in D : TRUE
                                         IN <<<<Data.files[f].name, r[3], Profile[f][r], Hit(f, r)>>>> \o FlatOf(f, D \ {r})
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE x \in S : TRUE IN FlatOf(n, DOMAIN Profile[n]) \o Flat(S \ {n})
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

Reports == [i \in 1..Len(s.failures) |-> SubSeq(s.failures[i], 1, 4)]
Judge ==
    /\ s.st \in {"ok", "fail", "error"}
    /\ LET RECURSIVE Sum(_)
           Sum(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN Cardinality(DOMAIN Profile[n]) + Sum(S \ {n})
           total == Sum(Used)
           hit == Cardinality(s.hits)
           diff == K.percent10 * total - 1000 * hit
           code == (K.code = 0) = (s.st = "ok")
           said == K.reports = Reports
           share == (s.st = "ok" /\ K.cover /\ total > 0) => K.percent10 >= 0 /\ 2 * diff <= total + 1 /\ 2 * diff >= -(total + 1)
           want == IF s.st = "ok" /\ K.profile THEN Flat(Used) ELSE <<>>
           prof == (s.st = "ok" /\ K.profile) => K.wrote /\ SameBag(want, K.lines)
           why == (IF code THEN "" ELSE "exit status; ") \o (IF said THEN "" ELSE "reports; ") \o (IF share THEN "" ELSE "coverage; ") \o (IF prof THEN "" ELSE "profile; ")
       IN Say([id |-> K.id, right |-> why = "", why |-> why, st |-> s.st, reports |-> Reports, hit |-> hit, total |-> total, profile |-> want])
    /\ s' = [s EXCEPT !.st = "judged"] /\ UNCHANGED c
Next == Go \/ Judge
=============================================================================
