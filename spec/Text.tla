-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points (integers).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

SPACE == 32
NL    == 10
ZWSP  == 8203

RECURSIVE Concat(_)
(* The concatenation of a sequence of texts. *)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2
                   IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h+1, Len(ss)))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* p occurs in s at position i *)
OccursAt(p, s, i) ==
    /\ i + Len(p) - 1 <= Len(s)
    /\ \A k \in 1..Len(p) : s[i+k-1] = p[k]

CharsOf(s) == {s[i] : i \in 1..Len(s)}

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Codes of "\s" in a regular expression: ASCII only. *)
ReSpace == {9, 10, 12, 13, 32}

RECURSIVE ReplaceFrom(_, _, _)
(* One left-to-right pass over s from position i; at each place the FIRST   *)
(* pair <<old, new>> of prs whose old occurs there is replaced.             *)
(* pairs must be listed in order of preference; no old is empty.            *)
ReplaceFrom(s, prs, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET c == {k \in 1..Len(prs) : OccursAt(prs[k][1], s, i)}
         IN IF c = {} THEN <<s[i]>> \o ReplaceFrom(s, prs, i+1)
            ELSE LET k == Min(c)
                 IN prs[k][2] \o ReplaceFrom(s, prs, i + Len(prs[k][1]))

(* a is lexicographically smaller than b (by code point). *)
LexLess(a, b) ==
    \E n \in 0..Len(a) :
        /\ n <= Len(b)
        /\ \A k \in 1..n : a[k] = b[k]
        /\ \/ n = Len(a) /\ n < Len(b)
           \/ n < Len(a) /\ n < Len(b) /\ a[n+1] < b[n+1]

(* Longest old first, so that the longest match wins. Ties: only identical  *)
(* olds can compete at one place; the smaller new wins.                     *)
LongestFirst(prs) ==
    SortSeq(prs, LAMBDA p, q : \/ Len(p[1]) > Len(q[1])
                               \/ Len(p[1]) = Len(q[1]) /\ LexLess(p[1], q[1])
                               \/ p[1] = q[1] /\ LexLess(p[2], q[2]))

ReplaceLongest(s, prs) == IF prs = <<>> THEN s ELSE ReplaceFrom(s, LongestFirst(prs), 1)
=============================================================================
