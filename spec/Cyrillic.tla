------------------------------ MODULE Cyrillic ------------------------------
(***************************************************************************)
(* The Cyrillic transliterators scan the text once: at each place the      *)
(* longest romanization of the country's table which occurs there is       *)
(* replaced, and a character where none occurs is copied.                  *)
(***************************************************************************)
EXTENDS Text
CONSTANT Table(_)      \* country -> set of <<romanization, letter>>
At(w, i, T) == {p \in T : OccursAt(p[1], w, i)}
Longest(S) == CHOOSE p \in S : \A q \in S : Len(q[1]) <= Len(p[1])
\* state: the place and the text written so far
Begin == [i |-> 1, out |-> <<>>]
Scan(w, s, T) ==
    LET S == At(w, s.i, T)
    IN IF S = {} THEN [i |-> s.i + 1, out |-> Append(s.out, w[s.i])]
       ELSE LET p == Longest(S) IN [i |-> s.i + Len(p[1]), out |-> s.out \o p[2]]
RECURSIVE From(_, _, _)
From(w, s, T) == IF s.i > Len(w) THEN s.out ELSE From(w, Scan(w, s, T), T)
Cyrillic(w, country) == From(w, Begin, Table(country))
=============================================================================
