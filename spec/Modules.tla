------------------------------ MODULE Modules -------------------------------
(***************************************************************************)
(* The transliterators as separate WebAssembly modules, alone and below    *)
(* the library.  A module, once loaded, answers at once; what it answers   *)
(* is a function of the scheme and the word it is asked for, so the state  *)
(* of a module is only that it runs, and no question changes that: not     *)
(* even one for a scheme which it does not have, which is answered by an   *)
(* error.  A call of the library is settled once, later.                   *)
(*                                                                         *)
(*   Says(m, s, w)  what the module m says to the scheme s and the word w, *)
(*                  <<"text", t>> or <<"error", "">>                       *)
(*   Gives(l, w)    what the library gives for the language l              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Says(_, _, _), Gives(_, _), Names
VARIABLES up, open     \* the running modules; the open calls [id, lang, word]
Start == up = Names /\ open = {}
Ask(m, s, w, a) == m \in up /\ a = Says(m, s, w) /\ UNCHANGED <<up, open>>
Call(i, l, w)   == (\A c \in open : c.id # i) /\ open' = open \cup {[id |-> i, lang |-> l, word |-> w]} /\ UNCHANGED up
Settle(i, a)    == \E c \in open : c.id = i /\ a = Gives(c.lang, c.word) /\ open' = open \ {c} /\ UNCHANGED up
End == open = {} /\ UNCHANGED <<up, open>>
=============================================================================
