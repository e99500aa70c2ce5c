------------------------------- MODULE Pinyin -------------------------------
(***************************************************************************)
(* The pinyin transliterator reads one character at a time: a character    *)
(* with a reading is a unit of its own, a maximal run of others another.   *)
(* Reading(c) is <<>> for characters without one.                          *)
(***************************************************************************)
EXTENDS Text
CONSTANT Reading(_)
\* state: the finished units and the open run
Begin == [units |-> <<>>, run |-> <<>>]
Closed(s) == IF s.run = <<>> THEN s.units ELSE Append(s.units, s.run)
ReadChar(s, c) == IF Reading(c) = <<>> THEN [s EXCEPT !.run = Append(@, c)]
                  ELSE [units |-> Append(Closed(s), Reading(c)), run |-> <<>>]
Finish(s) == Join(Closed(s), <<ZWSP>>)
RECURSIVE From(_, _, _)
From(w, i, s) == IF i > Len(w) THEN s ELSE From(w, i+1, ReadChar(s, w[i]))
Pinyin(w) == Finish(From(w, 1, Begin))
=============================================================================
