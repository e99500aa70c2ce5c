--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: a reader of words and a writer of lines. Words are    *)
(* the non-empty arguments or, without any, the trimmed lines of the       *)
(* standard input up to the first blank one. lookup(w) is the library's    *)
(* answer for a word: [ok, text, trace].                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Space(_), Lookup(_, _)     \* Lookup(k, w): in the world k

RECURSIVE TrimL(_)
TrimL(w) == IF w # <<>> /\ Space(Head(w)) THEN TrimL(Tail(w)) ELSE w
RECURSIVE TrimR(_)
TrimR(w) == IF w # <<>> /\ Space(w[Len(w)]) THEN TrimR(SubSeq(w, 1, Len(w)-1)) ELSE w
Trim(w) == TrimL(TrimR(w))

\* st: "run", "ok" or "fail"; lines: what was printed; traces: printed with -v
Begin(known) == [st |-> IF known THEN "run" ELSE "fail", i |-> 1, buf |-> <<>>, lines |-> <<>>, traces |-> <<>>, words |-> <<>>]

Word(s, k, w) ==
    LET r == Lookup(k, w)
    IN IF r.ok THEN [s EXCEPT !.lines = Append(@, r.text), !.traces = @ \o r.trace, !.words = Append(@, w)]
       ELSE [s EXCEPT !.st = "fail", !.words = Append(@, w)]

\* one argument
ReadArg(s, k, args) ==
    IF s.i > Len(args) THEN [s EXCEPT !.st = "ok"]
    ELSE LET t == IF args[s.i] = <<>> THEN s ELSE Word(s, k, args[s.i]) IN [t EXCEPT !.i = @ + 1]

\* one character of the standard input, or its end
ReadChar(s, k, in) ==
    IF s.i > Len(in)
    THEN LET w == Trim(s.buf)
             t == IF w = <<>> THEN s ELSE Word(s, k, w)
         IN IF t.st = "run" THEN [t EXCEPT !.st = "ok"] ELSE t
    ELSE IF in[s.i] # 10 THEN [s EXCEPT !.buf = Append(@, in[s.i]), !.i = @ + 1]
    ELSE LET w == Trim(s.buf)
         IN IF w = <<>> THEN [s EXCEPT !.st = "ok"]
            ELSE [Word(s, k, w) EXCEPT !.buf = <<>>, !.i = @ + 1]

\* the rest of a line at once: as many steps of ReadChar as it has characters.
\* For lines which are too long to be read one by one
ReadLine(s, k, in) ==
    LET n == CHOOSE j \in s.i..(Len(in) + 1) : (j > Len(in) \/ in[j] = 10) /\ \A h \in s.i..(j - 1) : in[h] # 10
    IN ReadChar([s EXCEPT !.buf = @ \o SubSeq(in, s.i, n - 1), !.i = n], k, in)
=============================================================================
