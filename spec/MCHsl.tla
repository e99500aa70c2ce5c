-------------------------------- MODULE MCHsl -------------------------------
(***************************************************************************)
(* Every document made of Data.prefix and up to Data.depth lexemes; every  *)
(* verdict is printed for the real code.                                   *)
(***************************************************************************)
EXTENDS HslEnv
VARIABLE w
Init == w = <<>>
Next == Len(w) < Data.depth /\ \E i \in 1..Len(Data.lexemes) : w' = Append(w, i)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN <<>> ELSE Data.lexemes[Head(q)] \o Glue(Tail(q))
Doc == Data.prefix \o Glue(w)

NoLines(secs) == [k \in 1..Len(secs) |-> [secs[k] EXCEPT !.line = 0, !.pairs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.line = 0]]]]

RECURSIVE Toks(_, _)
Toks(d, i) == LET k == H!Scan(d, i) IN IF k.t = "end" THEN <<>> ELSE <<k.t>> \o Toks(d, k.nx)

\* The comment or blank c, put before the token at position i, changes no pair.
RECURSIVE Starts(_, _)
Starts(d, i) == LET k == H!Scan(d, i) IN IF k.t \in {"end", "illegal"} THEN <<i>> ELSE <<i>> \o Starts(d, k.nx)

Check == \E p \in {H!Parsed(Doc)} :
    /\ Say([w |-> w, verdict |-> p.verdict, secs |-> IF p.verdict = "ok" THEN p.secs ELSE <<>>, noright |-> p.noright])
    /\ p.verdict = "ok" =>
         \* as many pairs as signs, in file order, and nothing shared between sections
         /\ LET T == Toks(Doc, 1)
                n(t) == Cardinality({i \in 1..Len(T) : T[i] = t})
                sum[k \in 0..Len(p.secs)] == IF k = 0 THEN 0 ELSE sum[k-1] + Len(p.secs[k].pairs)
            IN sum[Len(p.secs)] = n("=") + n("->")
         /\ \A a, b \in 1..Len(p.secs) : p.secs[a].name = p.secs[b].name => a = b
         /\ \A a \in 1..Len(p.secs) : \A x, y \in 1..Len(p.secs[a].pairs) :
              /\ x < y => p.secs[a].pairs[x].line <= p.secs[a].pairs[y].line
              /\ x # y /\ p.secs[a].kind = "dict" => p.secs[a].pairs[x].l # p.secs[a].pairs[y].l
         \* a blank anywhere and a comment at the end of any line change no pair
         /\ \A i \in 1..Len(Starts(Doc, 1)) :
              LET at == Starts(Doc, 1)[i]
                  with(x) == SubSeq(Doc, 1, at-1) \o x \o SubSeq(Doc, at, Len(Doc))
              IN /\ LET q == H!Parsed(with(<<32>>)) IN q.verdict = "ok" => NoLines(q.secs) = NoLines(p.secs)
                 /\ (at > Len(Doc) \/ Doc[at] = 10) =>
                      LET q == H!Parsed(with(<<35, 97, 34>>)) IN q.verdict = "ok" /\ NoLines(q.secs) = NoLines(p.secs)
=============================================================================
