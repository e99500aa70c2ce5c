------------------------------ MODULE HreCheck ------------------------------
(***************************************************************************)
(* HRE, both ways.  Given are patterns (expression, macros, variables,      *)
(* right side, an alphabet and a length) and executions recorded from the   *)
(* real code.                                                               *)
(*                                                                          *)
(* Enumeration: for every pattern the machine builds every word over the    *)
(* pattern's alphabet up to its length, one character per step, and in      *)
(* every state emits what the specification says about the word; the        *)
(* invariants are the properties themselves, stated independently of the    *)
(* matcher.  Validation: recorded cases are compared with the same          *)
(* operators.                                                               *)
(*                                                                          *)
(* pats:  [expr, rexpr, macros, vars, alpha, len]                           *)
(* cases: [id, pat, word, n, find, repl]                                    *)
(***************************************************************************)
EXTENDS Hre, Json, IOUtils, FiniteSets

(* The data and what is compiled from them are kept in TLC registers: TLC     *)
(* evaluates some constant definitions again at each use.                     *)
ASSUME TLCSet(2, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Pats  == TLCGet(2).pats
Cases == TLCGet(2).cases
ASSUME TLCSet(1, TLCEval([i \in 1..Len(Pats) |->
            CompileRule(<<Pats[i].expr, Pats[i].rexpr>>, Pats[i].macros, Pats[i].vars)]))
Rule(i) == TLCGet(1)[i]

VARIABLES mode, k, w
vars == <<mode, k, w>>

Init == \/ mode = "enum" /\ k \in 1..Len(Pats) /\ w = <<>>
        \/ mode = "case" /\ k \in 1..Len(Cases) /\ w = <<>>

Grow == /\ mode = "enum" /\ Rule(k).from.ok /\ ~Unlimited(Rule(k).from)
        /\ Len(w) < Pats[k].len
        /\ \E i \in 1..Len(Pats[k].alpha) : w' = Append(w, Pats[k].alpha[i])
        /\ UNCHANGED <<mode, k>>

(* --- what the specification says ---------------------------------------- *)
FirstN(ms, n) == IF n < 0 \/ n >= Len(ms) THEN ms ELSE SubSeq(ms, 1, n)
MatchesOf(r, s, n) == FirstN(Find(r.from, s), n)
Spans(ms) == [j \in 1..Len(ms) |-> <<ms[j].a, ms[j].b>>]
RECURSIVE Put(_, _, _, _)
Put(s, rs, j, pos) ==
    IF j > Len(rs) THEN SubSeq(s, pos, Len(s))
    ELSE SubSeq(s, pos, rs[j].a - 1) \o rs[j].t \o Put(s, rs, j+1, rs[j].b)
ReplacedOf(r, s, n) == Put(s, Repls(MatchesOf(r, s, n), r, s, 1), 1, 1)

Say(x) == PrintT("@@" \o ToJson(x))
SeqOf(S) == SortSeq(CHOOSE q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b],
                    LAMBDA a, b : a < b)

EmitEnum ==
    mode = "enum" =>
        LET p == Rule(k).from IN
        IF w = <<>>
        THEN Say([pat |-> k, ok |-> p.ok, unl |-> p.ok /\ Unlimited(p), letters |-> p.letters,
                  rletters |-> Rule(k).to.letters])
        ELSE LET ms == MatchesOf(Rule(k), w, -1) IN
             Say([pat |-> k, w |-> w, find |-> Spans(ms), repl |-> ReplacedOf(Rule(k), w, -1)])

CheckCase ==
    mode = "case" =>
        LET c  == Cases[k]
            ms == MatchesOf(Rule(c.pat), c.word, c.n)
            f  == Spans(ms)
            r  == ReplacedOf(Rule(c.pat), c.word, c.n)
        IN IF ~Rule(c.pat).from.ok THEN Say([case |-> c.id, bad |-> "refused", find |-> <<>>, repl |-> <<>>])
           ELSE IF f = c.find /\ r = c.repl THEN TRUE
           ELSE Say([case |-> c.id, bad |-> "differs", find |-> f, repl |-> r])

Next == Grow
Spec == Init /\ [][Next]_vars

(* --- the properties, independently of the matcher ------------------------ *)
Live == mode = "enum" /\ Rule(k).from.ok /\ ~Unlimited(Rule(k).from) /\ w # <<>>

(* C09: matches are non-empty, ordered and disjoint *)
Ordered == Live => LET ms == MatchesOf(Rule(k), w, -1) IN
    \A j \in 1..Len(ms) : /\ 1 <= ms[j].a /\ ms[j].a < ms[j].b /\ ms[j].b <= Len(w)+1
                          /\ j < Len(ms) => ms[j].b <= ms[j+1].a

(* C09: the search finds the leftmost place where the tree means a match,  *)
(* and one of the extents it means there.                                   *)
Leftmost == Live => LET p == Rule(k).from IN p.never \/
    LET r == Search(p.pr, w, 1, Len(w), 1, [j \in 1..(8 + 2*p.ng) |-> 0])
        E(i) == Den(p.ast, w, 1, Len(w), i, p.used)
        I == {i \in 1..(Len(w)+1) : E(i) # {}}
    IN IF I = {} THEN r = Fail ELSE r # Fail /\ r[1] = Min(I) /\ r[2] \in E(r[1])

(* C11: the matches are the candidates (the matches without the forbidden   *)
(* expressions) next to which no extent of text is forbidden. (In a          *)
(* top-level alternation a lookaround belongs to its alternative only.)      *)
Exactly(ng, u) == M(ng.ex, 1, u, 1, Len(u), 1, <<>>) # Fail
Forbidden(p, s, m) ==
    \/ p.na.on /\ \E b \in m.b..(Len(s)+1) : Exactly(p.na, SubSeq(s, m.b, b-1))
    \/ p.nb.on /\ \E a \in 1..m.a : Exactly(p.nb, SubSeq(s, a, m.a-1))
Vetoes == Live => LET p == Rule(k).from
                      q == [p EXCEPT !.na = NoNeg, !.nb = NoNeg]
    IN p.never \/ p.ast[1] = "alt" \/ Spans(Find(p, w)) = Spans(SelectSeq(Find(q, w), LAMBDA m : ~Forbidden(p, w, m)))

(* C10: what replaces a match is built from the right side only *)
Untouched == Live =>
    LET ms == MatchesOf(Rule(k), w, -1)
    IN ms = <<>> => ReplacedOf(Rule(k), w, -1) = w
=============================================================================
