-------------------------------- MODULE Hre ---------------------------------
(***************************************************************************)
(* HRE: the Hangulize regular expressions. Parsing of a pattern into a     *)
(* small backtracking program, leftmost-first matching, the search for all *)
(* matches, lookaround vetoes and var-to-var replacement.                  *)
(*                                                                         *)
(* Tokens. An expanded pattern is a sequence of integers:                  *)
(*   c >= 0     a character of the pattern text                            *)
(*   -k         (k < 1000) the k-th <var> of the pattern                   *)
(*   CL, TL     "^" chunk edge, "^^" text edge on the left                 *)
(*   CR, TR     "$" chunk edge, "$$" text edge on the right                *)
(*   NOCAP      "(" of a non-capturing group                               *)
(*   MK1..MK4   "(" of the four structural groups: left edge, behind,      *)
(*              ahead, right edge                                          *)
(***************************************************************************)
EXTENDS Text

CL == -1001   TL == -1002   CR == -1003   TR == -1004
NOCAP == -1100
MK1 == -1101  MK2 == -1102  MK3 == -1103  MK4 == -1104

OPEN == 40  CLOSE == 41  BAR == 124  QM == 63  STAR == 42  PLUS == 43
DOT == 46  LB == 91  RB == 93  LBR == 123  RBR == 125  BSL == 92
CARET == 94  DOLLAR == 36  LT == 60  GT == 62  TILDE == 126  DASH == 45
COLON == 58

-----------------------------------------------------------------------------
(* Macros and variables. macros: seq of <<src, dst>>; vars: seq of          *)
(* <<name, values>>.                                                        *)
ExpandMacros(s, macros) == ReplaceLongest(s, macros)

(* The end of the variable placeholder which starts at i, or 0. *)
VarEnd(s, i) ==
    IF s[i] # LT THEN 0
    ELSE LET c == {j \in (i+2)..Len(s) : s[j] = GT /\ \A k \in (i+1)..(j-1) : s[k] # NL}
         IN IF c = {} THEN 0 ELSE Min(c)

RECURSIVE TrimLT(_)
TrimLT(s) == IF s = <<>> THEN s
             ELSE IF Head(s) \in {LT, GT} THEN TrimLT(Tail(s))
             ELSE IF s[Len(s)] \in {LT, GT} THEN TrimLT(SubSeq(s, 1, Len(s)-1))
             ELSE s

VarValues(name, vars) ==
    LET c == {k \in 1..Len(vars) : vars[k][1] = name}
    IN IF c = {} THEN <<>> ELSE vars[Min(c)][2]

RECURSIVE ExpandVars(_, _, _, _)
(* <<tokens, used>> : placeholders become -k, used[k] their values *)
ExpandVars(s, vars, i, used) ==
    IF i > Len(s) THEN <<<<>>, used>>
    ELSE LET e == VarEnd(s, i) IN
         IF e = 0
         THEN LET r == ExpandVars(s, vars, i+1, used) IN <<<<s[i]>> \o r[1], r[2]>>
         ELSE LET vals == VarValues(TrimLT(SubSeq(s, i, e)), vars)
                  u == Append(used, vals)
                  r == ExpandVars(s, vars, e+1, u)
              IN <<<<-Len(u)>> \o r[1], r[2]>>

-----------------------------------------------------------------------------
(* Lookarounds and edges. *)

(* trailing run of c *)
RECURSIVE TrailRun(_, _)
TrailRun(t, c) == IF t # <<>> /\ t[Len(t)] = c THEN 1 + TrailRun(SubSeq(t, 1, Len(t)-1), c) ELSE 0
RECURSIVE LeadRun(_, _)
LeadRun(t, c) == IF t # <<>> /\ t[1] = c THEN 1 + LeadRun(Tail(t), c) ELSE 0

NoRBR(t, a, b) == \A k \in a..b : t[k] # RBR

(* [other, look, has, edge]: has = there is a {...} *)
SplitAhead(t) ==
    LET nd == TrailRun(t, DOLLAR)
        q  == Len(t) - nd
        ps == IF q >= 1 /\ t[q] = RBR
              THEN {p \in 1..(q-2) : t[p] = LBR /\ NoRBR(t, p+1, q-1)} ELSE {}
    IN IF ps = {} THEN [other |-> SubSeq(t, 1, q), look |-> <<>>, has |-> FALSE, edge |-> nd]
       ELSE LET p == Min(ps)
            IN [other |-> SubSeq(t, 1, p-1), look |-> SubSeq(t, p+1, q-1), has |-> TRUE, edge |-> nd]

SplitBehind(t) ==
    LET nc == LeadRun(t, CARET)
        qs == IF nc+1 <= Len(t) /\ t[nc+1] = LBR
              THEN {q \in (nc+3)..Len(t) : t[q] = RBR /\ NoRBR(t, nc+2, q-1)} ELSE {}
    IN IF qs = {} THEN [other |-> SubSeq(t, nc+1, Len(t)), look |-> <<>>, has |-> FALSE, edge |-> nc]
       ELSE LET q == Min(qs)
            IN [other |-> SubSeq(t, q+1, Len(t)), look |-> SubSeq(t, nc+2, q-1), has |-> TRUE, edge |-> nc]

HasZeroWidth(t) ==
    \E p \in 1..Len(t) : t[p] = LBR /\ \E q \in (p+2)..Len(t) : t[q] = RBR /\ NoRBR(t, p+1, q-1)

RECURSIVE Edges(_, _)
(* runs of ^ and $ become edge tokens; escaped characters are left alone *)
Edges(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = CARET
         THEN LET n == LeadRun(SubSeq(t, i, Len(t)), CARET)
              IN <<IF n = 1 THEN CL ELSE TL>> \o Edges(t, i+n)
    ELSE IF t[i] = DOLLAR
         THEN LET n == LeadRun(SubSeq(t, i, Len(t)), DOLLAR)
              IN <<IF n = 1 THEN CR ELSE TR>> \o Edges(t, i+n)
    ELSE <<t[i]>> \o Edges(t, i+1)

(* "^" and "$" in a forbidden expression are text edges of its window. *)
NegEdges(t) == [i \in 1..Len(t) |-> IF t[i] = CARET THEN TL ELSE IF t[i] = DOLLAR THEN TR ELSE t[i]]

RECURSIVE NoCapture(_, _)
NoCapture(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = BSL /\ i < Len(t) THEN <<t[i], t[i+1]>> \o NoCapture(t, i+2)
    ELSE IF t[i] = LB
         THEN LET js == {j \in (i+2)..Len(t) : t[j] = RB}
              IN IF js = {} THEN <<t[i]>> \o NoCapture(t, i+1)
                 ELSE SubSeq(t, i, Min(js)) \o NoCapture(t, Min(js)+1)
    ELSE IF t[i] = OPEN /\ ~(i < Len(t) /\ t[i+1] = QM) THEN <<NOCAP>> \o NoCapture(t, i+1)
    ELSE <<t[i]>> \o NoCapture(t, i+1)

-----------------------------------------------------------------------------
(* Parser: tokens to syntax trees. Every result is [n: node, i: next        *)
(* position, g: capturing groups opened so far, ok].                        *)
(* Nodes: <<"chr", c>>, <<"any">>, <<"set", S, neg>>, <<"var", k, g>>,      *)
(* <<"cat", ns>>, <<"alt", ns>>, <<"opt"|"star"|"plus", n, lazy>>,          *)
(* <<"grp", g, n>> (g = 0: non-capturing), <<"cl">> <<"tl">> <<"cr">>       *)
(* <<"tr">>, <<"mk", m, n>>                                                 *)
Err(i) == [n |-> <<"cat", <<>>>>, i |-> i, g |-> 0, ok |-> FALSE]
Ok(n, i, g) == [n |-> n, i |-> i, g |-> g, ok |-> TRUE]

RECURSIVE ClassItems(_, _, _)
(* members of [...] from i up to j-1 *)
ClassItems(t, i, j) ==
    IF i >= j THEN {}
    ELSE IF t[i] = BSL /\ i+1 < j THEN {t[i+1]} \cup ClassItems(t, i+2, j)
    ELSE IF i+2 < j /\ t[i+1] = DASH THEN (t[i]..t[i+2]) \cup ClassItems(t, i+3, j)
    ELSE {t[i]} \cup ClassItems(t, i+1, j)

RECURSIVE PAlt(_, _, _, _)
RECURSIVE PCat(_, _, _, _)
RECURSIVE PRep(_, _, _, _)
RECURSIVE PAtom(_, _, _, _)

(* capvar: variables are capturing groups here *)
PAtom(t, i, g, capvar) ==
    LET c == t[i] IN
    CASE c = OPEN /\ i+2 <= Len(t) /\ t[i+1] = QM /\ t[i+2] = COLON ->
            LET r == PAlt(t, i+3, g, capvar)
            IN IF r.ok /\ r.i <= Len(t) /\ t[r.i] = CLOSE
               THEN Ok(<<"grp", 0, r.n>>, r.i+1, r.g) ELSE Err(i)
      [] c = OPEN /\ i+1 <= Len(t) /\ t[i+1] = QM -> Err(i)
      [] c = OPEN /\ ~(i+1 <= Len(t) /\ t[i+1] = QM) ->
            LET r == PAlt(t, i+1, g+1, capvar)
            IN IF r.ok /\ r.i <= Len(t) /\ t[r.i] = CLOSE
               THEN Ok(<<"grp", g+1, r.n>>, r.i+1, r.g) ELSE Err(i)
      [] c \in {NOCAP, MK1, MK2, MK3, MK4} ->
            LET r == PAlt(t, i+1, g, IF c = NOCAP THEN capvar ELSE FALSE)
            IN IF r.ok /\ r.i <= Len(t) /\ t[r.i] = CLOSE
               THEN Ok(IF c = NOCAP THEN <<"grp", 0, r.n>>
                       ELSE <<"mk", MK1 - c + 1, r.n>>, r.i+1, r.g) ELSE Err(i)
      [] c = DOT -> Ok(<<"any">>, i+1, g)
      [] c = LB ->
            LET js == {j \in (i+2)..Len(t) : t[j] = RB /\ t[j-1] # BSL}
                ng == i+1 <= Len(t) /\ t[i+1] \in {CL, TL}
            IN IF js = {} THEN Err(i)
               ELSE LET j == Min(js)
                    IN Ok(<<"set", ClassItems(t, IF ng THEN i+2 ELSE i+1, j), ng>>, j+1, g)
      [] c = BSL -> IF i = Len(t) THEN Err(i) ELSE Ok(<<"chr", t[i+1]>>, i+2, g)
      [] c = CL -> Ok(<<"cl">>, i+1, g)
      [] c = TL -> Ok(<<"tl">>, i+1, g)
      [] c = CR -> Ok(<<"cr">>, i+1, g)
      [] c = TR -> Ok(<<"tr">>, i+1, g)
      [] c \in {STAR, PLUS, QM} -> Err(i)
      [] c < 0 /\ c > -1000 ->
            IF capvar THEN Ok(<<"var", -c, g+1>>, i+1, g+1)
            ELSE Ok(<<"var", -c, 0>>, i+1, g)
      [] OTHER -> Ok(<<"chr", c>>, i+1, g)

PRep(t, i, g, capvar) ==
    LET r == PAtom(t, i, g, capvar) IN
    IF ~r.ok \/ r.i > Len(t) \/ t[r.i] \notin {STAR, PLUS, QM} THEN r
    ELSE LET op   == CASE t[r.i] = STAR -> "star" [] t[r.i] = PLUS -> "plus" [] OTHER -> "opt"
             lazy == r.i + 1 <= Len(t) /\ t[r.i+1] = QM
             nx   == IF lazy THEN r.i+2 ELSE r.i+1
         IN IF nx <= Len(t) /\ t[nx] \in {STAR, PLUS, QM} THEN Err(i)
            ELSE Ok(<<op, r.n, lazy>>, nx, r.g)

PCat(t, i, g, capvar) ==
    IF i > Len(t) \/ t[i] \in {BAR, CLOSE} THEN Ok(<<"cat", <<>>>>, i, g)
    ELSE LET r == PRep(t, i, g, capvar) IN
         IF ~r.ok THEN r
         ELSE LET q == PCat(t, r.i, r.g, capvar) IN
              IF ~q.ok THEN q
              ELSE Ok(<<"cat", <<r.n>> \o q.n[2]>>, q.i, q.g)

PAlt(t, i, g, capvar) ==
    LET r == PCat(t, i, g, capvar) IN
    IF ~r.ok \/ r.i > Len(t) \/ t[r.i] # BAR THEN r
    ELSE LET q == PAlt(t, r.i+1, r.g, capvar) IN
         IF ~q.ok THEN q
         ELSE Ok(<<"alt", <<r.n>> \o (IF q.n[1] = "alt" THEN q.n[2] ELSE <<q.n>>)>>, q.i, q.g)

Parse(t, capvar) ==
    LET r == PAlt(t, 1, 0, capvar)
    IN IF r.ok /\ r.i <= Len(t) THEN Err(r.i) ELSE r

-----------------------------------------------------------------------------
(* Static facts about trees. *)
INF == -1
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE Width(_, _)
(* The greatest number of characters a node can match; INF if unbounded. *)
Width(n, used) ==
    LET Sum[k \in 0..(IF n[1] = "cat" THEN Len(n[2]) ELSE 0)] ==
            IF k = 0 THEN 0
            ELSE LET w == Width(n[2][k], used)
                     v == Sum[k-1]      \* once: TLC computes it anew at each mention
                 IN IF v = INF \/ w = INF THEN INF ELSE v + w
    IN CASE n[1] \in {"chr", "any", "set"} -> 1
         [] n[1] = "var" -> LET L == {Len(used[n[2]][k]) : k \in 1..Len(used[n[2]])}
                            IN IF L = {} THEN 0 ELSE Max(L)
         [] n[1] \in {"cl", "tl", "cr", "tr"} -> 0
         [] n[1] \in {"grp", "mk"} -> Width(n[3], used)
         [] n[1] = "opt" -> Width(n[2], used)
         [] n[1] \in {"star", "plus"} -> INF
         [] n[1] = "cat" -> Sum[Len(n[2])]
         [] n[1] = "alt" -> LET ws == {Width(n[2][k], used) : k \in 1..Len(n[2])}
                            IN IF INF \in ws THEN INF ELSE Max(ws)

RECURSIVE Must(_, _)
(* Characters every match contains. Only used to skip hopeless rules. *)
Must(n, used) ==
    CASE n[1] = "chr" -> {n[2]}
      [] n[1] = "var" -> LET v == used[n[2]]
                         IN IF Len(v) = 1 THEN CharsOf(v[1]) ELSE {}
      [] n[1] \in {"grp", "mk"} -> Must(n[3], used)
      [] n[1] = "plus" -> Must(n[2], used)
      [] n[1] = "cat" -> UNION {Must(n[2][k], used) : k \in 1..Len(n[2])}
      [] n[1] = "alt" -> LET m1 == Must(n[2][1], used)
                         IN {c \in m1 : \A k \in 2..Len(n[2]) : c \in Must(n[2][k], used)}
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* Compilation to a program. Instructions:                                  *)
(*  <<1,c>> char  <<2>> any but NL  <<3,S,neg>> class  <<4,x,y>> split,     *)
(*  x preferred  <<5,x>> jump  <<6,k>> save slot k  <<7>> text start        *)
(*  <<8>> text end  <<9>> match  <<10,vals>> one of the values, in order    *)
(*  <<11>> left chunk edge  <<12>> right chunk edge                         *)
(* Slots: marker m uses slots -2m+1 .. ; stored as 2*(g-1)+1, 2*(g-1)+2     *)
(* after the four markers (slots 1..8).                                     *)
RECURSIVE Comp(_, _, _)
RECURSIVE CompSeq(_, _, _, _)
RECURSIVE CompAlt(_, _, _, _)

CompSeq(ns, k, base, used) ==
    IF k > Len(ns) THEN <<>>
    ELSE LET h == Comp(ns[k], base, used)
         IN h \o CompSeq(ns, k+1, base + Len(h), used)

CompAlt(ns, k, base, used) ==
    IF k = Len(ns) THEN Comp(ns[k], base, used)
    ELSE LET h == Comp(ns[k], base+1, used)
             r == CompAlt(ns, k+1, base + Len(h) + 2, used)
         IN <<<<4, base+1, base+Len(h)+2>>>> \o h \o <<<<5, base+Len(h)+2+Len(r)>>>> \o r

Split(x, y, lazy) == IF lazy THEN <<4, y, x>> ELSE <<4, x, y>>

Comp(n, base, used) ==
    CASE n[1] = "chr" -> <<<<1, n[2]>>>>
      [] n[1] = "any" -> <<<<2>>>>
      [] n[1] = "set" -> <<<<3, n[2], n[3]>>>>
      [] n[1] = "tl"  -> <<<<7>>>>
      [] n[1] = "tr"  -> <<<<8>>>>
      [] n[1] = "cl"  -> <<<<11>>>>
      [] n[1] = "cr"  -> <<<<12>>>>
      [] n[1] = "var" ->
            LET v == <<10, used[n[2]]>>
            IN IF n[3] = 0 THEN <<v>>
               ELSE <<<<6, 8 + 2*n[3] - 1>>, v, <<6, 8 + 2*n[3]>>>>
      [] n[1] = "grp" ->
            IF n[2] = 0 THEN Comp(n[3], base, used)
            ELSE LET b == Comp(n[3], base+1, used)
                 IN <<<<6, 8 + 2*n[2] - 1>>>> \o b \o <<<<6, 8 + 2*n[2]>>>>
      [] n[1] = "mk" ->
            LET b == Comp(n[3], base+1, used)
            IN <<<<6, 2*n[2] - 1>>>> \o b \o <<<<6, 2*n[2]>>>>
      [] n[1] = "cat" -> CompSeq(n[2], 1, base, used)
      [] n[1] = "alt" -> CompAlt(n[2], 1, base, used)
      [] n[1] = "opt" ->
            LET b == Comp(n[2], base+1, used)
            IN <<Split(base+1, base+1+Len(b), n[3])>> \o b
      [] n[1] = "star" ->
            LET b == Comp(n[2], base+1, used)
            IN <<Split(base+1, base+2+Len(b), n[3])>> \o b \o <<<<5, base>>>>
      [] n[1] = "plus" ->
            LET b == Comp(n[2], base, used)
            IN b \o <<Split(base, base+Len(b)+1, n[3])>>

Program(n, used) == LET p == Comp(n, 1, used) IN p \o <<<<9>>>>

-----------------------------------------------------------------------------
(* Matching. Positions are 1..hi+1; position i means "before s[i]".  The    *)
(* text that matching can see is s[lo..hi].  Result: <<>> for failure or    *)
(* <<end, slots>>.                                                          *)
Fail == <<>>

SpaceRun(s, hi, i) ==
    LET c == {j \in i..hi : s[j] \notin ReSpace} IN (IF c = {} THEN hi+1 ELSE Min(c)) - i

RECURSIVE M(_, _, _, _, _, _, _)
RECURSIVE MVar(_, _, _, _, _, _, _, _, _)
RECURSIVE MRun(_, _, _, _, _, _, _, _)
M(pr, pc, s, lo, hi, i, sl) ==
    LET in == pr[pc] IN
    CASE in[1] = 1 -> IF i <= hi /\ s[i] = in[2] THEN M(pr, pc+1, s, lo, hi, i+1, sl) ELSE Fail
      [] in[1] = 6 -> M(pr, pc+1, s, lo, hi, i, [sl EXCEPT ![in[2]] = i])
      [] in[1] = 10 -> MVar(pr, pc, s, lo, hi, i, sl, in[2], 1)
      [] in[1] = 4 -> LET r == M(pr, in[2], s, lo, hi, i, sl)
                      IN IF r # Fail THEN r ELSE M(pr, in[3], s, lo, hi, i, sl)
      [] in[1] = 5 -> M(pr, in[2], s, lo, hi, i, sl)
      [] in[1] = 9 -> <<i, sl>>
      [] in[1] = 2 -> IF i <= hi /\ s[i] # NL THEN M(pr, pc+1, s, lo, hi, i+1, sl) ELSE Fail
      [] in[1] = 3 -> IF i <= hi /\ ((s[i] \in in[2]) # in[3])
                      THEN M(pr, pc+1, s, lo, hi, i+1, sl) ELSE Fail
      [] in[1] = 7 -> IF i = lo THEN M(pr, pc+1, s, lo, hi, i, sl) ELSE Fail
      [] in[1] = 8 -> IF i = hi+1 THEN M(pr, pc+1, s, lo, hi, i, sl) ELSE Fail
      [] in[1] \in {11, 12} ->
            LET atEdge == IF in[1] = 11 THEN i = lo ELSE i = hi+1
                r0 == IF atEdge THEN M(pr, pc+1, s, lo, hi, i, sl) ELSE Fail
                r1 == IF r0 # Fail THEN r0
                      ELSE MRun(pr, pc, s, lo, hi, i, sl, SpaceRun(s, hi, i))
            IN IF r1 # Fail THEN r1
               ELSE IF i+1 <= hi /\ s[i] = LBR /\ s[i+1] = RBR
                    THEN M(pr, pc+1, s, lo, hi, i+2, sl) ELSE Fail
MVar(pr, pc, s, lo, hi, i, sl, vals, k) ==
    IF k > Len(vals) THEN Fail
    ELSE LET r == IF i + Len(vals[k]) - 1 <= hi /\ OccursAt(vals[k], s, i)
                  THEN M(pr, pc+1, s, lo, hi, i+Len(vals[k]), sl) ELSE Fail
         IN IF r # Fail THEN r ELSE MVar(pr, pc, s, lo, hi, i, sl, vals, k+1)
MRun(pr, pc, s, lo, hi, i, sl, n) ==
    IF n < 1 THEN Fail
    ELSE LET r == M(pr, pc+1, s, lo, hi, i+n, sl)
         IN IF r # Fail THEN r ELSE MRun(pr, pc, s, lo, hi, i, sl, n-1)

RECURSIVE Search(_, _, _, _, _, _)
(* leftmost match at i or later: <<start, end, slots>> *)
Search(pr, s, lo, hi, i, nsl) ==
    IF i > hi + 1 THEN Fail
    ELSE LET r == M(pr, 1, s, lo, hi, i, nsl)
         IN IF r # Fail THEN <<i, r[1], r[2]>> ELSE Search(pr, s, lo, hi, i+1, nsl)

-----------------------------------------------------------------------------
(* What a tree means, independently of programs and preferences: the set    *)
(* of positions where a match starting at i may end. Used to state the      *)
(* properties, not to run rules.                                            *)
RECURSIVE Den(_, _, _, _, _, _)
RECURSIVE DenCat(_, _, _, _, _, _, _)
RECURSIVE DenStar(_, _, _, _, _, _)
Den(n, s, lo, hi, i, used) ==
    CASE n[1] = "chr" -> IF i <= hi /\ s[i] = n[2] THEN {i+1} ELSE {}
      [] n[1] = "any" -> IF i <= hi /\ s[i] # NL THEN {i+1} ELSE {}
      [] n[1] = "set" -> IF i <= hi /\ ((s[i] \in n[2]) # n[3]) THEN {i+1} ELSE {}
      [] n[1] = "var" -> {i + Len(v) : v \in {u \in {used[n[2]][q] : q \in 1..Len(used[n[2]])} :
                                                i + Len(u) - 1 <= hi /\ OccursAt(u, s, i)}}
      [] n[1] = "tl" -> IF i = lo THEN {i} ELSE {}
      [] n[1] = "tr" -> IF i = hi+1 THEN {i} ELSE {}
      [] n[1] \in {"cl", "cr"} ->
            (IF (n[1] = "cl" /\ i = lo) \/ (n[1] = "cr" /\ i = hi+1) THEN {i} ELSE {})
            \cup {j \in (i+1)..(hi+1) : \A q \in i..(j-1) : s[q] \in ReSpace}
            \cup (IF i+1 <= hi /\ s[i] = LBR /\ s[i+1] = RBR THEN {i+2} ELSE {})
      [] n[1] \in {"grp", "mk"} -> Den(n[3], s, lo, hi, i, used)
      [] n[1] = "opt" -> {i} \cup Den(n[2], s, lo, hi, i, used)
      [] n[1] = "star" -> DenStar(n[2], s, lo, hi, {i}, used)
      [] n[1] = "plus" -> DenStar(n[2], s, lo, hi, Den(n[2], s, lo, hi, i, used), used)
      [] n[1] = "cat" -> DenCat(n[2], 1, s, lo, hi, {i}, used)
      [] n[1] = "alt" -> UNION {Den(n[2][q], s, lo, hi, i, used) : q \in 1..Len(n[2])}
DenCat(ns, q, s, lo, hi, I, used) ==
    IF q > Len(ns) THEN I
    ELSE DenCat(ns, q+1, s, lo, hi, UNION {Den(ns[q], s, lo, hi, i, used) : i \in I}, used)
DenStar(n, s, lo, hi, I, used) ==
    LET J == I \cup UNION {Den(n, s, lo, hi, i, used) : i \in I}
    IN IF J = I THEN I ELSE DenStar(n, s, lo, hi, J, used)

-----------------------------------------------------------------------------
(* Compiled patterns. *)

(* A forbidden expression: [on, pr, w]; ex: the whole text must match *)
NoNeg == [on |-> FALSE, pr |-> <<>>, ex |-> <<>>, w |-> 0]

(* Letters of a token text, as used to find meaningful punctuation. Meta    *)
(* characters, blanks, slashes and escaped characters do not count.         *)
MetaChars == {BSL, DOT, PLUS, STAR, QM, OPEN, CLOSE, BAR, LB, RB, LBR, RBR, CARET, DOLLAR, 47}
RECURSIVE LettersOf(_, _, _)
LettersOf(t, i, used) ==
    IF i > Len(t) THEN {}
    ELSE IF t[i] = BSL THEN LettersOf(t, i+2, used)
    ELSE IF t[i] < 0
         THEN (IF t[i] > -1000
               THEN UNION {CharsOf(used[-t[i]][k]) : k \in 1..Len(used[-t[i]])} \ (MetaChars \cup ReSpace)
               ELSE {}) \cup LettersOf(t, i+1, used)
    ELSE IF t[i] = OPEN /\ i+2 <= Len(t) /\ t[i+1] = QM /\ t[i+2] = COLON THEN LettersOf(t, i+3, used)
    ELSE (IF t[i] \in MetaChars \cup ReSpace THEN {} ELSE {t[i]}) \cup LettersOf(t, i+1, used)

(* A compiled pattern:                                                      *)
(*   ok     it is a legal pattern                                           *)
(*   never  it can never match (lookaround with an edge on the same side)   *)
BadPattern == [ok |-> FALSE, never |-> FALSE, ast |-> <<>>, pr |-> <<>>, ng |-> 0, used |-> <<>>,
               na |-> NoNeg, nb |-> NoNeg, letters |-> {}, must |-> {}]

IsNegLook(l) == l # <<>> /\ l[1] = TILDE

CompileNeg(body, ahead, used) ==
    LET toks == NegEdges(NoCapture(body, 1))
        p    == Parse(toks, FALSE)
        n    == IF ahead THEN <<"cat", <<<<"tl">>, p.n>>>> ELSE <<"cat", <<p.n, <<"tr">>>>>>
        e    == <<"cat", <<<<"tl">>, p.n, <<"tr">>>>>>
    IN [ok |-> p.ok, neg |-> [on |-> TRUE, pr |-> IF p.ok THEN Program(n, used) ELSE <<>>,
                              ex |-> IF p.ok THEN Program(e, used) ELSE <<>>,
                              w |-> IF p.ok THEN Width(p.n, used) ELSE 0]]

CompilePattern(expr, macros, vars) ==
    IF expr = <<>> THEN BadPattern
    ELSE
    LET ev   == ExpandVars(ExpandMacros(expr, macros), vars, 1, <<>>)
        used == ev[2]
        A    == SplitAhead(ev[1])
        aNeg == A.has /\ IsNegLook(A.look)
        na   == IF aNeg /\ A.edge = 0 THEN CompileNeg(Tail(A.look), TRUE, used)
                ELSE [ok |-> TRUE, neg |-> NoNeg]
        aParadox == (A.has /\ ~aNeg /\ A.edge > 0) \/ ~na.ok
        \* what the left-hand split sees
        aTail == <<MK3>> \o (IF A.has /\ ~aNeg THEN NoCapture(A.look, 1) ELSE <<>>) \o <<CLOSE>>
                 \o <<MK4>> \o [k \in 1..A.edge |-> DOLLAR] \o <<CLOSE>>
        B    == SplitBehind(A.other \o aTail)
        bNeg == B.has /\ IsNegLook(B.look)
        nb   == IF bNeg /\ B.edge = 0 THEN CompileNeg(Tail(B.look), FALSE, used)
                ELSE [ok |-> TRUE, neg |-> NoNeg]
        bParadox == (B.has /\ ~bNeg /\ B.edge > 0) \/ ~nb.ok
        full == <<MK1>> \o [k \in 1..B.edge |-> CARET] \o <<CLOSE>>
                \o <<MK2>> \o (IF B.has /\ ~bNeg THEN NoCapture(B.look, 1) ELSE <<>>) \o <<CLOSE>>
                \o B.other
        toks == Edges(full, 1)
        p    == Parse(toks, TRUE)
        negLetters == (IF na.neg.on THEN LettersOf(Tail(A.look), 1, used) ELSE {})
                      \cup (IF nb.neg.on THEN LettersOf(Tail(B.look), 1, used) ELSE {})
    IN IF aParadox
       THEN [BadPattern EXCEPT !.ok = TRUE, !.never = TRUE, !.used = used]
       ELSE IF bParadox
       THEN [BadPattern EXCEPT !.ok = TRUE, !.never = TRUE, !.used = used, !.na = na.neg,
                               !.letters = IF na.neg.on THEN LettersOf(Tail(A.look), 1, used) ELSE {}]
       ELSE IF HasZeroWidth(full) \/ ~p.ok THEN BadPattern
       ELSE [ok |-> TRUE, never |-> FALSE, ast |-> p.n, pr |-> Program(p.n, used), ng |-> p.g, used |-> used,
             na |-> na.neg, nb |-> nb.neg,
             letters |-> LettersOf(full, 1, used) \cup negLetters,
             must |-> Must(p.n, used)]

(* A spec may not use a pattern whose forbidden expression has no bound. *)
Unlimited(p) == p.na.w = INF \/ p.nb.w = INF

-----------------------------------------------------------------------------
(* Finding matches.  A match is [a, b, caps]: it replaces s[a..b-1]; caps   *)
(* are the group positions of the core.                                     *)
VetoAhead(p, s, sl) ==
    /\ p.na.on
    /\ LET i  == sl[5]
           hi == IF p.na.w = INF THEN Len(s) ELSE MaxOf(0, i + p.na.w - 1)
           h  == IF hi > Len(s) THEN Len(s) ELSE hi
           w  == IF i = 0 THEN <<>> ELSE SubSeq(s, i, h)
       IN M(p.na.pr, 1, w, 1, Len(w), 1, <<>>) # Fail

VetoBehind(p, s, sl) ==
    /\ p.nb.on
    /\ LET i  == sl[4]
           lo == IF p.nb.w = INF THEN 1 ELSE MaxOf(1, i - p.nb.w)
           w  == IF i = 0 THEN <<>> ELSE SubSeq(s, lo, i-1)
       IN Search(p.nb.pr, w, 1, Len(w), 1, <<>>) # Fail

RECURSIVE FindFrom(_, _, _)
FindFrom(p, s, o) ==
    IF o > Len(s) THEN <<>>
    ELSE LET r == Search(p.pr, s, o, Len(s), o, [k \in 1..(8 + 2*p.ng) |-> 0]) IN
         IF r = Fail THEN <<>>
         ELSE LET sl == r[3]
                  a  == IF sl[4] = 0 THEN r[1] ELSE sl[4]
                  b  == IF sl[5] = 0 THEN r[2] ELSE sl[5]
                  rest == FindFrom(p, s, b)
              IN IF b <= a THEN <<>>   \* a zero-width match is outside the notation
                 ELSE IF VetoAhead(p, s, sl) \/ VetoBehind(p, s, sl) THEN rest
                 ELSE <<[a |-> a, b |-> b, caps |-> SubSeq(sl, 9, Len(sl))]>> \o rest

Hopeless(p, s) == p.never \/ \E c \in p.must : \A i \in 1..Len(s) : s[i] # c
Find(p, s) == IF Hopeless(p, s) THEN <<>> ELSE FindFrom(p, s, 1)

-----------------------------------------------------------------------------
(* The right side.  Parts: <<"txt", text>> or <<"var", values>>. *)
RECURSIVE RParts(_, _, _)
RParts(s, vars, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET e == VarEnd(s, i) IN
         IF e # 0
         THEN <<<<"var", VarValues(TrimLT(SubSeq(s, i, e)), vars)>>>> \o RParts(s, vars, e+1)
         ELSE LET es == {j \in i..Len(s) : VarEnd(s, j) # 0}
                  j  == IF es = {} THEN Len(s)+1 ELSE Min(es)
              IN <<<<"txt", SubSeq(s, i, j-1)>>>> \o RParts(s, vars, j)

CompileRight(expr, macros, vars) ==
    [parts |-> RParts(ExpandMacros(expr, macros), vars, 1),
     letters |-> LettersOf(expr, 1, <<>>)]

IndexIn(v, vals) ==
    LET c == {k \in 1..Len(vals) : vals[k] = v} IN IF c = {} THEN 0 ELSE Min(c)

RECURSIVE InterpFrom(_, _, _, _, _, _)
(* <<ok, text>> *)
InterpFrom(parts, p, s, caps, k, vi) ==
    IF k > Len(parts) THEN <<TRUE, <<>>>>
    ELSE IF parts[k][1] = "txt"
         THEN LET r == InterpFrom(parts, p, s, caps, k+1, vi)
              IN <<r[1], parts[k][2] \o r[2]>>
    ELSE IF vi > Len(p.used) \/ 2*vi > Len(caps) THEN <<FALSE, <<>>>>
    ELSE LET a  == caps[2*vi-1]
             b  == caps[2*vi]
             v  == IF a = 0 \/ b = 0 THEN <<>> ELSE SubSeq(s, a, b-1)
             ix == IndexIn(v, p.used[vi])
             to == parts[k][2]
         IN IF ix = 0 \/ to = <<>> THEN <<FALSE, <<>>>>
            ELSE LET r == InterpFrom(parts, p, s, caps, k+1, vi+1)
                 IN <<r[1], to[((ix-1) % Len(to)) + 1] \o r[2]>>

(* The replacements a rule makes in s: seq of [a, b, t]. *)
RECURSIVE Repls(_, _, _, _)
Repls(ms, rule, s, k) ==
    IF k > Len(ms) THEN <<>>
    ELSE LET r == InterpFrom(rule.to.parts, rule.from, s, ms[k].caps, 1, 1)
         IN (IF r[1] THEN <<[a |-> ms[k].a, b |-> ms[k].b, t |-> r[2]]>> ELSE <<>>)
            \o Repls(ms, rule, s, k+1)

Replacements(rule, s) == Repls(Find(rule.from, s), rule, s, 1)

(* pair: <<left, right>> *)
CompileRule(pair, macros, vars) ==
    [from |-> CompilePattern(pair[1], macros, vars),
     to   |-> CompileRight(pair[2], macros, vars)]
=============================================================================
