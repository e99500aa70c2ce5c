--------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library as a state machine: the package-wide set of transliterators,*)
(* any number of instances with sets and trace functions of their own, the *)
(* cache of bundled specs, and what was handed out to callers.             *)
(* Every public call is one operation: Do(s, o) is the state after it and  *)
(* the answer the caller gets.                                             *)
(*                                                                         *)
(* Data: schemes   all schemes in use;  std  the standard ones             *)
(*       tags      tag -> [scheme, kind, arg] of the test transliterators  *)
(*       langs     name -> index of the bundled spec in specs              *)
(*       users     name -> index of a user's spec in specs                 *)
(*       regs      names of the registries ("" is the package's)           *)
(*       stdout    <<scheme, word, answer>> of the standard ones           *)
(***************************************************************************)
EXTENDS Env

Schemes == SetOf(Data.schemes)
Std     == SetOf(Data.std)
Regs    == SetOf(Data.regs)
Slots   == SetOf(Data.slots)
Langs   == DOMAIN Data.langs

None == [x \in Schemes |-> ""]
Fresh == [reg    |-> [r \in Regs |-> None],     \* scheme -> tag
          inst   |-> [r \in Regs |-> 0],         \* index of the instance's spec
          sid    |-> [r \in Regs |-> 0],         \* identity of the instance's spec
          fn     |-> [r \in Regs |-> ""],        \* the trace function
          cache  |-> [l \in Langs |-> 0],        \* identity of the cached spec
          nid    |-> 1,
          handed |-> [x \in Slots |-> <<"", 0>>],
          snaps  |-> [x \in Slots |-> None]]

(* ---- transliterators ---------------------------------------------------- *)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Has(q, x) == \E i \in 1..Len(q) : \A j \in 1..Len(x) : i + j - 1 <= Len(q) /\ q[i+j-1] = x[j]

Answer(scheme, tag, w) == \* [out, bad]
    IF tag = "std"
    THEN LET K == {i \in 1..Len(Data.stdout) : Data.stdout[i][1] = scheme /\ Data.stdout[i][2] = w}
         IN [out |-> IF K = {} THEN <<-9>> ELSE Data.stdout[CHOOSE i \in K : TRUE][3], bad |-> FALSE]
    ELSE LET t == Data.tags[tag] IN
         CASE t.kind = "app"    -> [out |-> w \o t.arg, bad |-> FALSE]
           [] t.kind = "pre"    -> [out |-> t.arg \o w, bad |-> FALSE]
           [] t.kind = "rev"    -> [out |-> Rev(w), bad |-> FALSE]
           [] t.kind = "ident"  -> [out |-> w, bad |-> FALSE]
           [] t.kind = "empty"  -> [out |-> <<>>, bad |-> FALSE]
           [] t.kind = "fail"   -> [out |-> t.arg, bad |-> TRUE]
           [] t.kind = "failif" -> [out |-> w, bad |-> Has(w, t.arg)]

RECURSIVE Chain(_, _, _, _, _)
Chain(schemes, k, w, reg, calls) ==
    IF k > Len(schemes) THEN [w |-> w, err |-> "", who |-> "", calls |-> calls]
    ELSE LET sc == schemes[k] IN
         IF sc \notin Schemes \/ reg[sc] = ""
         THEN [w |-> <<>>, err |-> "notimported", who |-> sc, calls |-> calls]
         ELSE LET a == Answer(sc, reg[sc], w)
                  c == IF reg[sc] = "std" THEN calls
                       ELSE Append(calls, [scheme |-> sc, tag |-> reg[sc], in |-> w, out |-> IF a.bad /\ Data.tags[reg[sc]].kind = "failif" THEN <<>> ELSE a.out, failed |-> a.bad])
              IN IF a.bad THEN [w |-> <<>>, err |-> "translit", who |-> sc, calls |-> c]
                 ELSE Chain(schemes, k+1, a.out, reg, c)

Run(i, reg, w) ==
    LET ch == Chain(Specs[i].schemes, 1, w, reg, <<>>)
    IN [out |-> IF ch.err = "" THEN P!ResultOf(Specs[i], ch.w) ELSE <<>>,
        err |-> ch.err, who |-> ch.who, calls |-> ch.calls]

(* the events a trace function sees *)
RECURSIVE EventsFrom(_, _, _, _)
EventsFrom(cs, reg, st, acc) ==
    IF st.ph = "Done" THEN acc
    ELSE IF /\ st.ph = "Transliterate" /\ st.k <= Len(cs.schemes)
            /\ \/ cs.schemes[st.k] \notin Schemes
               \/ reg[cs.schemes[st.k]] = ""
               \/ Answer(cs.schemes[st.k], reg[cs.schemes[st.k]], st.w).bad
    THEN acc
    ELSE LET n == P!StepOf(cs, st, LAMBDA sc, x : Answer(sc, reg[sc], x).out)
         IN EventsFrom(cs, reg, n, IF n.n = st.n THEN acc ELSE Append(acc, n.ev))
Events(i, reg, w) == EventsFrom(Specs[i], reg, P!Start(w), <<>>)

(* ---- registries ----------------------------------------------------------- *)
SetJson(m) == [x \in {y \in Schemes : m[y] # ""} |-> m[x]]
AddTo(s, r, sc, tag) == [s EXCEPT !.reg[r][sc] = tag]

(* loading a bundled spec: the state after, and its identity *)
Loaded(s, l) ==
    IF l \notin Langs THEN s
    ELSE IF s.cache[l] # 0 THEN s
    ELSE [s EXCEPT !.cache[l] = s.nid, !.nid = @ + 1]

(* ---- the operations --------------------------------------------------------- *)
\* an instance operation needs the instance
Usable(s, o) == o.op \in {"use", "unuse", "install", "list", "snap", "run", "trace", "runtr", "specid"}
                => o.reg = "" \/ s.inst[o.reg] # 0

Do(s, o) ==
    CASE o.op = "new" ->
           IF o.user = ""
           THEN IF o.lang \in Langs
                THEN LET t == Loaded(s, o.lang)
                     IN <<[t EXCEPT !.inst[o.reg] = Data.langs[o.lang], !.sid[o.reg] = t.cache[o.lang],
                                    !.reg[o.reg] = None, !.fn[o.reg] = ""], [err |-> ""]>>
                ELSE <<s, [err |-> "notfound"]>>
           ELSE <<[s EXCEPT !.inst[o.reg] = Data.users[o.user], !.sid[o.reg] = s.nid, !.nid = @ + 1,
                            !.reg[o.reg] = None, !.fn[o.reg] = ""], [err |-> ""]>>
      [] o.op = "use" ->
           LET sc == Data.tags[o.tag].scheme
               free == s.reg[o.reg][sc] = ""
           IN <<IF free THEN AddTo(s, o.reg, sc, o.tag) ELSE s, [ok |-> free]>>
      [] o.op = "unuse" ->
           IF o.scheme \notin Schemes THEN <<s, [ok |-> FALSE]>>
           ELSE <<AddTo(s, o.reg, o.scheme, ""), [ok |-> s.reg[o.reg][o.scheme] # ""]>>
      [] o.op = "install" ->
           LET free == \A x \in Std : s.reg[o.reg][x] = ""
           IN <<IF free THEN [s EXCEPT !.reg[o.reg] = [x \in Schemes |-> IF x \in Std THEN "std" ELSE @[x]]] ELSE s,
                [ok |-> free]>>
      [] o.op = "list" -> <<s, [set |-> SetJson(s.reg[o.reg])]>>
      [] o.op = "snap" -> <<[s EXCEPT !.snaps[o.snap] = s.reg[o.reg]], [set |-> SetJson(s.reg[o.reg])]>>
      [] o.op = "snapread" -> <<s, [set |-> SetJson(s.snaps[o.snap])]>>
      [] o.op = "snapadd" ->   \* the caller changes the copy it was given
           <<[s EXCEPT !.snaps[o.snap][Data.tags[o.tag].scheme] = o.tag], [ok |-> TRUE]>>
      [] o.op = "snapdel" ->
           <<[s EXCEPT !.snaps[o.snap][o.scheme] = ""], [ok |-> s.snaps[o.snap][o.scheme] # ""]>>
      [] o.op = "run" ->
           IF o.reg = ""
           THEN IF o.lang \in Langs
                THEN <<Loaded(s, o.lang), Run(Data.langs[o.lang], s.reg[""], o.word)>>
                ELSE <<s, [err |-> "notfound", calls |-> <<>>]>>
           ELSE <<s, Run(s.inst[o.reg], s.reg[o.reg], o.word)>>
      [] o.op = "load" ->
           IF o.lang \in Langs
           THEN LET t == Loaded(s, o.lang)
                IN <<[t EXCEPT !.handed[o.snap] = <<o.lang, t.cache[o.lang]>>],
                     [err |-> "", spec |-> t.cache[o.lang], lang |-> o.lang]>>
           ELSE <<s, [err |-> "notfound", spec |-> 0, lang |-> ""]>>
      [] o.op = "unload" ->
           <<IF o.lang \in Langs THEN [s EXCEPT !.cache[o.lang] = 0] ELSE s, [err |-> ""]>>
      [] o.op = "langs" -> <<s, [langs |-> Data.listed]>>
      [] o.op = "langsmut" -> <<s, [ok |-> TRUE]>>
      [] o.op = "runspec" ->   \* with the standard transliterators
           IF s.handed[o.snap][2] = 0 THEN <<s, [err |-> "none"]>>
           ELSE LET r == Run(Data.langs[s.handed[o.snap][1]],
                             [x \in Schemes |-> IF x \in Std THEN "std" ELSE ""], o.word)
                IN <<s, [out |-> r.out, err |-> r.err]>>
      [] o.op = "dumpspec" ->
           <<s, IF s.handed[o.snap][2] = 0 THEN [err |-> "none"]
                ELSE [err |-> "", says |-> s.handed[o.snap][1]]>>
      [] o.op = "trace" -> <<[s EXCEPT !.fn[o.reg] = o.fn], [ok |-> TRUE]>>
      [] o.op = "runtr" ->
           LET r == Run(s.inst[o.reg], s.reg[o.reg], o.word)
               ev == Events(s.inst[o.reg], s.reg[o.reg], o.word)
           IN <<s, [out |-> r.out, err |-> r.err, who |-> r.who,
                    seen |-> IF s.fn[o.reg] = "" \/ ev = <<>> THEN <<>>
                             ELSE <<[fn |-> s.fn[o.reg], events |-> ev]>>]>>
      [] o.op = "specid" -> <<s, [spec |-> s.sid[o.reg]]>>
=============================================================================
