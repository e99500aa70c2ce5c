------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The Hangulize procedure for one job (spec, word) as a state machine.    *)
(* One action per step; in the rewrite and transcribe steps one action per *)
(* rule that has an effect, so the successive states are exactly the       *)
(* events a trace function sees.                                           *)
(*                                                                         *)
(* A compiled spec is a record                                             *)
(*   script, why (the script as written), schemes, norms (seq of <<old, new>>), keep (set of letters    *)
(*   folding leaves alone), puncts (meaningful punctuation),               *)
(*   rewrite, transcribe (seqs of compiled rules)                          *)
(***************************************************************************)
EXTENDS Hre, Jamo, Script, FiniteSets
LOCAL INSTANCE SequencesExt

(* ---------------------------------------------------------------------- *)
(* Compiling a structured spec:                                             *)
(* [script, schemes, macros, vars, norms: seq of <<to, froms>>, rewrite,    *)
(*  transcribe: seqs of <<left, right>>]                                    *)
RECURSIVE PunctsFrom(_, _, _, _)
(* Punctuation mentioned on a left side and not produced by any rewrite     *)
(* rule up to and including that one. *)
PunctsFrom(rules, k, made, isRw) ==
    IF k > Len(rules) THEN {}
    ELSE LET m == IF isRw THEN made \cup rules[k].to.letters ELSE made
         IN {c \in rules[k].from.letters : c \in IsPunct /\ c \notin m}
            \cup PunctsFrom(rules, k+1, m, isRw)

MadeBy(rules) == UNION {rules[k].to.letters : k \in 1..Len(rules)}
Puncts(rw, tr) == PunctsFrom(rw, 1, {}, TRUE) \cup PunctsFrom(tr, 1, MadeBy(rw), FALSE)

NormPairs(norms) ==
    LongestFirst(Concat([k \in 1..Len(norms) |->
                            [j \in 1..Len(norms[k][2]) |-> <<norms[k][2][j], norms[k][1]>>]]))

ScriptOf(name) == IF name = "" THEN "Latn" ELSE name

Assemble(script, schemes, norms, rw, tr) ==
    [script |-> ScriptOf(script), why |-> script, schemes |-> schemes,
     norms |-> NormPairs(norms),
     keep |-> UNION {CharsOf(norms[k][1]) : k \in 1..Len(norms)},
     puncts |-> Puncts(rw, tr), rewrite |-> rw, transcribe |-> tr]

CompileSpec(sp) ==
    LET rw == [k \in 1..Len(sp.rewrite) |-> CompileRule(sp.rewrite[k], sp.macros, sp.vars)]
        tr == [k \in 1..Len(sp.transcribe) |-> CompileRule(sp.transcribe[k], sp.macros, sp.vars)]
    IN Assemble(sp.script, sp.schemes, sp.norms, rw, tr)

(* ---------------------------------------------------------------------- *)
(* Texts with levels. A cell is <<char, level>>; a part is a seq of cells.  *)
(* Level 0: meaningless, 1: to be transcribed, 2: transcribed.              *)
Cells(s, l) == [i \in 1..Len(s) |-> <<s[i], l>>]
Chars(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

(* Replace the ranges of repls (ordered, disjoint) by cells of level l. *)
RECURSIVE ApplyFrom(_, _, _, _, _)
ApplyFrom(cs, repls, k, pos, l) ==
    IF k > Len(repls) THEN SubSeq(cs, pos, Len(cs))
    ELSE SubSeq(cs, pos, repls[k].a - 1) \o Cells(repls[k].t, l)
         \o ApplyFrom(cs, repls, k+1, repls[k].b, l)
Apply(cs, repls, l) == IF repls = <<>> THEN cs ELSE ApplyFrom(cs, repls, 1, 1, l)

(* The stretches of s between the places in S (those before which a new     *)
(* one starts). *)
Stretches(s, S) ==
    IF s = <<>> THEN <<>>
    ELSE LET b == TLCEval(<<1>> \o SetToSortSeq(S, LAMBDA x, y : x < y) \o <<Len(s) + 1>>)
         IN [k \in 1..(Len(b) - 1) |-> SubSeq(s, b[k], b[k+1] - 1)]

(* Maximal runs of equal level. *)
Runs(cs) == Stretches(cs, {j \in 2..Len(cs) : cs[j][2] # cs[j-1][2]})

(* ---------------------------------------------------------------------- *)
(* Normalize *)
NormalizeSpec(cs, w) == IF cs.norms = <<>> THEN w ELSE ReplaceFrom(w, cs.norms, 1)
NormalizeScript(cs, w) ==
    [i \in 1..Len(w) |-> IF w[i] \in cs.keep \/ ~InScript(cs.script, w[i])
                         THEN w[i] ELSE Fold(cs.script, w[i])]

(* Partition *)
Meaningful(cs, c) == InScript(cs.script, c) \/ c \in cs.puncts \/ c \in IsSpace
Partition(cs, w) == Runs([i \in 1..Len(w) |-> <<w[i], IF Meaningful(cs, w[i]) THEN 1 ELSE 0>>])

(* Rewrite: one rule on every part *)
RewriteBy(rule, parts) ==
    [p \in 1..Len(parts) |-> Apply(parts[p], Replacements(rule, Chars(parts[p])), 1)]

RECURSIVE NextRewrite(_, _, _)
(* <<k, parts>>: the first rule k or later that changes something and its   *)
(* effect, or <<0, parts>>. *)
NextRewrite(rules, k, parts) ==
    IF k > Len(rules) THEN <<0, parts>>
    ELSE LET q == TLCEval(RewriteBy(rules[k], parts))
         IN IF q = parts THEN NextRewrite(rules, k+1, parts) ELSE <<k, q>>

(* Transcribe: cells of level 2 are masked; nothing matches a mask. *)
MASK == -1
Masked(cs) == [i \in 1..Len(cs) |-> IF cs[i][2] = 2 THEN MASK ELSE cs[i][1]]
TouchesMask(m, r) == \E i \in r.a..(r.b-1) : m[i] = MASK
NotMasked(m, repls) == SelectSeq(repls, LAMBDA r : ~TouchesMask(m, r))

TranscribeBy(rule, parts) ==
    [p \in 1..Len(parts) |->
        IF parts[p] # <<>> /\ parts[p][1][2] = 0 THEN parts[p]
        ELSE LET m == Masked(parts[p])
             IN Apply(parts[p], NotMasked(m, Replacements(rule, m)), 2)]

RECURSIVE NextTranscribe(_, _, _)
NextTranscribe(rules, k, parts) ==
    IF k > Len(rules) THEN <<0, parts>>
    ELSE LET q == TLCEval(TranscribeBy(rules[k], parts))
         IN IF q = parts THEN NextTranscribe(rules, k+1, parts) ELSE <<k, q>>

Flat(parts) == Concat(parts)

(* Leftovers vanish; a run of them with a blank in it leaves one space. *)
Discard(cells) ==
    LET runs == TLCEval(Runs(cells)) IN
    Concat([r \in 1..Len(runs) |->
        IF runs[r][1][2] # 1 THEN runs[r]
        ELSE IF \E i \in 1..Len(runs[r]) : runs[r][i][1] \in IsSpace THEN <<<<SPACE, 1>>>>
        ELSE <<>>])

(* Syllabify: jamo compose across everything but meaningless letters *)
Syllabified(cells) ==
    LET runs == TLCEval(Stretches(cells, {j \in 2..Len(cells) : (cells[j][2] = 0) # (cells[j-1][2] = 0)}))
    IN Concat([r \in 1..Len(runs) |->
                  IF runs[r][1][2] = 0 THEN Chars(runs[r]) ELSE Compose(Chars(runs[r]))])

(* ---------------------------------------------------------------------- *)
(* The whole procedure as one function (used where only the result          *)
(* matters), and as a machine (used for traces).                            *)
RECURSIVE RewriteAll(_, _, _)
RewriteAll(rules, k, parts) ==
    LET n == NextRewrite(rules, k, parts)
    IN IF n[1] = 0 THEN n[2] ELSE RewriteAll(rules, n[1]+1, n[2])
RECURSIVE TranscribeAll(_, _, _)
TranscribeAll(rules, k, parts) ==
    LET n == NextTranscribe(rules, k, parts)
    IN IF n[1] = 0 THEN n[2] ELSE TranscribeAll(rules, n[1]+1, n[2])

ResultOf(cs, w) ==
    LET n  == NormalizeScript(cs, NormalizeSpec(cs, w))
        rw == RewriteAll(cs.rewrite, 1, Partition(cs, n))
        tr == TranscribeAll(cs.transcribe, 1, Runs(Flat(rw)))
    IN Localized(cs.script, Syllabified(Discard(Flat(tr))))

(* The machine's state for a job:                                           *)
(*  ph     the step to do next                                              *)
(*  w      the word as a text (for word steps)                              *)
(*  parts  the parts (for rewrite and transcribe)                           *)
(*  k      the next rule                                                    *)
(*  ev     the last event [step, word, why, rule]; rule 0 = none            *)
(*  n      number of events so far                                          *)
Ev(step, word, why, rule) == [step |-> step, word |-> word, why |-> why, rule |-> rule]
NoEv == Ev("", <<>>, "", 0)

Emit(st, e) == IF e.word = st.ev.word THEN st ELSE [st EXCEPT !.ev = e, !.n = @ + 1]

Start(word) == [ph |-> "Input", w |-> word, parts |-> <<>>, k |-> 1, ev |-> NoEv, n |-> 0]

(* translits: function from (scheme, word) to the transliterated word       *)
StepOf(cs, st, Translit(_, _)) ==
    CASE st.ph = "Input" ->
            Emit([st EXCEPT !.ph = "Transliterate"], Ev("Input", st.w, "", 0))
      [] st.ph = "Transliterate" ->
            IF st.k > Len(cs.schemes) THEN [st EXCEPT !.ph = "NormalizeSpec", !.k = 1]
            ELSE LET v == Translit(cs.schemes[st.k], st.w)
                 IN Emit([st EXCEPT !.w = v, !.k = @ + 1],
                         Ev("Transliterate", v, cs.schemes[st.k], 0))
      [] st.ph = "NormalizeSpec" ->
            LET v == NormalizeSpec(cs, st.w)
            IN Emit([st EXCEPT !.ph = "NormalizeScript", !.w = v], Ev("Normalize", v, "", 0))
      [] st.ph = "NormalizeScript" ->
            LET v == NormalizeScript(cs, st.w)
            IN Emit([st EXCEPT !.ph = "Rewrite", !.w = v, !.parts = Partition(cs, v), !.k = 1],
                    Ev("Normalize", v, cs.why, 0))
      [] st.ph = "Rewrite" ->
            LET n == NextRewrite(cs.rewrite, st.k, st.parts)
            IN IF n[1] = 0
               THEN [st EXCEPT !.ph = "Transcribe", !.parts = Runs(Flat(st.parts)), !.k = 1]
               ELSE Emit([st EXCEPT !.parts = n[2], !.k = n[1] + 1],
                         Ev("Rewrite", Chars(Flat(n[2])), "", n[1]))
      [] st.ph = "Transcribe" ->
            LET n == NextTranscribe(cs.transcribe, st.k, st.parts)
            IN IF n[1] = 0
               THEN [st EXCEPT !.ph = "Syllabify"]
               ELSE Emit([st EXCEPT !.parts = n[2], !.k = n[1] + 1],
                         Ev("Transcribe", Chars(Flat(n[2])), "", n[1]))
      [] st.ph = "Syllabify" ->
            LET v == Syllabified(Discard(Flat(st.parts)))
            IN Emit([st EXCEPT !.ph = "Localize", !.w = v, !.parts = <<>>], Ev("Syllabify", v, "", 0))
      [] st.ph = "Localize" ->
            LET v == Localized(cs.script, st.w)
            IN Emit([st EXCEPT !.ph = "Done", !.w = v], Ev("Localize", v, cs.why, 0))
=============================================================================
