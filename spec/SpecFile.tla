------------------------------- MODULE SpecFile -----------------------------
(***************************************************************************)
(* Loading a spec: what the sections of an HSL document mean.              *)
(***************************************************************************)
EXTENDS HslEnv

\* names of sections, keys and scripts, as texts
N == Data.names       \* record: name -> code points
Scripts == SetOf(Data.scripts)

Sec(p, name) == LET k == H!IndexOf(p.secs, name)
                IN IF k = 0 THEN [name |-> name, kind |-> "none", line |-> 0, pairs |-> <<>>] ELSE p.secs[k]
KindIs(p, name, kind) == Sec(p, name).kind \in {"none", kind}
Values(sec, key) == LET K == {i \in 1..Len(sec.pairs) : sec.pairs[i].l = key}
                    IN IF K = {} THEN <<>> ELSE sec.pairs[CHOOSE i \in K : TRUE].r
One(sec, key) == LET v == Values(sec, key) IN IF v = <<>> THEN <<>> ELSE v[1]
Full(sec) == \A i \in 1..Len(sec.pairs) : sec.pairs[i].r # <<>>
Rules(sec) == [i \in 1..Len(sec.pairs) |-> [id |-> i - 1, from |-> sec.pairs[i].l, to |-> sec.pairs[i].r[1]]]
Dict(sec) == [i \in 1..Len(sec.pairs) |-> [key |-> sec.pairs[i].l, vals |-> sec.pairs[i].r]]
Tests(sec) == [i \in 1..Len(sec.pairs) |-> [key |-> sec.pairs[i].l, vals |-> <<sec.pairs[i].r[1]>>]]

\* badpatterns: the left sides the notation forbids (given with the data)
Verdict(p, bad) ==
    IF p.verdict # "ok" THEN p.verdict
    ELSE LET lang == Sec(p, N.lang)
             ok == /\ \A n \in {N.lang, N.config, N.macros, N.vars, N.normalize} : KindIs(p, n, "dict")
                   /\ \A n \in {N.rewrite, N.transcribe, N.test} : KindIs(p, n, "list") /\ Full(Sec(p, n))
                   /\ lang.kind = "none" \/ Len(Values(lang, N.codes)) = 2
                   /\ One(lang, N.script) \in Scripts
                   /\ \A i \in 1..Len(Sec(p, N.macros).pairs) : Len(Sec(p, N.macros).pairs[i].r) = 1
                   /\ \A n \in {N.rewrite, N.transcribe} : \A i \in 1..Len(Sec(p, n).pairs) : Sec(p, n).pairs[i].l \notin bad
         IN IF ok THEN "ok" ELSE "error"

Loaded(p, src) ==
    LET lang == Sec(p, N.lang)  conf == Sec(p, N.config)
    IN [id |-> One(lang, N.id), code2 |-> IF lang.kind = "none" THEN <<>> ELSE Values(lang, N.codes)[1],
        code3 |-> IF lang.kind = "none" THEN <<>> ELSE Values(lang, N.codes)[2],
        english |-> One(lang, N.english), korean |-> One(lang, N.korean), script |-> One(lang, N.script),
        translit |-> Values(lang, N.translit), authors |-> Values(conf, N.authors), stage |-> One(conf, N.stage),
        macros |-> Dict(Sec(p, N.macros)), vars |-> Dict(Sec(p, N.vars)), normalize |-> Dict(Sec(p, N.normalize)),
        rewrite |-> Rules(Sec(p, N.rewrite)), transcribe |-> Rules(Sec(p, N.transcribe)), test |-> Tests(Sec(p, N.test)),
        source |-> src]

\* the same list, in any order of the keys
SameDict(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
=============================================================================
