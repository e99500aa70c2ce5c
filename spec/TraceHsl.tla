------------------------------- MODULE TraceHsl -----------------------------
(***************************************************************************)
(* Recorded readings of documents by the real code. A case is              *)
(*   doc    the text                                                       *)
(*   what   "hsl": secs must be the sections; "spec": dump the loaded spec *)
(*   err    whether the code returned an error                             *)
(* The machine reads the document token by token and judges at the end.    *)
(***************************************************************************)
EXTENDS SpecFile
Cases == Data.cases
VARIABLES c, s, v
Init == c \in 1..Len(Cases) /\ s = H!Start /\ v = "run"

Read1 == /\ v = "run" /\ s.verdict = "run"
         /\ \E n \in {H!Read(Cases[c].doc, s)} : s' = n
         /\ UNCHANGED <<c, v>>

SecOf(secs, n) == LET K == {k \in 1..Len(secs) : secs[k].name = n} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
SamePairs(kind, a, b) == IF kind = "dict" THEN SameDict(a, b) ELSE a = b
SameSecs(want, got) ==
    /\ \A k \in 1..Len(got) : got[k].pairs # <<>> => SecOf(want, got[k].name) # 0
    /\ \A k \in 1..Len(want) :
         LET j == SecOf(got, want[k].name)
         IN /\ j # 0
            /\ got[j].kind = want[k].kind
            /\ want[k].line \in {0, got[j].line}
            /\ SamePairs(want[k].kind, want[k].pairs, got[j].pairs)
            \* the readers of a dictionary
            /\ want[k].kind = "dict" =>
                 /\ SameDict(got[j].map, Dict(want[k]))
                 /\ got[j].injok = (\A i \in 1..Len(want[k].pairs) : Len(want[k].pairs[i].r) = 1)
                 /\ got[j].injok => SameDict(got[j].inj, Dict(want[k]))
                 /\ \A i \in 1..Len(got[j].acc) : /\ got[j].acc[i].all = Values(want[k], got[j].acc[i].key)
                                                  /\ got[j].acc[i].one = One(want[k], got[j].acc[i].key)
SameSpec(want, got) ==
    /\ \A f \in {"id", "code2", "code3", "english", "korean", "script", "translit", "authors", "stage", "rewrite", "transcribe", "test", "source"} :
         want[f] = got[f]
    /\ \A f \in {"macros", "vars", "normalize"} : SameDict(want[f], got[f])

Judge ==
    /\ v = "run" /\ s.verdict # "run"
    /\ LET d  == Cases[c].doc
           p  == IF H!Lexical(d, 1) THEN s ELSE [s EXCEPT !.verdict = "error"]
           x  == IF Cases[c].what = "spec" THEN Verdict(p, SetOf(Cases[c].bad)) ELSE p.verdict
           right == CASE x = "loose" -> TRUE
                      [] x = "error" -> Cases[c].err
                      [] x = "ok" -> /\ ~Cases[c].err \/ (Cases[c].what = "hsl" /\ p.noright)
                                     /\ Cases[c].err \/ IF Cases[c].what = "spec" THEN SameSpec(Loaded(p, d), Cases[c].dump)
                                                        ELSE p.noright \/ SameSecs(p.secs, Cases[c].secs)
       IN /\ v' = IF right THEN "ok" ELSE "bad"
          /\ Say([id |-> Cases[c].id, verdict |-> x, right |-> right,
                  want |-> IF right THEN <<>> ELSE IF x = "ok" /\ Cases[c].what = "spec" THEN <<Loaded(p, d)>> ELSE p.secs])
    /\ UNCHANGED <<c, s>>
Next == Read1 \/ Judge
Spec == Init /\ [][Next]_<<c, s, v>>
=============================================================================
