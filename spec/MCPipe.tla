------------------------------- MODULE MCPipe -------------------------------
(***************************************************************************)
(* Model checking the pipeline: for every given spec, every word over its  *)
(* alphabet up to its length. Each state is one (spec, word); the          *)
(* invariants below are the listed properties, stated without the way the  *)
(* machine computes its result. The result of every state is printed, so   *)
(* that the real code can be run on the same words.                        *)
(***************************************************************************)
EXTENDS Env

VARIABLES k, w
allv == <<k, w>>

Init == k \in 1..Len(Specs) /\ w = <<>>
Grow == /\ Len(w) < Data.lens[k]
        /\ \E i \in 1..Len(Data.alphas[k]) : w' = Append(w, Data.alphas[k][i])
        /\ UNCHANGED k
Next == Grow
Spec == Init /\ [][Next]_allv

EmitResult == Say([k |-> k, w |-> w, out |-> P!ResultOf(Specs[k], w)])

(* ------------------------------------------------------------------------ *)
RECURSIVE SubseqOf(_, _)
SubseqOf(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubseqOf(Tail(a), Tail(b))
                  ELSE SubseqOf(a, Tail(b))
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

Normal(cs, s) == P!NormalizeScript(cs, P!NormalizeSpec(cs, s))
Raw(cs, s) == \* before localization
    P!Syllabified(P!Discard(P!Flat(
        P!TranscribeAll(cs.transcribe, 1, P!Runs(P!Flat(
            P!RewriteAll(cs.rewrite, 1, P!Partition(cs, Normal(cs, s)))))))))

(* C06: the order in which the alternatives are listed does not matter, a   *)
(* kept or foreign character is never folded, and folding happens in place. *)
Normalization ==
    LET cs == Specs[k]
        n  == Normal(cs, w)
        sp == Data.specs[k]
        v  == P!NormalizeSpec(cs, w)
    IN /\ \A pm \in {Reverse(sp.norms), [i \in 1..Len(sp.norms) |-> <<sp.norms[i][1], Reverse(sp.norms[i][2])>>]} :
            P!NormalizeSpec([cs EXCEPT !.norms = P!NormPairs(pm)], w) = v
       /\ Len(n) = Len(v)
       /\ \A i \in 1..Len(v) : v[i] \in cs.keep \/ ~P!InScript(cs.script, v[i]) => n[i] = v[i]
       /\ P!NormalizeScript(cs, n) = n

(* C05 (and C03, C08): the parts between texts of meaningless characters    *)
(* are worlds of their own, as long as no rewrite rule reached into one of  *)
(* those texts.                                                             *)
Separation ==
    LET cs == Specs[k]
        p0 == P!Partition(cs, Normal(cs, w))
        p1 == P!RewriteAll(cs.rewrite, 1, p0)
        alone(i) == \* the i-th part, transcribed on its own
            P!Syllabified(P!Discard(P!Flat(P!TranscribeAll(cs.transcribe, 1, P!Runs(p1[i])))))
    IN (\A i \in 1..Len(p0) : p0[i][1][2] = 0 => p1[i] = p0[i])
       => Raw(cs, w) = P!Concat([i \in 1..Len(p0) |-> IF p0[i][1][2] = 0 THEN P!Chars(p0[i]) ELSE alone(i)])

(* C04: each rule only adds transcribed text and only takes text that is    *)
(* still to be transcribed.                                                 *)
OfLevel(parts, l) == SelectSeq(P!Flat(parts), LAMBDA c : c[2] = l)
RECURSIVE Claims(_, _, _)
Claims(cs, j, parts) ==
    IF j > Len(cs.transcribe) THEN TRUE
    ELSE LET q == P!TranscribeBy(cs.transcribe[j], parts)
         IN /\ SubseqOf(OfLevel(parts, 2), OfLevel(q, 2))
            /\ SubseqOf(OfLevel(q, 1), OfLevel(parts, 1))
            /\ OfLevel(q, 0) = OfLevel(parts, 0)
            /\ Claims(cs, j+1, q)
Claimed == LET cs == Specs[k] IN
    Claims(cs, 1, P!Runs(P!Flat(P!RewriteAll(cs.rewrite, 1, P!Partition(cs, Normal(cs, w))))))

(* C04: what nobody claimed is gone. *)
Leftover == LET cs == Specs[k]
                t == P!TranscribeAll(cs.transcribe, 1, P!Runs(P!Flat(P!RewriteAll(cs.rewrite, 1, P!Partition(cs, Normal(cs, w))))))
                d == P!Discard(P!Flat(t))
            IN \A i \in 1..Len(d) : d[i][2] = 1 => d[i][1] = 32

(* C15 *)
Proper == LET cs == Specs[k]  o == P!ResultOf(cs, w)
          IN \A i \in 1..Len(o) : ~P!InScript(cs.script, o[i]) /\ (o[i] = 65533 => 65533 \in SetOf(w))

(* C07 *)
Localization ==
    LET cs == Specs[k]
        r  == Raw(cs, w)
        o  == P!Localized(cs.script, r)
        plain(s) == SelectSeq(s, LAMBDA c : c \notin fPunct /\ c # 32 /\ c # 8203 /\ c # 126 /\ c < 12289)
    IN /\ \A i \in 1..Len(o) : o[i] # 8203
       /\ plain(o) = plain(r)
       /\ cs.script # "Hrkt" => o = SelectSeq(r, LAMBDA c : c # 8203)
       /\ o = <<>> \/ o[1] # 32 \/ r[1] = 32 \/ r[1] = 8203
=============================================================================
