------------------------------ MODULE Furigana ------------------------------
(***************************************************************************)
(* The furigana transliterator: iteration marks, long vowels, and the      *)
(* writer which assembles the pronunciations of analysed tokens.           *)
(*                                                                         *)
(* Kana are told apart by facts of Unicode, not by arithmetic:             *)
(*   Syllabary(c) "hira", "kata" or "" for anything else                   *)
(*   Plain(c)     without its voicing mark                                 *)
(*   Voiced(c)    with a voicing mark, or c itself if there is no such     *)
(*   Vowel(c)     "a".."o" of a katakana syllable, or ""                   *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Syllabary(_), Plain(_), Voiced(_), Vowel(_), Blank(_)

LONG == 12540                                     \* the long mark
\* ァア ィイ ゥウ ェエ ォオ
Small == [a |-> 12449, i |-> 12451, u |-> 12453, e |-> 12455, o |-> 12457]
Big   == [a |-> 12450, i |-> 12452, u |-> 12454, e |-> 12456, o |-> 12458]
TE == 12486  DE == 12487  TO == 12488  DO == 12489

(* ---- iteration marks ----------------------------------------------------- *)
\* the character standing for c after the (resolved) character p
Resolve1(p, c) ==
    CASE Syllabary(p) = "hira" /\ c = 12445 -> Plain(p)
      [] Syllabary(p) = "hira" /\ c = 12446 -> Voiced(p)
      [] Syllabary(p) = "kata" /\ c = 12541 -> Plain(p)
      [] Syllabary(p) = "kata" /\ c = 12542 -> Voiced(p)
      [] OTHER -> c
ResolveNext(out, c) == Append(out, Resolve1(IF out = <<>> THEN 0 ELSE out[Len(out)], c))
RECURSIVE ResolveFrom(_, _, _)
ResolveFrom(w, i, out) == IF i > Len(w) THEN out ELSE ResolveFrom(w, i+1, ResolveNext(out, w[i]))
Resolve(w) == ResolveFrom(w, 1, <<>>)

(* ---- long vowels ---------------------------------------------------------- *)
\* the vowel kana c prolongs the vowel of the kana p
Prolongs(c, p) ==
    LET v == Vowel(p) IN
    CASE c \in {Small.a, Big.a} -> v = "a"
      [] c = Big.i   -> v = "i"
      [] c = Small.i -> v = "i" \/ (v = "e" /\ p \notin {TE, DE})    \* テ with a small i is "ti"
      [] c = Big.u   -> v \in {"u", "o"}
      [] c = Small.u -> v = "u" \/ (v = "o" /\ p \notin {TO, DO})    \* ト with a small u is "tu"
      [] c \in {Small.e, Big.e} -> v = "e"
      [] c \in {Small.o, Big.o} -> v = "o"
      [] OTHER -> FALSE
\* w with the long vowels after the first n characters merged
Merge(w, n) == [i \in 1..Len(w) |-> IF i > n /\ i > 1 /\ Prolongs(w[i], w[i-1]) THEN LONG ELSE w[i]]

(* ---- the writer ------------------------------------------------------------ *)
\* token: [dummy, known, surf, pos, sub1, sub2, root, pron]; features as names:
\*   pos "filler" "sign" "aux" "particle" "other", root "ha" "he" "other",
\*   person: whether it is the name of a person
Class(t) == IF t.known THEN CASE t.pos \in {"filler", "sign"} -> "meta"
                              [] t.pos = "aux"    -> "aux"
                              [] t.pos = "other" /\ t.person -> "person"
                              [] OTHER -> "word"
            ELSE IF \A i \in 1..Len(t.surf) : Blank(t.surf[i]) THEN "meta" ELSE "unknown"
Sound(t) == IF ~t.known THEN t.surf
            ELSE IF t.pos = "particle" /\ t.root = "ha" THEN <<12495>>
            ELSE IF t.pos = "particle" /\ t.root = "he" THEN <<12504>>
            ELSE t.pron

\* state: out (finished text), last (class of the word before), word (its core
\* and the auxiliaries so far), core (length of the core), cls
WriterStart == [out |-> <<>>, word |-> <<>>, core |-> 0, cls |-> "none"]
Finish(s) == s.out \o Merge(s.word, s.core)
ReadToken(s, t) ==
    IF t.dummy THEN s
    ELSE IF Class(t) = "aux" /\ s.cls # "none" THEN [s EXCEPT !.word = @ \o Sound(t)]
    ELSE LET k == Class(t)
             w == IF k = "unknown" THEN Merge(Sound(t), 0) ELSE Sound(t)
             sep == IF k = "person" /\ s.cls = "person" THEN <<32>> ELSE <<>>
         IN [out |-> Finish(s) \o sep, word |-> w, core |-> Len(w), cls |-> k]
RECURSIVE WriteFrom(_, _, _)
WriteFrom(ts, i, s) == IF i > Len(ts) THEN Finish(s) ELSE WriteFrom(ts, i+1, ReadToken(s, ts[i]))
Write(ts) == WriteFrom(ts, 1, WriterStart)
=============================================================================
