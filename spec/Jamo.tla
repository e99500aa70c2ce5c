-------------------------------- MODULE Jamo --------------------------------
(***************************************************************************)
(* Composition of decomposed jamo into Hangul syllables.                   *)
(* Compatibility jamo: consonants 0x3131..0x314E, vowels 0x314F..0x3163;   *)
(* composed syllables 0xAC00..0xD7A3.                                      *)
(***************************************************************************)
EXTENDS Text
LOCAL INSTANCE SequencesExt

HYPHEN == 45
LOCAL CB == 12593    \* 0x3131
VOWEL1 == 12623      \* 0x314F
VOWELN == 12643      \* 0x3163
CONS1  == 12593
CONSN  == 12622      \* 0x314E
SYL1   == 44032      \* 0xAC00
SYLN   == 55203
IEUNG  == 12615      \* lead filler
EU     == 12641      \* medial filler
BROKEN == 65533      \* U+FFFD

(* compatibility consonants in order of lead / tail index *)
Leads == <<12593, 12594, 12596, 12599, 12600, 12601, 12609, 12610, 12611, 12613,
           12614, 12615, 12616, 12617, 12618, 12619, 12620, 12621, 12622>>
Tails == <<12593, 12594, 12595, 12596, 12597, 12598, 12599, 12601, 12602, 12603,
           12604, 12605, 12606, 12607, 12608, 12609, 12610, 12612, 12613, 12614,
           12615, 12616, 12618, 12619, 12620, 12621, 12622>>

IsVowel(c) == c \in VOWEL1..VOWELN
IsConsonant(c) == c \in CONS1..CONSN
IsSyllable(c) == c \in SYL1..SYLN
\* conjoining jamo 0x1100.. also are Hangul to the composer; the model does
\* not cover them and no case contains them.

IdxIn(c, q) == LET k == {i \in 1..Len(q) : q[i] = c} IN IF k = {} THEN 0 ELSE Min(k)

(* l, m, t: compatibility jamo or 0 *)
Syllable(l, m, t) ==
    LET ll == IF l = 0 THEN IEUNG ELSE l
        mm == IF m = 0 THEN EU ELSE m
        li == IdxIn(ll, Leads)
        ti == IF t = 0 THEN 0 ELSE IdxIn(t, Tails)   \* a consonant that cannot be a tail is dropped
    IN IF li = 0 THEN BROKEN
       ELSE SYL1 + ((li-1)*21 + (mm - VOWEL1))*28 + ti

(* decomposition of a composed syllable *)
LeadOf(c)   == Leads[((c - SYL1) \div 588) + 1]
MedialOf(c) == VOWEL1 + (((c - SYL1) % 588) \div 28)
TailOf(c)   == LET t == (c - SYL1) % 28 IN IF t = 0 THEN 0 ELSE Tails[t]

(***************************************************************************)
(* The composer as a state machine over the characters. State: out, the    *)
(* buffered l, m, t and whether a hyphen precedes.                         *)
(***************************************************************************)
J0 == [out |-> <<>>, l |-> 0, m |-> 0, t |-> 0, hy |-> FALSE]
Empty(j) == j.l = 0 /\ j.m = 0 /\ j.t = 0
Flush(j) == IF Empty(j) THEN j
            ELSE [j EXCEPT !.out = Append(@, Syllable(j.l, j.m, j.t)), !.l = 0, !.m = 0, !.t = 0]

JStep(j, c) ==
    IF c = HYPHEN THEN [j EXCEPT !.hy = TRUE]
    ELSE LET k == [j EXCEPT !.hy = FALSE] IN
    CASE IsVowel(c) ->
           LET f == IF j.m # 0 \/ j.t # 0 THEN Flush(k) ELSE k IN [f EXCEPT !.m = c]
      [] IsConsonant(c) /\ j.hy ->
           LET f == IF j.t # 0 THEN Flush(k) ELSE k IN [f EXCEPT !.t = c]
      [] IsConsonant(c) /\ ~j.hy -> [Flush(k) EXCEPT !.l = c]
      [] IsSyllable(c) ->
           LET f == Flush(k) IN [f EXCEPT !.l = LeadOf(c), !.m = MedialOf(c), !.t = TailOf(c)]
      [] OTHER -> LET f == Flush(k) IN [f EXCEPT !.out = Append(@, c)]

Compose(s) == Flush(FoldLeft(JStep, J0, s)).out
=============================================================================
