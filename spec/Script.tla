------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* What the scripts of a spec mean, from facts about Unicode characters.   *)
(* Facts (supplied by the harness from the Go Unicode tables, which are    *)
(* trusted): sets of code points InLatn, InCyrl, InGeor, InGrek, InHira,   *)
(* InKata, IsMark, IsPunct, IsSpace; functions LowerF, BaseF (the first    *)
(* character of the canonical decomposition), identity where undefined.    *)
(***************************************************************************)
EXTENDS Text
CONSTANTS InLatn, InCyrl, InGeor, InGrek, InHira, InKata, IsMark, IsPunct, IsSpace,
          LowerF, BaseF

Scripts == {"Latn", "Cyrl", "Geor", "Grek", "Hrkt"}

Lower(c) == IF c \in DOMAIN LowerF THEN LowerF[c] ELSE c
Base(c)  == IF c \in DOMAIN BaseF THEN BaseF[c] ELSE c

InScript(sc, c) ==
    CASE sc = "Latn" -> c \in InLatn
      [] sc = "Cyrl" -> c \in InCyrl \/ c \in IsMark
      [] sc = "Geor" -> c \in InGeor
      [] sc = "Grek" -> c \in InGrek
      [] sc = "Hrkt" -> c = 12540 \/ c \in InHira \/ c \in InKata

Fold(sc, c) ==
    CASE sc = "Latn" -> Lower(Base(c))
      [] sc \in {"Cyrl", "Grek"} -> Lower(c)
      [] sc = "Geor" -> c
      [] sc = "Hrkt" -> IF c \in 12352..12447 THEN c + 96 ELSE c

(* Korean form of a punctuation character. *)
SQ == 39  DQ == 34
KoreanPunct(sc, c) ==
    IF sc # "Hrkt" THEN <<c>>
    ELSE CASE c = 12290 -> <<46, 32>>      \* 。
           [] c = 12289 -> <<44, 32>>      \* 、
           [] c = 65306 -> <<58, 32>>      \* ：
           [] c = 65281 -> <<33, 32>>      \* ！
           [] c = 65311 -> <<63, 32>>      \* ？
           [] c = 12316 -> <<126>>         \* 〜
           [] c = 12300 -> <<32, SQ>>      \* 「
           [] c = 12301 -> <<SQ, 32>>      \* 」
           [] c = 12302 -> <<32, DQ>>      \* 『
           [] c = 12303 -> <<DQ, 32>>      \* 』
           [] OTHER -> <<c>>

TrimL(s) == IF s # <<>> /\ s[1] = SPACE THEN Tail(s) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = SPACE THEN SubSeq(s, 1, Len(s)-1) ELSE s

(* Localization of a whole word. *)
Gap(s, i) == i < 1 \/ i > Len(s) \/ s[i] \in IsPunct \/ s[i] \in IsSpace
LocalizeAt(sc, s, i) ==
    IF s[i] = ZWSP THEN <<>>
    ELSE IF s[i] \notin IsPunct THEN <<s[i]>>
    ELSE LET p == KoreanPunct(sc, s[i])
             q == IF Gap(s, i-1) THEN TrimL(p) ELSE p
         IN IF Gap(s, i+1) THEN TrimR(q) ELSE q
Localized(sc, s) == Concat([i \in 1..Len(s) |-> LocalizeAt(sc, s, i)])
=============================================================================
