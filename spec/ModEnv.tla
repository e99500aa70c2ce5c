------------------------------- MODULE ModEnv -------------------------------
(* What the modules have to say: by the machines of the transliterators.    *)
(* Data: readings, tables (TrEnv), kana, space; nfc and tokens: facts about *)
(* words, [word, ...]; gives: [lang, word, kind, text]; versions.           *)
EXTENDS TrEnv
ASSUME TLCSet(12, TLCEval(LET K == Data.kana IN
        [c \in {K[i][1] : i \in 1..Len(K)} |-> K[CHOOSE i \in 1..Len(K) : K[i][1] = c]]))
ASSUME TLCSet(13, TLCEval({Data.space[i] : i \in 1..Len(Data.space)}))
ASSUME TLCSet(14, TLCEval(LET K == Data.words IN
        [w \in {K[i].word : i \in 1..Len(K)} |-> K[CHOOSE i \in 1..Len(K) : K[i].word = w]]))
ASSUME TLCSet(15, TLCEval(LET K == Data.gives IN
        [w \in {<<K[i].lang, K[i].word>> : i \in 1..Len(K)} |-> LET k == K[CHOOSE i \in 1..Len(K) : <<K[i].lang, K[i].word>> = w] IN <<k.kind, k.text>>]))
Kana == TLCGet(12)
Syll(c)  == IF c \in DOMAIN Kana THEN Kana[c][2] ELSE ""
Pl(c)    == IF c \in DOMAIN Kana THEN Kana[c][3] ELSE c
Vo(c)    == IF c \in DOMAIN Kana THEN Kana[c][4] ELSE c
Vow(c)   == IF c \in DOMAIN Kana THEN Kana[c][5] ELSE ""
IsBlank(c) == c \in TLCGet(13)
F == INSTANCE Furigana WITH Syllabary <- Syll, Plain <- Pl, Voiced <- Vo, Vowel <- Vow, Blank <- IsBlank
Fact(w) == TLCGet(14)[w]
Answer(m, s, w) ==
    CASE m = "version"  -> <<"text", Data.version>>
      [] m = "pinyin"   -> <<"text", P!Pinyin(Fact(w).nfc)>>
      [] m = "furigana" -> <<"text", F!Write(Fact(w).tokens)>>
      [] m = "cyrillic" -> IF s \in DOMAIN TLCGet(3) THEN <<"text", C!Cyrillic(w, s)>> ELSE <<"error", <<>>>>
Given(l, w) == TLCGet(15)[<<l, w>>]
=============================================================================
