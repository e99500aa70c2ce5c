------------------------------ MODULE FuriEnv -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
\* kana: [c, syllabary, plain, voiced, vowel]
ASSUME TLCSet(2, TLCEval(LET K == Data.kana IN
        [c \in {K[i][1] : i \in 1..Len(K)} |-> K[CHOOSE i \in 1..Len(K) : K[i][1] = c]]))
ASSUME TLCSet(3, TLCEval({Data.space[i] : i \in 1..Len(Data.space)}))
Kana == TLCGet(2)
Syll(c)  == IF c \in DOMAIN Kana THEN Kana[c][2] ELSE ""
Pl(c)    == IF c \in DOMAIN Kana THEN Kana[c][3] ELSE c
Vo(c)    == IF c \in DOMAIN Kana THEN Kana[c][4] ELSE c
Vow(c)   == IF c \in DOMAIN Kana THEN Kana[c][5] ELSE ""
IsBlank(c) == c \in TLCGet(3)
F == INSTANCE Furigana WITH Syllabary <- Syll, Plain <- Pl, Voiced <- Vo, Vowel <- Vow, Blank <- IsBlank
Say(x) == PrintT("@@" \o ToJson(x))
=============================================================================
