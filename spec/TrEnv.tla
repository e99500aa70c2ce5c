-------------------------------- MODULE TrEnv --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
\* readings: <<c, reading>>; tables: country -> <<romanization, letter>> list
ASSUME TLCSet(2, TLCEval(LET R == Data.readings IN
        [c \in {R[i][1] : i \in 1..Len(R)} |-> R[CHOOSE i \in 1..Len(R) : R[i][1] = c][2]]))
ASSUME TLCSet(3, TLCEval([k \in DOMAIN Data.tables |-> {Data.tables[k][i] : i \in 1..Len(Data.tables[k])}]))
Reads(c) == LET R == TLCGet(2) IN IF c \in DOMAIN R THEN R[c] ELSE <<>>
Tab(k) == TLCGet(3)[k]
P == INSTANCE Pinyin WITH Reading <- Reads
C == INSTANCE Cyrillic WITH Table <- Tab
Say(x) == PrintT("@@" \o ToJson(x))
=============================================================================
