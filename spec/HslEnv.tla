------------------------------- MODULE HslEnv -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
SetOf(q) == {q[i] : i \in 1..Len(q)}
ASSUME TLCSet(2, TLCEval([letter |-> SetOf(Data.letter), digit |-> SetOf(Data.digit), space |-> SetOf(Data.space)]))
IsLetter(c) == c \in TLCGet(2).letter
IsDigit(c)  == c \in TLCGet(2).digit
IsSpace(c)  == c \in TLCGet(2).space
H == INSTANCE Hsl WITH Letter <- IsLetter, Digit <- IsDigit, Space <- IsSpace
Say(x) == PrintT("@@" \o ToJson(x))
=============================================================================
