-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* The data of a run (environment variable VDATA names a JSON file), the   *)
(* Unicode facts in it, and the Pipeline over those facts. Everything is   *)
(* kept in TLC registers, because TLC evaluates some constant definitions  *)
(* again at each use.  Registers: 1 the data, 2 the facts, 3 the compiled  *)
(* specs.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
SetOf(q) == {q[i] : i \in 1..Len(q)}
PairFun(ps) == [c \in {ps[k][1] : k \in 1..Len(ps)} |->
                  LET k == CHOOSE k \in 1..Len(ps) : ps[k][1] = c IN ps[k][2]]
ASSUME LET F == Data.facts IN
       TLCSet(2, TLCEval([latn |-> SetOf(F.latn), cyrl |-> SetOf(F.cyrl), geor |-> SetOf(F.geor),
                          grek |-> SetOf(F.grek), hira |-> SetOf(F.hira), kata |-> SetOf(F.kata),
                          mark |-> SetOf(F.mark), punct |-> SetOf(F.punct), space |-> SetOf(F.space),
                          lower |-> PairFun(F.lower), base |-> PairFun(F.base)]))
fLatn == TLCGet(2).latn   fCyrl == TLCGet(2).cyrl   fGeor == TLCGet(2).geor   fGrek == TLCGet(2).grek
fHira == TLCGet(2).hira   fKata == TLCGet(2).kata   fMark == TLCGet(2).mark   fPunct == TLCGet(2).punct
fSpace == TLCGet(2).space fLower == TLCGet(2).lower fBase == TLCGet(2).base
P == INSTANCE Pipeline WITH InLatn <- fLatn, InCyrl <- fCyrl, InGeor <- fGeor, InGrek <- fGrek,
        InHira <- fHira, InKata <- fKata, IsMark <- fMark, IsPunct <- fPunct, IsSpace <- fSpace,
        LowerF <- fLower, BaseF <- fBase

ASSUME TLCSet(3, TLCEval([i \in 1..Len(Data.specs) |-> P!CompileSpec(Data.specs[i])]))
Specs == TLCGet(3)

Say(x) == PrintT("@@" \o ToJson(x))
=============================================================================
