-------------------------------- MODULE MCApi -------------------------------
(***************************************************************************)
(* Histories of the library. Either given ones (Data.hist, Data.depth = 0) *)
(* or every history over the operations Data.alpha up to Data.depth calls  *)
(* after the prefix Data.prefix. Each complete history is printed with the *)
(* answers the specification gives; the real code must give the same.      *)
(***************************************************************************)
EXTENDS Api

VARIABLES h,      \* the given history, or the sequence of operations so far
          s,      \* the library
          a       \* the answers
v == <<h, s, a>>
Given == Data.depth = 0
Op(k) == IF Given THEN Data.hist[h][k]
         ELSE IF k <= Len(Data.prefix) THEN Data.prefix[k] ELSE Data.alpha[h[k - Len(Data.prefix)]]
Total == IF Given THEN Len(Data.hist[h]) ELSE Len(Data.prefix) + Data.depth

Init == /\ h \in IF Given THEN 1..Len(Data.hist) ELSE {<<>>}
        /\ s = Fresh /\ a = <<>>

Do1(o) == Assert(Usable(s, o), <<"not usable", o>>) /\ \E r \in {Do(s, o)} : s' = r[1] /\ a' = Append(a, r[2])
Next == IF Given \/ Len(a) < Len(Data.prefix)
        THEN Len(a) < Total /\ Do1(Op(Len(a) + 1)) /\ UNCHANGED h
        ELSE /\ Len(a) < Total
             /\ \E i \in 1..Len(Data.alpha) :
                  Usable(s, Data.alpha[i]) /\ h' = Append(h, i) /\ Do1(Data.alpha[i])
Spec == Init /\ [][Next]_v

Emit == Len(a) = Total => Say([h |-> h, a |-> a])

(* ---- what the listed properties say about every step ---------------------- *)
CurOp == IF Given \/ Len(a) < Len(Data.prefix) THEN Op(Len(a) + 1) ELSE Data.alpha[h'[Len(h')]]
CurAns == a'[Len(a')]

(* C20 *)
OnlyItsOwn(o, r) == \A x \in Regs : s'.reg[x] # s.reg[x] =>
                        o.op \in {"use", "unuse", "install", "new"} /\ o.reg = x
FirstStays(o, r) ==
    \A x \in Regs : \A c \in Schemes :
        s.reg[x][c] # "" /\ s'.reg[x][c] # s.reg[x][c] =>
            s'.reg[x][c] = "" /\ o.op \in {"unuse", "new"}
Copies(o, r) == \A x \in Slots : s'.snaps[x] # s.snaps[x] =>
                    o.op \in {"snap", "snapadd", "snapdel"} /\ o.snap = x
EmptyAtFirst(o, r) == o.op = "new" /\ r.err = "" => s'.reg[o.reg] = None
(* C21 *)
AllOrNothing(o, r) == o.op = "install" =>
    IF r.ok THEN /\ \A c \in Std : s.reg[o.reg][c] = "" /\ s'.reg[o.reg][c] = "std"
                 /\ \A c \in Schemes \ Std : s'.reg[o.reg][c] = s.reg[o.reg][c]
    ELSE s' = s /\ \E c \in Std : s.reg[o.reg][c] # ""
(* C19 *)
Sticky(o, r) == \A l \in Langs : s'.cache[l] # s.cache[l] =>
    IF s.cache[l] = 0 THEN s'.cache[l] = s.nid /\ o.lang = l
    ELSE s'.cache[l] = 0 /\ o.op = "unload" /\ o.lang = l
NothingLeft(o, r) == o.op \in {"load", "new"} /\ r.err # "" => s' = s
(* C22 *)
Ends(o, r) == o.op \in {"run", "runtr"} /\ r.err \in {"translit", "notimported"} => r.out = <<>>
PIsolated == [][OnlyItsOwn(CurOp, CurAns)]_v
PFirst    == [][FirstStays(CurOp, CurAns)]_v
PCopies   == [][Copies(CurOp, CurAns)]_v
PEmpty    == [][EmptyAtFirst(CurOp, CurAns)]_v
PInstall  == [][AllOrNothing(CurOp, CurAns)]_v
PSticky   == [][Sticky(CurOp, CurAns)]_v
PNothing  == [][NothingLeft(CurOp, CurAns)]_v
PEnds     == [][Ends(CurOp, CurAns)]_v
=============================================================================
