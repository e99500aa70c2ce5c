------------------------------ MODULE Inventory ------------------------------
(***************************************************************************)
(* The inventories. 'ls' walks over the specs in order and prints a row    *)
(* for each readable one; the manifest program collects every spec and the *)
(* set of schemes. The machine takes one spec at a time; what the programs *)
(* printed is compared at the end.                                         *)
(*                                                                         *)
(* case: kind "ls" or "manifest", specs (in order): [ok, id, code2, code3, *)
(* english, korean, script, translit, authors, stage, tests], and observed *)
(* rows (texts, without the heading) or entries (records with key) and     *)
(* schemes.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
Cases == Data.cases
Say(x) == PrintT("@@" \o ToJson(x))

VARIABLES c, i, rows, entries, schemes, st
K == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 1 /\ rows = <<>> /\ entries = {} /\ schemes = {} /\ st = "run"

\* fields are set apart by spaces; how many is a matter of layout
RECURSIVE Squeeze(_)
Squeeze(w) == IF Len(w) < 2 THEN (IF w = <<32>> THEN <<>> ELSE w)
              ELSE IF w[1] = 32 /\ w[2] = 32 THEN Squeeze(Tail(w))
              ELSE <<w[1]>> \o Squeeze(Tail(w))
Row(x) == Squeeze(x.id \o <<32>> \o x.stage \o <<32>> \o x.english \o <<32>> \o x.korean \o <<32>>)
SetOf(q) == {q[j] : j \in 1..Len(q)}
Fields == {"id", "code2", "code3", "english", "korean", "script", "translit", "authors", "stage", "tests"}

Take == /\ st = "run" /\ i <= Len(K.specs)
        /\ LET x == K.specs[i] IN
           IF ~x.ok THEN UNCHANGED <<rows, entries, schemes>>
           ELSE /\ rows' = Append(rows, Row(x))
                /\ entries' = entries \cup {i}
                /\ schemes' = schemes \cup SetOf(x.translit)
        /\ i' = i + 1 /\ UNCHANGED <<c, st>>

Entry(key) == {j \in 1..Len(K.entries) : K.entries[j].key = key}
Judge == /\ st = "run" /\ i > Len(K.specs)
         /\ LET wrong == IF K.kind = "ls"
                         THEN IF rows = [j \in 1..Len(K.rows) |-> Squeeze(K.rows[j] \o <<32>>)] THEN {} ELSE {<<"rows">>}
                         ELSE {<<f, K.specs[j].id>> : f \in {g \in Fields : TRUE}, j \in {e \in entries : Cardinality(Entry(K.specs[e].key)) # 1}}
                              \cup UNION {{<<f, K.specs[j].id>> : f \in {g \in Fields : K.entries[CHOOSE e \in Entry(K.specs[j].key) : TRUE][g] # K.specs[j][g]}}
                                             : j \in {e \in entries : Cardinality(Entry(K.specs[e].key)) = 1}}
                              \cup (IF Len(K.entries) = Cardinality(entries) THEN {} ELSE {<<"languages">>})
                              \cup (IF SetOf(K.schemes) = schemes /\ Len(K.schemes) = Cardinality(schemes) THEN {} ELSE {<<"schemes">>})
            IN Say([id |-> K.id, right |-> wrong = {}, wrong |-> wrong, rows |-> rows])
         /\ st' = "judged" /\ UNCHANGED <<c, i, rows, entries, schemes>>
Next == Take \/ Judge
=============================================================================
