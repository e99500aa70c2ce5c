-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Concurrent histories. A case is what several goroutines did: each call  *)
(* with its answer and the logical times of its start and end. The case is *)
(* right if the calls can be put in an order which respects these times    *)
(* and in which every call gives its answer on the sequential library      *)
(* (Api.tla: the package-wide set, the cache of specs, and the answers of  *)
(* runs, which are given as a table of what one call at a time returns).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VDATA)))
Data == TLCGet(1)
Cases == Data.cases
Langs == {Data.langs[i] : i \in 1..Len(Data.langs)}
Schemes == {Data.schemes[i] : i \in 1..Len(Data.schemes)}
Say(x) == PrintT("@@" \o ToJson(x))

VARIABLES k,      \* the case
          pos,    \* how many calls of each goroutine are placed
          reg,    \* the package-wide set: scheme -> tag
          cache   \* language -> identity of the cached spec; 0 none, -1 one nobody has seen
v == <<k, pos, reg, cache>>

Threads(c) == 1..Len(Cases[c].threads)
Calls(c, t) == Cases[c].threads[t]

Init == /\ k \in 1..Len(Cases)
        /\ pos = [t \in Threads(k) |-> 0]
        /\ reg = [s \in Schemes |-> IF \E i \in 1..Len(Cases[k].reg) : Cases[k].reg[i][1] = s
                                    THEN (CHOOSE p \in {Cases[k].reg[i] : i \in 1..Len(Cases[k].reg)} : p[1] = s)[2] ELSE ""]
        /\ cache = [l \in Langs |-> 0]

\* identities that loads placed so far have returned
Seen == UNION {{Calls(k, t)[i].spec : i \in {j \in 1..pos[t] : Calls(k, t)[j].op = "load"}} : t \in Threads(k)}

\* t's next call may come next: no other call which is still to be placed had
\* ended before it started
MayBeNext(t) == \A u \in Threads(k) : pos[u] < Len(Calls(k, u)) =>
                   ~(Calls(k, u)[pos[u] + 1].e < Calls(k, t)[pos[t] + 1].s)

Touch(l) == cache' = IF l \in Langs /\ cache[l] = 0 THEN [cache EXCEPT ![l] = -1] ELSE cache

Right(o) ==
    CASE o.op = "use" ->
           /\ o.ok = (reg[o.scheme] = "")
           /\ reg' = IF o.ok THEN [reg EXCEPT ![o.scheme] = o.tag] ELSE reg
           /\ UNCHANGED cache
      [] o.op = "unuse" ->
           /\ o.ok = (reg[o.scheme] # "")
           /\ reg' = [reg EXCEPT ![o.scheme] = ""]
           /\ UNCHANGED cache
      [] o.op = "list" ->
           /\ \A s \in Schemes :
                reg[s] = IF \E i \in 1..Len(o.set) : o.set[i][1] = s
                         THEN (CHOOSE p \in {o.set[i] : i \in 1..Len(o.set)} : p[1] = s)[2] ELSE ""
           /\ UNCHANGED <<reg, cache>>
      [] o.op = "load" ->
           /\ IF o.lang \in Langs
              THEN /\ o.err = "" /\ o.spec > 0
                   /\ IF cache[o.lang] > 0 THEN o.spec = cache[o.lang] ELSE o.spec \notin Seen
                   /\ cache' = [cache EXCEPT ![o.lang] = o.spec]
              ELSE o.err = "notfound" /\ o.spec = 0 /\ UNCHANGED cache
           /\ UNCHANGED reg
      [] o.op = "unload" ->
           /\ cache' = IF o.lang \in Langs THEN [cache EXCEPT ![o.lang] = 0] ELSE cache
           /\ UNCHANGED reg
      [] o.op = "run" ->     \* tab: what one call at a time gives, for each registration of the scheme
           /\ \E i \in 1..Len(o.tab) : /\ o.tab[i][1] \in {"*", IF o.scheme \in Schemes THEN reg[o.scheme] ELSE ""}
                                       /\ o.tab[i][2] = o.got
           /\ Touch(o.lang) /\ UNCHANGED reg
      [] o.op = "pure" ->    \* depends on nothing
           o.ok /\ UNCHANGED <<reg, cache>>

Next == \E t \in Threads(k) :
            /\ pos[t] < Len(Calls(k, t)) /\ MayBeNext(t)
            /\ Right(Calls(k, t)[pos[t] + 1])
            /\ pos' = [pos EXCEPT ![t] = @ + 1]
            /\ UNCHANGED k
Spec == Init /\ [][Next]_v

\* printed for every case that can be put in order
Done == (\A t \in Threads(k) : pos[t] = Len(Calls(k, t))) => Say([k |-> k])
=============================================================================
