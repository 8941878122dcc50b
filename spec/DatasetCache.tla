---------------------------- MODULE DatasetCache ----------------------------
(***************************************************************************)
(* The dataset loaders as a state machine (see DatasetModel).  TLC checks  *)
(* the guarantees of the cache on it, and enumerates histories that are    *)
(* replayed against the real loaders.                                      *)
(***************************************************************************)
EXTENDS DatasetModel, Num, TLC
CONSTANTS DS, MaxVersion, MaxLen, Histories

Loads == [op : {"load"}, ds : DS, force : BOOLEAN, net : {"ok", "down"}, disk : {"ok", "full", "crash"}]
Actions == Loads \cup [op : {"publish"}, ds : DS] \cup {[op |-> "clear"]}

VARIABLES server, cache, hist, last
vars == <<server, cache, hist, last>>
Init == server = [d \in DS |-> 1] /\ cache = [d \in DS |-> NoCopy] /\ hist = <<>> /\ last = Silent
(* faults are only tried where they can strike *)
Sensible(a) == /\ a.op = "publish" => server[a.ds] < MaxVersion
               /\ a.op = "load" => (a.disk = "ok" \/ Stores(cache, a)) /\ (Fetches(cache, a) \/ a.net = "ok")
Do(a) == /\ Len(hist) < MaxLen /\ Sensible(a)
         /\ server' = ServerAfter(server, a)
         /\ cache' = CacheAfter(server, cache, a)
         /\ last' \in (IF Histories THEN {Silent} ELSE Answers(server, cache, a))
         /\ hist' = Append(hist, a)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
View == IF Histories THEN <<hist, server, cache>> ELSE <<server, cache, last, Len(hist)>>

act == hist'[Len(hist')]
(* every copy is a whole version that was published *)
WholeCopies == \A d \in DS : cache[d] \in 0..server[d]
(* a copy changes only into the current version, and only by a load of that dataset, or disappears by clearing *)
Replaced == [][\A d \in DS : cache'[d] # cache[d] => IF act.op = "clear" THEN cache'[d] = NoCopy
                                                          ELSE (act.op = "load" /\ act.ds = d /\ cache'[d] = server[d])]_vars
(* the built-in data never hides a copy, and no answer is older than the copy *)
Freshest == [][act.op = "load" => (last' = BuiltIn => cache[act.ds] = NoCopy) /\ (last' > 0 => last' >= cache[act.ds])]_vars
(* faults do not lose a copy *)
KeepsCopy == [][act.op = "load" => \A d \in DS : cache[d] # NoCopy => cache'[d] # NoCopy]_vars
(* a forced load with network and disk gives the current version *)
Refreshes == [][(act.op = "load" /\ act.force /\ act.net = "ok" /\ act.disk = "ok") => last' = server[act.ds] /\ cache'[act.ds] = server[act.ds]]_vars
Emitted == ~Histories \/ Len(hist) < MaxLen \/ Emit([scen |-> [acts |-> hist]])
=============================================================================
