---------------------------- MODULE DatasetModel ----------------------------
(***************************************************************************)
(* The dataset cache: server maps each dataset to its current version,     *)
(* cache to the version of the copy on disk (0: none).                     *)
(* Actions: load(ds, force, net, disk), publish(ds), clear.                *)
(*   net   "ok" or the way the download fails                              *)
(*   disk  "ok", "full" (write refused half way), "crash" (process dies    *)
(*         half way through the write)                                     *)
(* Answers: a version > 0, or one of the codes below.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
NoCopy == 0
Silent == 0        \* the action does not answer
BuiltIn == -1      \* constructed data
Failed == -2       \* the caller sees an exception
Died == -3         \* the process is gone

Fetches(cache, a) == a.force \/ cache[a.ds] = NoCopy
Stores(cache, a) == Fetches(cache, a) /\ a.net = "ok"

CacheAfter(server, cache, a) ==
  CASE a.op = "clear" -> [d \in DOMAIN cache |-> NoCopy]
    [] a.op = "publish" -> cache
    [] a.op = "load" -> IF Stores(cache, a) /\ a.disk = "ok" THEN [cache EXCEPT ![a.ds] = server[a.ds]] ELSE cache
ServerAfter(server, a) == IF a.op = "publish" THEN [server EXCEPT ![a.ds] = @ + 1] ELSE server

Answers(server, cache, a) ==
  IF a.op # "load" THEN {Silent}
  ELSE IF ~Fetches(cache, a) THEN {cache[a.ds]}
  ELSE IF a.net # "ok" THEN {IF cache[a.ds] = NoCopy THEN BuiltIn ELSE cache[a.ds]}
  ELSE CASE a.disk = "ok" -> {server[a.ds]}
         [] a.disk = "full" -> {server[a.ds], Failed}
         [] a.disk = "crash" -> {Died}
=============================================================================
