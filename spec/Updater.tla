------------------------------ MODULE Updater ------------------------------
(***************************************************************************)
(* The batched updater, as implemented: updates go to the trie and to a    *)
(* batch of the database; Commit commits the trie, writes its nodes to the *)
(* batch, commits the batch and flushes the database.  The batch stays     *)
(* until all of this has succeeded.  The database can fail at each step,   *)
(* with or without effect, and the process or the machine can stop at any  *)
(* moment; then everything but the database (or what of it was flushed) is *)
(* gone.                                                                   *)
(*                                                                         *)
(* The trie partition is represented by the contents the trie in it        *)
(* commits to.  Every transition out of an idle state is replayed into the *)
(* real updater over a database with fault injection.                      *)
(***************************************************************************)
EXTENDS Radix, Keys, Json

CONSTANTS Emitting, Ar, Deep, Bug

KeyItems == IF Deep THEN {<<1>>, <<1, 2>>, <<3>>} ELSE {<<1>>, <<1, 2>>}
Vals == IF Deep THEN {<<7>>} ELSE {<<7>>, <<8>>}
NoBatch == [open |-> FALSE, vals |-> EmptyC, trie |-> EmptyC, full |-> FALSE]

VARIABLES
  cur,      \* what the caller wants
  trie,     \* contents of the trie in memory
  batch,    \* [open, vals: key -> value or <<>>, trie, full: the nodes are in the batch]
  db,       \* [vals, trie]: the database
  dur,      \* what of it was flushed
  pc,       \* "idle", "commit": the batch is about to be committed, "flush": the database is about to be flushed
  res,      \* result of the last commit: "none", "ok", "error"
  path
vars == <<cur, trie, batch, db, dur, pc, res>>

Empty == [vals |-> EmptyC, trie |-> EmptyC]
Init == cur = EmptyC /\ trie = EmptyC /\ batch = NoBatch /\ db = Empty /\ dur = Empty /\ pc = "idle" /\ res = "none" /\ path = <<>>

Apply(m, ops) == [k \in {x \in DOMAIN m \cup DOMAIN ops : IF x \in DOMAIN ops THEN ops[x] # <<>> ELSE TRUE} |->
                    IF k \in DOMAIN ops THEN ops[k] ELSE m[k]]
Batched(b) == [vals |-> Apply(db.vals, b.vals), trie |-> IF b.full THEN b.trie ELSE db.trie]

Update == /\ pc = "idle"
          /\ \E k \in KeyItems, v \in Vals \cup {<<>>} :
               /\ cur' = Put(cur, k, v)
               /\ trie' = Put(trie, k, v)
               /\ batch' = [batch EXCEPT !.open = TRUE, !.vals = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN v ELSE @[x]]]
               /\ path' = Append(path, [op |-> "upd", k |-> k, v |-> v, x |-> ""])
          /\ res' = "none"
          /\ UNCHANGED <<db, dur, pc>>

(* nothing to do: no batch *)
CommitNothing == /\ pc = "idle" /\ ~batch.open /\ res' = "ok"
                 /\ path' = Append(path, [op |-> "commit", k |-> <<>>, v |-> <<>>, x |-> ""])
                 /\ UNCHANGED <<cur, trie, batch, db, dur, pc>>
CommitStart == /\ pc = "idle" /\ batch.open
               /\ batch' = [batch EXCEPT !.trie = trie, !.full = TRUE]
               /\ pc' = "commit" /\ UNCHANGED <<cur, trie, db, dur, res, path>>
(* the batch is applied in one step *)
CommitBatch(how) ==
  /\ pc = "commit"
  /\ db' = IF how = "fail" THEN db
           ELSE IF Bug = "twobatches" THEN [db EXCEPT !.vals = Batched(batch).vals] ELSE Batched(batch)
  /\ IF how = "ok" THEN pc' = "flush" /\ UNCHANGED <<res, path>>
     ELSE /\ pc' = "idle" /\ res' = "error"
          /\ path' = Append(path, [op |-> "commit", k |-> <<>>, v |-> <<>>, x |-> IF how = "fail" THEN "commit" ELSE "commit-applied"])
  /\ batch' = IF how # "ok" /\ Bug = "drop" THEN NoBatch ELSE batch
  /\ UNCHANGED <<cur, trie, dur>>
Flush(how) ==
  /\ pc = "flush" /\ pc' = "idle"
  /\ dur' = IF how = "fail" THEN dur ELSE db
  /\ res' = IF how = "ok" THEN "ok" ELSE "error"
  /\ batch' = IF how = "ok" THEN NoBatch ELSE batch
  /\ path' = Append(path, [op |-> "commit", k |-> <<>>, v |-> <<>>,
                           x |-> CASE how = "ok" -> "" [] how = "fail" -> "flush" [] OTHER -> "flush-applied"])
  /\ UNCHANGED <<cur, trie, db>>
(* the process stops (lose: the machine does) and the updater is opened again *)
Crash(lose) ==
  /\ LET d == IF lose THEN dur ELSE db IN
     /\ db' = d /\ dur' = d /\ cur' = d.vals /\ trie' = d.trie
     /\ path' = path \o (IF pc = "idle" THEN <<>> ELSE <<[op |-> "commit", k |-> <<>>, v |-> <<>>, x |-> pc]>>)  \* it stopped there
                     \o <<[op |-> "crash", k |-> <<>>, v |-> <<>>, x |-> IF lose THEN "lose" ELSE ""]>>
  /\ batch' = NoBatch /\ pc' = "idle" /\ res' = "none"

Next == \/ Update \/ CommitNothing \/ CommitStart
        \/ \E h \in {"ok", "fail", "applied"} : CommitBatch(h) \/ Flush(h)
        \/ \E x \in BOOLEAN : Crash(x)
Spec == Init /\ [][Next]_<<vars, path>>
NoPath == vars

(***************************************************************************)
(* The guarantees                                                          *)
(***************************************************************************)
Together == db.vals = db.trie /\ dur.vals = dur.trie
NothingLost == Apply(db.vals, batch.vals) = cur /\ trie = cur
Done == res = "ok" => db.vals = cur /\ dur.vals = cur
(* the database moves only to what is wanted (the caller's boundary), or back by a crash *)
Moves == [][db' # db => db'.vals = cur \/ db' = dur]_vars
Reported == [][pc = "flush" /\ pc' = "idle" /\ res' = "ok" => dur' = db]_vars

Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
Unp(m) == [u \in {Unpack(k, Ar) : k \in DOMAIN m} |-> m[CHOOSE k \in DOMAIN m : Unpack(k, Ar) = u]]
Beh == [ar |-> Ar, path |-> path', db |-> Pairs(db'.vals), dur |-> Pairs(dur'.vals), cur |-> Pairs(cur'), res |-> res',
        tkeys |-> {Encode(n.key, Ar) : n \in Canon(Unp(db'.trie))}]
Emit == Emitting /\ pc' = "idle" => PrintT("BEH " \o ToJson(Beh))
=============================================================================
