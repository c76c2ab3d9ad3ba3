------------------------------ MODULE TrieImpl ------------------------------
(***************************************************************************)
(* The updatable trie as it is implemented: nodes in the store, nodes in   *)
(* the cache with their pending terminal and their marks of modified       *)
(* children and changed paths, marks of deleted nodes; the search, the     *)
(* updates which split and extend, the deletions which remove and merge,   *)
(* the commit which recalculates what is marked, the persist, the clear.   *)
(* Assertions of the code set `crash'.                                     *)
(*                                                                         *)
(* Checked: it refines the abstract trie of module Radix.  cur, com and    *)
(* sto are the abstract state (contents now, at the last commit, in the    *)
(* store), which TrieTrace uses to judge recorded executions.  Every       *)
(* transition, with a path to it, is replayed into the real code.          *)
(*                                                                         *)
(* Commitments are the terms of module Radix.  Bug names a seeded mistake  *)
(* for which the invariants have to fail.                                  *)
(***************************************************************************)
EXTENDS Radix, Keys, Json

CONSTANTS Emitting, Ar, Menu, NVals, NObj, Reads, MaxLen, Bug

KeySet == CASE Menu = 1 -> {<<>>, <<1>>, <<1, 1>>, <<1, 2>>}
            [] Menu = 2 -> {<<1>>, <<1, 1>>, <<1, 2>>, <<2, 1, 1>>, <<1, 1, 3, 1>>}
            [] Menu = 3 -> {<<17>>, <<18>>, <<17, 17>>, <<33>>}        \* for nibbles: forks inside of a byte
            [] Menu = 4 -> {<<>>, <<17>>, <<18>>, <<17, 16>>, <<33>>}
            [] Menu = 5 -> {<<0>>, <<128>>, <<1>>, <<0, 0>>}           \* for bits
            [] Menu = 6 -> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2>>}
            [] Menu = 8 -> {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 1, 1, 1, 1>>, <<2, 0, 0>>, <<2, 0, 1>>}
            [] Menu = 9 -> {<<>>, <<16>>, <<17>>, <<1>>, <<17, 17>>, <<17, 18>>, <<17, 33>>, <<33, 33, 33>>, <<33, 34, 33>>, <<34>>}
            [] Menu = 10 -> {<<>>, <<0>>, <<128>>, <<129>>, <<1>>, <<0, 0>>, <<0, 1>>, <<129, 255>>, <<129, 127>>, <<0, 0, 64>>}
            [] Menu = 7 -> {<<1>>, <<1, 1>>, <<1, 2>>}
ValSet == 1..NVals

NIL == <<>>    \* of values, terminals and commitments
None == [x \in {} |-> NIL]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

VARIABLES store,        \* node key -> [pf, kids, t]
          tr,           \* object -> [cache: key -> node, del: set of keys]
          live,         \* the objects which exist
          crash,        \* an assertion of the code has failed
          cur, com,     \* object -> contents
          sto,          \* contents of the persisted trie
          path
vars == <<store, tr, live, crash, cur, com, sto>>

Empty == [cache |-> None, del |-> {}, crash |-> FALSE]
Assert_(S, c) == IF c THEN S ELSE [S EXCEPT !.crash = TRUE]

(* the store of nodes, buffered *)
Has(S, k) == k \notin S.del /\ (k \in DOMAIN S.cache \/ k \in DOMAIN store)
Fetch(S, k) ==
  IF k \in S.del \/ k \in DOMAIN S.cache \/ k \notin DOMAIN store THEN S
  ELSE LET n == store[k] IN
       [S EXCEPT !.cache = With(@, k, [pf |-> n.pf, kids |-> n.kids, t |-> n.t, nt |-> n.t, mod |-> {}, pch |-> FALSE])]
UnDelete(S, k) == [S EXCEPT !.del = @ \ {k}]
RemoveKey(S, k) == [S EXCEPT !.cache = Without(@, k), !.del = @ \cup {k}]
Insert(S, k, n) == [Assert_(UnDelete(S, k), k \notin DOMAIN S.cache) EXCEPT !.cache = With(@, k, n)]
Replace(S, k, n) == [Assert_(S, k \in DOMAIN S.cache) EXCEPT !.cache = With(@, k, n)]
Set(S, k, n) == [S EXCEPT !.cache[k] = n]
Mark(S, k, c) == LET S1 == Fetch(S, k) IN
  IF ~Has(S1, k) THEN [S1 EXCEPT !.crash = TRUE] ELSE [S1 EXCEPT !.cache[k].mod = @ \cup {c}]

(* the search *)
RECURSIVE PPath(_, _, _, _)
PPath(S, uk, key, proof) ==
  LET n == S.cache[key]
      tail == Drop(uk, Len(key))
      p == LcpLen(tail, n.pf)
      pr == Append(proof, key)
  IN IF tail = n.pf THEN [S |-> S, proof |-> pr, lcp |-> 0, end |-> "terminal"]
     ELSE IF p < Len(n.pf) THEN [S |-> S, proof |-> pr, lcp |-> p, end |-> "split"]
     ELSE LET nk == key \o n.pf \o <<uk[Len(key) + p + 1]>>
              S1 == Fetch(S, nk)
          IN IF ~Has(S1, nk) THEN [S |-> S1, proof |-> pr, lcp |-> p, end |-> "extend"]
             ELSE PPath(S1, uk, nk, pr)
ProofPath(S, uk) ==
  LET S1 == Fetch(S, <<>>) IN
  IF ~Has(S1, <<>>) THEN [S |-> S1, proof |-> <<>>, lcp |-> 0, end |-> "terminal"]
  ELSE PPath(S1, uk, <<>>, <<>>)

RECURSIVE MarkBack(_, _, _)
MarkBack(S, proof, i) ==
  IF i <= 1 THEN S
  ELSE MarkBack(Mark(S, proof[i - 1], proof[i][Len(proof[i])]), proof, i - 1)

NewTerminal(S, k, pf, c) ==
  Insert(S, k, [pf |-> pf, kids |-> None, t |-> NIL, nt |-> c, mod |-> {}, pch |-> TRUE])

Split(S, uk, last, lcp, c) ==
  LET n    == S.cache[last]
      cp   == Len(last) + lcp
      cont == n.pf[lcp + 1]
      kNew == Prefix(uk, cp) \o <<cont>>
      S1   == Insert(S, kNew, [n EXCEPT !.pf = Drop(n.pf, lcp + 1), !.pch = TRUE,
                                        !.mod = IF Bug = "split-marks" THEN {} ELSE @])
      n2   == [pf |-> Prefix(n.pf, lcp), kids |-> None, t |-> NIL, nt |-> NIL, mod |-> {cont}, pch |-> TRUE]
  IN IF cp = Len(uk) THEN Set(S1, last, [n2 EXCEPT !.nt = c])
     ELSE Set(NewTerminal(S1, Prefix(uk, cp + 1), Drop(uk, cp + 1), c), last, [n2 EXCEPT !.mod = @ \cup {uk[cp + 1]}])

UpdateOp(S, uk, c) ==
  LET r == ProofPath(S, uk)
      last == r.proof[Len(r.proof)]
      cp == Len(last) + r.lcp
      ck == Prefix(uk, cp + 1)
  IN IF r.proof = <<>> THEN NewTerminal(r.S, <<>>, uk, c)
     ELSE MarkBack(
       CASE r.end = "terminal" -> [r.S EXCEPT !.cache[last].nt = c]
         [] r.end = "extend" -> Mark(NewTerminal(IF Bug = "extend-keep" THEN r.S ELSE RemoveKey(r.S, ck), ck, Drop(uk, cp + 1), c), last, uk[cp + 1])
         [] OTHER -> Split(r.S, uk, last, r.lcp, c),
       r.proof, Len(r.proof))

RECURSIVE HasCommitment(_, _)
HasCommitment(S, k) ==
  /\ Has(S, k)
  /\ LET n == Fetch(S, k).cache[k] IN
     \/ n.nt # NIL
     \/ \E c \in n.mod : HasCommitment(S, k \o n.pf \o <<c>>)
     \/ n.kids # None
(* "nop", "remove", "merge" with the child *)
Reorg(S, k) ==
  LET n == S.cache[k]
      ks == {c \in DOMAIN n.kids \cup n.mod : c \in n.mod => HasCommitment(S, k \o n.pf \o <<c>>)}
  IN IF n.nt # NIL THEN [r |-> "nop", c |-> 0]
     ELSE IF ks = {} THEN [r |-> "remove", c |-> 0]
     ELSE IF Cardinality(ks) = 1 THEN [r |-> "merge", c |-> CHOOSE c \in ks : TRUE]
     ELSE [r |-> "nop", c |-> 0]

Merge(S, k, c) ==
  LET n  == S.cache[k]
      nk == k \o n.pf \o <<c>>
      S1 == Fetch(S, nk)
      x  == S1.cache[nk]
  IN IF ~Has(S1, nk) THEN [S1 EXCEPT !.crash = TRUE]
     ELSE RemoveKey(Replace(UnDelete(S1, k), k, [x EXCEPT !.pf = n.pf \o <<c>> \o x.pf, !.pch = IF Bug = "merge-path" THEN @ ELSE TRUE]), nk)

DeleteOp(S, uk) ==
  LET r == ProofPath(S, uk)
      np == Len(r.proof)
      last == r.proof[np]
      S1 == [r.S EXCEPT !.cache[last].nt = NIL]
      ro == Reorg(S1, last)
  IN IF np = 0 \/ r.end # "terminal" THEN r.S
     ELSE CASE ro.r = "nop" -> MarkBack(S1, r.proof, np)
            [] ro.r = "merge" -> MarkBack(Merge(S1, last, ro.c), r.proof, np)
            [] OTHER ->
               LET S2 == RemoveKey(S1, last) IN
               IF np < 2 THEN S2
               ELSE LET S3 == MarkBack(S2, r.proof, np)
                        prev == r.proof[np - 1]
                        ro2 == Reorg(S3, prev)
                    IN IF ro2.r = "merge" /\ Bug # "no-merge" THEN Merge(S3, prev, ro2.c) ELSE S3

TermOf(n) == <<n.pf, n.t, {<<c, n.kids[c]>> : c \in DOMAIN n.kids}>>
(* upd: the commitment the parent has to this node, NIL if none *)
RECURSIVE CommitNode(_, _, _, _), CommitKids(_, _, _, _)
CommitNode(S, k, isRoot, upd) ==
  LET S1 == Fetch(S, k) IN
  IF ~Has(S1, k) THEN [S |-> S1, upd |-> NIL]
  ELSE LET n == S1.cache[k]
           modified == n.pch \/ n.mod # {} \/ n.nt # n.t
       IN IF ~modified THEN [S |-> S1, upd |-> upd]
          ELSE LET r  == CommitKids(S1, k, n.mod, n.kids)
                   n2 == [r.S.cache[k] EXCEPT !.kids = r.kids, !.t = n.nt, !.mod = {}, !.pch = FALSE]
                   \* the model would be asked for an increment of a commitment which does not exist
                   delta == ~n.pch /\ ~isRoot /\ upd = NIL
               IN [S |-> Assert_(Set(r.S, k, n2), ~delta),
                   upd |-> IF DOMAIN n2.kids = {} /\ n2.t = NIL THEN upd ELSE TermOf(n2)]
CommitKids(S, k, mod, kids) ==
  IF mod = {} THEN [S |-> S, kids |-> kids]
  ELSE LET c == CHOOSE x \in mod : TRUE
           r == CommitNode(S, k \o S.cache[k].pf \o <<c>>, FALSE, IF c \in DOMAIN kids THEN kids[c] ELSE NIL)
       IN CommitKids(r.S, k, mod \ {c}, IF r.upd = NIL THEN Without(kids, c) ELSE With(kids, c, r.upd))
CommitOp(S) == CommitNode(S, <<>>, TRUE, NIL).S

Persisted(S) ==
  LET ks == (DOMAIN store \cup DOMAIN S.cache) \ (IF Bug = "keep-deleted" THEN {} ELSE S.del)
  IN [k \in ks |-> IF k \in DOMAIN S.cache THEN [pf |-> S.cache[k].pf, kids |-> S.cache[k].kids, t |-> S.cache[k].t] ELSE store[k]]

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
Fin(S) == [cache |-> S.cache, del |-> S.del]
In(o) == [cache |-> tr[o].cache, del |-> tr[o].del, crash |-> FALSE]
Step(o, S) == tr' = [tr EXCEPT ![o] = Fin(S)] /\ crash' = (crash \/ S.crash)
Log(op, o, k, v) == path' = Append(path, [op |-> op, o |-> o, k |-> k, v |-> v])

Init == /\ store = None /\ tr = [o \in 1..NObj |-> Fin(Empty)] /\ live = {1} /\ crash = FALSE
        /\ cur = [o \in 1..NObj |-> EmptyC] /\ com = [o \in 1..NObj |-> EmptyC] /\ sto = EmptyC /\ path = <<>>

Update == \E o \in live, k \in KeySet, v \in {<<x>> : x \in ValSet} :
            /\ Step(o, UpdateOp(In(o), Unpack(k, Ar), v))
            /\ cur' = [cur EXCEPT ![o] = Put(@, Unpack(k, Ar), v)]
            /\ Log("upd", o, k, v) /\ UNCHANGED <<store, live, com, sto>>
Delete == \E o \in live, k \in KeySet :
            /\ Step(o, DeleteOp(In(o), Unpack(k, Ar)))
            /\ cur' = [cur EXCEPT ![o] = Put(@, Unpack(k, Ar), NIL)]
            /\ Log("del", o, k, NIL) /\ UNCHANGED <<store, live, com, sto>>
Commit == \E o \in live :
            /\ Step(o, CommitOp(In(o)))
            /\ com' = [com EXCEPT ![o] = cur[o]]
            /\ Log("commit", o, <<>>, NIL) /\ UNCHANGED <<store, live, cur, sto>>
(* only committed tries are persisted; others over the same store are of no use any more *)
Persist == \E o \in live :
            /\ com[o] = cur[o] /\ \A k \in DOMAIN tr[o].cache : LET n == tr[o].cache[k] IN ~n.pch /\ n.mod = {} /\ n.nt = n.t
            /\ store' = Persisted(In(o)) /\ sto' = com[o] /\ live' = {o}
            /\ crash' = (crash \/ tr[o].del \cap DOMAIN tr[o].cache # {})
            /\ tr' = [x \in DOMAIN tr |-> IF x = o THEN tr[o] ELSE Fin(Empty)]
            /\ cur' = [x \in DOMAIN cur |-> IF x = o THEN cur[o] ELSE EmptyC]
            /\ com' = [x \in DOMAIN com |-> IF x = o THEN com[o] ELSE EmptyC]
            /\ Log("persist", o, <<>>, NIL)
Clear == \E o \in live :
            /\ tr' = [tr EXCEPT ![o] = IF Bug = "clear-deleted" THEN [Fin(Empty) EXCEPT !.del = tr[o].del] ELSE Fin(Empty)]
            /\ cur' = [cur EXCEPT ![o] = sto] /\ com' = [com EXCEPT ![o] = sto]
            /\ Log("clear", o, <<>>, NIL) /\ UNCHANGED <<store, live, crash, sto>>
Read == /\ Reads
        /\ \E o \in live, k \in KeySet :
            /\ Step(o, ProofPath(In(o), Unpack(k, Ar)).S)
            /\ Log("read", o, k, NIL) /\ UNCHANGED <<store, live, cur, com, sto>>
Clone == \E o \in live, x \in (1..NObj) \ live :
            /\ live' = live \cup {x}
            /\ tr' = [tr EXCEPT ![x] = IF Bug = "clone-deleted" THEN [tr[o] EXCEPT !.del = {}] ELSE tr[o]]
            /\ cur' = [cur EXCEPT ![x] = cur[o]] /\ com' = [com EXCEPT ![x] = com[o]]
            /\ path' = Append(path, [op |-> "clone", o |-> o, k |-> <<x>>, v |-> NIL])
            /\ UNCHANGED <<store, crash, sto>>

Next == Update \/ Delete \/ Commit \/ Persist \/ Clear \/ Read \/ Clone
Spec == Init /\ [][Next]_<<vars, path>>
NoPath == vars
Bounded == Len(path) < MaxLen

(***************************************************************************)
(* Refinement of the abstract trie                                         *)
(***************************************************************************)
NoCrash == ~crash
AllKeys(o) == {k \in DOMAIN store \cup DOMAIN tr[o].cache : k \notin tr[o].del}
NodeOf(o, k) == Fetch(In(o), k).cache[k]
(* the nodes of the trie, with pending terminals; a child is a node *)
View(o) == {LET n == NodeOf(o, k) IN
            [key |-> k, pf |-> n.pf, term |-> n.nt,
             kids |-> {c \in DOMAIN n.kids \cup n.mod : Has(In(o), k \o n.pf \o <<c>>)}] : k \in AllKeys(o)}
IsView == \A o \in live : View(o) = Canon(cur[o])
Quiet(o) == \A k \in DOMAIN tr[o].cache : LET n == tr[o].cache[k] IN ~n.pch /\ n.mod = {} /\ n.nt = n.t
(* nothing marked: everything is committed to what it is *)
IsCommitted == \A o \in live : Quiet(o) =>
  LET N == Canon(cur[o]) IN
  \A k \in AllKeys(o) : LET n == NodeOf(o, k) IN
    \A c \in DOMAIN n.kids : /\ HasNode(N, k \o n.pf \o <<c>>)
                             /\ n.kids[c] = TermAt(N, k \o n.pf \o <<c>>)
IsPersisted == {[key |-> k, pf |-> store[k].pf, term |-> store[k].t, kids |-> DOMAIN store[k].kids] : k \in DOMAIN store} = Canon(sto)
IsPersistedTerms == LET N == Canon(sto) IN
  \A k \in DOMAIN store : \A c \in DOMAIN store[k].kids : store[k].kids[c] = TermAt(N, k \o store[k].pf \o <<c>>)
(* a commit leaves nothing marked *)
CommitQuiet == [][\A o \in live : com'[o] # com[o] /\ store' = store /\ path'[Len(path')].op = "commit" => Quiet(o)']_<<vars, path>>
OnlyPersistWrites == [][store' # store => path'[Len(path')].op = "persist"]_<<vars, path>>

Pairs(C) == {<<k, C[k]>> : k \in DOMAIN C}
NodeSet(C) == {<<n.key, n.pf, n.kids, n.term>> : n \in Canon(C)}
Beh == [ar |-> Ar, path |-> path', live |-> live', objs |-> {[o |-> o, cur |-> Pairs(cur'[o]), nodes |-> NodeSet(cur'[o])] : o \in live'},
        sto |-> Pairs(sto'), skeys |-> {Encode(n.key, Ar) : n \in Canon(sto')}]
Emit == Emitting => PrintT("BEH " \o ToJson(Beh))
=============================================================================
