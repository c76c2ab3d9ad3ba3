------------------------------ MODULE KVTrace ------------------------------
(***************************************************************************)
(* Trace specification of key/value stores and partitions.  The state: one *)
(* independent map for each partition of a database (and for each store in *)
(* memory), and the records which others have written to the database      *)
(* directly, outside of all partitions.                                    *)
(*                                                                         *)
(* fault: the database has returned an error in the course of the call     *)
(* err:   the call has reported a failure to the caller                    *)
(***************************************************************************)
EXTENDS KV, Json, IOUtils

Doc == JsonDeserialize(IOEnv.VTRACE)
Traces == Doc.traces
CheckSet == {Doc.chk[i] : i \in 1..Len(Doc.chk)}

VARIABLES t, l,
          parts,    \* handle -> <<database, prefix>>; a store in memory is its own database with the empty prefix
          maps,     \* <<database, prefix>> -> map
          foreign   \* database -> records outside of all partitions
vars == <<t, l, parts, maps, foreign>>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
Is(kind) == More /\ E.e = kind /\ l' = l + 1 /\ t' = t
Chk(name, cond) ==
  IF name \notin CheckSet THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o name)

Init == t \in 1..Len(Traces) /\ l = 1 /\ parts = [x \in {} |-> <<>>] /\ maps = [x \in {} |-> <<>>] /\ foreign = [x \in {} |-> <<>>]

M == maps[parts[E.p]]

Db == /\ Is("db")
      /\ foreign' = With(foreign, E.d, EmptyMap)
      /\ UNCHANGED <<parts, maps>>
(* a partition: the handles of one prefix of one database share the map *)
Part == /\ Is("part")
        /\ parts' = With(parts, E.p, <<E.d, E.prefix>>)
        /\ maps' = IF <<E.d, E.prefix>> \in DOMAIN maps THEN maps ELSE With(maps, <<E.d, E.prefix>>, EmptyMap)
        /\ UNCHANGED foreign
Foreign == /\ Is("foreign")
           /\ foreign' = [foreign EXCEPT ![E.d] = MSet(@, E.k, E.v)]
           /\ UNCHANGED <<parts, maps>>

Set == /\ Is("set")
       /\ Chk("kv-fault", E.fault /\ ~E.applied => E.err)
       /\ Chk("kv-set", ~E.fault => ~E.err)
       /\ maps' = IF E.applied THEN [maps EXCEPT ![parts[E.p]] = MSet(@, E.k, E.v)] ELSE maps
       /\ UNCHANGED <<parts, foreign>>
Get == /\ Is("get")
       /\ Chk("kv-fault", E.fault => E.err)
       /\ Chk("kv-get", ~E.fault => ~E.err /\ E.out = MGet(M, E.k) /\ (E.nil = (E.k \notin DOMAIN M)))
       /\ UNCHANGED <<parts, maps, foreign>>
Has == /\ Is("has")
       /\ Chk("kv-fault", E.fault => E.err)
       /\ Chk("kv-has", ~E.fault => ~E.err /\ E.out = (E.k \in DOMAIN M))
       /\ UNCHANGED <<parts, maps, foreign>>
Iter == /\ Is("iter")
        /\ Chk("kv-fault", E.fault => E.err)
        /\ Chk("kv-iter", IF E.fault THEN IterPartOK(M, E.pairs) ELSE ~E.err /\ IterOK(M, E.pairs, E.stop))
        /\ UNCHANGED <<parts, maps, foreign>>
Size == /\ Is("size")
        /\ Chk("kv-size", E.n = Cardinality(DOMAIN M) /\ E.bytes = MSize(M))
        /\ UNCHANGED <<parts, maps, foreign>>
(* all records of the database *)
Raw == /\ Is("raw")
       /\ LET ps == {q \in DOMAIN maps : q[1] = E.d}
              all == UNION {{<<q[2] \o k, maps[q][k]>> : k \in DOMAIN maps[q]} : q \in ps} \cup MPairs(foreign[E.d])
          IN Chk("kv-raw", {<<E.pairs[i][1], E.pairs[i][2]>> : i \in 1..Len(E.pairs)} = all /\ Len(E.pairs) = Cardinality(all))
       /\ UNCHANGED <<parts, maps, foreign>>
Panic == /\ Is("panic")
         /\ Chk("panic", FALSE)
         /\ UNCHANGED <<parts, maps, foreign>>

Next == Db \/ Part \/ Foreign \/ Set \/ Get \/ Has \/ Iter \/ Size \/ Raw \/ Panic
Spec == Init /\ [][Next]_vars
=============================================================================
