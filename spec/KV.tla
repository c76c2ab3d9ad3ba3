--------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* Key/value stores: maps from keys to non-empty values, and partitions of *)
(* one flat database by prefixes.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyMap == [x \in {} |-> <<>>]
MSet(m, k, v) == IF v = <<>> THEN [x \in DOMAIN m \ {k} |-> m[x]]
                 ELSE [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
MGet(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<>>
MPairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
MSize(m) == LET f[S \in SUBSET DOMAIN m] == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Len(k) + Len(m[k]) + 6 + f[S \ {k}]
            IN f[DOMAIN m]

IsPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
DropN(k, n) == SubSeq(k, n + 1, Len(k))

(* what an iteration which the consumer stops at pair number stop (0: never) may deliver *)
IterOK(m, pairs, stop) ==
  /\ \A i \in 1..Len(pairs) : pairs[i][1] \in DOMAIN m /\ m[pairs[i][1]] = pairs[i][2]
  /\ Cardinality({pairs[i][1] : i \in 1..Len(pairs)}) = Len(pairs)
  /\ Len(pairs) = IF stop = 0 \/ stop > Cardinality(DOMAIN m) THEN Cardinality(DOMAIN m) ELSE stop
(* an iteration during which the database failed *)
IterPartOK(m, pairs) ==
  /\ \A i \in 1..Len(pairs) : pairs[i][1] \in DOMAIN m /\ m[pairs[i][1]] = pairs[i][2]
  /\ Cardinality({pairs[i][1] : i \in 1..Len(pairs)}) = Len(pairs)
=============================================================================
