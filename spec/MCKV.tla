-------------------------------- MODULE MCKV --------------------------------
(***************************************************************************)
(* Partitions of one flat database, as the adaptor implements them:        *)
(* concatenation of prefix and key, deletion for an empty value.  With     *)
(* prefixes none of which begins with another one this refines independent *)
(* maps.  Every transition is replayed into the real stores, with the path *)
(* which leads to it.                                                      *)
(***************************************************************************)
EXTENDS KV, Json, FiniteSetsExt

CONSTANTS Emitting, Deep, Bug

Prefixes == IF Deep THEN {<<1>>, <<2, 255>>, <<255>>} ELSE {<<1>>, <<2, 255>>}
KeyItems == IF Deep THEN {<<>>, <<1>>, <<255>>} ELSE {<<>>, <<1>>, <<2, 255>>}
Vals == {<<>>, <<0>>}
Outside == {<<2>>, <<0, 1>>}

VARIABLES db,     \* the flat database
          abs,    \* prefix -> map
          out,    \* what others have written outside of the partitions
          path    \* the operations, for replaying
vars == <<db, abs, out>>

Flat(p, k) == IF Bug = "noprefix" THEN k ELSE p \o k
Init == db = EmptyMap /\ abs = [p \in Prefixes |-> EmptyMap] /\ out = EmptyMap /\ path = <<>>

SetP == \E p \in Prefixes, k \in KeyItems, v \in Vals :
          /\ db' = MSet(db, Flat(p, k), v)
          /\ abs' = [abs EXCEPT ![p] = MSet(@, k, v)]
          /\ path' = Append(path, [op |-> "set", p |-> p, k |-> k, v |-> v])
          /\ UNCHANGED out
SetOutside == \E k \in Outside, v \in Vals :
          /\ db' = MSet(db, k, v)
          /\ out' = MSet(out, k, v)
          /\ path' = Append(path, [op |-> "raw", p |-> <<>>, k |-> k, v |-> v])
          /\ UNCHANGED abs
Next == SetP \/ SetOutside
Spec == Init /\ [][Next]_<<vars, path>>

View(p) == [k \in {DropN(x, Len(p)) : x \in {y \in DOMAIN db : IsPrefix(p, y)}} |-> db[p \o k]]
Refines == \A p \in Prefixes : View(p) = abs[p]
NothingElse == DOMAIN db = UNION {{p \o k : k \in DOMAIN abs[p]} : p \in Prefixes} \cup DOMAIN out

St(d, a) == [db |-> {<<k, d[k]>> : k \in DOMAIN d},
             parts |-> {[p |-> p, m |-> {<<k, a[p][k]>> : k \in DOMAIN a[p]}] : p \in Prefixes}]
(* every transition: the path to it and the state after it *)
Emit == Emitting => PrintT("BEH " \o ToJson([path |-> path', keys |-> KeyItems, st |-> St(db', abs')]))
NoPath == vars
=============================================================================
