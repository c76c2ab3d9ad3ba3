------------------------------ MODULE MCRadix ------------------------------
(***************************************************************************)
(* Facts about the radix trie (module Radix) on which the other modules    *)
(* rely: both definitions of it agree, its nodes are well formed, the      *)
(* search ends where it has to, and the symbolic root determines the       *)
(* contents: they can be read back from it (so the root is injective).     *)
(* The trie for K prefixes and for sub-contents: the trie below a child is  *)
(* the trie of the tails of the keys.                                      *)
(***************************************************************************)
EXTENDS Radix, Json

CONSTANTS Emitting, NSym, MaxKey, NVals, MaxPairs, Bug

RECURSIVE SeqsOf(_)
SeqsOf(n) == IF n = 0 THEN {<<>>} ELSE SeqsOf(n - 1) \cup {Append(s, x) : s \in {q \in SeqsOf(n - 1) : Len(q) = n - 1}, x \in 0..(NSym - 1)}
ASSUME TLCSet(51, TLCEval(SeqsOf(MaxKey)))
AllKeys == TLCGet(51)
Values == {<<v>> : v \in 1..NVals}

VARIABLES C, built
vars == <<C, built>>
(* contents are built by insertion in any order; the trie is the same *)
Init == C = EmptyC /\ built = {}
Next == \E k \in AllKeys \ DOMAIN C, v \in Values :
          /\ Cardinality(DOMAIN C) < MaxPairs
          /\ C' = Put(C, k, v)
          /\ built' = Canon(C')
Spec == Init /\ [][Next]_vars

Agree == built = CanonDecl(C)
WellFormed ==
  /\ \A n \in built : \A c \in n.kids : HasNode(built, FullPath(n) \o <<c>>)
  /\ \A n \in built : n.key # <<>> => \E m \in built : \E c \in m.kids : FullPath(m) \o <<c>> = n.key
  /\ \A n \in built : n.term # <<>> \/ Cardinality(n.kids) >= 2
  /\ C # EmptyC => HasNode(built, <<>>)
  /\ \A n, m \in built : n.key = m.key => n = m
  /\ Cardinality(built) <= 2 * Cardinality(DOMAIN C)
Search == C = EmptyC \/ \A k \in AllKeys :
  LET r == SearchEnd(built, k) IN
  IF k \in DOMAIN C THEN r.ending = "terminal" /\ r.node.term = C[k]
  ELSE r.ending # "terminal" \/ r.node.term = <<>>

(* the way of a search: the nodes whose keys are prefixes of it, from the root to where it ends *)
Way == \A k \in AllKeys :
  LET w == SearchWay(built, k) IN
  /\ Range(w) = {n.key : n \in {m \in built : IsPrefixOf(m.key, k) /\ \A p \in built : IsPrefixOf(p.key, m.key) /\ p # m => IsPrefixOf(FullPath(p), k)}}
  /\ \A i \in 1..(Len(w) - 1) : Len(w[i]) < Len(w[i + 1])
  /\ C # EmptyC => w[Len(w)] = SearchEnd(built, k).node.key

(* the contents are read back from the symbolic root *)
RECURSIVE PairsOf(_, _)
PairsOf(t, base) ==
  LET full == base \o t[1] IN
  (IF t[2] = <<>> THEN {} ELSE {<<full, t[2]>>})
    \cup UNION {PairsOf(kid[2], full \o <<kid[1]>>) : kid \in t[3]}
Term == IF Bug = "no-pf" THEN LET t == RootTerm(C) IN <<<<>>, t[2], t[3]>> ELSE RootTerm(C)
Injective == IF C = EmptyC THEN RootTerm(C) = <<>>
             ELSE PairsOf(Term, <<>>) = {<<k, C[k]>> : k \in DOMAIN C}
(* the subtrie at a child is the trie of the tails *)
Compositional == \A n \in built : \A c \in n.kids :
  LET top == FullPath(n) \o <<c>>
      tails == {Drop(k, Len(top)) : k \in {q \in DOMAIN C : IsPrefixOf(top, q)}}
  IN RootTerm([s \in tails |-> C[top \o s]]) = TermAt(built, top)

(* every contents is built by the code: different ones have different roots *)
Emit == Emitting => PrintT("BEH " \o ToJson([c |-> {<<k, C[k]>> : k \in DOMAIN C}]))
=============================================================================
