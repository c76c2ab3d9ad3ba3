------------------------------- MODULE Radix -------------------------------
(***************************************************************************)
(* The radix trie as a function of its contents.                           *)
(*                                                                         *)
(* A key is a sequence of path symbols.  A contents is a function from a   *)
(* finite set of keys to values (non-empty sequences; a key with an empty  *)
(* value is simply not in the domain).  The trie of a contents is a set of *)
(* nodes [key, pf, kids, term]: key is the position of the node, pf its    *)
(* path fragment, kids the set of symbols at which it has a child, term    *)
(* the value stored at the end of its path (<<>> if none).  This module is *)
(* the single source of truth for the shape of tries: the implementation   *)
(* shaped machine (TrieImpl), the proof system (ProofSys) and all trace    *)
(* specifications are compared with it.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in 1..Len(s)}

Prefix(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* length of the longest common prefix, by bisection: the keys of recorded *)
(* traces can be thousands of symbols long                                 *)
RECURSIVE LcpIn(_, _, _, _)
LcpIn(a, b, lo, hi) ==          \* lo symbols are known to be common, more than hi are not
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF SubSeq(a, lo + 1, mid) = SubSeq(b, lo + 1, mid)
       THEN LcpIn(a, b, mid, hi) ELSE LcpIn(a, b, lo, mid - 1)
LcpLen(a, b) == LcpIn(a, b, 0, MinOf(Len(a), Len(b)))

LcpLenOfSet(K) == LET ref == CHOOSE k \in K : TRUE
                  IN SetMin({LcpLen(ref, k) : k \in K})

(***************************************************************************)
(* Recursive construction: the nodes of the trie of the keys K, all of     *)
(* which share their first `base' symbols (the key of the top node).       *)
(***************************************************************************)
RECURSIVE Nodes(_, _, _)
Nodes(C, K, base) ==
  IF K = {} THEN {}
  ELSE LET ref  == CHOOSE k \in K : TRUE
           end  == LcpLenOfSet(K)
           full == Prefix(ref, end)
           long == K \ {full}
           kids == {k[end + 1] : k \in long}
       IN {[key |-> Prefix(ref, base), pf |-> SubSeq(ref, base + 1, end), kids |-> kids,
            term |-> IF full \in K THEN C[full] ELSE <<>>]}
          \cup UNION {Nodes(C, {k \in long : k[end + 1] = c}, end + 1) : c \in kids}

Canon(C) == Nodes(C, DOMAIN C, 0)

FullPath(n) == n.key \o n.pf

(***************************************************************************)
(* The same thing, declaratively: the ends of node paths are the keys and  *)
(* their pairwise branching points.  MCRadix checks that both agree.       *)
(***************************************************************************)
PathEnds(C) == DOMAIN C \cup {Prefix(a, LcpLen(a, b)) : a \in DOMAIN C, b \in DOMAIN C}
CanonDecl(C) ==
  LET E == PathEnds(C) IN
  { LET up  == {q \in E : IsPrefixOf(q, p) /\ q # p}
        len == IF up = {} THEN 0 ELSE SetMax({Len(q) : q \in up}) + 1
    IN [key |-> Prefix(p, len), pf |-> Drop(p, len),
        kids |-> {q[Len(p) + 1] : q \in {q \in E : IsPrefixOf(p, q) /\ q # p}},
        term |-> IF p \in DOMAIN C THEN C[p] ELSE <<>>] : p \in E }

NodeAt(N, key) == CHOOSE n \in N : n.key = key
HasNode(N, key) == \E n \in N : n.key = key

(***************************************************************************)
(* The search for a key: the node at which it ends and how (the three      *)
(* cases of the code: terminal, split, extend).                            *)
(***************************************************************************)
RECURSIVE EndFrom(_, _, _)
EndFrom(N, key, pos) ==
  LET n == NodeAt(N, pos)
      full == FullPath(n)
  IN IF key = full THEN [node |-> n, ending |-> "terminal"]
     ELSE IF ~IsPrefixOf(full, key) THEN [node |-> n, ending |-> "split"]
     ELSE IF key[Len(full) + 1] \in n.kids THEN EndFrom(N, key, Prefix(key, Len(full) + 1))
     ELSE [node |-> n, ending |-> "extend"]
SearchEnd(N, key) == EndFrom(N, key, <<>>)
(* the keys of the nodes which the search passes *)
RECURSIVE WayFrom(_, _, _)
WayFrom(N, key, pos) ==
  LET n == NodeAt(N, pos)
      full == FullPath(n)
  IN IF key # full /\ IsPrefixOf(full, key) /\ key[Len(full) + 1] \in n.kids
     THEN <<pos>> \o WayFrom(N, key, Prefix(key, Len(full) + 1)) ELSE <<pos>>
SearchWay(N, key) == IF N = {} THEN <<>> ELSE WayFrom(N, key, <<>>)

(***************************************************************************)
(* Commitments as symbolic terms: an injective function of the node, i.e.  *)
(* a collision-free hash.  The commitment of the subtrie at key.           *)
(***************************************************************************)
RECURSIVE TermAt(_, _)
TermAt(N, key) ==
  LET n == NodeAt(N, key)
  IN <<n.pf, n.term, {<<c, TermAt(N, FullPath(n) \o <<c>>)>> : c \in n.kids}>>
RootTerm(C) == IF DOMAIN C = {} THEN <<>> ELSE TermAt(Canon(C), <<>>)

(***************************************************************************)
(* Normal form under the weakness recorded in KNOWN_FINDINGS: data which   *)
(* fits into the hash is put into the hashed vector as it is, padded with  *)
(* zero bytes, so that trailing zeros are lost.  hs = 0: no such padding   *)
(* (KZG).                                                                  *)
(***************************************************************************)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE StripZeros(Prefix(s, Len(s) - 1))
Pad(s, hs) == IF Len(s) <= hs THEN StripZeros(s) ELSE s

RECURSIVE PadTermAt(_, _, _)
PadTermAt(N, key, hs) ==
  LET n == NodeAt(N, key)
  IN <<Pad(n.pf, hs), Pad(n.term, hs), {<<c, PadTermAt(N, FullPath(n) \o <<c>>, hs)>> : c \in n.kids}>>
PadRootTerm(C, hs) == IF DOMAIN C = {} THEN <<>> ELSE PadTermAt(Canon(C), <<>>, hs)

(* contents update: an empty value removes the key *)
Put(C, k, v) == IF v = <<>> THEN [x \in DOMAIN C \ {k} |-> C[x]]
                ELSE [x \in DOMAIN C \cup {k} |-> IF x = k THEN v ELSE C[x]]
EmptyC == [x \in {} |-> <<>>]
=============================================================================
