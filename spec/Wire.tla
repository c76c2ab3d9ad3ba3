-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The binary formats: node records (NodeData.Write/Read) and streams of   *)
(* key/value pairs (BinaryStreamWriter, dump files).  A format is given by *)
(* a writer (a function to byte strings) and by a reader which classifies  *)
(* every byte string: a proper record, one that ends too early, one that   *)
(* has bytes left over, one that is contradictory, or "odd" where the      *)
(* documentation leaves open what a reader does.                           *)
(***************************************************************************)
EXTENDS Keys, Integers, FiniteSets, TLC

CONSTANT Bug      \* mutations of the specification itself, for non-vacuity checks

LE16(n) == <<n % 256, n \div 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Num16(b) == b[1] + 256 * b[2]
Num32(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
From(b, i) == SubSeq(b, i, Len(b))
Take(b, n) == SubSeq(b, 1, n)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

Bit(n, i) == (n \div Pow2[i + 1]) % 2 = 1      \* i = 0..7

(***************************************************************************)
(* Node records.  n = [pf, kids, tk, skip, tb]: kids is a sequence of      *)
(* <<index, commitment bytes>> in ascending order; has says whether there  *)
(* is a terminal, tk whether it is taken from the key, skip whether it is  *)
(* taken from the value store, tb the serialized terminal.                 *)
(***************************************************************************)
CfSize(ar) == IF ar >= 8 THEN ar \div 8 ELSE 1
KidIdx(n) == {n.kids[i][1] : i \in 1..Len(n.kids)}
RECURSIVE BitSum(_, _, _)
BitSum(K, j, i) == IF i = 8 THEN 0 ELSE (IF 8 * j + i \in K THEN Pow2[i + 1] ELSE 0) + BitSum(K, j, i + 1)
Cflags(K, ar) == Tup([j \in 1..CfSize(ar) |-> BitSum(K, j - 1, 0)])

Flags(n) == (IF n.has THEN 1 ELSE 0) + (IF n.skip THEN 2 ELSE 0) + (IF n.tk THEN 4 ELSE 0)
            + (IF n.kids # <<>> THEN 8 ELSE 0) + (IF n.pf # <<>> THEN 16 ELSE 0)

WriteNode(n, ar) ==
  <<Flags(n)>>
  \o (IF n.pf = <<>> THEN <<>> ELSE LET e == Encode(n.pf, ar) IN LE16(Len(e)) \o e)
  \o (IF n.has /\ ~n.skip /\ ~n.tk THEN n.tb ELSE <<>>)
  \o (IF n.kids = <<>> THEN <<>> ELSE Cflags(KidIdx(n), ar) \o Cat([i \in 1..Len(n.kids) |-> n.kids[i][2]]))

Fail(st) == [st |-> st, pf |-> <<>>, kids |-> <<>>, has |-> FALSE, tk |-> FALSE, skip |-> FALSE, tb |-> <<>>]

(* length of the serialized terminal at the beginning of b; -1: it is too short, -2: odd, -3: longer than a commitment can be *)
TermLen(b, fm) ==
  IF fm.md = "kzg" THEN IF Len(b) < 32 THEN -1 ELSE 32
  ELSE IF b = <<>> THEN -1
  ELSE LET l == b[1] % 64 IN
       IF l > 32 THEN -3
       ELSE IF Len(b) < l + 1 THEN -1
       ELSE IF l = 0 \/ l > fm.hs \/ b[1] \div 64 \notin {0, 3} THEN -2
       ELSE l + 1
ComLen(fm) == IF fm.md = "kzg" THEN 64 ELSE fm.hs

(* the indices i < n, ascending, whose bits are set in b *)
BitSeq(b, n) == SelectSeq([j \in 1..n |-> j - 1], LAMBDA i : Bit(b[(i \div 8) + 1], i % 8))

(* the items of sz bytes, one for each index of idx, with which b begins *)
Items(b, idx, sz) == Tup([i \in 1..Len(idx) |-> <<idx[i], SubSeq(b, sz * (i - 1) + 1, sz * i)>>])

(* fm = [md, ar, hs, key, val]: the model, the unpacked key of the record, whether the value store has the value *)
ReadNode(b, fm) ==
  IF b = <<>> THEN Fail("short")
  ELSE
  LET f    == b[1]
      has  == Bit(f, 0)
      skip == Bit(f, 1)
      tk   == Bit(f, 2)
      ch   == Bit(f, 3)
      pfl  == Bit(f, 4)
      b1   == From(b, 2)
      \* path fragment
      plen == IF Len(b1) < 2 THEN 0 ELSE Num16(b1)
      enc  == IF pfl /\ Len(b1) >= plen + 2 THEN SubSeq(b1, 3, plen + 2) ELSE <<>>
      b2   == IF pfl THEN From(b1, plen + 3) ELSE b1
  IN
  IF f >= 32 THEN Fail("odd")
  ELSE IF pfl /\ (Len(b1) < 2 \/ Len(b1) < plen + 2) THEN Fail("short")
  ELSE IF pfl /\ ~DecodeOK(enc, fm.ar) THEN Fail("bad")
  ELSE IF ~has /\ (skip \/ tk) THEN Fail("bad")
  ELSE IF ~has /\ ~ch THEN Fail("odd")
  ELSE IF pfl /\ plen = 0 THEN Fail("odd")
  ELSE IF has /\ tk /\ fm.key = <<>> THEN Fail("bad")
  ELSE IF has /\ skip /\ ~tk /\ ~fm.val THEN Fail("bad")
  ELSE
  LET pf  == IF pfl THEN Decode(enc, fm.ar) ELSE <<>>
      own == has /\ ~skip /\ ~tk
      tl  == IF own THEN TermLen(b2, fm) ELSE 0
  IN
  IF own /\ tl = -1 THEN Fail("short")
  ELSE IF own /\ tl = -2 THEN Fail("odd")
  ELSE IF own /\ tl = -3 THEN Fail("bad")
  ELSE
  LET tb == IF own THEN Take(b2, tl) ELSE <<>>
      b3 == From(b2, tl + 1)
  IN
  IF ~ch THEN [st |-> IF b3 = <<>> THEN "ok" ELSE "extra", pf |-> pf, kids |-> <<>>, has |-> has, tk |-> tk, skip |-> skip, tb |-> tb]
  ELSE IF Len(b3) < CfSize(fm.ar) THEN Fail("short")
  ELSE
  LET all  == BitSeq(b3, 8 * CfSize(fm.ar))
      b4   == From(b3, CfSize(fm.ar) + 1)
      want == ComLen(fm) * Len(all)
  IN IF all = <<>> \/ all[Len(all)] >= fm.ar THEN Fail("odd")
     ELSE IF Len(b4) < want THEN Fail("short")
     ELSE [st |-> IF Len(b4) = want THEN "ok" ELSE "extra", pf |-> pf, kids |-> Items(b4, all, ComLen(fm)),
           has |-> has, tk |-> tk, skip |-> skip, tb |-> tb]

(* is the node one that a writer may be given *)
NodeLegal(n) == (n.has \/ n.kids # <<>>) /\ (n.tk \/ n.skip => n.has)

(***************************************************************************)
(* Proofs of the hash model: p = [ar, hs, key, path], path elements        *)
(* [pf, idx, ht, t, kids]; ht says whether the node has a terminal t.      *)
(***************************************************************************)
BitsOf(K, n) == Tup([j \in 1..n |-> BitSum(K, j - 1, 0)])
LenPrefixed16(b) == LE16(Len(b)) \o b
WriteElem(e, ar) ==
  LenPrefixed16(Encode(e.pf, ar)) \o LE16(e.idx)
  \o <<(IF e.ht THEN 1 ELSE 0) + (IF e.kids # <<>> THEN 2 ELSE 0)>>
  \o (IF e.ht THEN <<Len(e.t)>> \o e.t ELSE <<>>)
  \o (IF e.kids = <<>> THEN <<>> ELSE BitsOf({e.kids[i][1] : i \in 1..Len(e.kids)}, 32) \o Cat([i \in 1..Len(e.kids) |-> e.kids[i][2]]))
WriteProof(p) ==
  <<p.ar - 1, p.hs>> \o LenPrefixed16(Encode(p.key, p.ar)) \o LE16(Len(p.path))
  \o Cat([i \in 1..Len(p.path) |-> WriteElem(p.path[i], p.ar)])

PFail(st) == [st |-> st, p |-> [ar |-> 0, hs |-> 0, key |-> <<>>, path |-> <<>>]]

(* a length prefixed byte string at the beginning of b: its length, or -1 if b ends too early *)
Str16(b) == IF Len(b) < 2 THEN -1 ELSE IF Len(b) < Num16(b) + 2 THEN -1 ELSE Num16(b)

RECURSIVE ReadElems(_, _, _, _, _)
ReadElems(b, n, ar, hs, acc) ==
  IF n = 0 THEN [st |-> IF b = <<>> THEN "ok" ELSE "extra", path |-> acc]
  ELSE LET l == Str16(b) IN
  IF l = -1 THEN [st |-> "short", path |-> <<>>]
  ELSE LET enc == SubSeq(b, 3, l + 2)
           b1  == From(b, l + 3) IN
  IF ~DecodeOK(enc, ar) THEN [st |-> "bad", path |-> <<>>]
  ELSE IF Len(b1) < 3 THEN [st |-> "short", path |-> <<>>]
  ELSE LET f  == b1[3]
           ht == Bit(f, 0)
           hk == Bit(f, 1)
           b2 == From(b1, 4)
           tl == IF ht /\ b2 # <<>> THEN b2[1] ELSE 0
           tn == IF ht THEN tl + 1 ELSE 0 IN
  IF f >= 4 THEN [st |-> "odd", path |-> <<>>]
  ELSE IF ht /\ b2 = <<>> THEN [st |-> "short", path |-> <<>>]
  ELSE IF Len(b2) < tn THEN [st |-> "short", path |-> <<>>]
  ELSE LET t  == IF ht THEN SubSeq(b2, 2, tn) ELSE <<>>
           b3 == From(b2, tn + 1) IN
  IF hk /\ Len(b3) < 32 THEN [st |-> "short", path |-> <<>>]
  ELSE LET all == IF hk THEN BitSeq(b3, 256) ELSE <<>>
           b4  == IF hk THEN From(b3, 33) ELSE b3 IN
  IF hk /\ (all = <<>> \/ all[Len(all)] >= ar) THEN [st |-> "odd", path |-> <<>>]
  ELSE IF Len(b4) < hs * Len(all) THEN [st |-> "short", path |-> <<>>]
  ELSE ReadElems(From(b4, hs * Len(all) + 1), n - 1, ar, hs,
         Append(acc, [pf |-> Decode(enc, ar), idx |-> Num16(b1), ht |-> ht, t |-> t, kids |-> Items(b4, all, hs)]))

ReadProof(b) ==
  IF Len(b) < 1 THEN PFail("short")
  ELSE IF b[1] \notin {1, 15, 255} THEN PFail("bad")
  ELSE IF Len(b) < 2 THEN PFail("short")
  ELSE IF b[2] \notin {20, 32} THEN PFail("bad")
  ELSE LET ar == b[1] + 1
           hs == b[2]
           b1 == From(b, 3)
           l  == Str16(b1) IN
  IF l = -1 THEN PFail("short")
  ELSE IF ~DecodeOK(SubSeq(b1, 3, l + 2), ar) THEN PFail("bad")
  ELSE LET b2 == From(b1, l + 3) IN
  IF Len(b2) < 2 THEN PFail("short")
  ELSE LET r == ReadElems(From(b2, 3), Num16(b2), ar, hs, <<>>) IN
       [st |-> r.st, p |-> [ar |-> ar, hs |-> hs, key |-> Decode(SubSeq(b1, 3, l + 2), ar), path |-> r.path]]

(***************************************************************************)
(* Streams of pairs                                                        *)
(***************************************************************************)
WritePair(p) == LE16(Len(p[1])) \o p[1] \o (IF Bug = "kv16" THEN LE16(Len(p[2])) ELSE LE32(Len(p[2]))) \o p[2]
WritePairs(ps) == Cat([i \in 1..Len(ps) |-> WritePair(ps[i])])

(* what a reader delivers from data that may end anywhere: the complete pairs, and whether *)
(* the data ended in the middle of one                                                      *)
RECURSIVE ReadPairsFrom(_, _, _)
ReadPairsFrom(b, pos, acc) ==       \* pos: number of bytes already consumed
  LET left == Len(b) - pos IN
  IF left = 0 THEN [pairs |-> acc, cut |-> FALSE]
  ELSE IF left < 2 THEN [pairs |-> acc, cut |-> TRUE]
  ELSE LET kl == b[pos + 1] + 256 * b[pos + 2] IN
  IF left < 2 + kl + 4 THEN [pairs |-> acc, cut |-> TRUE]
  ELSE LET o == pos + 2 + kl
           vl == Num32(SubSeq(b, o + 1, o + 4)) IN
  IF left < 6 + kl + vl THEN [pairs |-> acc, cut |-> TRUE]
  ELSE ReadPairsFrom(b, pos + 6 + kl + vl, Append(acc, <<SubSeq(b, pos + 3, pos + 2 + kl), SubSeq(b, o + 5, o + 4 + vl)>>))
ReadPairs(b) == ReadPairsFrom(b, 0, <<>>)

RECURSIVE PairBytes(_)
PairBytes(ps) == IF ps = <<>> THEN 0 ELSE Len(Head(ps)[1]) + Len(Head(ps)[2]) + 6 + PairBytes(Tail(ps))
=============================================================================
