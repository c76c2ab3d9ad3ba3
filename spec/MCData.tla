------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* Data of any length, as values and as path fragments, and what of it is  *)
(* committed.  Data is written as runs of equal bytes, so that data of     *)
(* megabytes is as small here as data of a few bytes; two data are equal   *)
(* when their normal forms are.                                            *)
(*                                                                         *)
(* A datum is either literal, or it is the hash of a literal (an adversary *)
(* can store that as well as anything else).  Commitments are symbols: a   *)
(* collision-free hash.  With KZG all data is hashed; with blake2b what    *)
(* fits into the hash (hs bytes) is committed as it is, padded with zeros: *)
(* the two weaknesses of KNOWN_FINDINGS follow, and the invariant says     *)
(* that there is none besides them.                                        *)
(*                                                                         *)
(* Every datum is a behaviour: the code commits to it, as a value and as a *)
(* path fragment, and commitments of different data must differ.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Emitting, Lens, SmallLens, Hashed, Xs, Ys, Bug

Pow2 == {2^k : k \in 0..20}
Positions(n) == {p \in {0, 1, n \div 2, n \div 3, (2 * n) \div 3, n - 1, n - 2} \cup Pow2 \cup {q - 1 : q \in Pow2}
                        \cup {n - q : q \in {q \in Pow2 : q <= n}} \cup {q + (q \div 2) : q \in Pow2} : p \in 0..(n - 1)}

(* runs <<byte, count>> *)
Clean(r) == SelectSeq(r, LAMBDA z : z[2] > 0)
RECURSIVE Merge(_)
Merge(r) == IF Len(r) < 2 THEN r
            ELSE IF r[1][1] = r[2][1] THEN Merge(<<<<r[1][1], r[1][2] + r[2][2]>>>> \o SubSeq(r, 3, Len(r)))
            ELSE <<r[1]>> \o Merge(Tail(r))
Normal(r) == Merge(Clean(r))
RECURSIVE Length(_)
Length(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Length(Tail(r))
Flip(n, p, x, y) == Normal(<<<<x, p>>, <<y, 1>>, <<x, n - p - 1>>>>)

Lit(r) == <<"lit", r>>
Hash(r, hs) == <<"hash", r, hs>>
(* what is committed: without weakness, and as trie_blake2b does it *)
Size(d) == IF d[1] = "lit" THEN Length(d[2]) ELSE d[3]
StripTail(r) == IF r # <<>> /\ r[Len(r)][1] = 0 THEN SubSeq(r, 1, Len(r) - 1) ELSE r
Committed(d, hs) == IF Size(d) > hs THEN IF d[1] = "lit" THEN Hash(IF Bug = "prefix" THEN SubSeq(d[2], 1, 1) ELSE d[2], hs)
                                         ELSE <<"hash of hash", d[2], d[3], hs>>
                    ELSE IF d[1] = "lit" THEN Lit(StripTail(d[2])) ELSE d

VARIABLE d
Init == \/ \E n \in Lens, x \in Xs, y \in Ys : \E p \in Positions(n) : d = Lit(Flip(n, p, x, y))
        \/ \E n \in SmallLens, x \in Xs, y \in Ys : \E p \in 0..(n - 1) : d = Lit(Flip(n, p, x, y))
        \/ \E n \in Hashed, x \in Xs, hs \in {20, 32} : d = Hash(Normal(<<<<x, n>>>>), hs)
Next == FALSE /\ UNCHANGED d
Spec == Init /\ [][Next]_d

Sample == {Lit(Flip(n, p, x, y)) : n \in {19, 20, 21, 31, 32, 33}, p \in {0, 18}, x \in Xs, y \in Ys}
            \cup {Hash(Normal(<<<<x, n>>>>), hs) : n \in Hashed, x \in Xs, hs \in {20, 32}}
ASSUME TLCSet(61, TLCEval(Sample))
SameUpToZeros(a, b) == a[1] = "lit" /\ b[1] = "lit" /\ StripTail(a[2]) = StripTail(b[2])
OnlyKnown == \A hs \in {20, 32} : \A e \in TLCGet(61) :
  Committed(d, hs) = Committed(e, hs) =>
    \/ d = e
    \/ SameUpToZeros(d, e) /\ Size(d) <= hs /\ Size(e) <= hs
    \/ e[1] = "lit" /\ d = Hash(e[2], hs)
    \/ d[1] = "lit" /\ e = Hash(d[2], hs)
NormalOK == Normal(d[2]) = d[2]

(* zp: the normal form of what differs in trailing zeros only; hv: of what is hashed or the hash *)
Row(hs) == [zp |-> IF Size(d) <= hs /\ d[1] = "lit" THEN Lit(StripTail(d[2])) ELSE d, hv |-> Committed(d, hs)]
Emit == Emitting => PrintT("BEH " \o ToJson([lit |-> d[1] = "lit", runs |-> d[2], n |-> Size(d), strict |-> d, b20 |-> Row(20), b32 |-> Row(32)]))
=============================================================================
