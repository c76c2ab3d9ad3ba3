----------------------------- MODULE MCProofWire -----------------------------
(***************************************************************************)
(* Serialized proofs on a small universe, exhaustively: what is written is *)
(* read back, every truncation and extension is recognised.  Every case is *)
(* replayed into the real Proof.Write and ProofFromBytes.                  *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Emitting, Arities, MaxPath

VARIABLES p, cut     \* cut: how many bytes are kept; negative: so many are added
vars == <<p, cut>>

H(x) == Tup([i \in 1..20 |-> x + i])
KeysOf(ar) == CASE ar = 2 -> {<<>>, <<0, 0, 0, 0, 0, 1, 0, 1>>} [] ar = 16 -> {<<>>, <<1>>, <<0, 15>>} [] ar = 256 -> {<<>>, <<0>>, <<255, 7>>}
Pfs(ar) == CASE ar = 2 -> {<<>>, <<1>>, <<0, 0, 0, 0, 0, 0, 0, 0, 1>>} [] ar = 16 -> {<<>>, <<15>>, <<0, 8>>} [] ar = 256 -> {<<>>, <<0, 255>>}
KidSets(ar) == CASE ar = 2 -> {<<>>, <<0>>, <<0, 1>>} [] ar = 16 -> {<<>>, <<0>>, <<1, 15>>} [] ar = 256 -> {<<>>, <<1>>, <<0, 255>>}
Terms == {[ht |-> FALSE, t |-> <<>>], [ht |-> TRUE, t |-> <<>>], [ht |-> TRUE, t |-> <<0, 7>>]}
Elem(ar) == {[pf |-> pf, idx |-> i, ht |-> tt.ht, t |-> tt.t, kids |-> Tup([j \in 1..Len(ks) |-> <<ks[j], H(ks[j] % 100)>>])]
             : pf \in Pfs(ar), i \in {0, ar, ar + 1}, tt \in Terms, ks \in KidSets(ar)}
Paths(ar) == UNION {[1..n -> Elem(ar)] : n \in 0..MaxPath}

Init == /\ \E ar \in Arities : \E k \in KeysOf(ar) : \E ph \in Paths(ar) : p = [ar |-> ar, hs |-> 20, key |-> k, path |-> ph]
        /\ cut \in -2..Len(WriteProof(p))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Rec == WriteProof(p)
Data == IF cut < 0 THEN Rec \o [i \in 1..-cut |-> 0] ELSE Take(Rec, cut)
Res == ReadProof(Data)
RoundTrip == cut = Len(Rec) => Res = [st |-> "ok", p |-> p]
Truncated == cut \in 0..(Len(Rec) - 1) => Res.st = "short"
Extended == cut < 0 => Res.st = "extra"

Beh == [op |-> "proof", p |-> p, full |-> cut = Len(Rec), data |-> Data, st |-> Res.st]
Emit == Emitting => PrintT("BEH " \o ToJson(Beh))
=============================================================================
