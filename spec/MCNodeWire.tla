----------------------------- MODULE MCNodeWire -----------------------------
(***************************************************************************)
(* Node records on a small universe, exhaustively: what is written is read *)
(* back, every truncation and extension is recognised, the records of      *)
(* different nodes differ.  Every case is printed as a behaviour, to be    *)
(* replayed into the real NodeData.Write and NodeDataFromBytes.            *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Emitting, Arities

VARIABLES fm, n, cut     \* cut: how many bytes of the record are kept; -1: one is added, -2: two are added
vars == <<fm, n, cut>>

C(x) == Tup([i \in 1..20 |-> x + i])
Pfs(ar) == CASE ar = 2   -> {<<>>, <<0>>, <<1, 0, 1>>, <<0, 0, 0, 0, 1, 0, 1, 1>>, <<1, 1, 0, 0, 0, 0, 0, 0, 0>>}
             [] ar = 16  -> {<<>>, <<0>>, <<15>>, <<1, 0>>, <<0, 8, 15>>}
             [] ar = 256 -> {<<>>, <<0>>, <<255, 0>>}
KidSets(ar) == CASE ar = 2   -> {<<>>, <<0>>, <<1>>, <<0, 1>>}
                 [] ar = 16  -> {<<>>, <<0>>, <<15>>, <<7, 8>>, <<0, 7, 15>>}
                 [] ar = 256 -> {<<>>, <<0>>, <<255>>, <<7, 8, 127>>, <<0, 128, 255>>}
Kids(s) == Tup([i \in 1..Len(s) |-> <<s[i], C(s[i] % 100)>>])
KeysOf(ar) == {<<>>, [i \in 1..PerByte(ar) |-> 1]}
Tbs == {<<1, 7>>, <<2, 0, 9>>, <<20 + 192>> \o C(50)}       \* short values, and a hash (costly)

(* the first two parts: terminal, path fragment.  The key of the record is chosen such that  *)
(* key and fragment make whole bytes if the terminal comes from the key or the value store   *)
FullKey(f, m) == f.key \o m.pf
Whole(f, m) == Len(FullKey(f, m)) % PerByte(f.ar) = 0 /\ FullKey(f, m) # <<>>

Init ==
  \E ar \in Arities : \E key \in KeysOf(ar) : \E pf \in Pfs(ar) : \E ks \in KidSets(ar) :
  \E t \in {"none", "node", "key", "value", "both"} : \E tb \in Tbs :
    /\ t # "node" => tb = <<1, 7>>
    /\ fm = [md |-> "b2b", ar |-> ar, hs |-> 20, key |-> key, val |-> TRUE]
    /\ n = [pf |-> pf, kids |-> Kids(ks), has |-> t # "none", tk |-> t \in {"key", "both"}, skip |-> t \in {"value", "both"},
            tb |-> IF t = "node" THEN tb ELSE <<>>]
    /\ NodeLegal(n)
    /\ t \in {"key", "value", "both"} => Whole(fm, n)
    /\ t \in {"key", "both"} => key # <<>>
    /\ cut \in -2..Len(WriteNode(n, ar))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Rec == WriteNode(n, fm.ar)
Data == IF cut < 0 THEN Rec \o [i \in 1..-cut |-> 0] ELSE Take(Rec, cut)
Res == ReadNode(Data, fm)
RoundTrip == cut = Len(Rec) => Res = [st |-> "ok", pf |-> n.pf, kids |-> n.kids, has |-> n.has, tk |-> n.tk, skip |-> n.skip, tb |-> n.tb]
Truncated == cut \in 0..(Len(Rec) - 1) => Res.st = "short"
Extended == cut < 0 => Res.st \in {"extra"}

Beh == [op |-> "node", fm |-> fm, n |-> n, full |-> cut = Len(Rec), data |-> Data, st |-> Res.st]
Emit == Emitting => PrintT("BEH " \o ToJson(Beh))
=============================================================================
