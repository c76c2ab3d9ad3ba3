------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* A writer of pairs, a crash which cuts the data anywhere, and a reader   *)
(* which gets the data in pieces of any size.                              *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Emitting, MaxPairs

KeyItems == {<<>>, <<0>>, <<255>>, <<1, 2>>}
Vals == {<<>>, <<0>>, <<7, 0, 0>>}

VARIABLES written,    \* pairs written completely
          data,       \* the bytes in the file
          cut,        \* -1: the writer is still running; otherwise what is left of the data
          pos, cur,   \* the reader: bytes consumed from the file, bytes buffered of the current pair
          got, state  \* delivered pairs; "read", "done", "failed"
vars == <<written, data, cut, pos, cur, got, state>>

Init == written = <<>> /\ data = <<>> /\ cut = -1 /\ pos = 0 /\ cur = <<>> /\ got = <<>> /\ state = "read"

Write == /\ cut = -1 /\ Len(written) < MaxPairs
         /\ \E k \in KeyItems, v \in Vals :
              written' = Append(written, <<k, v>>) /\ data' = data \o WritePair(<<k, v>>)
         /\ UNCHANGED <<cut, pos, cur, got, state>>
Crash == /\ cut = -1
         /\ \E c \in 0..Len(data) : cut' = c
         /\ UNCHANGED <<written, data, pos, cur, got, state>>

(* the reader asks for one more piece *)
Complete(b) == Len(b) >= 2 /\ Len(b) >= Num16(b) + 6 /\ Len(b) = Num16(b) + 6 + Num32(SubSeq(b, Num16(b) + 3, Num16(b) + 6))
Needed(b) == IF Len(b) < 2 THEN 2 - Len(b)
             ELSE IF Len(b) < Num16(b) + 6 THEN Num16(b) + 6 - Len(b)
             ELSE Num16(b) + 6 + Num32(SubSeq(b, Num16(b) + 3, Num16(b) + 6)) - Len(b)
Piece == /\ cut >= 0 /\ state = "read" /\ ~(cur # <<>> /\ Complete(cur)) /\ pos < cut
         /\ \E s \in 1..(IF Needed(cur) < cut - pos THEN Needed(cur) ELSE cut - pos) :
              cur' = cur \o SubSeq(data, pos + 1, pos + s) /\ pos' = pos + s
         /\ UNCHANGED <<written, data, cut, got, state>>
Deliver == /\ cut >= 0 /\ state = "read" /\ cur # <<>> /\ Complete(cur)
           /\ LET kl == Num16(cur) IN got' = Append(got, <<SubSeq(cur, 3, kl + 2), From(cur, kl + 7)>>)
           /\ cur' = <<>>
           /\ UNCHANGED <<written, data, cut, pos, state>>
End == /\ cut >= 0 /\ state = "read" /\ pos = cut /\ ~(cur # <<>> /\ Complete(cur))
       /\ state' = IF cur = <<>> \/ Bug = "silent" THEN "done" ELSE "failed"
       /\ UNCHANGED <<written, data, cut, pos, cur, got>>
Next == Write \/ Crash \/ Piece \/ Deliver \/ End
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
NothingInvented == IsPrefix(got, written)
Exact == state # "read" =>
  LET r == ReadPairs(Take(data, cut)) IN
  /\ got = r.pairs
  /\ (state = "failed") = r.cut
  /\ (state = "done") = (\E i \in 0..Len(written) : cut = PairBytes(SubSeq(written, 1, i)) /\ got = SubSeq(written, 1, i))
Sizes == cut = -1 => PairBytes(written) = Len(data) /\ data = WritePairs(written)

Beh == [op |-> "stream", pairs |-> written, data |-> data, cut |-> cut, got |-> got, err |-> state = "failed"]
Emit == Emitting /\ state # "read" => PrintT("BEH " \o ToJson(Beh))
=============================================================================
