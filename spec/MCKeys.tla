------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* The key codec on a small universe, exhaustively: encoding is injective, *)
(* decoding is its strict inverse, packing inverts unpacking.  Every case  *)
(* is printed as a behaviour which the driver replays into the real        *)
(* functions.                                                              *)
(***************************************************************************)
EXTENDS Keys, Json, TLC

CONSTANTS MaxBytes, MaxSyms, Emitting

VARIABLES op, ar, x
vars == <<op, ar, x>>

EdgeBytes == {0, 1, 2, 7, 8, 15, 16, 17, 127, 128, 240, 255}
Syms(a) == CASE a = 2 -> {0, 1, 2} [] a = 16 -> {0, 1, 8, 15, 16, 255} [] a = 256 -> {0, 1, 255}
SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}

Init == /\ ar \in {2, 16, 256}
        /\ \/ op = "enc" /\ x \in SeqsUpTo(Syms(ar), MaxSyms + (IF ar = 2 THEN 3 ELSE 0))
           \/ op = "dec" /\ x \in SeqsUpTo(EdgeBytes, MaxBytes)
           \/ op = "unpack" /\ x \in SeqsUpTo(EdgeBytes, MaxBytes - 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Legal == SymbolsOK(x, ar)
CodecOK ==
  CASE op = "enc" -> Legal => /\ DecodeOK(Encode(x, ar), ar)
                              /\ Decode(Encode(x, ar), ar) = x
                              /\ Len(x) % PerByte(ar) = 0 => Unpack(PackPadded(x, ar), ar) = x
    [] op = "dec" -> DecodeOK(x, ar) => LET u == Decode(x, ar) IN SymbolsOK(u, ar) /\ Encode(u, ar) = x
    [] op = "unpack" -> /\ SymbolsOK(Unpack(x, ar), ar)
                        /\ PackPadded(Unpack(x, ar), ar) = x
                        /\ Len(Unpack(x, ar)) = PerByte(ar) * Len(x)

Beh == CASE op = "enc" -> [op |-> op, ar |-> ar, x |-> x, ok |-> Legal, out |-> IF Legal THEN Encode(x, ar) ELSE <<>>,
                           packed |-> IF Legal THEN PackPadded(x, ar) ELSE <<>>]
         [] op = "dec" -> [op |-> op, ar |-> ar, x |-> x, ok |-> DecodeOK(x, ar), out |-> IF DecodeOK(x, ar) THEN Decode(x, ar) ELSE <<>>, packed |-> <<>>]
         [] op = "unpack" -> [op |-> op, ar |-> ar, x |-> x, ok |-> TRUE, out |-> Unpack(x, ar), packed |-> <<>>]
Emit == Emitting => PrintT("BEH " \o ToJson(Beh))
=============================================================================
