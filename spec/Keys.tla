-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys as byte strings, as paths of symbols (one byte, nibble or bit per  *)
(* symbol, depending on the arity of the trie), and as encoded paths (the  *)
(* keys of node records in the store, path fragments in records).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Tup(f) == f \o <<>>      \* forces a sequence valued function into a tuple

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

Unpack(k, ar) ==
  CASE ar = 256 -> k
    [] ar = 16  -> Tup([i \in 1..(2 * Len(k)) |->
                      IF i % 2 = 1 THEN k[(i + 1) \div 2] \div 16 ELSE k[i \div 2] % 16])
    [] ar = 2   -> Tup([i \in 1..(8 * Len(k)) |->
                      (k[((i - 1) \div 8) + 1] \div Pow2[8 - ((i - 1) % 8)]) % 2])

(* number of symbols that fill a byte *)
PerByte(ar) == CASE ar = 256 -> 1 [] ar = 16 -> 2 [] ar = 2 -> 8
SymbolsOK(u, ar) == \A i \in 1..Len(u) : u[i] < ar

At(u, i) == IF i <= Len(u) THEN u[i] ELSE 0

(* symbols packed into bytes, the last byte padded with zeros *)
PackPadded(u, ar) ==
  CASE ar = 256 -> u
    [] ar = 16  -> Tup([j \in 1..((Len(u) + 1) \div 2) |-> 16 * At(u, 2 * j - 1) + At(u, 2 * j)])
    [] ar = 2   -> Tup([j \in 1..((Len(u) + 7) \div 8) |->
                     LET b == 8 * (j - 1) IN
                     128 * At(u, b + 1) + 64 * At(u, b + 2) + 32 * At(u, b + 3) + 16 * At(u, b + 4)
                     + 8 * At(u, b + 5) + 4 * At(u, b + 6) + 2 * At(u, b + 7) + At(u, b + 8)])

Padding(u, ar) == LET r == Len(u) % PerByte(ar) IN IF r = 0 THEN 0 ELSE PerByte(ar) - r

(* encoded path: the empty path is empty, 256-ary paths are themselves, otherwise *)
(* the number of symbols of padding comes first                                    *)
Encode(u, ar) ==
  IF u = <<>> THEN <<>>
  ELSE IF ar = 256 THEN u
  ELSE <<Padding(u, ar)>> \o PackPadded(u, ar)

(* a byte string is a proper encoding, and of which path *)
DecodeOK(b, ar) ==
  \/ b = <<>> \/ ar = 256
  \/ /\ b[1] < PerByte(ar)
     /\ Len(b) > 1
     /\ LET u == Unpack(SubSeq(b, 2, Len(b)), ar)
        IN \A i \in (Len(u) - b[1] + 1)..Len(u) : u[i] = 0
Decode(b, ar) ==
  IF b = <<>> \/ ar = 256 THEN b
  ELSE LET u == Unpack(SubSeq(b, 2, Len(b)), ar) IN SubSeq(u, 1, Len(u) - b[1])
=============================================================================
