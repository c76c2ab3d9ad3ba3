----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Trace specification of the byte formats: keys, node records, proofs,    *)
(* streams of pairs and dumps.  The state is what has been written to each *)
(* stream so far; everything else is a function of the arguments.          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Doc == JsonDeserialize(IOEnv.VTRACE)
Traces == Doc.traces
CheckSet == {Doc.chk[i] : i \in 1..Len(Doc.chk)}

VARIABLES t, l,
          strm      \* stream id -> pairs written
vars == <<t, l, strm>>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
Is(kind) == More /\ E.e = kind /\ l' = l + 1 /\ t' = t
Chk(name, cond) ==
  IF name \notin CheckSet THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o name)

Init == t \in 1..Len(Traces) /\ l = 1 /\ strm = [x \in {} |-> <<>>]

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
EUnpack == /\ Is("unpack")
           /\ Chk("key-unpack", E.out = Unpack(E.k, E.ar))
           /\ UNCHANGED strm
EEnc == /\ Is("enc")
        /\ Chk("key-encode", E.ok = SymbolsOK(E.u, E.ar) /\ (E.ok => E.out = Encode(E.u, E.ar)))
        /\ UNCHANGED strm
EPack == /\ Is("pack")
         /\ Chk("key-pack", E.ok = SymbolsOK(E.u, E.ar) /\ (E.ok => E.out = PackPadded(E.u, E.ar)))
         /\ UNCHANGED strm
EDec == /\ Is("dec")
        /\ Chk("key-decode", E.ok = DecodeOK(E.b, E.ar) /\ (E.ok => E.out = Decode(E.b, E.ar)))
        /\ UNCHANGED strm

(***************************************************************************)
(* Node records                                                            *)
(***************************************************************************)
(* the serialized terminal for the value v; th: the bytes which commit to it *)
TermBytes(md, hs, v, thr, th) ==
  IF md = "kzg" THEN th
  ELSE LET raw == IF Len(v) <= hs THEN v ELSE th IN <<Len(raw) + (IF Len(v) > thr THEN 192 ELSE 0)>> \o raw

NodeIn(e) == [pf |-> e.pf, kids |-> e.kids, has |-> e.has, tk |-> e.tk, skip |-> e.skip,
              tb |-> IF e.has THEN TermBytes(e.md, e.hs, e.v, e.thr, e.th) ELSE <<>>]
ENodeWrite == /\ Is("nwrite")
              /\ Chk("node-write", E.ok = NodeLegal(NodeIn(E)) /\ (E.ok => E.out = WriteNode(NodeIn(E), E.ar)))
              /\ UNCHANGED strm

(* E.b was given to the reader.  hon: it is what the writer has written for this key.  The    *)
(* terminal found is E.tb (serialized); E.tkey, E.tval are what the library commits the key   *)
(* and the value in the value store with                                                       *)
ENodeRead ==
  /\ Is("nread")
  /\ LET fm == [md |-> E.md, ar |-> E.ar, hs |-> E.hs, key |-> E.key, val |-> E.hasval]
         r  == ReadNode(E.b, fm)
     IN /\ Chk("node-read-refuse", r.st \in {"short", "extra", "bad"} => ~E.acc)
        /\ Chk("node-read-accept", r.st = "ok" /\ (E.md = "b2b" \/ E.hon) => E.acc)
        \* a record which is there, but broken, is not an absent node
        /\ Chk("node-read-absent", E.absent => E.b = <<>>)
        /\ Chk("node-read-honest", E.hon => r.st = "ok")
        /\ Chk("node-read-equal", r.st = "ok" /\ E.acc =>
               /\ E.pf = r.pf /\ E.kids = r.kids /\ E.has = r.has
               /\ r.has => E.tb = (IF r.tk THEN E.tkey ELSE IF r.skip THEN E.tval ELSE r.tb))
  /\ UNCHANGED strm

(* a commitment is read from exactly its bytes; KZG: not every string of the right length is one *)
ECommRead == /\ Is("vcread")
             /\ LET n == ComLen([md |-> E.md, hs |-> E.hs]) IN
                Chk("commitment-read", /\ E.acc => Len(E.b) = n /\ E.out = E.b
                                       /\ (E.hon \/ E.md = "b2b") /\ Len(E.b) = n => E.acc)
             /\ UNCHANGED strm
(* no commitment has no bytes *)
ECommEqual == /\ Is("ceq")
              /\ Chk("commitment-equal", E.out = (E.a = E.b))
              /\ UNCHANGED strm

(***************************************************************************)
(* Proofs                                                                  *)
(***************************************************************************)
EProofWrite == /\ Is("pwrite")
               /\ Chk("proof-write", E.out = WriteProof(E.p) /\ E.size = Len(E.out))
               /\ UNCHANGED strm
(* a proof or a node whose paths have symbols which do not exist is not written *)
EWriteBad == /\ Is("wbad")
             /\ Chk(E.name, E.err = (\E i \in 1..Len(E.paths) : \E j \in 1..Len(E.paths[i]) : E.paths[i][j] >= E.ar))
             /\ UNCHANGED strm
(* q: the proof which was read, r2: the proof read from q written again *)
EProofRead == /\ Is("pread")
              /\ LET r == ReadProof(E.b) IN
                 /\ Chk("proof-read-refuse", r.st \in {"short", "extra", "bad"} => ~E.acc)
                 /\ Chk("proof-read-accept", r.st = "ok" => E.acc)
                 /\ Chk("proof-read-honest", E.hon => r.st = "ok")
                 /\ Chk("proof-read-equal", r.st = "ok" /\ E.acc => E.q = r.p)
                 /\ Chk("proof-rewrite", E.acc => E.again /\ E.r2 = E.q)
              /\ UNCHANGED strm

(***************************************************************************)
(* Streams and dumps                                                       *)
(***************************************************************************)
ENew == Is("snew") /\ strm' = With(strm, E.i, <<>>)
EWrite == /\ Is("swrite")
          /\ Chk("stream-write", ~E.err)
          /\ strm' = [strm EXCEPT ![E.i] = Append(@, <<E.k, E.v>>)]
EStats == /\ Is("sstats")
          /\ Chk("stream-stats", E.n = Len(strm[E.i]) /\ E.bytes = PairBytes(strm[E.i]))
          /\ UNCHANGED strm
EData == /\ Is("sdata")
         /\ Chk("stream-data", E.b = WritePairs(strm[E.i]))
         /\ UNCHANGED strm
(* the writer's medium is full after some bytes: every write that is not complete has to say so, *)
(* the others count, and they are what can be read back                                          *)
EFull == /\ Is("sfull")
         /\ LET fits == {i \in 1..Len(E.pairs) : PairBytes(SubSeq(E.pairs, 1, i)) <= E.room}
            IN /\ Chk("stream-write-error", \A i \in 1..Len(E.pairs) : E.errs[i] = (i \notin fits))
               /\ Chk("stream-stats", E.n = Cardinality(fits))
               /\ Chk("stream-data", ReadPairs(E.b).pairs = SubSeq(E.pairs, 1, Cardinality(fits)))
         /\ UNCHANGED strm

(* reading the first cut bytes of a stream (-1: all), in pieces; stop: the consumer stops     *)
(* after so many pairs (0: never); fail: the medium fails at the end instead of ending        *)
ReadExpect(b, stop, fail) ==
  LET r == ReadPairs(b) IN
  IF stop > 0 /\ stop <= Len(r.pairs) THEN [pairs |-> SubSeq(r.pairs, 1, stop), err |-> FALSE]
  ELSE [pairs |-> r.pairs, err |-> r.cut \/ fail]
ERead == /\ Is("sread")
         /\ LET all == WritePairs(strm[E.i])
                x == ReadExpect(IF E.cut < 0 THEN all ELSE Take(all, E.cut), E.stop, E.fail)
            IN Chk("stream-read", E.pairs = x.pairs /\ E.err = x.err)
         /\ UNCHANGED strm
ERaw == /\ Is("sraw")
        /\ LET x == ReadExpect(E.b, E.stop, E.fail) IN Chk("stream-read", E.pairs = x.pairs /\ E.err = x.err)
        /\ UNCHANGED strm

(* anything is written to media of which each has room for so many bytes: whatever does not fit *)
(* is reported, and what was written before is what should have been written                     *)
EWFull == /\ Is("wfull")
          /\ Chk(E.name, \A i \in 1..Len(E.rooms) :
                 /\ E.errs[i] = (E.rooms[i] < Len(E.out))
                 /\ E.outs[i] = (IF E.rooms[i] < Len(E.out) THEN Take(E.out, E.rooms[i]) ELSE E.out))
          /\ UNCHANGED strm

(* long data: a piece is its length and a digest; pairs is a sequence of <<key, value>> of such *)
RECURSIVE PairSizes(_, _)
PairSizes(ps, n) == IF ps = <<>> THEN n ELSE PairSizes(Tail(ps), n + Head(ps)[1][1] + Head(ps)[2][1] + 6)
BigBytes(ps) == PairSizes(ps, 0)
EBig == /\ Is("sbig")
        /\ LET ps == E.pairs IN
           /\ Chk("stream-write", \A i \in 1..Len(ps) : ~E.errs[i])
           /\ Chk("stream-stats", E.n = Len(ps) /\ E.bytes = BigBytes(ps))
           /\ Chk("stream-data", /\ E.len = BigBytes(ps)
                                 /\ E.pieces = [i \in 1..Len(ps) |-> <<LE16(ps[i][1][1]), ps[i][1], LE32(ps[i][2][1]), ps[i][2]>>])
           /\ Chk("stream-read", \A j \in 1..Len(E.reads) :
                LET x    == E.reads[j]
                    fits == IF x.cut < 0 THEN 1..Len(ps) ELSE {i \in 1..Len(ps) : BigBytes(SubSeq(ps, 1, i)) <= x.cut}
                    k    == Cardinality(fits) IN
                /\ x.pairs = SubSeq(ps, 1, k)
                /\ x.err = (x.cut >= 0 /\ x.cut # BigBytes(SubSeq(ps, 1, k))))
        /\ UNCHANGED strm
EDumpBig == /\ Is("dumpbig")
            /\ Chk("dump-write", ~E.err /\ E.n = BigBytes(E.set) /\ E.len = E.n)
            /\ Chk("counts", E.entries = Len(E.set) /\ E.bytes = BigBytes(E.set))
            /\ Chk("dump-read", ~E.err2 /\ E.m = E.n)
            /\ Chk("dump-contents", E.back = E.set)
            /\ UNCHANGED strm

Elems(s) == {s[i] : i \in 1..Len(s)}
(* the entries of a store, dumped *)
EDump == /\ Is("dump")
         /\ LET r == ReadPairs(E.b) IN
            Chk("dump-write", ~E.err /\ E.n = Len(E.b) /\ ~r.cut /\ Len(r.pairs) = Len(E.set) /\ Elems(r.pairs) = Elems(E.set))
         /\ Chk("counts", E.entries = Len(E.set) /\ E.bytes = PairBytes(E.set))
         /\ UNCHANGED strm
EDumpFull == /\ Is("dumpfull")
             /\ Chk("dump-write-error", E.err = (E.set # <<>>))
             /\ UNCHANGED strm
(* a dump to a file which may have so many bytes: either everything is there, or it says so *)
EDumpRoom == /\ Is("dumproom")
             /\ LET r == ReadPairs(E.b) IN
                Chk("dump-room", /\ E.err = (E.room < PairBytes(E.set))
                                 /\ ~E.err => E.n = Len(E.b) /\ ~r.cut /\ Len(r.pairs) = Len(E.set)
                                 /\ Elems(r.pairs) \subseteq Elems(E.set))
             /\ UNCHANGED strm
(* a stream file of limited size: the writes up to the first which does not fit succeed, and that one fails *)
ESRoom == /\ Is("sroom")
          /\ LET fits == {i \in 1..Len(E.pairs) : PairBytes(SubSeq(E.pairs, 1, i)) <= E.room}
                 k == Cardinality(fits) IN
             /\ Chk("stream-write-error", \A i \in 1..(IF k < Len(E.pairs) THEN k + 1 ELSE k) : E.errs[i] = (i \notin fits))
             /\ Chk("stream-data", k <= Len(ReadPairs(E.b).pairs) /\ SubSeq(ReadPairs(E.b).pairs, 1, k) = SubSeq(E.pairs, 1, k))
          /\ UNCHANGED strm
(* random pairs: the same for the same parameters, as many as asked for, within the limits *)
ESRand == /\ Is("srand")
          /\ Chk("random-stream",
               /\ ~E.err /\ E.a = E.b
               /\ Len(E.a) = (IF E.stop > 0 /\ (E.n = 0 \/ E.stop < E.n) THEN E.stop ELSE E.n)
               /\ \A i \in 1..Len(E.a) : Len(E.a[i][1]) \in 1..E.mk /\ Len(E.a[i][2]) \in 1..E.mv)
          /\ UNCHANGED strm
(* restoring: the store gets the complete pairs one after the other *)
RECURSIVE Restored(_, _)
Restored(m, ps) ==
  IF ps = <<>> THEN m
  ELSE LET k == Head(ps)[1] v == Head(ps)[2] IN
       Restored(IF v = <<>> THEN {x \in m : x[1] # k} ELSE {x \in m : x[1] # k} \cup {<<k, v>>}, Tail(ps))
EUndump == /\ Is("undump")
           /\ LET r == ReadPairs(E.b) IN
              /\ Chk("dump-read", E.err = r.cut /\ (~E.err => E.n = Len(E.b)))
              /\ Chk("dump-contents", Elems(E.set) = Restored(Elems(E.before), r.pairs) /\ Cardinality(Elems(E.set)) = Len(E.set))
           /\ UNCHANGED strm

Same == Is("same") /\ Chk(E.name, E.a = E.b) /\ UNCHANGED strm
(* lengths are written with 16 bits: of E.n symbols, encoded *)
EncLen(n, ar) == IF n = 0 THEN 0 ELSE IF ar = 256 THEN n ELSE 1 + (n + PerByte(ar) - 1) \div PerByte(ar)
EOversize == /\ Is("oversize")
             /\ Chk(E.name, IF EncLen(E.n, E.ar) > 65535 THEN E.refused ELSE ~E.refused /\ E.same)
             /\ UNCHANGED strm
Refuse == Is("refuse") /\ Chk(E.name, E.acc = 0) /\ UNCHANGED strm
Panic == Is("panic") /\ Chk("panic", FALSE) /\ UNCHANGED strm

Next == \/ EUnpack \/ EEnc \/ EPack \/ EDec \/ ENodeWrite \/ ENodeRead \/ EProofWrite \/ EWriteBad \/ EProofRead
        \/ ENew \/ EWrite \/ EStats \/ EData \/ EFull \/ EWFull \/ ECommRead \/ ECommEqual \/ EBig \/ EDumpBig \/ ERead \/ ERaw \/ EDump \/ EDumpFull \/ EDumpRoom \/ ESRoom \/ ESRand \/ EUndump
        \/ EOversize \/ Same \/ Refuse \/ Panic
Spec == Init /\ [][Next]_vars
=============================================================================
