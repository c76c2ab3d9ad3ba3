----------------------------- MODULE HugeTrace -----------------------------
(***************************************************************************)
(* Trace specification for tries of thousands of keys.  It is the machine  *)
(* of TrieTrace with opaque contents: the contents of a trie or store are  *)
(* an identifier (a digest of the sorted pairs, kept by the driver), and   *)
(* nothing is known about roots and stored records except what makes the   *)
(* properties: both are functions of the contents, roots are injective,    *)
(* and a commit, a persist, a clear, a clone, a read and a batch move      *)
(* contents between caches and stores exactly as in Radix.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Doc == JsonDeserialize(IOEnv.VTRACE)
Traces == Doc.traces
CheckSet == {Doc.chk[i] : i \in 1..Len(Doc.chk)}

VARIABLES t, l,
          objs,     \* object id -> [s, cur, com]: the store below, and contents with and without uncommitted changes
          sto,      \* store id -> contents persisted
          digs,     \* store id -> digest of its records when last changed
          roots,    \* <<contents, root>> observed
          recs      \* <<contents, digest of the records>> observed
vars == <<t, l, objs, sto, digs, roots, recs>>

Empty == "empty"
NoFun == [x \in {} |-> <<>>]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
Is(kind) == More /\ E.e = kind /\ l' = l + 1 /\ t' = t
Chk(name, cond) ==
  IF name \notin CheckSet THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o name)

Init == /\ t \in 1..Len(Traces) /\ l = 1
        /\ objs = NoFun /\ sto = NoFun /\ digs = NoFun
        /\ roots = {<<Empty, "">>} /\ recs = {}

(* different contents of this trace have different roots (not so with keys and values *)
(* which differ in trailing zeros, the known finding of C02)                          *)
Inj == Traces[t].ev[1].inj
(* the root r has been observed where the contents are c *)
RootOf(c, r) ==
  /\ Chk("root-function", \A x \in roots : /\ x[1] = c => x[2] = r
                                           /\ Inj /\ x[1] # c => x[2] # r)
  /\ roots' = roots \cup {<<c, r>>}
RecsOf(c, d) ==
  /\ Chk("store-records", \A x \in recs : x[1] = c => x[2] = d)
  /\ recs' = recs \cup {<<c, d>>}

HStore == /\ Is("hstore")
          /\ sto' = With(sto, E.s, Empty) /\ digs' = With(digs, E.s, E.d)
          /\ RecsOf(Empty, E.d)
          /\ UNCHANGED <<objs, roots>>
HOpen == /\ Is("hopen")
         /\ objs' = With(objs, E.o, [s |-> E.s, cur |-> sto[E.s], com |-> sto[E.s]])
         /\ UNCHANGED <<sto, digs, roots, recs>>
(* a batch of updates and deletions which leads from contents E.from to contents E.to *)
HBatch == /\ Is("hbatch")
          /\ Assert(objs[E.o].cur = E.from, "the driver has lost track")
          /\ objs' = [objs EXCEPT ![E.o].cur = E.to]
          /\ UNCHANGED <<sto, digs, roots, recs>>
HCommit == /\ Is("hcommit")
           /\ objs' = [objs EXCEPT ![E.o].com = objs[E.o].cur]
           /\ RootOf(objs[E.o].cur, E.root)
           /\ UNCHANGED <<sto, digs, recs>>
HObs == /\ Is("hobs")
        /\ RootOf(objs[E.o].com, E.root)
        /\ UNCHANGED <<objs, sto, digs, recs>>
HPersist == /\ Is("hpersist")
            /\ sto' = With(sto, E.s, objs[E.o].com) /\ digs' = With(digs, E.s, E.d)
            /\ RecsOf(objs[E.o].com, E.d)
            /\ UNCHANGED <<objs, roots>>
(* the driver copies the records and values of a store *)
HCopy == /\ Is("hcopy")
         /\ Chk("store-untouched", digs[E.s] = E.d)
         /\ sto' = With(sto, E.s2, sto[E.s]) /\ digs' = With(digs, E.s2, E.d)
         /\ UNCHANGED <<objs, roots, recs>>
HReader == /\ Is("hreader")
           /\ RootOf(sto[E.s], E.root)
           /\ UNCHANGED <<objs, sto, digs, recs>>
HClear == /\ Is("hclear")
          /\ objs' = [objs EXCEPT ![E.o].cur = sto[objs[E.o].s], ![E.o].com = sto[objs[E.o].s]]
          /\ UNCHANGED <<sto, digs, roots, recs>>
HClone == /\ Is("hclone")
          /\ objs' = With(objs, E.o2, objs[E.o])
          /\ UNCHANGED <<sto, digs, roots, recs>>
HDigest == /\ Is("hdigest")
           /\ Chk("store-untouched", digs[E.s] = E.d)
           /\ UNCHANGED <<objs, sto, digs, roots, recs>>
(* a trie built at once from the contents E.id *)
HBuild == /\ Is("hbuild")
          /\ RootOf(E.id, E.root) /\ RecsOf(E.id, E.d)
          /\ UNCHANGED <<objs, sto, digs>>
(* verdicts about keys of the contents E.id: <<what was said, what is true>> *)
HProofs == /\ Is("hproofs")
           /\ Assert(E.id = objs[E.o].com, "the driver has lost track")
           /\ Chk("proof-valid", \A i \in 1..Len(E.items) : E.items[i][1] = E.items[i][2])
           /\ UNCHANGED <<objs, sto, digs, roots, recs>>
(* a store with more or other pairs than the trie: keys reported, keys which differ *)
HRecon == /\ Is("hrecon")
          /\ Assert(E.id = objs[E.o].com, "the driver has lost track")
          /\ Chk("reconcile", E.got = E.want)
          /\ UNCHANGED <<objs, sto, digs, roots, recs>>
(* a commit of a batched updater: everything is in the database, values and records *)
HFlush == /\ Is("hflush")
          /\ Chk("batch-reported", ~E.err)
          /\ Chk("batch-boundary", E.vals = E.to)
          /\ RootOf(E.to, E.root) /\ RecsOf(E.to, E.d)
          /\ UNCHANGED <<objs, sto, digs>>
Panic == /\ Is("panic") /\ Chk("panic", FALSE) /\ UNCHANGED <<objs, sto, digs, roots, recs>>

Next == \/ HStore \/ HOpen \/ HBatch \/ HCommit \/ HObs \/ HPersist \/ HReader \/ HClear \/ HClone \/ HDigest \/ HCopy
        \/ HBuild \/ HProofs \/ HRecon \/ HFlush \/ Panic
Spec == Init /\ [][Next]_vars
=============================================================================
