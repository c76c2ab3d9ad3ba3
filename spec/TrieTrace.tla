----------------------------- MODULE TrieTrace -----------------------------
(***************************************************************************)
(* Trace specification of tries, their stores and readers.                 *)
(*                                                                         *)
(* A document holds many recorded executions of the real library; each of  *)
(* them is one behaviour of this specification (one initial state each).   *)
(* The state is the abstract one: for each trie object the contents it     *)
(* shows (cur), the contents at its last commit (com) and its store; for   *)
(* each store the contents of the trie persisted in it.  Every operation   *)
(* is an action on that state; every observation logged by the driver      *)
(* (root commitments, nodes, records of the store, ...) is compared with   *)
(* what the specification says about that state.  The state never depends  *)
(* on what was observed, so a rejected observation does not stop the       *)
(* trace: all of them are reported.                                        *)
(*                                                                         *)
(* Hashes are uninterpreted: the relation between contents and roots,      *)
(* nodes and commitments, values and terminal commitments has to be        *)
(* functional and (up to PadRootTerm) injective.                           *)
(***************************************************************************)
EXTENDS Radix, Keys, Json, IOUtils

Doc == JsonDeserialize(IOEnv.VTRACE)
Traces == Doc.traces
CheckSet == Range(Doc.chk)

VARIABLES t,        \* index of the trace
          l,        \* position of the next event
          objs,     \* object id -> [ar, hs, opt, md, s, cur, com]
          stores,   \* store id -> contents persisted
          digs,     \* store id -> digest of the store since the last persist ("" unknown)
          roots     \* set of <<class, contents, root>> observed
vars == <<t, l, objs, stores, digs, roots>>

NoFun == [x \in {} |-> <<>>]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
Is(kind) == More /\ E.e = kind /\ l' = l + 1 /\ t' = t

(* A named check: reports a rejection, never disables the step *)
Chk(name, cond) ==
  IF name \notin CheckSet THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o name)
Known(name, cond) ==
  IF cond THEN PrintT("KNOWN " \o ToString(t) \o " " \o ToString(l) \o " " \o name) ELSE TRUE

Class(md, ar, hs) == <<md, ar, hs>>
PadSize(md, hs) == IF md = "kzg" THEN 0 ELSE hs

(* the value a key is committed with: key commitments commit to the unpacked key *)
Eff(k, v, ar, opt) == IF v = <<>> THEN <<>> ELSE IF opt /\ v = k THEN Unpack(k, ar) ELSE v

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ objs = NoFun /\ stores = NoFun /\ digs = NoFun
        /\ roots = {}

NewStore == /\ Is("store")
            /\ stores' = With(stores, E.s, EmptyC)
            /\ digs' = With(digs, E.s, "")
            /\ UNCHANGED <<objs, roots>>

Open == /\ Is("open")
        /\ objs' = With(objs, E.o, [ar |-> E.ar, hs |-> E.hs, opt |-> E.opt, md |-> E.md, s |-> E.s,
                                    cur |-> stores[E.s], com |-> stores[E.s]])
        /\ UNCHANGED <<stores, digs, roots>>

(* Update and Delete through any entry point *)
Update ==
  /\ Is("upd")
  /\ LET ob == objs[E.o] IN
     objs' = [objs EXCEPT ![E.o].cur = Put(ob.cur, Unpack(E.k, ob.ar), Eff(E.k, E.v, ob.ar, ob.opt))]
  /\ Chk("buffer-unmodified", E.same)
  /\ UNCHANGED <<stores, digs, roots>>

Commit == /\ Is("commit")
          /\ objs' = [objs EXCEPT ![E.o].com = objs[E.o].cur]
          /\ UNCHANGED <<stores, digs, roots>>

(* Persist writes what was committed last (the driver persists only committed tries) *)
(* and tells how many records it wrote and removed *)
Persist == /\ Is("persist")
           /\ Chk("persist-count", E.n = E.w)
           /\ stores' = [stores EXCEPT ![objs[E.o].s] = objs[E.o].com]
           /\ digs' = [digs EXCEPT ![objs[E.o].s] = IF objs[E.o].com = stores[objs[E.o].s] THEN @ ELSE ""]
           /\ UNCHANGED <<objs, roots>>

(* the buffered changes of an object are written to a copy of its store *)
PersistTo == /\ Is("persistto")
             /\ stores' = With(stores, E.s2, objs[E.o].com)
             /\ digs' = With(digs, E.s2, "")
             /\ UNCHANGED <<objs, roots>>

Clear == /\ Is("clear")
         /\ LET c == stores[objs[E.o].s] IN objs' = [objs EXCEPT ![E.o].cur = c, ![E.o].com = c]
         /\ UNCHANGED <<stores, digs, roots>>

Clone == /\ Is("clone")
         /\ objs' = With(objs, E.o2, objs[E.o])
         /\ UNCHANGED <<stores, digs, roots>>

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
KidSet(n) == {n.cc[i][1] : i \in 1..Len(n.cc)}
Shape(n) == [key |-> n.key, pf |-> n.pf, kids |-> KidSet(n), term |-> n.t # <<>>]
CanonShape(C) == {[key |-> n.key, pf |-> n.pf, kids |-> n.kids, term |-> n.term # <<>>] : n \in Canon(C)}

NodeOf(ns, key) == CHOOSE i \in 1..Len(ns) : ns[i].key = key
HasN(ns, key) == \E i \in 1..Len(ns) : ns[i].key = key

ShapeOK(C, ns) == {Shape(ns[i]) : i \in 1..Len(ns)} = CanonShape(C) /\ Cardinality(Canon(C)) = Len(ns)

(* every child commitment is the commitment of that child, the root is that of the root node *)
MerkleOK(ns, root) ==
  LET ix == [k \in {ns[i].key : i \in 1..Len(ns)} |-> NodeOf(ns, k)] IN
  /\ (ns = <<>>) = (root = "")
  /\ ns # <<>> => (<<>> \in DOMAIN ix /\ ns[ix[<<>>]].c = root)
  /\ \A i \in 1..Len(ns) : \A j \in 1..Len(ns[i].cc) :
       LET ck == ns[i].key \o ns[i].pf \o <<ns[i].cc[j][1]>> IN
       ck \in DOMAIN ix /\ ns[ix[ck]].c = ns[i].cc[j][2]

(* terminals: the terminal commitment at the end of the path of each key is the one which the *)
(* library computes for the value of that key; that relation is judged by event "tables"       *)
TermRows == {<<Doc.terms[j].cl, Doc.terms[j].v, Doc.terms[j].t>> : j \in 1..Len(Doc.terms)}
TermsOK(C, ns, cl) ==
  \A i \in 1..Len(ns) :
    ns[i].t = <<>> \/
    LET p == ns[i].key \o ns[i].pf IN
    /\ p \in DOMAIN C
    /\ <<cl, C[p], ns[i].t>> \in TermRows

TermClass(md, hs) == <<md, hs>>

(* The other weakness recorded in KNOWN_FINDINGS: data which does not fit is hashed, data which *)
(* fits is not, so the hash of the former can be put in its place.  The rows are the hashes     *)
(* which the driver has put into play.                                                          *)
HashRows == {<<Doc.hashes[i].hs, Doc.hashes[i].x, Doc.hashes[i].h>> : i \in 1..Len(Doc.hashes)}
HPad(s, hs) == Pad(IF \E r \in HashRows : r[1] = hs /\ r[2] = s THEN (CHOOSE r \in HashRows : r[1] = hs /\ r[2] = s)[3] ELSE s, hs)
RECURSIVE HPadTermAt(_, _, _)
HPadTermAt(N, key, hs) ==
  LET n == NodeAt(N, key)
  IN <<HPad(n.pf, hs), HPad(n.term, hs), {<<c, HPadTermAt(N, FullPath(n) \o <<c>>, hs)>> : c \in n.kids}>>
HPadRootTerm(C, hs) == IF DOMAIN C = {} THEN <<>> ELSE HPadTermAt(Canon(C), <<>>, hs)

(***************************************************************************)
(* The tables: all distinct node data and all distinct values seen in all  *)
(* traces, with the commitments the library computed for them.             *)
(***************************************************************************)
NRows == {Doc.nodes[i] : i \in 1..Len(Doc.nodes)}
TRows == {Doc.terms[i] : i \in 1..Len(Doc.terms)}
NForm(r) == <<Pad(r.pf, PadSize(r.cl[1], r.cl[3])), r.cc, Pad(r.t, PadSize(r.cl[1], r.cl[3]))>>
TForm(r) == Pad(r.v, PadSize(r.cl[1], r.cl[2]))
HNForm(r) == <<HPad(r.pf, PadSize(r.cl[1], r.cl[3])), r.cc, Pad(r.t, PadSize(r.cl[1], r.cl[3]))>>
HTForm(r) == HPad(r.v, PadSize(r.cl[1], r.cl[2]))
NodeFunctionOK == Cardinality({<<r.cl, r.pf, r.cc, r.t>> : r \in NRows}) = Cardinality({<<r.cl, r.pf, r.cc, r.t, r.c>> : r \in NRows})
NodeInjStrict  == Cardinality({<<r.cl, r.c>> : r \in NRows}) = Cardinality({<<r.cl, r.pf, r.cc, r.t, r.c>> : r \in NRows})
NodeInjPad     == Cardinality({<<r.cl, r.c>> : r \in NRows}) = Cardinality({<<r.cl, NForm(r), r.c>> : r \in NRows})
NodeInjOK      == NodeInjPad \/ Cardinality({<<r.cl, r.c>> : r \in NRows}) = Cardinality({<<r.cl, HNForm(r), r.c>> : r \in NRows})
TermFunctionOK == Cardinality({<<r.cl, r.v>> : r \in TRows}) = Cardinality({<<r.cl, r.v, r.t>> : r \in TRows})
TermInjStrict  == Cardinality({<<r.cl, r.t>> : r \in TRows}) = Cardinality({<<r.cl, r.v, r.t>> : r \in TRows})
TermInjPad     == Cardinality({<<r.cl, r.t>> : r \in TRows}) = Cardinality({<<r.cl, TForm(r), r.t>> : r \in TRows})
TermInjOK      == TermInjPad \/ Cardinality({<<r.cl, r.t>> : r \in TRows}) = Cardinality({<<r.cl, HTForm(r), r.t>> : r \in TRows})

SameClass(cl) == {r \in roots : r[1] = cl}
RootFnOK(cl, C, root) ==
  /\ (root = "") = (DOMAIN C = {})
  /\ \A r \in SameClass(cl) : r[2] = C => r[3] = root
(* other contents seen with the same root; with a collision-free function there are none *)
Clash(cl, C, root) == {r[2] : r \in {q \in SameClass(cl) : q[3] = root /\ q[2] # C}}
PadClash(cl, C, root, hs) == {D \in Clash(cl, C, root) : DOMAIN C # {} /\ DOMAIN D # {} /\ PadRootTerm(D, hs) = PadRootTerm(C, hs)}
HashClash(cl, C, root, hs) == {D \in Clash(cl, C, root) \ PadClash(cl, C, root, hs) :
                                 DOMAIN C # {} /\ DOMAIN D # {} /\ HPadRootTerm(D, hs) = HPadRootTerm(C, hs)}

Judge(md, ar, hs, C, root, full, ns) ==
  LET cl == Class(md, ar, hs) IN
  /\ Chk("root-function", RootFnOK(cl, C, root))
  /\ "root-injective" \in CheckSet /\ Clash(cl, C, root) # {} =>
       LET pc == PadClash(cl, C, root, PadSize(md, hs))
           hc == HashClash(cl, C, root, PadSize(md, hs)) IN
       /\ Chk("root-injective", Clash(cl, C, root) = pc \cup hc)
       /\ Known("zero-padding", pc # {})
       /\ Known("hash-as-data", hc # {})
  /\ full => /\ Chk("shape", ShapeOK(C, ns))
             /\ Chk("merkle", MerkleOK(ns, root))
             /\ Chk("terminals", TermsOK(C, ns, TermClass(md, hs)))
  /\ roots' = roots \cup {<<cl, C, root>>}

Obs == /\ Is("obs")
       /\ LET ob == objs[E.o] IN Judge(ob.md, ob.ar, ob.hs, ob.cur, E.root, E.full, E.nodes)
       /\ UNCHANGED <<objs, stores, digs>>

(* persisted state seen through a fresh reader or a fresh trie *)
RObs == /\ Is("robs")
        /\ Judge(E.md, E.ar, E.hs, stores[E.s], E.root, E.full, E.nodes)
        /\ UNCHANGED <<objs, stores, digs>>

(* a trie built from scratch *)
RECURSIVE PutAll(_, _, _, _, _)
PutAll(C, kvs, i, ar, opt) ==
  IF i > Len(kvs) THEN C
  ELSE PutAll(Put(C, Unpack(kvs[i][1], ar), Eff(kvs[i][1], kvs[i][2], ar, opt)), kvs, i + 1, ar, opt)
(* a key commitment of the empty key is refused; the state is what it was *)
Refused == /\ Is("ikcempty")
           /\ Chk("key-commitment-empty", E.refused)
           /\ UNCHANGED <<objs, stores, digs, roots>>
(* many pairs at once *)
UpdateMany ==
  /\ Is("updall")
  /\ LET ob == objs[E.o] IN objs' = [objs EXCEPT ![E.o].cur = PutAll(ob.cur, E.kvs, 1, ob.ar, ob.opt)]
  /\ UNCHANGED <<stores, digs, roots>>
Build == /\ Is("build")
         /\ Judge(E.md, E.ar, E.hs, PutAll(EmptyC, E.kvs, 1, E.ar, E.opt), E.root, FALSE, <<>>)
         /\ UNCHANGED <<objs, stores, digs>>

(* the store has exactly one record per node *)
StoreKeys == /\ Is("skeys")
             /\ LET ar == E.ar IN
                Chk("store-records", Range(E.keys) = {Encode(n.key, ar) : n \in Canon(stores[E.s])})
             /\ UNCHANGED <<objs, stores, digs, roots>>

(* the store only changes by a persist that has something to persist *)
Digest == /\ Is("digest")
          /\ Chk("store-untouched", digs[E.s] \in {"", E.d})
          /\ digs' = [digs EXCEPT ![E.s] = E.d]
          /\ UNCHANGED <<objs, stores, roots>>

(* two results recorded under the same conditions have to be equal *)
Same == /\ Is("same")
        /\ Chk(E.name, E.a = E.b)
        /\ UNCHANGED <<objs, stores, digs, roots>>

Panic == /\ Is("panic")
         /\ Chk("panic", FALSE)
         /\ UNCHANGED <<objs, stores, digs, roots>>

(***************************************************************************)
(* Proofs, reconciliation                                                  *)
(***************************************************************************)
(* the trie an event is about: an object, or the persisted state of a store *)
Subject(e) == IF e.src = "o" THEN [ar |-> objs[e.o].ar, hs |-> objs[e.o].hs, md |-> objs[e.o].md, opt |-> objs[e.o].opt, C |-> objs[e.o].cur]
              ELSE [ar |-> e.ar, hs |-> e.hs, md |-> e.md, opt |-> e.opt, C |-> stores[e.o]]

(* the search for a path, at any moment: the nodes it passes and how it ends *)
Search ==
  /\ Is("search")
  /\ LET N == Canon(Subject(E).C) IN
     Chk("search", E.way = SearchWay(N, E.uk) /\ E.end = IF N = {} THEN "none" ELSE SearchEnd(N, E.uk).ending)
  /\ UNCHANGED <<objs, stores, digs, roots>>

(* an honest proof, from a trie or a reader *)
Proof ==
  /\ Is("proof")
  /\ LET s  == Subject(E)
         C  == s.C
         uk == Unpack(E.k, s.ar)
         present == uk \in DOMAIN C
         cl == TermClass(s.md, s.hs)
     IN
     /\ Chk("proof-valid", E.valid)
     /\ Chk("proof-key", E.pk = uk /\ (DOMAIN C # {} => E.mkey = uk))
     /\ Chk("proof-claim", E.abs = ~present /\ (IF present THEN <<cl, C[uk], E.mterm>> \in TermRows ELSE E.mterm = <<>>))
     /\ Chk("proof-value", \A i \in 1..Len(E.vals) : E.vals[i][2] = (present /\ E.vals[i][1] = C[uk]))
     /\ Chk("terminal-node", IF DOMAIN C = {} THEN E.ct = ""
             ELSE LET end == SearchEnd(Canon(C), uk).node.key
                  IN \E i \in 1..Len(E.cs) : E.cs[i][1] = end /\ E.cs[i][2] = E.ct)
  /\ UNCHANGED <<objs, stores, digs, roots>>

(* what an adversary can claim when path fragments and terminals are only committed up to zero padding *)
(* and, with wh, when the hash of a long fragment can take its place                                   *)
PadOnly(pf, hs) ==
  IF Len(pf) > hs THEN {pf}
  ELSE LET b == StripZeros(pf) IN {b \o [i \in 1..j |-> 0] : j \in 0..(hs - Len(b))}
PadVariants(pf, hs, wh) ==
  PadOnly(pf, hs) \cup
  (IF wh THEN UNION {PadOnly(r[3], hs) : r \in {q \in HashRows : q[1] = hs /\ q[2] = pf}}
              \cup {r[2] : r \in {q \in HashRows : q[1] = hs /\ Pad(q[3], hs) = Pad(pf, hs)}} ELSE {})
Form(s, hs, wh) == IF wh THEN HPad(s, hs) ELSE Pad(s, hs)
RECURSIVE PadWalk(_, _, _, _, _)
PadWalk(N, pos, r, hs, wh) ==
  LET n == NodeAt(N, pos) IN
  UNION { IF r = p THEN {[abs |-> FALSE, term |-> n.term]} \cup (IF Pad(n.term, hs) = <<>> THEN {[abs |-> TRUE, term |-> <<>>]} ELSE {})
          ELSE IF ~IsPrefixOf(p, r) \/ r[Len(p) + 1] \notin n.kids THEN {[abs |-> TRUE, term |-> <<>>]}
          ELSE PadWalk(N, FullPath(n) \o <<r[Len(p) + 1]>>, Drop(r, Len(p) + 1), hs, wh)
        : p \in PadVariants(n.pf, hs, wh) }

(* an arbitrary proof object which validates against the root of the subject *)
Adversary ==
  /\ Is("adv")
  /\ LET s == Subject(E)
         C == s.C
         cl == TermClass(s.md, s.hs)
         k == E.mkey
         true == IF E.abs THEN k \notin DOMAIN C ELSE k \in DOMAIN C /\ <<cl, C[k], E.mterm>> \in TermRows
         vtrue == \A i \in 1..Len(E.vacc) : k \in DOMAIN C /\ C[k] = E.vacc[i]
         outs(wh) == PadWalk(Canon(C), <<>>, k, s.hs, wh)
         pad(wh) == DOMAIN C # {} /\ \E o \in outs(wh) : o.abs = E.abs /\
                  (~E.abs => \/ Pad(o.term, s.hs) = <<>> /\ Pad(E.mterm, s.hs) = <<>>
                             \/ \E row \in TermRows : row[1] = cl /\ row[2] = o.term /\ Pad(row[3], s.hs) = Pad(E.mterm, s.hs))
         vpad(wh) == \A i \in 1..Len(E.vacc) : DOMAIN C # {} /\ \E o \in outs(wh) : ~o.abs /\ Form(o.term, s.hs, wh) = Form(E.vacc[i], s.hs, wh)
     IN IF DOMAIN C = {} THEN Chk("sound", E.abs /\ E.vacc = <<>>)
        ELSE IF true /\ vtrue THEN TRUE
        ELSE IF (true \/ pad(FALSE)) /\ (vtrue \/ vpad(FALSE)) THEN Known("zero-padding", TRUE)
        ELSE IF (true \/ pad(TRUE)) /\ (vtrue \/ vpad(TRUE)) THEN Known("hash-as-data", TRUE)
        ELSE Chk("sound", FALSE)
  /\ UNCHANGED <<objs, stores, digs, roots>>

Reconcile ==
  /\ Is("recon")
  /\ LET ob == objs[E.o]
         bad == {i \in 1..Len(E.kvs) : LET uk == Unpack(E.kvs[i][1], ob.ar) IN
                   ~(uk \in DOMAIN ob.cur /\ ob.cur[uk] = Eff(E.kvs[i][1], E.kvs[i][2], ob.ar, ob.opt))}
     IN Chk("reconcile", Len(E.res) = Cardinality(bad) /\ Range(E.res) = {E.kvs[i][1] : i \in bad})
  /\ UNCHANGED <<objs, stores, digs, roots>>

(* a KZG proof of inclusion: E.given, and then the verdicts *)
KProof ==
  /\ Is("kproof")
  /\ LET s == Subject(E)
         present == E.k \in DOMAIN s.C
     IN
     /\ Chk("kzg-inclusion", E.given = present)
     /\ E.given /\ present =>
          /\ Chk("kzg-valid", E.valid)
          /\ Chk("kzg-key", E.pk = E.k)
          /\ Chk("kzg-value", \A i \in 1..Len(E.vals) : E.vals[i][2] = (E.vals[i][1] = s.C[E.k]))
          /\ Chk("kzg-roundtrip", E.rt)
  /\ UNCHANGED <<objs, stores, digs, roots>>

(* a manipulated proof object must not be accepted *)
(* something is written to media which have room for so many bytes each *)
WFull == /\ Is("wfull")
         /\ Chk(E.name, \A i \in 1..Len(E.rooms) :
                /\ E.errs[i] = (E.rooms[i] < Len(E.out))
                /\ E.outs[i] = SubSeq(E.out, 1, IF E.rooms[i] < Len(E.out) THEN E.rooms[i] ELSE Len(E.out)))
         /\ UNCHANGED <<objs, stores, digs, roots>>
Refuse == /\ Is("refuse")
          /\ Chk(E.name, E.acc = 0)
          /\ UNCHANGED <<objs, stores, digs, roots>>

(***************************************************************************)
(* Batched updates of a database with a partition of values and one of the *)
(* trie.  Here the contents are those of the partition of values: packed   *)
(* keys.  stores[s]: what is in the database and what is durable, that is, *)
(* flushed; objs[o].cur: what has to be there after the next commit.       *)
(* E.fault says which call of the database has failed in the course of the *)
(* operation ("-applied": it took effect nevertheless).                    *)
(***************************************************************************)
ConvC(K, ar, opt) == [u \in {Unpack(k, ar) : k \in DOMAIN K} |->
                        LET k == CHOOSE x \in DOMAIN K : Unpack(x, ar) = u IN Eff(k, K[k], ar, opt)]
PairsC(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> LET i == CHOOSE j \in 1..Len(ps) : ps[j][1] = k IN ps[i][2]]

UStore == /\ Is("ustore")
          /\ stores' = With(stores, E.s, [db |-> EmptyC, dur |-> EmptyC])
          /\ UNCHANGED <<objs, digs, roots>>
(* a new updater on what is in the database: also after a crash *)
UOpen == /\ Is("uopen")
         /\ objs' = With(objs, E.o, [ar |-> E.ar, hs |-> E.hs, opt |-> E.opt, md |-> E.md, s |-> E.s, cur |-> stores[E.s].db, com |-> EmptyC])
         /\ UNCHANGED <<stores, digs, roots>>
(* the process or the machine stops: in the second case what was not flushed may be lost *)
UCrash == /\ Is("ucrash")
          /\ stores' = [stores EXCEPT ![E.s] = IF E.lose THEN [db |-> @.dur, dur |-> @.dur] ELSE [db |-> @.db, dur |-> @.db]]
          /\ UNCHANGED <<objs, digs, roots>>
UUpdate == /\ Is("uupd")
           /\ Chk("batch-reported", E.err = (E.fault # ""))
           /\ objs' = IF E.err THEN objs ELSE [objs EXCEPT ![E.o].cur = Put(@, E.k, E.v)]
           /\ UNCHANGED <<stores, digs, roots>>
UCommit == /\ Is("ucommit")
           /\ Chk("batch-reported", E.err = (E.fault # ""))
           /\ LET ob == objs[E.o] IN
              stores' = [stores EXCEPT ![ob.s] =
                CASE E.fault = "" -> [db |-> ob.cur, dur |-> ob.cur]
                  [] E.fault \in {"commit-applied", "flush"} -> [db |-> ob.cur, dur |-> @.dur]
                  [] E.fault = "flush-applied" -> [db |-> ob.cur, dur |-> ob.cur]
                  [] OTHER -> @]
           /\ UNCHANGED <<objs, digs, roots>>
(* what is in the database: after each of its changes, and after each operation *)
USnap == /\ Is("usnap")
         /\ LET ob == objs[E.o]
                K == PairsC(E.vals)
                C == ConvC(K, ob.ar, ob.opt)
            IN /\ Chk("batch-boundary", K = stores[ob.s].db \/ (E.in = "commit" /\ K = ob.cur))
               /\ Chk("batch-trie", Len(E.tkeys) = Cardinality(Canon(C)) /\ Range(E.tkeys) = {Encode(n.key, ob.ar) : n \in Canon(C)})
               /\ Judge(ob.md, ob.ar, ob.hs, C, E.root, E.full, E.nodes)
         /\ UNCHANGED <<objs, stores, digs>>

Tables == /\ Is("tables")
          /\ Chk("node-function", NodeFunctionOK)
          /\ Chk("node-injective", NodeInjOK)
          /\ Chk("term-function", TermFunctionOK)
          /\ Chk("term-injective", TermInjOK)
          /\ ("node-injective" \in CheckSet) => Known("zero-padding", NodeInjPad /\ ~NodeInjStrict)
          /\ ("node-injective" \in CheckSet) => Known("hash-as-data", NodeInjOK /\ ~NodeInjPad)
          /\ ("term-injective" \in CheckSet) => Known("zero-padding", TermInjPad /\ ~TermInjStrict)
          /\ ("term-injective" \in CheckSet) => Known("hash-as-data", TermInjOK /\ ~TermInjPad)
          /\ UNCHANGED <<objs, stores, digs, roots>>

Next == \/ UStore \/ UOpen \/ UCrash \/ UUpdate \/ UCommit \/ USnap
        \/ Tables \/ Search \/ Proof \/ Adversary \/ Reconcile \/ KProof \/ Refuse \/ WFull \/ NewStore \/ Open \/ Update \/ Refused \/ UpdateMany \/ Commit \/ Persist \/ PersistTo \/ Clear \/ Clone
        \/ Obs \/ RObs \/ Build \/ StoreKeys \/ Digest \/ Same \/ Panic

Spec == Init /\ [][Next]_vars
=============================================================================
