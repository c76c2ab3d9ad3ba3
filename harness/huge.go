package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// Tries of thousands of keys, recorded with opaque contents (HugeTrace.tla).

func init() {
	for id, chk := range map[string][]string{
		"C01huge": {"root-function"},
		"C03huge": {"store-records", "root-function"},
		"C04huge": {"store-untouched", "root-function"},
		"C05huge": {"root-function", "store-records", "store-untouched"},
		"C06huge": {"proof-valid"},
		"C10huge": {"reconcile"},
		"C11huge": {"batch-reported", "batch-boundary", "root-function", "store-records"},
		"C19huge": {"root-function", "store-records"},
		"C20huge": {"root-function", "store-records", "store-untouched"},
	} {
		id := id
		suites[id] = suite{chk: append(chk, "panic"), spec: "HugeTrace",
			run: func(seed int64, tier string, rec *recorder) []Trace {
				return runJobs(histJobs(seed, id, scale(tier, 6, 36), func(w *world, r rng, i int) {
					if i%6 >= 4 {
						longTrace(w, r, id, tier)
						return
					}
					hugeTrace(w, r, i, id, tier)
				}), rec)
			}}
	}
}

func (c contents) id() string {
	if len(c) == 0 {
		return "empty"
	}
	var buf []byte
	n := func(b []byte) {
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(len(b)))
		buf = append(append(buf, l[:]...), b...)
	}
	for _, p := range c.sorted() {
		n(p[0])
		n(p[1])
	}
	h := trie.Blake2b160(buf)
	return fmt.Sprintf("%x", h[:10])
}

// huge is one trie of many keys, and what it should contain
type huge struct {
	w        *world
	r        rng
	c        Cfg
	o        int
	tr       *trie.Trie
	m        trie.CommitmentModel
	cur, com contents
	pending  map[string]string
	pool     [][]byte
	dirty    bool
}

func (h *huge) val() []byte {
	n := 1 + h.r.Intn(12)
	if h.r.chance(0.2) {
		n = 25 + h.r.Intn(60)
	}
	return h.r.bytes(n, nil)
}

// batch changes n keys: upd, del out of 10 are overwritten, deleted
func (h *huge) batch(n, upd, del int) {
	from := h.cur.id()
	have := h.cur.sorted()
	h.r.Shuffle(len(have), func(i, j int) { have[i], have[j] = have[j], have[i] })
	j := 0
	for i := 0; i < n; i++ {
		x := h.r.Intn(10)
		var k, v []byte
		switch {
		case x < upd+del && j < len(have):
			k = have[j][0]
			j++
			if x < upd {
				v = h.val()
			}
		case x < upd+del:
			continue
		default:
			k, v = h.pool[h.r.Intn(len(h.pool))], h.val()
			if h.c.Opt && len(k) > 0 && h.r.chance(0.3) {
				v = k
			}
		}
		h.put(k, v)
	}
	h.w.log("hbatch", Ev{"o": h.o, "from": from, "to": h.cur.id(), "n": n})
}

func (h *huge) put(k, v []byte) {
	if len(v) == 0 && h.r.chance(0.5) {
		h.tr.Delete(cp(k))
	} else {
		h.tr.Update(cp(k), cp(v))
	}
	h.cur.put(k, v)
	h.pending[string(k)] = string(v)
	h.dirty = true
}

func (h *huge) commit() {
	h.tr.Commit()
	h.com = h.cur.clone()
	h.dirty = false
	h.w.log("hcommit", Ev{"o": h.o, "root": rootHex(h.tr)})
}

func (h *huge) persist(s int) {
	st := h.w.stores[s]
	h.tr.PersistMutations(st.trie)
	for k, v := range h.pending {
		st.val.Set([]byte(k), []byte(v))
	}
	h.pending = map[string]string{}
	h.w.log("hpersist", Ev{"o": h.o, "s": s, "d": st.trie.digest()})
}

func (h *huge) clear(per contents) {
	h.tr.ClearCache()
	h.cur, h.com, h.dirty = per.clone(), per.clone(), false
	h.pending = map[string]string{}
	h.w.log("hclear", Ev{"o": h.o})
}

func (h *huge) clone(o2 int) *huge {
	g := *h
	g.o, g.tr = o2, h.tr.Clone()
	g.cur, g.com, g.pending = h.cur.clone(), h.com.clone(), map[string]string{}
	for k, v := range h.pending {
		g.pending[k] = v
	}
	h.w.log("hclone", Ev{"o": h.o, "o2": o2})
	return &g
}

func (h *huge) obs() { h.w.log("hobs", Ev{"o": h.o, "root": rootHex(h.tr)}) }

// readAll visits every node of the trie
func (h *huge) readAll(tr trie.NodeStore) int {
	n := 0
	var visit func(k []byte)
	visit = func(k []byte) {
		nd, ok := tr.GetNode(k)
		if !ok {
			return
		}
		n++
		for c := range nd.ChildCommitments() {
			visit(trie.Concat(k, nd.PathFragment(), c))
		}
	}
	visit(nil)
	return n
}

func (h *huge) proofs(n int) {
	m := h.m.(*trie_blake2b.CommitmentModel)
	root := trie.RootCommitment(h.tr)
	var rb []byte
	if root != nil {
		rb = root.Bytes()
	}
	items := []interface{}{}
	for i := 0; i < n; i++ {
		k := h.pool[h.r.Intn(len(h.pool))]
		if i < 5 && i < len(h.pool) {
			k = h.pool[i] // where the long ones are
		}
		v, present := h.com[string(k)]
		if present && h.c.Opt && v == string(k) && h.c.Arity != 256 {
			continue // committed as the unpacked key
		}
		p := m.Proof(cp(k), h.tr)
		said := trie_blake2b_verify.Validate(p, rb) == nil
		items = append(items, []interface{}{said, true})
		if said && len(p.Path) > 0 {
			items = append(items, []interface{}{trie_blake2b_verify.IsProofOfAbsence(p), !present})
		}
		items = append(items, []interface{}{trie_blake2b_verify.ValidateWithValue(p, rb, []byte(v)) == nil && v != "", present})
		items = append(items, []interface{}{trie_blake2b_verify.ValidateWithValue(p, rb, append([]byte(v), 'x', byte(i))) == nil, false})
		q, err := trie_blake2b.ProofFromBytes(p.Bytes())
		items = append(items, []interface{}{err == nil && (trie_blake2b_verify.Validate(q, rb) == nil) == said && bytes.Equal(q.Key, p.Key), true})
	}
	h.w.log("hproofs", Ev{"o": h.o, "id": h.com.id(), "items": items})
}

func (h *huge) reconcile() {
	st := newMemKV()
	want := contents{}
	for k, v := range h.com {
		st.Set([]byte(k), []byte(v))
		if h.r.chance(0.3) {
			st.Set([]byte(k), append([]byte(v), 1))
			want[k] = "1"
		}
	}
	for i := 0; i < 300; i++ {
		k := append(cp(h.pool[h.r.Intn(len(h.pool))]), 0xaa)
		if _, in := h.com[string(k)]; !in {
			st.Set(k, []byte{1})
			want[string(k)] = "1"
		}
	}
	got := contents{}
	for _, k := range h.tr.Reconcile(st) {
		got[string(k)] += "1"
	}
	h.w.log("hrecon", Ev{"o": h.o, "id": h.com.id(), "got": got.id(), "want": want.id()})
}

func hugePool(r rng, n int) [][]byte {
	ks := [][]byte{}
	base := r.bytes(2, nil)
	for i := 0; i < n; i++ {
		switch i % 5 {
		case 0: // dense
			ks = append(ks, []byte{base[0], byte(i >> 8), byte(i)})
		case 1: // a table of records
			ks = append(ks, append([]byte("table/"), byte(i), byte(i>>8), 'f'))
		case 2: // extends another key
			ks = append(ks, append(cp(ks[r.Intn(len(ks))]), r.bytes(1+r.Intn(3), nil)...))
		case 3:
			ks = append(ks, r.bytes(20, nil))
		case 4:
			ks = append(ks, r.bytes(1+r.Intn(3), nil))
		}
	}
	// long keys: encoded lengths and positions beyond 8, 15 and 16 bits for all arities
	long := r.bytes(60000, nil)
	for _, l := range []int{4095, 4096, 8191, 8192, 8193, 16383, 32767, 32768, 50000, 60000} {
		if r.chance(0.6) {
			k := cp(long[:l])
			if r.chance(0.5) {
				k[r.Intn(l)] ^= 1 << uint(r.Intn(8))
			}
			ks = append([][]byte{k}, ks...)
		}
	}
	return append(ks, []byte{})
}

func hugeTrace(w *world, r rng, i int, suite, tier string) {
	c := []Cfg{{Arity: 256, Hash: 20}, {Arity: 16, Hash: 32, Opt: true}, {Arity: 2, Hash: 20, Thr: 24}, {Arity: 16, Hash: 20, Thr: 30}, {Arity: 256, Hash: 32, Opt: true, Thr: 40}, {Arity: 2, Hash: 32}}[(i+int(r.Int63()%2))%6]
	c.Model = "b2b"
	n := 1500 + r.Intn(1500)
	if i%4 == 2 {
		n = 10000
	}
	if i%4 == 3 {
		n = 5000
		if tier == "thorough" {
			n = 20000 + r.Intn(20000)
		}
	}
	if c.Thr > 0 && c.Opt {
		c.Opt = c.Arity == 256 // key commitments of inner nodes of other arities are covered by C09
	}
	w.newHugeStore(1)
	w.newHugeStore(2) // a copy of store 1, which no trie reads
	mirror := func() {
		a, b := w.stores[1], &store{trie: newMemKV(), val: newMemKV()}
		a.trie.Iterate(func(k, v []byte) bool { b.trie.Set(k, v); return true })
		a.val.Iterate(func(k, v []byte) bool { b.val.Set(k, v); return true })
		w.stores[2] = b
		w.log("hcopy", Ev{"s": 1, "s2": 2, "d": b.trie.digest()})
	}
	open := func(o int) *huge {
		h := &huge{w: w, r: r, c: c, o: o, m: c.model(), cur: contents{}, com: contents{}, pending: map[string]string{}}
		h.tr = trie.New(h.m, w.stores[1].trie, w.stores[1].val, c.Opt)
		w.log("hopen", Ev{"o": o, "s": 1})
		return h
	}
	if suite == "C11huge" {
		hugeUpdater(w, r, c, n)
		return
	}
	pool := hugePool(r, n)
	h := open(1)
	h.pool = pool
	h.batch(n, 0, 0)
	for _, key := range pool[:8] {
		from := h.cur.id()
		h.put(key, h.val())
		w.log("hbatch", Ev{"o": 1, "from": from, "to": h.cur.id(), "n": 1})
	}
	h.commit()
	digest := func() { w.log("hdigest", Ev{"s": 1, "d": w.stores[1].trie.digest()}) }
	reader := func() {
		rd, _ := w.reader(1, c)
		w.log("hreader", Ev{"s": 1, "root": rootHex(rd)})
		if r.chance(0.5) {
			h.readAll(rd)
		}
	}
	build := func(k contents) {
		st, vs := newMemKV(), newMemKV()
		tr := trie.New(c.model(), st, vs, c.Opt)
		if r.chance(0.5) {
			src := newMemKV()
			for k, v := range k {
				src.Set([]byte(k), []byte(v))
			}
			tr.UpdateAll(src)
		} else {
			for j, p := range k.shuffled(r) {
				tr.Update(p[0], p[1])
				if j%1000 == 999 && r.chance(0.3) {
					tr.Commit()
				}
			}
		}
		tr.Commit()
		tr.PersistMutations(st)
		w.log("hbuild", Ev{"id": k.id(), "root": rootHex(tr), "d": st.digest()})
	}
	build(h.com)
	h.proofs(40)
	digest()
	spare := r.chance(0.5) || i%4 == 2
	if spare {
		pend := h.pending
		h.persist(2)
		h.pending = pend
	}
	if !spare || r.chance(0.5) {
		h.persist(1)
		reader()
	}
	if r.chance(0.6) || spare { // goes on without clearing
		for j := 0; j < 3; j++ {
			h.batch(n/8, 5, 2)
			if r.chance(0.3) {
				h.readAll(h.tr)
			}
			h.commit()
			h.proofs(20)
			if spare && r.chance(0.7) {
				pend := h.pending
				h.persist(2)
				h.pending = pend
				build(h.com)
			}
		}
		h.persist(1)
		reader()
	}
	per := h.com.clone()
	if r.chance(0.5) {
		h.clear(per)
	}
	if r.chance(0.7) {
		h.readAll(h.tr)
		h.obs()
	}
	// many changes, not persisted, with everything read in between
	h.batch(n/2, 4, 4)
	if r.chance(0.5) {
		h.readAll(h.tr)
	}
	g := h.clone(2)
	h.commit()
	h.readAll(h.tr)
	digest()
	h.proofs(40)
	h.reconcile()
	// the clone commits the same, or goes on
	if r.chance(0.5) {
		g.batch(n/4, 2, 6)
	}
	g.commit()
	build(g.com)
	h.obs()
	// a trie with a cold cache does what the clone has done
	k := open(3)
	k.pool = pool
	k.cur, k.com = per.clone(), per.clone()
	from := k.cur.id()
	for _, key := range uniq(append(keysOf(per), keysOf(g.com)...)) {
		if v := g.com[string(key)]; v != per[string(key)] {
			k.put(key, []byte(v))
		}
	}
	w.log("hbatch", Ev{"o": 3, "from": from, "to": k.cur.id(), "n": len(k.cur)})
	k.commit()
	digest()
	// one of them is thrown away, another one is persisted elsewhere
	h.clear(per)
	h.obs()
	k.obs()
	digest()
	mirror()
	h.batch(n/3, 3, 3)
	h.commit()
	h.batch(n/3, 3, 5)
	h.commit()
	pend := h.pending
	h.persist(2)
	h.pending = pend
	h.persist(1)
	per = h.com.clone()
	reader()
	h.batch(1, 0, 0)
	h.commit()
	h.obs()
	// almost everything is deleted, and then the rest
	h.batch(20*n, 0, 10)
	for _, key := range pool[:10] {
		from := h.cur.id()
		h.put(key, []byte{7})
		w.log("hbatch", Ev{"o": 1, "from": from, "to": h.cur.id(), "n": 1})
	}
	h.commit()
	h.persist(1)
	reader()
	build(h.com)
	h.batch(20*n, 0, 10)
	h.commit()
	h.persist(1)
	reader()
}

func keysOf(c contents) [][]byte {
	ks := [][]byte{}
	for _, p := range c.sorted() {
		ks = append(ks, p[0])
	}
	return ks
}

func (w *world) newHugeStore(s int) { w.newHugeStoreOf(s, true) }

// inj: different contents of this trace have different roots
func (w *world) newHugeStoreOf(s int, inj bool) {
	w.stores[s] = &store{trie: newMemKV(), val: newMemKV()}
	w.log("hstore", Ev{"s": s, "d": w.stores[s].trie.digest(), "inj": inj})
}

// hugeUpdater: batches of thousands of updates through the updater of a database
func hugeUpdater(w *world, r rng, c Cfg, n int) {
	db := mapdb.NewMapDB()
	tp, vp := []byte{1}, []byte{2}
	u, err := hive_adaptor.NewHiveBatchedUpdater(db, c.model(), tp, vp, c.Opt)
	if err != nil {
		panic(err)
	}
	pool := hugePool(r, n)
	cur := contents{}
	for round := 0; round < 4; round++ {
		if round == 2 { // somebody else goes on
			u, _ = hive_adaptor.NewHiveBatchedUpdater(db, c.model(), tp, vp, c.Opt)
		}
		for j := 0; j < n; j++ {
			k := pool[r.Intn(len(pool))]
			var v []byte
			if r.chance([]float64{1, 0.6, 0.4, 0.1}[round]) {
				v = r.bytes(1+r.Intn(50), nil)
			}
			u.Update(cp(k), cp(v))
			cur.put(k, v)
		}
		err := u.Commit()
		vals := contents{}
		hive_adaptor.NewHiveKVStoreAdaptor(db, vp).Iterate(func(k, v []byte) bool { vals.put(k, v); return true })
		recs := newMemKV()
		hive_adaptor.NewHiveKVStoreAdaptor(db, tp).Iterate(func(k, v []byte) bool { recs.Set(k, v); return true })
		rd := trie.NewTrieReader(c.model(), hive_adaptor.NewHiveKVStoreAdaptor(db, tp), hive_adaptor.NewHiveKVStoreAdaptor(db, vp))
		w.log("hflush", Ev{"err": err != nil, "to": cur.id(), "vals": vals.id(), "root": rootHex(rd), "d": recs.digest()})
		tr := trie.New(c.model(), newMemKV(), newMemKV(), c.Opt)
		st := newMemKV()
		for _, p := range cur.shuffled(r) {
			tr.Update(p[0], p[1])
		}
		tr.Commit()
		tr.PersistMutations(st)
		w.log("hbuild", Ev{"id": cur.id(), "root": rootHex(tr), "d": st.digest()})
	}
}

// longTrace: a few keys and thousands of operations on one trie, many commits, persists, clears,
// clones and reads. Contents come back often.
func longTrace(w *world, r rng, suite, tier string) {
	ar, hs := []int{2, 16, 256}[r.Intn(3)], []int{20, 32}[r.Intn(2)]
	c := Cfg{Model: "b2b", Arity: ar, Hash: hs, Thr: []int{0, 24}[r.Intn(2)], Opt: r.chance(0.4)}
	if c.Thr > 0 && c.Opt {
		c.Opt = c.Arity == 256
	}
	pool := genKeys(r, r.Intn(8), 9)
	if r.chance(0.5) {
		pool = append(pool, []byte{})
	}
	vals := genVals(r, 4)
	steps := 2200
	if tier == "thorough" {
		steps = 9000
	}
	// the zero padding of the hashed vectors makes different contents equal (the known finding of C02)
	inj := ar == 256
	for i := range pool {
		if inj {
			pool[i] = bytes.ReplaceAll(pool[i], []byte{0}, []byte{0x42})
		}
	}
	pool = uniq(pool)
	for i := range vals {
		if v := vals[i]; v[len(v)-1] == 0 {
			v[len(v)-1] = 9
		}
	}
	vals = uniq(vals)
	w.newHugeStoreOf(1, inj)
	if suite == "C11huge" {
		longUpdater(w, r, c, pool, vals, steps/4)
		return
	}
	h := &huge{w: w, r: r, c: c, o: 1, m: c.model(), cur: contents{}, com: contents{}, pending: map[string]string{}, pool: pool}
	h.tr = trie.New(h.m, w.stores[1].trie, w.stores[1].val, c.Opt)
	w.log("hopen", Ev{"o": 1, "s": 1})
	objs := 1
	per := contents{}
	built := map[string]bool{}
	change := func(n int) {
		from := h.cur.id()
		for ; n > 0; n-- {
			k := pool[r.Intn(len(pool))]
			var v []byte
			if r.chance(0.6) {
				v = vals[r.Intn(len(vals))]
			}
			if c.Opt && len(k) > 0 && r.chance(0.2) {
				v = k
			}
			h.put(k, v)
		}
		w.log("hbatch", Ev{"o": h.o, "from": from, "to": h.cur.id(), "n": 1})
	}
	build := func() {
		id := h.com.id()
		if built[id] {
			return
		}
		built[id] = true
		st, vs := newMemKV(), newMemKV()
		tr := trie.New(c.model(), st, vs, c.Opt)
		for _, p := range h.com.shuffled(r) {
			tr.Update(p[0], p[1])
		}
		tr.Commit()
		tr.PersistMutations(st)
		w.log("hbuild", Ev{"id": id, "root": rootHex(tr), "d": st.digest()})
	}
	for i := 0; i < steps; i++ {
		// phases: short transactions, long ones, many commits before a persist
		phase := i * 6 / steps
		x := r.Intn(100)
		switch {
		case x < 40:
			n := 1 + r.Intn(3)
			if phase == 2 || phase == 5 {
				n = 1 + r.Intn(60)
			}
			change(n)
		case x < 70:
			h.commit()
			if r.chance(0.3) {
				h.commit()
			}
			if r.chance(0.2) {
				build()
			}
		case x < 80 && (phase != 1 && phase != 4 || r.chance(0.05)):
			h.commit()
			h.persist(1)
			per = h.com.clone()
			if r.chance(0.3) {
				rd, _ := w.reader(1, c)
				w.log("hreader", Ev{"s": 1, "root": rootHex(rd)})
			}
		case x < 83 && phase != 1:
			h.clear(per)
		case x < 85: // a clone goes on, or is thrown away
			objs++
			g := h.clone(objs)
			if r.chance(0.5) {
				h, g = g, h
			}
			if r.chance(0.5) { // the other one moves on before it is forgotten
				g.tr.Update(cp(pool[r.Intn(len(pool))]), []byte{byte(i), 1})
				g.tr.Commit()
			}
		case x < 86 && phase != 1: // reopened
			objs++
			g := *h
			g.o, g.cur, g.com, g.pending, g.dirty = objs, per.clone(), per.clone(), map[string]string{}, false
			g.tr = trie.New(c.model(), w.stores[1].trie, w.stores[1].val, c.Opt)
			w.log("hopen", Ev{"o": objs, "s": 1})
			h = &g
		case x < 88 && len(per) > 0:
			h.readAll(h.tr)
			trie.GetProofGeneric(h.tr, unpackOwn(pool[r.Intn(len(pool))], c.Arity))
		case x < 89:
			h.commit()
			h.proofs(5)
		case x < 90:
			h.commit()
			h.reconcile()
		case x < 94:
			h.w.log("hdigest", Ev{"s": 1, "d": w.stores[1].trie.digest()})
		default: // roots are looked at when everything is committed
			if !h.dirty {
				h.obs()
			}
		}
	}
	h.commit()
	build()
}

// longUpdater: hundreds of commits of one updater
func longUpdater(w *world, r rng, c Cfg, pool, vals [][]byte, steps int) {
	db := mapdb.NewMapDB()
	tp, vp := []byte{1}, []byte{2, 3}
	u, err := hive_adaptor.NewHiveBatchedUpdater(db, c.model(), tp, vp, c.Opt)
	if err != nil {
		panic(err)
	}
	cur := contents{}
	built := map[string]bool{}
	for i := 0; i < steps; i++ {
		if r.chance(0.01) {
			u, _ = hive_adaptor.NewHiveBatchedUpdater(db, c.model(), tp, vp, c.Opt)
		}
		for n := r.Intn(4); n > 0; n-- {
			k := pool[r.Intn(len(pool))]
			var v []byte
			if r.chance(0.6) {
				v = vals[r.Intn(len(vals))]
			}
			if c.Opt && len(k) > 0 && r.chance(0.2) {
				v = k
			}
			u.Update(cp(k), cp(v))
			cur.put(k, v)
		}
		err := u.Commit()
		vals := contents{}
		hive_adaptor.NewHiveKVStoreAdaptor(db, vp).Iterate(func(k, v []byte) bool { vals.put(k, v); return true })
		recs := newMemKV()
		hive_adaptor.NewHiveKVStoreAdaptor(db, tp).Iterate(func(k, v []byte) bool { recs.Set(k, v); return true })
		rd := trie.NewTrieReader(c.model(), hive_adaptor.NewHiveKVStoreAdaptor(db, tp), hive_adaptor.NewHiveKVStoreAdaptor(db, vp))
		w.log("hflush", Ev{"err": err != nil, "to": cur.id(), "vals": vals.id(), "root": rootHex(rd), "d": recs.digest()})
		if id := cur.id(); !built[id] && r.chance(0.2) {
			built[id] = true
			tr := trie.New(c.model(), newMemKV(), newMemKV(), c.Opt)
			st := newMemKV()
			for _, p := range cur.shuffled(r) {
				tr.Update(p[0], p[1])
			}
			tr.Commit()
			tr.PersistMutations(st)
			w.log("hbuild", Ev{"id": id, "root": rootHex(tr), "d": st.digest()})
		}
	}
}
