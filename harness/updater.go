package main

import (
	"errors"
	"fmt"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	trieSuite("C11", 120, 4000, []string{"batch-reported", "batch-boundary", "batch-trie", "batch-rest", "root-function", "shape", "merkle", "terminals"}, updaterTrace)
}

// upd8 is a batched updater over a database which can fail
type upd8 struct {
	c       Cfg
	u       *hive_adaptor.HiveBatchedUpdater
	db      *faultDB // the flat database
	kvs     kvstore.KVStore
	durable map[string][]byte
	tp, vp  []byte
	rest    map[string][]byte // records of others
	o, s    int
	in      string
	w       *world
}

func copyMap(m map[string][]byte) map[string][]byte {
	r := map[string][]byte{}
	for k, v := range m {
		r[k] = cp(v)
	}
	return r
}

func (a *upd8) open() {
	shared := oneArray(a.tp, a.vp)
	u, err := hive_adaptor.NewHiveBatchedUpdater(a.kvs, a.c.model(), shared[0], shared[1], a.c.Opt)
	if err != nil {
		panic(err)
	}
	a.u = u
	a.w.log("uopen", Ev{"o": a.o, "s": a.s, "ar": a.c.Arity, "hs": a.c.Hash, "opt": a.c.Opt, "md": a.c.Model, "thr": a.c.Thr})
}

// snap records what is in the database
func (a *upd8) snap(full bool) {
	db := a.db
	has := func(k string, p []byte) bool { return len(k) >= len(p) && k[:len(p)] == string(p) }
	vals, tkeys := []interface{}{}, []interface{}{}
	tst, vst := newMemKV(), newMemKV()
	rest := 0
	same := true
	for _, k := range db.sorted("") {
		switch {
		case has(k, a.tp):
			tkeys = append(tkeys, ints([]byte(k[len(a.tp):])))
			tst.m[k[len(a.tp):]] = cp(db.m[k])
		case has(k, a.vp):
			vals = append(vals, []interface{}{ints([]byte(k[len(a.vp):])), ints(db.m[k])})
			vst.m[k[len(a.vp):]] = cp(db.m[k])
		default:
			rest++
			same = same && string(a.rest[k]) == string(db.m[k])
		}
	}
	m := a.c.model()
	var tr *trie.TrieReader
	root := ""
	nodes := []Ev{}
	if try(func() {
		tr = trie.NewTrieReader(m, tst, vst)
		root = rootHex(tr)
		if full {
			nodes = a.w.walkNodes(a.c, m, tr, 5000)
		}
	}) {
		// what is there is not even a trie
		root = "unreadable"
	}
	a.w.log("usnap", Ev{"o": a.o, "in": a.in, "vals": vals, "tkeys": tkeys, "root": root, "full": full && root != "unreadable", "nodes": nodes})
	if !same || rest != len(a.rest) {
		a.w.log("same", Ev{"name": "batch-rest", "a": 1, "b": 0})
	}
}

// guarded runs an operation with the given fault; it tells whether it has reported failure
// and which fault took place
func (a *upd8) guarded(fm *faultMode, f func() error) (failed, panicked bool, fault string) {
	if fm != nil {
		*a.db.fm = *fm
	}
	n := *a.db.fired
	var err error
	panicked = try(func() { err = f() })
	failed = panicked || err != nil
	if *a.db.fired != n {
		fault = fm.op
		if fm.after {
			fault += "-applied"
		}
	}
	*a.db.fm = faultMode{}
	return
}

func (a *upd8) update(k, v []byte, fm *faultMode) (panicked bool) {
	a.in = "update"
	kk, vv := cp(k), cp(v)
	failed, p, fault := a.guarded(fm, func() error { a.u.Update(kk, vv); return nil })
	a.w.scribble = true
	a.w.clobber(kk, vv)
	a.w.log("uupd", Ev{"o": a.o, "k": ints(k), "v": ints(v), "err": failed, "fault": fault})
	a.in = ""
	return p
}

func (a *upd8) commit(fm *faultMode) (failed, panicked bool) {
	a.in = "commit"
	failed, p, fault := a.guarded(fm, func() error { return a.u.Commit() })
	a.in = ""
	a.w.log("ucommit", Ev{"o": a.o, "err": failed, "fault": fault})
	return failed, p
}

func (a *upd8) crash(lose bool) {
	if lose {
		a.db.m = copyMap(a.durable)
	} else {
		a.durable = copyMap(a.db.m)
	}
	a.w.log("ucrash", Ev{"s": a.s, "lose": lose})
	a.open()
}

func newUpd8(w *world, c Cfg, o, s int, tp, vp []byte, rest map[string][]byte) *upd8 {
	a := &upd8{w: w, c: c, o: o, s: s, tp: tp, vp: vp, db: newFaultDB(), rest: rest}
	a.kvs = a.db
	a.db.m = copyMap(rest)
	a.durable = copyMap(rest)
	a.db.onFlushed = func() { a.durable = copyMap(a.db.m) }
	w.log("ustore", Ev{"s": s})
	a.open()
	a.db.onWrite = func() { a.snap(false) }
	return a
}

func updaterTrace(w *world, r rng, i int) {
	c := randCfg(r)
	keys, vals := pickKV(r, i, c)
	m := c.model()
	for _, v := range vals {
		w.rec.term(c, m, v)
	}
	for _, k := range keys {
		w.rec.term(c, m, k)
		w.rec.term(c, m, unpackOwn(k, c.Arity))
	}
	tps := [][]byte{{1}, {0xff}, {2, 0, 0}, {0}, []byte("trie")}
	vps := [][]byte{{2, 1}, {3}, {0xfe}, []byte("v")}
	tp := tps[r.Intn(len(tps))]
	vp := vps[r.Intn(4)]
	rest := map[string][]byte{}
	for n := r.Intn(3); n > 0; n-- {
		rest[string(r.bytes(2, []byte{7, 8}))] = []byte{byte(n)}
	}
	if i%6 == 5 {
		updaterMapDB(w, r, c, keys, vals, tp, vp)
		return
	}
	a := newUpd8(w, c, 1, 1, tp, vp, rest)
	cur := contents{}
	fm := func(update bool) *faultMode {
		if !r.chance(0.4) {
			return nil
		}
		f := &faultMode{after: r.chance(0.3)}
		if r.chance(0.2) {
			f.err = kvstore.ErrStoreClosed
		} else if r.chance(0.2) {
			f.err = fmt.Errorf("write: %w", errors.New("no space"))
		}
		if update {
			f.op = []string{"batched", "batchset", "get"}[r.Intn(3)]
			f.after = false
			f.skip = r.Intn(4)
			return f
		}
		switch x := r.Intn(10); {
		case x < 5:
			f.op = "commit"
		case x < 9:
			f.op = "flush"
		default:
			f.op, f.after = []string{"batchset", "get"}[r.Intn(2)], false
			f.skip = r.Intn(4)
		}
		return f
	}
	for n := 8 + r.Intn(10); n > 0; n-- {
		crashed := false
		for j := r.Intn(8); j > 0; j-- {
			k := keys[r.Intn(len(keys))]
			v := vals[r.Intn(len(vals))]
			if r.chance(0.4) {
				v = nil
				if l := cur.sorted(); len(l) > 0 && r.chance(0.8) {
					k = l[r.Intn(len(l))][0]
				}
			} else if c.Opt && len(k) > 0 && r.chance(0.3) {
				v = k
			}
			var f *faultMode
			if r.chance(0.06) {
				f = fm(true)
			}
			if a.update(k, v, f) {
				// a panic: the process is gone
				a.crash(r.chance(0.5))
				a.snap(true)
				crashed = true
				break
			}
			cur.put(k, v)
		}
		if crashed {
			cur = a.values()
			continue
		}
		failed, panicked := a.commit(fm(false))
		a.snap(true)
		switch {
		case panicked || r.chance(0.12):
			a.crash(r.chance(0.5))
			a.snap(true)
			cur = a.values()
		case failed && r.chance(0.5):
			a.commit(fm(false))
			a.snap(true)
		}
	}
	// in the end it works again
	a.commit(nil)
	a.snap(true)
	if r.chance(0.5) {
		a.commit(nil)
		a.snap(true)
	}
}

// values is what the driver reads back in order to choose further operations
func (a *upd8) values() contents {
	c := contents{}
	for _, k := range a.db.sorted(string(a.vp)) {
		c[k[len(a.vp):]] = string(a.db.m[k])
	}
	return c
}

// updaterMapDB uses the database in memory of hive.go; it never fails
func updaterMapDB(w *world, r rng, c Cfg, keys, vals [][]byte, tp, vp []byte) {
	a := &upd8{w: w, c: c, o: 1, s: 1, tp: tp, vp: vp, db: newFaultDB(), rest: map[string][]byte{}}
	a.kvs = mapdb.NewMapDB()
	w.log("ustore", Ev{"s": 1})
	a.open()
	look := func() {
		a.db.m = map[string][]byte{}
		if err := a.kvs.Iterate(kvstore.EmptyPrefix, func(k, v []byte) bool { a.db.m[string(k)] = cp(v); return true }); err != nil {
			panic(err)
		}
		a.snap(true)
	}
	for n := 6 + r.Intn(6); n > 0; n-- {
		for j := r.Intn(8); j > 0; j-- {
			v := vals[r.Intn(len(vals))]
			if r.chance(0.4) {
				v = nil
			}
			a.update(keys[r.Intn(len(keys))], v, nil)
			if r.chance(0.2) {
				look()
			}
		}
		a.commit(nil)
		look()
		if r.chance(0.2) {
			w.log("ucrash", Ev{"s": 1, "lose": false})
			a.open()
		}
	}
}
