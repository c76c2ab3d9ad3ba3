package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"sort"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	suites["C12"] = suite{chk: []string{"kv-set", "kv-get", "kv-has", "kv-iter", "kv-size", "kv-fault", "kv-raw", "panic"}, spec: "KVTrace",
		run: func(seed int64, tier string, rec *recorder) []Trace {
			return runJobs(histJobs(seed, "C12", scale(tier, 160, 6000), kvTrace), rec)
		}}
	replayers["kv"] = replayKV
}

// kvdb is a database with partitions, or a store in memory
type kvdb struct {
	raw   kvstore.KVStore
	fault *faultDB // nil: a database without faults
}

func (d *kvdb) dump() []interface{} {
	if d.fault != nil {
		return d.fault.dump()
	}
	m := map[string][]byte{}
	if err := d.raw.Iterate(kvstore.EmptyPrefix, func(k, v []byte) bool { m[string(k)] = cp(v); return true }); err != nil {
		panic(err)
	}
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []interface{}{}
	for _, k := range ks {
		r = append(r, []interface{}{ints([]byte(k)), ints(m[k])})
	}
	return r
}

type kvpart struct {
	kv trie.KVStore
	db *kvdb // nil: in memory
}

// try runs a call; a panic is the way the stores report a failure
func try(f func()) (failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	f()
	return false
}

func (w *world) kvSet(p int, pt *kvpart, k, v []byte, fm *faultMode) {
	kk, vv := cp(k), cp(v)
	if len(v) == 0 && len(k)%2 == 0 {
		vv = nil
	}
	fault := pt.arm(fm)
	err := try(func() { pt.kv.Set(kk, vv) })
	f := fault()
	w.log("set", Ev{"p": p, "k": ints(k), "v": ints(v), "err": err, "fault": f, "applied": !f || fm.after})
}

func (pt *kvpart) arm(fm *faultMode) func() bool {
	if fm == nil || pt.db == nil || pt.db.fault == nil {
		return func() bool { return false }
	}
	d := pt.db.fault
	*d.fm = *fm
	n := *d.fired
	return func() bool {
		*d.fm = faultMode{}
		return *d.fired != n
	}
}

func (w *world) kvGet(p int, pt *kvpart, k []byte, fm *faultMode) {
	fault := pt.arm(fm)
	var out []byte
	err := try(func() { out = pt.kv.Get(cp(k)) })
	w.log("get", Ev{"p": p, "k": ints(k), "out": ints(out), "nil": out == nil, "err": err, "fault": fault()})
}

func (w *world) kvHas(p int, pt *kvpart, k []byte, fm *faultMode) {
	fault := pt.arm(fm)
	out := false
	err := try(func() { out = pt.kv.Has(cp(k)) })
	w.log("has", Ev{"p": p, "k": ints(k), "out": out, "err": err, "fault": fault()})
}

func (w *world) kvIter(p int, pt *kvpart, stop int, fm *faultMode) {
	fault := pt.arm(fm)
	pairs := []interface{}{}
	err := try(func() {
		pt.kv.Iterate(func(k, v []byte) bool {
			pairs = append(pairs, []interface{}{ints(k), ints(v)})
			return len(pairs) != stop
		})
	})
	w.log("iter", Ev{"p": p, "stop": stop, "pairs": pairs, "err": err, "fault": fault()})
}

func kvTrace(w *world, r rng, i int) {
	var dbs []*kvdb
	parts := []*kvpart{}
	nextP := 0
	prefixOf := [][]byte{}
	dbOf := []int{}
	addPart := func(d int, pt *kvpart, prefix []byte) {
		w.log("part", Ev{"p": nextP, "d": d, "prefix": ints(prefix)})
		parts = append(parts, pt)
		prefixOf = append(prefixOf, prefix)
		dbOf = append(dbOf, d)
		nextP++
	}
	// the prefixes of one database: none begins with another one
	free := func(ps [][]byte, p []byte) bool {
		for _, q := range ps {
			n := min(len(p), len(q))
			if string(p[:n]) == string(q[:n]) {
				return false
			}
		}
		return true
	}
	nd := 1 + r.Intn(3)
	universe := []([][]byte){}
	outside := []([][]byte){}
	for d := 0; d < nd; d++ {
		w.log("db", Ev{"d": d})
		kind := (i + d) % 4
		db := &kvdb{}
		keys := genKeys(r, []int{styleTiny, styleEdge, styleChain, styleZero, styleRandom, styleLong}[r.Intn(6)], 3+r.Intn(5))
		switch kind {
		case 0: // in memory
			dbs = append(dbs, nil)
			addPart(d, &kvpart{kv: trie.NewInMemoryKVStore()}, nil)
			universe = append(universe, keys)
			outside = append(outside, nil)
			continue
		case 1:
			db.raw = mapdb.NewMapDB()
		default:
			db.fault = newFaultDB()
			db.fault.wrapNF = r.chance(0.3)
			db.raw = db.fault
			if r.chance(0.2) {
				// a realm of a bigger database
				rl, err := db.fault.WithRealm([]byte{9, 9})
				if err != nil {
					panic(err)
				}
				db.raw = rl
				db.fault = rl.(*faultDB)
				db.fault.m = map[string][]byte{}
				db.fault.realm = ""
			}
		}
		ps := [][]byte{}
		if r.chance(0.15) {
			ps = append(ps, []byte{})
		} else {
			for n := 1 + r.Intn(4); n > 0; n-- {
				p := r.bytes(1+r.Intn(3), []byte{0, 1, 2, 0xfe, 0xff})
				if free(ps, p) {
					ps = append(ps, p)
				}
			}
		}
		shared := oneArray(ps...)
		for i, p := range ps {
			for n := 1 + r.Intn(2); n > 0; n-- { // several handles of the same partition
				addPart(d, &kvpart{kv: hive_adaptor.NewHiveKVStoreAdaptor(db.raw, shared[i]), db: db}, p)
			}
		}
		// keys which look like prefixes
		for _, p := range ps {
			if r.chance(0.5) {
				keys = append(keys, cp(p))
			}
			if r.chance(0.3) {
				keys = append(keys, append(cp(p), r.byteOf(edgeBytes)))
			}
		}
		universe = append(universe, uniq(keys))
		out := [][]byte{}
		if len(ps[0]) > 0 {
			for n := 0; n < 4; n++ {
				k := r.bytes(1+r.Intn(3), []byte{0, 1, 2, 3, 0xfe, 0xff})
				ok := true
				for _, p := range ps {
					if len(k) >= len(p) && string(k[:len(p)]) == string(p) {
						ok = false
					}
				}
				if ok {
					out = append(out, k)
				}
			}
			// a prefix cut short is outside, too
			for _, p := range ps {
				if len(p) > 1 {
					out = append(out, cp(p[:len(p)-1]))
				}
			}
		}
		outside = append(outside, uniq(out))
		dbs = append(dbs, db)
	}
	vals := append(genVals(r, 3), []byte{0}, []byte{})
	fm := func(op string) *faultMode {
		if !r.chance(0.15) {
			return nil
		}
		f := &faultMode{op: op, after: r.chance(0.3), at: r.Intn(3), some: r.chance(0.3)}
		switch r.Intn(4) {
		case 0:
			f.err = kvstore.ErrStoreClosed
		case 1:
			f.err = fmt.Errorf("read: %w", io.EOF)
		}
		return f
	}
	for n := 40 + r.Intn(40); n > 0; n-- {
		p := r.Intn(len(parts))
		pt := parts[p]
		d := dbOf[p]
		ks := universe[d]
		k := ks[r.Intn(len(ks))]
		switch x := r.Intn(20); {
		case x < 7:
			w.kvSet(p, pt, k, vals[r.Intn(len(vals))], fm("set"))
		case x < 10:
			w.kvGet(p, pt, k, fm("get"))
		case x < 12:
			w.kvHas(p, pt, k, fm("get"))
		case x < 14:
			w.kvIter(p, pt, 0, fm("iterate"))
		case x < 15:
			w.kvIter(p, pt, 1+r.Intn(4), fm("iterate"))
		case x < 16:
			w.log("size", Ev{"p": p, "n": trie.NumEntries(pt.kv), "bytes": trie.ByteSize(pt.kv)})
		case x < 18:
			if dbs[d] != nil && len(outside[d]) > 0 {
				fk := outside[d][r.Intn(len(outside[d]))]
				fv := vals[r.Intn(len(vals))]
				var err error
				if len(fv) == 0 {
					err = dbs[d].raw.Delete(fk)
				} else {
					err = dbs[d].raw.Set(cp(fk), cp(fv))
				}
				if err != nil {
					panic(err)
				}
				w.log("foreign", Ev{"d": d, "k": ints(fk), "v": ints(fv)})
			}
		default:
			if dbs[d] != nil {
				w.log("raw", Ev{"d": d, "pairs": dbs[d].dump()})
			}
		}
	}
	// at the end: every key of every partition
	for p, pt := range parts {
		for _, k := range universe[dbOf[p]] {
			w.kvGet(p, pt, k, nil)
			w.kvHas(p, pt, k, nil)
		}
		w.kvIter(p, pt, 0, nil)
		w.kvIter(p, pt, 1, nil)
	}
	for d, db := range dbs {
		if db != nil {
			w.log("raw", Ev{"d": d, "pairs": db.dump()})
		}
	}
}

// ---------------------------------------------------------------------------
// behaviours of MCKV

func replayKV(c *rcase) {
	var b struct {
		Path []struct {
			Op   string
			P    []int
			K, V []int
		}
		Keys [][]int
		St   struct {
			Db    [][][]int
			Parts []struct {
				P []int
				M [][][]int
			}
		}
	}
	c.parse(&b)
	toMap := func(l [][][]int) map[string]string {
		m := map[string]string{}
		for _, p := range l {
			m[hex.EncodeToString(bs(p[0]))] = hex.EncodeToString(bs(p[1]))
		}
		return m
	}
	for _, kind := range []string{"mem", "mapdb", "own"} {
		var raw kvstore.KVStore
		switch kind {
		case "mapdb":
			raw = mapdb.NewMapDB()
		case "own":
			raw = newFaultDB()
		}
		stores := map[string]trie.KVStore{}
		ps := [][]byte{}
		for _, p := range b.St.Parts {
			ps = append(ps, bs(p.P))
		}
		shared := oneArray(ps...)
		for i, p := range b.St.Parts {
			if kind == "mem" {
				stores[string(bs(p.P))] = trie.NewInMemoryKVStore()
			} else {
				stores[string(bs(p.P))] = hive_adaptor.NewHiveKVStoreAdaptor(raw, shared[i])
			}
		}
		for _, s := range b.Path {
			if s.Op == "set" {
				c.call("Set", func() { stores[string(bs(s.P))].Set(bs(s.K), bs(s.V)) })
				continue
			}
			if raw == nil {
				continue
			}
			if len(s.V) == 0 {
				if err := raw.Delete(bs(s.K)); err != nil {
					panic(err)
				}
			} else if err := raw.Set(bs(s.K), bs(s.V)); err != nil {
				panic(err)
			}
		}
		for _, p := range b.St.Parts {
			st := stores[string(bs(p.P))]
			want := toMap(p.M)
			for _, k := range b.Keys {
				v, in := want[hex.EncodeToString(bs(k))]
				c.call("Get", func() { c.eq("kv-get", v, hex.EncodeToString(st.Get(bs(k)))) })
				c.call("Has", func() { c.eq("kv-has", in, st.Has(bs(k))) })
			}
			c.call("Iterate", func() {
				got, n := map[string]string{}, 0
				st.Iterate(func(k, v []byte) bool { got[hex.EncodeToString(k)] = hex.EncodeToString(v); n++; return true })
				c.eq("kv-iter", want, got)
				c.eq("kv-iter", len(want), n)
			})
			for stop := 1; stop <= len(want); stop++ {
				c.call("Iterate", func() {
					n := 0
					st.Iterate(func(k, v []byte) bool { n++; return n != stop })
					c.eq("kv-iter", stop, n)
				})
			}
			c.call("NumEntries", func() { c.eq("kv-size", len(want), trie.NumEntries(st)) })
		}
		if raw != nil {
			got := map[string]string{}
			if err := raw.Iterate(kvstore.EmptyPrefix, func(k, v []byte) bool {
				got[hex.EncodeToString(k)] = hex.EncodeToString(v)
				return true
			}); err != nil {
				panic(err)
			}
			c.eq("kv-raw", toMap(b.St.Db), got)
		}
	}
}
