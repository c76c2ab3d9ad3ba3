package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func (h *hist) someKey() []byte { return h.keys[h.r.Intn(len(h.keys))] }

// probeKeys are keys worth asking about: those of the universe, their prefixes,
// extensions and neighbours
func (h *hist) probeKeys(n int) [][]byte {
	ks := [][]byte{}
	for i := 0; i < n; i++ {
		k := cp(h.someKey())
		switch h.r.Intn(6) {
		case 0:
			if len(k) > 0 {
				k = k[:h.r.Intn(len(k)+1)]
			}
		case 1:
			k = append(k, h.r.byteOf(edgeBytes))
		case 2:
			if len(k) > 0 {
				k[len(k)-1] ^= 1 << uint(h.r.Intn(8))
			}
		}
		ks = append(ks, k)
	}
	return uniq(ks)
}

// probeVals are values to validate a key with: the current one, others, close ones
func (h *hist) probeVals(k []byte, cur contents) [][]byte {
	vs := [][]byte{h.vals[h.r.Intn(len(h.vals))], cp(k)}
	if v, ok := cur[string(k)]; ok {
		vs = append(vs, []byte(v), append([]byte(v), 0), append([]byte(v), 1))
		if len(v) > 1 {
			vs = append(vs, []byte(v)[:len(v)-1])
			x := []byte(v)
			x[h.r.Intn(len(x))] ^= 0x40
			vs = append(vs, x)
		}
		if h.c.Opt {
			vs = append(vs, unpackOwn(k, h.c.Arity))
		}
		// the terminal commitment itself is not the value
		if len(v) > h.c.Hash && h.c.Model == "b2b" {
			vs = append(vs, []byte("x"), trie_blake2b.CommitToDataRaw([]byte(v), trie_blake2b.HashSize(h.c.Hash))[1:])
		}
	}
	res := [][]byte{}
	for _, v := range uniq(vs) {
		if len(v) > 0 {
			res = append(res, v)
		}
	}
	return res
}

func (h *hist) proofs(s subject, n int, cur contents) []*trie_blake2b.Proof {
	res := []*trie_blake2b.Proof{}
	for _, k := range h.probeKeys(n) {
		res = append(res, h.w.proof(s, k, h.probeVals(k, cur)))
	}
	return res
}

func (h *hist) searches(s subject, n int) {
	for _, k := range h.probeKeys(n) {
		h.w.search(s, h.r, k)
	}
}

// setup opens a history on store s
func setup(w *world, r rng, i int, o, s int, c Cfg) *hist {
	keys, vals := pickKV(r, i, c)
	if w.stores[s] == nil {
		w.newStore(s)
	}
	w.open(o, s, c)
	h := newHist(w, r, o, s, c, keys, vals)
	if c.Opt {
		h.keyValP = 0.3
	}
	if wideAllowed(w.name) && i%wideEvery == wideEvery-1 {
		h.widen()
	}
	return h
}

const wideEvery = 23

// some suites drive several objects in parallel, or choose their own keys
func wideAllowed(name string) bool {
	for _, s := range []string{"C01", "C02", "C03", "C04", "C05#", "C06", "C10", "C18", "C19"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// sibling makes a second history of the same universe
func (h *hist) sibling(o, s int, c Cfg) *hist {
	if h.w.stores[s] == nil {
		h.w.newStore(s)
	}
	h.w.open(o, s, c)
	g := newHist(h.w, h.r, o, s, c, h.keys, h.vals)
	g.keyValP, g.delP, g.viaP = h.keyValP, h.delP, h.viaP
	return g
}

func vary(i int, p profile) profile {
	switch i % 4 {
	case 2:
		p.batch, p.steps = 1, 24
	case 3:
		p.batch, p.steps = 14, 8
	}
	return p
}

func trieSuite(id string, quick, thorough int, chk []string, f func(w *world, r rng, i int)) {
	suites[id] = suite{chk: append(chk, "panic"), spec: "TrieTrace",
		run: func(seed int64, tier string, rec *recorder) []Trace {
			return runJobs(histJobs(seed, id, scale(tier, quick, thorough), f), rec)
		}}
}

func init() {
	trieSuite("C01", 500, 12000, []string{"root-function"}, func(w *world, r rng, i int) {
		c := randCfg(r)
		h := setup(w, r, i/2, 1, 1, c)
		p := vary(i, defaultProfile)
		p.after = func(h *hist) {
			w.obs(1, false)
			h.buildSame()
		}
		p.afterPer = func(h *hist) {
			if r.chance(0.3) {
				w.robs(1, c, false, r.chance(0.5))
			}
		}
		h.play(p)
		// a second object reaches the same contents on another way, with noise
		g := h.sibling(2, 2, c)
		q := p
		q.steps, q.after, q.afterPer = 3, nil, nil
		g.play(q)
		g.converge(h.cur)
		g.commit()
		w.obs(2, false)
		// everything deleted: no root
		g.converge(contents{})
		g.commit()
		w.obs(2, false)
		g.converge(h.cur)
		g.commit()
		w.obs(2, false)
	})

	trieSuite("C02", 240, 6000, []string{"root-injective", "node-injective", "term-injective"}, func(w *world, r rng, i int) {
		c := randCfg(r)
		if i == 0 {
			c = Cfg{Model: "b2b", Arity: 256, Hash: 20}
			w.newStore(1)
			w.open(1, 1, c)
			h := newHist(w, r, 1, 1, c, nil, nil)
			long := bytes.Repeat([]byte{7}, 33)
			for _, v := range [][]byte{{1}, {1, 0}, {1, 0, 0}, long, w.rec.hash(long, 20)} { // the known findings
				h.put([]byte("k"), v)
				h.commit()
				w.obs(1, true)
			}
			return
		}
		h := setup(w, r, i, 1, 1, c)
		p := vary(i, defaultProfile)
		p.after = func(h *hist) {
			w.obs(1, true)
			// contents which differ a little
			base := h.cur.clone()
			for j := 0; j < 3 && len(base) > 0; j++ {
				d := base.clone()
				l := base.sorted()
				x := l[r.Intn(len(l))]
				switch r.Intn(5) {
				case 0:
					d.put(x[0], nil)
				case 1:
					v := cp(x[1])
					v[r.Intn(len(v))] ^= 1 << uint(r.Intn(8))
					d.put(x[0], v)
				case 2:
					v := cp(x[1])
					d.put(x[0], append(v, byte(r.Intn(3))))
				case 3: // the same value under a different key
					d.put(x[0], nil)
					k := cp(x[0])
					if len(k) > 0 && r.chance(0.5) {
						k[r.Intn(len(k))] ^= 1 << uint(r.Intn(8))
					} else {
						k = append(k, byte(r.Intn(3)))
					}
					d.put(k, x[1])
				case 4: // exchange two values
					y := l[r.Intn(len(l))]
					d.put(x[0], y[1])
					d.put(y[0], x[1])
				}
				w.build(c, d.shuffled(r))
			}
		}
		h.play(p)
	})

	trieSuite("C03", 200, 5000, []string{"root-function", "shape", "merkle", "terminals", "store-records", "proof-valid", "proof-key", "proof-claim", "proof-value", "terminal-node", "persist-count"},
		func(w *world, r rng, i int) {
			c := randCfg(r)
			h := setup(w, r, i/2, 1, 1, c)
			p := vary(i, defaultProfile)
			p.persistP = 0.8
			h.spareP = 0.15
			p.afterPer = func(h *hist) {
				w.obs(1, true) // the trie itself
				w.storeKeys(1, c.Arity)
				w.robs(1, c, true, r.chance(0.6))
				if r.chance(0.3) {
					h.proofs(w.subjReader(1, c), 2, h.per)
					h.proofs(w.subjObj(1), 2, h.per)
				}
				// another trie opened on a copy of the store continues to the same roots
				if r.chance(0.3) {
					w.persistTo(1, 2)
					g := h.sibling(2, 2, c)
					g.cur, g.com, g.per = h.per.clone(), h.per.clone(), h.per.clone()
					for n := 1 + r.Intn(6); n > 0; n-- {
						g.oneUpdate()
					}
					g.commit()
					w.obs(2, true)
					w.build(c, g.cur.shuffled(r))
					g.persist()
					w.storeKeys(2, c.Arity)
					w.robs(2, c, true, true)
				}
			}
			h.play(p)
			h.converge(contents{})
			h.commit()
			h.persist()
			w.storeKeys(1, c.Arity)
			w.robs(1, c, true, true)
		})

	trieSuite("C04", 250, 6000, []string{"store-untouched", "root-function", "shape", "merkle", "terminals", "store-records"},
		func(w *world, r rng, i int) {
			c := randCfg(r)
			h := setup(w, r, i/2, 1, 1, c)
			p := vary(i, defaultProfile)
			p.dropP, p.clearP, p.readP = 0.25, 0.5, 0.3
			h.spareP = 0.1
			p.each = func(h *hist) { w.digest(1) }
			p.after = func(h *hist) {
				if r.chance(0.3) {
					h.commit() // commit again: nothing new
					w.digest(1)
				}
				w.obs(1, r.chance(0.3))
				h.buildSame()
			}
			p.afterPer = func(h *hist) {
				w.digest(1)
				if r.chance(0.5) {
					if r.chance(0.5) {
						h.commit()
					}
					h.reads(r.Intn(3))
					h.persist() // nothing to persist
					w.digest(1)
				}
				w.storeKeys(1, c.Arity)
				w.robs(1, c, true, true)
			}
			p.dropped = func(h *hist) {
				w.digest(1)
				w.obs(1, true)
				w.robs(1, c, false, false)
				if r.chance(0.3) {
					h.persist()
					w.digest(1)
				}
			}
			h.play(p)
		})

	trieSuite("C05", 250, 6000, []string{"root-function", "shape", "merkle", "terminals", "store-records", "store-untouched", "proof-valid", "proof-key", "proof-claim", "proof-value"}, cloneTrace)
	trieSuite("C05race", 60, 800, []string{"root-function", "store-records"}, cloneRace)

	trieSuite("C06", 200, 5000, []string{"proof-valid", "proof-key", "proof-claim", "proof-value", "terminal-node", "search"},
		func(w *world, r rng, i int) {
			c := randCfg(r)
			h := setup(w, r, i/2, 1, 1, c)
			p := vary(i, defaultProfile)
			p.steps = p.steps/2 + 1
			h.proofs(w.subjObj(1), 1, h.cur) // empty trie
			w.search(w.subjObj(1), r, h.someKey())
			p.after = func(h *hist) { h.proofs(w.subjObj(1), 3, h.cur); h.searches(w.subjObj(1), 2) }
			p.afterPer = func(h *hist) { h.proofs(w.subjReader(1, c), 2, h.per); h.searches(w.subjReader(1, c), 2) }
			h.play(p)
		})

	trieSuite("C07", 160, 3000, []string{"sound"}, func(w *world, r rng, i int) {
		c := randCfg(r)
		if i == 0 { // the known finding
			c = Cfg{Model: "b2b", Arity: 256, Hash: 20}
			w.newStore(1)
			w.open(1, 1, c)
			h := newHist(w, r, 1, 1, c, [][]byte{{1, 0}, {1}, {1, 0, 0}}, [][]byte{{5}})
			h.put([]byte{1, 0}, []byte{5})
			h.commit()
			s := w.subjObj(1)
			m := s.m.(*trie_blake2b.CommitmentModel)
			p := m.Proof([]byte{1, 0}, s.ns)
			p.Key, p.Path[0].PathFragment = []byte{1}, []byte{1}
			w.adversary(s, r, []*trie_blake2b.Proof{p}, h.keys, h.vals, 0)
			return
		}
		if i == 1 { // the other one
			c = Cfg{Model: "b2b", Arity: 256, Hash: 32}
			w.newStore(1)
			w.open(1, 1, c)
			kl, vl := bytes.Repeat([]byte{3}, 40), bytes.Repeat([]byte{4}, 50)
			hk, hv := w.rec.hash(kl, 32), w.rec.hash(vl, 32)
			h := newHist(w, r, 1, 1, c, [][]byte{kl, hk}, [][]byte{vl, hv})
			h.put(kl, vl)
			h.commit()
			s := w.subjObj(1)
			m := s.m.(*trie_blake2b.CommitmentModel)
			p, q := m.Proof(kl, s.ns), m.Proof(kl, s.ns)
			q.Key, q.Path[0].PathFragment = hk, hk
			w.adversary(s, r, []*trie_blake2b.Proof{p, q}, h.keys, h.vals, 0)
			return
		}
		h := setup(w, r, i/2, 1, 1, c)
		if c.Arity != 256 && i%2 == 1 {
			c.Hash = 32
		}
		var old []*trie_blake2b.Proof
		p := vary(i, defaultProfile)
		p.steps = 4
		if i%4 == 2 {
			p.steps = 10
		}
		p.after = func(h *hist) {
			s := w.subjObj(1)
			m := s.m.(*trie_blake2b.CommitmentModel)
			honest := []*trie_blake2b.Proof{}
			for _, k := range h.probeKeys(4) {
				honest = append(honest, m.Proof(k, s.ns))
			}
			ks := h.probeKeys(5)
			vs := h.vals
			for _, v := range h.vals {
				if len(v) > c.Hash {
					vs = append(vs, w.rec.hash(v, c.Hash))
				}
			}
			w.adversary(s, r, honest, ks, vs, 150)
			// with material of older states
			if len(old) > 0 {
				w.adversary(s, r, append(honest, old...), ks, vs, 60)
			}
			old = append(old, honest...)
			if len(old) > 6 {
				old = old[len(old)-6:]
			}
		}
		h.play(p)
	})

	trieSuite("C09", 200, 5000, []string{"root-function", "shape", "merkle", "terminals", "proof-valid", "proof-key", "proof-claim", "proof-value", "opt-256", "opt-others", "store-records", "key-commitment-empty"},
		storageOptTrace)

	trieSuite("C10", 250, 6000, []string{"reconcile"}, func(w *world, r rng, i int) {
		c := randCfg(r)
		h := setup(w, r, i/2, 1, 1, c)
		p := vary(i, defaultProfile)
		w.recon(1, kvList{})
		w.recon(1, kvList{{h.someKey(), h.vals[0]}})
		sets := func(h *hist) {
			w.recon(1, h.cur.shuffled(r))
			for j := 0; j < 2; j++ {
				d := h.cur.clone()
				for n := r.Intn(4); n > 0; n-- {
					k := h.probeKeys(1)[0]
					vs := h.probeVals(k, h.cur)
					switch r.Intn(4) {
					case 0:
						d.put(k, nil)
					case 1:
						if len(k) > 0 {
							d.put(k, k)
						}
					default:
						if len(vs) > 0 {
							d.put(k, vs[r.Intn(len(vs))])
						}
					}
				}
				w.recon(1, d.shuffled(r))
			}
			if r.chance(0.2) || h.wide {
				// a store which has little to do with the trie
				d := contents{}
				for _, k := range h.keys {
					if r.chance(0.8) {
						d.put(k, h.vals[r.Intn(len(h.vals))])
					}
				}
				w.recon(1, d.shuffled(r))
			}
		}
		p.after = sets
		p.dropped = func(h *hist) { w.recon(1, h.cur.shuffled(r)) }
		h.play(p)
		w.recon(1, h.cur.shuffled(r))
		last := h.cur.clone()
		h.converge(contents{})
		h.commit()
		w.recon(1, last.shuffled(r))
	})

	trieSuite("C18", 250, 6000, []string{"buffer-unmodified", "root-function", "shape", "merkle", "terminals", "store-records", "proof-stable", "proof-valid", "proof-key", "proof-claim", "proof-value"},
		func(w *world, r rng, i int) {
			c := randCfg(r)
			w.scribble = true
			h := setup(w, r, i/2, 1, 1, c)
			p := vary(i, defaultProfile)
			p.readP = 0.5
			type held struct {
				p *trie_blake2b.Proof
				b string
			}
			var kept []held
			check := func() {
				for _, k := range kept {
					w.log("same", Ev{"name": "proof-stable", "a": k.b, "b": hex.EncodeToString(k.p.Bytes())})
				}
				kept = nil
			}
			take := func(s subject) {
				k := cp(h.probeKeys(1)[0])
				pr := s.m.(*trie_blake2b.CommitmentModel).Proof(k, s.ns)
				b := hex.EncodeToString(pr.Bytes())
				w.clobber(k)
				kept = append(kept, held{pr, b})
				// another proof of the same key is overwritten by its owner
				k2 := cp(h.probeKeys(1)[0])
				q := s.m.(*trie_blake2b.CommitmentModel).Proof(k2, s.ns)
				w.clobber(k2)
				ruin(q)
			}
			p.each = func(h *hist) {
				if r.chance(0.15) {
					// generic proofs and lookups with buffers which are overwritten afterwards
					ob := w.objs[1]
					uk := unpackOwn(h.someKey(), c.Arity)
					trie.GetProofGeneric(ob.tr, uk)
					w.clobber(uk)
				}
			}
			p.after = func(h *hist) {
				take(w.subjObj(1))
				w.obs(1, r.chance(0.5))
				h.buildSame()
				if r.chance(0.3) {
					h.proofs(w.subjObj(1), 1, h.cur)
				}
			}
			p.afterPer = func(h *hist) {
				take(w.subjReader(1, c))
				w.storeKeys(1, c.Arity)
				w.robs(1, c, true, true)
				if r.chance(0.5) {
					check()
				}
			}
			h.play(p)
			check()
			w.obs(1, true)
		})

	trieSuite("C19", 300, 8000, []string{"shape", "merkle", "terminals", "node-function", "term-function", "search"}, func(w *world, r rng, i int) {
		c := randCfg(r)
		h := setup(w, r, i/2, 1, 1, c)
		p := vary(i, defaultProfile)
		if i%3 == 0 { // searches read nodes into the cache: not in every execution
			p.each = func(h *hist) {
				if r.chance(0.4) {
					h.searches(w.subjObj(1), 1)
				}
			}
		}
		p.after = func(h *hist) { w.obs(1, true) }
		h.play(p)
		h.converge(contents{})
		h.commit()
		w.obs(1, true)
	})

	trieSuite("C20", 200, 5000, []string{"twin", "root-function", "store-untouched", "proof-valid", "proof-key", "proof-claim"}, readTwinTrace)
	trieSuite("C20race", 60, 800, []string{"root-function", "store-records", "store-root", "nodes", "merkle", "search", "proof-valid", "proof-key", "proof-claim", "proof-value"}, readRace)
}

// ruin overwrites everything in a proof
func ruin(p *trie_blake2b.Proof) {
	bad := func(b []byte) {
		for i := range b {
			b[i] ^= 0x5A
		}
	}
	bad(p.Key)
	for _, e := range p.Path {
		bad(e.PathFragment)
		bad(e.Terminal)
		for _, i := range elemIdx(e) {
			bad(e.Children[i])
		}
		for i := 0; i < 256; i += 37 {
			e.Children[byte(i)] = bytes.Repeat([]byte{1}, 20)
		}
		delete(e.Children, 0)
	}
}

// cloneTrace: a family of clones with interleaved operations on the same base store
func cloneTrace(w *world, r rng, i int) {
	c := randCfg(r)
	rounds := 30
	var h *hist
	if i%12 == 10 { // the other model; much slower
		h, rounds = kzgHist(w, r, i/2, 1, 1), 14
		c = h.c
	} else {
		h = setup(w, r, i/2, 1, 1, c)
	}
	p := vary(i, defaultProfile)
	p.steps = 1 + r.Intn(4)
	if c.Model == "kzg" {
		p.batch = 3
	}
	p.dropP = 0
	h.play(p)
	if r.chance(0.7) {
		if h.dirty {
			h.commit()
		}
		h.persist()
	}
	// from here on nothing is persisted into the common store 1
	hs := []*hist{h}
	next, nextStore := 2, 10
	w.digest(1)
	for step := 0; step < rounds; step++ {
		g := hs[r.Intn(len(hs))]
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4:
			for n := 1 + r.Intn(3); n > 0; n-- {
				g.oneUpdate()
			}
		case 5, 6:
			if len(hs) < 5 {
				n := *g
				n.o = next
				next++
				n.cur, n.com, n.per = g.cur.clone(), g.com.clone(), g.per.clone()
				w.clone(g.o, n.o)
				hs = append(hs, &n)
			}
		case 7, 8:
			g.commit()
			w.obs(g.o, r.chance(0.5))
			w.build(c, g.cur.shuffled(r))
		case 9:
			g.reads(1 + r.Intn(4))
		case 10:
			if r.chance(0.4) {
				g.clear()
			}
		case 11:
			if r.chance(0.5) {
				g.commit()
				w.persistTo(g.o, nextStore)
				w.storeKeys(nextStore, c.Arity)
				w.robs(nextStore, c, true, true)
				nextStore++
			}
		}
		if r.chance(0.2) {
			w.digest(1)
		}
	}
	// in the end everybody commits, in random order, and is looked at
	r.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
	for _, g := range hs {
		g.commit()
	}
	for _, g := range hs {
		w.obs(g.o, true)
		w.build(c, g.cur.shuffled(r))
		if c.Model != "kzg" {
			g.proofs(w.subjObj(g.o), 1, g.cur)
		}
		w.persistTo(g.o, nextStore)
		w.storeKeys(nextStore, c.Arity)
		w.robs(nextStore, c, true, true)
		nextStore++
	}
	w.digest(1)
}

// cloneRace: clones are used by goroutines of their own (run with the race detector)
func cloneRace(w *world, r rng, i int) {
	c := randCfg(r)
	rounds := 6
	var h *hist
	if i%15 == 14 { // the other model; much slower
		h, rounds = kzgHist(w, r, i/2, 1, 1), 2
		c = h.c
	} else {
		h = setup(w, r, i/2, 1, 1, c)
	}
	p := vary(i, defaultProfile)
	p.steps, p.dropP = 3, 0
	h.play(p)
	if h.dirty {
		h.commit()
	}
	h.persist()
	for n := r.Intn(5); n > 0; n-- {
		h.oneUpdate()
	}
	// each goroutine records into a world of its own; afterwards the events are appended
	n := 3
	ws := make([]*world, n)
	hs := make([]*hist, n)
	for j := 0; j < n; j++ {
		g := *h
		g.cur, g.com, g.per = h.cur.clone(), h.com.clone(), h.per.clone()
		g.r = newRng(subSeed(int64(i), "race", j) ^ r.Int63())
		if j > 0 {
			g.o = j + 1
			w.clone(1, g.o)
		}
		ws[j] = newWorld("", w.rec)
		ws[j].objs[g.o] = w.objs[g.o]
		st := w.stores[1]
		ws[j].stores[1] = &store{trie: st.trie, val: st.val}
		g.w = ws[j]
		hs[j] = &g
	}
	done := make(chan string, n)
	for j := 0; j < n; j++ {
		go func(g *hist, s2 int) {
			defer func() {
				if x := recover(); x != nil {
					done <- fmt.Sprint(x)
				} else {
					done <- ""
				}
			}()
			for k := 0; k < rounds; k++ {
				for n := 1 + g.r.Intn(4); n > 0; n-- {
					g.oneUpdate()
				}
				g.reads(1)
				g.commit()
				g.w.obs(g.o, false)
				g.w.build(c, g.cur.shuffled(g.r))
			}
			g.w.persistTo(g.o, s2)
			g.w.storeKeys(s2, c.Arity)
		}(hs[j], 20+j)
	}
	msg := ""
	for j := 0; j < n; j++ {
		if m := <-done; m != "" {
			msg = m
		}
	}
	for j := 0; j < n; j++ {
		w.ev = append(w.ev, ws[j].ev...)
	}
	if msg != "" {
		panic(msg)
	}
}

// readRace: readers of one store are used by goroutines of their own, while another one updates a
// trie over the same store without persisting (run with the race detector)
func readRace(w *world, r rng, i int) {
	c := randCfg(r)
	rounds, kzg := 4, i%15 == 14
	var h *hist
	if kzg { // the other model; much slower
		h, rounds = kzgHist(w, r, i/2, 1, 1), 2
		c = h.c
	} else {
		h = setup(w, r, i/2, 1, 1, c)
	}
	p := vary(i, defaultProfile)
	p.steps, p.dropP = 3, 0
	h.play(p)
	if h.dirty {
		h.commit()
	}
	h.persist()
	if r.chance(0.5) {
		h.clear()
	}
	w.reader(1, c)
	w.reader(1, c) // one of them stays open and is shared
	n := 4
	ws, hs := make([]*world, n), make([]*hist, n)
	for j := 0; j < n; j++ {
		g := *h
		g.cur, g.com, g.per = h.cur.clone(), h.com.clone(), h.per.clone()
		g.r = newRng(subSeed(int64(i), "readrace", j) ^ r.Int63())
		ws[j] = newWorld("", w.rec)
		ws[j].nmodel, ws[j].nreader = j, j
		for k, m := range w.models {
			ws[j].models[k] = m
		}
		ws[j].objs[1] = w.objs[1]
		st := &store{trie: w.stores[1].trie, val: w.stores[1].val, readers: map[string]*trie.TrieReader{}}
		for k, rd := range w.stores[1].readers {
			st.readers[k] = rd
		}
		ws[j].stores[1] = st
		g.w = ws[j]
		hs[j] = &g
	}
	done := make(chan string, n)
	for j := 0; j < n; j++ {
		go func(j int, g *hist) {
			defer func() {
				if x := recover(); x != nil {
					done <- fmt.Sprint(x)
				} else {
					done <- ""
				}
			}()
			for k := 0; k < rounds; k++ {
				if j == 0 {
					for n := 1 + g.r.Intn(4); n > 0; n-- {
						g.oneUpdate()
					}
					g.commit()
					g.w.obs(g.o, false)
					g.w.build(c, g.cur.shuffled(g.r))
					continue
				}
				g.w.robs(1, c, true, g.r.chance(0.7))
				if !kzg {
					g.proofs(g.w.subjReader(1, c), 1, g.per)
					g.searches(g.w.subjReader(1, c), 2)
				}
			}
		}(j, hs[j])
	}
	msg := ""
	for j := 0; j < n; j++ {
		if m := <-done; m != "" {
			msg = m
		}
	}
	for j := 0; j < n; j++ {
		w.ev = append(w.ev, ws[j].ev...)
	}
	if msg != "" {
		panic(msg)
	}
	h = hs[0]
	h.w = w
	h.commit()
	h.persist()
	w.storeKeys(1, c.Arity)
	w.robs(1, c, true, true)
}

// storageOptTrace: the same operations on tries with different storage options
func storageOptTrace(w *world, r rng, i int) {
	base := Cfg{Model: "b2b", Arity: []int{256, 16, 2}[i%3], Hash: []int{20, 32}[r.Intn(2)]}
	thr := func() int { return []int{1, 2, 3, 19, 20, 21, 31, 32, 33, 64, 1000, 1 << 30}[r.Intn(12)] }
	cfgs := []Cfg{base, base, base, base}
	cfgs[1].Thr = thr()
	cfgs[2].Opt = true
	cfgs[3].Opt, cfgs[3].Thr = true, thr()
	h := setup(w, r, i/2, 1, 1, cfgs[0])
	if i%5 == 0 {
		h.keys = uniq(append(h.keys, []byte{})) // key commitments and values at the root
	}
	hs := []*hist{h}
	for j := 1; j < 4; j++ {
		hs = append(hs, h.sibling(j+1, j+1, cfgs[j]))
	}
	keyCommitted := false
	for step := 0; step < 10; step++ {
		for n := 1 + r.Intn(6); n > 0; n-- {
			k := h.someKey()
			var v []byte
			switch {
			case r.chance(0.35):
				if len(h.cur) > 0 && r.chance(0.8) {
					l := h.cur.sorted()
					k = l[r.Intn(len(l))][0]
				}
			case r.chance(0.35) && len(k) > 0:
				v = cp(k)
				keyCommitted = true
			default:
				v = h.vals[r.Intn(len(h.vals))]
			}
			for _, g := range hs {
				g.put(k, v)
			}
		}
		if r.chance(0.1) {
			w.emptyKeyCommitment(hs[r.Intn(4)].o)
		}
		per, clr := r.chance(0.6), r.chance(0.5)
		full := r.chance(0.5)
		roots := []string{}
		for _, g := range hs {
			g.commit()
			w.obs(g.o, full)
			roots = append(roots, rootHex(w.objs[g.o].tr))
		}
		if base.Arity == 256 || !keyCommitted {
			// key commitments do not change any root of a 256-ary trie
			for j := 1; j < 4; j++ {
				w.log("same", Ev{"name": "opt-256", "a": roots[0], "b": roots[j]})
			}
		}
		w.log("same", Ev{"name": "opt-others", "a": roots[0], "b": roots[1]})
		w.log("same", Ev{"name": "opt-others", "a": roots[2], "b": roots[3]})
		if base.Arity != 256 {
			w.log("same", Ev{"name": "opt-others", "a": otherTerminals(w, hs[0]), "b": otherTerminals(w, hs[2])})
		}
		if per {
			for _, g := range hs {
				g.persist()
				if full {
					w.storeKeys(g.o, base.Arity)
				}
				w.robs(g.o, g.c, true, r.chance(0.7))
			}
			g := hs[r.Intn(len(hs))]
			g.proofs(w.subjReader(g.o, g.c), 2, g.per)
			if clr {
				for _, g := range hs {
					g.clear()
				}
			}
		}
		g := hs[r.Intn(len(hs))]
		g.proofs(w.subjObj(g.o), 1, g.cur)
	}
}

// otherTerminals describes the terminals of all pairs whose value is not the key
func otherTerminals(w *world, h *hist) string {
	ob := w.objs[h.o]
	s := ""
	for _, p := range h.cur.sorted() {
		if bytes.Equal(p[0], p[1]) {
			continue
		}
		pr := ob.model.(*trie_blake2b.CommitmentModel).Proof(p[0], ob.tr)
		_, t := trie_blake2b_verify.MustKeyWithTerminal(pr)
		s += fmt.Sprintf("%x=%x;", p[0], t)
	}
	return s
}

// readTwinTrace: two objects with the same mutations; one of them is read from all the
// time, the other one never, and is reopened with a cold cache
func readTwinTrace(w *world, r rng, i int) {
	c := randCfg(r)
	h := setup(w, r, i/2, 1, 1, c)
	g := h.sibling(2, 2, c)
	steps, batch := 12, 6
	if i%4 == 3 {
		batch = 14
	}
	if i%wideEvery == wideEvery-1 {
		h.widen()
		g.wide = true
		w.updAll(2, h.cur.sorted())
		g.cur, g.keys = h.cur.clone(), h.keys
		g.commit()
		h.persist()
		g.persist()
		w.open(1, 1, c)
		w.open(2, 2, c)
		steps, batch = 3, 40
	}
	twin := func(name string, a, b string) { w.log("same", Ev{"name": "twin", "a": a, "b": b, "what": name}) }
	dump := func(o int) string {
		s := ""
		for _, n := range w.walkNodes(c, w.objs[o].model, w.objs[o].tr.Clone(), 5000) {
			s += fmt.Sprint(n["key"], n["pf"], n["cc"], n["t"], n["c"])
		}
		hsh := trie.Blake2b160([]byte(s))
		return hex.EncodeToString(hsh[:])
	}
	for step := 0; step < steps; step++ {
		for n := 1 + r.Intn(batch); n > 0; n-- {
			k := h.someKey()
			var v []byte
			switch {
			case r.chance(0.45):
				if len(h.cur) > 0 && r.chance(0.8) {
					l := h.cur.sorted()
					k = l[r.Intn(len(l))][0]
				}
			case c.Opt && r.chance(0.3) && len(k) > 0:
				v = cp(k)
			default:
				v = h.vals[r.Intn(len(h.vals))]
			}
			h.reads(1 + r.Intn(4))
			if r.chance(0.2) {
				w.objs[1].tr.Reconcile(h.cur.sorted())
			}
			if r.chance(0.1) {
				_ = w.objs[1].tr.DangerouslyDumpCacheToString()
			}
			h.put(k, v)
			g.put(k, v)
			h.reads(r.Intn(4))
			w.digest(1)
		}
		h.reads(r.Intn(4))
		h.commit()
		g.commit()
		h.reads(1 + r.Intn(4))
		if r.chance(0.2) || h.wide && r.chance(0.8) {
			h.readAll()
		}
		a, b := rootHex(w.objs[1].tr), rootHex(w.objs[2].tr.Clone())
		twin("root", a, b)
		if r.chance(0.3) {
			twin("nodes", dump(1), dump(2))
		}
		w.obs(1, false)
		if r.chance(0.6) {
			h.persist()
			g.persist()
			twin("store", w.stores[1].trie.digest(), w.stores[2].trie.digest())
			h.reads(1 + r.Intn(4))
			if r.chance(0.3) {
				h.commit()
				h.persist() // reads must not have left anything to persist
				w.digest(1)
				twin("store", w.stores[1].trie.digest(), w.stores[2].trie.digest())
			}
			switch r.Intn(4) {
			case 0:
				h.clear()
				g.clear()
			case 1:
				w.open(2, 2, c) // cold
			case 2:
				w.open(1, 1, c)
				h.reads(6)
			}
			if r.chance(0.3) {
				h.proofs(w.subjReader(1, c), 1, h.per)
			}
		}
	}
}
