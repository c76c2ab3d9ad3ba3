package main

import (
	"bytes"
	"math/rand"
	"sort"

	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------------------
// universes of keys and values: small sets whose members collide, nest and diverge
// in all the ways that matter to a radix trie

var edgeBytes = []byte{0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xf0, 0xfe, 0xff}

type rng struct{ *rand.Rand }

func newRng(seed int64) rng { return rng{rand.New(rand.NewSource(seed))} }

func (r rng) pick(n int) int        { return r.Intn(n) }
func (r rng) chance(p float64) bool { return r.Float64() < p }
func (r rng) byteOf(al []byte) byte { return al[r.Intn(len(al))] }
func (r rng) bytes(n int, al []byte) []byte {
	b := make([]byte, n)
	for i := range b {
		if al == nil {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = r.byteOf(al)
		}
	}
	return b
}

// key universe styles
const (
	styleTiny   = iota // 2-symbol alphabet, very short keys: everything nests in everything
	styleEdge          // edge bytes, short
	styleChain         // every key extends another one
	styleFan           // one branching node with many children
	styleLong          // long shared prefixes, path fragments around the hash size and 255
	styleZero          // keys with trailing zeros
	styleRandom        // random keys
	styleDeep          // long chain of branching nodes
	numStyles
)

func uniq(ks [][]byte) [][]byte {
	m := map[string]bool{}
	res := [][]byte{}
	for _, k := range ks {
		if !m[string(k)] {
			m[string(k)] = true
			res = append(res, k)
		}
	}
	return res
}

func genKeys(r rng, style, n int) [][]byte {
	ks := [][]byte{}
	switch style {
	case styleTiny:
		al := []byte{r.byteOf(edgeBytes), r.byteOf(edgeBytes)}
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			ks = append(ks, r.bytes(r.Intn(4), al))
		}
	case styleEdge:
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			ks = append(ks, r.bytes(r.Intn(4), edgeBytes))
		}
	case styleChain:
		ks = append(ks, []byte{})
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			base := ks[r.Intn(len(ks))]
			ks = append(ks, append(cp(base), r.bytes(1+r.Intn(3), []byte{0, 1, 0xff})...))
		}
	case styleFan:
		base := r.bytes(r.Intn(3), nil)
		al := []byte{0, 1, 2, 3, 7, 8, 15, 16, 127, 128, 191, 192, 239, 240, 247, 248, 253, 254, 255}
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			k := append(cp(base), al[r.Intn(len(al))])
			if r.chance(0.3) {
				k = append(k, r.bytes(r.Intn(3), edgeBytes)...)
			}
			ks = append(ks, k)
		}
		if r.chance(0.3) {
			ks = append(ks, base)
		}
	case styleLong:
		lens := []int{9, 10, 15, 16, 17, 19, 20, 21, 22, 31, 32, 33, 34, 40, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300}
		base := r.bytes(lens[r.Intn(len(lens))], nil)
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			var k []byte
			switch r.Intn(4) {
			case 0: // prefix of base extended
				k = append(cp(base[:r.Intn(len(base)+1)]), r.bytes(r.Intn(3), edgeBytes)...)
			case 1: // base and a long tail
				k = append(cp(base), r.bytes(lens[r.Intn(20)], nil)...)
			case 2: // diverges near the end
				k = cp(base)
				k[len(k)-1-r.Intn(min(3, len(k)))] ^= 1 << uint(r.Intn(8))
			default:
				k = append(cp(base), r.bytes(r.Intn(3), edgeBytes)...)
			}
			ks = append(ks, k)
		}
	case styleZero:
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			k := r.bytes(r.Intn(3), []byte{1, 2})
			k = append(k, make([]byte, r.Intn(3))...)
			ks = append(ks, k)
		}
	case styleRandom:
		for i := 0; i < n*3 && len(uniq(ks)) < n; i++ {
			ks = append(ks, r.bytes(1+r.Intn(8), nil))
		}
	case styleDeep:
		k := []byte{}
		for i := 0; len(ks) < n; i++ {
			k = append(k, r.byteOf([]byte{0, 1, 0xff}))
			if r.chance(0.6) {
				ks = append(ks, cp(k))
			}
			if r.chance(0.4) {
				ks = append(ks, append(cp(k), r.byteOf([]byte{0x55, 0x80, 2})))
			}
		}
	}
	return uniq(ks)
}

// values: lengths around the hash sizes, the thresholds and 255/256
var valLens = []int{1, 2, 3, 8, 19, 20, 21, 22, 31, 32, 33, 34, 63, 64, 65, 66, 100, 254, 255, 256, 257, 300}

func genVals(r rng, n int, extra ...int) [][]byte {
	vs := [][]byte{}
	for i := 0; i < n*3 && len(uniq(vs)) < n; i++ {
		l := valLens[r.Intn(len(valLens))]
		if len(extra) > 0 && r.chance(0.4) {
			l = extra[r.Intn(len(extra))]
		}
		if r.chance(0.35) {
			l = 1 + r.Intn(3)
		}
		if l <= 0 {
			l = 1
		}
		v := r.bytes(l, nil)
		switch r.Intn(6) {
		case 0:
			v = bytes.Repeat([]byte{byte(1 + r.Intn(3))}, l)
		case 1:
			// same as an earlier one but for the last or the first byte
			if len(vs) > 0 {
				v = cp(vs[r.Intn(len(vs))])
				p := len(v) - 1
				if r.chance(0.5) {
					p = 0
				}
				v[p] ^= 1
				if len(v) == 1 && v[0] == 0 {
					v[0] = 9
				}
			}
		}
		vs = append(vs, v)
	}
	return uniq(vs)
}

// ---------------------------------------------------------------------------

type contents map[string]string

func (c contents) put(k, v []byte) {
	if len(v) == 0 {
		delete(c, string(k))
	} else {
		c[string(k)] = string(v)
	}
}
func (c contents) clone() contents {
	r := contents{}
	for k, v := range c {
		r[k] = v
	}
	return r
}
func (c contents) sorted() kvList {
	ks := make([]string, 0, len(c))
	for k := range c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	l := kvList{}
	for _, k := range ks {
		l = append(l, [2][]byte{[]byte(k), []byte(c[k])})
	}
	return l
}
func (c contents) shuffled(r rng) kvList {
	l := c.sorted()
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// hist is the driver's own bookkeeping of one object, used only to choose
// interesting operations (never to judge)
type hist struct {
	w       *world
	r       rng
	o       int
	c       Cfg
	keys    [][]byte
	vals    [][]byte
	cur     contents
	com     contents
	per     contents
	dirty   bool // uncommitted changes
	unsaved bool // committed but not persisted
	delP    float64
	keyValP float64
	viaP    float64
	wide    bool    // many keys
	spareP  float64 // the changes are written to another store as well
}

func newHist(w *world, r rng, o, s int, c Cfg, keys, vals [][]byte) *hist {
	return &hist{w: w, r: r, o: o, c: c, keys: keys, vals: vals, cur: contents{}, com: contents{}, per: contents{}, delP: 0.4, viaP: 0.3}
}

// oneUpdate makes one random update or deletion
func (h *hist) oneUpdate() {
	k := h.keys[h.r.Intn(len(h.keys))]
	var v []byte
	if h.r.chance(h.delP) {
		v = nil
		if len(h.cur) > 0 && h.r.chance(0.8) { // mostly delete what is there
			l := h.cur.sorted()
			k = l[h.r.Intn(len(l))][0]
		}
	} else if h.r.chance(h.keyValP) && len(k) > 0 {
		v = cp(k)
	} else {
		v = h.vals[h.r.Intn(len(h.vals))]
	}
	h.put(k, v)
}

func (h *hist) put(k, v []byte) {
	via := viaUpdate
	if h.r.chance(h.viaP) {
		via = h.r.Intn(numVia)
	}
	h.w.upd(h.o, k, v, via)
	h.cur.put(k, v)
	h.dirty = true
	h.w.rec.term(h.c, h.w.model(h.c), v)
	if h.c.Opt && bytes.Equal(k, v) {
		h.w.rec.term(h.c, h.w.model(h.c), unpackOwn(k, h.c.Arity))
	}
}

// unpackOwn is the driver's own unpacking of keys
func unpackOwn(k []byte, ar int) []byte {
	switch ar {
	case 16:
		r := []byte{}
		for _, b := range k {
			r = append(r, b>>4, b&15)
		}
		return r
	case 2:
		r := []byte{}
		for _, b := range k {
			for i := 7; i >= 0; i-- {
				r = append(r, (b>>uint(i))&1)
			}
		}
		return r
	}
	return cp(k)
}

func (h *hist) commit() {
	h.w.commit(h.o)
	h.dirty, h.unsaved = false, true
	h.com = h.cur.clone()
}
func (h *hist) persist() {
	if h.spareP > 0 && h.r.chance(h.spareP) {
		// a store which is not used any more gets the same changes before
		h.w.persistTo(h.o, spareStore)
		if h.r.chance(0.3) {
			h.w.robs(spareStore, h.c, true, h.r.chance(0.5))
		}
	}
	// or a copy of the store, the same changes afterwards
	mirror := h.spareP > 0 && h.r.chance(h.spareP)
	if mirror {
		h.w.copyStore(h.w.objs[h.o].st, spareStore+1)
		pending := h.w.objs[h.o].pending
		defer func() {
			h.w.objs[h.o].pending = pending
			h.w.persistInto(h.o, spareStore+1)
			h.w.objs[h.o].pending = map[string][]byte{}
			h.w.storeKeys(spareStore+1, h.c.Arity)
			if h.r.chance(0.3) {
				h.w.robs(spareStore+1, h.c, true, h.r.chance(0.5))
			}
		}()
	}
	h.w.persist(h.o)
	h.unsaved = false
	h.per = h.com.clone()
}
func (h *hist) clear() {
	h.w.clear(h.o)
	h.dirty, h.unsaved = false, false
	h.cur, h.com = h.per.clone(), h.per.clone()
}

const spareStore = 900

// readAll fetches the nodes of all keys of the universe
func (h *hist) readAll() {
	ob := h.w.objs[h.o]
	for _, k := range h.keys {
		trie.GetProofGeneric(ob.tr, unpackOwn(k, ob.cfg.Arity))
	}
}

// reads makes read accesses of all kinds, whose results are not looked at
func (h *hist) reads(n int) {
	ob := h.w.objs[h.o]
	for i := 0; i < n; i++ {
		h.w.someRead(ob, h.r, h.keys)
	}
}
