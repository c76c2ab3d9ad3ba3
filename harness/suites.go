package main

import (
	"fmt"
)

// suite produces the recorded executions for one property
type suite struct {
	chk  []string // names of the checks of the trace specification that count
	spec string   // the trace specification that judges the traces
	run  func(seed int64, tier string, rec *recorder) []Trace
}

var suites = map[string]suite{}

func scale(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// randCfg chooses a configuration
func randCfg(r rng) Cfg {
	c := Cfg{Model: "b2b", Arity: []int{256, 16, 2}[r.Intn(3)], Hash: []int{20, 32}[r.Intn(2)]}
	c.Opt = r.chance(0.4)
	if r.chance(0.5) {
		c.Thr = []int{1, 2, 19, 20, 21, 32, 33, 64, 1000}[r.Intn(9)]
	}
	return c
}

func cfgName(c Cfg) string {
	return fmt.Sprintf("%s-%d-%d-thr%d-opt%v", c.Model, c.Arity, c.Hash, c.Thr, c.Opt)
}

// profile of a random history
type profile struct {
	steps    int
	batch    int           // maximal number of updates between commits
	persistP float64       // after a commit
	clearP   float64       // after a persist
	reopenP  float64       // after a persist
	dropP    float64       // clear a dirty or unpersisted cache
	cloneP   float64       // continue with a clone
	readP    float64       // reads between operations
	after    func(h *hist) // after each commit
	afterPer func(h *hist) // after each persist
	each     func(h *hist) // after each step
	dropped  func(h *hist) // after buffered changes were dropped
}

// play runs a random history on object h
func (h *hist) play(p profile) {
	r := h.r
	if h.wide && p.steps > 3 {
		p.steps, p.batch = 3, p.batch*8
	}
	for i := 0; i < p.steps; i++ {
		for n := 1 + r.Intn(p.batch); n > 0; n-- {
			h.oneUpdate()
			if r.chance(p.readP) {
				h.reads(1 + r.Intn(3))
			}
			if p.each != nil {
				p.each(h)
			}
		}
		if r.chance(p.cloneP) {
			h.w.clone(h.o, h.o)
		}
		if r.chance(p.dropP) {
			h.clear()
			if p.dropped != nil {
				p.dropped(h)
			}
			continue
		}
		h.commit()
		if p.each != nil {
			p.each(h)
		}
		if p.after != nil {
			p.after(h)
		}
		if r.chance(p.cloneP) {
			h.w.clone(h.o, h.o)
		}
		if r.chance(p.dropP) {
			h.clear()
			if p.dropped != nil {
				p.dropped(h)
			}
			continue
		}
		if r.chance(p.persistP) {
			h.persist()
			if p.afterPer != nil {
				p.afterPer(h)
			}
			if r.chance(p.clearP) {
				h.clear()
			}
			if r.chance(p.reopenP) {
				h.w.open(h.o, h.w.objs[h.o].st, h.c)
			}
		}
	}
}

var defaultProfile = profile{steps: 14, batch: 6, persistP: 0.5, clearP: 0.4, reopenP: 0.2, dropP: 0.08, cloneP: 0.05, readP: 0.1}

// subSeed derives independent seeds
func subSeed(seed int64, tag string, i int) int64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(fmt.Sprintf("%d|%s|%d", seed, tag, i)) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return int64(h >> 1)
}

func (h *hist) buildSame() { h.w.build(h.c, h.cur.shuffled(h.r)) }

func histJobs(seed int64, tag string, n int, f func(w *world, r rng, i int)) []job {
	jobs := []job{}
	for i := 0; i < n; i++ {
		i := i
		s := subSeed(seed, tag, i)
		jobs = append(jobs, job{fmt.Sprintf("%s#%d seed=%d", tag, i, s), func(w *world) { f(w, newRng(s), i) }})
	}
	return jobs
}

// pickKV chooses universes for trace i such that all styles appear
// genWide are many keys: a node with all children, many branching nodes, long random keys
func genWide(r rng, c Cfg) [][]byte {
	n := 90 + r.Intn(160)
	ks := [][]byte{}
	switch r.Intn(5) {
	case 4: // a tower: every key extends the one before
		k := []byte{}
		for i := 0; i < 300-200*r.Intn(2); i++ {
			k = append(k, r.byteOf([]byte{0, 0x81, 0xff}))
			ks = append(ks, cp(k))
		}
	case 0: // all the symbols at one node
		base := r.bytes(r.Intn(3), nil)
		for i := 0; i < 256; i++ {
			k := append(cp(base), byte(i))
			if r.chance(0.2) {
				k = append(k, r.bytes(r.Intn(3), edgeBytes)...)
			}
			ks = append(ks, k)
		}
	case 1: // dense
		for i := 0; i < n; i++ {
			ks = append(ks, r.bytes(r.Intn(3), []byte{0, 1, 2, 3, 16, 17, 64, 128, 129, 254, 255}))
		}
	case 2:
		for i := 0; i < n; i++ {
			ks = append(ks, r.bytes(2, nil))
		}
	case 3:
		base := r.bytes(r.Intn(20), nil)
		for i := 0; i < n; i++ {
			ks = append(ks, append(cp(base), r.bytes(8, nil)...))
		}
	}
	return uniq(ks)
}

// widen makes an execution one of many keys: most of them are loaded at once
func (h *hist) widen() {
	h.wide = true
	h.keys = genWide(h.r, h.c)
	h.delP = 0.3
	l := kvList{}
	for _, i := range h.r.Perm(len(h.keys)) {
		if h.r.chance(0.9) {
			k, v := h.keys[i], h.vals[h.r.Intn(len(h.vals))]
			l = append(l, [2][]byte{k, v})
			h.cur.put(k, v)
			h.w.rec.term(h.c, h.c.model(), v)
		}
	}
	h.w.updAll(h.o, l)
	h.dirty = true
	h.commit()
	if h.r.chance(0.7) {
		h.persist()
		if h.r.chance(0.5) {
			h.clear()
		}
	}
}

func pickKV(r rng, i int, c Cfg) ([][]byte, [][]byte) {
	style := i % numStyles
	n := 3 + r.Intn(7)
	if style == styleFan {
		n = 8 + r.Intn(12)
	}
	keys := genKeys(r, style, n)
	return keys, genVals(r, 2+r.Intn(3), c.Thr, c.Thr+1)
}

// converge brings the object to the given contents in random order, with commits in between
func (h *hist) converge(target contents) {
	for len(h.diff(target)) > 0 {
		d := h.diff(target)
		h.r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
		if len(d) > 40 { // many pairs are handed over at once
			l := kvList{}
			for _, k := range d[:len(d)-20] {
				l = append(l, [2][]byte{[]byte(k), []byte(target[k])})
				h.cur.put([]byte(k), []byte(target[k]))
			}
			h.w.updAll(h.o, l)
			h.dirty = true
			continue
		}
		for _, k := range d {
			h.put([]byte(k), []byte(target[k]))
			if h.r.chance(0.15) {
				h.commit()
			}
			if h.r.chance(0.1) {
				h.oneUpdate()
			}
		}
	}
}

func (h *hist) diff(target contents) []string {
	d := []string{}
	for _, p := range h.cur.sorted() {
		if target[string(p[0])] != string(p[1]) {
			d = append(d, string(p[0]))
		}
	}
	for _, p := range target.sorted() {
		if _, ok := h.cur[string(p[0])]; !ok {
			d = append(d, string(p[0]))
		}
	}
	return d
}
