// Package main is the conformance driver: it drives the real library (module
// github.com/iotaledger/trie.go, taken from /repo) and records what it does as
// events, which the TLA+ trace specifications in /verif/spec judge.
package main

import (
	"encoding/hex"
	"fmt"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// Ev is one recorded event.
type Ev map[string]interface{}

// Trace is one recorded execution.
type Trace struct {
	Name string `json:"name"`
	Ev   []Ev   `json:"ev"`
}

// ints converts bytes to the integer sequences the specification works with.
func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// Cfg is a configuration of a trie.
type Cfg struct {
	Arity int    // 256, 16, 2
	Hash  int    // 20, 32
	Thr   int    // value size optimization threshold
	Opt   bool   // key commitments
	Model string // "b2b" or "kzg"
}

func (c Cfg) arity() trie.PathArity { return trie.PathArity(c.Arity - 1) }

func (c Cfg) model() trie.CommitmentModel {
	if c.Model == "kzg" {
		return trie_kzg_bn256.Model
	}
	return trie_blake2b.New(c.arity(), trie_blake2b.HashSize(c.Hash), c.Thr)
}

// memKV is a key/value store of the harness itself: it copies everything in and
// out, so that nothing observed in it depends on shared memory, and counts writes.
type memKV struct {
	m      map[string][]byte
	writes int
}

func newMemKV() *memKV { return &memKV{m: make(map[string][]byte)} }
func (s *memKV) Get(k []byte) []byte {
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	return cp(v)
}
func (s *memKV) Has(k []byte) bool { _, ok := s.m[string(k)]; return ok }
func (s *memKV) Set(k, v []byte) {
	s.writes++
	if len(v) == 0 {
		delete(s.m, string(k))
	} else {
		s.m[string(k)] = cp(v)
	}
}
func (s *memKV) sorted() []string {
	r := make([]string, 0, len(s.m))
	for k := range s.m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (s *memKV) Iterate(f func(k, v []byte) bool) {
	for _, k := range s.sorted() {
		if !f([]byte(k), cp(s.m[k])) {
			return
		}
	}
}
func (s *memKV) digest() string {
	var sb strings.Builder
	for _, k := range s.sorted() {
		fmt.Fprintf(&sb, "%x=%x;", k, s.m[k])
	}
	h := trie.Blake2b160([]byte(sb.String()))
	return hex.EncodeToString(h[:])
}
func (s *memKV) clone() *memKV {
	r := newMemKV()
	for k, v := range s.m {
		r.m[k] = cp(v)
	}
	return r
}

// store is a persistent store: the trie records and the values
type store struct {
	trie, val *memKV
	readers   map[string]*trie.TrieReader // opened long ago
}

// obj is one trie under test
type obj struct {
	cfg     Cfg
	model   trie.CommitmentModel
	tr      *trie.Trie
	st      int
	pending map[string][]byte // values changed since the last persist
}

// world executes operations on real objects and records events
type world struct {
	name   string
	ev     []Ev
	stores map[int]*store
	objs   map[int]*obj
	rec    *recorder
	// scribble overwrites every buffer passed to the library after each call
	scribble bool
	// nodeRows collects node data seen, for the global tables
	quiet bool
	calls int
	// models and readers which are used again
	models          map[string]trie.CommitmentModel
	nmodel, nreader int
}

// recorder collects rows for the global tables (node data -> commitment,
// value -> terminal commitment) over all traces
type recorder struct {
	mu    sync.Mutex
	nodes map[string]Ev
	terms map[string]Ev
	kinds map[string]int // events by kind

	hashes map[string]Ev // data of which the hash is used as data
}

func newRecorder() *recorder {
	return &recorder{nodes: map[string]Ev{}, terms: map[string]Ev{}, kinds: map[string]int{}, hashes: map[string]Ev{}}
}

func newWorld(name string, rec *recorder) *world {
	return &world{name: name, stores: map[int]*store{}, objs: map[int]*obj{}, rec: rec, models: map[string]trie.CommitmentModel{}}
}

func (w *world) log(kind string, e Ev) Ev {
	e["e"] = kind
	w.ev = append(w.ev, e)
	return e
}

func (w *world) newStore(s int) {
	w.stores[s] = &store{trie: newMemKV(), val: newMemKV()}
	w.log("store", Ev{"s": s})
}

func (w *world) open(o, s int, c Cfg) {
	st := w.stores[s]
	ob := &obj{cfg: c, model: w.model(c), st: s, pending: map[string][]byte{}}
	ob.tr = trie.New(ob.model, st.trie, st.val, c.Opt)
	w.objs[o] = ob
	w.log("open", Ev{"o": o, "s": s, "ar": c.Arity, "hs": c.Hash, "thr": c.Thr, "opt": c.Opt, "md": c.Model})
}

// clobber overwrites a buffer that the caller owns
func (w *world) clobber(bs ...[]byte) {
	if !w.scribble {
		return
	}
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xA5
		}
	}
}

// via selects the entry point used for a mutation
const (
	viaUpdate = iota
	viaStrB
	viaStrS
	viaIKC
	viaAll
	viaDelete
	viaDelStrB
	viaDelStrS
	numVia
)

type oneKV struct{ k, v []byte }

func (o oneKV) Iterate(f func(k, v []byte) bool) { f(o.k, o.v) }

func (w *world) upd(o int, key, val []byte, via int) {
	ob := w.objs[o]
	k, v := cp(key), cp(val)
	if len(val) == 0 && via == viaUpdate {
		v = nil
	}
	if len(val) != 0 && via >= viaDelete {
		via = viaUpdate
	}
	if via == viaIKC && (len(key) == 0 || string(key) != string(val)) {
		via = viaUpdate
	}
	switch via {
	case viaStrB:
		ob.tr.UpdateStr(k, v)
	case viaStrS:
		ob.tr.UpdateStr(string(k), string(v))
	case viaIKC:
		ob.tr.InsertKeyCommitment(k)
	case viaAll:
		ob.tr.UpdateAll(oneKV{k, v})
	case viaDelete:
		ob.tr.Delete(k)
	case viaDelStrB:
		ob.tr.DeleteStr(k)
	case viaDelStrS:
		ob.tr.DeleteStr(string(k))
	default:
		ob.tr.Update(k, v)
	}
	ob.pending[string(key)] = cp(val)
	same := string(k) == string(key) && string(v) == string(val)
	w.clobber(k, v)
	w.log("upd", Ev{"o": o, "k": ints(key), "v": ints(val), "via": via, "same": same})
}

// updAll hands many pairs to the trie in one call
func (w *world) updAll(o int, kvs kvList) {
	ob := w.objs[o]
	own := kvList{}
	l := []interface{}{}
	for _, p := range kvs {
		own = append(own, [2][]byte{cp(p[0]), cp(p[1])})
		l = append(l, []interface{}{ints(p[0]), ints(p[1])})
		ob.pending[string(p[0])] = cp(p[1])
	}
	ob.tr.UpdateAll(own)
	for _, p := range own {
		w.clobber(p[0], p[1])
	}
	w.log("updall", Ev{"o": o, "kvs": l})
}

type kvList [][2][]byte

func (l kvList) Iterate(f func(k, v []byte) bool) {
	for _, p := range l {
		if !f(p[0], p[1]) {
			return
		}
	}
}

func rootHex(tr trie.NodeStore) string {
	r := trie.RootCommitment(tr)
	if r == nil {
		return ""
	}
	return hex.EncodeToString(r.Bytes())
}

func (w *world) commit(o int) {
	w.objs[o].tr.Commit()
	w.log("commit", Ev{"o": o})
}

func (w *world) persist(o int) {
	ob := w.objs[o]
	st := w.stores[ob.st]
	writes := st.trie.writes
	n := ob.tr.PersistMutations(st.trie)
	for k, v := range ob.pending {
		st.val.Set([]byte(k), v)
	}
	ob.pending = map[string][]byte{}
	w.log("persist", Ev{"o": o, "n": n, "w": st.trie.writes - writes})
}

func (w *world) clear(o int) {
	w.objs[o].tr.ClearCache()
	w.objs[o].pending = map[string][]byte{}
	w.log("clear", Ev{"o": o})
}

func (w *world) clone(o, o2 int) {
	ob := w.objs[o]
	n := *ob
	n.tr = ob.tr.Clone()
	n.pending = map[string][]byte{}
	for k, v := range ob.pending {
		n.pending[k] = cp(v)
	}
	w.objs[o2] = &n
	w.log("clone", Ev{"o": o, "o2": o2})
}

// persistTo writes the buffered changes of o to a copy of its store
func (w *world) persistTo(o, s2 int) {
	w.copyStore(w.objs[o].st, s2)
	w.persistInto(o, s2)
}

// copyStore: the copy comes into being for the specification with the next persistInto
func (w *world) copyStore(s, s2 int) {
	st := w.stores[s]
	w.stores[s2] = &store{trie: st.trie.clone(), val: st.val.clone()}
}

func (w *world) persistInto(o, s2 int) {
	ob := w.objs[o]
	n := w.stores[s2]
	ob.tr.PersistMutations(n.trie)
	for k, v := range ob.pending {
		n.val.Set([]byte(k), v)
	}
	w.log("persistto", Ev{"o": o, "s2": s2})
}

func (w *world) storeKeys(s int, ar int) {
	st := w.stores[s]
	keys := [][]int{}
	for _, k := range st.trie.sorted() {
		keys = append(keys, ints([]byte(k)))
	}
	w.log("skeys", Ev{"s": s, "ar": ar, "keys": keys})
}

// digest records a digest of the persistent store: it may only change by a persist
func (w *world) digest(s int) {
	st := w.stores[s]
	w.log("digest", Ev{"s": s, "d": st.trie.digest() + st.val.digest()})
}

// termBytes gives the terminal commitment itself, without the serialization flags
func termBytes(c Cfg, t trie.TCommitment) []byte {
	if t == nil {
		return nil
	}
	if c.Model == "kzg" {
		return t.Bytes()
	}
	b, err := hex.DecodeString(t.String())
	if err != nil {
		panic(err)
	}
	return b
}

type nodeRow struct {
	key, pf []byte
	cc      []struct {
		i byte
		c string
	}
	t []byte
	c string
}

func sortedKids(n trie.Node) []byte {
	cm := n.ChildCommitments()
	idx := make([]int, 0, len(cm))
	for i := range cm {
		idx = append(idx, int(i))
	}
	sort.Ints(idx)
	r := make([]byte, len(idx))
	for i, x := range idx {
		r[i] = byte(x)
	}
	return r
}

// walk collects all nodes reachable from the root (at most lim)
func (w *world) walkNodes(c Cfg, m trie.CommitmentModel, tr trie.NodeStore, lim int) []Ev {
	res := []Ev{}
	var rec func(key []byte)
	rec = func(key []byte) {
		n, ok := tr.GetNode(key)
		if !ok {
			return
		}
		if len(res) >= lim {
			panic("walk: too many nodes")
		}
		nd := &trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: n.ChildCommitments(), Terminal: n.Terminal()}
		comm := ""
		if vc := m.CalcNodeCommitment(nd); vc != nil {
			comm = hex.EncodeToString(vc.Bytes())
		}
		kids := sortedKids(n)
		ccl := []interface{}{}
		for _, i := range kids {
			ch := n.ChildCommitments()[i]
			h := ""
			if ch != nil {
				h = hex.EncodeToString(ch.Bytes())
			}
			ccl = append(ccl, []interface{}{int(i), h})
		}
		t := termBytes(c, n.Terminal())
		e := Ev{"key": ints(n.Key()), "pf": ints(n.PathFragment()), "cc": ccl, "t": ints(t), "c": comm}
		res = append(res, e)
		w.rec.node(c, e)
		pf := cp(n.PathFragment())
		for _, i := range kids {
			nk := append(append(cp(key), pf...), i)
			rec(nk)
		}
	}
	rec(nil)
	return res
}

func (r *recorder) node(c Cfg, e Ev) {
	row := Ev{"cl": []interface{}{c.Model, c.Arity, c.Hash}, "pf": e["pf"], "cc": e["cc"], "t": e["t"], "c": e["c"]}
	k := fmt.Sprint(row["cl"], row["pf"], row["cc"], row["t"], row["c"])
	r.mu.Lock()
	r.nodes[k] = row
	r.mu.Unlock()
}

// term records the terminal commitment of a value
func (r *recorder) term(c Cfg, m trie.CommitmentModel, v []byte) {
	if len(v) == 0 {
		return
	}
	row := Ev{"cl": []interface{}{c.Model, c.Hash}, "v": ints(v), "t": ints(termBytes(c, m.CommitToData(v)))}
	k := fmt.Sprint(row["cl"], row["v"], row["t"])
	r.mu.Lock()
	r.terms[k] = row
	r.mu.Unlock()
}

// hash puts the hash of data into play
func (r *recorder) hash(data []byte, hs int) []byte {
	h := hashOwn(data, hs)
	r.mu.Lock()
	r.hashes[fmt.Sprint(hs, data)] = Ev{"hs": hs, "x": ints(data), "h": ints(h)}
	r.mu.Unlock()
	return h
}

func (w *world) obs(o int, nodes bool) {
	ob := w.objs[o]
	e := Ev{"o": o, "root": rootHex(ob.tr), "full": nodes}
	if nodes {
		e["nodes"] = w.walkNodes(ob.cfg, ob.model, ob.tr, 5000)
	} else {
		e["nodes"] = []int{}
	}
	w.log("obs", e)
}

// model: every second one is shared by everything that has the same configuration
func (w *world) model(c Cfg) trie.CommitmentModel {
	w.nmodel++
	if w.nmodel%2 == 0 {
		return c.model()
	}
	k := fmt.Sprintf("%+v", c)
	if w.models[k] == nil {
		w.models[k] = c.model()
	}
	return w.models[k]
}

// reader: every second one was opened long ago and follows what is persisted since
func (w *world) reader(s int, c Cfg) (*trie.TrieReader, trie.CommitmentModel) {
	st := w.stores[s]
	w.nreader++
	if w.nreader%2 == 0 {
		m := w.model(c)
		return trie.NewTrieReader(m, st.trie, st.val), m
	}
	k := fmt.Sprintf("%+v", c)
	if st.readers == nil {
		st.readers = map[string]*trie.TrieReader{}
	}
	if st.readers[k] == nil {
		st.readers[k] = trie.NewTrieReader(w.model(c), st.trie, st.val)
	}
	return st.readers[k], st.readers[k].Model()
}

// robs observes the persisted state through a fresh reader or a fresh trie
func (w *world) robs(s int, c Cfg, nodes bool, reader bool) {
	st := w.stores[s]
	m := w.model(c)
	var tr trie.NodeStore
	if reader {
		tr, m = w.reader(s, c)
	} else {
		tr = trie.New(m, st.trie, st.val, c.Opt)
	}
	e := Ev{"s": s, "root": rootHex(tr), "full": nodes, "md": c.Model, "ar": c.Arity, "hs": c.Hash}
	if nodes {
		e["nodes"] = w.walkNodes(c, m, tr, 5000)
	} else {
		e["nodes"] = []int{}
	}
	w.log("robs", e)
}

// build records the root of a trie freshly built from the given pairs in one batch
func (w *world) build(c Cfg, kvs kvList) {
	m := w.model(c)
	tr := trie.New(m, newMemKV(), newMemKV(), c.Opt)
	l := []interface{}{}
	for _, p := range kvs {
		tr.Update(cp(p[0]), cp(p[1]))
		l = append(l, []interface{}{ints(p[0]), ints(p[1])})
	}
	tr.Commit()
	w.log("build", Ev{"md": c.Model, "ar": c.Arity, "hs": c.Hash, "opt": c.Opt, "kvs": l, "root": rootHex(tr)})
}

// runTraces executes the trace generators in parallel, with a watchdog: a panic or a
// hang of the code under test becomes an event.
type job struct {
	name string
	f    func(w *world)
}

const traceTimeout = 90 * time.Second

// await waits until done is closed; false when that takes too long or when the memory
// grows without bounds in the meantime
func await(done chan struct{}) bool {
	end := time.Now().Add(traceTimeout)
	for time.Now().Before(end) && atomic.LoadInt32(&outOfMemory) == 0 {
		select {
		case <-done:
			return true
		case <-time.After(100 * time.Millisecond):
		}
	}
	return false
}

var outOfMemory int32

const memoryLimit = 6 << 30

func watchMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for range time.Tick(20 * time.Millisecond) {
		metrics.Read(s)
		if s[0].Value.Uint64()+s[1].Value.Uint64() > memoryLimit {
			atomic.StoreInt32(&outOfMemory, 1)
		}
	}
}

func runJobs(jobs []job, rec *recorder) []Trace {
	res := make([]Trace, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var hung int32
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if atomic.LoadInt32(&hung) != 0 {
				res[i] = Trace{jobs[i].name + " (not run)", []Ev{}}
				return
			}
			w := newWorld(jobs[i].name, rec)
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() {
					if r := recover(); r != nil {
						w.log("panic", Ev{"msg": trunc(fmt.Sprint(r), 300), "at": where()})
					}
				}()
				jobs[i].f(w)
			}()
			if await(done) {
				res[i] = Trace{w.name, w.ev}
			} else {
				atomic.StoreInt32(&hung, 1)
				res[i] = Trace{jobs[i].name, []Ev{{"e": "panic", "msg": "operation does not terminate", "at": ""}}}
			}
		}(i)
	}
	wg.Wait()
	rec.mu.Lock()
	for _, t := range res {
		for _, e := range t.Ev {
			rec.kinds[e["e"].(string)]++
		}
	}
	rec.mu.Unlock()
	return res
}

func where() string {
	buf := make([]byte, 8192)
	n := runtime.Stack(buf, false)
	out := []string{}
	for _, l := range strings.Split(string(buf[:n]), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return trunc(strings.Join(out, " "), 600)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// emptyKeyCommitment tries to insert a key commitment of the empty key
func (w *world) emptyKeyCommitment(o int) {
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		w.objs[o].tr.InsertKeyCommitment([]byte{})
	}()
	w.log("ikcempty", Ev{"o": o, "refused": refused})
}
