package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// Behaviours of TrieImpl replayed into the code. The replayer carries out the operations,
// and after the last of them compares every object and the store with the specification.

func init() {
	replayers["trie"] = func(c *rcase) { replayTrie(c, "plain") }
	replayers["trie-opt"] = func(c *rcase) { replayTrie(c, "opt") }
	replayers["trie-kzg"] = func(c *rcase) { replayTrie(c, "kzg") }
	replayers["trie-recon"] = func(c *rcase) { replayTrie(c, "recon") }
	replayers["trie-proofs"] = func(c *rcase) { replayTrie(c, "proofs") }
}

type tbeh struct {
	Ar   int
	Path []struct {
		Op   string
		O    int
		K, V []int
	}
	Live []int
	Objs []struct {
		O     int
		Cur   [][][]int
		Nodes []tnode
	}
	Sto   [][][]int
	Skeys [][]int
}

// tnode is a node of the specification: key, path fragment, children, terminal
type tnode []interface{}

func anyInts(x interface{}) []byte {
	r := []byte{}
	for _, y := range x.([]interface{}) {
		r = append(r, byte(y.(float64)))
	}
	return r
}

type tvariant struct {
	Cfg
	long bool // values longer than a hash
	self bool // the first value of a key is the key itself
}

func (v tvariant) value(key []byte, x []int) []byte {
	if len(x) == 0 {
		return nil
	}
	if v.self && x[0] == 1 && len(key) > 0 {
		return cp(key)
	}
	s := fmt.Sprintf("value %d of %x.", x[0], key)
	if v.long {
		return []byte(strings.Repeat(s, 3))
	}
	return []byte(fmt.Sprintf("%d.", x[0]))
}

func packOwn(u []byte, ar int) []byte {
	switch ar {
	case 16:
		r := make([]byte, len(u)/2)
		for i := range r {
			r[i] = u[2*i]<<4 | u[2*i+1]
		}
		return r
	case 2:
		r := make([]byte, len(u)/8)
		for i := range u {
			r[i/8] |= u[i] << (7 - i%8)
		}
		return r
	}
	return cp(u)
}

// variantOf chooses the parameters the behaviour is replayed with
func variantOf(c *rcase, ar int, kind string) tvariant {
	h := fnv.New32a()
	h.Write(c.raw)
	n := int(h.Sum32() >> 3)
	v := tvariant{Cfg: Cfg{Arity: ar, Hash: []int{20, 32}[n%2], Model: "b2b"}, long: n/2%3 == 0}
	switch kind {
	case "opt", "recon":
		v.Thr = []int{0, 1, 5, 40, 1000}[n/6%5]
		v.Opt = n/30%2 == 0
		v.self = n/60%4 != 0
	case "kzg":
		v.Cfg = Cfg{Arity: 256, Hash: 32, Model: "kzg"}
	}
	return v
}

func (v tvariant) contents(l [][][]int) kvList {
	r := kvList{}
	for _, p := range l {
		k := packOwn(bs(p[0]), v.Arity)
		r = append(r, [2][]byte{k, v.value(k, p[1])})
	}
	sort.Slice(r, func(i, j int) bool { return string(r[i][0]) < string(r[j][0]) })
	return r
}

func (l kvList) mem() *memKV {
	m := newMemKV()
	for _, p := range l {
		m.Set(p[0], p[1])
	}
	return m
}

type freshRes struct {
	root string
	st   *memKV
}

var freshCache sync.Map

// freshTrie is the root and the store of a trie built from scratch, in the order of the keys
func freshTrie(v tvariant, l kvList) (string, *memKV) {
	key := fmt.Sprintf("%v %x", v, l)
	if r, ok := freshCache.Load(key); ok {
		return r.(freshRes).root, r.(freshRes).st
	}
	st := newMemKV()
	tr := trie.New(v.model(), newMemKV(), newMemKV(), v.Opt)
	for _, p := range l {
		tr.Update(cp(p[0]), cp(p[1]))
	}
	tr.Commit()
	tr.PersistMutations(st)
	r := freshRes{rootHex(tr), st}
	freshCache.Store(key, r)
	return r.root, r.st
}

func (c *rcase) storeEq(check string, want, got *memKV) {
	c.compared++
	if want.digest() == got.digest() {
		return
	}
	show := func(m *memKV) string {
		r := []string{}
		for _, k := range m.sorted() {
			r = append(r, fmt.Sprintf("%x=%x", k, m.m[k]))
		}
		return strings.Join(r, " ")
	}
	c.fail(check, "records: expected %s, code %s", trunc(show(want), 400), trunc(show(got), 400))
}

// nodesEq compares the nodes of the trie with those of the specification
func (c *rcase) nodesEq(v tvariant, m trie.CommitmentModel, tr trie.NodeStore, nodes []tnode) {
	want := map[string]string{}
	for _, n := range nodes {
		key, pf := anyInts(n[0]), anyInts(n[1])
		kids := anyInts(n[2])
		sort.Slice(kids, func(i, j int) bool { return kids[i] < kids[j] })
		x := []int{}
		for _, y := range n[3].([]interface{}) {
			x = append(x, int(y.(float64)))
		}
		t := ""
		if len(x) > 0 {
			k := packOwn(append(cp(key), pf...), v.Arity)
			val := v.value(k, x)
			if v.Opt && string(k) == string(val) {
				val = append(cp(key), pf...)
			}
			t = hex.EncodeToString(termBytes(v.Cfg, m.CommitToData(val)))
		}
		want[hex.EncodeToString(key)] = fmt.Sprintf("%x %x %s", pf, kids, t)
	}
	got := map[string]string{}
	var rec func(key []byte, cm string)
	rec = func(key []byte, cm string) {
		n, ok := tr.GetNode(key)
		if !ok || len(got) > 1000 {
			return
		}
		kids := sortedKids(n)
		got[hex.EncodeToString(key)] = fmt.Sprintf("%x %x %s", n.PathFragment(), kids, hex.EncodeToString(termBytes(v.Cfg, n.Terminal())))
		comm := ""
		if vc := m.CalcNodeCommitment(&trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: n.ChildCommitments(), Terminal: n.Terminal()}); vc != nil {
			comm = hex.EncodeToString(vc.Bytes())
		}
		if cm != "" {
			c.eq("merkle", comm, cm)
		}
		pf := cp(n.PathFragment())
		cc := n.ChildCommitments()
		for _, i := range kids {
			h := "nil"
			if cc[i] != nil {
				h = hex.EncodeToString(cc[i].Bytes())
			}
			rec(append(append(cp(key), pf...), i), h)
		}
	}
	rec(nil, "")
	c.eq("nodes", want, got)
}

func replayTrie(c *rcase, kind string) {
	var b tbeh
	c.parse(&b)
	v := variantOf(c, b.Ar, kind)
	m := v.model()
	st, val := newMemKV(), newMemKV()
	cur := map[int]kvList{} // used for the values only
	set := func(o int, k, x []byte) {
		l := kvList{}
		for _, p := range cur[o] {
			if string(p[0]) != string(k) {
				l = append(l, p)
			}
		}
		if len(x) > 0 {
			l = append(l, [2][]byte{cp(k), cp(x)})
		}
		cur[o] = l
	}
	objs := map[int]*trie.Trie{1: trie.New(m, st, val, v.Opt)}
	dig := st.digest()
	for i, s := range b.Path {
		tr := objs[s.O]
		k := bs(s.K)
		last := i == len(b.Path)-1
		ok := c.call(s.Op, func() {
			switch s.Op {
			case "upd":
				x := v.value(k, s.V)
				set(s.O, k, x)
				if i%3 == 1 {
					tr.UpdateStr(string(k), x)
				} else {
					tr.Update(k, x)
				}
			case "del":
				set(s.O, k, nil)
				if i%2 == 0 {
					tr.Delete(k)
				} else {
					tr.Update(k, nil)
				}
			case "commit":
				tr.Commit()
			case "persist":
				tr.PersistMutations(st)
				nv := cur[s.O].mem()
				val.m = nv.m
				objs = map[int]*trie.Trie{s.O: tr}
				dig = st.digest()
			case "clear":
				tr.ClearCache()
				cur[s.O] = kvList{}
				for _, kk := range val.sorted() {
					set(s.O, []byte(kk), val.m[kk])
				}
			case "read":
				switch i % 3 {
				case 0:
					trie.GetProofGeneric(tr, unpackOwn(k, v.Arity))
				case 1:
					trie.RootCommitment(tr)
					tr.Reconcile(kvList{{k, []byte("1.")}})
				case 2:
					if bm, ok := m.(*trie_blake2b.CommitmentModel); ok {
						bm.Proof(k, tr)
					} else {
						tr.Reconcile(kvList{{k, []byte("1.")}})
					}
				}
			case "clone":
				objs[int(k[0])] = tr.Clone()
				cur[int(k[0])] = append(kvList{}, cur[s.O]...)
			}
		})
		if !ok {
			return
		}
		if last || s.Op != "persist" {
			c.eq("store-untouched", dig, st.digest())
		}
	}
	// the store
	keys := []string{}
	for _, k := range st.sorted() {
		keys = append(keys, hex.EncodeToString([]byte(k)))
	}
	want := []string{}
	for _, k := range b.Skeys {
		want = append(want, hex.EncodeToString(bs(k)))
	}
	sort.Strings(want)
	c.eq("store-records", want, keys)
	sto := v.contents(b.Sto)
	c.call("reading the store", func() {
		ft, fst := freshTrie(v, sto)
		c.storeEq("store-records", fst, st)
		c.eq("store-root", ft, rootHex(trie.NewTrieReader(m, st, val)))
	})
	if len(c.fails) > 0 {
		return
	}
	// the objects, one after another
	for _, o := range b.Objs {
		tr := objs[o.O]
		if tr == nil {
			c.fail("panic", "object %d does not exist in the replay", o.O)
			return
		}
		l := v.contents(o.Cur)
		c.call("commit", func() {
			tr.Commit()
			ft, fst := freshTrie(v, l)
			c.eq("root-function", ft, rootHex(tr))
			c.nodesEq(v, m, tr, o.Nodes)
			// persisted to a copy of the store
			st2 := st.clone()
			tr.PersistMutations(st2)
			c.storeEq("store-records", fst, st2)
			c.eq("root-function", ft, rootHex(tr))
			rd := trie.NewTrieReader(m, st2, l.mem())
			c.eq("store-root", ft, rootHex(rd))
			c.nodesEq(v, m, rd, o.Nodes)
			c.eq("reconcile", 0, len(tr.Reconcile(l.mem())))
			if kind == "recon" {
				c.reconOf(v, tr, l)
			}
			if kind == "proofs" {
				c.proofsOf(v, m.(*trie_blake2b.CommitmentModel), tr, l)
				c.proofsOf(v, m.(*trie_blake2b.CommitmentModel), rd, l)
			}
			if kind == "kzg" {
				c.kzgProofsOf(m.(*trie_kzg_bn256.CommitmentModel), tr, l)
			}
		})
		c.storeDigest(dig, st)
	}
}

func (c *rcase) storeDigest(dig string, st *memKV) { c.eq("store-untouched", dig, st.digest()) }

// probes: the keys of the contents, their prefixes, extensions and siblings
func probes(l kvList) [][]byte {
	m := map[string]bool{"": true, "\x01": true, "\x11": true, "\x80": true, "\x07\x07": true}
	for _, p := range l {
		k := p[0]
		m[string(k)] = true
		m[string(k)+"\x00"] = true
		m[string(k)+"\x11"] = true
		if len(k) > 0 {
			m[string(k[:len(k)-1])] = true
			s := cp(k)
			s[len(s)-1] ^= 1
			m[string(s)] = true
			s[len(s)-1] ^= 0x11
			m[string(s)] = true
		}
	}
	r := [][]byte{}
	for k := range m {
		r = append(r, []byte(k))
	}
	sort.Slice(r, func(i, j int) bool { return string(r[i]) < string(r[j]) })
	return r
}

func (c *rcase) proofsOf(v tvariant, m *trie_blake2b.CommitmentModel, tr trie.NodeStore, l kvList) {
	root := []byte{}
	if r := trie.RootCommitment(tr); r != nil {
		root = r.Bytes()
	}
	vals := l.mem()
	for _, k := range probes(l) {
		k := k
		c.call("proof", func() {
			p := m.Proof(cp(k), tr)
			want := vals.Get(k)
			c.eq("proof-valid", true, trie_blake2b_verify.Validate(p, root) == nil)
			c.eq("proof-claim", want == nil, trie_blake2b_verify.IsProofOfAbsence(p))
			other := []byte("another value")
			c.eq("proof-value", false, trie_blake2b_verify.ValidateWithValue(p, root, other) == nil)
			if want != nil {
				c.eq("proof-value", true, trie_blake2b_verify.ValidateWithValue(p, root, want) == nil)
			}
			q, err := trie_blake2b.ProofFromBytes(p.Bytes())
			c.eq("proof-valid", true, err == nil && trie_blake2b_verify.Validate(q, root) == nil)
			wrong := append(cp(root), 0)
			if len(root) > 0 {
				wrong = cp(root)
				wrong[0] ^= 1
			}
			c.eq("proof-valid", false, trie_blake2b_verify.Validate(p, wrong) == nil)
		})
	}
}

// reconOf reconciles stores which differ from the contents of the trie
func (c *rcase) reconOf(v tvariant, tr *trie.Trie, l kvList) {
	vals := l.mem()
	ps := probes(l)
	for i, k := range ps {
		kvs := vals.clone()
		bad := []string{}
		change := func(k []byte) {
			old := vals.Get(k)
			var nv []byte
			switch i % 3 {
			case 0:
				nv = []byte("another value")
			case 1:
				nv = append(cp(old), 'x')
			case 2:
				nv = cp(k) // a key commitment
				if len(k) == 0 || string(nv) == string(old) {
					nv = []byte("y")
				}
			}
			kvs.Set(k, nv)
			bad = append(bad, hex.EncodeToString(k))
		}
		change(k)
		if i%4 == 0 && len(ps) > 1 {
			if k2 := ps[(i+1)%len(ps)]; string(k2) != string(k) {
				change(k2)
			}
		}
		if i%5 == 0 && len(l) > 0 && string(l[0][0]) != string(k) {
			kvs.Set(l[0][0], nil) // a pair which is missing in the store is not reported
			for j, b := range bad {
				if b == hex.EncodeToString(l[0][0]) {
					bad = append(bad[:j], bad[j+1:]...)
					break
				}
			}
		}
		c.call("Reconcile", func() {
			got := []string{}
			for _, x := range tr.Reconcile(kvs) {
				got = append(got, hex.EncodeToString(x))
			}
			sort.Strings(got)
			sort.Strings(bad)
			c.eq("reconcile", bad, got)
		})
	}
}

func (c *rcase) kzgProofsOf(m *trie_kzg_bn256.CommitmentModel, tr trie.NodeStore, l kvList) {
	vals := l.mem()
	for i, k := range probes(l) {
		if i%3 != c.steps%3 {
			continue
		}
		k := k
		c.call("proof", func() {
			p, ok := m.ProofOfInclusion(cp(k), tr)
			want := vals.Get(k)
			c.eq("kzg-inclusion", want != nil, ok)
			if want != nil && ok {
				root := trie.RootCommitment(tr)
				c.eq("kzg-valid", true, p.Validate(root) == nil)
				c.eq("kzg-value", true, p.Validate(root, want) == nil)
				c.eq("kzg-value", false, p.Validate(root, []byte("another")) == nil)
			}
		})
	}
}
