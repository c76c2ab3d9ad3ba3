package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// subject is a trie seen through some node store, together with the fields by which
// the specification finds its contents
type subject struct {
	src string // "o": trie object, "s": persisted state of a store
	id  int
	c   Cfg
	m   trie.CommitmentModel
	ns  trie.NodeStore
}

func (w *world) subjObj(o int) subject {
	ob := w.objs[o]
	return subject{"o", o, ob.cfg, ob.model, ob.tr}
}

func (w *world) subjReader(s int, c Cfg) subject {
	rd, m := w.reader(s, c)
	return subject{"s", s, c, m, rd}
}

func (s subject) ev() Ev {
	return Ev{"src": s.src, "o": s.id, "ar": s.c.Arity, "hs": s.c.Hash, "md": s.c.Model, "opt": s.c.Opt}
}

func (s subject) rootBytes() []byte {
	r := trie.RootCommitment(s.ns)
	if r == nil {
		return nil
	}
	return r.Bytes()
}

func pairsOf(vals [][]byte, ok []bool) []interface{} {
	l := []interface{}{}
	for i, v := range vals {
		l = append(l, []interface{}{ints(v), ok[i]})
	}
	return l
}

// nodeComms lists the commitments of the nodes along the path of a key
func (s subject) nodeComms(uk []byte) []interface{} {
	l := []interface{}{}
	var key []byte
	for {
		n, ok := s.ns.GetNode(key)
		if !ok {
			return l
		}
		c := s.m.CalcNodeCommitment(&trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: n.ChildCommitments(), Terminal: n.Terminal()})
		h := ""
		if c != nil {
			h = hex.EncodeToString(c.Bytes())
		}
		l = append(l, []interface{}{ints(key), h})
		p := len(key) + len(n.PathFragment())
		if len(uk) <= p || !bytes.HasPrefix(uk[len(key):], n.PathFragment()) {
			return l
		}
		key = append(append(cp(key), n.PathFragment()...), uk[p])
	}
}

// search records the way of a search
func (w *world) search(s subject, r rng, key []byte) {
	uk := unpackOwn(key, s.c.Arity)
	if len(uk) > 0 && r.chance(0.3) {
		uk = uk[:r.Intn(len(uk)+1)] // also paths which are not whole keys
	}
	e := s.ev()
	e["uk"] = ints(uk)
	in := cp(uk)
	g := trie.GetProofGeneric(s.ns, in)
	way := []interface{}{}
	for _, k := range g.Path {
		way = append(way, ints(k))
	}
	e["way"] = way
	switch {
	case len(g.Path) == 0:
		e["end"] = "none"
	case g.Ending == trie.EndingTerminal:
		e["end"] = "terminal"
	case g.Ending == trie.EndingSplit:
		e["end"] = "split"
	case g.Ending == trie.EndingExtend:
		e["end"] = "extend"
	default:
		e["end"] = fmt.Sprint(g.Ending)
	}
	w.log("search", e)
}

// proof obtains the proof for a key and records its verdicts
func (w *world) proof(s subject, key []byte, vals [][]byte) *trie_blake2b.Proof {
	k := cp(key)
	p := s.m.(*trie_blake2b.CommitmentModel).Proof(k, s.ns)
	w.clobber(k)
	root := s.rootBytes()
	e := s.ev()
	e["k"] = ints(key)
	e["pk"] = ints(p.Key)
	e["valid"] = trie_blake2b_verify.Validate(p, root) == nil
	mk, mt := trie_blake2b_verify.MustKeyWithTerminal(p)
	e["mkey"] = ints(mk)
	e["mterm"] = ints(mt)
	e["abs"] = trie_blake2b_verify.IsProofOfAbsence(p)
	ok := make([]bool, len(vals))
	for i, v := range vals {
		ok[i] = trie_blake2b_verify.ValidateWithValue(p, root, v) == nil
	}
	e["vals"] = pairsOf(vals, ok)
	e["ct"] = hex.EncodeToString(trie_blake2b_verify.CommitmentToTheTerminalNode(p))
	e["cs"] = s.nodeComms(unpackOwn(key, s.c.Arity))
	w.log("proof", e)
	return p
}

// kproof obtains the KZG proof of inclusion for a key and records its verdicts
func (w *world) kproof(s subject, key []byte, vals [][]byte) *trie_kzg_bn256.ProofOfInclusion {
	k := cp(key)
	p, given := s.m.(*trie_kzg_bn256.CommitmentModel).ProofOfInclusion(k, s.ns)
	w.clobber(k)
	e := s.ev()
	e["k"] = ints(key)
	e["given"] = given
	if !given {
		p = nil
		e["valid"], e["pk"], e["vals"], e["rt"] = false, []int{}, []int{}, false
	} else {
		root := trie.RootCommitment(s.ns)
		e["valid"] = p.Validate(root) == nil
		e["pk"] = ints(p.Key)
		ok := make([]bool, len(vals))
		for i, v := range vals {
			ok[i] = p.Validate(root, v) == nil
		}
		e["vals"] = pairsOf(vals, ok)
		b := p.Bytes()
		q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b)
		e["rt"] = err == nil && bytes.Equal(q.Bytes(), b) && bytes.Equal(q.Key, p.Key) && q.Validate(root) == nil
	}
	w.log("kproof", e)
	return p
}

// recon reconciles a set of pairs with the trie
func (w *world) recon(o int, kvs kvList) {
	ob := w.objs[o]
	in := kvList{}
	l := []interface{}{}
	for _, p := range kvs {
		in = append(in, [2][]byte{cp(p[0]), cp(p[1])})
		l = append(l, []interface{}{ints(p[0]), ints(p[1])})
	}
	res := []interface{}{}
	for _, k := range ob.tr.Reconcile(in) {
		res = append(res, ints(k))
	}
	w.log("recon", Ev{"o": o, "kvs": l, "res": res})
}

// ---------------------------------------------------------------------------
// the adversary

func cloneProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	q := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: cp(p.Key)}
	for _, e := range p.Path {
		q.Path = append(q.Path, cloneElem(e))
	}
	return q
}

func cloneElem(e *trie_blake2b.ProofElement) *trie_blake2b.ProofElement {
	f := &trie_blake2b.ProofElement{PathFragment: cp(e.PathFragment), Children: map[byte][]byte{}, ChildIndex: e.ChildIndex}
	if e.Terminal != nil {
		f.Terminal = cp(e.Terminal)
	}
	for i, c := range e.Children {
		f.Children[i] = cp(c)
	}
	return f
}

func elemIdx(e *trie_blake2b.ProofElement) []byte {
	r := []byte{}
	for i := range e.Children {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// hashOf is the commitment of an element as the verifier calculates it
func hashOf(p *trie_blake2b.Proof, i int) (ret []byte) {
	// it is only defined for well formed proofs
	defer func() {
		if recover() != nil {
			ret = nil
		}
	}()
	q := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Path: p.Path[i:]}
	return trie_blake2b_verify.CommitmentToTheTerminalNode(q)
}

// the positions following those of the children in the vector of a node
func termIdx(arity int) int { return arity }
func fragIdx(arity int) int { return arity + 1 }

// tamper makes one manipulation of a proof; others are proofs to take material from
func tamper(r rng, p *trie_blake2b.Proof, others []*trie_blake2b.Proof, keys [][]byte) {
	ar := int(p.PathArity) + 1
	sym := func() byte {
		if ar == 256 {
			return edgeBytes[r.Intn(len(edgeBytes))]
		}
		return byte(r.Intn(ar))
	}
	idx := func() int {
		switch r.Intn(5) {
		case 0:
			return termIdx(ar)
		case 1:
			return fragIdx(ar)
		case 2:
			return int(sym())
		case 3:
			return ar + 1 + r.Intn(3)
		default:
			return []int{-1, 255, 256, 257, 258, 65535}[r.Intn(6)]
		}
	}
	el := func() *trie_blake2b.ProofElement { return p.Path[r.Intn(len(p.Path))] }
	if len(p.Path) == 0 {
		if len(others) > 0 {
			o := others[r.Intn(len(others))]
			if len(o.Path) > 0 {
				p.Path = append(p.Path, cloneElem(o.Path[len(o.Path)-1]))
			}
		}
		p.Key = cp(keys[r.Intn(len(keys))])
		return
	}
	last := p.Path[len(p.Path)-1]
	switch r.Intn(20) {
	case 0: // about another key
		p.Key = unpackOwn(keys[r.Intn(len(keys))], ar)
	case 1: // longer key
		p.Key = append(p.Key, sym())
	case 2: // shorter key
		if len(p.Key) > 0 {
			p.Key = p.Key[:r.Intn(len(p.Key))]
		}
	case 3: // change a symbol of the key
		if len(p.Key) > 0 {
			p.Key[r.Intn(len(p.Key))] = sym()
		}
	case 4:
		el().ChildIndex = idx()
	case 5:
		last.ChildIndex = idx()
	case 6: // cut at the end
		p.Path = p.Path[:len(p.Path)-1]
		if len(p.Path) > 0 && r.chance(0.7) {
			l := p.Path[len(p.Path)-1]
			l.ChildIndex = []int{termIdx(ar), fragIdx(ar)}[r.Intn(2)]
		}
	case 7: // cut at the beginning
		p.Path = p.Path[1:]
		if r.chance(0.7) && len(p.Key) > 0 {
			p.Key = p.Key[1+r.Intn(len(p.Key)):]
		}
	case 8: // cut and close the hole with the commitment of the cut part
		if len(p.Path) > 1 {
			i := r.Intn(len(p.Path)-1) + 1
			c := hashOf(p, len(p.Path)-1)
			if i == len(p.Path)-1 {
				e := p.Path[i-1]
				if e.ChildIndex >= 0 && e.ChildIndex < ar {
					e.Children[byte(e.ChildIndex)] = c
				}
				e.ChildIndex = []int{termIdx(ar), fragIdx(ar), int(sym())}[r.Intn(3)]
				p.Path = p.Path[:i]
			}
		}
	case 9: // the terminal
		e := el()
		switch r.Intn(6) {
		case 0:
			e.Terminal = nil
		case 1:
			e.Terminal = []byte{}
		case 2:
			e.Terminal = append(cp(e.Terminal), 0)
		case 3:
			if len(e.Terminal) > 0 {
				e.Terminal = e.Terminal[:len(e.Terminal)-1]
			}
		case 4:
			e.Terminal = append(cp(e.Terminal), bytes.Repeat([]byte{0}, int(p.HashSize))...)
			e.Terminal = append(e.Terminal, 7)
		default:
			e.Terminal = []byte{byte(r.Intn(3))}
		}
	case 10: // path fragment
		e := el()
		switch r.Intn(4) {
		case 0:
			e.PathFragment = append(cp(e.PathFragment), 0)
		case 1:
			if len(e.PathFragment) > 0 {
				e.PathFragment = e.PathFragment[:len(e.PathFragment)-1]
			}
		case 2:
			e.PathFragment = append(cp(e.PathFragment), sym())
		default:
			e.PathFragment = nil
		}
	case 11: // children
		e := el()
		ix := elemIdx(e)
		if len(ix) > 0 {
			delete(e.Children, ix[r.Intn(len(ix))])
		}
	case 12:
		e := el()
		ix := elemIdx(e)
		if len(ix) > 0 { // move a child
			i := ix[r.Intn(len(ix))]
			c := e.Children[i]
			delete(e.Children, i)
			e.Children[sym()] = c
		} else {
			e.Children[sym()] = bytes.Repeat([]byte{1}, int(p.HashSize))
		}
	case 13:
		e := el()
		e.Children[sym()] = [][]byte{nil, {}, make([]byte, int(p.HashSize)), make([]byte, int(p.HashSize)+1), make([]byte, 100)}[r.Intn(5)]
	case 14: // splice the tail of another proof
		if len(others) > 0 {
			o := others[r.Intn(len(others))]
			if len(o.Path) > 0 {
				i := r.Intn(len(o.Path))
				n := r.Intn(len(p.Path) + 1)
				p.Path = p.Path[:n]
				for _, e := range o.Path[i:] {
					p.Path = append(p.Path, cloneElem(e))
				}
			}
		}
	case 15: // the key and the ending of another proof, or its path
		if len(others) > 0 {
			o := others[r.Intn(len(others))]
			if r.chance(0.5) {
				p.Key = cp(o.Key)
			} else {
				p.Path = cloneProof(o).Path
			}
		}
	case 16:
		p.PathArity = []trie.PathArity{255, 15, 1, 0, 254, 2}[r.Intn(6)]
	case 17:
		p.HashSize = []trie_blake2b.HashSize{20, 32, 0, 33, 19}[r.Intn(5)]
	case 18: // duplicate or swap elements
		i, j := r.Intn(len(p.Path)), r.Intn(len(p.Path))
		if r.chance(0.5) {
			p.Path[i], p.Path[j] = p.Path[j], p.Path[i]
		} else {
			p.Path = append(p.Path[:i+1:i+1], p.Path[i:]...)
			p.Path[i] = cloneElem(p.Path[i])
		}
	case 19: // symbols out of range
		if len(p.Key) > 0 {
			p.Key[r.Intn(len(p.Key))] = []byte{16, 2, 255}[r.Intn(3)]
		}
	}
}

// adversary presents manipulated proofs against the root of the subject and records
// what was accepted
func (w *world) adversary(s subject, r rng, honest []*trie_blake2b.Proof, keys, vals [][]byte, n int) {
	root := s.rootBytes()
	seen := map[string]bool{}
	rejected := 0
	present := func(p *trie_blake2b.Proof) {
		if trie_blake2b_verify.Validate(p, root) != nil {
			for _, v := range vals {
				if trie_blake2b_verify.ValidateWithValue(p, root, v) == nil {
					w.log("panic", Ev{"msg": "ValidateWithValue accepts what Validate rejects", "at": ""})
				}
			}
			rejected++
			return
		}
		e := s.ev()
		mk, mt := trie_blake2b_verify.MustKeyWithTerminal(p)
		if len(p.Path) == 0 {
			mk = p.Key
		}
		abs := trie_blake2b_verify.IsProofOfAbsence(p)
		vacc := []interface{}{}
		for _, v := range vals {
			if trie_blake2b_verify.ValidateWithValue(p, root, v) == nil {
				vacc = append(vacc, ints(v))
			}
		}
		e["mkey"], e["mterm"], e["abs"], e["vacc"] = ints(mk), ints(mt), abs, vacc
		k := fmt.Sprint(e["mkey"], e["mterm"], abs, vacc)
		if seen[k] {
			return
		}
		seen[k] = true
		w.log("adv", e)
	}
	for i := 0; i < n; i++ {
		p := cloneProof(honest[r.Intn(len(honest))])
		for j := 1 + r.Intn(3); j > 0; j-- {
			tamper(r, p, honest, keys)
		}
		present(p)
		if r.chance(0.1) { // the same proof through the wire format
			func() {
				defer func() { _ = recover() }() // not every in-memory proof can be serialized
				b := p.Bytes()
				if len(b) > 2 && r.chance(0.5) {
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				}
				p = nil
				if q, err := trie_blake2b.ProofFromBytes(b); err == nil {
					p = q
				}
			}()
			if p != nil {
				present(p)
			}
		}
	}
	// the hash of a path fragment in its place
	for _, h := range honest {
		pos := 0
		for i, e := range h.Path {
			if n := len(e.PathFragment); n > int(h.HashSize) && len(h.Key) >= pos+n {
				q := cloneProof(h)
				hp := w.rec.hash(e.PathFragment, int(h.HashSize))
				q.Path[i].PathFragment = hp
				q.Key = append(append(cp(h.Key[:pos]), hp...), h.Key[pos+n:]...)
				present(q)
			}
			pos += len(e.PathFragment) + 1
		}
	}
	// systematic: every honest path with every key and every ending
	for _, h := range honest {
		ks := [][]byte{}
		for _, k := range keys {
			uk := unpackOwn(k, s.c.Arity)
			ks = append(ks, uk)
			if len(uk) > 0 {
				ks = append(ks, uk[:len(uk)-1])
			}
			ks = append(ks, append(cp(uk), 0))
		}
		for _, k := range ks {
			for cut := 1; cut <= len(h.Path); cut++ {
				for _, ci := range []int{h.PathArity.TerminalCommitmentIndex(), h.PathArity.PathFragmentCommitmentIndex(), -1} {
					q := cloneProof(h)
					q.Key = k
					q.Path = q.Path[:cut]
					if ci >= 0 {
						if cut < len(h.Path) {
							// close the hole left by the cut
							e := q.Path[cut-1]
							full := cloneProof(h)
							c := subHash(full, cut)
							if c != nil && h.PathArity.IsChildIndex(e.ChildIndex) {
								e.Children[byte(e.ChildIndex)] = c
							}
						}
						q.Path[cut-1].ChildIndex = ci
					}
					present(q)
				}
			}
		}
	}
	w.rec.count("adversarial proofs rejected", rejected)
}

// subHash calculates the commitment of the subtrie at path position i of an honest proof
func subHash(p *trie_blake2b.Proof, i int) []byte {
	q := cloneProof(p)
	for j := len(q.Path) - 1; j >= i; j-- {
		h := hashOf(&trie_blake2b.Proof{PathArity: q.PathArity, HashSize: q.HashSize, Path: q.Path[j : j+1]}, 0)
		if j == i {
			return h
		}
		e := q.Path[j-1]
		if !q.PathArity.IsChildIndex(e.ChildIndex) {
			return nil
		}
		e.Children[byte(e.ChildIndex)] = h
		e.ChildIndex = q.PathArity.TerminalCommitmentIndex()
	}
	return nil
}

func (r *recorder) count(k string, n int) {
	r.mu.Lock()
	r.kinds[k] += n
	r.mu.Unlock()
}
