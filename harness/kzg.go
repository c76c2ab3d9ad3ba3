package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
	"golang.org/x/crypto/blake2b"
)

func init() {
	trieSuite("C16", 300, 4000, []string{"root-function", "root-injective", "merkle", "terminals", "node-function", "node-injective",
		"term-function", "term-injective", "kzg-incremental"}, kzgTrace)
	trieSuite("C17", 64, 1200, []string{"kzg-inclusion", "kzg-valid", "kzg-key", "kzg-value", "kzg-roundtrip", "kzg-refuse", "kzg-write-error"}, kzgProofTrace)
}

func kzgCfg(r rng) Cfg {
	return Cfg{Model: "kzg", Arity: 256, Hash: 0, Opt: r.chance(0.3)}
}

func kzgHist(w *world, r rng, i int, o, s int) *hist {
	c := kzgCfg(r)
	h := setup(w, r, i, o, s, c)
	if len(h.keys) > 10 {
		h.keys = h.keys[:10]
	}
	return h
}

// kzgWideHist: nodes with many children, all of them if need be
func kzgWideHist(w *world, r rng, i int) *hist {
	h := setup(w, r, i, 1, 1, kzgCfg(r))
	h.wide = true
	base := r.bytes(r.Intn(2), nil)
	n := []int{60, 127, 128, 129, 200, 255, 256}[r.Intn(7)]
	h.keys = [][]byte{cp(base)}
	for _, x := range r.Perm(256)[:n] {
		k := append(cp(base), byte(x))
		if r.chance(0.1) {
			k = append(k, r.bytes(1+r.Intn(3), nil)...)
		}
		h.keys = append(h.keys, k)
	}
	l := kvList{}
	for _, k := range h.keys {
		v := h.vals[r.Intn(len(h.vals))]
		l = append(l, [2][]byte{k, v})
		h.cur.put(k, v)
		w.rec.term(h.c, h.c.model(), v)
	}
	w.updAll(1, l)
	h.dirty = true
	h.commit()
	return h
}

func kzgWide(w *world, r rng, i int) {
	h := kzgWideHist(w, r, i)
	w.obs(1, true)
	if r.chance(0.5) {
		h.persist()
		w.robs(1, h.c, true, false)
		if r.chance(0.5) {
			h.clear()
		}
	}
	for b := 0; b < 4; b++ {
		for n := 1 + r.Intn(4); n > 0; n-- {
			h.oneUpdate()
		}
		h.commit()
		w.obs(1, b == 3)
	}
	h.buildSame()
}

func kzgTrace(w *world, r rng, i int) {
	if i%50 == 12 {
		kzgWide(w, r, i)
		return
	}
	if i%8 == 7 {
		kzgIncremental(w, r)
		return
	}
	h := kzgHist(w, r, i, 1, 1)
	p := defaultProfile
	p.steps, p.batch = 6, 4
	p.after = func(h *hist) {
		h.w.obs(1, h.r.chance(0.7))
		if h.r.chance(0.3) {
			h.buildSame()
		}
	}
	p.afterPer = func(h *hist) {
		h.w.robs(1, h.c, h.r.chance(0.4), h.r.chance(0.5))
	}
	p.each = nil
	h.play(p)
	h.commit()
	h.w.obs(1, true)
	h.buildSame()
	// another way to the same contents
	target := h.cur.clone()
	g := h.sibling(2, 2, h.c)
	for n := 0; n < 3; n++ {
		g.oneUpdate()
	}
	if r.chance(0.5) {
		g.commit()
	}
	g.converge(target)
	g.commit()
	if r.chance(0.5) {
		g.persist()
	}
	w.obs(2, true)
	// and back to nothing
	if r.chance(0.3) {
		h.converge(contents{})
		h.commit()
		w.obs(1, true)
	}
}

// kzgIncremental compares the incremental calculation with the calculation from scratch
func kzgIncremental(w *world, r rng) {
	m := trie_kzg_bn256.Model
	comm := func() trie.VCommitment {
		return m.CalcNodeCommitment(&trie.NodeData{PathFragment: r.bytes(2, nil), Terminal: m.CommitToData(r.bytes(3, nil))})
	}
	term := func() trie.TCommitment {
		if r.chance(0.35) {
			return nil
		}
		return m.CommitToData(r.bytes(1, []byte{1, 2, 3}))
	}
	pool := []trie.VCommitment{comm(), comm(), comm()}
	n := &trie.NodeData{PathFragment: r.bytes(r.Intn(3), nil), ChildCommitments: map[byte]trie.VCommitment{}}
	al := []byte{0, 1, 2, 254, 255, byte(r.Intn(256))}
	for j := r.Intn(5); j > 0; j-- {
		n.ChildCommitments[r.byteOf(al)] = pool[r.Intn(3)].Clone()
	}
	n.Terminal = term()
	cur := m.CalcNodeCommitment(n)
	for step := 0; step < 12; step++ {
		upd := map[byte]trie.VCommitment{}
		for j := r.Intn(4); j > 0; j-- {
			i := r.byteOf(al)
			if r.chance(0.4) {
				upd[i] = nil
			} else {
				upd[i] = pool[r.Intn(3)].Clone()
			}
		}
		t := n.Terminal
		if r.chance(0.6) {
			t = term()
		}
		prev := cur.Clone()
		calcDelta := r.chance(0.7)
		m.UpdateNodeCommitment(n, upd, calcDelta, t, &cur)
		want := map[byte]string{}
		scratch := m.CalcNodeCommitment(n)
		w.log("same", Ev{"name": "kzg-incremental", "a": hex.EncodeToString(scratch.Bytes()), "b": hex.EncodeToString(cur.Bytes()),
			"prev": hex.EncodeToString(prev.Bytes()), "delta": calcDelta, "upd": len(upd)})
		_ = want
		w.rec.node(Cfg{Model: "kzg", Arity: 256}, nodeEv(Cfg{Model: "kzg", Arity: 256}, n, cur))
		if r.chance(0.3) {
			// without a commitment to update: only the data change
			upd := map[byte]trie.VCommitment{r.byteOf(al): pool[r.Intn(3)].Clone()}
			m.UpdateNodeCommitment(n, upd, false, n.Terminal, nil)
			cur = m.CalcNodeCommitment(n)
		}
	}
}

// nodeEv describes node data as a row of the tables
func nodeEv(c Cfg, n *trie.NodeData, comm trie.VCommitment) Ev {
	ccl := []interface{}{}
	for i := 0; i < 256; i++ {
		if ch, ok := n.ChildCommitments[byte(i)]; ok {
			ccl = append(ccl, []interface{}{i, hex.EncodeToString(ch.Bytes())})
		}
	}
	return Ev{"pf": ints(n.PathFragment), "cc": ccl, "t": ints(termBytes(c, n.Terminal)), "c": hex.EncodeToString(comm.Bytes())}
}

// ---------------------------------------------------------------------------
// proofs of inclusion

func kclone(p *trie_kzg_bn256.ProofOfInclusion) *trie_kzg_bn256.ProofOfInclusion {
	q := &trie_kzg_bn256.ProofOfInclusion{Key: cp(p.Key), Terminal: p.Terminal.Clone()}
	for _, e := range p.Path {
		q.Path = append(q.Path, &trie_kzg_bn256.ProofElement{C: e.C.Clone(), VectorIndex: e.VectorIndex, Proof: e.Proof.Clone()})
	}
	return q
}

// kbody identifies what a proof claims, apart from the key, which it does not bind
func kbody(p *trie_kzg_bn256.ProofOfInclusion) string {
	s := p.Terminal.String()
	for _, e := range p.Path {
		s += fmt.Sprintf("|%s,%d,%s", e.C, e.VectorIndex, e.Proof)
	}
	return s
}

// ownProve is the prover for one position of the vector of a node, written for the adversary
func ownProve(n trie.Node, idx int) (kyber.Point, kyber.Scalar) {
	m := trie_kzg_bn256.Model
	g := m.Suite.G1()
	vec := make([]kyber.Scalar, 258)
	for i := range vec {
		vec[i] = g.Scalar().Zero()
	}
	for i, c := range n.ChildCommitments() {
		h := blake2b.Sum256(c.Bytes())
		vec[i] = g.Scalar().SetBytes(h[:])
	}
	if n.Terminal() != nil {
		vec[256] = g.Scalar()
		if err := vec[256].UnmarshalBinary(n.Terminal().Bytes()); err != nil {
			panic(err)
		}
	}
	h1 := blake2b.Sum256(n.PathFragment())
	h2 := blake2b.Sum256(h1[:])
	vec[257] = g.Scalar().SetBytes(h2[:])
	pi := g.Point().Null()
	own := g.Scalar().Zero()
	for j := range vec {
		if j == idx {
			continue
		}
		num := g.Scalar().Sub(vec[j], vec[idx])
		// (v_j - v_i) / (d_j - d_i)
		den := g.Scalar().Sub(m.Domain[j], m.Domain[idx])
		q := g.Scalar().Div(num, den)
		pi.Add(pi, g.Point().Mul(q, m.LagrangeBasis[j]))
		// (v_j - v_i) A'(i) / (A'(j) (d_i - d_j))
		t := g.Scalar().Mul(num, m.AprimeDomainI[idx])
		t.Div(t, m.AprimeDomainI[j])
		t.Div(t, g.Scalar().Neg(den))
		own.Add(own, t)
	}
	pi.Add(pi, g.Point().Mul(own, m.LagrangeBasis[idx]))
	return pi, vec[idx]
}

func kzgProofTrace(w *world, r rng, i int) {
	var h *hist
	if i%32 == 9 {
		h = kzgWideHist(w, r, i)
	} else {
		h = kzgHist(w, r, i, 1, 1)
	}
	m := trie_kzg_bn256.Model
	g := m.Suite.G1()
	otherRoots := []trie.VCommitment{}
	for round := 0; round < 2; round++ {
		for n := 3 + r.Intn(6); n > 0; n-- {
			h.oneUpdate()
		}
		if r.chance(0.4) {
			h.commit()
			h.oneUpdate()
		}
		h.commit()
		src := w.subjObj(1)
		if r.chance(0.4) {
			h.persist()
			src = w.subjReader(1, h.c)
		}
		root := trie.RootCommitment(src.ns)
		honest := map[string]bool{}
		var ps []*trie_kzg_bn256.ProofOfInclusion
		probes := h.probeKeys(5)
		for _, kv := range h.cur.shuffled(r) {
			if len(probes) < 9 {
				probes = append(probes, kv[0])
			}
		}
		for _, k := range uniq(probes) {
			p := w.kproof(src, k, h.probeVals(k, h.cur))
			if p != nil {
				honest[kbody(p)] = true
				ps = append(ps, p)
				if len(ps) == 1 && round == 0 && i%16 == 3 { // too long to be written
					for _, n := range []int{65536, 65537 + r.Intn(100000)} {
						q := &trie_kzg_bn256.ProofOfInclusion{Key: p.Key, Terminal: p.Terminal, Path: make([]*trie_kzg_bn256.ProofElement, n)}
						for j := range q.Path {
							q.Path[j] = p.Path[0]
						}
						acc := 0
						if q.Write(io.Discard) == nil {
							acc = 1
						}
						w.log("refuse", Ev{"name": "kzg-write-error", "how": "too many elements", "acc": acc})
					}
				}
				if len(ps) == 1 {
					w.full(r, "kzg-write-error", p.Bytes(), p.Write)
				}
			}
		}
		refuse := func(how string, q *trie_kzg_bn256.ProofOfInclusion, rt trie.VCommitment, val ...[]byte) {
			acc := 0
			if q.Validate(rt, val...) == nil {
				acc = 1
			}
			w.log("refuse", Ev{"name": "kzg-refuse", "how": how, "acc": acc})
		}
		// refuseChanged: unless the change happens to give another honest proof
		refuseChanged := func(how string, q *trie_kzg_bn256.ProofOfInclusion) {
			if !honest[kbody(q)] {
				refuse(how, q, root)
			}
		}
		for _, p := range ps {
			// another root
			for _, rt := range otherRoots {
				if !bytes.Equal(rt.Bytes(), root.Bytes()) {
					refuse("root", p, rt)
				}
			}
			refuse("no root", p, nil)
			if len(p.Path) > 1 {
				refuse("root of a subtrie", p, childComm(src, p))
			}
			// no value at all is another value
			refuse("empty value", p, root, []byte{})
			refuse("nil value", p, root, nil)
			for n := 10; n > 0; n-- {
				q := kclone(p)
				o := ps[r.Intn(len(ps))]
				j := r.Intn(len(q.Path))
				l := r.Intn(len(o.Path))
				how := ""
				switch r.Intn(14) {
				case 0:
					how = "terminal of another proof"
					q.Terminal = o.Terminal.Clone()
				case 1:
					how = "terminal"
					q.Terminal = g.Scalar().Add(q.Terminal, g.Scalar().One())
				case 2:
					how = "terminal zero"
					q.Terminal = g.Scalar().Zero()
				case 3:
					how = "vector index"
					q.Path[j].VectorIndex = []uint16{0, 1, 255, 256, 257, 258, 259, 511, 512, 65535, q.Path[j].VectorIndex + 1, q.Path[j].VectorIndex + 256}[r.Intn(12)]
				case 4:
					how = "commitment of another element"
					q.Path[j].C = o.Path[l].C.Clone()
				case 5:
					how = "point of another element"
					q.Path[j].Proof = o.Path[l].Proof.Clone()
				case 6:
					how = "point"
					q.Path[j].Proof = g.Point().Add(q.Path[j].Proof, g.Point().Base())
				case 7:
					how = "null points"
					if r.chance(0.5) {
						q.Path[j].Proof = g.Point().Null()
					} else {
						q.Path[j].C = g.Point().Null()
					}
				case 8:
					how = "element dropped"
					q.Path = append(q.Path[:j:j], q.Path[j+1:]...)
				case 9:
					how = "element repeated"
					q.Path = append(q.Path[:j:j], append([]*trie_kzg_bn256.ProofElement{q.Path[j]}, q.Path[j:]...)...)
				case 10:
					how = "spliced"
					q.Path = append(q.Path[:j:j], kclone(o).Path[l:]...)
					if r.chance(0.5) {
						q.Terminal = o.Terminal.Clone()
					}
				case 11:
					how = "cut, with the child as value"
					if len(q.Path) < 2 {
						continue
					}
					j = 1 + r.Intn(len(q.Path)-1)
					b, err := q.Path[j].C.MarshalBinary()
					if err != nil {
						panic(err)
					}
					hh := blake2b.Sum256(b)
					q.Terminal = g.Scalar().SetBytes(hh[:])
					q.Path = q.Path[:j]
				case 12:
					how = "other order"
					k := r.Intn(len(q.Path))
					q.Path[j], q.Path[k] = q.Path[k], q.Path[j]
				case 13:
					how = "other path with the same terminal"
					q.Path = kclone(o).Path
				}
				if len(q.Path) == 0 {
					how = "empty path"
				}
				refuseChanged(how, q)
			}
			// a value which is at another position of the vector of a node: the path fragment, a child, an empty position
			nodeKey := []byte{}
			if n, ok := src.ns.GetNode(nodeKey); ok && r.chance(0.5) {
				idx := []int{257, 255, 0, int(p.Path[0].VectorIndex)}[r.Intn(4)]
				if idx != 256 {
					pi, val := ownProve(n, idx)
					q := kclone(p)
					q.Path = []*trie_kzg_bn256.ProofElement{{C: p.Path[0].C.Clone(), VectorIndex: uint16(idx), Proof: pi}}
					q.Terminal = val
					refuseChanged("other position as terminal", q)
				}
			}
			// the adversary's prover is a good one
			if n, ok := src.ns.GetNode(nodeKey); ok && r.chance(0.1) {
				pi, _ := ownProve(n, int(p.Path[0].VectorIndex))
				w.log("same", Ev{"name": "kzg-prover", "a": pi.String(), "b": p.Path[0].Proof.String()})
			}
			// bytes
			b := p.Bytes()
			bad := 0
			for _, cut := range []int{0, 1, 2, len(p.Key) + 1, len(p.Key) + 2, len(b) / 2, len(b) - 64, len(b) - 1, r.Intn(len(b)), r.Intn(len(b))} {
				if cut < 0 || cut >= len(b) {
					continue
				}
				if _, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b[:cut]); err == nil {
					bad++
				}
			}
			for _, ext := range [][]byte{{0}, {1}, r.bytes(1+r.Intn(70), nil), b} {
				if _, err := trie_kzg_bn256.ProofOfInclusionFromBytes(append(cp(b), ext...)); err == nil {
					bad++
				}
			}
			w.log("refuse", Ev{"name": "kzg-refuse", "how": "truncated or extended bytes", "acc": bad})
			bad = 0
			for n := 4; n > 0; n-- {
				x := cp(b)
				x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
				if q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(x); err == nil && !honest[kbody(q)] && q.Validate(root) == nil {
					bad++
				}
			}
			w.log("refuse", Ev{"name": "kzg-refuse", "how": "altered bytes", "acc": bad})
		}
		// arbitrary bytes do no harm
		for n := 0; n < 10; n++ {
			x := r.bytes(r.Intn(200), nil)
			if q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(x); err == nil && q.Validate(root) == nil && !honest[kbody(q)] {
				w.log("refuse", Ev{"name": "kzg-refuse", "how": "arbitrary bytes", "acc": 1})
			}
		}
		if root != nil {
			otherRoots = append(otherRoots, root.Clone())
		}
	}
}

// childComm is the commitment of the second node of the path
func childComm(s subject, p *trie_kzg_bn256.ProofOfInclusion) trie.VCommitment {
	v := trie_kzg_bn256.Model.NewVectorCommitment()
	b, err := p.Path[1].C.MarshalBinary()
	if err != nil {
		panic(err)
	}
	if err = v.Read(bytes.NewReader(b)); err != nil {
		panic(err)
	}
	return v
}
