package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// Proof objects which the adversary of the specification (ProofSys) composes are presented
// to the verification; what it accepts has to be true.

func init() {
	replayers["proofs"] = replayProofs
}

type pelem struct {
	From, Idx int
	Key       []int
	Tm        string
	Kids      [][]interface{}
}

type pbeh struct {
	Ar, Own int
	C, O    [][][]int
	Key     []int
	Path    []pelem
	Honest  []pelem
	Ext     []pext
}

type pext struct {
	e   pelem
	val bool
}

func (x *pext) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&x.e, &x.val})
}

type psource struct {
	tr   *trie.Trie
	root []byte
	vals map[string][]byte // by symbols of the key
}

func replayProofs(c *rcase) {
	var b pbeh
	c.parse(&b)
	v := variantOf(c, b.Ar, "trie")
	m := v.model().(*trie_blake2b.CommitmentModel)
	build := func(l [][][]int) psource {
		s := psource{tr: trie.New(m, newMemKV(), newMemKV()), vals: map[string][]byte{}}
		for _, p := range l {
			u := bs(p[0])
			k := packOwn(u, b.Ar)
			x := v.value(nil, p[1])
			s.vals[string(u)] = x
			s.tr.Update(k, x)
		}
		s.tr.Commit()
		if r := trie.RootCommitment(s.tr); r != nil {
			s.root = r.Bytes()
		}
		return s
	}
	var own, other psource
	if !c.call("building the tries", func() { own, other = build(b.C), build(b.O) }) {
		return
	}
	elem := func(e pelem) *trie_blake2b.ProofElement {
		src := own
		if e.From != b.Own {
			src = other
		}
		n, ok := src.tr.GetNode(bs(e.Key))
		if !ok {
			c.fail("nodes", "no node at %v", e.Key)
			return nil
		}
		r := &trie_blake2b.ProofElement{PathFragment: cp(n.PathFragment()), Children: map[byte][]byte{}, ChildIndex: e.Idx}
		switch e.Tm {
		case "same":
			r.Terminal = termBytes(v.Cfg, n.Terminal())
			if len(r.Terminal) == 0 {
				r.Terminal = nil
			}
		case "other":
			r.Terminal = trie_blake2b.CommitToDataRaw(v.value(nil, []int{9}), trie_blake2b.HashSize(v.Hash))
		}
		for _, k := range e.Kids {
			i := int(k[0].(float64))
			if i > 255 {
				return nil // not an index of the map
			}
			switch k[1].(string) {
			case "blank":
				r.Children[byte(i)] = make([]byte, v.Hash)
			case "root":
				r.Children[byte(i)] = cp(src.root)
			case "same":
				cc := n.ChildCommitments()[byte(i)]
				if cc == nil {
					c.fail("nodes", "no child %d at %v", i, e.Key)
					return nil
				}
				r.Children[byte(i)] = cp(cc.Bytes())
			}
		}
		return r
	}
	key := bs(b.Key)
	want, present := own.vals[string(key)]
	mk := func(path []*trie_blake2b.ProofElement) *trie_blake2b.Proof {
		return &trie_blake2b.Proof{PathArity: v.arity(), HashSize: trie_blake2b.HashSize(v.Hash), Key: cp(key), Path: path}
	}
	// judge presents a proof object
	judge := func(p *trie_blake2b.Proof, what interface{}) {
		c.call(fmt.Sprintf("validation of %v", what), func() {
			ok := trie_blake2b_verify.Validate(p, own.root) == nil
			if !ok {
				// nothing can be claimed with it
				if trie_blake2b_verify.ValidateWithValue(p, own.root, []byte("7.")) == nil {
					c.fail("sound", "a value validates with an invalid proof %v", what)
				}
				return
			}
			c.compared++
			if trie_blake2b_verify.IsProofOfAbsence(p) {
				if present {
					c.fail("sound", "proof of absence of the present key %v validates: %v", b.Key, what)
				}
			} else {
				_, t := trie_blake2b_verify.MustKeyWithTerminal(p)
				if !present {
					c.fail("sound", "proof of presence of the absent key %v validates: %v", b.Key, what)
				} else if !bytes.Equal(t, trie_blake2b.CommitToDataRaw(want, trie_blake2b.HashSize(v.Hash))) {
					c.fail("sound", "proof of another value of key %v validates: %v", b.Key, what)
				}
			}
			for _, x := range []int{7, 8, 9} {
				val := v.value(nil, []int{x})
				if trie_blake2b_verify.ValidateWithValue(p, own.root, val) == nil && !(present && bytes.Equal(want, val)) {
					c.fail("sound", "value %d of key %v validates: %v", x, b.Key, what)
				}
			}
		})
	}
	base := []*trie_blake2b.ProofElement{}
	for _, e := range b.Path {
		x := elem(e)
		if x == nil {
			return
		}
		base = append(base, x)
	}
	judge(mk(base), b.Path)
	for _, x := range b.Ext {
		e := elem(x.e)
		if e == nil {
			continue
		}
		judge(mk(append(append([]*trie_blake2b.ProofElement{}, base...), e)), []interface{}{b.Path, x.e})
	}
	// the proof of the library is the one of the specification
	legal := b.Ar == 256 || len(key)%2 == 0
	for _, s := range key {
		legal = legal && int(s) < b.Ar
	}
	if len(b.Path) > 0 || !legal {
		return
	}
	c.call("proof", func() {
		p := m.Proof(packOwn(key, b.Ar), own.tr)
		if trie_blake2b_verify.Validate(p, own.root) != nil {
			c.fail("proof-valid", "the proof for %v does not validate", b.Key)
		}
		if trie_blake2b_verify.IsProofOfAbsence(p) == present {
			c.fail("proof-claim", "the proof for %v claims the wrong thing", b.Key)
		}
		show := func(p *trie_blake2b.Proof) string {
			s := fmt.Sprintf("%x:", p.Key)
			for _, e := range p.Path {
				ks := []int{}
				for k := range e.Children {
					ks = append(ks, int(k))
				}
				sort.Ints(ks)
				s += fmt.Sprintf(" %x,%d,%x", e.PathFragment, e.ChildIndex, e.Terminal)
				for _, k := range ks {
					s += fmt.Sprintf(",%d=%x", k, e.Children[byte(k)])
				}
			}
			return s
		}
		path := []*trie_blake2b.ProofElement{}
		for _, e := range b.Honest {
			path = append(path, elem(e))
		}
		c.eq("proof-shape", show(mk(path)), show(p))
	})
}
