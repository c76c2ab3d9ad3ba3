package main

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// someRead performs one reading operation on the object
func (w *world) someRead(ob *obj, r rng, keys [][]byte) {
	k := cp(keys[r.Intn(len(keys))])
	if r.chance(0.3) {
		k = append(k, r.byteOf(edgeBytes))
	}
	uk := unpackOwn(k, ob.cfg.Arity)
	if len(uk) > 0 && r.chance(0.3) {
		uk = uk[:r.Intn(len(uk)+1)]
	}
	switch r.Intn(7) {
	case 0:
		ob.tr.GetNode(uk)
	case 1:
		trie.GetProofGeneric(ob.tr, uk)
	case 2:
		trie.RootCommitment(ob.tr)
	case 3:
		ob.tr.Reconcile(kvList{{k, []byte("x")}})
	case 4:
		if m, ok := ob.model.(*trie_blake2b.CommitmentModel); ok {
			m.Proof(k, ob.tr)
		} else if r.chance(0.1) {
			ob.model.(*trie_kzg_bn256.CommitmentModel).ProofOfInclusion(k, ob.tr)
		}
	case 5:
		_ = ob.tr.Info()
		if n, ok := ob.tr.GetNode(nil); ok {
			_ = n.ChildCommitments()
			_ = n.Terminal()
			for i := range n.ChildCommitments() {
				ob.tr.GetNode(append(append(cp(n.Key()), n.PathFragment()...), i))
			}
		}
	case 6:
		ob.tr.Clone()
	}
	w.clobber(k, uk)
}
