package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sync"

	"github.com/iotaledger/trie.go/trie"
)

// All contents within the bounds of MCRadix are built: different ones have to have different
// root commitments, and different nodes different commitments.

func init() {
	replayers["roots"] = replayRoots
}

var (
	rootsMu  sync.Mutex
	rootsOf  = map[string]string{} // variant, root -> contents
	nodesOf  = map[string]string{} // variant, commitment -> node
	symBytes = []byte{0x12, 0x13, 0x32, 0x31}
)

func replayRoots(c *rcase) {
	var b struct{ C [][][]int }
	c.parse(&b)
	vs := []tvariant{}
	for _, ar := range []int{2, 16, 256} {
		for i, hs := range []int{20, 32} {
			vs = append(vs, tvariant{Cfg: Cfg{Arity: ar, Hash: hs, Model: "b2b"}, long: i == 0},
				tvariant{Cfg: Cfg{Arity: ar, Hash: hs, Model: "b2b", Thr: 3, Opt: i == 0}, long: i == 1})
		}
	}
	if len(b.C) <= 2 {
		vs = append(vs, tvariant{Cfg: Cfg{Arity: 256, Hash: 32, Model: "kzg"}, long: true})
	}
	for _, v := range vs {
		v := v
		c.call(fmt.Sprintf("building %v", v), func() {
			m := v.model()
			tr := trie.New(m, newMemKV(), newMemKV(), v.Opt)
			desc := ""
			for _, p := range b.C {
				k := make([]byte, len(p[0]))
				for i, s := range p[0] {
					k[i] = symBytes[s]
				}
				// the value does not depend on the key
				x := v.value(nil, p[1])
				desc += fmt.Sprintf(" %x=%x", k, x)
				tr.Update(k, x)
			}
			tr.Commit()
			root := rootHex(tr)
			type nd struct{ comm, desc string }
			nodes := []nd{}
			var rec func(key []byte)
			rec = func(key []byte) {
				n, ok := tr.GetNode(key)
				if !ok || len(nodes) > 1000 {
					return
				}
				frag := n.PathFragment()
				if v.Model == "b2b" && len(frag) <= v.Hash {
					frag = bytes.TrimRight(frag, "\x00") // the known finding
				}
				d := fmt.Sprintf("%x:%x", frag, termBytes(v.Cfg, n.Terminal()))
				cc := n.ChildCommitments()
				kids := sortedKids(n)
				for _, k := range kids {
					d += fmt.Sprintf(",%d=%x", k, cc[k].Bytes())
				}
				nodes = append(nodes, nd{hex.EncodeToString(m.CalcNodeCommitment(&trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: cc, Terminal: n.Terminal()}).Bytes()), d})
				pf := cp(n.PathFragment())
				for _, k := range kids {
					rec(append(append(cp(key), pf...), k))
				}
			}
			rec(nil)
			rootsMu.Lock()
			defer rootsMu.Unlock()
			put := func(check string, m map[string]string, key, desc string) {
				key = fmt.Sprint(v) + " " + key
				c.compared++
				if old, ok := m[key]; !ok {
					m[key] = desc
				} else if old != desc {
					c.fail(check, "%v: {%s} and {%s} have the same commitment", v, old, desc)
				}
			}
			put("root-injective", rootsOf, root, desc)
			for _, n := range nodes {
				put("node-injective", nodesOf, n.comm, n.desc)
			}
		})
	}
}
