package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sync"

	"github.com/iotaledger/trie.go/trie"
	"golang.org/x/crypto/blake2b"
)

// Data of MCData is committed to by the code, as a value and as a path fragment: commitments of
// different data must differ (except as in KNOWN_FINDINGS, which is counted).

func init() {
	replayers["data"] = replayData
}

var (
	dataMu sync.Mutex
	dataOf = map[string]*datum{} // variant, commitment -> datum
	commOf = map[string]string{} // variant, datum -> commitment
)

type datum struct{ strict, zp, hv string }

func hashOwn(data []byte, hs int) []byte {
	h, err := blake2b.New(hs, nil)
	if err != nil {
		panic(err)
	}
	_, _ = h.Write(data)
	return h.Sum(nil)
}

func replayData(c *rcase) {
	type row struct {
		Zp, Hv interface{}
	}
	var b struct {
		Lit      bool
		Runs     [][]int
		N        int
		Strict   []interface{}
		B20, B32 row
	}
	c.parse(&b)
	buf := bytes.Buffer{}
	for _, r := range b.Runs {
		buf.Write(bytes.Repeat([]byte{byte(r[0])}, r[1]))
	}
	data := buf.Bytes()
	if !b.Lit {
		data = hashOwn(data, b.N)
	}
	put := func(check, variant string, comm []byte, d datum) {
		c.compared++
		dataMu.Lock()
		defer dataMu.Unlock()
		if old, ok := commOf[variant+d.strict]; ok && old != string(comm) {
			c.fail("data-function", "%s: two commitments of %s", variant, d.strict)
		}
		commOf[variant+d.strict] = string(comm)
		k := variant + hex.EncodeToString(comm)
		old, ok := dataOf[k]
		switch {
		case !ok:
			dataOf[k] = &d
		case old.strict == d.strict:
		case old.zp == d.zp && d.zp != "":
			c.known("zero-padding")
		case old.hv == d.hv && d.hv != "":
			c.known("hash-as-data")
		default:
			c.fail(check, "%s: %s and %s have the same commitment", variant, old.strict, d.strict)
		}
	}
	strict := fmt.Sprint(b.Strict)
	for _, cfg := range []Cfg{{Arity: 256, Hash: 20, Model: "b2b"}, {Arity: 16, Hash: 20, Thr: 40, Model: "b2b"}, {Arity: 2, Hash: 32, Thr: 100000, Model: "b2b"},
		{Arity: 256, Hash: 32, Model: "b2b"}, {Arity: 256, Model: "kzg"}} {
		cfg := cfg
		d := datum{strict: strict}
		if cfg.Model == "b2b" {
			rw := b.B20
			if cfg.Hash == 32 {
				rw = b.B32
			}
			d.zp, d.hv = fmt.Sprint(rw.Zp), fmt.Sprint(rw.Hv)
		}
		name := fmt.Sprintf("%v ", cfg)
		c.call("commitments of data with "+name, func() {
			m := cfg.model()
			t := m.CommitToData(cp(data))
			put("term-injective", name+"value ", termBytes(cfg, t), d)
			if cfg.Model == "kzg" && b.N > 40 && b.N%7 != 0 {
				return // slow
			}
			n := m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte{1}, ChildCommitments: map[byte]trie.VCommitment{}, Terminal: t})
			put("node-injective", name+"terminal ", n.Bytes(), d)
			n = m.CalcNodeCommitment(&trie.NodeData{PathFragment: cp(data), ChildCommitments: map[byte]trie.VCommitment{}, Terminal: m.CommitToData([]byte{1})})
			put("node-injective", name+"fragment ", n.Bytes(), d)
			tr := trie.New(m, newMemKV(), newMemKV())
			tr.Update([]byte("a"), cp(data))
			tr.Commit()
			put("root-injective", name+"root ", trie.RootCommitment(tr).Bytes(), d)
		})
	}
}
