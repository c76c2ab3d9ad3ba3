package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	replayers["keys"] = replayKeys
	replayers["node"] = replayNode
	replayers["proofwire"] = replayProofWire
	replayers["stream"] = replayStream
}

func replayKeys(c *rcase) {
	var b struct {
		Op     string
		Ar     int
		X      []int
		Ok     bool
		Out    []int
		Packed []int
	}
	c.parse(&b)
	x, ar := bs(b.X), pathArity(b.Ar)
	switch b.Op {
	case "unpack":
		c.call("UnpackBytes", func() { c.eq("key-unpack", hex.EncodeToString(bs(b.Out)), hex.EncodeToString(trie.UnpackBytes(x, ar))) })
	case "enc":
		c.call("EncodeUnpackedBytes", func() {
			out, err := trie.EncodeUnpackedBytes(x, ar)
			c.eq("key-encode", b.Ok, err == nil)
			if b.Ok && err == nil {
				c.eq("key-encode", hex.EncodeToString(bs(b.Out)), hex.EncodeToString(out))
			}
		})
		c.call("PackUnpackedBytes", func() {
			out, err := trie.PackUnpackedBytes(x, ar)
			c.eq("key-pack", b.Ok, err == nil)
			if b.Ok && err == nil {
				c.eq("key-pack", hex.EncodeToString(bs(b.Packed)), hex.EncodeToString(out))
			}
		})
	case "dec":
		c.call("DecodeToUnpackedBytes", func() {
			out, err := trie.DecodeToUnpackedBytes(x, ar)
			c.eq("key-decode", b.Ok, err == nil)
			if b.Ok && err == nil {
				c.eq("key-decode", hex.EncodeToString(bs(b.Out)), hex.EncodeToString(out))
			}
		})
	}
}

// kid is a pair <<index, commitment>>
type kid struct {
	i byte
	c []byte
}

func (k *kid) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil || len(raw) != 2 {
		return fmt.Errorf("kid: %s", b)
	}
	var i int
	var l []int
	if err := json.Unmarshal(raw[0], &i); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[1], &l); err != nil {
		return err
	}
	k.i, k.c = byte(i), bs(l)
	return nil
}

func replayNode(c *rcase) {
	var b struct {
		Fm struct {
			Ar, Hs int
			Key    []int
		}
		N struct {
			Pf            []int
			Kids          []kid
			Has, Tk, Skip bool
			Tb            []int
		}
		Full bool
		Data []int
		St   string
	}
	c.parse(&b)
	ar := pathArity(b.Fm.Ar)
	m := trie_blake2b.New(ar, trie_blake2b.HashSize(b.Fm.Hs))
	key := bs(b.Fm.Key)
	path := append(cp(key), bs(b.N.Pf)...)
	vs := trie.NewInMemoryKVStore()
	val := []byte("value")
	if b.N.Skip && !b.N.Tk {
		pk, err := trie.PackUnpackedBytes(path, ar)
		if err != nil {
			panic(err)
		}
		vs.Set(pk, val)
	}
	n := trie.NewNodeData()
	n.PathFragment = bs(b.N.Pf)
	for _, k := range b.N.Kids {
		cm := m.NewVectorCommitment()
		if err := cm.Read(bytes.NewReader(k.c)); err != nil {
			panic(err)
		}
		n.ChildCommitments[k.i] = cm
	}
	switch {
	case b.N.Tk:
		n.Terminal = m.CommitToData(path)
	case b.N.Skip:
		n.Terminal = m.CommitToData(val)
	case b.N.Has:
		n.Terminal = m.NewTerminalCommitment()
		if err := n.Terminal.Read(bytes.NewReader(bs(b.N.Tb))); err != nil {
			panic(err)
		}
	}
	data := bs(b.Data)
	if b.Full {
		c.call("Write", func() {
			var buf bytes.Buffer
			err := n.Write(&buf, ar, b.N.Tk, b.N.Skip)
			c.eq("node-write", true, err == nil)
			c.eq("node-write", hex.EncodeToString(data), hex.EncodeToString(buf.Bytes()))
		})
	}
	c.call("NodeDataFromBytes", func() {
		got, err := trie.NodeDataFromBytes(m, cp(data), key, ar, vs)
		c.eq("node-read", b.St == "ok", err == nil)
		if b.St == "ok" && err == nil {
			c.eq("node-read", nodeString(m, n, nil), nodeString(m, got, nil))
			c.eq("node-commitment", commHex(m, n), commHex(m, got))
		}
	})
	if b.Full {
		c.call("Read", func() {
			got := trie.NewNodeData()
			rd := bytes.NewReader(append(cp(data), 0xEE))
			err := got.Read(splitReader(newRng(int64(len(data))), rd, len(data)%3), m, key, ar, vs)
			rest, _ := io.ReadAll(rd)
			c.eq("node-split", true, err == nil)
			if err == nil {
				c.eq("node-split", nodeString(m, n, []byte{0xEE}), nodeString(m, got, rest))
			}
		})
	}
}

func replayProofWire(c *rcase) {
	var b struct {
		P struct {
			Ar, Hs int
			Key    []int
			Path   []struct {
				Pf   []int
				Idx  int
				Ht   bool
				T    []int
				Kids []kid
			}
		}
		Full bool
		Data []int
		St   string
	}
	c.parse(&b)
	p := &trie_blake2b.Proof{PathArity: pathArity(b.P.Ar), HashSize: trie_blake2b.HashSize(b.P.Hs), Key: bs(b.P.Key)}
	for _, e := range b.P.Path {
		f := &trie_blake2b.ProofElement{PathFragment: bs(e.Pf), ChildIndex: e.Idx, Children: map[byte][]byte{}}
		if e.Ht {
			f.Terminal = bs(e.T)
		}
		for _, k := range e.Kids {
			f.Children[k.i] = k.c
		}
		p.Path = append(p.Path, f)
	}
	data := bs(b.Data)
	if b.Full {
		c.call("Write", func() { c.eq("proof-write", hex.EncodeToString(data), hex.EncodeToString(p.Bytes())) })
	}
	c.call("ProofFromBytes", func() {
		q, err := trie_blake2b.ProofFromBytes(cp(data))
		c.eq("proof-read", b.St == "ok", err == nil)
		if b.St == "ok" && err == nil {
			c.eq("proof-read", fmt.Sprint(proofEv(p)), fmt.Sprint(proofEv(q)))
		}
	})
}

type pair struct{ k, v []byte }

func (p *pair) UnmarshalJSON(b []byte) error {
	var raw [][]int
	if err := json.Unmarshal(b, &raw); err != nil || len(raw) != 2 {
		return fmt.Errorf("pair: %s", b)
	}
	p.k, p.v = bs(raw[0]), bs(raw[1])
	return nil
}

func replayStream(c *rcase) {
	var b struct {
		Pairs []pair
		Data  []int
		Cut   int
		Got   []pair
		Err   bool
	}
	c.parse(&b)
	data := bs(b.Data)
	c.call("Write", func() {
		var buf bytes.Buffer
		w := trie.NewBinaryStreamWriter(&buf)
		for _, p := range b.Pairs {
			if err := w.Write(p.k, p.v); err != nil {
				c.fail("stream-write", "%v", err)
			}
		}
		n, by := w.Stats()
		c.eq("stream-stats", [2]int{len(b.Pairs), len(data)}, [2]int{n, by})
		c.eq("stream-data", hex.EncodeToString(data), hex.EncodeToString(buf.Bytes()))
	})
	c.call("Write to a medium which gets full", func() {
		lw := &limitedWriter{room: b.Cut}
		w := trie.NewBinaryStreamWriter(lw)
		for i, p := range b.Pairs {
			c.eq("stream-write-error", i >= len(b.Got), w.Write(p.k, p.v) != nil)
		}
		n, _ := w.Stats()
		c.eq("stream-stats", len(b.Got), n)
		got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(lw.buf.Bytes())), 0)
		c.eq("stream-data", b.Err, err != nil)
		c.eq("stream-data", len(b.Got), len(got))
	})
	want := kvList{}
	for _, p := range b.Got {
		want = append(want, [2][]byte{p.k, p.v})
	}
	for kind := -1; kind < 4; kind++ {
		c.call("Iterate", func() {
			var rd io.Reader = bytes.NewReader(data[:b.Cut])
			if kind >= 0 {
				rd = splitReader(newRng(int64(b.Cut)), rd, kind)
			}
			got, err := collect(trie.NewBinaryStreamIterator(rd), 0)
			c.eq("stream-read", b.Err, err != nil)
			c.eq("stream-read", fmt.Sprint(want), fmt.Sprint(got))
		})
	}
}
