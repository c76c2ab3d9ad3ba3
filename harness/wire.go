package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"testing/iotest"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func wireSuite(id string, quick, thorough int, chk []string, f func(w *world, r rng, i int)) {
	suites[id] = suite{chk: append(chk, "panic"), spec: "WireTrace",
		run: func(seed int64, tier string, rec *recorder) []Trace {
			return runJobs(histJobs(seed, id, scale(tier, quick, thorough), f), rec)
		}}
}

func init() {
	wireSuite("C13", 48, 1500, []string{"key-unpack", "key-encode", "key-pack", "key-decode"}, keysTrace)
	wireSuite("C14", 160, 4000, []string{"node-write", "node-read-refuse", "node-read-accept", "node-read-honest", "node-read-absent", "node-read-equal", "node-commitment", "node-split", "node-write-error", "node-write-refuse", "commitment-read", "commitment-equal", "node-oversize"}, nodesTrace)
	wireSuite("C08", 160, 4000, []string{"proof-write", "proof-write-refuse", "proof-read-refuse", "proof-read-accept", "proof-read-honest", "proof-read-equal", "proof-rewrite", "proof-verdict", "proof-split", "proof-write-error", "proof-oversize"}, proofsTrace)
	wireSuite("C15", 160, 4000, []string{"stream-write", "stream-stats", "stream-data", "stream-write-error", "stream-read", "dump-write", "counts", "dump-write-error", "dump-room", "random-stream", "dump-read", "dump-contents"}, streamsTrace)
}

// safe runs one call of the code under test; a panic becomes an event
func (w *world) safe(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			w.log("panic", Ev{"msg": trunc(what+": "+fmt.Sprint(r), 300), "at": where()})
			ok = false
		}
	}()
	f()
	return true
}

// ---------------------------------------------------------------------------
// keys

func pathArity(ar int) trie.PathArity { return trie.PathArity(ar - 1) }

func (w *world) kUnpack(k []byte, ar int) {
	w.safe("UnpackBytes", func() {
		out := trie.UnpackBytes(cp(k), pathArity(ar))
		w.log("unpack", Ev{"k": ints(k), "ar": ar, "out": ints(out)})
	})
}

func (w *world) kEnc(u []byte, ar int) {
	w.safe("EncodeUnpackedBytes", func() {
		out, err := trie.EncodeUnpackedBytes(cp(u), pathArity(ar))
		w.log("enc", Ev{"u": ints(u), "ar": ar, "ok": err == nil, "out": ints(out)})
	})
	w.safe("PackUnpackedBytes", func() {
		out, err := trie.PackUnpackedBytes(cp(u), pathArity(ar))
		w.log("pack", Ev{"u": ints(u), "ar": ar, "ok": err == nil, "out": ints(out)})
	})
}

func (w *world) kDec(b []byte, ar int) {
	w.safe("DecodeToUnpackedBytes", func() {
		out, err := trie.DecodeToUnpackedBytes(cp(b), pathArity(ar))
		w.log("dec", Ev{"b": ints(b), "ar": ar, "ok": err == nil, "out": ints(out)})
	})
}

func symbols(r rng, n, ar int) []byte {
	b := make([]byte, n)
	for i := range b {
		if ar == 256 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = byte(r.Intn(ar))
		}
	}
	return b
}

func keysTrace(w *world, r rng, i int) {
	ar := []int{256, 16, 2}[i%3]
	if i < 3 { // systematic: all short byte strings
		w.kDec(nil, ar)
		w.kEnc(nil, ar)
		for a := 0; a < 256; a++ {
			w.kUnpack([]byte{byte(a)}, ar)
			w.kEnc([]byte{byte(a)}, ar)
			w.kDec([]byte{byte(a)}, ar)
			if ar != 256 {
				for _, p := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 128, 255} {
					w.kDec([]byte{p, byte(a)}, ar)
				}
				for _, p := range []byte{0, 1, byte(ar - 1), byte(ar), 255} {
					w.kEnc([]byte{p, byte(a)}, ar)
					w.kEnc([]byte{byte(a), p}, ar)
				}
			}
		}
		return
	}
	if i < 6 || i%50 < 3 { // lengths around 12, 16, 17 bits
		for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 65535 + r.Intn(20), 131072 + r.Intn(20)} {
			if n > 60000 && !(i < 6) && r.chance(0.5) {
				continue
			}
			u := symbols(r, n, ar)
			w.kEnc(u, ar)
			var e []byte
			w.safe("EncodeUnpackedBytes", func() { e, _ = trie.EncodeUnpackedBytes(u, pathArity(ar)) })
			e = cp(e)
			w.kDec(e, ar)
			if len(e) > 0 {
				e[len(e)-1] ^= 1 << uint(r.Intn(8))
				w.kDec(e, ar)
				w.kDec(e[:len(e)-1-r.Intn(3)], ar)
			}
			u[r.Intn(n)] = []byte{2, 16, 255}[r.Intn(3)]
			w.kEnc(u, ar)
			w.kUnpack(r.bytes(1+n/(map[int]int{256: 1, 16: 2, 2: 8}[ar]), nil), ar)
		}
		return
	}
	for j := 0; j < 120; j++ {
		n := r.Intn(20)
		if r.chance(0.1) {
			n = []int{31, 32, 33, 63, 64, 65, 255, 256, 257, 511, 600}[r.Intn(11)]
		}
		u := symbols(r, n, ar)
		w.kEnc(u, ar)
		if n > 0 { // a symbol out of range somewhere
			v := cp(u)
			v[r.Intn(n)] = []byte{2, 3, 15, 16, 17, 32, 128, 255}[r.Intn(8)]
			w.kEnc(v, ar)
		}
		k := r.bytes(r.Intn(12), nil)
		w.kUnpack(k, ar)
		var e []byte
		w.safe("EncodeUnpackedBytes", func() { e, _ = trie.EncodeUnpackedBytes(u, pathArity(ar)) })
		e = cp(e)
		w.kDec(e, ar)
		for m := 0; m < 4; m++ {
			d := cp(e)
			switch {
			case len(d) == 0:
				d = r.bytes(r.Intn(3), nil)
			case r.chance(0.3):
				d = d[:r.Intn(len(d))]
			case r.chance(0.3):
				d[0] = byte(r.Intn(10))
			case r.chance(0.5):
				d[len(d)-1] ^= 1 << uint(r.Intn(8))
			default:
				d = append(d, byte(r.Intn(2)))
			}
			w.kDec(d, ar)
		}
		w.kDec(r.bytes(r.Intn(6), []byte{0, 1, 2, 3, 7, 8, 16, 128, 255}), ar)
	}
}

// ---------------------------------------------------------------------------
// node records

type nodeCase struct {
	c       Cfg
	m       trie.CommitmentModel
	key     []byte // unpacked
	n       *trie.NodeData
	v       []byte // value of the terminal
	tk, sk  bool
	vs      trie.KVStore
	hasval  bool
	record  []byte
	comm    string
	written bool
}

func kidsEv(m map[byte]trie.VCommitment) []interface{} {
	l := []interface{}{}
	for i := 0; i < 256; i++ {
		if c, ok := m[byte(i)]; ok {
			l = append(l, []interface{}{i, ints(c.Bytes())})
		}
	}
	return l
}

func randKids(r rng, ar int) []byte {
	all := map[int]bool{}
	switch r.Intn(8) {
	case 0:
	case 1:
		all[r.Intn(ar)] = true
	case 2:
		all[0], all[ar-1] = true, true
	case 3:
		for i := 0; i < ar; i++ {
			if r.chance(0.5) || ar <= 16 {
				all[i] = true
			}
		}
	case 4:
		for i := range []int{7, 8, 9, 15, 16, 127, 128, 254, 255} {
			x := []int{7, 8, 9, 15, 16, 127, 128, 254, 255}[i]
			if x < ar && r.chance(0.5) {
				all[x] = true
			}
		}
	case 5:
		all[ar-1] = true
	default:
		for n := 1 + r.Intn(4); n > 0; n-- {
			all[r.Intn(ar)] = true
		}
	}
	res := []byte{}
	for i := 0; i < ar; i++ {
		if all[i] {
			res = append(res, byte(i))
		}
	}
	return res
}

func fragLen(r rng) int {
	if r.chance(0.3) {
		return 0
	}
	if r.chance(0.15) {
		return []int{19, 20, 21, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 300, 1000}[r.Intn(15)]
	}
	return 1 + r.Intn(18)
}

func perByte(ar int) int {
	switch ar {
	case 16:
		return 2
	case 2:
		return 8
	}
	return 1
}

func nodesTrace(w *world, r rng, i int) {
	c := randCfg(r)
	if i%8 == 7 {
		c = Cfg{Model: "kzg", Arity: 256}
	}
	var m trie.CommitmentModel
	m = c.model()
	// material: child commitments
	var comms []trie.VCommitment
	w.safe("CalcNodeCommitment", func() {
		for j := 0; j < 4; j++ {
			comms = append(comms, m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte{byte(j)}, Terminal: m.CommitToData([]byte{byte(i), byte(j)})}))
		}
	})
	if len(comms) < 4 {
		return
	}
	w.commitments(r, c, m, comms)
	if i%16 == 5 {
		bigNodes(w, r, c, m)
	}
	for j := 0; j < 10; j++ {
		nc := nodeCase{c: c, m: m, vs: trie.NewInMemoryKVStore()}
		n := trie.NewNodeData()
		n.PathFragment = symbols(r, fragLen(r), c.Arity)
		ks := randKids(r, c.Arity)
		if c.Model == "kzg" && len(ks) > 12 {
			ks = ks[:12]
		}
		for _, x := range ks {
			cm := comms[r.Intn(len(comms))]
			if c.Model == "b2b" {
				cm = m.NewVectorCommitment()
				_ = cm.Read(bytes.NewReader(r.bytes(c.Hash, nil)))
			}
			n.ChildCommitments[x] = cm
		}
		kind := r.Intn(5)
		if len(ks) == 0 && kind == 0 && !r.chance(0.4) { // else: a node which commits to nothing
			kind = 1
		}
		vl := append([]int{1, 2, 3}, valLens...)
		nc.v = r.bytes(vl[r.Intn(len(vl))], nil)
		nc.key = symbols(r, r.Intn(12), c.Arity)
		if kind >= 2 { // terminal outside of the record: the path of the terminal is a whole key
			for (len(nc.key)+len(n.PathFragment))%perByte(c.Arity) != 0 || len(nc.key) == 0 {
				nc.key = append(nc.key, byte(r.Intn(2)))
			}
		}
		path := append(cp(nc.key), n.PathFragment...)
		switch kind {
		case 0:
			nc.v = nil
		case 1:
			n.Terminal = m.CommitToData(nc.v)
		case 2:
			nc.tk = true
			nc.v = cp(path)
			n.Terminal = m.CommitToData(nc.v)
			nc.sk = r.chance(0.3)
		case 3, 4:
			nc.sk = true
			n.Terminal = m.CommitToData(nc.v)
			pk, err := trie.PackUnpackedBytes(path, pathArity(c.Arity))
			if err != nil {
				panic(err)
			}
			nc.vs.Set(cp(pk), cp(nc.v))
			nc.hasval = true
		}
		nc.n = n
		w.nodeCase(r, &nc)
	}
}

// commitments: they are read from their bytes and compared
func (w *world) commitments(r rng, c Cfg, m trie.CommitmentModel, comms []trie.VCommitment) {
	tr := trie.New(m, trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore())
	var vs []trie.VCommitment
	read := func(b []byte, hon bool) {
		w.safe("VectorCommitmentFromBytes", func() {
			in := cp(b)
			x, err := tr.VectorCommitmentFromBytes(in)
			w.clobber(in)
			e := Ev{"md": c.Model, "hs": c.Hash, "b": ints(b), "hon": hon, "acc": err == nil, "out": []int{}}
			if err == nil {
				e["out"] = ints(x.Bytes())
				vs = append(vs, x)
			}
			w.log("vcread", e)
		})
	}
	for _, x := range comms {
		read(x.Bytes(), true)
	}
	b := comms[0].Bytes()
	if c.Model == "b2b" {
		y := cp(b) // differs in one bit
		y[r.Intn(len(y))] ^= 1 << uint(r.Intn(8))
		read(y, true)
		y = cp(b)
		y[len(y)-1] ^= 1
		read(y, true)
	}
	for _, n := range []int{0, 1, len(b) - 1, r.Intn(len(b))} {
		read(b[:n], false)
	}
	read(append(cp(b), 0), false)
	read(append(cp(b), r.bytes(1+r.Intn(40), nil)...), false)
	read(append(cp(b), b...), false)
	vs = append(vs, comms...)
	for _, x := range comms[:2] {
		vs = append(vs, x.Clone())
	}
	equal := func(x, y trie.Serializable, bx, by []byte) {
		w.safe("EqualCommitments", func() {
			w.log("ceq", Ev{"a": ints(bx), "b": ints(by), "out": m.EqualCommitments(x, y)})
		})
	}
	for j := 0; j < 12; j++ {
		x, y := vs[r.Intn(len(vs))], vs[r.Intn(len(vs))]
		if j == 0 {
			y = x
		}
		equal(x, y, x.Bytes(), y.Bytes())
	}
	var ts []trie.TCommitment
	v := r.bytes(1+r.Intn(80), nil)
	y := cp(v)
	y[r.Intn(len(y))] ^= 1 << uint(r.Intn(8))
	for _, d := range [][]byte{v, y, v[:len(v)-1], append(cp(v), 1), r.bytes(1+r.Intn(80), nil), v} {
		w.safe("CommitToData", func() {
			if t := m.CommitToData(d); t != nil {
				ts = append(ts, t, t.Clone())
			}
		})
	}
	for j := 0; j < 12 && len(ts) > 0; j++ {
		x, y := ts[r.Intn(len(ts))], ts[r.Intn(len(ts))]
		equal(x, y, x.Bytes(), y.Bytes())
	}
	equal(nil, comms[0], nil, b)
	equal(comms[0], nil, b, nil)
	equal(nil, nil, nil, nil)
}

func (w *world) nodeCase(r rng, nc *nodeCase) {
	c := nc.c
	w.safe("NodeData.Write", func() {
		var buf bytes.Buffer
		err := nc.n.Write(&buf, pathArity(c.Arity), nc.tk, nc.sk)
		nc.record = buf.Bytes()
		e := Ev{"md": c.Model, "ar": c.Arity, "hs": c.Hash, "thr": c.Thr, "pf": ints(nc.n.PathFragment), "kids": kidsEv(nc.n.ChildCommitments),
			"has": nc.n.Terminal != nil, "tk": nc.tk, "skip": nc.sk, "v": ints(nc.v), "th": ints(termBytes(c, nc.n.Terminal)), "ok": err == nil, "out": ints(nc.record)}
		w.log("nwrite", e)
		nc.written = err == nil
	})
	if !nc.written {
		return
	}
	if len(nc.record) < 200 || r.chance(0.05) {
		w.full(r, "node-write-error", nc.record, func(wr io.Writer) error { return nc.n.Write(wr, pathArity(c.Arity), nc.tk, nc.sk) })
	}
	if c.Arity != 256 && len(nc.n.PathFragment) > 0 && (nc.n.Terminal != nil || len(nc.n.ChildCommitments) > 0) {
		bad := nc.n.Clone()
		bad.PathFragment = cp(nc.n.PathFragment)
		l := spoil(r, c.Arity, bad.PathFragment)
		w.safe("NodeData.Write", func() {
			var buf bytes.Buffer
			err := bad.Write(&buf, pathArity(c.Arity), nc.tk, nc.sk)
			w.log("wbad", Ev{"name": "node-write-refuse", "ar": c.Arity, "paths": l, "err": err != nil})
		})
	}
	w.safe("CalcNodeCommitment", func() { nc.comm = commHex(nc.m, nc.n) })
	// read it back
	back := w.nodeRead(nc, nc.record, nc.vs, nc.hasval, true, true)
	if back != nil {
		w.safe("CalcNodeCommitment", func() {
			w.log("same", Ev{"name": "node-commitment", "a": nc.comm, "b": commHex(nc.m, back)})
			w.log("same", Ev{"name": "node-commitment", "a": nc.comm, "b": commHex(nc.m, back.Clone())})
		})
	}
	// through readers which split the data, followed by other data
	for j := 0; j < 3; j++ {
		w.safe("NodeData.Read", func() {
			tail := r.bytes(r.Intn(3), nil)
			rd := bytes.NewReader(append(cp(nc.record), tail...))
			n := trie.NewNodeData()
			err := n.Read(splitReader(r, rd, j), nc.m, cp(nc.key), pathArity(c.Arity), nc.vs)
			w.log("same", Ev{"name": "node-split", "a": nodeString(nc.m, back, tail), "b": func() string {
				if err != nil {
					return "error"
				}
				rest := cp(nc.record)
				rest, _ = io.ReadAll(rd)
				return nodeString(nc.m, n, rest)
			}()})
		})
	}
	// without the value, without the key
	if nc.sk || nc.tk {
		w.nodeRead(nc, nc.record, trie.NewInMemoryKVStore(), false, true, false)
		w.nodeRead(nc, nc.record, nil, false, true, false)
		k := nc.key
		nc.key = nil
		w.nodeRead(nc, nc.record, trie.NewInMemoryKVStore(), false, true, false)
		nc.key = k
	}
	// truncated, extended
	n := len(nc.record)
	if n <= 80 || r.chance(0.02) {
		for j := 0; j < n; j++ {
			w.nodeRead(nc, nc.record[:j], nc.vs, nc.hasval, true, false)
		}
	} else {
		for j := 0; j < 12; j++ {
			w.nodeRead(nc, nc.record[:r.Intn(n)], nc.vs, nc.hasval, true, false)
		}
		w.nodeRead(nc, nc.record[:n-1], nc.vs, nc.hasval, true, false)
	}
	w.nodeRead(nc, append(cp(nc.record), 0), nc.vs, nc.hasval, true, false)
	w.nodeRead(nc, append(cp(nc.record), r.bytes(1+r.Intn(40), nil)...), nc.vs, nc.hasval, true, false)
	// flags changed, bytes changed
	for j := 0; j < 10; j++ {
		b := cp(nc.record)
		switch r.Intn(4) {
		case 0:
			b[0] = byte(r.Intn(32))
		case 1:
			b[r.Intn(min(len(b), 6))] ^= 1 << uint(r.Intn(8))
		case 2:
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 3:
			p := r.Intn(len(b))
			b = append(b[:p:p], b[min(p+1, len(b)):]...)
		}
		w.nodeRead(nc, b, nc.vs, nc.hasval, true, false)
	}
	// the length of the terminal changed, with as many bytes as it says
	if pos := 1; nc.record[0]&7 == 1 && c.Model == "b2b" {
		if nc.record[0]&0x10 != 0 {
			pos += 2 + int(nc.record[1]) + 256*int(nc.record[2])
		}
		l := int(nc.record[pos] & 0x3f)
		for _, x := range []int{0, 20, 21, 32, 33, 34 + r.Intn(29), 63} {
			if !r.chance(0.4) {
				continue
			}
			b := append(cp(nc.record[:pos]), byte(x)|[]byte{0, 0, 0xc0, 0xc0, 0x40, 0x80}[r.Intn(6)])
			b = append(b, r.bytes(x, nil)...)
			w.nodeRead(nc, append(b, nc.record[pos+1+l:]...), nc.vs, nc.hasval, true, false)
		}
	}
	for j := 0; j < 3; j++ {
		b := r.bytes(r.Intn(60), []byte{0, 1, 2, 3, 8, 9, 16, 17, 24, 27, 31, 128, 255})
		w.nodeRead(nc, b, nc.vs, nc.hasval, true, false)
	}
}

func commHex(m trie.CommitmentModel, n *trie.NodeData) string {
	c := m.CalcNodeCommitment(n)
	if c == nil {
		return ""
	}
	return hex.EncodeToString(c.Bytes())
}

func nodeString(m trie.CommitmentModel, n *trie.NodeData, rest []byte) string {
	if n == nil {
		return "error"
	}
	t := ""
	if n.Terminal != nil {
		t = hex.EncodeToString(n.Terminal.Bytes())
	}
	return fmt.Sprintf("%x|%v|%s|%x", n.PathFragment, kidsEv(n.ChildCommitments), t, rest)
}

// splitReader delivers the data in pieces
func splitReader(r rng, rd io.Reader, kind int) io.Reader {
	switch kind % 4 {
	case 0:
		return iotest.OneByteReader(rd)
	case 1:
		return iotest.HalfReader(rd)
	case 2:
		return &chunkReader{rd, r, false}
	}
	return iotest.DataErrReader(&chunkReader{rd, r, true})
}

// chunkReader delivers pieces of random sizes, sometimes none at all
type chunkReader struct {
	r     io.Reader
	rnd   rng
	plain bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if !c.plain && c.rnd.chance(0.2) {
		return 0, nil
	}
	return c.r.Read(p[:1+c.rnd.Intn(len(p))])
}

func (w *world) nodeRead(nc *nodeCase, b []byte, vs trie.KVStore, hasval, quiet, hon bool) (ret *trie.NodeData) {
	c := nc.c
	w.safe("NodeDataFromBytes", func() {
		var rd trie.KVReader
		if vs != nil {
			rd = vs
		}
		n, err := trie.NodeDataFromBytes(nc.m, cp(b), cp(nc.key), pathArity(c.Arity), rd)
		e := Ev{"md": c.Model, "ar": c.Arity, "hs": c.Hash, "key": ints(nc.key), "hasval": false, "b": ints(b), "hon": hon, "acc": err == nil, "absent": false,
			"pf": []int{}, "kids": []int{}, "has": false, "tb": []int{}, "tkey": []int{}, "tval": []int{}}
		if err == nil {
			e["pf"], e["kids"], e["has"] = ints(n.PathFragment), kidsEv(n.ChildCommitments), n.Terminal != nil
			if n.Terminal != nil {
				e["tb"] = ints(n.Terminal.Bytes())
			}
			ret = n
		}
		// what the key store and the value store say about the path in this record
		path := cp(nc.key)
		if err == nil {
			path = append(path, n.PathFragment...)
		} else if pf, ok := fragOf(b, c.Arity); ok {
			path = append(path, pf...)
		}
		if t := nc.m.CommitToData(path); t != nil {
			e["tkey"] = ints(t.Bytes())
		}
		if pk, perr := trie.PackUnpackedBytes(path, pathArity(c.Arity)); perr == nil && hasval {
			if v := vs.Get(pk); v != nil {
				e["hasval"] = true
				e["tval"] = ints(nc.m.CommitToData(v).Bytes())
			}
		}
		w.log("nread", e)
		if w.calls++; len(b) <= 400 && w.calls%3 == 0 {
			w.nodeInStore(nc, e, b, rd)
		}
	})
	return
}

// nodeInStore: the same bytes are the record of a store of which a trie, or a reader, is asked for the node
func (w *world) nodeInStore(nc *nodeCase, e Ev, b []byte, vals trie.KVReader) {
	ar := pathArity(nc.c.Arity)
	enc, err := trie.EncodeUnpackedBytes(nc.key, ar)
	if err != nil {
		return
	}
	st := trie.NewInMemoryKVStore()
	st.Set(enc, cp(b))
	f := Ev{}
	for k, v := range e {
		f[k] = v
	}
	var ns trie.NodeStore = trie.NewTrieReader(nc.m, st, vals)
	if w.calls%2 == 0 {
		ns = trie.New(nc.m, st, vals)
	}
	f["acc"], f["pf"], f["kids"], f["has"], f["tb"], f["absent"] = false, []int{}, []int{}, false, []int{}, false
	func() {
		defer func() { _ = recover() }() // this is how it reports broken records
		n, found := ns.GetNode(cp(nc.key))
		f["absent"] = !found
		if !found {
			return
		}
		pf, kids, t := n.PathFragment(), n.ChildCommitments(), n.Terminal()
		f["acc"], f["pf"], f["kids"], f["has"] = true, ints(pf), kidsEv(kids), t != nil
		if t != nil {
			f["tb"] = ints(t.Bytes())
		}
	}()
	w.log("nread", f)
}

// fragOf finds the path fragment in a (possibly broken) record
func fragOf(b []byte, ar int) ([]byte, bool) {
	if len(b) < 3 || b[0]&0x10 == 0 {
		return nil, false
	}
	l := int(b[1]) + 256*int(b[2])
	if len(b) < 3+l {
		return nil, false
	}
	pf, err := trie.DecodeToUnpackedBytes(b[3:3+l], pathArity(ar))
	return pf, err == nil
}

// ---------------------------------------------------------------------------
// proofs of the hash model

func proofEv(p *trie_blake2b.Proof) Ev {
	path := []interface{}{}
	for _, e := range p.Path {
		kids := []interface{}{}
		for _, i := range elemIdx(e) {
			kids = append(kids, []interface{}{int(i), ints(e.Children[i])})
		}
		path = append(path, Ev{"pf": ints(e.PathFragment), "idx": e.ChildIndex, "ht": e.Terminal != nil, "t": ints(e.Terminal), "kids": kids})
	}
	return Ev{"ar": int(p.PathArity) + 1, "hs": int(p.HashSize), "key": ints(p.Key), "path": path}
}

var noProof = Ev{"ar": 0, "hs": 0, "key": []int{}, "path": []int{}}

func (w *world) proofRead(b []byte, hon bool) (ret *trie_blake2b.Proof) {
	w.safe("ProofFromBytes", func() {
		p, err := trie_blake2b.ProofFromBytes(cp(b))
		e := Ev{"b": ints(b), "hon": hon, "acc": err == nil, "q": noProof, "again": false, "r2": noProof}
		if err == nil {
			ret = p
			e["q"] = proofEv(p)
			if b2 := p.Bytes(); b2 != nil {
				if p2, err2 := trie_blake2b.ProofFromBytes(b2); err2 == nil {
					e["again"], e["r2"] = true, proofEv(p2)
				}
			}
		}
		w.log("pread", e)
	})
	return
}

func (w *world) proofCase(r rng, p *trie_blake2b.Proof, roots [][]byte, vals [][]byte) {
	var b []byte
	w.safe("Proof.Bytes", func() {
		b = p.Bytes()
		w.log("pwrite", Ev{"p": proofEv(p), "out": ints(b), "size": trie.MustSize(p)})
	})
	if b == nil {
		return
	}
	if len(b) < 300 || r.chance(0.05) {
		w.full(r, "proof-write-error", b, p.Write)
	}
	if p.PathArity != trie.PathArity256 && len(b) < 2000 {
		w.writeBadProof(r, p)
	}
	q := w.proofRead(b, true)
	verdicts := func(x *trie_blake2b.Proof) string {
		s := ""
		for _, root := range roots {
			s += fmt.Sprint(trie_blake2b_verify.Validate(x, root) == nil)
			for _, v := range vals {
				s += fmt.Sprint(trie_blake2b_verify.ValidateWithValue(x, root, v) == nil)
			}
		}
		if len(x.Path) > 0 {
			func() { // these panic for proofs which are not valid
				defer func() {
					if recover() != nil {
						s += "panic"
					}
				}()
				k, t := trie_blake2b_verify.MustKeyWithTerminal(x)
				s += fmt.Sprintf("%x %x %v", k, t, trie_blake2b_verify.IsProofOfAbsence(x))
			}()
		}
		return s
	}
	if q != nil {
		w.safe("verdicts", func() { w.log("same", Ev{"name": "proof-verdict", "a": verdicts(p), "b": verdicts(q)}) })
		for j := 0; j < 3; j++ {
			w.safe("Proof.Read", func() {
				tail := r.bytes(r.Intn(3), nil)
				rd := bytes.NewReader(append(cp(b), tail...))
				x := &trie_blake2b.Proof{}
				err := x.Read(splitReader(r, rd, j))
				rest, _ := io.ReadAll(rd)
				got := "error"
				if err == nil {
					got = fmt.Sprint(proofEv(x), rest)
				}
				w.log("same", Ev{"name": "proof-split", "a": fmt.Sprint(proofEv(p), tail), "b": got})
			})
		}
	}
	n := len(b)
	times := 10
	if n > 2000 {
		times = 2
	}
	if n <= 60 || n < 1000 && r.chance(0.04) {
		for j := 0; j < n; j++ {
			w.proofRead(b[:j], false)
		}
	} else {
		for j := 0; j < times; j++ {
			w.proofRead(b[:r.Intn(n)], false)
		}
		w.proofRead(b[:n-1], false)
	}
	w.proofRead(append(cp(b), 0), false)
	w.proofRead(append(cp(b), r.bytes(1+r.Intn(40), nil)...), false)
	for j := 0; j < times; j++ {
		x := cp(b)
		switch r.Intn(4) {
		case 0:
			x[r.Intn(min(len(x), 10))] = byte(r.Intn(8))
		case 1:
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		case 2:
			x[r.Intn(len(x))] = byte(r.Intn(256))
		case 3:
			q := r.Intn(len(x))
			x = append(x[:q:q], x[q+1:]...)
		}
		w.proofRead(x, false)
	}
	w.proofRead(append([]byte{[]byte{255, 15, 1, 0, 2}[r.Intn(5)], []byte{20, 32, 0}[r.Intn(3)]}, r.bytes(r.Intn(60), []byte{0, 1, 2, 3, 255})...), false)
	w.proofRead(r.bytes(r.Intn(30), nil), false)
}

// spoil puts a symbol which does not exist into one of the paths, or leaves them as they are
func spoil(r rng, ar int, paths ...[]byte) []interface{} {
	if r.chance(0.8) {
		var at [][2]int
		for i, p := range paths {
			for j := range p {
				at = append(at, [2]int{i, j})
			}
		}
		if len(at) > 0 {
			x := at[r.Intn(len(at))]
			if r.chance(0.5) { // the last one of a path
				x[1] = len(paths[x[0]]) - 1
			}
			paths[x[0]][x[1]] = byte([]int{ar, ar + 1, 2 * ar, 255}[r.Intn(4)])
		}
	}
	l := []interface{}{}
	for _, p := range paths {
		l = append(l, ints(p))
	}
	return l
}

// writeBadProof writes a proof whose key or one of whose path fragments can not be written
func (w *world) writeBadProof(r rng, p *trie_blake2b.Proof) {
	q := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: cp(p.Key)}
	paths := [][]byte{q.Key}
	for _, e := range p.Path {
		x := *e
		x.PathFragment = cp(e.PathFragment)
		paths = append(paths, x.PathFragment)
		q.Path = append(q.Path, &x)
	}
	l := spoil(r, int(p.PathArity)+1, paths...)
	w.safe("Proof.Write", func() {
		var buf bytes.Buffer
		err := q.Write(&buf)
		w.log("wbad", Ev{"name": "proof-write-refuse", "ar": int(p.PathArity) + 1, "paths": l, "err": err != nil})
	})
}

// oversize: what is longer than its length in 16 bits is refused, what is not is written
func (w *world) oversize(name string, n, ar int, write func() ([]byte, error), back func(b []byte) bool) {
	e := Ev{"name": name, "n": n, "ar": ar, "refused": false, "same": false}
	func() {
		defer func() {
			if recover() != nil {
				e["refused"] = true
			}
		}()
		b, err := write()
		if err != nil {
			e["refused"] = true
			return
		}
		e["same"] = back(b)
	}()
	w.log("oversize", e)
}

func bigLen(r rng, ar int) int {
	n := []int{65533, 65534, 65535, 65536, 65537, 65536 + r.Intn(1000), 131071, 131072}[r.Intn(8)]
	if ar != 256 && r.chance(0.5) {
		n = (n-1)*perByte(ar) + r.Intn(3)
	}
	return n
}

func bigProofs(w *world, r rng, c Cfg) {
	for j := 0; j < 4; j++ {
		n := bigLen(r, c.Arity)
		p := &trie_blake2b.Proof{PathArity: pathArity(c.Arity), HashSize: trie_blake2b.HashSize(c.Hash), Key: []byte{1}, Path: []*trie_blake2b.ProofElement{}}
		el := func(pf []byte) *trie_blake2b.ProofElement {
			return &trie_blake2b.ProofElement{PathFragment: pf, Children: map[byte][]byte{}, ChildIndex: r.Intn(c.Arity + 2)}
		}
		ar := c.Arity
		switch j {
		case 0:
			p.Key = symbols(r, n, c.Arity)
		case 1:
			p.Path = append(p.Path, el(nil), el(symbols(r, n, c.Arity)), el([]byte{1}))
		default: // the number of elements, as it is
			ar, n = 256, []int{65534, 65535, 65536, 65537, 65536 + r.Intn(70000), 131072, 131073}[r.Intn(7)]
			if j == 2 {
				n = 65536
			}
			x := []*trie_blake2b.ProofElement{el(nil), el([]byte{1})}
			for len(p.Path) < n {
				p.Path = append(p.Path, x[r.Intn(2)])
			}
		}
		w.oversize("proof-oversize", n, ar, func() ([]byte, error) {
			var buf bytes.Buffer
			err := p.Write(&buf)
			return buf.Bytes(), err
		}, func(b []byte) bool {
			q, err := trie_blake2b.ProofFromBytes(b)
			return err == nil && fmt.Sprint(proofEv(q)) == fmt.Sprint(proofEv(p))
		})
	}
}

func bigNodes(w *world, r rng, c Cfg, m trie.CommitmentModel) {
	for j := 0; j < 3; j++ {
		n := bigLen(r, c.Arity)
		nd := trie.NewNodeData()
		nd.PathFragment = symbols(r, n, c.Arity)
		nd.Terminal = m.CommitToData([]byte{1, 2, byte(j)})
		w.oversize("node-oversize", n, c.Arity, func() ([]byte, error) {
			var buf bytes.Buffer
			err := nd.Write(&buf, pathArity(c.Arity), false, false)
			return buf.Bytes(), err
		}, func(b []byte) bool {
			x, err := trie.NodeDataFromBytes(m, b, nil, pathArity(c.Arity), trie.NewInMemoryKVStore())
			return err == nil && bytes.Equal(x.PathFragment, nd.PathFragment) && len(x.ChildCommitments) == 0 && m.EqualCommitments(x.Terminal, nd.Terminal)
		})
	}
}

func proofsTrace(w *world, r rng, i int) {
	c := randCfg(r)
	if i%32 == 7 {
		bigProofs(w, r, c)
	}
	if i%4 == 3 { // invented proofs
		for j := 0; j < 6; j++ {
			p := &trie_blake2b.Proof{PathArity: pathArity(c.Arity), HashSize: trie_blake2b.HashSize(c.Hash), Key: symbols(r, r.Intn(30), c.Arity)}
			p.Path = make([]*trie_blake2b.ProofElement, r.Intn(5))
			long := j == 0 && r.chance(0.1) // as many elements as do not fit a byte
			if long {
				p.Path = make([]*trie_blake2b.ProofElement, []int{255, 256, 257, 300}[r.Intn(4)])
			}
			if r.chance(0.05) {
				p.Key = symbols(r, []int{254, 255, 256, 257, 2040, 2048, 4096}[r.Intn(7)], c.Arity)
			}
			for x := range p.Path {
				if long {
					p.Path[x] = &trie_blake2b.ProofElement{PathFragment: symbols(r, r.Intn(2), c.Arity), Children: map[byte][]byte{}, ChildIndex: r.Intn(c.Arity + 2)}
					continue
				}
				e := &trie_blake2b.ProofElement{PathFragment: symbols(r, fragLen(r), c.Arity), Children: map[byte][]byte{}, ChildIndex: []int{0, 1, c.Arity - 1, c.Arity, c.Arity + 1}[r.Intn(5)]}
				for _, k := range randKids(r, c.Arity) {
					e.Children[k] = r.bytes(c.Hash, nil)
				}
				if r.chance(0.5) {
					e.Terminal = r.bytes([]int{0, 1, 2, 19, 20, c.Hash, c.Hash, c.Hash + 1, 127, 128, 254, 255}[r.Intn(12)], nil)
				}
				p.Path[x] = e
			}
			w.proofCase(r, p, [][]byte{r.bytes(c.Hash, nil)}, [][]byte{{1}})
		}
		return
	}
	// real proofs, of a quiet history
	w.quiet = true
	h := setup(w, r, i, 1, 1, c)
	for n := 5 + r.Intn(25); n > 0; n-- {
		h.oneUpdate()
		if r.chance(0.1) {
			h.commit()
		}
	}
	h.commit()
	w.ev = nil
	s := w.subjObj(1)
	roots := [][]byte{s.rootBytes(), nil, r.bytes(c.Hash, nil)}
	for _, k := range h.probeKeys(7) {
		var p *trie_blake2b.Proof
		w.safe("Proof", func() { p = s.m.(*trie_blake2b.CommitmentModel).Proof(cp(k), s.ns) })
		if p != nil {
			w.proofCase(r, p, roots, h.probeVals(k, h.cur))
		}
	}
}

// ---------------------------------------------------------------------------
// streams and dumps

// limitedWriter fails when its room is used up
type limitedWriter struct {
	buf  bytes.Buffer
	room int
}

var errMedium = errors.New("medium failed")

func (l *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > l.room {
		n := l.room
		l.buf.Write(p[:n])
		l.room = 0
		return n, errMedium
	}
	l.room -= len(p)
	l.buf.Write(p)
	return len(p), nil
}

// full writes to media which get full: with so many bytes of room each
func (w *world) full(r rng, name string, out []byte, write func(io.Writer) error) {
	n := len(out)
	rooms := []int{n, n + 1}
	if n <= 24 {
		for i := 0; i < n; i++ {
			rooms = append(rooms, i)
		}
	} else {
		rooms = append(rooms, 0, 1, n-1)
		for i := 0; i < 6; i++ {
			rooms = append(rooms, r.Intn(min(n, 40)), r.Intn(n))
		}
	}
	errs, outs := []bool{}, []interface{}{}
	w.safe(name, func() {
		for _, room := range rooms {
			l := &limitedWriter{room: room}
			errs = append(errs, write(l) != nil)
			outs = append(outs, ints(l.buf.Bytes()))
		}
		w.log("wfull", Ev{"name": name, "out": ints(out), "rooms": rooms, "errs": errs, "outs": outs})
	})
}

type failingReader struct{ r io.Reader }

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errMedium
	}
	return n, err
}

func kvsEv(kvs kvList) []interface{} {
	l := []interface{}{}
	for _, p := range kvs {
		l = append(l, []interface{}{ints(p[0]), ints(p[1])})
	}
	return l
}

// collect reads a stream; stop>0: the consumer stops after so many pairs, and notes
// when it is called again
// collect keeps what it gets, as a store in memory does
func collect(it trie.KVStreamIterator, stop int) (kvList, error) {
	got := kvList{}
	err := it.Iterate(func(k, v []byte) bool {
		got = append(got, [2][]byte{k, v})
		return !(stop > 0 && len(got) >= stop)
	})
	return got, err
}

func randPairs(r rng, n int) kvList {
	l := kvList{}
	for i := 0; i < n; i++ {
		kl, vl := r.Intn(5), r.Intn(6)
		if r.chance(0.1) {
			kl = []int{255, 256, 257, 300}[r.Intn(4)]
		}
		if r.chance(0.1) {
			vl = []int{255, 256, 257, 1000}[r.Intn(4)]
		}
		al := []byte(nil)
		if r.chance(0.3) {
			al = []byte{0, 1, 2}
		}
		l = append(l, [2][]byte{r.bytes(kl, al), r.bytes(vl, al)})
		if r.chance(0.1) && len(l) > 1 {
			l[len(l)-1] = l[r.Intn(len(l))] // the same pair once more
		}
	}
	return l
}

func streamsTrace(w *world, r rng, i int) {
	dir, err := os.MkdirTemp("", "verif-stream")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if i == 5 || i%400 == 5 {
		w.bigPairs(r, dir)
		return
	}
	pairs := randPairs(r, r.Intn(9))
	if i == 1 || i == 9 { // limits
		pairs = append(pairs, [2][]byte{r.bytes(65535, nil), r.bytes(3, nil)}, [2][]byte{{1}, r.bytes(65535+i, nil)}, [2][]byte{{}, {}})
	}
	// writing
	asFile := i%3 == 0
	fname := filepath.Join(dir, "stream")
	var buf bytes.Buffer
	var wr trie.KVStreamWriter
	var fw *trie.BinaryStreamFileWriter
	if asFile {
		fw, err = trie.CreateKVStreamFile(fname)
		if err != nil {
			panic(err)
		}
		wr = fw
	} else {
		wr = trie.NewBinaryStreamWriter(&buf)
	}
	w.log("snew", Ev{"i": 1})
	stats := func() {
		n, b := wr.Stats()
		w.log("sstats", Ev{"i": 1, "n": n, "bytes": b})
	}
	stats()
	for _, p := range pairs {
		k, v := cp(p[0]), cp(p[1])
		if len(v) == 0 && r.chance(0.5) {
			v = nil
		}
		err := wr.Write(k, v)
		w.log("swrite", Ev{"i": 1, "k": ints(p[0]), "v": ints(p[1]), "err": err != nil})
		if r.chance(0.4) {
			stats()
		}
	}
	stats()
	data := buf.Bytes()
	if asFile {
		if err := fw.Close(); err != nil {
			panic(err)
		}
		data, _ = os.ReadFile(fname)
	}
	w.log("sdata", Ev{"i": 1, "b": ints(data)})
	// reading: whole, in pieces, truncated anywhere, failing, stopped
	read := func(cut, kind, stop int, fail bool) {
		d := data
		if cut >= 0 && cut <= len(d) {
			d = d[:cut]
		}
		w.safe("Iterate", func() {
			var it trie.KVStreamIterator
			if kind == 9 {
				f := filepath.Join(dir, "cut")
				if err := os.WriteFile(f, d, 0o600); err != nil {
					panic(err)
				}
				fi, err := trie.OpenKVStreamFile(f)
				if err != nil {
					w.log("panic", Ev{"msg": "OpenKVStreamFile: " + err.Error(), "at": ""})
					return
				}
				defer fi.Close()
				it, fail = fi, false
			} else {
				var rd io.Reader = bytes.NewReader(d)
				if fail {
					rd = failingReader{rd}
				}
				if kind >= 0 {
					rd = splitReader(r, rd, kind)
				}
				it = trie.NewBinaryStreamIterator(rd)
			}
			got, err := collect(it, stop)
			w.log("sread", Ev{"i": 1, "cut": cut, "stop": stop, "fail": fail, "kind": kind, "pairs": kvsEv(got), "err": err != nil})
		})
	}
	big := len(data) > 5000
	read(-1, -1, 0, false)
	read(-1, 9, 0, false)
	for k := 0; k < 4; k++ {
		read(-1, k, 0, false)
		if big {
			break
		}
		read(-1, k, 1+r.Intn(6), false)
		read(r.Intn(len(data)+1), k, r.Intn(2)*r.Intn(5), r.chance(0.5))
	}
	if !big && len(data) < 70 {
		for c := 0; c <= len(data); c++ {
			read(c, -1, 0, false)
			read(c, []int{0, 1, 2, 3, 9}[r.Intn(5)], 0, r.chance(0.3))
		}
	} else {
		for j := 0; j < 4; j++ {
			read(r.Intn(len(data)+1), []int{-1, 0, 1, 2, 3, 9}[r.Intn(6)], 0, r.chance(0.3))
			if big {
				break
			}
		}
	}
	if big {
		return
	}
	// arbitrary data (without lengths which would need gigabytes)
	for j := 0; j < 6; j++ {
		b := r.bytes(r.Intn(40), []byte{0, 1, 2, 3})
		if r.chance(0.5) && len(data) > 0 {
			b = cp(data)
			p := r.Intn(len(b))
			b[p] = byte(r.Intn(4))
		}
		if biggest(b) > 1<<24 {
			continue
		}
		w.safe("Iterate", func() {
			got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(b)), 0)
			w.log("sraw", Ev{"b": ints(b), "stop": 0, "fail": false, "pairs": kvsEv(got), "err": err != nil})
		})
	}
	// a medium with limited room
	for j := 0; j < 3; j++ {
		room := len(data)
		if j > 0 {
			room = r.Intn(len(data) + 1)
		}
		lw := &limitedWriter{room: room}
		sw := trie.NewBinaryStreamWriter(lw)
		errs := []interface{}{}
		for _, p := range pairs {
			errs = append(errs, sw.Write(p[0], p[1]) != nil)
		}
		n, _ := sw.Stats()
		w.log("sfull", Ev{"room": room, "pairs": kvsEv(pairs), "errs": errs, "n": n, "b": ints(lw.buf.Bytes())})
	}
	// dumps
	set := contents{}
	for _, p := range pairs {
		set.put(p[0], p[1])
	}
	store := trie.NewInMemoryKVStore()
	for _, p := range set.sorted() {
		store.Set(cp(p[0]), cp(p[1]))
	}
	w.limitedFiles(r, dir, pairs, set.sorted(), len(data))
	w.randStreams(r)
	df := filepath.Join(dir, "dump")
	var dumped []byte
	w.safe("DumpToFile", func() {
		n, err := trie.DumpToFile(store, df)
		dumped, _ = os.ReadFile(df)
		w.log("dump", Ev{"set": kvsEv(set.sorted()), "b": ints(dumped), "n": n, "err": err != nil, "entries": trie.NumEntries(store), "bytes": trie.ByteSize(store)})
		_, err = trie.DumpToFile(store, "/dev/full")
		w.log("dumpfull", Ev{"set": kvsEv(set.sorted()), "err": err != nil})
	})
	cuts := []int{len(dumped)}
	if len(dumped) < 60 {
		for c := 0; c < len(dumped); c++ {
			cuts = append(cuts, c)
		}
	} else {
		for j := 0; j < 8; j++ {
			cuts = append(cuts, r.Intn(len(dumped)))
		}
	}
	for _, c := range cuts {
		b := dumped[:c]
		if c < len(dumped) && r.chance(0.2) { // a stream is a dump as well, with empty values and repeated keys
			b = data[:r.Intn(len(data)+1)]
		}
		before := contents{}
		dst := trie.NewInMemoryKVStore()
		if r.chance(0.3) {
			for j := 0; j < 2; j++ {
				k, v := r.bytes(1, []byte{0, 1, 2}), []byte{9, byte(j)}
				before.put(k, v)
				dst.Set(cp(k), cp(v))
			}
		}
		w.safe("UnDumpFromFile", func() {
			f := filepath.Join(dir, "undump")
			if err := os.WriteFile(f, b, 0o600); err != nil {
				panic(err)
			}
			n, err := trie.UnDumpFromFile(dst, f)
			w.log("undump", Ev{"b": ints(b), "before": kvsEv(before.sorted()), "set": kvsEv(storeContents(dst)), "n": n, "err": err != nil})
		})
	}
}

// blob is a piece of data too long to be recorded: its length and a digest
func blob(b []byte) []interface{} {
	h := sha256.Sum256(b)
	return []interface{}{len(b), hex.EncodeToString(h[:8])}
}

func blobs(kvs kvList) []interface{} {
	l := []interface{}{}
	for _, p := range kvs {
		l = append(l, []interface{}{blob(p[0]), blob(p[1])})
	}
	return l
}

// bigPairs: streams and dumps of long keys and values, recorded by lengths and digests
func (w *world) bigPairs(r rng, dir string) {
	lens := []int{0, 255, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<24 + 3, 1<<25 + r.Intn(100)}
	pairs, set := kvList{}, contents{}
	for _, l := range lens {
		k := r.bytes([]int{1, 2, 255, 256, 65535}[r.Intn(5)], nil)
		v := make([]byte, l)
		r.Read(v)
		pairs = append(pairs, [2][]byte{k, v})
		set.put(k, v)
	}
	r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	w.safe("Write", func() {
		var buf bytes.Buffer
		wr := trie.NewBinaryStreamWriter(&buf)
		errs := []bool{}
		for _, p := range pairs {
			errs = append(errs, wr.Write(p[0], p[1]) != nil)
		}
		n, size := wr.Stats()
		data := buf.Bytes()
		// the stream cut into the pieces it should consist of
		pieces, pos := []interface{}{}, 0
		piece := func(l int) []byte {
			a := min(pos, len(data))
			b := min(pos+l, len(data))
			pos += l
			return data[a:b]
		}
		ends := []int{}
		for _, p := range pairs {
			pieces = append(pieces, []interface{}{ints(piece(2)), blob(piece(len(p[0]))), ints(piece(4)), blob(piece(len(p[1])))})
			ends = append(ends, pos)
		}
		reads := []interface{}{}
		cuts := []int{-1, -1, r.Intn(len(data)), ends[r.Intn(len(ends))], ends[r.Intn(len(ends))] - 1}
		for j, cut := range cuts {
			d := data
			if cut >= 0 && cut <= len(d) {
				d = d[:cut]
			}
			var rd io.Reader = bytes.NewReader(d)
			if j%2 == 1 {
				rd = splitReader(r, rd, 2)
			}
			got, err := collect(trie.NewBinaryStreamIterator(rd), 0)
			reads = append(reads, Ev{"cut": cut, "pairs": blobs(got), "err": err != nil})
		}
		w.log("sbig", Ev{"pairs": blobs(pairs), "errs": errs, "n": n, "bytes": size, "len": len(data), "pieces": pieces, "reads": reads})
	})
	w.safe("DumpToFile", func() {
		store := trie.NewInMemoryKVStore()
		for _, p := range set.sorted() {
			store.Set(p[0], p[1])
		}
		f := filepath.Join(dir, "big")
		n, err := trie.DumpToFile(store, f)
		st, err2 := os.Stat(f)
		if err2 != nil {
			panic(err2)
		}
		dst := trie.NewInMemoryKVStore()
		m, err3 := trie.UnDumpFromFile(dst, f)
		w.log("dumpbig", Ev{"set": blobs(set.sorted()), "n": n, "err": err != nil, "len": st.Size(), "m": m, "err2": err3 != nil,
			"back": blobs(storeContents(dst)), "entries": trie.NumEntries(store), "bytes": trie.ByteSize(store)})
	})
	// a key whose length the format can not express must not be accepted
	acc := 0
	for _, l := range []int{65536, 65537, 65536 + 300} {
		func() {
			defer func() { _ = recover() }()
			if trie.NewBinaryStreamWriter(io.Discard).Write(make([]byte, l), []byte{1}) == nil {
				acc++
			}
		}()
	}
	w.log("refuse", Ev{"name": "stream-write-error", "acc": acc})
}

// biggest is the biggest length found at any position where one might be read
func biggest(b []byte) int {
	m := 0
	for i := 0; i+4 <= len(b); i++ {
		l := int(b[i]) | int(b[i+1])<<8 | int(b[i+2])<<16 | int(b[i+3])<<24
		if l > m {
			m = l
		}
	}
	return m
}

func storeContents(s trie.KVStore) kvList {
	l := kvList{}
	s.Iterate(func(k, v []byte) bool {
		l = append(l, [2][]byte{cp(k), cp(v)})
		return true
	})
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i][0], l[j][0]) < 0 })
	return l
}
