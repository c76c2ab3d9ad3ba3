package main

import (
	"encoding/hex"
	"sort"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

func init() { replayers["updater"] = replayUpdater }

func pairsMap(l [][][]int) map[string]string {
	m := map[string]string{}
	for _, p := range l {
		m[hex.EncodeToString(bs(p[0]))] = hex.EncodeToString(bs(p[1]))
	}
	return m
}

// replayUpdater replays a behaviour of Updater: updates, commits with failures of the
// database, crashes; the database has to be in the state of the specification
func replayUpdater(c *rcase) {
	var b struct {
		Ar   int
		Path []struct {
			Op   string
			K, V []int
			X    string
		}
		Db, Dur, Cur [][][]int
		Tkeys        [][]int
	}
	c.parse(&b)
	tp, vp := []byte{1}, []byte{2, 0}
	shared := oneArray(tp, vp)
	db := newFaultDB()
	durable := map[string][]byte{}
	db.onFlushed = func() { durable = copyMap(db.m) }
	model := trie_blake2b.New(pathArity(b.Ar), trie_blake2b.HashSize160)
	var u *hive_adaptor.HiveBatchedUpdater
	open := func() {
		var err error
		if u, err = hive_adaptor.NewHiveBatchedUpdater(db, model, shared[0], shared[1], false); err != nil {
			panic(err)
		}
	}
	open()
	commit := func(x string) {
		*db.fm = faultMode{}
		switch x {
		case "commit":
			db.fm.op = "commit"
		case "commit-applied":
			db.fm.op, db.fm.after = "commit", true
		case "flush":
			db.fm.op = "flush"
		case "flush-applied":
			db.fm.op, db.fm.after = "flush", true
		}
		n := *db.fired
		c.call("Commit", func() { c.eq("batch-reported", x != "", u.Commit() != nil) })
		*db.fm = faultMode{}
		// the failure has to have had an occasion
		c.eq("batch-boundary", x != "", *db.fired != n)
	}
	for _, s := range b.Path {
		switch s.Op {
		case "upd":
			c.call("Update", func() { u.Update(bs(s.K), bs(s.V)) })
		case "commit":
			commit(s.X)
		case "crash":
			if s.X == "lose" {
				db.m = copyMap(durable)
			} else {
				durable = copyMap(db.m)
			}
			open()
		}
		if len(c.fails) > 0 {
			return
		}
	}
	look := func(m map[string][]byte, want map[string]string) []string {
		vals, tkeys, t := map[string]string{}, []string{}, newMemKV()
		for k, v := range m {
			if k[0] == 1 {
				tkeys = append(tkeys, hex.EncodeToString([]byte(k[1:])))
				t.m[k[1:]] = cp(v)
			} else {
				vals[hex.EncodeToString([]byte(k[2:]))] = hex.EncodeToString(v)
			}
		}
		c.eq("batch-boundary", want, vals)
		fresh := trie.New(model, newMemKV(), newMemKV())
		for k, v := range want {
			kb, _ := hex.DecodeString(k)
			vb, _ := hex.DecodeString(v)
			fresh.Update(kb, vb)
		}
		fresh.Commit()
		c.call("root", func() { c.eq("root-function", rootHex(fresh), rootHex(trie.NewTrieReader(model, t, newMemKV()))) })
		sort.Strings(tkeys)
		return tkeys
	}
	look(durable, pairsMap(b.Dur))
	tkeys := look(db.m, pairsMap(b.Db))
	want := []string{}
	for _, k := range b.Tkeys {
		want = append(want, hex.EncodeToString(bs(k)))
	}
	sort.Strings(want)
	c.eq("batch-trie", want, tkeys)
	// the next commit brings the database to what is wanted
	c.call("Commit", func() { c.eq("batch-reported", false, u.Commit() != nil) })
	look(db.m, pairsMap(b.Cur))
}
