package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/core/kvstore"
)

// faultDB is a kvstore.KVStore of the harness: it copies everything in and out, its
// iteration is ordered, and its calls can be made to fail, with or without effect.

var errFault = errors.New("injected database failure")

type faultMode struct {
	op    string // "get", "has", "set", "delete", "iterate", "batched", "batchset", "commit", "flush"; "" none
	after bool   // the effect takes place although an error is returned
	at    int    // iterate: the number of pairs delivered before
	skip  int    // number of calls of that kind which are served before
	err   error
	some  bool // a value is returned together with the error
}

type faultDB struct {
	m         map[string][]byte
	realm     string
	fm        *faultMode // shared with all realms
	fired     *int
	onWrite   func() // called after each change of the database
	onOp      func(op string)
	onFlushed func()
	wrapNF    bool // absence is reported with a wrapped ErrKeyNotFound
}

func newFaultDB() *faultDB {
	return &faultDB{m: map[string][]byte{}, fm: &faultMode{}, fired: new(int)}
}

// hit tells whether the call fails
func (d *faultDB) hit(op string) bool {
	if d.onOp != nil {
		d.onOp(op)
	}
	if d.fm.op != op {
		return false
	}
	if d.fm.skip > 0 {
		d.fm.skip--
		return false
	}
	*d.fired++
	return true
}
func (d *faultDB) err() error {
	if d.fm.err != nil {
		return d.fm.err
	}
	return errFault
}
func (d *faultDB) wrote() {
	if d.onWrite != nil {
		d.onWrite()
	}
}
func (d *faultDB) full(k []byte) string { return d.realm + string(k) }

func (d *faultDB) WithRealm(realm kvstore.Realm) (kvstore.KVStore, error) {
	n := *d
	n.realm = string(realm)
	return &n, nil
}
func (d *faultDB) Realm() kvstore.Realm { return []byte(d.realm) }

func (d *faultDB) sorted(prefix string) []string {
	r := []string{}
	for k := range d.m {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (d *faultDB) Iterate(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyValueConsumerFunc, dir ...kvstore.IterDirection) error {
	fail := d.hit("iterate")
	ks := d.sorted(d.full(prefix))
	if kvstore.GetIterDirection(dir...) == kvstore.IterDirectionBackward {
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
	}
	n := 0
	for _, k := range ks {
		if fail && n == d.fm.at {
			return d.err()
		}
		n++
		if !f([]byte(k[len(d.realm):]), cp(d.m[k])) {
			if fail {
				*d.fired-- // it stopped before the failure
			}
			return nil
		}
	}
	if fail {
		return d.err()
	}
	return nil
}

func (d *faultDB) IterateKeys(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyConsumerFunc, dir ...kvstore.IterDirection) error {
	return d.Iterate(prefix, func(k kvstore.Key, _ kvstore.Value) bool { return f(k) }, dir...)
}

func (d *faultDB) Clear() error { return d.DeletePrefix(nil) }

func (d *faultDB) Get(k kvstore.Key) (kvstore.Value, error) {
	v, ok := d.m[d.full(k)]
	if d.hit("get") {
		if d.fm.some {
			return cp(v), d.err()
		}
		return nil, d.err()
	}
	if !ok {
		if d.wrapNF {
			return nil, fmt.Errorf("store: %w", kvstore.ErrKeyNotFound)
		}
		return nil, kvstore.ErrKeyNotFound
	}
	return cp(v), nil
}

func (d *faultDB) Has(k kvstore.Key) (bool, error) {
	_, ok := d.m[d.full(k)]
	// it is the same failure to the caller, whichever call is used to find out
	if d.hit("get") {
		return false, d.err()
	}
	return ok, nil
}

func (d *faultDB) Set(k kvstore.Key, v kvstore.Value) error {
	fail := d.hit("set")
	if !fail || d.fm.after {
		d.m[d.full(k)] = cp(v)
		d.wrote()
	}
	if fail {
		return d.err()
	}
	return nil
}

func (d *faultDB) Delete(k kvstore.Key) error {
	fail := d.hit("set")
	if !fail || d.fm.after {
		delete(d.m, d.full(k))
		d.wrote()
	}
	if fail {
		return d.err()
	}
	return nil
}

func (d *faultDB) DeletePrefix(p kvstore.KeyPrefix) error {
	if d.hit("set") {
		return d.err()
	}
	for _, k := range d.sorted(d.full(p)) {
		delete(d.m, k)
	}
	d.wrote()
	return nil
}

func (d *faultDB) Flush() error {
	fail := d.hit("flush")
	if (!fail || d.fm.after) && d.onFlushed != nil {
		d.onFlushed()
	}
	if fail {
		return d.err()
	}
	return nil
}
func (d *faultDB) Close() error { return nil }

func (d *faultDB) Batched() (kvstore.BatchedMutations, error) {
	if d.hit("batched") {
		return nil, d.err()
	}
	return &faultBatch{d: d}, nil
}

// faultBatch keeps references to the keys and values it gets until committed, as databases
// do; committing again applies the mutations again
type faultBatch struct {
	d   *faultDB
	ops []batchOp
}

type batchOp struct {
	k, v []byte
	del  bool
}

func (b *faultBatch) Set(k kvstore.Key, v kvstore.Value) error {
	if b.d.hit("batchset") {
		return b.d.err()
	}
	b.ops = append(b.ops, batchOp{k: k, v: v})
	return nil
}
func (b *faultBatch) Delete(k kvstore.Key) error {
	if b.d.hit("batchset") {
		return b.d.err()
	}
	b.ops = append(b.ops, batchOp{k: k, del: true})
	return nil
}
func (b *faultBatch) Cancel() { b.ops = nil }
func (b *faultBatch) Commit() error {
	fail := b.d.hit("commit")
	if !fail || b.d.fm.after {
		for _, o := range b.ops {
			if o.del {
				delete(b.d.m, b.d.full(o.k))
			} else {
				b.d.m[b.d.full(o.k)] = cp(o.v)
			}
		}
		b.d.wrote()
	}
	if fail {
		return b.d.err()
	}
	return nil
}

// oneArray lays slices one after another, so that each of them has the others in its capacity
func oneArray(l ...[]byte) [][]byte {
	n := 64
	for _, b := range l {
		n += len(b)
	}
	buf := make([]byte, 0, n)
	res := make([][]byte, len(l))
	for i, b := range l {
		buf = append(buf, b...)
		res[i] = buf[len(buf)-len(b):]
	}
	return res
}

// dump gives all records, bypassing the interface
func (d *faultDB) dump() []interface{} {
	r := []interface{}{}
	for _, k := range d.sorted("") {
		r = append(r, []interface{}{ints([]byte(k)), ints(d.m[k])})
	}
	return r
}
