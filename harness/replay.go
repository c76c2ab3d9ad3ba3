package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
)

// Behaviours generated by TLC from the specification are replayed into the code; what the
// specification says about them is in the behaviour itself.

type failure struct {
	Check     string          `json:"check"`
	What      string          `json:"what"`
	Behaviour json.RawMessage `json:"behaviour"`
}

// rep collects the result of replaying
type rep struct {
	mu       sync.Mutex
	Replayed int               `json:"replayed"`
	Steps    int               `json:"steps"`
	Compared int               `json:"compared"`
	Failures []failure         `json:"failures"`
	Samples  []json.RawMessage `json:"samples"`
	Known    map[string]int    `json:"known"`
}

// rcase is one behaviour being replayed
type rcase struct {
	raw             json.RawMessage
	steps, compared int
	fails           []failure
	knowns          []string
}

// known counts a deviation which has one of the labels of KNOWN_FINDINGS
func (c *rcase) known(label string) { c.knowns = append(c.knowns, label) }

func (c *rcase) fail(check, format string, p ...interface{}) {
	c.fails = append(c.fails, failure{check, trunc(fmt.Sprintf(format, p...), 1000), c.raw})
}

// eq compares what the specification says with what the code did
func (c *rcase) eq(check string, spec, code interface{}) {
	c.compared++
	if !reflect.DeepEqual(spec, code) {
		c.fail(check, "specification: %v, code: %v", spec, code)
	}
}

// call runs one call of the code under test
func (c *rcase) call(what string, f func()) (ok bool) {
	c.steps++
	defer func() {
		if r := recover(); r != nil {
			c.fail("panic", "%s: %v %s", what, r, where())
			ok = false
		}
	}()
	f()
	return true
}

var replayers = map[string]func(c *rcase){}

func replayMain(file, suite, out string) int {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer f.Close()
	fn, ok := replayers[suite]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown replay", suite)
		return 2
	}
	lines := [][]byte{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) > 0 {
			lines = append(lines, cp(sc.Bytes()))
		}
	}
	if sc.Err() != nil {
		fmt.Fprintln(os.Stderr, sc.Err())
		return 2
	}
	r := &rep{Failures: []failure{}, Samples: []json.RawMessage{}, Known: map[string]int{}}
	idx := make(chan int)
	var hung int32
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range idx {
				if atomic.LoadInt32(&hung) != 0 {
					continue
				}
				c := &rcase{raw: lines[j]}
				done := make(chan struct{})
				go func() {
					defer close(done)
					defer func() {
						if p := recover(); p != nil {
							c.fail("panic", "%v %s", p, where())
						}
					}()
					fn(c)
				}()
				if !await(done) {
					c = &rcase{raw: lines[j]}
					c.fail("panic", "does not terminate")
					atomic.StoreInt32(&hung, 1)
				}
				r.mu.Lock()
				r.Replayed++
				r.Steps += c.steps
				r.Compared += c.compared
				for _, k := range c.knowns {
					r.Known[k]++
				}
				if len(r.Failures) < 200 {
					r.Failures = append(r.Failures, c.fails...)
				}
				r.mu.Unlock()
			}
		}()
	}
	for j := range lines {
		idx <- j
	}
	close(idx)
	wg.Wait()
	if len(lines) > 0 {
		r.Samples = append(r.Samples, lines[len(lines)/2])
	}
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(out, b, 0o600)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func (c *rcase) parse(v interface{}) {
	if err := json.Unmarshal(c.raw, v); err != nil {
		panic("cannot parse behaviour: " + err.Error() + ": " + trunc(string(c.raw), 200))
	}
}

// bs converts the sequences of the specification
func bs(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}
