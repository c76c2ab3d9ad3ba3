package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/iotaledger/trie.go/trie"
)

// Files on a medium with limited room: a process of its own, whose files may have so many
// bytes only, writes a stream file and a dump file.

type limitedIn struct {
	Dir   string
	Pairs [][2][]byte
	Set   [][2][]byte
	Rooms []int
}
type limitedOut struct {
	Room     int
	DumpErr  bool
	DumpN    int
	Dump     []byte
	WErrs    []bool
	WN       int
	Stream   []byte
	Panicked string
}

func limitedFiles() {
	signal.Ignore(syscall.SIGXFSZ)
	var in limitedIn
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := []limitedOut{}
	for i, room := range in.Rooms {
		o := limitedOut{Room: room}
		func() {
			defer func() {
				if x := recover(); x != nil {
					o.Panicked = fmt.Sprint(x)
				}
			}()
			store := trie.NewInMemoryKVStore()
			for _, p := range in.Set {
				store.Set(p[0], p[1])
			}
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(room), Max: ^uint64(0)}); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			f := filepath.Join(in.Dir, fmt.Sprint("d", i))
			n, err := trie.DumpToFile(store, f)
			o.DumpN, o.DumpErr = n, err != nil
			o.Dump, _ = os.ReadFile(f)
			g := filepath.Join(in.Dir, fmt.Sprint("s", i))
			fw, err := trie.CreateKVStreamFile(g)
			if err != nil {
				o.Panicked = err.Error()
				return
			}
			for _, p := range in.Pairs {
				o.WErrs = append(o.WErrs, fw.Write(p[0], p[1]) != nil)
			}
			o.WN, _ = fw.Stats()
			_ = fw.Close()
			o.Stream, _ = os.ReadFile(g)
		}()
		res = append(res, o)
	}
	_ = json.NewEncoder(os.Stdout).Encode(res)
}

func (w *world) limitedFiles(r rng, dir string, pairs, set kvList, total int) {
	if total > 5000 {
		return
	}
	rooms := []int{total, total + 1}
	for j := 0; j < 4; j++ {
		rooms = append(rooms, r.Intn(total+1))
	}
	if total < 40 {
		rooms = nil
		for j := 0; j <= total; j++ {
			rooms = append(rooms, j)
		}
	}
	in, _ := json.Marshal(limitedIn{dir, pairs, set, rooms})
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(self, "-suite", "limited-files")
	pr, pw, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	go func() { _, _ = pw.Write(in); pw.Close() }()
	cmd.Stdin = pr
	b, err := cmd.Output()
	pr.Close()
	var res []limitedOut
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil { // the process died: it does nothing but writing files
		w.log("panic", Ev{"msg": "writing files: " + err.Error(), "at": "DumpToFile"})
		return
	}
	for _, o := range res {
		if o.Panicked != "" {
			w.log("panic", Ev{"msg": o.Panicked, "at": "DumpToFile"})
			continue
		}
		w.log("dumproom", Ev{"set": kvsEv(set), "room": o.Room, "err": o.DumpErr, "n": o.DumpN, "b": ints(o.Dump)})
		errs := []interface{}{}
		for _, e := range o.WErrs {
			errs = append(errs, e)
		}
		// what is written after a failed write may fit again: the first failure is what counts
		w.log("sroom", Ev{"room": o.Room, "pairs": kvsEv(pairs), "errs": errs, "n": o.WN, "b": ints(o.Stream)})
	}
}

// randStreams: streams of random pairs are determined by their parameters
func (w *world) randStreams(r rng) {
	for j := 0; j < 3; j++ {
		par := trie.RandStreamParams{Seed: r.Int63(), NumKVPairs: 1 + r.Intn(8), MaxKey: 2 + r.Intn(12), MaxValue: 2 + r.Intn(12)}
		stop := 0
		if j > 0 {
			stop = 1 + r.Intn(9)
		}
		if j == 2 {
			par.NumKVPairs = 0
		}
		w.safe("RandStreamIterator", func() {
			a, err := collect(trie.NewRandStreamIterator(par), stop)
			b, err2 := collect(trie.NewRandStreamIterator(par), stop)
			w.log("srand", Ev{"n": par.NumKVPairs, "mk": par.MaxKey, "mv": par.MaxValue, "stop": stop, "a": kvsEv(a), "b": kvsEv(b), "err": err != nil || err2 != nil})
		})
	}
}
