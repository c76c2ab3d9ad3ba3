package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
)

type doc struct {
	Chk    []string          `json:"chk"`
	Nodes  []Ev              `json:"nodes"`
	Terms  []Ev              `json:"terms"`
	Hashes []Ev              `json:"hashes"`
	Traces []json.RawMessage `json:"traces"`
}

func sortedRows(m map[string]Ev) []Ev {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []Ev{}
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

func main() {
	var (
		name = flag.String("suite", "", "suite (property id)")
		seed = flag.Int64("seed", 1, "seed")
		tier = flag.String("tier", "quick", "quick or thorough")
		out  = flag.String("out", "", "output prefix; documents are written to <out>.<n>.json")
		nDoc = flag.Int("docs", 4, "number of documents the traces are distributed over")
		rep  = flag.String("replay", "", "replay behaviours generated from the specification")
	)
	flag.Parse()
	go watchMemory()
	if *name == "limited-files" {
		limitedFiles()
		return
	}
	if *rep != "" {
		os.Exit(replayMain(*rep, *name, *out))
	}
	s, ok := suites[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown suite", *name)
		os.Exit(2)
	}
	rec := newRecorder()
	traces := s.run(*seed, *tier, rec)
	tables := Trace{"tables", []Ev{{"e": "tables"}}}
	evs := 0
	for _, t := range traces {
		evs += len(t.Ev)
	}
	n := *nDoc
	if n > len(traces) {
		n = len(traces)
	}
	if n < 1 {
		n = 1
	}
	// balance the documents by size: the next biggest trace goes to the smallest document
	raw := func(t Trace) json.RawMessage {
		if t.Ev == nil {
			t.Ev = []Ev{}
		}
		b, err := json.Marshal(t)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return b
	}
	ds := make([]doc, n)
	raws := make([]json.RawMessage, len(traces))
	order := make([]int, len(traces))
	for i, t := range traces {
		raws[i], order[i] = raw(t), i
	}
	sort.SliceStable(order, func(a, b int) bool { return len(raws[order[a]]) > len(raws[order[b]]) })
	load := make([]int, n)
	for _, i := range order {
		j := 0
		for x := range load {
			if load[x] < load[j] {
				j = x
			}
		}
		ds[j].Traces = append(ds[j].Traces, raws[i])
		load[j] += len(raws[i]) + 2000
	}
	for i := range ds {
		ds[i].Chk = s.chk
		ds[i].Terms = sortedRows(rec.terms)
		ds[i].Nodes = []Ev{}
		ds[i].Hashes = sortedRows(rec.hashes)
		if i == 0 {
			ds[i].Nodes = sortedRows(rec.nodes)
			if s.spec == "TrieTrace" && len(ds[i].Nodes)+len(ds[i].Terms) > 0 {
				ds[i].Traces = append(ds[i].Traces, raw(tables))
			}
		}
		f, err := os.Create(fmt.Sprintf("%s.%d.json", *out, i))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := json.NewEncoder(f).Encode(ds[i]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f.Close()
	}
	sum := map[string]interface{}{"docs": n, "spec": s.spec, "traces": len(traces), "events": evs, "kinds": rec.kinds,
		"node_rows": len(rec.nodes), "term_rows": len(rec.terms)}
	b, _ := json.Marshal(sum)
	fmt.Println(string(b))
}
