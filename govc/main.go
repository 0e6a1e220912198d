package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type jsonFunc struct {
	Name        string         `json:"function"`
	Source      string         `json:"source"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByKind      map[string]int `json:"by_kind"`
	BySolver    map[string]int `json:"by_backend"`
	SolverSecs  float64        `json:"solver_s"`
	Inlined     []string       `json:"inlined,omitempty"`
	Rounds      int            `json:"houdini_rounds,omitempty"`
	Dropped     int            `json:"candidates_dropped,omitempty"`
	Reach       string         `json:"reachability"`
}
type jsonFail struct {
	Function string `json:"function"`
	Kind     string `json:"kind"`
	Name     string `json:"obligation"`
	Pos      string `json:"pos"`
	Status   string `json:"status"`
	Goal     string `json:"goal"`
	Trace    string `json:"path"`
	Output   string `json:"solver_output"`
	Query    string `json:"query,omitempty"`
}
type jsonOut struct {
	Property    string             `json:"property"`
	Functions   []jsonFunc         `json:"functions"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	Lemmas      []string           `json:"lemmas"`
	Failures    []jsonFail         `json:"failures"`
	Solvers     map[string]float64 `json:"solver_seconds"`
	SolverCount map[string]int     `json:"discharged_by"`
	Trusted     []string           `json:"trusted"`
	Assumed     []string           `json:"assumed"`
	Notes       []string           `json:"notes"`
	Blocks      []string           `json:"spec_blocks"`
	LoadSecs    float64            `json:"load_s"`
	WallSecs    float64            `json:"wall_s"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|dump|list ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	out := fs.String("out", "", "")
	only := fs.String("fn", "", "verify only this function")
	verbose := fs.Bool("v", false, "")
	quick := fs.Int("quick", 4, "")
	slow := fs.Int("slow", 25, "")
	dumpq := fs.String("dumpq", "", "directory for failing queries")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	w, err := loadWorld(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	loadSecs := time.Since(t0).Seconds()
	switch cmd {
	case "dump":
		for _, n := range fs.Args() {
			if f := w.roleFunc(n); f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", n)
			}
		}
		return
	case "list":
		for _, n := range sortedKeys(w.funcs) {
			fmt.Println(n)
		}
		return
	}
	sp, err := loadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "specs:", err)
		os.Exit(2)
	}
	w.specs = sp
	p := sp.props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", *prop)
		os.Exit(2)
	}
	v := &Verifier{w: w, prop: *prop, results: map[string]*FuncResult{}, verbose: *verbose, quick: *quick, slow: *slow, qcache: map[string]*qentry{}}
	if *only != "" {
		v.Run(strings.Split(*only, ","), false)
	} else {
		v.Run(append(append([]string{}, p.roots...), p.also...), true)
		v.runSensitive(p)
	}
	v.runLemmas(v.neededLemmas(p))
	inproc.stop()

	j := jsonOut{Property: *prop, Solvers: solverTime, SolverCount: map[string]int{}, LoadSecs: loadSecs}
	tr, as := map[string]bool{}, map[string]bool{}
	for _, n := range v.order {
		r := v.results[n]
		jf := jsonFunc{Name: n, ByKind: map[string]int{}, BySolver: map[string]int{}, Rounds: r.rounds, Dropped: len(r.dropped), Reach: r.coverRes}
		if r.fn != nil {
			pp := w.prog.Fset.Position(r.fn.Pos())
			jf.Source = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
			jf.Inlined = sortedKeys(r.x.inlined)
			for k := range r.x.trusted {
				tr[k] = true
			}
			for k := range r.x.assumed {
				as[k] = true
			}
			j.Notes = append(j.Notes, r.x.notes...)
		}
		for _, o := range r.obls {
			if o.cand != "" && r.dropped[o.cand] {
				continue
			}
			jf.Obligations++
			jf.ByKind[o.kind]++
			jf.SolverSecs += o.res.secs
			if o.res.status == "unsat" {
				jf.Discharged++
				jf.BySolver[o.res.solver]++
				j.SolverCount[o.res.solver]++
			}
		}
		for i, o := range r.failed() {
			f := jsonFail{Function: n, Kind: o.kind, Name: o.name, Pos: o.pos, Status: o.res.status, Trace: o.trace, Output: trunc(o.res.out, 2000), Query: o.query}
			if o.goal != nil {
				f.Goal = o.goal.String()
			}
			j.Failures = append(j.Failures, f)
			if *dumpq != "" {
				os.MkdirAll(*dumpq, 0755)
				os.WriteFile(filepath.Join(*dumpq, fmt.Sprintf("%s_%d.smt2", sanitize(n), i)), []byte(o.query), 0644)
				if o.fquery != "" {
					os.WriteFile(filepath.Join(*dumpq, fmt.Sprintf("%s_%d_focus.smt2", sanitize(n), i)), []byte(o.fquery), 0644)
				}
			}
		}
		j.Functions = append(j.Functions, jf)
		j.Obligations += jf.Obligations
		j.Discharged += jf.Discharged
	}
	for _, l := range v.lemRes {
		j.Obligations++
		j.Lemmas = append(j.Lemmas, l.Name)
		if l.Res.status == "unsat" {
			j.Discharged++
			j.SolverCount[l.Res.solver]++
		} else {
			j.Failures = append(j.Failures, jsonFail{Function: "lemma " + l.Name, Kind: "lemma", Name: l.Name, Status: l.Res.status, Output: trunc(l.Res.out, 2000), Query: l.Text})
			if *dumpq != "" {
				os.MkdirAll(*dumpq, 0755)
				os.WriteFile(filepath.Join(*dumpq, "lemma_"+sanitize(l.Name)+".smt2"), []byte(l.Text), 0644)
			}
		}
	}
	sort.Strings(j.Lemmas)
	j.Trusted, j.Assumed, j.Blocks = sortedKeys(tr), sortedKeys(as), sortedKeys(blocksUsed)
	j.WallSecs = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(j, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	for _, f := range j.Functions {
		fmt.Printf("%-60s %4d/%-4d obligations  %v reach=%s %.1fs\n", f.Name, f.Discharged, f.Obligations, f.BySolver, f.Reach, f.SolverSecs)
	}
	fmt.Printf("lemmas: %v\n", j.Lemmas)
	for i, f := range j.Failures {
		if i > 40 {
			fmt.Println("...")
			break
		}
		fmt.Printf("FAILED [%s] %s: %s (%s) %s\n   path: %s\n   goal: %s\n", f.Kind, f.Function, f.Name, f.Status, f.Pos, f.Trace, trunc(f.Goal, 600))
	}
	for _, n := range j.Notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d failed, %.1fs wall (load %.1fs, prune %.1fs/%d)\n", *prop, j.Obligations, j.Discharged, len(j.Failures), j.WallSecs, loadSecs, inproc.secs, feasCount)
	if len(j.Failures) > 0 || j.Obligations == 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var _ ssa.Value
