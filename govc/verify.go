package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name     string
	x        *Exec
	fn       *ssa.Function
	con      *Contract
	obls     []*Obligation
	impls    []string // values of a named function type
	dropped  map[string]bool
	rounds   int
	err      string
	wg       sync.WaitGroup
	execSecs float64
	vacuous  bool
	coverPC  [][]*Term
	coverRes string
}

type Verifier struct {
	w       *World
	prop    string
	results map[string]*FuncResult
	order   []string
	sens    *sensInfo
	verbose bool
	quick   int
	slow    int
	qcache  map[string]*qentry
	mu      sync.Mutex
	lemRes  []*LemmaResult
	blocks  map[string]bool

	hardFails int // obligations (not candidate invariants) that no solver discharged
}

type qentry struct {
	done chan struct{}
	res  solveRes
}

type LemmaResult struct {
	Name string
	Res  solveRes
	Text string
}

var workSem = make(chan struct{}, 8)

func (v *Verifier) solveAsync(fr *FuncResult, o *Obligation) {
	if o.trivial {
		return
	}
	v.mu.Lock()
	qe, hit := v.qcache[o.query]
	if !hit {
		qe = &qentry{done: make(chan struct{})}
		v.qcache[o.query] = qe
	}
	v.mu.Unlock()
	fr.wg.Add(1)
	go func() {
		defer fr.wg.Done()
		if hit {
			<-qe.done
			o.res = qe.res
			return
		}
		workSem <- struct{}{}
		defer func() { <-workSem }()
		slow := v.slow
		if o.slow > 0 {
			slow = o.slow
		}
		if o.cand != "" && strings.Contains(o.cand, "/auto/") {
			slow = min(slow, 5)
		}
		if o.kind == "unsupported" {
			o.res = solveRes{status: "unknown"}
			// still provable when the path is infeasible
		}
		// once several obligations have failed for good the verdict is settled: spend less on the rest
		v.mu.Lock()
		nf := v.hardFails
		if os.Getenv("GOVC_NOFAST") != "" {
			nf = 0
		}
		v.mu.Unlock()
		if nf >= 3 {
			slow = 0
		}
		if nf >= 40 {
			qe.res = solveRes{status: "unknown", out: "not attempted: the check has already failed"}
		} else {
			t0 := time.Now()
			if o.fquery != "" {
				qe.res = runSolver(context.Background(), solvers[0], o.fquery, v.quick)
				note(qe.res)
				if qe.res.status != "unsat" {
					qe.res = runSolver(context.Background(), solvers[2], o.fquery, v.quick)
					note(qe.res)
				}
			}
			if qe.res.status != "unsat" {
				qe.res = solveQuery(o.query, o.fquery, v.quick, slow)
			}
			if d := time.Since(t0).Seconds(); slowLog != "" && d > 1 {
				fmt.Fprintf(os.Stderr, "SLOW %6.1f %s %s %s %s cand=%s\n", d, qe.res.status, qe.res.solver, fr.fn.String(), o.name, o.cand)
				if slowLog != "1" {
					os.WriteFile(fmt.Sprintf("%s/%05.1f_%s.smt2", slowLog, d, sanitize(o.name)), []byte(o.query), 0o644)
				}
			}
		}
		o.res = qe.res
		if qe.res.status != "unsat" && o.cand == "" {
			v.mu.Lock()
			v.hardFails++
			v.mu.Unlock()
		}
		close(qe.done)
	}()
}

var slowLog = os.Getenv("GOVC_SLOWLOG")

func (v *Verifier) execFunc(fr *FuncResult) {
	t0 := time.Now()
	defer func() { fr.execSecs += time.Since(t0).Seconds() }()
	x := newExec(v.w, v.prop, fr.fn, fr.con)
	x.dropped = fr.dropped
	x.slow = fr.con.slow
	x.sens = v.sens
	fr.x = x
	fr.obls = nil
	fr.coverPC = nil
	x.sink = func(o *Obligation) { v.solveAsync(fr, o) }
	x.onCover = func(pc []*Term) {
		if len(fr.coverPC) < 40 {
			fr.coverPC = append(fr.coverPC, pc)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortExec); ok {
					fr.err = a.msg
					return
				}
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				fr.err = fmt.Sprintf("internal: %v", r)
			}
		}()
		fr.err = ""
		x.verify()
	}()
	fr.obls = x.obls
	if fr.err != "" {
		o := &Obligation{fn: x.name, kind: "tool", name: "verification conditions could not be generated: " + fr.err, res: solveRes{status: "unknown", out: fr.err}}
		fr.obls = append(fr.obls, o)
	}
}

// verify executes the function under verification symbolically.
func (x *Exec) verify() {
	fn, con := x.fn, x.con
	st := newState()
	st.cnt = Sym("cnt0", SInt)
	x.serial = 1
	cntSerials[st.cnt] = 1
	x.assume(st, Lt(Num(globalLimit), st.cnt))
	st.trace = append(st.trace, x.name)
	fr := &Frame{id: 0, fn: fn, con: con}
	fr.root = fr
	x.root = fr
	env := &Env{x: x, st: st, vars: map[string]TV{}, bindings: map[string]TV{}}
	if fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		env.pkg = fn.Parent().Pkg.Pkg
	}
	for i, p := range fn.Params {
		v := x.freshVal(st, "p_"+p.Name(), p.Type())
		fr.params = append(fr.params, v)
		env.vars[p.Name()] = TV{v, p.Type()}
		env.vars[fmt.Sprintf("arg%d", i)] = TV{v, p.Type()}
	}
	if fn.Signature.Recv() != nil && len(fr.params) > 0 {
		env.vars["recv"] = TV{fr.params[0], fn.Params[0].Type()}
	}
	for _, f := range fn.FreeVars {
		v := x.freshVal(st, "fv_"+f.Name(), f.Type())
		x.assume(st, Not(Eq(PBlk(v.(*Term)), Num(0))))
		fr.free = append(fr.free, v)
		env.vars["&"+f.Name()] = TV{v, f.Type()}
	}
	env.mem = st.mem
	x.old = nil
	old := st.snapshot()
	env.old = old
	env.fr = fr
	x.install(st)
	for _, l := range con.lets {
		env.bothPol = true
		v, e := env.eval(con.letE[l[0]])
		env.bothPol = false
		if e != nil {
			panic(abortExec{fmt.Sprintf("let %s: %v", l[0], e)})
		}
		env.vars[l[0]] = v
		if fr.lets == nil {
			fr.lets = map[string]TV{}
		}
		fr.lets[l[0]] = v
	}
	for _, r := range con.requires {
		if !tagActive(r.tags, x.prop) {
			continue
		}
		t, e := env.boolean(r.e)
		if e != nil {
			panic(abortExec{fmt.Sprintf("requires %s: %v", r.name, e)})
		}
		x.assume(st, t)
	}
	for _, r := range con.assumes {
		if !tagActive(r.tags, x.prop) {
			continue
		}
		t, e := env.boolean(r.e)
		if e != nil {
			panic(abortExec{fmt.Sprintf("use %s: %v", r.name, e)})
		}
		x.assume(st, t)
	}
	x.modGh = map[string]bool{}
	x.modSet = []wloc{}
	for _, m := range con.modifies {
		if !tagActive(m.tags, x.prop) {
			continue
		}
		ws, g, e := env.lvalue(m.e)
		if e != nil {
			panic(abortExec{fmt.Sprintf("modifies %s: %v", m.name, e)})
		}
		x.modSet = append(x.modSet, ws...)
		if g != "" {
			x.modGh[g] = true
		}
	}
	x.old = st.snapshot()
	for _, g := range con.ghosts {
		if !tagActive(g.tags, x.prop) {
			continue
		}
		v, e := env.eval(g.e)
		if e != nil {
			panic(abortExec{fmt.Sprintf("init %s: %v", g.name, e)})
		}
		if !x.modGh[g.name] {
			panic(abortExec{fmt.Sprintf("init %s: not in modifies", g.name)})
		}
		st.mem["$"+g.name] = env.toTerm(v)
	}
	x.safetyOn = false
	for _, t := range con.safety {
		if t == x.prop || x.prop == "" {
			x.safetyOn = true
		}
	}
	vars := env.vars
	fr.onRet = func(s *State, res []Val) {
		if infeasible(s) {
			return
		}
		x.install(s)
		x.retCount++
		if x.onCover != nil {
			x.onCover(append([]*Term{}, s.pc...))
		}
		post := &Env{x: x, st: s, mem: s.mem, old: x.old, vars: vars, bindings: map[string]TV{}, pkg: env.pkg}
		bindResults(post, fn.Signature, res)
		if len(fn.FreeVars) > 0 {
			post.fr = &Frame{id: -1, fn: fn, free: fr.free, params: fr.params}
		}
		for _, e := range con.ensures {
			if !tagActive(e.tags, x.prop) {
				continue
			}
			g, er := post.goalOf(e.e)
			if er != nil {
				panic(abortExec{fmt.Sprintf("ensures %s: %v", e.name, er)})
			}
			x.oblige(s, "ensures", e.name, e.tags, g, fn.Pos())
		}
	}
	if len(fn.Blocks) == 0 {
		panic(abortExec{"function has no body"})
	}
	x.run(st, fr, fn.Blocks[0], 0)
	x.drain(fr, nil)
}

func (v *Verifier) add(name string) *FuncResult {
	if r, ok := v.results[name]; ok {
		return r
	}
	con := v.w.specs.contracts[name]
	r := &FuncResult{Name: name, con: con, dropped: map[string]bool{}}
	v.results[name] = r
	v.order = append(v.order, name)
	if con == nil {
		r.err = "no contract"
		r.obls = []*Obligation{{fn: name, kind: "tool", name: "no contract for " + name, res: solveRes{status: "unknown"}}}
		return r
	}
	if fns, unknown, ok := v.w.typeImpls(name); ok {
		// a contract for every value of a named function type: each function that becomes one must meet it
		for _, f := range fns {
			n := name + " value " + shortName(f)
			c := *con
			c.fn = n
			v.w.specs.contracts[n] = &c
			v.w.typeFns[n] = f
			r.impls = append(r.impls, n)
		}
		for _, u := range unknown {
			r.obls = append(r.obls, &Obligation{fn: name, kind: "missing", name: "value of type " + name + " made from an unknown function in " + u, res: solveRes{status: "unknown"}})
		}
		return r
	}
	fn := v.w.roleFunc(name)
	if fn == nil {
		fn = v.w.typeFns[name]
	}
	if fn == nil {
		r.err = "function not found in the current source"
		if !con.optional {
			r.obls = []*Obligation{{fn: name, kind: "missing", name: "function " + name + " not found in the current source", res: solveRes{status: "unknown"}}}
		}
		return r
	}
	r.fn = fn
	return r
}

func (v *Verifier) Run(roots []string, closure bool) {
	queue := append([]string{}, roots...)
	for i := 0; i < len(queue); i++ {
		r := v.add(queue[i])
		queue = append(queue, r.impls...)
		if r.fn == nil {
			continue
		}
		v.log("exec %s", r.Name)
		v.execFunc(r)
		if closure {
			for _, c := range sortedKeys(r.x.used) {
				if _, ok := v.results[c]; !ok {
					dup := false
					for _, q := range queue {
						if q == c {
							dup = true
						}
					}
					if !dup {
						queue = append(queue, c)
					}
				}
			}
		}
	}
	v.rounds(v.order)
	for _, n := range v.order {
		r := v.results[n]
		r.wg.Wait()
		if r.fn == nil {
			continue
		}
		v.vacuity(n, r)
	}
}

// rounds drops the candidate invariants that are not proved and runs the functions again until all that
// remain are.
func (v *Verifier) rounds(names []string) {
	for round := 0; round < 10; round++ {
		again := false
		for _, n := range names {
			r := v.results[n]
			if r.fn == nil {
				continue
			}
			r.wg.Wait()
			nd := 0
			for _, o := range r.obls {
				if o.cand != "" && o.res.status != "unsat" && !r.dropped[o.cand] {
					r.dropped[o.cand] = true
					nd++
					v.log("%s: drop candidate %s (%s) %s: %s", n, o.cand, o.name, o.res.status, o.goal)
					if d := os.Getenv("GOVC_DUMPCAND"); d != "" {
						os.WriteFile(fmt.Sprintf("%s/cand_%d_%d.smt2", d, r.rounds, nd), []byte(o.query), 0644)
						if o.fquery != "" {
							os.WriteFile(fmt.Sprintf("%s/focus_%d_%d.smt2", d, r.rounds, nd), []byte(o.fquery), 0644)
						}
					}
				}
			}
			if nd > 0 {
				r.rounds++
				v.execFunc(r)
				again = true
			}
		}
		if !again {
			break
		}
	}
}

func (v *Verifier) vacuity(n string, r *FuncResult) {
	{
		// some return must be reachable
		r.coverRes = "none"
		for _, pc := range r.coverPC {
			q := buildQuery(append(append([]*Term{}, pc...), r.x.initFacts...), False)
			s := runSolver(bg, solvers[0], q, 2)
			if s.status != "unsat" {
				r.coverRes = "reachable"
				break
			}
			r.coverRes = "unreachable"
		}
		if r.coverRes == "unreachable" || r.coverRes == "none" && !r.con.noreturn {
			r.vacuous = true
			r.obls = append(r.obls, &Obligation{fn: n, kind: "vacuity", name: "some return of " + n + " is reachable under the contract", res: solveRes{status: "unknown", out: "all " + fmt.Sprint(len(r.coverPC)) + " sampled return paths are contradictory"}})
		}
	}
}

func (v *Verifier) log(f string, a ...any) {
	if v.verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// lemmas -----------------------------------------------------------------------

func (v *Verifier) runLemmas(names map[string]bool) {
	var wg sync.WaitGroup
	for _, l := range v.w.specs.lemmas {
		if !names[l.name] {
			continue
		}
		l := l
		r := &LemmaResult{Name: l.name}
		v.lemRes = append(v.lemRes, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			workSem <- struct{}{}
			defer func() { <-workSem }()
			r.Text = lemmaQuery(l)
			r.Res = solveQuery(r.Text, "", v.quick, max(v.slow, 30))
		}()
	}
	wg.Wait()
}

func lemmaQuery(l *Lemma) string {
	uses := map[string]bool{}
	var body []string
	for _, ln := range strings.Split(l.text, "\n") {
		t := strings.TrimSpace(ln)
		if strings.HasPrefix(t, "uses ") {
			for _, u := range strings.Fields(t)[1:] {
				uses[u] = true
			}
			continue
		}
		if i := strings.Index(ln, ";"); i >= 0 {
			ln = ln[:i]
		}
		body = append(body, ln)
	}
	txt := strings.Join(body, "\n")
	need := map[string]bool{}
	for _, tk := range tokRe.FindAllString(txt, -1) {
		need[tk] = true
	}
	for _, b := range smtBlocks {
		if uses[b.name] {
			for _, tk := range tokRe.FindAllString(b.text, -1) {
				need[tk] = true
			}
		}
	}
	inc := neededBlocks(need, func(b *smtBlock) bool { return uses[b.name] })
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n" + basePrelude)
	declared := map[string]bool{}
	for _, b := range smtBlocks {
		if inc[b] {
			for _, d := range b.decls {
				declared[d] = true
			}
		}
	}
	// built-in uninterpreted functions used by blocks
	sb.WriteString(builtinDecls(need, declared))
	for _, b := range orderedBlocks(inc) {
		sb.WriteString(b.text)
	}
	sb.WriteString(txt)
	sb.WriteString("\n(check-sat)\n")
	return sb.String()
}

// lemmasForBlocks: axiom blocks lem_X require lemmas X, X_*.
func (v *Verifier) neededLemmas(p *Property) map[string]bool {
	names := map[string]bool{}
	for _, l := range p.lem {
		names[l] = true
	}
	usedBlocks := map[string]bool{}
	statMu.Lock()
	for b := range blocksUsed {
		usedBlocks[b] = true
	}
	statMu.Unlock()
	for {
		ch := false
		for _, l := range v.w.specs.lemmas {
			for b := range usedBlocks {
				x := strings.TrimPrefix(b, "lem_")
				if strings.HasPrefix(b, "lem_") && (l.name == x || strings.HasPrefix(l.name, x+"_")) && !names[l.name] {
					names[l.name] = true
					ch = true
				}
			}
		}
		// lemmas themselves may use other axiom blocks
		for _, l := range v.w.specs.lemmas {
			if !names[l.name] {
				continue
			}
			for _, ln := range strings.Split(l.text, "\n") {
				t := strings.TrimSpace(ln)
				if strings.HasPrefix(t, "uses ") {
					for _, u := range strings.Fields(t)[1:] {
						if !usedBlocks[u] {
							usedBlocks[u] = true
							ch = true
						}
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	// an axiom block without any lemma is an unproved assumption: reported as failure
	for b := range usedBlocks {
		if !strings.HasPrefix(b, "lem_") {
			continue
		}
		x := strings.TrimPrefix(b, "lem_")
		ok := false
		for n := range names {
			if n == x || strings.HasPrefix(n, x+"_") {
				ok = true
			}
		}
		if !ok {
			v.lemRes = append(v.lemRes, &LemmaResult{Name: b, Res: solveRes{status: "unknown", out: "axiom block without a proved lemma"}})
		}
	}
	return names
}

func (r *FuncResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.obls {
		if o.cand != "" {
			if r.dropped[o.cand] {
				continue
			}
		}
		if o.res.status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func sortObls(os []*Obligation) {
	sort.SliceStable(os, func(i, j int) bool { return os[i].kind < os[j].kind })
}
