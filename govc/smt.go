package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

const basePrelude = `(declare-datatypes ((Obj 0)) (((obj (oblk Int) (ofld Int)))))
(declare-datatypes ((Ptr 0)) (((ptr (pblk Int) (pidx Int) (pfld Int)))))
(declare-datatypes ((Slc 0)) (((slc (sblk Int) (soff Int) (slen Int) (scap Int)))))
(declare-sort Str 0)
`

type smtBlock struct {
	name  string
	text  string
	decls []string
}

var smtBlocks []*smtBlock

var tokRe = regexp.MustCompile(`[^\s()]+`)
var declRe = regexp.MustCompile(`\((?:declare-fun|define-fun|define-fun-rec|declare-const)\s+([^\s()]+)`)

func addSmtBlock(name, text string) {
	// strip comments
	var sb strings.Builder
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, ";"); i >= 0 {
			l = l[:i]
		}
		sb.WriteString(l + "\n")
	}
	b := &smtBlock{name: name, text: sb.String()}
	for _, m := range declRe.FindAllStringSubmatch(b.text, -1) {
		b.decls = append(b.decls, m[1])
	}
	smtBlocks = append(smtBlocks, b)
}

// printer -------------------------------------------------------------------

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	count map[*Term]int
	syms  map[*Term]bool
	ops   map[string]bool
	nlet  int
	cst   map[*Term]bool // if-then-else terms within patterns: declared as constants (solvers reject them there)
}

func (p *printer) markIte(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.kind == kApp && t.op == "ite" && !t.open {
		if p.cst == nil {
			p.cst = map[*Term]bool{}
		}
		p.cst[t] = true
	}
	for _, a := range t.args {
		p.markIte(a, seen)
	}
}

func (p *printer) scan(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	if t.kind == kSym {
		p.syms[t] = true
	}
	if t.kind == kApp {
		p.ops[t.op] = true
	}
	for _, a := range t.args {
		p.scan(a)
	}
	for _, tr := range t.trigs {
		for _, a := range tr {
			p.scan(a)
			p.markIte(a, map[*Term]bool{})
		}
	}
}

// define shared closed subterms
func (p *printer) define(t *Term, defs *strings.Builder) {
	if _, ok := p.names[t]; ok {
		return
	}
	if len(t.args) == 0 {
		return
	}
	p.names[t] = "" // visited
	for _, a := range t.args {
		p.define(a, defs)
	}
	for _, tr := range t.trigs {
		for _, a := range tr {
			p.define(a, defs)
		}
	}
	if !t.open && (p.count[t] > 1 || p.cst[t]) {
		var sb strings.Builder
		p.emit(t, &sb, true)
		n := fmt.Sprintf("d!%d", t.id)
		if p.cst[t] {
			fmt.Fprintf(defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.sort, n, sb.String())
		} else {
			fmt.Fprintf(defs, "(define-fun %s () %s %s)\n", n, t.sort, sb.String())
		}
		p.names[t] = n
	}
}

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) emit(t *Term, sb *strings.Builder, top bool) {
	if !top {
		if n := p.names[t]; n != "" {
			sb.WriteString(n)
			return
		}
	}
	switch t.kind {
	case kNum:
		sb.WriteString(numStr(t.num))
		return
	case kSym, kBound:
		sb.WriteString(t.op)
		return
	case kQuant:
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", b.op, b.sort)
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		p.emit(t.args[0], sb, false)
		if len(t.trigs) > 0 {
			for _, tr := range t.trigs {
				sb.WriteString(" :pattern (")
				for i, a := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.emit(a, sb, false)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	if t.op == "constarr" {
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		p.emit(t.args[0], sb, false)
		sb.WriteString(")")
		return
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		p.emit(a, sb, false)
	}
	sb.WriteString(")")
}

func buildQuery(assumes []*Term, goal *Term) string {
	p := &printer{names: map[*Term]string{}, count: map[*Term]int{}, syms: map[*Term]bool{}, ops: map[string]bool{}}
	all := append([]*Term{}, assumes...)
	ng := Not(goal)
	all = append(all, ng)
	for _, a := range all {
		p.scan(a)
	}
	// which smt blocks
	need := map[string]bool{}
	for o := range p.ops {
		need[o] = true
	}
	for s := range p.syms {
		need[s.op] = true
	}
	inc := neededBlocks(need, func(b *smtBlock) bool { return true })
	statMu.Lock()
	for b := range inc {
		blocksUsed[b.name] = true
	}
	statMu.Unlock()
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	out.WriteString(basePrelude)
	declared := map[string]bool{}
	for _, b := range smtBlocks {
		if inc[b] {
			for _, d := range b.decls {
				declared[d] = true
			}
		}
	}
	out.WriteString(builtinDecls(need, declared))
	for _, b := range orderedBlocks(inc) {
		out.WriteString(b.text)
	}
	var syms []*Term
	for s := range p.syms {
		if !declared[s.op] {
			syms = append(syms, s)
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].id < syms[j].id })
	for _, s := range syms {
		fmt.Fprintf(&out, "(declare-fun %s () %s)\n", s.op, s.sort)
		// table contents
		if tb, ok := constTables[s]; ok {
			for i, v := range tb {
				var sb strings.Builder
				p.emit(v, &sb, false)
				fmt.Fprintf(&out, "(assert (= (select %s %d) %s))\n", s.op, i, sb.String())
			}
		}
	}
	// undeclared uninterpreted functions
	for _, o := range sortedKeys(ufSigs) {
		sg := ufSigs[o]
		if p.ops[o] && !declared[o] {
			fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", o, strings.Join(sg.args, " "), sg.res)
		}
	}
	var defs strings.Builder
	var body strings.Builder
	for _, a := range all {
		p.define(a, &defs)
		// flush
		if defs.Len() > 0 {
			body.WriteString(defs.String())
			defs.Reset()
		}
		body.WriteString("(assert ")
		var sb strings.Builder
		p.emit(a, &sb, false)
		body.WriteString(sb.String())
		body.WriteString(")\n")
	}
	out.WriteString(body.String())
	out.WriteString("(check-sat)\n")
	return out.String()
}

type ufSig struct {
	args []string
	res  string
}

var ufSigs = map[string]ufSig{}

func UF(name, res string, args ...*Term) *Term {
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	ufSigs[name] = ufSig{as, res}
	if len(args) == 0 {
		return Sym(name, res)
	}
	return App(name, res, args...)
}

// solving ---------------------------------------------------------------------

type solveRes struct {
	status string // unsat sat unknown
	solver string
	secs   float64
	out    string
}

type solverCfg struct {
	name string
	argv func(sec int) []string
	pre  string
}

var solvers = []solverCfg{
	{"z3-5.3.2", func(s int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"cvc5-1.1.2", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--arrays-exp", "-"}
	}, ""},
	{"z3-4.8.12", func(s int) []string {
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", s)}
	}, ""},
	{"z3-5.3.2-default", func(s int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s)}
	}, ""},
}

var solverSem = make(chan struct{}, 10)

func runSolver(ctx context.Context, sc solverCfg, q string, sec int) solveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return solveRes{status: "unknown", solver: sc.name}
	}
	t0 := time.Now()
	argv := sc.argv(sec)
	c, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(sc.pre + q)
	var ob, eb bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &eb
	_ = cmd.Run()
	o := strings.TrimSpace(ob.String())
	r := solveRes{solver: sc.name, secs: time.Since(t0).Seconds(), out: o + eb.String()}
	first := strings.SplitN(o, "\n", 2)[0]
	switch first {
	case "unsat", "sat":
		r.status = first
	default:
		r.status = "unknown"
		if strings.HasPrefix(first, "(error") && !strings.Contains(first, "expected a value") {
			smtErr.Do(func() { fmt.Fprintf(os.Stderr, "SMT ERROR (%s): %s\n", sc.name, first) })
		}
	}
	return r
}

var smtErr sync.Once

var (
	statMu      sync.Mutex
	solverTime  = map[string]float64{}
	solverCount = map[string]int{}
)

func note(r solveRes) {
	statMu.Lock()
	defer statMu.Unlock()
	solverTime[r.solver] += r.secs
	if r.status == "unsat" {
		solverCount[r.solver]++
	}
}

// solve decides validity of assumes => goal ("unsat" of the negation).
// iteConst: the constants that stand for if-then-else terms within patterns; some proofs go through only when they
// are macros instead (an equivalent query).
var iteConst = regexp.MustCompile(`\(declare-fun (d!\d+) \(\) ([^\n]*)\)\n\(assert \(= d!\d+ ([^\n]*)\)\)\n`)

func solveQuery(q, fq string, quick, slow int) solveRes {
	r := runSolver(context.Background(), solvers[0], q, quick)
	note(r)
	if r.status == "unsat" {
		return r
	}
	if strings.Contains(r.out, "error") {
		return r
	}
	mq := iteConst.ReplaceAllString(q, "(define-fun $1 () $2 $3)\n")
	if mq != q {
		r := runSolver(context.Background(), solvers[0], mq, quick)
		note(r)
		if r.status == "unsat" {
			return r
		}
	}
	if slow <= 0 {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solveRes, len(solvers)+8)
	n := 0
	if mq != q {
		for _, i := range []int{0, 2} {
			s := solvers[i]
			n++
			go func() { ch <- runSolver(ctx, s, mq, slow) }()
		}
	}
	for _, s := range solvers {
		s := s
		n++
		go func() { ch <- runSolver(ctx, s, q, slow) }()
	}
	if fq != "" { // dropping assumptions: only "unsat" counts
		variants := []string{fq}
		if m := iteConst.ReplaceAllString(fq, "(define-fun $1 () $2 $3)\n"); m != fq {
			variants = append(variants, m)
		}
		for _, v := range variants {
			for _, i := range []int{0, 2} {
				s, v := solvers[i], v
				n++
				go func() {
					r := runSolver(ctx, s, v, slow)
					if r.status == "sat" {
						r.status = "unknown"
					}
					ch <- r
				}()
			}
		}
	}
	best := r
	for i := 0; i < n; i++ {
		x := <-ch
		note(x)
		if x.status == "unsat" {
			return x
		}
		if x.status == "sat" && best.status != "sat" {
			best = x
			// a definite refutation: no other solver can prove it
			return x
		}
	}
	return best
}

var blocksUsed = map[string]bool{}

// builtinSigs: functions the generator itself introduces and that specification blocks may mention.
var builtinSigs = map[string]ufSig{
	"rlen":     {[]string{SStr}, SInt},
	"blen":     {[]string{SStr}, SInt},
	"runes":    {[]string{SStr}, "(Array Int Int)"},
	"bytes":    {[]string{SStr}, "(Array Int Int)"},
	"runestr":  {[]string{SStr}, SBool},
	"mkstr":    {[]string{"(Array Int Int)", SInt, SInt}, SStr},
	"normrune": {[]string{SInt}, SInt},
}

// builtinDecls declares the built-ins mentioned by included blocks (and marks them declared).
func builtinDecls(need, declared map[string]bool) string {
	var sb strings.Builder
	for _, n := range sortedKeys(builtinSigs) {
		if need[n] && !declared[n] {
			sg := builtinSigs[n]
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(sg.args, " "), sg.res)
			declared[n] = true
		}
	}
	return sb.String()
}

// orderedBlocks: the blocks in inc, each after the blocks that declare what it uses.
func orderedBlocks(inc map[*smtBlock]bool) []*smtBlock {
	by := map[string]*smtBlock{}
	for _, b := range smtBlocks {
		for _, d := range b.decls {
			by[d] = b
		}
	}
	var out []*smtBlock
	seen := map[*smtBlock]bool{}
	var visit func(b *smtBlock)
	visit = func(b *smtBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, tk := range tokRe.FindAllString(b.text, -1) {
			if d := by[tk]; d != nil && inc[d] {
				visit(d)
			}
		}
		out = append(out, b)
	}
	for _, b := range smtBlocks {
		if inc[b] {
			visit(b)
		}
	}
	return out
}

// neededBlocks: definition blocks whose symbols are needed (transitively), plus axiom blocks
// (no declarations) all of whose block-declared symbols are present.
func neededBlocks(need map[string]bool, axiomOK func(*smtBlock) bool) map[*smtBlock]bool {
	all := map[string]bool{}
	for _, b := range smtBlocks {
		for _, d := range b.decls {
			all[d] = true
		}
	}
	inc := map[*smtBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range smtBlocks {
			if inc[b] {
				continue
			}
			take := false
			if len(b.decls) == 0 {
				if axiomOK(b) {
					take = true
					for _, tk := range tokRe.FindAllString(b.text, -1) {
						if all[tk] && !need[tk] {
							take = false
							break
						}
					}
				}
			} else {
				for _, d := range b.decls {
					if need[d] {
						take = true
						break
					}
				}
			}
			if take {
				inc[b] = true
				changed = true
				for _, tk := range tokRe.FindAllString(b.text, -1) {
					need[tk] = true
				}
			}
		}
	}
	return inc
}

var bg = context.Background()
