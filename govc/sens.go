package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Closed-world properties ("sensitive" calls): every function of the repository that calls one of the named
// functions is verified, whether or not a contract names it, and the preconditions of those calls are its
// obligations. An unexported helper that passes its own parameters on is verified inside its callers.
//
// Such functions are executed leniently: what is read from memory is arbitrary, calls that cannot reach a
// sensitive call may do anything and return anything.

type sensInfo struct {
	names   map[string]bool
	calls   map[*ssa.Function][]*ssa.Function // static in-repo calls
	reach   map[*ssa.Function]bool            // reaches a sensitive call
	valued  map[*ssa.Function]bool            // used as a value
	callers map[*ssa.Function][]*ssa.Function
	direct  map[*ssa.Function]bool
	leaks   map[string]string // sensitive function used as a value: where
	inlineH map[*ssa.Function]bool
}

func (w *World) sensitive(names []string) *sensInfo {
	s := &sensInfo{names: map[string]bool{}, calls: map[*ssa.Function][]*ssa.Function{}, reach: map[*ssa.Function]bool{}, valued: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]*ssa.Function{}, direct: map[*ssa.Function]bool{}, leaks: map[string]string{}, inlineH: map[*ssa.Function]bool{}}
	for _, n := range names {
		s.names[n] = true
	}
	var all []*ssa.Function
	for _, n := range sortedKeys(w.funcs) {
		if f := w.funcs[n]; len(f.Blocks) > 0 && !strings.Contains(f.Name(), "verif") {
			all = append(all, f)
		}
	}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
					if c.Common().IsInvoke() {
						callee = nil
					}
				}
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				first := true
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g == callee && first {
						first = false
						if s.names[shortName(g)] {
							s.direct[f] = true
						}
						s.calls[f] = append(s.calls[f], g)
						s.callers[g] = append(s.callers[g], f)
						continue
					}
					if s.names[shortName(g)] {
						s.leaks[shortName(g)] = shortName(f)
					}
					if mc, isC := in.(*ssa.MakeClosure); isC && mc.Fn == g {
						s.calls[f] = append(s.calls[f], g)
						continue
					}
					s.valued[g] = true
				}
			}
		}
	}
	for f := range s.direct {
		s.reach[f] = true
	}
	for again := true; again; {
		again = false
		for _, f := range all {
			if s.reach[f] {
				continue
			}
			for _, g := range s.calls[f] {
				if s.reach[g] {
					s.reach[f] = true
					again = true
					break
				}
			}
		}
	}
	return s
}

// mustInline: a helper that is only ever called directly by other functions of the repository.
func (s *sensInfo) helper(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	return !token.IsExported(f.Name()) && !s.valued[f] && len(s.callers[f]) > 0 && f.Name() != "main" && f.Name() != "init"
}

func autoContract(name, prop string) *Contract {
	return &Contract{fn: name, lenient: true, noframe: true, file: "sensitive " + prop, letE: map[string]*Expr{}}
}

func hasTag(tags []string, prop string) bool {
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}

// lenientCall handles a call in lenient mode; it reports whether the call was handled.
func (x *Exec) lenientCall(st *State, fn *ssa.Function, k func(*State, []Val)) bool {
	if x.sens.names[shortName(fn)] || x.sp.contracts[shortName(fn)] != nil && x.sp.contracts[shortName(fn)].trusted {
		return false
	}
	repo := fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) || fn.Parent() != nil && fn.Parent().Pkg != nil && isRepoPkg(fn.Parent().Pkg.Pkg)
	if repo && x.sens.reach[fn] && (x.sens.inlineH[fn] || fn.Parent() != nil) {
		return false
	}
	x.assumedCalls(st, fn.Signature, k)
	return true
}

func (x *Exec) assumedCalls(st *State, sig *types.Signature, k func(*State, []Val)) {
	var res []Val
	for _, rt := range resultTypes(sig) {
		res = append(res, x.freshVal(st, "any", rt))
	}
	x.bumpCnt(st)
	k(st, res)
}

// runSensitive verifies every function that must be under the preconditions of the sensitive calls.
func (v *Verifier) runSensitive(p *Property) {
	if len(p.sensitive) == 0 {
		return
	}
	s := v.w.sensitive(p.sensitive)
	v.sens = s
	// first every function by itself; helpers that fail alone are verified inside their callers
	work := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, n := range sortedKeys(v.w.funcs) {
		if f := v.w.funcs[n]; s.direct[f] {
			push(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		r := v.autoRun(f)
		if len(r.failed()) == 0 || !s.helper(f) {
			continue
		}
		// not provable for arbitrary arguments
		s.inlineH[f] = true
		delete(v.results, r.Name)
		for i, n := range v.order {
			if n == r.Name {
				v.order = append(v.order[:i:i], v.order[i+1:]...)
				break
			}
		}
		for _, c := range s.callers[f] {
			delete(seen, c)
			if o := v.results[shortName(c)]; o != nil {
				delete(v.results, shortName(c))
				for i, n := range v.order {
					if n == shortName(c) {
						v.order = append(v.order[:i:i], v.order[i+1:]...)
						break
					}
				}
			}
			push(c)
		}
	}
	for n, where := range s.leaks {
		r := &FuncResult{Name: where + " (value)", con: autoContract(where, v.prop), dropped: map[string]bool{}}
		r.obls = []*Obligation{{fn: where, kind: "sensitive", name: n + " is used as a value", res: solveRes{status: "unknown"}}}
		v.results[r.Name] = r
		v.order = append(v.order, r.Name)
	}
}

func (v *Verifier) autoRun(f *ssa.Function) *FuncResult {
	n := shortName(f)
	r := &FuncResult{Name: n, con: autoContract(n, v.prop), dropped: map[string]bool{}, fn: f}
	v.results[n] = r
	v.order = append(v.order, n)
	v.log("exec %s (calls a sensitive function)", n)
	v.execFunc(r)
	v.rounds([]string{n})
	r.wg.Wait()
	return r
}
