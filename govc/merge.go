package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Merging of paths at join points of the function under verification (contract directive `merge`): the states
// that reach a join in the same loop context wait for each other and continue as one state, whose differing
// parts are conditional on which path was taken.

type joinKey struct {
	scope *loopCtx
	block *ssa.BasicBlock
}

type arrival struct {
	st   *State
	from *ssa.BasicBlock
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if r, ok := rpoCache[fn]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				rec(s)
			}
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	r := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		r[b] = len(post) - i
	}
	rpoCache[fn] = r
	return r
}

var rpoCache = map[*ssa.Function]map[*ssa.BasicBlock]int{}

// mergeAt makes st wait at the join block to, if it is one.
func (x *Exec) mergeAt(st *State, fr *Frame, from, to *ssa.BasicBlock, l *Loop) bool {
	if x.con == nil || x.con.merge == 0 || fr != x.root {
		return false
	}
	var scope *loopCtx
	if n := len(st.loops); n > 0 {
		scope = st.loops[n-1]
		if scope.unroll > 0 || scope.frame != fr || scope.loop == l {
			return false
		}
	}
	if l == nil && x.con.merge < 2 {
		return false
	}
	n := 0
	for _, p := range to.Preds {
		if !to.Dominates(p) {
			n++
		}
	}
	if n < 2 && l == nil {
		return false
	}
	x.phis(st, fr, from, to)
	if x.joins == nil {
		x.joins = map[joinKey][]arrival{}
	}
	k := joinKey{scope, to}
	x.joins[k] = append(x.joins[k], arrival{st, from})
	return true
}

// drain continues the states waiting in the scope.
func (x *Exec) drain(fr *Frame, scope *loopCtx) {
	if x.con == nil || x.con.merge == 0 || fr != x.root {
		return
	}
	order := rpo(fr.fn)
	for {
		var best *ssa.BasicBlock
		for k := range x.joins {
			if k.scope == scope && (best == nil || order[k.block] < order[best]) {
				best = k.block
			}
		}
		if best == nil {
			return
		}
		k := joinKey{scope, best}
		as := x.joins[k]
		delete(x.joins, k)
		for _, g := range x.groupStates(as, best) {
			st := x.mergeStates(fr, g, best)
			x.install(st)
			if l := loopAt(fr.fn, best); l != nil {
				x.loopEntry(st, fr, l)
			} else {
				x.run(st, fr, best, 0)
			}
		}
	}
}

func sameVal(a, b Val) bool {
	switch y := a.(type) {
	case nil:
		return b == nil
	case *Term:
		z, ok := b.(*Term)
		return ok && y == z
	case *StructV:
		z, ok := b.(*StructV)
		if !ok || len(y.f) != len(z.f) {
			return false
		}
		for i := range y.f {
			if !sameVal(y.f[i], z.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		z, ok := b.(*ArrV)
		return ok && *y == *z
	case *TupleV:
		z, ok := b.(*TupleV)
		if !ok || len(y.v) != len(z.v) {
			return false
		}
		for i := range y.v {
			if !sameVal(y.v[i], z.v[i]) {
				return false
			}
		}
		return true
	case *ClosV:
		z, ok := b.(*ClosV)
		if !ok || y.fn != z.fn || len(y.binds) != len(z.binds) {
			return false
		}
		for i := range y.binds {
			if !sameVal(y.binds[i], z.binds[i]) {
				return false
			}
		}
		return true
	case *LocV:
		z, ok := b.(*LocV)
		if !ok || y.cell != z.cell || len(y.path) != len(z.path) || y.idx != z.idx {
			return false
		}
		for i := range y.path {
			if y.path[i] != z.path[i] {
				return false
			}
		}
		return true
	case *IfaceV:
		z, ok := b.(*IfaceV)
		return ok && y.t == z.t && types.Identical(y.typ, z.typ) && sameVal(y.v, z.v)
	}
	return a == b
}

func mergeable(a, b Val) bool {
	if sameVal(a, b) {
		return true
	}
	switch y := a.(type) {
	case *Term:
		switch z := b.(type) {
		case *Term:
			return y.sort == z.sort
		case *IfaceV:
			return y.sort == SInt
		}
	case *IfaceV:
		switch z := b.(type) {
		case *Term:
			return z.sort == SInt
		case *IfaceV:
			return true
		}
	case *StructV:
		z, ok := b.(*StructV)
		if !ok || len(y.f) != len(z.f) {
			return false
		}
		for i := range y.f {
			if !mergeable(y.f[i], z.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		z, ok := b.(*ArrV)
		return ok && y.base == z.base && y.n == z.n && y.content.sort == z.content.sort
	case *TupleV:
		z, ok := b.(*TupleV)
		if !ok || len(y.v) != len(z.v) {
			return false
		}
		for i := range y.v {
			if !mergeable(y.v[i], z.v[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// groupStates drops what is out of scope at the join and splits the arrivals into sets that can be merged.
func (x *Exec) groupStates(as []arrival, to *ssa.BasicBlock) [][]*State {
	var groups [][]*State
next:
	for _, a := range as {
		st := a.st
		if infeasible(st) {
			continue
		}
		for k := range st.regs {
			if in, ok := k.v.(ssa.Instruction); ok && k.f == x.root.id && in.Block() != nil && !in.Block().Dominates(to) {
				delete(st.regs, k)
			}
		}
		for i, g := range groups {
			if x.canMerge(g[0], st) {
				groups[i] = append(g, st)
				continue next
			}
		}
		groups = append(groups, []*State{st})
	}
	return groups
}

func (x *Exec) canMerge(a, b *State) bool {
	if len(a.loops) != len(b.loops) {
		return false
	}
	for i := range a.loops {
		if a.loops[i] != b.loops[i] {
			return false
		}
	}
	for _, m := range []map[int][]deferred{a.defers, b.defers} {
		for id := range m {
			if len(a.defers[id]) != len(b.defers[id]) {
				return false
			}
			for i, d := range a.defers[id] {
				e := b.defers[id][i]
				if d.call != e.call || !sameVal(d.fn, e.fn) || len(d.args) != len(e.args) {
					return false
				}
				for j := range d.args {
					if !mergeable(d.args[j], e.args[j]) {
						return false
					}
				}
			}
		}
	}
	for k, v := range a.regs {
		if w, ok := b.regs[k]; ok && !mergeable(v, w) {
			return false
		}
	}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok && !mergeable(v, w) {
			return false
		}
	}
	return true
}

func (x *Exec) mergeStates(fr *Frame, g []*State, to *ssa.BasicBlock) *State {
	st := g[0]
	for _, o := range g[1:] {
		st = x.merge2(st, o)
	}
	return st
}

func (x *Exec) merge2(a, b *State) *State {
	// facts that hold on both
	var pc, ra, rb []*Term
	for _, t := range a.pc {
		if b.pcset[t] {
			pc = append(pc, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !a.pcset[t] {
			rb = append(rb, t)
		}
	}
	var c *Term
	for _, t := range ra {
		if n := Not(t); !t.quant && b.pcset[n] {
			c = t
			break
		}
	}
	n := &State{regs: map[regKey]Val{}, cells: map[cellKey]Val{}, order: map[cellKey]int{}, mem: map[string]*Term{}, cnt: a.cnt, pcset: map[*Term]bool{}, defers: map[int][]deferred{}, loops: append([]*loopCtx{}, a.loops...), ob: map[*Term]int{}, ncalls: map[string]int{}}
	n.trace = append([]string{}, a.trace...)
	i := 0
	for i < len(a.trace) && i < len(b.trace) && a.trace[i] == b.trace[i] {
		i++
	}
	n.trace = append(append([]string{}, a.trace[:i]...), fmt.Sprintf("(%d joined)", 2))
	if c == nil {
		c = Fresh("join", SBool)
	}
	nc := Not(c)
	for _, t := range pc {
		x.assume(n, t)
	}
	guard := func(g *Term, ts []*Term) {
		for _, t := range ts {
			f := Implies(g, t)
			if t.kind == kQuant && t.op == "forall" {
				f = Forall(t.bound, Implies(g, t.args[0]), t.trigs...)
			}
			if l, ok := x.labels[t]; ok {
				x.labels[f] = l
			}
			x.assume(n, f)
		}
	}
	guard(c, ra)
	guard(nc, rb)
	if a.cnt != b.cnt {
		x.serial++
		n.cnt = Fresh("cnt", SInt)
		x.assume(n, Le(a.cnt, n.cnt))
		x.assume(n, Le(b.cnt, n.cnt))
	}
	for k, v := range a.regs {
		if w, ok := b.regs[k]; ok {
			n.regs[k] = x.mergeVal(n, c, v, w)
		}
	}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok {
			n.cells[k] = x.mergeVal(n, c, v, w)
			n.order[k] = a.order[k]
		}
	}
	keys := map[string]bool{}
	for k := range a.mem {
		keys[k] = true
	}
	for k := range b.mem {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	memo := func(m map[string]*Term, k string, o *Term) *Term {
		if t, ok := m[k]; ok {
			return t
		}
		if k[0] == '$' {
			return Sym("gh0_"+k[1:], x.sp.ghosts[k[1:]])
		}
		return Sym("M0_"+sanitize(k), o.sort)
	}
	for _, k := range ks {
		ma, mb := a.mem[k], b.mem[k]
		if ma == nil {
			ma = memo(a.mem, k, mb)
		}
		if mb == nil {
			mb = memo(b.mem, k, ma)
		}
		if k[0] == '$' {
			n.mem[k] = Ite(c, ma, mb)
		} else {
			n.mem[k] = x.mergeMem(c, ma, mb)
		}
	}
	for id, ds := range a.defers {
		for i, d := range ds {
			e := b.defers[id][i]
			nd := d
			nd.args = nil
			for j := range d.args {
				nd.args = append(nd.args, x.mergeVal(n, c, d.args[j], e.args[j]))
			}
			n.defers[id] = append(n.defers[id], nd)
		}
	}
	for k, v := range a.ob {
		n.ob[k] = v
	}
	for k, v := range b.ob {
		if n.ob[k] < v {
			n.ob[k] = v
		}
	}
	for k, v := range a.ncalls {
		n.ncalls[k] = v
	}
	for k, v := range b.ncalls {
		if n.ncalls[k] < v {
			n.ncalls[k] = v
		}
	}
	return n
}

func (x *Exec) mergeVal(st *State, c *Term, a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	switch y := a.(type) {
	case *StructV:
		z := b.(*StructV)
		n := &StructV{t: y.t}
		for i := range y.f {
			n.f = append(n.f, x.mergeVal(st, c, y.f[i], z.f[i]))
		}
		return n
	case *TupleV:
		z := b.(*TupleV)
		n := &TupleV{}
		for i := range y.v {
			n.v = append(n.v, x.mergeVal(st, c, y.v[i], z.v[i]))
		}
		return n
	case *ArrV:
		z := b.(*ArrV)
		return &ArrV{content: Ite(c, y.content, z.content), base: y.base, n: y.n, elem: y.elem}
	}
	return mergeTerm(c, x.asTerm(st, a), x.asTerm(st, b))
}

func mergeTerm(c, a, b *Term) *Term {
	switch a.sort {
	case SSlc:
		return MkSlc(Ite(c, SBlk(a), SBlk(b)), Ite(c, SOff(a), SOff(b)), Ite(c, SLen(a), SLen(b)), Ite(c, SCap(a), SCap(b)))
	case SPtr:
		return App("ptr", SPtr, Ite(c, PBlk(a), PBlk(b)), Ite(c, PIdx(a), PIdx(b)), Ite(c, PFld(a), PFld(b)))
	}
	return Ite(c, a, b)
}

// mergeMem: memories that differ in a few objects of a common base stay stores over that base.
func (x *Exec) mergeMem(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	anc := map[*Term]int{}
	i := 0
	for t := a; ; t = t.args[0] {
		anc[t] = i
		i++
		if !(t.kind == kApp && t.op == "store") {
			break
		}
	}
	var base *Term
	var objs []*Term
	for t := b; ; t = t.args[0] {
		if _, ok := anc[t]; ok {
			base = t
			break
		}
		if !(t.kind == kApp && t.op == "store") {
			break
		}
		objs = append(objs, t.args[1])
	}
	if base == nil || len(objs)+anc[base] > 12 {
		return Ite(c, a, b)
	}
	for t := a; t != base; t = t.args[0] {
		objs = append(objs, t.args[1])
	}
	seen := map[*Term]bool{}
	m := base
	for i := len(objs) - 1; i >= 0; i-- {
		o := objs[i]
		if seen[o] {
			continue
		}
		seen[o] = true
		va, vb := Select(a, o), Select(b, o)
		m = Store(m, o, mergeCell(c, va, vb))
	}
	return m
}

func mergeCell(c, a, b *Term) *Term {
	if a.sort == SSlc || a.sort == SPtr {
		return mergeTerm(c, a, b)
	}
	return Ite(c, a, b)
}
