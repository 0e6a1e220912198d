package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 64

func (x *Exec) loopSpec(fr *Frame, l *Loop) *LoopSpec {
	if fr.con == nil {
		return nil
	}
	for _, s := range fr.con.loops {
		if s.id == fmt.Sprint(l.ord) {
			return s
		}
	}
	for _, s := range fr.con.loops {
		if s.id == "*" {
			return s
		}
	}
	return nil
}

func (x *Exec) loopHeader(st *State, fr *Frame, from *ssa.BasicBlock, l *Loop) {
	var lc *loopCtx
	pos := -1
	for i := len(st.loops) - 1; i >= 0; i-- {
		if st.loops[i].frame == fr && st.loops[i].loop == l {
			lc, pos = st.loops[i], i
			break
		}
	}
	if lc != nil && l.blocks[from] {
		x.phis(st, fr, from, l.header)
		switch {
		case lc.dry:
			x.setGhosts(st, fr, lc, x.loopSpec(fr, l), "step")
			lc.rec.backs = append(lc.rec.backs, st)
			return
		case lc.unroll > 0:
			n := *lc
			n.iter++
			if n.iter > lc.unroll {
				x.unsupported(st, fmt.Sprintf("loop %d of %s exceeds %d unrolled iterations", l.ord, shortName(l.fn), lc.unroll), token.NoPos)
				return
			}
			st.loops = append([]*loopCtx{}, st.loops...)
			st.loops[pos] = &n
			x.run(st, fr, l.header, 0)
			return
		default:
			x.setGhosts(st, fr, lc, x.loopSpec(fr, l), "step")
			x.backEdge(st, lc)
			return
		}
	}
	// entry
	x.phis(st, fr, from, l.header)
	x.loopEntry(st, fr, l)
}

func (x *Exec) loopEntry(st *State, fr *Frame, l *Loop) {
	spec := x.loopSpec(fr, l)
	if spec != nil && spec.unroll > 0 || x.constTrip(st, fr, l) {
		u := maxUnroll
		if spec != nil && spec.unroll > 0 {
			u = spec.unroll
		}
		st.loops = append(st.loops, &loopCtx{frame: fr, loop: l, unroll: u})
		x.run(st, fr, l.header, 0)
		return
	}
	x.enterLoop(st, fr, l, spec)
}

// constTrip: the header condition is decided by constants on entry.
func (x *Exec) constTrip(st *State, fr *Frame, l *Loop) bool {
	if x.loopSpec(fr, l) != nil && len(x.loopSpec(fr, l).invs) > 0 {
		return false
	}
	hdr := l.header
	if _, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	c, ok := x.headerCond(st.clone(), fr, l)
	return ok && (c == True || c == False)
}

// headerCond executes the header block (no calls) and returns its branch condition.
func (x *Exec) headerCond(st *State, fr *Frame, l *Loop) (c *Term, ok bool) {
	hdr := l.header
	iff, isIf := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	for _, in := range hdr.Instrs {
		switch y := in.(type) {
		case *ssa.Call:
			if b, isB := y.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" && b.Name() != "cap" {
				return nil, false
			}
		case *ssa.DebugRef, *ssa.Phi, *ssa.UnOp, *ssa.BinOp, *ssa.Store, *ssa.If, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field:
		default:
			return nil, false
		}
	}
	// run under a dry context so that nothing is recorded as an obligation
	rec := &loopCtx{dry: true, rec: &recorder{ghosts: map[string]bool{}}, frame: nil, loop: l}
	x.dry = append(x.dry, rec)
	defer func() { x.dry = x.dry[:len(x.dry)-1] }()
	defer func() {
		if r := recover(); r != nil {
			if _, isA := r.(abortExec); isA {
				c, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for _, in := range hdr.Instrs {
		x.install(st)
		switch y := in.(type) {
		case *ssa.UnOp:
			x.unop(st, fr, y)
		case *ssa.BinOp:
			x.set(st, fr, y, x.binop(st, fr, y))
		case *ssa.Store:
			x.store(st, fr, y)
		case *ssa.FieldAddr:
			x.fieldAddr(st, fr, y)
		case *ssa.IndexAddr:
			x.indexAddr(st, fr, y)
		case *ssa.Field:
			if sv, ok := x.reg(st, fr, y.X).(*StructV); ok {
				x.set(st, fr, y, sv.f[y.Field])
			} else {
				return nil, false
			}
		case *ssa.Call:
			x.builtin(st, fr, y, y.Call.Value.(*ssa.Builtin))
		}
	}
	c = x.term(st, fr, iff.Cond)
	if !l.blocks[hdr.Succs[0]] {
		c = Not(c)
	} else if l.blocks[hdr.Succs[1]] {
		return nil, false
	}
	return c, true
}

// ---- havoc -----------------------------------------------------------------------

type hleaf struct {
	head *Term // symbol standing for the value at the loop head
	init *Term
	role string // "blk" for block components and opaque values, "int" otherwise
}

type havocRes struct {
	cells map[*ssa.Alloc]Val
	mem   map[int]*Term // index in W -> head value/content
	gh    map[string]*Term
	leafs []hleaf
}

func (x *Exec) havocVal(st *State, name string, v Val, t types.Type, leafs *[]hleaf) Val {
	switch y := v.(type) {
	case *Term:
		if y.sort == SSlc {
			n := MkSlc(Fresh(name+"_blk", SInt), Fresh(name+"_off", SInt), Fresh(name+"_len", SInt), Fresh(name+"_cap", SInt))
			for i, r := range []string{"blk", "int", "int", "int"} {
				*leafs = append(*leafs, hleaf{n.args[i], proj([]string{"sblk", "soff", "slen", "scap"}[i], y), r})
			}
			return n
		}
		if y.sort == SPtr {
			f := Fresh(name+"_fld", SInt)
			var n *Term
			if p, ok := under(t).(*types.Pointer); ok && structOf(p.Elem()) != nil && !opaqueStruct(p.Elem()) {
				n = App("ptr", SPtr, Fresh(name+"_blk", SInt), Fresh(name+"_idx", SInt), Num(0))
			} else {
				n = App("ptr", SPtr, Fresh(name+"_blk", SInt), Fresh(name+"_idx", SInt), f)
			}
			for i, r := range []string{"blk", "int", "int"} {
				if n.args[i].kind == kSym {
					*leafs = append(*leafs, hleaf{n.args[i], proj([]string{"pblk", "pidx", "pfld"}[i], y), r})
				}
			}
			return n
		}
		n := Fresh(name, y.sort)
		role := "int"
		if y.sort != SInt {
			role = "val"
		}
		*leafs = append(*leafs, hleaf{n, y, role})
		return n
	case *StructV:
		s := structOf(y.t)
		n := &StructV{t: y.t}
		for i := range y.f {
			n.f = append(n.f, x.havocVal(st, name+"."+s.Field(i).Name(), y.f[i], s.Field(i).Type(), leafs))
		}
		return n
	case *ArrV:
		c := Fresh(name, y.content.sort)
		*leafs = append(*leafs, hleaf{c, y.content, "val"})
		return &ArrV{content: c, base: y.base, n: y.n, elem: y.elem}
	case *IfaceV:
		n := Fresh(name, SInt)
		*leafs = append(*leafs, hleaf{n, y.t, "val"})
		return n
	}
	return v // closures, tuples: assumed unchanged (checked at the back edge)
}

func (x *Exec) havocState(st *State, fr *Frame, l *Loop, W []wloc, gh map[string]bool) *havocRes {
	h := &havocRes{cells: map[*ssa.Alloc]Val{}, mem: map[int]*Term{}, gh: map[string]*Term{}}
	for _, a := range l.cells {
		ck := cellKey{fr.id, a}
		v, ok := st.cells[ck]
		if !ok {
			continue
		}
		n := x.havocVal(st, a.Comment+"_h", v, a.Type().(*types.Pointer).Elem(), &h.leafs)
		st.cells[ck] = n
		h.cells[a] = n
	}
	for i, w := range W {
		m := x.memOf(st.mem, w.key, w.srt)
		switch {
		case w.obj == nil:
			nm := Fresh("lm_"+w.key, m.sort)
			h.leafs = append(h.leafs, hleaf{nm, m, "val"})
			st.mem[w.key] = nm
			h.mem[i] = nm
		case w.idx == nil:
			c := Fresh("lc_"+w.key, arrSort(w.srt))
			h.leafs = append(h.leafs, hleaf{c, x.selObj(m, w.obj), "val"})
			st.mem[w.key] = Store(m, w.obj, c)
			h.mem[i] = c
		default:
			oc := x.selObj(m, w.obj)
			old := Select(oc, w.idx)
			n := x.havocVal(st, "lv_"+w.key, old, types.Typ[types.Int], &h.leafs).(*Term)
			st.mem[w.key] = Store(m, w.obj, Store(oc, w.idx, n))
			h.mem[i] = n
		}
	}
	for g := range gh {
		old, ok := st.mem["$"+g]
		if !ok {
			old = Sym("gh0_"+g, x.sp.ghosts[g])
		}
		n := Fresh("lg_"+g, old.sort)
		h.leafs = append(h.leafs, hleaf{n, old, "val"})
		h.gh[g] = n
		st.mem["$"+g] = n
	}
	return h
}

func (x *Exec) wfVal(st *State, v Val, t types.Type) {
	switch y := v.(type) {
	case *Term:
		x.assumeWF(st, y, t)
	case *StructV:
		s := structOf(y.t)
		for i := range y.f {
			x.wfVal(st, y.f[i], s.Field(i).Type())
		}
	}
}

// hasNew: t contains a symbol with id >= mark that is not in ok.
func hasSym(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == kSym && pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func blkAlts(b *Term, out *[]*Term) {
	if b.kind == kApp && b.op == "ite" {
		blkAlts(b.args[1], out)
		blkAlts(b.args[2], out)
		return
	}
	*out = append(*out, b)
}

func (x *Exec) generalise(writes []wloc, h *havocRes, mark int, cntSer int) []wloc {
	sub := map[*Term]*Term{}
	intHead := map[*Term]bool{}
	isHead := map[*Term]bool{}
	for _, l := range h.leafs {
		isHead[l.head] = true
		if l.role == "int" {
			intHead[l.head] = true
		} else {
			sub[l.head] = l.init
		}
	}
	var out []wloc
	add := func(w wloc) {
		for i, o := range out {
			if o.key != w.key || o.obj != w.obj {
				continue
			}
			if o.idx != w.idx {
				out[i].idx = nil
			}
			return
		}
		out = append(out, w)
	}
	for _, w := range writes {
		if w.obj == nil {
			add(wloc{key: w.key, srt: w.srt})
			continue
		}
		var alts []*Term
		blkAlts(w.obj.args[0], &alts)
		for _, b := range alts {
			if s, ok := x.fresh[b]; ok && s > cntSer {
				continue
			}
			idx := w.idx
			if idx != nil && hasSym(idx, func(s *Term) bool { return s.id >= mark || isHead[s] }) {
				idx = nil
			}
			if hasSym(b, func(s *Term) bool { return intHead[s] }) {
				add(wloc{key: w.key, srt: w.srt})
				continue
			}
			nb := Subst(b, sub)
			var nalts []*Term
			blkAlts(nb, &nalts)
			for _, n := range nalts {
				if s, ok := x.fresh[n]; ok && s > cntSer {
					continue
				}
				if hasSym(n, func(s *Term) bool { return s.id >= mark }) {
					add(wloc{key: w.key, srt: w.srt})
					continue
				}
				if n.kind == kNum && n.num.Sign() == 0 {
					continue // nil block: never written
				}
				add(wloc{key: w.key, srt: w.srt, obj: MkObj(n, w.obj.args[1]), idx: idx})
			}
		}
	}
	// whole-memory entries subsume others
	whole := map[string]bool{}
	for _, w := range out {
		if w.obj == nil {
			whole[w.key] = true
		}
	}
	var res []wloc
	done := map[string]bool{}
	for _, w := range out {
		if whole[w.key] {
			if !done[w.key] {
				done[w.key] = true
				res = append(res, wloc{key: w.key, srt: w.srt})
			}
			continue
		}
		res = append(res, w)
	}
	return res
}

func sameW(a, b []wloc) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]bool{}
	k := func(w wloc) string {
		s := w.key
		if w.obj != nil {
			s += fmt.Sprint("|", w.obj.id)
		}
		if w.idx != nil {
			s += fmt.Sprint("|", w.idx.id)
		}
		return s
	}
	for _, w := range a {
		m[k(w)] = true
	}
	for _, w := range b {
		if !m[k(w)] {
			return false
		}
	}
	return true
}

type sol struct {
	ok   bool
	step *big.Int
}

func (x *Exec) curMem(st *State, w wloc) *Term {
	m := x.memOf(st.mem, w.key, w.srt)
	if w.obj == nil {
		return m
	}
	c := x.selObj(m, w.obj)
	if w.idx == nil {
		return c
	}
	return Select(c, w.idx)
}

// solve compares head leaves with their values on all back edges.
func solveLeaf(head *Term, backs []*Term) sol {
	if len(backs) == 0 {
		return sol{true, big.NewInt(0)}
	}
	if head.sort != SInt {
		for _, b := range backs {
			if b != head {
				return sol{}
			}
		}
		return sol{true, big.NewInt(0)}
	}
	var k *big.Int
	for _, b := range backs {
		d := Sub(b, head)
		if d.kind != kNum {
			return sol{}
		}
		if k == nil {
			k = d.num
		} else if k.Cmp(d.num) != 0 {
			return sol{}
		}
	}
	return sol{true, k}
}

// leafTerms enumerates scalar components of a value in the order used by havocVal.
func leafTerms(v Val, out *[]*Term) {
	switch y := v.(type) {
	case *Term:
		if y.sort == SSlc {
			*out = append(*out, SBlk(y), SOff(y), SLen(y), SCap(y))
			return
		}
		if y.sort == SPtr {
			*out = append(*out, PBlk(y), PIdx(y), PFld(y))
			return
		}
		*out = append(*out, y)
	case *StructV:
		for _, f := range y.f {
			leafTerms(f, out)
		}
	case *ArrV:
		*out = append(*out, y.content)
	case *IfaceV:
		*out = append(*out, y.t)
	}
}

// setGhosts runs the ghost assignments of a loop: "init" on arrival, "step" at each back edge, "exit" on
// the edges that leave it.  All right-hand sides are evaluated before any ghost changes.
func (x *Exec) setGhosts(st *State, fr *Frame, lc *loopCtx, spec *LoopSpec, when string) {
	if spec == nil {
		return
	}
	x.install(st)
	var names []string
	var vals []*Term
	for _, g := range spec.ghosts {
		if g.when != when || !tagActive(g.tags, x.prop) {
			continue
		}
		env := x.frameEnv(st, fr)
		env.lc = lc
		if lc != nil {
			env.n = lc.n
			if env.n == nil { // dry run
				env.n = Fresh("n", SInt)
			}
		}
		v, err := func() (t *Term, err error) {
			defer env.guard(&err)
			return env.toTerm(env.ev(g.e)), nil
		}()
		if err != nil {
			x.invErr(&loopInv{name: g.name}, err)
			continue
		}
		names, vals = append(names, g.name), append(vals, v)
	}
	for i, n := range names {
		x.ghostWrite(st, n)
		st.mem["$"+n] = vals[i]
	}
}

func (x *Exec) enterLoop(st *State, fr *Frame, l *Loop, spec *LoopSpec) {
	x.setGhosts(st, fr, nil, spec, "init")
	entry := st.clone()
	cntIn := st.cnt
	x.serial++
	cntSer := x.serial
	cntSerials[cntIn] = cntSer
	var W []wloc
	gh := map[string]bool{}
	var h *havocRes
	var lastRec *recorder
	var hc *Term
	hcOK := false
	for it := 0; ; it++ {
		if it > 8 {
			panic(abortExec{fmt.Sprintf("write set of loop %d of %s does not stabilise", l.ord, shortName(l.fn))})
		}
		s := entry.clone()
		mark := len(termList)
		h = x.havocState(s, fr, l, W, gh)
		x.bumpCnt(s)
		x.wfHavoc(s, fr, l, h, W)
		lc := &loopCtx{frame: fr, loop: l, dry: true, rec: &recorder{ghosts: map[string]bool{}}, entry: entry, cntIn: cntIn}
		s.loops = append(s.loops, lc)
		x.install(s)
		hc, hcOK = x.headerCond(s.clone(), fr, l)
		lc.head = s.clone()
		x.dry = append(x.dry, lc)
		x.run(s, fr, l.header, 0)
		x.drain(fr, lc)
		x.dry = x.dry[:len(x.dry)-1]
		nW := x.generalise(lc.rec.writes, h, mark, cntSer)
		lastRec = lc.rec
		same := sameW(nW, W)
		ng := false
		for g := range lc.rec.ghosts {
			if !gh[g] {
				ng = true
				gh[g] = true
			}
		}
		// monotone union
		if !same {
			nW = x.unionW(W, nW)
			same = sameW(nW, W)
		}
		W = nW
		if same && !ng {
			break
		}
	}
	// propagate to an enclosing dry run
	if len(x.dry) > 0 {
		r := x.dry[len(x.dry)-1].rec
		r.writes = append(r.writes, W...)
		for g := range gh {
			r.ghosts[g] = true
		}
	}
	x.install(st)
	// solve induction variables
	n := Fresh("n", SInt)
	real := map[*Term]*Term{} // dry head leaf -> real head term
	unsolved := map[*Term]bool{}
	expect := map[*Term]*big.Int{}
	solveGroup := func(heads []*Term, backs [][]*Term) {
		for i, hd := range heads {
			var bs []*Term
			for _, b := range backs {
				bs = append(bs, b[i])
			}
			if hd.kind != kSym {
				continue
			}
			var init *Term
			for _, lf := range h.leafs {
				if lf.head == hd {
					init = lf.init
				}
			}
			if init == nil {
				continue
			}
			so := solveLeaf(hd, bs)
			if so.ok {
				expect[hd] = so.step
				if so.step.Sign() == 0 {
					real[hd] = init
				} else {
					real[hd] = Add(init, Mul(BigNum(so.step), n))
				}
			} else {
				f := Fresh(hd.op, hd.sort)
				real[hd] = f
				unsolved[f] = true
			}
		}
	}
	lc := &loopCtx{frame: fr, loop: l, W: W, ghostW: gh, cntIn: cntIn, n: n, entry: entry}
	for _, a := range l.cells {
		hv, ok := h.cells[a]
		if !ok {
			continue
		}
		var heads []*Term
		leafTerms(hv, &heads)
		var backs [][]*Term
		for _, b := range lastRec.backs {
			var bl []*Term
			bv := b.cells[cellKey{fr.id, a}]
			leafTerms(bv, &bl)
			if len(bl) != len(heads) {
				bl = make([]*Term, len(heads))
				for i := range bl {
					bl[i] = Fresh("x", heads[i].sort)
				}
			}
			backs = append(backs, bl)
		}
		solveGroup(heads, backs)
	}
	for i, w := range W {
		hv := h.mem[i]
		var heads []*Term
		if w.idx != nil && w.obj != nil {
			leafTerms(hv, &heads)
		} else {
			heads = []*Term{hv}
		}
		var backs [][]*Term
		for _, b := range lastRec.backs {
			x.install(b)
			var bl []*Term
			cur := x.curMem(b, w)
			if w.idx != nil && w.obj != nil {
				leafTerms(cur, &bl)
			} else {
				bl = []*Term{cur}
			}
			backs = append(backs, bl)
		}
		solveGroup(heads, backs)
	}
	for _, lf := range h.leafs { // ghosts and leftovers
		if _, ok := real[lf.head]; !ok {
			f := Fresh(lf.head.op, lf.head.sort)
			real[lf.head] = f
			unsolved[f] = true
		}
	}
	x.install(st)
	// collect invariants
	lc.invs = x.loopInvs(st, fr, l, spec, lc, h, real, unsolved, W)
	// entry obligations
	for _, iv := range lc.invs {
		if iv.noentry {
			continue
		}
		g, err := iv.ev(st, lc, Num(0), true)
		if err != nil {
			x.invErr(iv, err)
			continue
		}
		x.obligeC(st, "loop-entry", fmt.Sprintf("loop %d of %s: invariant holds on entry: %s", l.ord, shortName(l.fn), iv.name), iv.tags, g, l.header.Instrs[0].Pos(), iv.id)
	}
	// build the real head state
	subst := func(v Val) Val { return substVal(v, real) }
	for a, hv := range h.cells {
		st.cells[cellKey{fr.id, a}] = subst(hv)
	}
	for i, w := range W {
		m := x.memOf(st.mem, w.key, w.srt)
		rv := Subst(h.mem[i], real)
		switch {
		case w.obj == nil:
			st.mem[w.key] = rv
			x.entryFrame(st, w, rv)
		case w.idx == nil:
			st.mem[w.key] = Store(m, w.obj, rv)
			x.entryFrame(st, w, rv)
		default:
			st.mem[w.key] = Store(m, w.obj, Store(x.selObj(m, w.obj), w.idx, rv))
		}
	}
	for g := range gh {
		st.mem["$"+g] = real[h.gh[g]]
	}
	x.bumpCnt(st)
	x.assume(st, Le(Num(0), n))
	x.wfHavoc(st, fr, l, h, W)
	if hcOK && hc != nil {
		c := Subst(hc, real)
		if !hasSym(c, func(s *Term) bool { return unsolved[s] }) {
			prev := Subst(c, map[*Term]*Term{n: Sub(n, Num(1))})
			x.assume(st, Or(Eq(n, Num(0)), prev))
			// a bound of the form a*n <= b also gives the weak bound directly
			if prev.kind == kApp && prev.op == "<=" {
				if init := Subst(c, map[*Term]*Term{n: Num(-1)}); init != nil && x.entails(st, init) {
					x.assume(st, prev)
				}
			}
		}
	}
	st.loops = append(st.loops, lc)
	lc.expect = map[*Term]*big.Int{}
	lc.heads = h
	lc.real = real
	lc.steps = expect
	for _, iv := range lc.invs {
		g, err := iv.ev(st, lc, n, false)
		if err != nil {
			x.invErr(iv, err)
			continue
		}
		x.assumeL(st, g, iv.name)
	}
	lc.head = st.clone()
	x.run(st, fr, l.header, 0)
	x.drain(fr, lc)
}

func (x *Exec) inDry() bool { return len(x.dry) > 0 }

// entryFrame: every write of the function is checked against its modifies clause, so whatever a loop
// does, a cell outside that set that existed on entry still has its value from the function's entry.
func (x *Exec) entryFrame(st *State, w wloc, cur *Term) {
	if x.inDry() || x.con == nil || x.con.noframe || x.old == nil {
		return
	}
	em := x.memOf(x.old.mem, w.key, w.srt)
	if w.obj == nil {
		if cur == em {
			return
		}
		b, f, i := BoundVar("b", SInt), BoundVar("f", SInt), BoundVar("i", SInt)
		o := MkObj(b, f)
		sel := App("select", w.srt, App("select", arrSort(w.srt), cur, o), i)
		in := inSet(x.modSet, w.key, o, i)
		if in == True {
			return
		}
		x.assume(st, Forall([]*Term{b, f, i}, Or(Le(x.old.cnt, b), in, Eq(sel, App("select", w.srt, App("select", arrSort(w.srt), em, o), i))), []*Term{sel}))
		return
	}
	if _, ok := x.fresh[w.obj.args[0]]; ok || cur.kind != kSym {
		return
	}
	i := BoundVar("i", SInt)
	in := inSet(x.modSet, w.key, w.obj, i)
	for _, a := range x.modSet {
		if a.key == w.key && a.obj == w.obj && a.idx == nil && a.lo == nil && a.pred == nil {
			return
		}
	}
	if in == True {
		return
	}
	sel := Select(cur, i)
	x.assume(st, Forall([]*Term{i}, Or(Le(x.old.cnt, w.obj.args[0]), in, Eq(sel, Select(x.selObj(em, w.obj), i))), []*Term{sel}))
}

func (x *Exec) unionW(a, b []wloc) []wloc {
	out := append([]wloc{}, b...)
	for _, w := range a {
		f := false
		for i, o := range out {
			if o.key == w.key && (o.obj == nil || o.obj == w.obj) {
				f = true
				if o.obj != nil && o.idx != w.idx {
					out[i].idx = nil
				}
			}
		}
		if !f {
			if w.obj == nil {
				var no []wloc
				for _, o := range out {
					if o.key != w.key {
						no = append(no, o)
					}
				}
				out = no
			}
			out = append(out, w)
		}
	}
	return out
}

func substVal(v Val, m map[*Term]*Term) Val {
	switch y := v.(type) {
	case *Term:
		return Subst(y, m)
	case *StructV:
		n := &StructV{t: y.t}
		for _, f := range y.f {
			n.f = append(n.f, substVal(f, m))
		}
		return n
	case *ArrV:
		return &ArrV{content: Subst(y.content, m), base: y.base, n: y.n, elem: y.elem}
	}
	return v
}

func (x *Exec) wfHavoc(st *State, fr *Frame, l *Loop, h *havocRes, W []wloc) {
	for _, a := range l.cells {
		if _, ok := h.cells[a]; ok {
			x.wfVal(st, st.cells[cellKey{fr.id, a}], a.Type().(*types.Pointer).Elem())
		}
	}
	for _, w := range W {
		if w.obj != nil && w.idx != nil {
			v := x.curMem(st, w)
			switch v.sort {
			case SSlc:
				x.assume(st, wfSlc(v, st.cnt))
				x.known(st, SBlk(v))
			case SPtr:
				x.assume(st, wfPtr(v, st.cnt))
				x.known(st, PBlk(v))
			}
		}
	}
}

func (x *Exec) invErr(iv *loopInv, err error) {
	debugf("%s: invariant %s not evaluable: %v", x.name, iv.name, err)
	iv.dead = true
	x.notes = append(x.notes, fmt.Sprintf("%s: loop invariant %q not applicable: %v", x.name, iv.name, err))
}

func (x *Exec) loopInvs(st *State, fr *Frame, l *Loop, spec *LoopSpec, lc *loopCtx, h *havocRes, real map[*Term]*Term, unsolved map[*Term]bool, W []wloc) []*loopInv {
	var out []*loopInv
	add := func(iv *loopInv) {
		if !x.dropped[iv.id] {
			out = append(out, iv)
		}
	}
	path := ""
	for f := fr; f != nil; f = f.parent {
		path = shortName(f.fn) + "/" + path
	}
	base := fmt.Sprintf("%s#%d", path, l.ord)
	// automatic: slices keep their block or were reallocated in the loop
	auto := func(name string, get func(s *State) *Term, init *Term) {
		id := base + "/auto/" + name
		add(&loopInv{id: id, name: "auto " + name, auto: true, ev: func(s *State, lc *loopCtx, n *Term, goal bool) (*Term, error) {
			cur := get(s)
			b := SBlk(cur)
			if cur.sort == SPtr {
				b = PBlk(cur)
			}
			ib := SBlk(init)
			return Or(Eq(b, ib), Le(lc.cntIn, b)), nil
		}})
	}
	for _, a := range l.cells {
		hv, ok := h.cells[a].(*Term)
		if !ok || hv.sort != SSlc {
			continue
		}
		if !unsolved[real[hv.args[0]]] {
			continue
		}
		a := a
		init := st.cells[cellKey{fr.id, a}].(*Term)
		auto(a.Comment, func(s *State) *Term { return s.cells[cellKey{fr.id, a}].(*Term) }, init)
	}
	for i, w := range W {
		w := w
		if w.obj == nil || w.idx == nil || w.srt != SSlc {
			continue
		}
		hv := h.mem[i]
		if !isCtor(hv) || !unsolved[real[hv.args[0]]] {
			continue
		}
		init := x.curMem(st, w)
		auto(fmt.Sprintf("%s#%d", w.key, i), func(s *State) *Term { return x.curMem(s, w) }, init)
	}
	if spec != nil {
		for i, c := range spec.invs {
			if !tagActive(c.tags, x.prop) {
				continue
			}
			c := c
			add(&loopInv{id: fmt.Sprintf("%s/inv%d", base, i), name: c.name, tags: c.tags, ev: func(s *State, lc *loopCtx, n *Term, goal bool) (*Term, error) {
				env := x.frameEnv(s, fr)
				env.lc = lc
				env.n = n
				if goal {
					return env.goalOf(c.e)
				}
				return env.boolean(c.e)
			}})
		}
	}
	return out
}

// frameEnv: environment for invariants in frame fr.
func (x *Exec) frameEnv(s *State, fr *Frame) *Env {
	env := &Env{x: x, st: s, mem: s.mem, vars: map[string]TV{}, bindings: map[string]TV{}, fr: fr}
	if fr.fn.Pkg != nil {
		env.pkg = fr.fn.Pkg.Pkg
	}
	if fr.parent == nil {
		env.old = x.old
	} else {
		env.old = fr.entry
	}
	for f := lexicalParent(fr); f != nil; f = lexicalParent(f) {
		for i, p := range f.fn.Params {
			if _, ok := env.vars[p.Name()]; !ok {
				env.vars[p.Name()] = TV{f.params[i], p.Type()}
			}
		}
	}
	for k, v := range fr.lets {
		env.vars[k] = v
	}
	for i, p := range fr.fn.Params {
		env.vars[p.Name()] = TV{fr.params[i], p.Type()}
		env.vars["arg_"+p.Name()] = TV{fr.params[i], p.Type()}
		env.vars[fmt.Sprintf("arg%d", i)] = TV{fr.params[i], p.Type()}
	}
	return env
}

func (x *Exec) backEdge(st *State, lc *loopCtx) {
	if infeasible(st) {
		return
	}
	n1 := Add(lc.n, Num(1))
	// solved leaves
	chk := func(heads, backs []*Term, what string) {
		for i, hd := range heads {
			step, ok := lc.steps[hd]
			if !ok || hd.kind != kSym {
				continue
			}
			want := lc.real[hd]
			if step.Sign() != 0 {
				want = Add(want, BigNum(step))
			}
			if backs[i] == want {
				continue
			}
			x.oblige(st, "loop-step", fmt.Sprintf("loop %d of %s: %s advances by %s", lc.loop.ord, shortName(lc.loop.fn), what, step), nil, Eq(backs[i], want), token.NoPos)
		}
	}
	for _, a := range lc.loop.cells {
		hv, ok := lc.heads.cells[a]
		if !ok {
			continue
		}
		var heads, backs []*Term
		leafTerms(hv, &heads)
		bv := st.cells[cellKey{lc.frame.id, a}]
		leafTerms(bv, &backs)
		if len(heads) != len(backs) {
			x.unsupported(st, "loop variable "+a.Comment+" changes representation", token.NoPos)
			continue
		}
		if _, isC := hv.(*ClosV); isC && hv != bv {
			x.unsupported(st, "closure variable changes in loop", token.NoPos)
		}
		chk(heads, backs, a.Comment)
	}
	for i, w := range lc.W {
		hv := lc.heads.mem[i]
		if w.idx == nil || w.obj == nil {
			chk([]*Term{hv}, []*Term{x.curMem(st, w)}, w.key)
			continue
		}
		var heads, backs []*Term
		leafTerms(hv, &heads)
		leafTerms(x.curMem(st, w), &backs)
		chk(heads, backs, w.key)
	}
	for _, iv := range lc.invs {
		if iv.dead {
			continue
		}
		g, err := iv.ev(st, lc, n1, true)
		if err != nil {
			x.invErr(iv, err)
			continue
		}
		x.obligeC(st, "loop-inv", fmt.Sprintf("loop %d of %s: invariant preserved: %s", lc.loop.ord, shortName(lc.loop.fn), iv.name), iv.tags, g, token.NoPos, iv.id)
	}
}
