package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) reg(st *State, fr *Frame, v ssa.Value) Val {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(st, y)
	case *ssa.Global:
		return x.globalPtr(y)
	case *ssa.Function:
		return &ClosV{fn: y}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == y {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == y {
				return fr.free[i]
			}
		}
	}
	r, ok := st.regs[regKey{fr.id, v}]
	if !ok {
		panic(abortExec{fmt.Sprintf("undefined register %s in %s", v.Name(), fr.fn.Name())})
	}
	return r
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term { return x.asTerm(st, x.reg(st, fr, v)) }

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, val Val) {
	st.regs[regKey{fr.id, v}] = val
}

// ---- register cells ----------------------------------------------------------

func (x *Exec) locGet(st *State, l *LocV) Val {
	v, ok := st.cells[l.cell]
	if !ok {
		panic(abortExec{"read of unset cell " + l.cell.a.Comment})
	}
	for _, p := range l.path {
		v = v.(*StructV).f[p]
	}
	if l.idx != nil {
		a := v.(*ArrV)
		r := Select(a.content, Add(a.base, l.idx))
		x.assumeWF(st, r, a.elem)
		return r
	}
	return v
}

func setPath(v Val, path []int, idx *Term, nv Val) Val {
	if len(path) == 0 {
		if idx == nil {
			return nv
		}
		a := v.(*ArrV)
		return &ArrV{content: Store(a.content, Add(a.base, idx), nv.(*Term)), base: a.base, n: a.n, elem: a.elem}
	}
	s := v.(*StructV)
	n := &StructV{t: s.t, f: append([]Val{}, s.f...)}
	n.f[path[0]] = setPath(s.f[path[0]], path[1:], idx, nv)
	return n
}

func (x *Exec) locSet(st *State, l *LocV, v Val) {
	st.cells[l.cell] = setPath(st.cells[l.cell], l.path, l.idx, v)
}

// ---- control flow -------------------------------------------------------------

func (x *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if infeasible(st) {
		return
	}
	// leaving loops of this frame
	for len(st.loops) > 0 {
		top := st.loops[len(st.loops)-1]
		if top.frame == fr && !top.loop.blocks[to] {
			if top.dry && len(x.dry) > 0 && x.dry[len(x.dry)-1] == top {
				return // dry run explores the body only
			}
			st.loops = st.loops[:len(st.loops)-1]
			if !top.dry && top.unroll == 0 {
				x.setGhosts(st, fr, top, x.loopSpec(fr, top.loop), "exit")
			}
			continue
		}
		break
	}
	l := loopAt(fr.fn, to)
	if x.mergeAt(st, fr, from, to, l) {
		return
	}
	if l != nil {
		x.loopHeader(st, fr, from, l)
		return
	}
	x.phis(st, fr, from, to)
	x.run(st, fr, to, 0)
}

func (x *Exec) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, pr := range to.Preds {
			if pr == from {
				vals = append(vals, x.reg(st, fr, p.Edges[i]))
				ps = append(ps, p)
				break
			}
		}
	}
	for i, p := range ps {
		x.set(st, fr, p, vals[i])
	}
}

func (x *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if infeasible(st) {
			return
		}
		x.install(st)
		in := b.Instrs[i]
		switch y := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			x.alloc(st, fr, y)
		case *ssa.Store:
			x.store(st, fr, y)
		case *ssa.UnOp:
			x.unop(st, fr, y)
		case *ssa.BinOp:
			x.set(st, fr, y, x.binop(st, fr, y))
		case *ssa.FieldAddr:
			x.fieldAddr(st, fr, y)
		case *ssa.IndexAddr:
			x.indexAddr(st, fr, y)
		case *ssa.Field:
			v := x.reg(st, fr, y.X)
			sv, ok := v.(*StructV)
			if !ok {
				x.unsupported(st, "field of "+y.X.Type().String(), y.Pos())
				return
			}
			x.set(st, fr, y, sv.f[y.Field])
		case *ssa.Extract:
			v := x.reg(st, fr, y.Tuple).(*TupleV)
			x.set(st, fr, y, v.v[y.Index])
		case *ssa.ChangeType:
			v := x.reg(st, fr, y.X)
			if sv, ok := v.(*StructV); ok {
				v = &StructV{t: y.Type(), f: sv.f}
			}
			x.set(st, fr, y, v)
		case *ssa.ChangeInterface:
			x.set(st, fr, y, x.reg(st, fr, y.X))
		case *ssa.MakeInterface:
			x.makeIface(st, fr, y)
		case *ssa.TypeAssert:
			x.typeAssert(st, fr, y)
		case *ssa.MakeClosure:
			c := &ClosV{fn: y.Fn.(*ssa.Function)}
			for _, bnd := range y.Bindings {
				c.binds = append(c.binds, x.reg(st, fr, bnd))
			}
			x.set(st, fr, y, c)
		case *ssa.MakeSlice:
			x.makeSlice(st, fr, y)
		case *ssa.Slice:
			x.slice(st, fr, y)
		case *ssa.Convert:
			x.set(st, fr, y, x.convert(st, fr, y))
		case *ssa.SliceToArrayPointer:
			s := x.term(st, fr, y.X)
			at := under(y.Type().(*types.Pointer).Elem()).(*types.Array)
			x.safety(st, fmt.Sprintf("slice long enough for conversion to array pointer [%d]", at.Len()), Le(Num(at.Len()), SLen(s)), y.Pos())
			x.set(st, fr, y, MkPtr(SBlk(s), SOff(s), Num(0)))
		case *ssa.Lookup:
			x.lookup(st, fr, y)
		case *ssa.Defer:
			d := deferred{call: &y.Call, pos: y.Pos()}
			if y.Call.IsInvoke() {
				d.fn = x.reg(st, fr, y.Call.Value)
			} else if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.reg(st, fr, y.Call.Value)
			}
			for _, a := range y.Call.Args {
				d.args = append(d.args, x.reg(st, fr, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			if len(ds) == 0 {
				continue
			}
			x.runDefers(st, fr, func(s *State) { x.run(s, fr, b, i+1) })
			return
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
				if !x.builtin(st, fr, y, bi) {
					return
				}
				continue
			}
			var args []Val
			for _, a := range y.Call.Args {
				args = append(args, x.reg(st, fr, a))
			}
			var fv Val
			if !y.Call.IsInvoke() {
				fv = x.reg(st, fr, y.Call.Value)
			} else {
				fv = x.reg(st, fr, y.Call.Value)
			}
			x.call(st, fr, &y.Call, fv, args, y.Pos(), func(s *State, res []Val) {
				switch n := y.Call.Signature().Results().Len(); n {
				case 0:
				case 1:
					x.set(s, fr, y, res[0])
				default:
					x.set(s, fr, y, &TupleV{res})
				}
				x.run(s, fr, b, i+1)
			})
			return
		case *ssa.Go:
			// a started goroutine: only trusted/no-effect closures; flagged
			x.assumed["goroutine body started in "+fr.fn.Name()+" not interleaved"] = true
		case *ssa.MakeChan:
			c := Fresh("chan", SInt)
			x.assume(st, Not(Eq(c, Num(0))))
			x.set(st, fr, y, c)
		case *ssa.If:
			x.branch(st, fr, b, y)
			return
		case *ssa.Jump:
			x.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []Val
			for _, r := range y.Results {
				res = append(res, x.reg(st, fr, r))
			}
			x.ret(st, fr, res)
			return
		case *ssa.Panic:
			x.panicPath(st, "panic reached", y.Pos())
			return
		default:
			x.unsupported(st, fmt.Sprintf("instruction %T", in), in.Pos())
			return
		}
	}
}

func (x *Exec) panicPath(st *State, msg string, pos token.Pos) {
	if x.safetyOn {
		x.oblige(st, "safety", msg, nil, False, pos)
	}
	x.assumed["paths ending in panic are outside postconditions (unless panic freedom is an obligation)"] = true
}

func (x *Exec) ret(st *State, fr *Frame, res []Val) {
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == fr {
		top := st.loops[len(st.loops)-1]
		if top.dry && len(x.dry) > 0 && x.dry[len(x.dry)-1] == top {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if fr.parent != nil {
		for k := range st.regs {
			if k.f == fr.id {
				delete(st.regs, k)
			}
		}
		for k := range st.cells {
			if k.f == fr.id {
				delete(st.cells, k)
				delete(st.order, k)
			}
		}
	}
	fr.onRet(st, res)
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	if bi, ok := d.call.Value.(*ssa.Builtin); ok {
		_ = bi // close(ch), etc.: no effect on the model
		x.runDefers(st, fr, k)
		return
	}
	x.call(st, fr, d.call, d.fn, d.args, d.pos, func(s *State, _ []Val) { x.runDefers(s, fr, k) })
}

func (x *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, y *ssa.If) {
	c := x.term(st, fr, y.Cond)
	t, f := b.Succs[0], b.Succs[1]
	if c == True || st.pcset[c] {
		x.jump(st, fr, b, t)
		return
	}
	n := Not(c)
	if c == False || st.pcset[n] {
		x.jump(st, fr, b, f)
		return
	}
	fs := st.clone()
	x.paths++
	if x.paths > x.maxp*4 {
		panic(abortExec{"too many paths"})
	}
	line := x.posStr(y.Cond.Pos())
	if i := strings.LastIndex(line, "/"); i >= 0 {
		line = line[i+1:]
	}
	x.assume(st, c)
	st.trace = append(st.trace, line+"+")
	x.assume(fs, n)
	fs.trace = append(fs.trace, line+"-")
	tOK := x.feasible(st)
	fOK := true
	if tOK {
		fOK = x.feasible(fs)
	}
	if tOK {
		x.install(st)
		x.jump(st, fr, b, t)
	}
	if fOK {
		x.install(fs)
		x.jump(fs, fr, b, f)
	}
}

var feasCache = map[string]bool{}
var feasCount int

// feasible: quick check with quantifier-free assumptions; unknown counts as feasible.
func (x *Exec) feasible(st *State) bool {
	if infeasible(st) {
		return false
	}
	if len(x.dry) > 0 && !x.dryFeas {
		return true
	}
	var as []*Term
	for _, p := range st.pc {
		if !p.quant {
			as = append(as, p)
		}
	}
	q := buildQuery(as, False)
	if r, ok := feasCache[q]; ok {
		return r
	}
	feasCount++
	r := inproc.check(q)
	feasCache[q] = r != "unsat"
	return r != "unsat"
}

// ---- instructions ----------------------------------------------------------------

func (x *Exec) alloc(st *State, fr *Frame, a *ssa.Alloc) {
	t := a.Type().(*types.Pointer).Elem()
	x.seq++
	ck := cellKey{fr.id, a}
	st.order[ck] = x.seq
	if !a.Heap {
		st.cells[ck] = x.zero(t)
		x.set(st, fr, a, &LocV{cell: ck, typ: t})
		return
	}
	blk := x.newBlock(st, a.Comment, t)
	for _, l := range leavesOf(t) {
		srt, key, _ := scalar(l.typ)
		x.initObj(st, key, srt, MkObj(blk, Num(int64(l.off))), ConstArr(arrSort(srt), x.zeroTerm(srt, l.typ)))
	}
	p := MkPtr(blk, Num(0), Num(0))
	st.cells[ck] = p
	x.set(st, fr, a, p)
}

func (x *Exec) store(st *State, fr *Frame, s *ssa.Store) {
	v := x.reg(st, fr, s.Val)
	a := x.reg(st, fr, s.Addr)
	if l, ok := a.(*LocV); ok {
		x.locSet(st, l, v)
		return
	}
	p := a.(*Term)
	x.nilCheck(st, p, s.Pos())
	t := s.Addr.Type().(*types.Pointer).Elem()
	x.storeAt(st, PBlk(p), PIdx(p), PFld(p), t, v)
}

func (x *Exec) nilCheck(st *State, p *Term, pos token.Pos) {
	b := PBlk(p)
	if _, ok := x.fresh[b]; ok {
		return
	}
	x.safety(st, "pointer is not nil", Not(Eq(b, Num(0))), pos)
}

func (x *Exec) unop(st *State, fr *Frame, y *ssa.UnOp) {
	switch y.Op {
	case token.MUL:
		if g, ok := y.X.(*ssa.Global); ok {
			if v, ok := x.constGlobal(st, g); ok {
				x.set(st, fr, y, v)
				return
			}
		}
		a := x.reg(st, fr, y.X)
		if l, ok := a.(*LocV); ok {
			x.set(st, fr, y, x.locGet(st, l))
			return
		}
		p := a.(*Term)
		x.nilCheck(st, p, y.Pos())
		x.set(st, fr, y, x.load(st, st.mem, p, y.Type()))
	case token.NOT:
		x.set(st, fr, y, Not(x.term(st, fr, y.X)))
	case token.SUB:
		x.set(st, fr, y, x.wrap(st, Neg(x.term(st, fr, y.X)), y.Type()))
	case token.ARROW:
		if y.CommaOk {
			x.set(st, fr, y, x.freshVal(st, "recv", y.Type()))
		} else {
			x.set(st, fr, y, x.freshVal(st, "recv", y.Type()))
		}
	default:
		x.unsupported(st, "unop "+y.Op.String(), y.Pos())
		x.set(st, fr, y, x.freshVal(st, "unop", y.Type()))
	}
}

func (x *Exec) valEq(st *State, a, b Val, t types.Type) *Term {
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		u := structOf(t)
		var cs []*Term
		for i := range sa.f {
			cs = append(cs, x.valEq(st, sa.f[i], sb.f[i], u.Field(i).Type()))
		}
		return And(cs...)
	}
	ta, tb := x.asTerm(st, a), x.asTerm(st, b)
	if ta.sort == SStr {
		return x.strEq(st, ta, tb)
	}
	if ta.sort == SSlc { // comparison with nil
		if tb == NilSlc {
			return Eq(SBlk(ta), Num(0))
		}
		if ta == NilSlc {
			return Eq(SBlk(tb), Num(0))
		}
	}
	if ta.sort == SPtr {
		if tb == NilPtr {
			return Eq(PBlk(ta), Num(0))
		}
		if ta == NilPtr {
			return Eq(PBlk(tb), Num(0))
		}
	}
	return Eq(ta, tb)
}

func (x *Exec) binop(st *State, fr *Frame, y *ssa.BinOp) Val {
	av, bv := x.reg(st, fr, y.X), x.reg(st, fr, y.Y)
	switch y.Op {
	case token.EQL:
		return x.valEq(st, av, bv, y.X.Type())
	case token.NEQ:
		return Not(x.valEq(st, av, bv, y.X.Type()))
	}
	a, b := x.asTerm(st, av), x.asTerm(st, bv)
	t := y.X.Type()
	isFloat := a.sort == SReal
	switch y.Op {
	case token.ADD:
		if a.sort == SStr {
			r := UF("strcat", SStr, a, b)
			x.strFacts(st, r)
			x.assume(st, And(Eq(RLen(r), Add(RLen(a), RLen(b))), Eq(BLen(r), Add(BLen(a), BLen(b)))))
			return r
		}
		return x.wrap(st, Add(a, b), t)
	case token.SUB:
		return x.wrap(st, Sub(a, b), t)
	case token.MUL:
		if x.con != nil && x.con.opaque && a.kind != kNum && b.kind != kNum && !isFloat {
			return x.wrap(st, UF("product", SInt, a, b), t)
		}
		return x.wrap(st, Mul(a, b), t)
	case token.QUO:
		if isFloat && x.con != nil && x.con.opaque {
			return UF("quotient", SReal, a, b)
		}
		if isFloat {
			return App("/", SReal, a, b)
		}
		x.safety(st, "division by zero", Not(Eq(b, Num(0))), y.Pos())
		if lo, _, ok := x.bounds(st, a, 0); ok && lo.Sign() >= 0 && b.kind == kNum && b.num.Sign() > 0 {
			return DivT(a, b)
		}
		return x.wrap(st, goDiv(a, b), t)
	case token.REM:
		x.safety(st, "division by zero", Not(Eq(b, Num(0))), y.Pos())
		if lo, _, ok := x.bounds(st, a, 0); ok && lo.Sign() >= 0 && b.kind == kNum && b.num.Sign() > 0 {
			return ModT(a, b)
		}
		return goRem(a, b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.sort == SStr {
			lt := func(p, q *Term) *Term { return UF("strlt", SBool, p, q) }
			switch y.Op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return Not(lt(b, a))
			default:
				return Not(lt(a, b))
			}
		}
		switch y.Op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		default:
			return Le(b, a)
		}
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		// concrete or special cases
		if y.Op == token.SHL && b.kind == kNum && b.num.IsInt64() && b.num.Int64() < 63 {
			return x.wrap(st, Mul(a, BigNum(pow2(uint(b.num.Int64())))), t)
		}
		if y.Op == token.SHR && b.kind == kNum && b.num.IsInt64() && b.num.Int64() < 63 {
			return DivT(a, BigNum(pow2(uint(b.num.Int64()))))
		}
		if y.Op == token.AND && b.kind == kNum {
			p := new(big.Int).Add(b.num, big.NewInt(1))
			if p.Sign() > 0 && new(big.Int).And(p, b.num).Sign() == 0 {
				if lo, _, ok := x.bounds(st, a, 0); ok && lo.Sign() >= 0 {
					return ModT(a, BigNum(p))
				}
			}
		}
		r := UF("bit_"+sanitize(fmt.Sprint(int(y.Op))), SInt, a, b)
		x.assumeWF(st, r, t)
		return r
	}
	x.unsupported(st, "binop "+y.Op.String(), y.Pos())
	return x.freshVal(st, "binop", y.Type())
}

func (x *Exec) fieldAddr(st *State, fr *Frame, y *ssa.FieldAddr) {
	a := x.reg(st, fr, y.X)
	stt := under(y.X.Type()).(*types.Pointer).Elem()
	s := structOf(stt)
	if l, ok := a.(*LocV); ok {
		x.set(st, fr, y, &LocV{cell: l.cell, path: append(append([]int{}, l.path...), y.Field), typ: s.Field(y.Field).Type()})
		return
	}
	p := a.(*Term)
	x.nilCheck(st, p, y.Pos())
	x.set(st, fr, y, MkPtr(PBlk(p), PIdx(p), Add(PFld(p), Num(int64(fieldOff(s, y.Field))))))
}

func (x *Exec) indexAddr(st *State, fr *Frame, y *ssa.IndexAddr) {
	i := x.term(st, fr, y.Index)
	a := x.reg(st, fr, y.X)
	if l, ok := a.(*LocV); ok {
		at := under(l.typ).(*types.Array)
		x.safety(st, "array index in range", And(Le(Num(0), i), Lt(i, Num(at.Len()))), y.Pos())
		x.set(st, fr, y, &LocV{cell: l.cell, path: l.path, idx: i, typ: at.Elem()})
		return
	}
	t := a.(*Term)
	if t.sort == SPtr {
		at := under(under(y.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		x.nilCheck(st, t, y.Pos())
		x.safety(st, "array index in range", And(Le(Num(0), i), Lt(i, Num(at.Len()))), y.Pos())
		x.set(st, fr, y, MkPtr(PBlk(t), Add(PIdx(t), i), PFld(t)))
		return
	}
	x.safety(st, "slice index in range", And(Le(Num(0), i), Lt(i, SLen(t))), y.Pos())
	x.set(st, fr, y, MkPtr(SBlk(t), Add(SOff(t), i), Num(0)))
}

func (x *Exec) makeIface(st *State, fr *Frame, y *ssa.MakeInterface) {
	v := x.reg(st, fr, y.X)
	var t *Term
	if tv, ok := v.(*Term); ok {
		t = x.ifaceTerm(tv, y.X.Type())
	} else {
		t = Fresh("iface", SInt)
	}
	x.assume(st, Not(Eq(t, Num(0))))
	x.set(st, fr, y, &IfaceV{t: t, v: v, typ: y.X.Type()})
}

// ifaceTerm is the interface value that boxes v; different values of a type, and values of different types,
// give different interface values.
func (x *Exec) ifaceTerm(v *Term, t types.Type) *Term {
	n := sanitize(shortType(t)) + "_" + v.sort
	r := UF("iface_"+n, SInt, v)
	if _, ok := t.Underlying().(*types.Pointer); ok && !v.open && !x.boxed[r] {
		if x.boxed == nil {
			x.boxed = map[*Term]bool{}
		}
		x.boxed[r] = true
		h := fnv.New32a()
		h.Write([]byte(n))
		x.initFacts = append(x.initFacts, Eq(UF("unbox_"+n, v.sort, r), v), Eq(UF("ifacetype", SInt, r), Num(int64(h.Sum32()))))
	}
	return r
}

func (x *Exec) typeAssert(st *State, fr *Frame, y *ssa.TypeAssert) {
	v := x.reg(st, fr, y.X)
	if iv, ok := v.(*IfaceV); ok {
		if types.Identical(iv.typ, y.AssertedType) {
			if y.CommaOk {
				x.set(st, fr, y, &TupleV{[]Val{iv.v, True}})
			} else {
				x.set(st, fr, y, iv.v)
			}
			return
		}
	}
	t := x.asTerm(st, v)
	is := UF("istype_"+sanitize(shortType(y.AssertedType)), SBool, t)
	nv := x.freshVal(st, "assert", y.AssertedType)
	if y.CommaOk {
		x.set(st, fr, y, &TupleV{[]Val{nv, is}})
		return
	}
	x.safety(st, "type assertion", is, y.Pos())
	x.set(st, fr, y, nv)
}

func (x *Exec) makeSlice(st *State, fr *Frame, y *ssa.MakeSlice) {
	n, c := x.term(st, fr, y.Len), x.term(st, fr, y.Cap)
	x.safety(st, "make length in range", And(Le(Num(0), n), Le(n, c)), y.Pos())
	et := under(y.Type()).(*types.Slice).Elem()
	x.set(st, fr, y, x.mkSlice(st, et, n, c, nil))
}

// mkSlice allocates a block; content nil means zeroed.
func (x *Exec) mkSlice(st *State, et types.Type, n, c *Term, content func(l leaf, srt string) *Term) *Term {
	blk := x.newBlock(st, "mk", et)
	for _, l := range leavesOf(et) {
		srt, key, _ := scalar(l.typ)
		var ct *Term
		if content != nil {
			ct = content(l, srt)
		} else {
			ct = ConstArr(arrSort(srt), x.zeroTerm(srt, l.typ))
		}
		x.initObj(st, key, srt, MkObj(blk, Num(int64(l.off))), ct)
	}
	return MkSlc(blk, Num(0), n, c)
}

func (x *Exec) slice(st *State, fr *Frame, y *ssa.Slice) {
	a := x.reg(st, fr, y.X)
	t := x.asTerm(st, a)
	var lo, hi *Term = Num(0), nil
	if y.Low != nil {
		lo = x.term(st, fr, y.Low)
	}
	if y.High != nil {
		hi = x.term(st, fr, y.High)
	}
	switch t.sort {
	case SPtr: // *array
		at := under(under(y.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := Num(at.Len())
		if hi == nil {
			hi = n
		}
		mx := n
		if y.Max != nil {
			mx = x.term(st, fr, y.Max)
		}
		x.safety(st, "slice bounds", And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), y.Pos())
		x.set(st, fr, y, MkSlc(PBlk(t), Add(PIdx(t), lo), Sub(hi, lo), Sub(mx, lo)))
	case SSlc:
		if hi == nil {
			hi = SLen(t)
		}
		mx := SCap(t)
		if y.Max != nil {
			mx = x.term(st, fr, y.Max)
		}
		x.safety(st, "slice bounds", And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(t))), y.Pos())
		x.set(st, fr, y, MkSlc(SBlk(t), Add(SOff(t), lo), Sub(hi, lo), Sub(mx, lo)))
	case SStr:
		if hi == nil {
			hi = BLen(t)
		}
		x.safety(st, "string slice bounds", And(Le(Num(0), lo), Le(lo, hi), Le(hi, BLen(t))), y.Pos())
		r := UF("substr", SStr, t, lo, hi)
		x.strFacts(st, r)
		x.assume(st, Eq(BLen(r), Sub(hi, lo)))
		x.set(st, fr, y, r)
	}
}

func (x *Exec) contentOf(mem map[string]*Term, et types.Type, blk, fld *Term) *Term {
	srt, key, ok := scalar(et)
	if !ok {
		panic(abortExec{"contentOf non-scalar"})
	}
	return x.selObj(x.memOf(mem, key, srt), MkObj(blk, fld))
}

func (x *Exec) convert(st *State, fr *Frame, y *ssa.Convert) Val {
	v := x.reg(st, fr, y.X)
	from, to := under(y.X.Type()), under(y.Type())
	t := x.asTerm(st, v)
	switch f := from.(type) {
	case *types.Basic:
		if f.Info()&types.IsString != 0 {
			if sl, ok := to.(*types.Slice); ok {
				if memTypeName(sl.Elem()) == "int32" {
					n := RLen(t)
					x.strFacts(st, t)
					return x.mkSlice(st, sl.Elem(), n, x.slackCap(st, n), func(l leaf, srt string) *Term { return Runes(t) })
				}
				n := BLen(t)
				x.strFacts(st, t)
				return x.mkSlice(st, sl.Elem(), n, x.slackCap(st, n), func(l leaf, srt string) *Term { return UF("bytes", arrSort(SInt), t) })
			}
			return t
		}
		if tb, ok := to.(*types.Basic); ok {
			if f.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				fl, fh, okf := intRange(y.X.Type())
				tl, th, okt := intRange(y.Type())
				_ = fl
				_ = fh
				_ = tl
				_ = th
				if okf && okt {
					return x.wrap(st, t, y.Type())
				}
				return t
			}
			if f.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				r := UF("str_of_rune", SStr, t)
				x.strFacts(st, r)
				x.assume(st, And(Eq(RLen(r), Num(1)), Eq(Select(Runes(r), Num(0)), UF("normrune", SInt, t)), UF("runestr", SBool, r)))
				return r
			}
			if f.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
				return App("to_real", SReal, t)
			}
			if f.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
				if x.con != nil && x.con.opaque {
					return UF("truncated", SInt, t)
				}
				fl := App("to_int", SInt, t)
				return Ite(App("<=", SBool, realNum("0.0"), t), fl, Neg(App("to_int", SInt, App("-", SReal, t))))
			}
			if f.Info()&types.IsFloat != 0 {
				return t
			}
			if f.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				return t
			}
		}
	case *types.Slice:
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			c := x.contentOf(st.mem, f.Elem(), SBlk(t), Num(0))
			if memTypeName(f.Elem()) == "int32" {
				return x.mkStr(st, c, SOff(t), SLen(t))
			}
			r := UF("bstr", SStr, c, SOff(t), SLen(t))
			x.strFacts(st, r)
			x.assume(st, Eq(BLen(r), SLen(t)))
			return r
		}
	}
	x.unsupported(st, fmt.Sprintf("conversion %s to %s", y.X.Type(), y.Type()), y.Pos())
	return x.freshVal(st, "conv", y.Type())
}

func (x *Exec) slackCap(st *State, n *Term) *Term {
	c := Fresh("cap", SInt)
	x.assume(st, Le(n, c))
	return c
}

func (x *Exec) lookup(st *State, fr *Frame, y *ssa.Lookup) {
	// string index or constant-map lookup
	xv := x.term(st, fr, y.X)
	i := x.term(st, fr, y.Index)
	if xv.sort == SStr {
		x.safety(st, "string index in range", And(Le(Num(0), i), Lt(i, BLen(xv))), y.Pos())
		r := Select(UF("bytes", arrSort(SInt), xv), i)
		x.assumeWF(st, r, y.Type())
		x.set(st, fr, y, r)
		return
	}
	// map: uninterpreted function of (map, key)
	mt := under(y.X.Type()).(*types.Map)
	srt, _, ok := scalar(mt.Elem())
	if !ok {
		x.unsupported(st, "map lookup", y.Pos())
		return
	}
	r := UF("maplookup_"+i.sort+"_"+srt, srt, xv, i)
	// constant map literal
	if g, m := x.constMap(y.X); g != nil {
		if k, ok := x.constMapGet(st, m, i); ok {
			r = k
		}
	}
	x.assumeWF(st, r, mt.Elem())
	if y.CommaOk {
		x.set(st, fr, y, &TupleV{[]Val{r, UF("maphas_"+i.sort, SBool, xv, i)}})
	} else {
		x.set(st, fr, y, r)
	}
}

// constMap: the map updates of an unmutated global map literal.
func (x *Exec) constMap(v ssa.Value) (*ssa.Global, []*ssa.MapUpdate) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil, nil
	}
	iv := x.initValue(g)
	mm, ok := iv.(*ssa.MakeMap)
	if !ok {
		return nil, nil
	}
	var ups []*ssa.MapUpdate
	for _, b := range mm.Parent().Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == mm {
				ups = append(ups, mu)
			}
		}
	}
	return g, ups
}

func (x *Exec) constMapGet(st *State, ups []*ssa.MapUpdate, key *Term) (*Term, bool) {
	if len(ups) == 0 || len(ups) > 16 {
		return nil, false
	}
	var r *Term
	for _, u := range ups {
		kc, ok := u.Key.(*ssa.Const)
		vc, ok2 := u.Value.(*ssa.Const)
		if !ok || !ok2 {
			return nil, false
		}
		k, _ := x.constVal(st, kc).(*Term)
		v, _ := x.constVal(st, vc).(*Term)
		if k == nil || v == nil {
			return nil, false
		}
		if r == nil {
			r = x.zeroTerm(v.sort, u.Value.Type())
		}
		r = Ite(Eq(k, key), v, r)
	}
	return r, true
}

// ---- builtins ---------------------------------------------------------------------

func (x *Exec) builtin(st *State, fr *Frame, y *ssa.Call, bi *ssa.Builtin) bool {
	args := y.Call.Args
	switch bi.Name() {
	case "len", "cap":
		t := x.reg(st, fr, args[0])
		switch v := t.(type) {
		case *ArrV:
			x.set(st, fr, y, Num(v.n))
		case *Term:
			switch v.sort {
			case SSlc:
				if bi.Name() == "len" {
					x.set(st, fr, y, SLen(v))
				} else {
					x.set(st, fr, y, SCap(v))
				}
			case SStr:
				x.strFacts(st, v)
				x.set(st, fr, y, BLen(v))
			default:
				r := UF("lenof", SInt, v)
				x.assume(st, Le(Num(0), r))
				x.set(st, fr, y, r)
			}
		}
	case "append":
		x.appendB(st, fr, y)
	case "copy":
		x.copyB(st, fr, y)
	case "close", "print", "println":
	case "ssa:deferstack":
		x.set(st, fr, y, Num(1))
	case "ssa:wrapnilchk":
		p := x.term(st, fr, args[0])
		x.nilCheck(st, p, y.Pos())
		x.set(st, fr, y, p)
	default:
		x.unsupported(st, "builtin "+bi.Name(), y.Pos())
		return false
	}
	return true
}

// known literal slice: varargs array with constant length
func (x *Exec) appendB(st *State, fr *Frame, y *ssa.Call) {
	s := x.term(st, fr, y.Call.Args[0])
	e := x.term(st, fr, y.Call.Args[1])
	et := under(y.Type()).(*types.Slice).Elem()
	x.set(st, fr, y, x.appendV(st, s, e, et, y.Call.Args[1].Type()))
}

func (x *Exec) appendV(st *State, s, e *Term, et types.Type, eTyp types.Type) *Term {
	var n *Term
	src := func(l leaf, srt string) *Term { // content array and offset 0-based accessor
		return x.contentOf(st.mem, l.typ, SBlk(e), Num(int64(l.off)))
	}
	eoff := Num(0)
	if e.sort == SStr {
		n = BLen(e)
		src = func(l leaf, srt string) *Term { return UF("bytes", arrSort(SInt), e) }
	} else {
		n = SLen(e)
		eoff = SOff(e)
	}
	if n.kind == kNum && n.num.Sign() == 0 {
		return s
	}
	ln := SLen(s)
	newLen := Add(ln, n)
	fits := Le(newLen, SCap(s))
	// try to decide fits from path facts
	if st.pcset[fits] {
		fits = True
	} else if st.pcset[Not(fits)] {
		fits = False
	}
	if s == NilSlc {
		fits = False
	}
	blk := x.newBlock(st, "app", et)
	ncap := Fresh("cap", SInt)
	x.assume(st, Le(newLen, ncap))
	rb := Ite(fits, SBlk(s), blk)
	off := SOff(s)
	for _, l := range leavesOf(et) {
		srt, key, _ := scalar(l.typ)
		var old *Term
		if s == NilSlc {
			old = ConstArr(arrSort(srt), x.zeroTerm(srt, l.typ))
		} else {
			old = x.contentOf(st.mem, l.typ, SBlk(s), Num(int64(l.off)))
		}
		sc := src(l, srt)
		var nc *Term
		if n.kind == kNum && n.num.IsInt64() && n.num.Int64() <= 64 {
			nc = old
			for j := int64(0); j < n.num.Int64(); j++ {
				nc = Store(nc, Add(off, ln, Num(j)), Select(sc, Add(eoff, Num(j))))
			}
		} else {
			nc = Fresh("appc", arrSort(srt))
			j := BoundVar("j", SInt)
			x.assume(st, Forall([]*Term{j}, Implies(Lt(j, Add(off, ln)), Eq(Select(nc, j), Select(old, j))), []*Term{Select(nc, j)}))
			j2 := BoundVar("j", SInt)
			base := Add(off, ln)
			x.assume(st, Forall([]*Term{j2}, Implies(And(Le(base, j2), Lt(j2, Add(base, n))),
				Eq(Select(nc, j2), Select(sc, Add(Sub(j2, base), eoff)))), []*Term{Select(nc, j2)}))
			// cells beyond the new length keep their value when appended in place
			j3 := BoundVar("j", SInt)
			x.assume(st, Forall([]*Term{j3}, Implies(Le(Add(base, n), j3), Eq(Select(nc, j3), Select(old, j3))), []*Term{Select(nc, j3)}))
		}
		ro := MkObj(rb, Num(int64(l.off)))
		if fits == False {
			x.initObj(st, key, srt, ro, nc)
			continue
		}
		// in-place write is subject to frame conditions
		x.install(st)
		w := wloc{key: key, srt: srt, obj: MkObj(SBlk(s), Num(int64(l.off)))}
		x.checkWriteCond(st, w, fits)
		m := x.memOf(st.mem, key, srt)
		st.mem[key] = Store(m, ro, nc)
	}
	return MkSlc(rb, off, newLen, Ite(fits, SCap(s), ncap))
}

func (x *Exec) checkWriteCond(st *State, w wloc, cond *Term) {
	if cond == False {
		return
	}
	if len(x.dry) > 0 || cond == True {
		x.checkWrite(st, w)
		return
	}
	x.wcond = cond
	x.checkWrite(st, w)
	x.wcond = nil
}

func (x *Exec) copyB(st *State, fr *Frame, y *ssa.Call) {
	d := x.term(st, fr, y.Call.Args[0])
	s := x.term(st, fr, y.Call.Args[1])
	et := under(y.Call.Args[0].Type()).(*types.Slice).Elem()
	var sl, so *Term
	src := func(l leaf) *Term { return x.contentOf(st.mem, l.typ, SBlk(s), Num(int64(l.off))) }
	if s.sort == SStr {
		sl, so = BLen(s), Num(0)
		src = func(l leaf) *Term { return UF("bytes", arrSort(SInt), s) }
	} else {
		sl, so = SLen(s), SOff(s)
	}
	n := Ite(Le(SLen(d), sl), SLen(d), sl)
	if x.entails(st, Le(SLen(d), sl)) {
		n = SLen(d)
	} else if x.entails(st, Le(sl, SLen(d))) {
		n = sl
	}
	if SLen(d) == sl {
		n = sl
	}
	for _, l := range leavesOf(et) {
		srt, key, _ := scalar(l.typ)
		old := x.contentOf(st.mem, l.typ, SBlk(d), Num(int64(l.off)))
		sc := src(l)
		var nc *Term
		if n.kind == kNum && n.num.Int64() <= 64 {
			nc = old
			for j := int64(0); j < n.num.Int64(); j++ {
				nc = Store(nc, Add(SOff(d), Num(j)), Select(sc, Add(so, Num(j))))
			}
		} else {
			nc = Fresh("cpc", arrSort(srt))
			do := SOff(d)
			j := BoundVar("j", SInt)
			in := And(Le(do, j), Lt(j, Add(do, n)))
			x.assume(st, Forall([]*Term{j}, Implies(in, Eq(Select(nc, j), Select(sc, Add(Sub(j, do), so)))), []*Term{Select(nc, j)}))
			j2 := BoundVar("j", SInt)
			x.assume(st, Forall([]*Term{j2}, Implies(Or(Lt(j2, do), Le(Add(do, n), j2)), Eq(Select(nc, j2), Select(old, j2))), []*Term{Select(nc, j2)}))
		}
		x.writeObj(st, key, srt, MkObj(SBlk(d), Num(int64(l.off))), nc)
	}
	x.set(st, fr, y, n)
}

// entails: cheap syntactic check
func (x *Exec) entails(st *State, t *Term) bool { return t == True || st.pcset[t] }

// ---- calls -----------------------------------------------------------------------

func (x *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	if cc.IsInvoke() && x.con != nil && x.con.lenient {
		x.assumedCalls(st, cc.Signature(), k)
		return
	}
	if cc.IsInvoke() {
		name := "(" + shortType(cc.Value.Type()) + ")." + cc.Method.Name()
		if cc.Method.FullName() == "(error).Error" {
			name = "(error).Error"
		}
		recv := x.asTerm(st, fv)
		if con := x.sp.contracts[name]; con != nil {
			x.applyContract(st, fr, con, name, cc.Method.Type().(*types.Signature), nil, append([]Val{recv}, args...), pos, k)
			return
		}
		x.stdCall(st, name, cc.Signature(), append([]Val{recv}, args...), pos, k)
		return
	}
	var fn *ssa.Function
	var binds []Val
	if c, ok := fv.(*ClosV); ok {
		fn, binds = c.fn, c.binds
	}
	if fn == nil {
		// unknown function value: uninterpreted, pure function of its arguments
		ft := x.asTerm(st, fv)
		if nt, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && nt.Obj().Pkg() != nil && isRepoPkg(nt.Obj().Pkg()) {
			// a contract for every value of a named function type, e.g. krypto431.Option
			name := nt.Obj().Pkg().Name() + "." + nt.Obj().Name()
			if con := x.sp.contracts[name]; con != nil && !(x.con != nil && x.con.lenient) {
				x.safety(st, "function value is not nil", Not(Eq(ft, Num(0))), pos)
				x.applyContract(st, fr, con, name, cc.Signature(), nil, args, pos, k)
				return
			}
		}
		x.dynCall(st, ft, cc.Signature(), args, pos, k)
		return
	}
	x.callFn(st, fr, fn, binds, args, pos, k)
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, binds, args []Val, pos token.Pos, k func(*State, []Val)) {
	name := shortName(fn)
	if x.con != nil && x.con.lenient && x.lenientCall(st, fn, k) {
		return
	}
	con := x.sp.contracts[name]
	if con == nil && fn.Parent() != nil {
		con = x.sp.contracts[x.w.roleOf(fn)]
	}
	if con == nil {
		// a contract per dynamic type of an interface argument: name@type, the boxed value bound as $box
		for i, a := range args {
			if iv, ok := a.(*IfaceV); ok {
				if c := x.sp.contracts[name+"@"+shortType(iv.typ)]; c != nil {
					con = c
					args = append([]Val{}, args...)
					args[i] = iv.v
					x.boxT = map[int]types.Type{i: iv.typ}
					break
				}
			}
		}
	}
	if con != nil && !con.inline && len(binds) == 0 && tagActive(con.only, x.prop) {
		x.applyContract(st, fr, con, name, fn.Signature, fn, args, pos, k)
		return
	}
	repo := fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) || fn.Parent() != nil && fn.Parent().Pkg != nil && isRepoPkg(fn.Parent().Pkg.Pkg)
	if repo && len(fn.Blocks) > 0 {
		d := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				x.unsupported(st, "recursive call of "+name+" without contract", pos)
				return
			}
			d++
		}
		if d > 24 {
			x.unsupported(st, "inlining too deep at "+name, pos)
			return
		}
		x.inlined[name] = true
		x.nframe++
		nf := &Frame{id: x.nframe, fn: fn, params: args, free: binds, onRet: k, parent: fr, depth: d, con: con, root: fr.root, entry: st.snapshot()}
		x.event(st, fr, "call "+name, pos)
		x.run(st, nf, fn.Blocks[0], 0)
		return
	}
	x.stdCall(st, name, fn.Signature, args, pos, k)
}

// event: user assertions attached to events of the verified function ("assert call NAME :: expr")
func (x *Exec) event(st *State, fr *Frame, ev string, pos token.Pos) {}

func resultTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

func (x *Exec) dynCall(st *State, ft *Term, sig *types.Signature, args []Val, pos token.Pos, k func(*State, []Val)) {
	x.safety(st, "function value is not nil", Not(Eq(ft, Num(0))), pos)
	x.assumed["function-typed parameters are side-effect free and deterministic in their arguments"] = true
	ts := []*Term{ft}
	ok := true
	nm := "fnapp"
	for _, a := range args {
		t, isT := a.(*Term)
		if !isT {
			ok = false
			break
		}
		ts = append(ts, t)
		nm += "_" + sanitize(t.sort)
	}
	var res []Val
	for i, rt := range resultTypes(sig) {
		srt, _, sc := scalar(rt)
		if ok && sc && srt != SSlc && srt != SPtr {
			r := UF(fmt.Sprintf("%s_%d_%s", nm, i, srt), srt, ts...)
			x.assumeWF(st, r, rt)
			res = append(res, r)
		} else {
			res = append(res, x.freshVal(st, "dyn", rt))
		}
	}
	k(st, res)
}

// functions of the standard library without a contract that neither read nor write repository state
// beyond their arguments.
var pureStd = map[string]bool{}

var effectFree = []string{"fmt.", "strings.", "unicode.", "unicode/utf8.", "strconv.", "errors.", "encoding/hex.", "math.", "log.", "bytes.", "path/filepath.", "time.", "(time.", "(github.com/sa6mwa/dtg.", "github.com/sa6mwa/dtg.", "regexp.", "(*regexp.", "(error).", "github.com/sa6mwa/blox", "(*github.com/sa6mwa/blox", "(*sync.Mutex)", "os/signal.", "os.UserHomeDir", "github.com/wagslane/", "(*github.com/urfave/cli/v2.Context)", "github.com/urfave/cli/v2.ShowSubcommandHelp", "io.ReadAll", "golang.org/x/crypto/ssh/terminal.IsTerminal", "golang.org/x/term.", "(*os.File).Fd", "(*os.File).WriteString", "os.Stat", "(embed.FS)", "(io/fs.", "(os.FileInfo).", "(os.FileMode).", "github.com/AlecAivazis/survey/v2.With"}

// functions of those packages that write through their arguments
var notEffectFree = []string{"encoding/hex.Decode ", "encoding/hex.Encode ", "encoding/hex.Append", "encoding/hex.NewEncoder", "encoding/hex.NewDecoder", "encoding/hex.Dumper", "strconv.Append", "unicode/utf8.EncodeRune", "unicode/utf8.AppendRune", "fmt.Append", "fmt.Scan", "fmt.Sscan", "fmt.Fscan", "errors.As", "(time.Time).Append", "log.SetOutput", "bytes.NewBuffer", "(*regexp.Regexp).Longest"}

func (x *Exec) stdCall(st *State, name string, sig *types.Signature, args []Val, pos token.Pos, k func(*State, []Val)) {
	allowed := false
	for _, p := range effectFree {
		if strings.HasPrefix(name, p) {
			allowed = true
			break
		}
	}
	for _, p := range notEffectFree {
		if strings.HasPrefix(name+" ", p) {
			allowed = false
			break
		}
	}
	if !allowed && !(x.con != nil && x.con.lenient) {
		x.unsupported(st, "call of "+name+" without contract", pos)
		// continue conservatively: fresh results
	}
	x.trusted[name+" (assumed effect-free)"] = true
	rts := resultTypes(sig)
	if name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") {
		return
	}
	var ts []*Term
	ok := true
	nm := "x_" + sanitize(name)
	for _, a := range args {
		switch t := a.(type) {
		case *Term:
			if t.sort == SSlc || t.sort == SPtr && !strings.HasPrefix(name, "(*github.com/urfave/cli/v2.Context)") {
				ok = false
			}
			ts = append(ts, t)
		case *IfaceV:
			ts = append(ts, t.t)
		default:
			ok = false
		}
	}
	var res []Val
	for i, rt := range rts {
		srt, _, sc := scalar(rt)
		if ok && sc && srt != SSlc && srt != SPtr && name != "time.Now" && len(ts) > 0 {
			nn := nm
			if len(rts) > 1 {
				nn += fmt.Sprintf("_%d", i)
			}
			r := UF(nn, srt, ts...)
			x.assumeWF(st, r, rt)
			if (name == "strings.HasPrefix" || name == "strings.HasSuffix" || name == "strings.Contains") && len(ts) == 2 {
				x.assume(st, Or(Not(r), Le(UF("blen", SInt, ts[1]), UF("blen", SInt, ts[0]))))
			}
			res = append(res, r)
			continue
		}
		res = append(res, x.freshVal(st, sanitize(name), rt))
	}
	if len(res) == 1 && (name == "fmt.Errorf" || name == "errors.New") {
		x.assume(st, Not(Eq(res[0].(*Term), Num(0))))
	}
	x.bumpCnt(st)
	k(st, res)
}

// hints: intermediate assertions ("assert CALLEE :: expr") of the calling function, proved just before the call and
// available from there on.  One that is not proved is dropped like a candidate invariant.
func (x *Exec) hints(st *State, fr *Frame, callee string, pos token.Pos) {
	if fr == nil || fr.con == nil {
		return
	}
	for i, a := range fr.con.asserts {
		if callee != a.at && !strings.HasSuffix(callee, "."+a.at) || !tagActive(a.c.tags, x.prop) {
			continue
		}
		id := fmt.Sprintf("%s/%s/hint%d", x.name, fr.fn.String(), i)
		if x.dropped[id] {
			continue
		}
		env := x.frameEnv(st, fr)
		g, err := env.boolean(a.c.e)
		if err != nil {
			continue
		}
		x.obligeC(st, "assert", "hint before "+a.at+": "+a.c.name, a.c.tags, g, pos, id)
		x.assume(st, g)
	}
}

func (x *Exec) applyContract(st *State, fr *Frame, con *Contract, name string, sig *types.Signature, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, []Val)) {
	if con.trusted {
		x.trusted[con.fn] = true
	} else {
		x.used[con.fn] = true
	}
	x.hints(st, fr, con.fn, pos)
	old := st.snapshot()
	env := &Env{x: x, st: st, mem: st.mem, old: old, vars: map[string]TV{}, bindings: map[string]TV{}}
	if fn != nil && fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	} else if fr != nil && fr.root != nil && fr.root.fn.Pkg != nil {
		env.pkg = fr.root.fn.Pkg.Pkg
	}
	bindParams(env, fn, sig, args, con)
	for i, bt := range x.boxT {
		tv := TV{v: args[i], t: bt}
		env.vars[fmt.Sprintf("arg%d", i)] = tv
		env.vars["box"] = tv
	}
	x.boxT = nil
	fail := func(e error) {
		panic(abortExec{fmt.Sprintf("contract of %s applied in %s: %v", con.fn, x.name, e)})
	}
	for _, l := range con.lets {
		env.bothPol = true
		v, e := env.eval(con.letE[l[0]])
		env.bothPol = false
		if e != nil {
			fail(e)
		}
		env.vars[l[0]] = v
	}
	for _, r := range con.requires {
		if !tagActive(r.tags, x.prop) {
			continue
		}
		g, e := env.boolean(r.e)
		if e != nil {
			fail(e)
		}
		x.oblige(st, "requires", fmt.Sprintf("precondition of %s: %s", con.fn, r.name), r.tags, g, pos)
		if x.con == nil || !x.con.lenient || hasTag(r.tags, x.prop) {
			x.assume(st, g)
		}
	}
	var ws []wloc
	var gs []string
	for _, m := range con.modifies {
		if !tagActive(m.tags, x.prop) {
			continue
		}
		w, g, e := env.lvalue(m.e)
		if e != nil {
			fail(e)
		}
		ws = append(ws, w...)
		if g != "" {
			gs = append(gs, g)
		}
	}
	for _, w := range ws {
		x.havocLoc(st, w, true)
	}
	for _, g := range gs {
		x.ghostWrite(st, g)
		st.mem["$"+g] = Fresh("gh_"+g, x.sp.ghosts[g])
	}
	x.bumpCnt(st)
	var res []Val
	for i, rt := range resultTypes(sig) {
		if con.pure {
			var ts []*Term
			ok := true
			for _, a := range args {
				t, isT := a.(*Term)
				if !isT {
					if iv, isI := a.(*IfaceV); isI {
						t = iv.t
					} else {
						ok = false
						break
					}
				}
				ts = append(ts, t)
			}
			srt, _, sc := scalar(rt)
			if ok && sc && len(ts) > 0 {
				nm := "p_" + sanitize(con.fn)
				if sig.Results().Len() > 1 {
					nm += fmt.Sprintf("_%d", i)
				}
				r := UF(nm, srt, ts...)
				x.assumeWF(st, r, rt)
				res = append(res, r)
				continue
			}
		}
		res = append(res, x.freshVal(st, "res_"+sanitize(lastPart(con.fn)), rt))
	}
	post := &Env{x: x, st: st, mem: st.mem, old: old, vars: env.vars, bindings: map[string]TV{}, pkg: env.pkg}
	bindResults(post, sig, res)
	for _, e := range con.ensures {
		if !tagActive(e.tags, x.prop) {
			continue
		}
		g, er := post.boolean(e.e)
		if er != nil {
			fail(er)
		}
		x.assumeL(st, g, e.name)
	}
	if con.noreturn {
		return
	}
	k(st, res)
}

func lastPart(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func bindParams(env *Env, fn *ssa.Function, sig *types.Signature, args []Val, con *Contract) {
	var names []string
	var ts []types.Type
	if fn != nil && len(fn.Params) == len(args) {
		for _, p := range fn.Params {
			names = append(names, p.Name())
			ts = append(ts, p.Type())
		}
	} else {
		if r := sig.Recv(); r != nil && len(args) == sig.Params().Len()+1 {
			names = append(names, r.Name())
			ts = append(ts, r.Type())
		} else if len(args) == sig.Params().Len()+1 {
			names = append(names, "recv")
			ts = append(ts, types.Typ[types.Int])
		}
		for i := 0; i < sig.Params().Len(); i++ {
			names = append(names, sig.Params().At(i).Name())
			ts = append(ts, sig.Params().At(i).Type())
		}
	}
	for i, n := range names {
		env.vars[n] = TV{v: args[i], t: ts[i]}
		env.vars[fmt.Sprintf("arg%d", i)] = TV{v: args[i], t: ts[i]}
	}
	if len(args) > 0 && (sig.Recv() != nil || names[0] == "recv") {
		env.vars["recv"] = TV{v: args[0], t: ts[0]}
	}
}

func bindResults(env *Env, sig *types.Signature, res []Val) {
	nv := map[string]TV{}
	for k, v := range env.vars {
		nv[k] = v
	}
	for i, rt := range resultTypes(sig) {
		tv := TV{v: res[i], t: rt}
		nv[fmt.Sprintf("result%d", i)] = tv
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			nv[n] = tv
		}
		if types.Identical(rt, types.Universe.Lookup("error").Type()) {
			if _, clash := env.vars["err"]; !clash {
				nv["err"] = tv
			}
		}
	}
	if len(res) >= 1 {
		nv["result"] = TV{v: res[0], t: resultTypes(sig)[0]}
	}
	env.vars = nv
}

func (x *Exec) havocLoc(st *State, w wloc, check bool) {
	if check {
		x.checkWrite(st, w)
	}
	m := x.memOf(st.mem, w.key, w.srt)
	switch {
	case w.obj == nil:
		nm := Fresh("hm_"+w.key, m.sort)
		if w.pred != nil {
			b, f, i := BoundVar("b", SInt), BoundVar("f", SInt), BoundVar("i", SInt)
			o := MkObj(b, f)
			sel := App("select", w.srt, App("select", arrSort(w.srt), nm, o), i)
			x.assume(st, Forall([]*Term{b, f, i}, Or(w.pred(o, i), Eq(sel, App("select", w.srt, App("select", arrSort(w.srt), m, o), i))), []*Term{sel}))
		}
		st.mem[w.key] = nm
	case w.lo != nil:
		c := Fresh("hr_"+w.key, arrSort(w.srt))
		oc := x.selObj(m, w.obj)
		i := BoundVar("i", SInt)
		sel := Select(c, i)
		trigs := [][]*Term{{sel}}
		if so := Select(oc, i); so.kind == kApp && so.op == "select" {
			trigs = append(trigs, []*Term{so})
		}
		x.assume(st, Forall([]*Term{i}, Or(And(Le(w.lo, i), Lt(i, w.hi)), Eq(sel, Select(oc, i))), trigs...))
		st.mem[w.key] = Store(m, w.obj, c)
	case w.idx == nil:
		st.mem[w.key] = Store(m, w.obj, Fresh("hc_"+w.key, arrSort(w.srt)))
	default:
		v := x.freshScalar("hv_"+w.key, w.srt)
		st.mem[w.key] = Store(m, w.obj, Store(x.selObj(m, w.obj), w.idx, v))
	}
}

func (x *Exec) freshScalar(name, srt string) *Term {
	switch srt {
	case SSlc:
		return MkSlc(Fresh(name+"_blk", SInt), Fresh(name+"_off", SInt), Fresh(name+"_len", SInt), Fresh(name+"_cap", SInt))
	}
	return Fresh(name, srt)
}

func debugf(f string, a ...any) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = constant.MakeBool
