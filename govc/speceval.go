package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed specification value.
type TV struct {
	v Val
	t types.Type
}

// AddrV is a lazily loaded memory location.
type AddrV struct {
	blk, idx, fld *Term
	typ           types.Type
}

type nilV struct{}

type Env struct {
	now       func(func() TV) TV // within old(): evaluate in the current state
	x         *Exec
	st        *State // may be nil: no assumption side effects
	mem       map[string]*Term
	old       *snap
	vars      map[string]TV
	bindings  map[string]TV // bound variables
	fr        *Frame
	lc        *loopCtx
	n         *Term
	pkg       *types.Package
	isGoal    bool
	bothPol   bool // polarity unknown: keep triggers on every quantifier
	oldLocals bool
	depth     int
}

type specErr struct{ msg string }

func (e *Env) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Env) guard(err *error) {
	if r := recover(); r != nil {
		if s, ok := r.(specErr); ok {
			*err = fmt.Errorf("%s", s.msg)
			return
		}
		panic(r)
	}
}

func (e *Env) eval(x *Expr) (tv TV, err error) {
	defer e.guard(&err)
	return e.ev(x), nil
}
func (e *Env) boolean(x *Expr) (t *Term, err error) {
	defer e.guard(&err)
	t = e.tm(x)
	if t.sort != SBool {
		e.fail("not boolean: %s", x.src)
	}
	return t, nil
}

// goalOf evaluates a clause as a proof goal.
func (e *Env) goalOf(x *Expr) (*Term, error) {
	o := e.isGoal
	e.isGoal = true
	defer func() { e.isGoal = o }()
	return e.boolean(x)
}

func (e *Env) tm(x *Expr) *Term { return e.toTerm(e.ev(x)) }

func (e *Env) rv(tv TV) TV {
	switch a := tv.v.(type) {
	case *AddrV:
		if _, _, ok := scalar(a.typ); ok {
			t := e.x.loadLeaf(e.mem, a.typ, a.blk, a.idx, a.fld)
			if e.st != nil && !t.open {
				e.x.assumeWF(e.st, t, a.typ)
			} else if e.st != nil && t.open {
				// well-formedness under quantifiers is not asserted
			}
			return TV{t, a.typ}
		}
	case *IfaceV:
		return TV{a.t, tv.t}
	case *LocV:
		return TV{e.x.locGet(e.st, a), tv.t}
	}
	return tv
}

func (e *Env) toTerm(tv TV) *Term {
	tv = e.rv(tv)
	switch t := tv.v.(type) {
	case *Term:
		return t
	case nilV:
		return Num(0)
	case *ClosV:
		return UF("fnval_"+sanitize(shortName(t.fn)), SInt)
	}
	e.fail("expected a scalar, got %T (%v)", tv.v, tv.t)
	return nil
}

func (e *Env) lookupLocal(name string) (TV, bool) {
	for fr := e.fr; fr != nil; fr = lexicalParent(fr) {
		// captured variables
		for i, fv := range fr.fn.FreeVars {
			if fv.Name() == name {
				p := fr.free[i]
				et := fv.Type().(*types.Pointer).Elem()
				switch pv := p.(type) {
				case *LocV:
					return TV{e.x.locGet(e.st, pv), et}, true
				case *Term:
					return e.deref(pv, et), true
				}
			}
		}
		var best *ssa.Alloc
		bo := -1
		for ck, o := range e.st.order {
			if ck.f == fr.id && ck.a.Comment == name && o > bo {
				if e.lc != nil && e.lc.frame == fr && !ck.a.Block().Dominates(e.lc.loop.header) {
					continue
				}
				best, bo = ck.a, o
			}
		}
		if best != nil {
			ck := cellKey{fr.id, best}
			et := best.Type().(*types.Pointer).Elem()
			if best.Heap {
				return e.deref(e.st.cells[ck].(*Term), et), true
			}
			return TV{e.st.cells[ck], et}, true
		}
		for i, p := range fr.fn.Params {
			if p.Name() == name {
				return TV{fr.params[i], p.Type()}, true
			}
		}
	}
	return TV{}, false
}

// lexicalParent: the frame of the function a function literal is written in, if it is running.
func lexicalParent(fr *Frame) *Frame {
	o := fr.fn.Parent()
	if o == nil {
		return nil
	}
	for f := fr.parent; f != nil; f = f.parent {
		if f.fn == o {
			return f
		}
	}
	return nil
}

func (e *Env) deref(p *Term, et types.Type) TV {
	return e.rv(TV{&AddrV{PBlk(p), PIdx(p), PFld(p), et}, et})
}

func (e *Env) pkgByName(n string) *types.Package {
	for _, p := range e.x.w.pkgs {
		if p.Pkg.Name() == n {
			return p.Pkg
		}
	}
	for _, p := range e.x.w.prog.AllPackages() {
		if p.Pkg.Name() == n || p.Pkg.Path() == n {
			return p.Pkg
		}
	}
	return nil
}

func (e *Env) pkgByPath(n string) *types.Package {
	for _, p := range e.x.w.prog.AllPackages() {
		if p.Pkg.Path() == n {
			return p.Pkg
		}
	}
	return nil
}

func (e *Env) pkgObj(p *types.Package, n string) (TV, bool) {
	o := p.Scope().Lookup(n)
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(constant.ToInt(c.Val()).ExactString(), 10)
			return TV{BigNum(b), c.Type()}, true
		case constant.String:
			s := strConst(constant.StringVal(c.Val()))
			if e.st != nil {
				e.x.strFacts(e.st, s)
			}
			return TV{s, c.Type()}, true
		case constant.Bool:
			return TV{BoolT(constant.BoolVal(c.Val())), c.Type()}, true
		}
	case *types.Var:
		sp := e.x.w.prog.Package(p)
		if sp == nil {
			return TV{}, false
		}
		g := sp.Var(n)
		if g == nil {
			return TV{}, false
		}
		st := e.st
		if st == nil {
			st = newState()
		}
		if v, ok := e.x.constGlobal(st, g); ok {
			return TV{v, c.Type()}, true
		}
		return e.deref(e.x.globalPtr(g), c.Type()), true
	}
	return TV{}, false
}

func newState() *State {
	return &State{regs: map[regKey]Val{}, cells: map[cellKey]Val{}, order: map[cellKey]int{}, mem: map[string]*Term{}, cnt: Num(globalLimit), pcset: map[*Term]bool{}, defers: map[int][]deferred{}, ob: map[*Term]int{}, ncalls: map[string]int{}}
}

func (e *Env) ident(n string) TV {
	if tv, ok := e.bindings[n]; ok {
		return tv
	}
	switch n {
	case "true":
		return TV{True, types.Typ[types.Bool]}
	case "false":
		return TV{False, types.Typ[types.Bool]}
	case "nil":
		return TV{nilV{}, nil}
	case "$n":
		if e.n == nil {
			e.fail("$n outside loop invariant")
		}
		return TV{e.n, types.Typ[types.Int]}
	}
	if e.fr != nil {
		if tv, ok := e.lookupLocal(n); ok {
			return tv
		}
	}
	if tv, ok := e.vars[n]; ok {
		return tv
	}
	if srt, ok := e.x.sp.ghosts[n]; ok {
		if g, ok := e.mem["$"+n]; ok {
			return TV{g, nil}
		}
		g := Sym("gh0_"+n, srt)
		e.mem["$"+n] = g
		return TV{g, nil}
	}
	if m, ok := e.x.sp.macros[n]; ok && len(m.params) == 0 {
		return e.ev(m.body)
	}
	if sg, ok := e.x.sp.smtSig[n]; ok && len(sg.args) == 0 {
		return TV{Sym(n, sg.res), nil}
	}
	if e.pkg != nil {
		if tv, ok := e.pkgObj(e.pkg, n); ok {
			return tv
		}
	}
	e.fail("unknown identifier %s", n)
	return TV{}
}

func (e *Env) ev(x *Expr) TV {
	switch x.k {
	case "num":
		b, _ := new(big.Int).SetString(x.s, 10)
		return TV{BigNum(b), types.Typ[types.Int]}
	case "str":
		s := strConst(x.s)
		if e.st != nil {
			e.x.strFacts(e.st, s)
		}
		return TV{s, types.Typ[types.String]}
	case "ident":
		return e.ident(x.s)
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "unary":
		switch x.s {
		case "!":
			g := e.isGoal
			e.isGoal = !g
			r := Not(e.tm(x.args[0]))
			e.isGoal = g
			return TV{r, types.Typ[types.Bool]}
		case "-":
			return TV{Neg(e.tm(x.args[0])), types.Typ[types.Int]}
		case "*":
			p := e.rv(e.ev(x.args[0]))
			pt, ok := p.t.Underlying().(*types.Pointer)
			if !ok {
				e.fail("deref of non-pointer %s", x.args[0].src)
			}
			return e.deref(p.v.(*Term), pt.Elem())
		case "&":
			a := e.addr(x.args[0])
			return TV{MkPtr(a.blk, a.idx, a.fld), types.NewPointer(a.typ)}
		}
	case "bin":
		return e.bin(x)
	case "quant":
		return e.quant(x)
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s %s", x.k, x.s)
	return TV{}
}

// addr evaluates an lvalue to an address.
func (e *Env) addr(x *Expr) *AddrV {
	switch x.k {
	case "field":
		base := e.ev(x.args[0])
		if a := e.fieldAddr(base, x.s); a != nil {
			return a
		}
	case "index":
		s := e.rv(e.ev(x.args[0]))
		i := e.tm(x.args[1])
		if t, ok := s.v.(*Term); ok && t.sort == SSlc && s.t != nil {
			et := s.t.Underlying().(*types.Slice).Elem()
			return &AddrV{SBlk(t), Add(SOff(t), i), Num(0), et}
		}
	case "unary":
		if x.s == "*" {
			p := e.rv(e.ev(x.args[0]))
			t := p.v.(*Term)
			return &AddrV{PBlk(t), PIdx(t), PFld(t), p.t.Underlying().(*types.Pointer).Elem()}
		}
	case "ident":
		if e.pkg != nil {
			if sp := e.x.w.prog.Package(e.pkg); sp != nil {
				if g := sp.Var(x.s); g != nil {
					p := e.x.globalPtr(g)
					return &AddrV{PBlk(p), PIdx(p), PFld(p), g.Type().(*types.Pointer).Elem()}
				}
			}
		}
	}
	e.fail("not addressable: %s", x.src)
	return nil
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (e *Env) fieldAddr(base TV, name string) *AddrV {
	if a, ok := base.v.(*AddrV); ok {
		if s := structOf(a.typ); s != nil && !opaqueStruct(a.typ) {
			i := fieldIndex(s, name)
			if i < 0 {
				e.fail("no field %s in %s", name, a.typ)
			}
			return &AddrV{a.blk, a.idx, Add(a.fld, Num(int64(fieldOff(s, i)))), s.Field(i).Type()}
		}
		base = e.rv(base)
	}
	if t, ok := base.v.(*Term); ok && t.sort == SPtr && base.t != nil {
		pt, ok := base.t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		s := structOf(pt.Elem())
		if s == nil {
			e.fail("field %s of %s", name, base.t)
		}
		i := fieldIndex(s, name)
		if i < 0 {
			e.fail("no field %s in %s", name, pt.Elem())
		}
		return &AddrV{PBlk(t), PIdx(t), Add(PFld(t), Num(int64(fieldOff(s, i)))), s.Field(i).Type()}
	}
	return nil
}

func (e *Env) field(x *Expr) TV {
	if x.args[0].k == "ident" {
		n := x.args[0].s
		known := false
		if _, ok := e.bindings[n]; ok {
			known = true
		}
		if _, ok := e.vars[n]; ok {
			known = true
		}
		if !known && e.fr != nil {
			if _, ok := e.lookupLocal(n); ok {
				known = true
			}
		}
		if !known {
			if p := e.pkgByName(n); p != nil {
				if tv, ok := e.pkgObj(p, x.s); ok {
					return tv
				}
			}
		}
	}
	base := e.ev(x.args[0])
	if sv, ok := base.v.(*StructV); ok {
		s := structOf(sv.t)
		i := fieldIndex(s, x.s)
		if i < 0 {
			e.fail("no field %s", x.s)
		}
		return TV{sv.f[i], s.Field(i).Type()}
	}
	if a := e.fieldAddr(base, x.s); a != nil {
		return e.rv(TV{a, a.typ})
	}
	e.fail("field %s of %T %v", x.s, base.v, base.t)
	return TV{}
}

func (e *Env) index(x *Expr) TV {
	s := e.rv(e.ev(x.args[0]))
	i := e.tm(x.args[1])
	switch t := s.v.(type) {
	case *ArrV:
		return TV{Select(t.content, Add(t.base, i)), t.elem}
	case *Term:
		switch {
		case t.sort == SSlc:
			sl, ok := s.t.Underlying().(*types.Slice)
			if !ok {
				e.fail("index of %v", s.t)
			}
			return e.rv(TV{&AddrV{SBlk(t), Add(SOff(t), i), Num(0), sl.Elem()}, sl.Elem()})
		case t.sort == SStr:
			if e.st != nil {
				e.x.strFacts(e.st, t)
			}
			return TV{Select(Runes(t), i), types.Typ[types.Int32]}
		case strings.HasPrefix(t.sort, "(Array Int "):
			return TV{Select(t, i), nil}
		}
	}
	e.fail("cannot index %T (%v) %s", s.v, s.t, x.src)
	return TV{}
}

func (e *Env) eq(a, b TV) *Term {
	a, b = e.rv(a), e.rv(b)
	_, an := a.v.(nilV)
	_, bn := b.v.(nilV)
	if an {
		a, b = b, a
		an, bn = bn, an
	}
	if bn {
		t := e.toTerm(a)
		switch t.sort {
		case SSlc:
			return Eq(SBlk(t), Num(0))
		case SPtr:
			return Eq(PBlk(t), Num(0))
		}
		return Eq(t, Num(0))
	}
	st := e.st
	la, lb := e.expand(a), e.expand(b)
	if la != nil || lb != nil {
		if la == nil || lb == nil || len(la) != len(lb) {
			e.fail("comparison of different shapes")
		}
		var cs []*Term
		for i := range la {
			cs = append(cs, e.eq(la[i], lb[i]))
		}
		return And(cs...)
	}
	ta, tb := e.toTerm(a), e.toTerm(b)
	if ta.sort == SStr && tb.sort == SStr {
		return e.x.strEq(st, ta, tb)
	}
	if ta.sort != tb.sort {
		e.fail("comparison of %s and %s", ta.sort, tb.sort)
	}
	return Eq(ta, tb)
}

// expand a struct value/location into its fields
func (e *Env) expand(a TV) []TV {
	switch v := a.v.(type) {
	case *StructV:
		s := structOf(v.t)
		var out []TV
		for i := range v.f {
			out = append(out, TV{v.f[i], s.Field(i).Type()})
		}
		return out
	case *AddrV:
		s := structOf(v.typ)
		if s == nil {
			return nil
		}
		var out []TV
		for i := 0; i < s.NumFields(); i++ {
			f := &AddrV{v.blk, v.idx, Add(v.fld, Num(int64(fieldOff(s, i)))), s.Field(i).Type()}
			out = append(out, e.rv(TV{f, f.typ}))
		}
		return out
	}
	return nil
}

func (e *Env) bin(x *Expr) TV {
	B := types.Typ[types.Bool]
	switch x.s {
	case "&&":
		a := e.tm(x.args[0])
		return TV{And(a, e.tm(x.args[1])), B}
	case "||":
		return TV{Or(e.tm(x.args[0]), e.tm(x.args[1])), B}
	case "==>":
		g := e.isGoal
		e.isGoal = !g
		a := e.tm(x.args[0])
		e.isGoal = g
		return TV{Implies(a, e.tm(x.args[1])), B}
	case "<==>":
		bp := e.bothPol
		e.bothPol = true
		defer func() { e.bothPol = bp }()
		return TV{Eq(e.tm(x.args[0]), e.tm(x.args[1])), B}
	case "==":
		return TV{e.eq(e.ev(x.args[0]), e.ev(x.args[1])), B}
	case "!=":
		return TV{Not(e.eq(e.ev(x.args[0]), e.ev(x.args[1]))), B}
	}
	a, b := e.tm(x.args[0]), e.tm(x.args[1])
	switch x.s {
	case "<":
		return TV{Lt(a, b), B}
	case "<=":
		return TV{Le(a, b), B}
	case ">":
		return TV{Lt(b, a), B}
	case ">=":
		return TV{Le(b, a), B}
	}
	I := types.Typ[types.Int]
	switch x.s {
	case "+":
		if a.sort == SStr {
			r := UF("strcat", SStr, a, b)
			return TV{r, types.Typ[types.String]}
		}
		return TV{Add(a, b), I}
	case "-":
		return TV{Sub(a, b), I}
	case "*":
		return TV{Mul(a, b), I}
	case "/":
		return TV{DivT(a, b), I}
	case "%":
		return TV{ModT(a, b), I}
	}
	e.fail("operator %s", x.s)
	return TV{}
}

func sortByName(n string) string {
	switch n {
	case "int", "Int", "rune":
		return SInt
	case "bool", "Bool":
		return SBool
	case "str", "Str":
		return SStr
	case "ptr", "Ptr":
		return SPtr
	case "slc", "Slc":
		return SSlc
	case "arr":
		return arrSort(SInt)
	case "obj":
		return SObj
	}
	return ""
}

func (e *Env) quant(x *Expr) TV {
	saved := map[string]*TV{}
	var bs []*Term
	for _, v := range x.vars {
		srt := sortByName(v[1])
		var ty types.Type = types.Typ[types.Int]
		if srt == "" {
			// pointer to a repository type: ptr_Key
			if strings.HasPrefix(v[1], "ptr_") {
				for _, p := range e.x.w.pkgs {
					if o := p.Pkg.Scope().Lookup(v[1][4:]); o != nil {
						ty = types.NewPointer(o.Type())
						srt = SPtr
					}
				}
			}
			if srt == "" {
				e.fail("unknown sort %s", v[1])
			}
		} else if srt != SInt {
			ty = nil
			if srt == SBool {
				ty = types.Typ[types.Bool]
			}
			if srt == SStr {
				ty = types.Typ[types.String]
			}
		}
		b := BoundVar(v[0], srt)
		bs = append(bs, b)
		if o, ok := e.bindings[v[0]]; ok {
			oc := o
			saved[v[0]] = &oc
		} else {
			saved[v[0]] = nil
		}
		e.bindings[v[0]] = TV{b, ty}
	}
	body := e.tm(x.args[0])
	var trigs [][]*Term
	for _, tr := range x.trig {
		var ts []*Term
		for _, te := range tr {
			ts = append(ts, e.tm(te))
		}
		trigs = append(trigs, ts)
	}
	for n, o := range saved {
		if o == nil {
			delete(e.bindings, n)
		} else {
			e.bindings[n] = *o
		}
	}
	asForall := x.s == "forall"
	mk := Forall
	if !asForall {
		mk = Exists
	}
	universal := e.bothPol || asForall != e.isGoal // will be instantiated by the solver
	if !universal || len(trigs) > 0 {
		if len(trigs) == 0 {
			return TV{mk(bs, body), types.Typ[types.Bool]}
		}
		return TV{mk(bs, body, trigs...), types.Typ[types.Bool]}
	}
	vs := autoTrig(bs, body, mk)
	if asForall {
		return TV{And(vs...), types.Typ[types.Bool]}
	}
	return TV{Or(vs...), types.Typ[types.Bool]}
}

func containsTerm(t, b *Term) bool {
	if t == b {
		return true
	}
	if !t.open {
		return false
	}
	for _, a := range t.args {
		if containsTerm(a, b) {
			return true
		}
	}
	return false
}

// autoTrig normalises quantified integer indices so that select terms can serve as triggers.
func autoTrig(bs []*Term, body *Term, mk func([]*Term, *Term, ...[]*Term) *Term) []*Term {
	if len(bs) == 1 && bs[0].sort == SInt {
		b := bs[0]
		type cand struct {
			arr *Term
			off *Term
		}
		var cs []cand
		seen := map[*Term]bool{}
		offs := map[*Term]bool{}
		var scan func(t *Term)
		scan = func(t *Term) {
			if !t.open || seen[t] {
				return
			}
			seen[t] = true
			if t.kind == kApp && t.op == "select" && !containsTerm(t.args[0], b) && t.args[1].sort == SInt {
				l := linOf(t.args[1])
				if c, ok := l.terms[b]; ok && c.IsInt64() && c.Int64() == 1 {
					o := Sub(t.args[1], b)
					if !o.open || !containsTerm(o, b) && !containsTerm(t.args[0], b) {
						cs = append(cs, cand{t.args[0], o})
						offs[o] = true
					}
				}
			}
			for _, a := range t.args {
				scan(a)
			}
		}
		scan(body)
		if len(cs) > 0 {
			var os []*Term
			for o := range offs {
				os = append(os, o)
			}
			sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
			if len(os) > 4 {
				os = os[:4]
			}
			var out []*Term
			for _, o := range os {
				nb := BoundVar("q", SInt)
				nbody := Subst(body, map[*Term]*Term{b: Sub(nb, o)})
				var trigs [][]*Term
				ts := map[*Term]bool{}
				for _, c := range cs {
					if c.off == o && !ts[c.arr] {
						ts[c.arr] = true
						tr := Select(c.arr, nb)
						if tr.kind == kApp && tr.op == "select" && tr.args[1] == nb {
							trigs = append(trigs, []*Term{tr})
						}
						// reads of the array before the writes are triggers too
						for a := c.arr; a.kind == kApp && a.op == "store"; {
							a = a.args[0]
							if ts[a] {
								break
							}
							ts[a] = true
							tr := Select(a, nb)
							if tr.kind == kApp && tr.op == "select" && tr.args[1] == nb {
								trigs = append(trigs, []*Term{tr})
							}
						}
					}
				}
				if len(trigs) == 0 {
					continue
				}
				out = append(out, mk([]*Term{nb}, nbody, trigs...))
			}
			if len(out) > 0 {
				return out
			}
		}
	}
	return []*Term{mk(bs, body)}
}

func (e *Env) withOld(f func() TV) TV {
	if e.old == nil {
		e.fail("old() not available")
	}
	om, ofr := e.mem, e.fr
	if e.now == nil {
		e.now = func(g func() TV) TV {
			im, ifr := e.mem, e.fr
			e.mem, e.fr = om, ofr
			r := g()
			if a, ok := r.v.(*AddrV); ok {
				r = TV{e.x.loadAt(nil, e.mem, a.blk, a.idx, a.fld, a.typ), a.typ}
			}
			e.mem, e.fr = im, ifr
			return r
		}
		defer func() { e.now = nil }()
	}
	e.mem = e.old.mem
	e.fr = nil
	r := f()
	if a, ok := r.v.(*AddrV); ok {
		// force: struct location in the old state
		r = TV{e.x.loadAt(nil, e.mem, a.blk, a.idx, a.fld, a.typ), a.typ}
	}
	e.mem, e.fr = om, ofr
	return r
}

func (e *Env) call(x *Expr) TV {
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	arg := func(i int) *Term { return e.tm(x.args[i]) }
	switch x.s {
	case "old":
		return e.withOld(func() TV { return e.rv(e.ev(x.args[0])) })
	case "now": // inside old(): in the current state
		if e.now == nil {
			return e.rv(e.ev(x.args[0]))
		}
		return e.now(func() TV { return e.rv(e.ev(x.args[0])) })
	case "entry", "head":
		if e.lc == nil {
			e.fail("%s() outside loop", x.s)
		}
		ls := e.lc.entry
		if x.s == "head" {
			ls = e.lc.head
		}
		ne := &Env{x: e.x, st: ls, mem: ls.mem, old: e.old, vars: e.vars, bindings: e.bindings, fr: e.fr, lc: nil, pkg: e.pkg, n: Num(0)}
		// assumptions generated while evaluating must not be lost: evaluate silently
		r := ne.rv(ne.ev(x.args[0]))
		if a, ok := r.v.(*AddrV); ok {
			r = TV{e.x.loadAt(nil, ne.mem, a.blk, a.idx, a.fld, a.typ), a.typ}
		}
		return r
	case "len":
		tv := e.rv(e.ev(x.args[0]))
		if a, ok := tv.v.(*ArrV); ok {
			return TV{Num(a.n), I}
		}
		t := e.toTerm(tv)
		switch t.sort {
		case SSlc:
			return TV{SLen(t), I}
		case SStr:
			if e.st != nil {
				e.x.strFacts(e.st, t)
			}
			return TV{BLen(t), I}
		}
		e.fail("len of %s", t.sort)
	case "rlen":
		t := arg(0)
		if e.st != nil {
			e.x.strFacts(e.st, t)
		}
		return TV{RLen(t), I}
	case "blen":
		t := arg(0)
		if e.st != nil {
			e.x.strFacts(e.st, t)
		}
		return TV{BLen(t), I}
	case "cap":
		return TV{SCap(arg(0)), I}
	case "blk":
		t := arg(0)
		if t.sort == SPtr {
			return TV{PBlk(t), I}
		}
		return TV{SBlk(t), I}
	case "off":
		t := arg(0)
		if t.sort == SPtr {
			return TV{PIdx(t), I}
		}
		return TV{SOff(t), I}
	case "cont":
		tv := e.rv(e.ev(x.args[0]))
		t := e.toTerm(tv)
		if t.sort == SStr {
			return TV{Runes(t), nil}
		}
		et := tv.t.Underlying().(*types.Slice).Elem()
		return TV{e.x.contentOf(e.mem, et, SBlk(t), Num(0)), nil}
	case "contf": // contf(slice, field): content array of one field of a struct slice
		tv := e.rv(e.ev(x.args[0]))
		t := e.toTerm(tv)
		et := tv.t.Underlying().(*types.Slice).Elem()
		s := structOf(et)
		i := fieldIndex(s, x.args[1].s)
		ft := s.Field(i).Type()
		return TV{e.x.contentOf(e.mem, ft, SBlk(t), Num(int64(fieldOff(s, i)))), nil}
	case "bytes":
		return TV{UF("bytes", arrSort(SInt), arg(0)), nil}
	case "runes":
		return TV{Runes(arg(0)), nil}
	case "mkstr": // mkstr(slice) or mkstr(content, off, len)
		if len(x.args) == 1 {
			tv := e.rv(e.ev(x.args[0]))
			t := e.toTerm(tv)
			et := tv.t.Underlying().(*types.Slice).Elem()
			c := e.x.contentOf(e.mem, et, SBlk(t), Num(0))
			if memTypeName(et) == "uint8" {
				return TV{UF("bstr", SStr, c, SOff(t), SLen(t)), types.Typ[types.String]}
			}
			return TV{e.mkstr(c, SOff(t), SLen(t)), types.Typ[types.String]}
		}
		return TV{e.mkstr(arg(0), arg(1), arg(2)), types.Typ[types.String]}
	case "fresh": // allocated since the old state
		t := arg(0)
		var b *Term
		if t.sort == SPtr {
			b = PBlk(t)
		} else {
			b = SBlk(t)
		}
		return TV{Le(e.old.cnt, b), B}
	case "freshloop":
		t := arg(0)
		var b *Term
		if t.sort == SPtr {
			b = PBlk(t)
		} else {
			b = SBlk(t)
		}
		return TV{Le(e.lc.cntIn, b), B}
	case "upd": // array with one element replaced
		return TV{Store(e.tm(x.args[0]), e.tm(x.args[1]), e.tm(x.args[2])), nil}
	case "oldcnt":
		return TV{e.old.cnt, I}
	case "valid": // allocated before or at the current point, holding elements of its type
		vt := e.rv(e.ev(x.args[0]))
		t := e.toTerm(vt)
		ty := True
		if vt.t != nil {
			if sl, ok := vt.t.Underlying().(*types.Slice); ok {
				ty = typedBlk(SBlk(t), sl.Elem())
			}
			if pt, ok := vt.t.Underlying().(*types.Pointer); ok && structOf(pt.Elem()) != nil && !opaqueStruct(pt.Elem()) {
				ty = And(Eq(PFld(t), Num(0)), typedBlk(PBlk(t), pt.Elem()))
			}
		}
		cnt := Num(0)
		if e.st != nil {
			cnt = e.st.cnt
		}
		if t.sort == SPtr {
			return TV{And(wfPtr(t, cnt), ty), B}
		}
		return TV{And(wfSlc(t, cnt), ty), B}
	case "ite":
		c := arg(0)
		a, b := e.rv(e.ev(x.args[1])), e.rv(e.ev(x.args[2]))
		return TV{Ite(c, e.toTerm(a), e.toTerm(b)), a.t}
	case "unchanged":
		var cs []*Term
		for _, a := range x.args {
			cur := e.rv(e.ev(a))
			old := e.withOld(func() TV { return e.rv(e.ev(a)) })
			cs = append(cs, e.eq(cur, old))
		}
		return TV{And(cs...), B}
	case "samecontent": // samecontent(s): element objects of s (evaluated now) unchanged since old
		tv := e.rv(e.ev(x.args[0]))
		t := e.toTerm(tv)
		et := tv.t.Underlying().(*types.Slice).Elem()
		var cs []*Term
		for _, l := range leavesOf(et) {
			cs = append(cs, Eq(e.x.contentOf(e.mem, l.typ, SBlk(t), Num(int64(l.off))), e.x.contentOf(e.old.mem, l.typ, SBlk(t), Num(int64(l.off)))))
		}
		return TV{And(cs...), B}
	case "app": // application of a function value
		f := e.rv(e.ev(x.args[0]))
		ft := e.toTerm(f)
		ts := []*Term{ft}
		nm := "fnapp"
		for _, a := range x.args[1:] {
			t := e.tm(a)
			ts = append(ts, t)
			nm += "_" + sanitize(t.sort)
		}
		srt := SBool
		var rt types.Type = B
		if f.t != nil {
			if sg, ok := f.t.Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
				srt, _, _ = scalar(sg.Results().At(0).Type())
				rt = sg.Results().At(0).Type()
			}
		}
		return TV{UF(nm+"_0_"+srt, srt, ts...), rt}
	case "int", "rune", "byte", "string":
		tv := e.rv(e.ev(x.args[0]))
		return tv
	case "ext": // ext("name", args...): the uninterpreted result of an effect-free external call
		nm := "x_" + sanitize(x.args[0].s)
		var ts []*Term
		for _, a := range x.args[1:] {
			ts = append(ts, e.tm(a))
		}
		srt := SInt
		if sg, ok := ufSigs[nm]; ok {
			srt = sg.res
		} else if s := extSort(x.args[0].s); s != "" {
			srt = s
		}
		var ty types.Type
		if srt == SStr {
			ty = types.Typ[types.String]
		}
		return TV{UF(nm, srt, ts...), ty}
	case "iface": // the interface value that boxes a pointer
		tv := e.rv(e.ev(x.args[0]))
		return TV{e.x.ifaceTerm(e.toTerm(tv), tv.t), nil}
	case "global": // global("import/path", "Name"): a package-level variable
		if p := e.pkgByPath(x.args[0].s); p != nil {
			if tv, ok := e.pkgObj(p, x.args[1].s); ok {
				return tv
			}
		}
		e.fail("no package-level %s in %s", x.args[1].s, x.args[0].s)
	case "fn": // fn("pkg.Name"): a function as a value
		return TV{UF("fnval_"+sanitize(x.args[0].s), SInt), nil}
	case "zero":
		return TV{UF("zero_"+x.args[0].s, SInt), nil}
	}
	if m, ok := e.x.sp.macros[x.s]; ok {
		if len(m.params) != len(x.args) {
			e.fail("macro %s expects %d arguments", x.s, len(m.params))
		}
		e.depth++
		if e.depth > 40 {
			e.fail("macro recursion")
		}
		var av []TV
		for _, a := range x.args {
			av = append(av, e.rv(e.ev(a)))
		}
		nb := map[string]TV{}
		for k, v := range e.bindings {
			nb[k] = v
		}
		for i, p := range m.params {
			nb[p] = av[i]
		}
		ob := e.bindings
		e.bindings = nb
		r := e.ev(m.body)
		e.bindings = ob
		e.depth--
		return r
	}
	if sg, ok := e.x.sp.smtSig[x.s]; ok {
		if len(sg.args) != len(x.args) {
			e.fail("%s expects %d arguments", x.s, len(sg.args))
		}
		var ts []*Term
		for i, a := range x.args {
			t := e.tm(a)
			if t.sort != sg.args[i] {
				e.fail("%s argument %d: sort %s, want %s (%s)", x.s, i, t.sort, sg.args[i], a.src)
			}
			ts = append(ts, t)
		}
		var ty types.Type
		switch sg.res {
		case SStr:
			ty = types.Typ[types.String]
		case SInt:
			ty = I
		case SBool:
			ty = B
		}
		return TV{App(x.s, sg.res, ts...), ty}
	}
	e.fail("unknown function %s", x.s)
	return TV{}
}

func extSort(n string) string {
	switch {
	case strings.HasPrefix(n, "strings.To"), strings.HasPrefix(n, "strings.Trim"), n == "strconv.Itoa", n == "(github.com/sa6mwa/dtg.DTG).String":
		return SStr
	case strings.HasPrefix(n, "strings.Has"), strings.HasPrefix(n, "strings.Contains"), strings.HasPrefix(n, "unicode.Is"), n == "(time.Time).Before", n == "(time.Time).After", n == "(*github.com/urfave/cli/v2.Context).IsSet":
		return SBool
	}
	return ""
}

func (e *Env) mkstr(c, off, n *Term) *Term {
	if e.st != nil {
		return e.x.mkStr(e.st, c, off, n)
	}
	return UF("mkstr", SStr, c, off, n)
}

// lvalue evaluates a modifies target to write locations (or a ghost name).
func (e *Env) lvalue(x *Expr) (ws []wloc, ghost string, err error) {
	defer e.guard(&err)
	if x.k == "ident" {
		if _, ok := e.x.sp.ghosts[x.s]; ok {
			return nil, x.s, nil
		}
	}
	if x.k == "call" && x.s == "blocks" { // blocks("memory key", b, P): every cell of the blocks b with P
		key, v := x.args[0].s, x.args[1].s
		srt, ok := memSrt[key]
		if !ok {
			srt = keySort(key)
		}
		b := BoundVar("b", SInt)
		e.bindings[v] = TV{b, types.Typ[types.Int]}
		p := e.tm(x.args[2])
		delete(e.bindings, v)
		return []wloc{{key: key, srt: srt, pred: func(o, i *Term) *Term { return Subst(p, map[*Term]*Term{b: proj("oblk", o)}) }}}, "", nil
	}
	if x.k == "call" && x.s == "all" { // all("memory key")
		key := x.args[0].s
		srt, ok := memSrt[key]
		if !ok {
			srt = keySort(key)
		}
		return []wloc{{key: key, srt: srt}}, "", nil
	}
	return e.lv(x), "", nil
}

func keySort(key string) string {
	switch {
	case strings.HasPrefix(key, "slc:"):
		return SSlc
	case strings.HasPrefix(key, "ptr:"):
		return SPtr
	case key == "str":
		return SStr
	case key == "bool":
		return SBool
	case key == "real":
		return SReal
	}
	return SInt
}

// stars counts nested [*]
func stars(x *Expr) int {
	n := 0
	if x.k == "star" {
		n++
	}
	for _, a := range x.args {
		n += stars(a)
	}
	return n
}

func replaceInnerStars(x *Expr, names *[]string, bounds *[]*Expr, outer bool) *Expr {
	c := *x
	c.args = nil
	for _, a := range x.args {
		c.args = append(c.args, replaceInnerStars(a, names, bounds, false))
	}
	if x.k == "star" && !outer {
		nm := fmt.Sprintf("$s%d", len(*names))
		*names = append(*names, nm)
		*bounds = append(*bounds, c.args[0])
		return &Expr{k: "index", args: []*Expr{c.args[0], {k: "ident", s: nm}}, src: x.src}
	}
	return &c
}

// outermostStar: a star node such that no other star encloses it.
func hasStarBelow(x *Expr) bool {
	for _, a := range x.args {
		if stars(a) > 0 {
			return true
		}
	}
	return false
}

func (e *Env) lv(x *Expr) []wloc {
	if stars(x) > 1 || (stars(x) == 1 && !topStar(x)) {
		return e.lvNested(x)
	}
	base, fields, star := peel(x)
	rng := starRange(x)
	if star {
		// s[*] or s[*].f.g
		s := e.rv(e.ev(base))
		t := e.toTerm(s)
		et := s.t.Underlying().(*types.Slice).Elem()
		off := 0
		for _, f := range fields {
			st := structOf(et)
			i := fieldIndex(st, f)
			if i < 0 {
				e.fail("no field %s", f)
			}
			off += fieldOff(st, i)
			et = st.Field(i).Type()
		}
		var ws []wloc
		blk := SBlk(t)
		if !rng && base.k == "unary" && base.s == "*" { // nothing lies behind a nil pointer
			if p := e.toTerm(e.rv(e.ev(base.args[0]))); p.sort == SPtr {
				c := Eq(PBlk(p), Num(0))
				if c != False && (e.st == nil || !e.st.pcset[Not(c)]) {
					blk = Ite(c, Num(0), blk)
				}
			}
		}
		for _, l := range leavesOf(et) {
			srt, key, _ := scalar(l.typ)
			w := wloc{key: key, srt: srt, obj: MkObj(blk, Num(int64(off+l.off)))}
			if rng {
				w.lo, w.hi = SOff(t), Add(SOff(t), SLen(t))
				if base.k == "unary" && base.s == "*" { // nothing lies behind a nil pointer
					if p := e.toTerm(e.rv(e.ev(base.args[0]))); p.sort == SPtr {
						w.hi = Ite(Eq(PBlk(p), Num(0)), w.lo, w.hi)
					}
				}
			}
			ws = append(ws, w)
		}
		return ws
	}
	a := e.addr(x)
	var ws []wloc
	for _, l := range leavesOf(a.typ) {
		srt, key, _ := scalar(l.typ)
		ws = append(ws, wloc{key: key, srt: srt, obj: MkObj(a.blk, Add(a.fld, Num(int64(l.off)))), idx: a.idx})
	}
	return ws
}

// peel matches base[*].f.g
func peel(x *Expr) (base *Expr, fields []string, star bool) {
	switch x.k {
	case "star":
		return x.args[0], nil, true
	case "field":
		b, f, s := peel(x.args[0])
		if s {
			return b, append(f, x.s), true
		}
	}
	return x, nil, false
}

// starRange: the outermost star is [:], elements within the length only
func starRange(x *Expr) bool {
	for x.k == "field" {
		x = x.args[0]
	}
	return x.k == "star" && x.s == "rng"
}

func topStar(x *Expr) bool {
	b, _, s := peel(x)
	return s && stars(b) == 0
}

// lvNested handles set-valued targets such as k.Keys[*].Runes[*] by a membership predicate.
func (e *Env) lvNested(x *Expr) []wloc {
	// replace all stars except an outermost trailing one by bound indices
	var names []string
	var bounds []*Expr
	_, _, outer := peel(x)
	var y *Expr
	if outer {
		// keep the peeled star
		var rec func(z *Expr) *Expr
		rec = func(z *Expr) *Expr {
			c := *z
			if z.k == "star" {
				c.args = []*Expr{replaceInnerStars(z.args[0], &names, &bounds, false)}
				return &c
			}
			c.args = []*Expr{rec(z.args[0])}
			return &c
		}
		y = rec(x)
	} else {
		y = replaceInnerStars(x, &names, &bounds, false)
	}
	var bs []*Term
	var rng []*Term
	for i, n := range names {
		b := BoundVar("s", SInt)
		e.bindings[n] = TV{b, types.Typ[types.Int]}
		bs = append(bs, b)
		sl := e.tm(bounds[i])
		rng = append(rng, And(Le(Num(0), b), Lt(b, SLen(sl))))
	}
	in := e.lv(y)
	for _, n := range names {
		delete(e.bindings, n)
	}
	var out []wloc
	for _, w := range in {
		w := w
		out = append(out, wloc{key: w.key, srt: w.srt, pred: func(o, i *Term) *Term {
			c := append(append([]*Term{}, rng...), Eq(w.obj, o))
			if w.idx != nil {
				if i == nil {
					return False
				}
				c = append(c, Eq(w.idx, i))
			}
			if w.lo != nil {
				if i == nil {
					return False
				}
				c = append(c, Le(w.lo, i), Lt(i, w.hi))
			}
			if len(bs) == 1 {
				return Or(autoTrig(bs, And(c...), Exists)...)
			}
			return Exists(bs, And(c...))
		}})
	}
	return out
}
