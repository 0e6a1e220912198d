package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	t types.Type
	f []Val
}
type ArrV struct {
	content *Term
	base    *Term
	n       int64
	elem    types.Type
}
type TupleV struct{ v []Val }
type ClosV struct {
	fn    *ssa.Function
	binds []Val
}
type LocV struct {
	cell cellKey
	path []int
	idx  *Term // array element
	typ  types.Type
}
type IfaceV struct { // known dynamic value boxed in an interface
	t   *Term
	v   Val
	typ types.Type
}

type regKey struct {
	f int
	v ssa.Value
}
type cellKey struct {
	f int
	a *ssa.Alloc
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type State struct {
	regs   map[regKey]Val
	cells  map[cellKey]Val
	order  map[cellKey]int
	mem    map[string]*Term
	cnt    *Term
	pc     []*Term
	pcset  map[*Term]bool
	defers map[int][]deferred
	loops  []*loopCtx
	ob     map[*Term]int
	trace  []string
	ncalls map[string]int
}

func (s *State) clone() *State {
	n := &State{cnt: s.cnt}
	n.regs = make(map[regKey]Val, len(s.regs))
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.cells = make(map[cellKey]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.order = make(map[cellKey]int, len(s.order))
	for k, v := range s.order {
		n.order[k] = v
	}
	n.mem = make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.pc = append([]*Term{}, s.pc...)
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]deferred{}, v...)
	}
	n.loops = append([]*loopCtx{}, s.loops...)
	n.ob = make(map[*Term]int, len(s.ob))
	for k, v := range s.ob {
		n.ob[k] = v
	}
	n.trace = append([]string{}, s.trace...)
	n.ncalls = map[string]int{}
	for k, v := range s.ncalls {
		n.ncalls[k] = v
	}
	return n
}

type snap struct {
	mem map[string]*Term
	cnt *Term
}

func (s *State) snapshot() *snap {
	m := make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &snap{m, s.cnt}
}

type Frame struct {
	id     int
	fn     *ssa.Function
	params []Val
	free   []Val
	onRet  func(*State, []Val)
	parent *Frame
	depth  int
	con    *Contract // contract of fn (loop invariants)
	root   *Frame
	entry  *snap
	lets   map[string]TV
}

type wloc struct {
	key  string
	srt  string
	obj  *Term // nil: any object
	idx  *Term // nil: any index
	lo   *Term // with hi: only indices lo <= i < hi (idx nil)
	hi   *Term
	pred func(obj, idx *Term) *Term // membership, for set-valued targets (obj nil)
}

type loopCtx struct {
	frame   *Frame
	loop    *Loop
	entry   *State // state at first arrival (snapshot clone)
	head    *State // state at the loop head in the current iteration
	W       []wloc
	ghostW  map[string]bool
	cntIn   *Term
	n       *Term
	solved  map[*ssa.Alloc]*Term // expected step
	solvedI map[*ssa.Alloc]*Term // initial value
	unroll  int
	iter    int
	invs    []*loopInv
	dry     bool
	rec     *recorder
	havoc   map[*Term]*Term
	hvals   map[*ssa.Alloc]Val
	expect  map[*Term]*big.Int
	heads   *havocRes
	real    map[*Term]*Term
	steps   map[*Term]*big.Int
}

type loopInv struct {
	id      string
	name    string
	ev      func(st *State, lc *loopCtx, n *Term, goal bool) (*Term, error)
	noentry bool
	dead    bool
	auto    bool
	tags    []string
}

type recorder struct {
	writes  []wloc
	ghosts  map[string]bool
	backs   []*State
	startID int
}

type Obligation struct {
	fn      string
	kind    string
	name    string
	tags    []string
	pos     string
	assumes []*Term
	goal    *Term
	cand    string
	query   string
	fquery  string // with fewer assumptions, tried first
	res     solveRes
	trivial bool
	trace   string
	slow    int
}

type Exec struct {
	sens      *sensInfo
	boxed     map[*Term]bool
	labels    map[*Term]string
	boxT      map[int]types.Type
	w         *World
	sp        *Specs
	prop      string
	fn        *ssa.Function
	con       *Contract
	name      string
	obls      []*Obligation
	dropped   map[string]bool
	dry       []*loopCtx
	nframe    int
	serial    int
	fresh     map[*Term]int
	root      *Frame
	old       *snap
	modSet    []wloc
	modGh     map[string]bool
	paths     int
	maxp      int
	errs      []string
	used      map[string]bool // contracts used
	trusted   map[string]bool
	inlined   map[string]bool
	assumed   map[string]bool
	gblk      map[string]*Term
	constM    map[*Term]map[*Term]*Term
	initFacts []*Term
	retCount  int
	joins     map[joinKey][]arrival
	seq       int
	sink      func(*Obligation)
	slow      int
	obSeen    map[string]bool
	safetyOn  bool
	poolMode  bool
	facts     map[*Term]bool
	wcond     *Term
	onCover   func([]*Term)
	dryFeas   bool
	notes     []string
}

var memSrt = map[string]string{}

const globalLimit = 1000

func newExec(w *World, prop string, fn *ssa.Function, con *Contract) *Exec {
	x := &Exec{w: w, sp: w.specs, prop: prop, fn: fn, con: con, dropped: map[string]bool{}, fresh: map[*Term]int{},
		used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, gblk: map[string]*Term{},
		constM: map[*Term]map[*Term]*Term{}, maxp: 6000, obSeen: map[string]bool{}, facts: map[*Term]bool{}}
	x.name = shortName(fn)
	if con != nil && con.maxpaths > 0 {
		x.maxp = con.maxpaths
	}
	return x
}

// ---- knowledge about blocks ------------------------------------------------

func (x *Exec) install(st *State) {
	distinctHook = func(a, b *Term) bool { return x.blkDistinct(st, a, b, 0) }
}

func (x *Exec) blkDistinct(st *State, a, b *Term, d int) bool {
	if d > 4 {
		return false
	}
	if a.kind == kApp && a.op == "ite" {
		return x.blkDistinct(st, a.args[1], b, d+1) && x.blkDistinct(st, a.args[2], b, d+1)
	}
	if b.kind == kApp && b.op == "ite" {
		return x.blkDistinct(st, b, a, d+1)
	}
	if a == b {
		return false
	}
	fa, oka := x.fresh[a]
	fb, okb := x.fresh[b]
	if oka && okb {
		return true
	}
	if oka {
		if o, ok := st.ob[b]; ok && o <= fa {
			return true
		}
		if b.kind == kNum {
			return true
		}
	}
	if okb {
		if o, ok := st.ob[a]; ok && o <= fb {
			return true
		}
		if a.kind == kNum {
			return true
		}
	}
	if st.pcset[Not(Eq(a, b))] {
		return true
	}
	return false
}

func (x *Exec) newBlock(st *State, hint string, et types.Type) *Term {
	b := Fresh("new_"+hint, SInt)
	x.serial++
	x.fresh[b] = x.serial
	x.assume(st, Le(st.cnt, b))
	x.assume(st, typedBlk(b, et))
	st.cnt = Add(b, Num(1))
	st.ob[b] = x.serial + 1
	return b
}

func (x *Exec) bumpCnt(st *State) {
	c := Fresh("cnt", SInt)
	x.assume(st, Le(st.cnt, c))
	st.cnt = c
	x.serial++
}

func (x *Exec) known(st *State, blk *Term) {
	if blk.kind == kNum {
		return
	}
	if blk.kind == kApp && blk.op == "ite" {
		x.known(st, blk.args[1])
		x.known(st, blk.args[2])
		return
	}
	if _, ok := st.ob[blk]; !ok {
		st.ob[blk] = x.serial + 1
	}
}

func (x *Exec) assume(st *State, t *Term) {
	if t == True || st.pcset[t] {
		return
	}
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
}

// assumeL: assume with the label of the clause it comes from, for the focused first attempt at an obligation.
func (x *Exec) assumeL(st *State, t *Term, label string) {
	if strings.Contains(label, "_") && !strings.ContainsAny(label, " ()") {
		x.setLabel(t, label)
	}
	x.assume(st, t)
}

func (x *Exec) setLabel(t *Term, label string) {
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			x.setLabel(a, label)
		}
		return
	}
	if x.labels == nil {
		x.labels = map[*Term]string{}
	}
	x.labels[t] = label
}

// focus drops assumptions that belong to a family of sibling clauses (three or more labels with the same prefix
// up to the first underscore) other than the one with the goal's own suffix.  Dropping assumptions is sound; when
// the focused attempt does not prove the goal the full set is used.
func (x *Exec) focus(assumes []*Term, name string) []*Term {
	fam := map[string]map[string]bool{}
	for _, a := range assumes {
		if l := x.labels[a]; l != "" {
			p := l[:strings.Index(l, "_")]
			if fam[p] == nil {
				fam[p] = map[string]bool{}
			}
			fam[p][l] = true
		}
	}
	if i := strings.LastIndex(name, ": "); i >= 0 {
		name = name[i+2:]
	}
	suf := "\x00"
	if i := strings.Index(name, "_"); i >= 0 && !strings.ContainsAny(name, " ()") {
		suf = name[i:]
	}
	var out []*Term
	n := 0
	for _, a := range assumes {
		if l := x.labels[a]; l != "" {
			i := strings.Index(l, "_")
			if len(fam[l[:i]]) >= 3 && l[i:] != suf {
				n++
				continue
			}
		}
		out = append(out, a)
	}
	if n < 3 {
		return nil
	}
	return out
}

func infeasible(st *State) bool { return st.pcset[False] }

// wfTerm: well-formedness of a value of type t w.r.t. allocation counter.
func wfSlc(v, cnt *Term) *Term {
	return And(Le(Num(0), SBlk(v)), Lt(SBlk(v), cnt), Le(Num(0), SOff(v)), Le(Num(0), SLen(v)), Le(SLen(v), SCap(v)),
		Implies(Eq(SBlk(v), Num(0)), And(Eq(SCap(v), Num(0)), Eq(SLen(v), Num(0)))))
}
func wfPtr(v, cnt *Term) *Term {
	return And(Le(Num(0), PBlk(v)), Lt(PBlk(v), cnt), Implies(Eq(PBlk(v), Num(0)), And(Eq(PIdx(v), Num(0)), Eq(PFld(v), Num(0)))))
}

// typedBlk: an allocation holds elements of one type (memory is typed, no unsafe code).
var blkTypes = map[string]int64{}
var blkTypesMu sync.Mutex

func typedBlk(b *Term, et types.Type) *Term {
	n := memTypeName(et)
	if at, ok := under(et).(*types.Array); ok {
		n = memTypeName(at.Elem())
	}
	blkTypesMu.Lock()
	c, ok := blkTypes[n]
	if !ok {
		c = int64(len(blkTypes) + 1)
		blkTypes[n] = c
	}
	blkTypesMu.Unlock()
	if b.kind == kNum {
		return True
	}
	return Or(Le(b, Num(0)), Eq(UF("btype", SInt, b), Num(c)))
}

func (x *Exec) assumeWF(st *State, v *Term, t types.Type) {
	if v.open {
		return
	}
	switch v.sort {
	case SSlc:
		if isCtor(v) && v.args[0].kind == kNum {
			return
		}
		x.assume(st, wfSlc(v, st.cnt))
		x.known(st, SBlk(v))
		if sl, ok := under(t).(*types.Slice); ok {
			x.assume(st, typedBlk(SBlk(v), sl.Elem()))
		}
	case SPtr:
		if isCtor(v) && v.args[0].kind == kNum {
			return
		}
		x.assume(st, wfPtr(v, st.cnt))
		x.known(st, PBlk(v))
		if p, ok := under(t).(*types.Pointer); ok {
			if structOf(p.Elem()) != nil && !opaqueStruct(p.Elem()) {
				x.assume(st, Eq(PFld(v), Num(0)))
				x.assume(st, typedBlk(PBlk(v), p.Elem()))
			}
		}
	case SInt:
		if v.kind == kNum {
			return
		}
		if lo, hi, ok := intRange(t); ok {
			l, _ := new(big.Int).SetString(lo, 10)
			h, _ := new(big.Int).SetString(hi, 10)
			if l.BitLen() < 40 {
				x.assume(st, And(Le(BigNum(l), v), Le(v, BigNum(h))))
			}
		}
	case SStr:
		x.strFacts(st, v)
	}
}

// ---- memory -------------------------------------------------------------------

func (x *Exec) memOf(mem map[string]*Term, key, srt string) *Term {
	if m, ok := mem[key]; ok {
		return m
	}
	memSrt[key] = srt
	m := Sym("M0_"+sanitize(key), memSort(srt))
	mem[key] = m
	return m
}

func (x *Exec) selObj(m, obj *Term) *Term {
	r := Select(m, obj)
	if r.kind == kApp && r.op == "select" {
		if cm, ok := x.constM[r.args[0]]; ok {
			if c, ok := cm[obj]; ok {
				return c
			}
		}
	}
	return r
}

func (x *Exec) loadLeaf(mem map[string]*Term, t types.Type, blk, idx, fld *Term) *Term {
	srt, key, ok := scalar(t)
	if !ok {
		panic("loadLeaf of non-scalar " + t.String())
	}
	m := x.memOf(mem, key, srt)
	if r := x.constLoad(key, blk, fld, idx); r != nil {
		return r
	}
	if x.con != nil && x.con.lenient {
		return Fresh("any", srt)
	}
	return Select(x.selObj(m, MkObj(blk, fld)), idx)
}

// constLoad reads a package-level table that is never written: its contents do not depend on the memory.
func (x *Exec) constLoad(key string, blk, fld, idx *Term) *Term {
	switch {
	case blk.kind == kNum:
		arr, ok := x.constM[Sym("M0_"+sanitize(key), memSort(memSrt[key]))][MkObj(blk, fld)]
		if !ok {
			return nil
		}
		if tb := constTables[arr]; idx.kind != kNum && len(tb) > 0 && len(tb) <= 4 && tb[0].sort == SSlc {
			r := tb[len(tb)-1]
			for i := len(tb) - 2; i >= 0; i-- {
				r = Ite(Eq(idx, Num(int64(i))), tb[i], r)
			}
			return r
		}
		return Select(arr, idx)
	case blk.kind == kApp && blk.op == "ite":
		a := x.constLoad(key, blk.args[1], fld, idx)
		if a == nil {
			return nil
		}
		b := x.constLoad(key, blk.args[2], fld, idx)
		if b == nil {
			return nil
		}
		return Ite(blk.args[0], a, b)
	}
	return nil
}

// load a value of type t at pointer p
func (x *Exec) load(st *State, mem map[string]*Term, p *Term, t types.Type) Val {
	return x.loadAt(st, mem, PBlk(p), PIdx(p), PFld(p), t)
}
func (x *Exec) loadAt(st *State, mem map[string]*Term, blk, idx, fld *Term, t types.Type) Val {
	if _, _, ok := scalar(t); ok {
		v := x.loadLeaf(mem, t, blk, idx, fld)
		if st != nil {
			x.assumeWF(st, v, t)
		}
		return v
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.loadAt(st, mem, blk, idx, Add(fld, Num(int64(fieldOff(u, i)))), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if srt, key, ok := scalar(u.Elem()); ok {
			m := x.memOf(mem, key, srt)
			return &ArrV{content: x.selObj(m, MkObj(blk, fld)), base: idx, n: u.Len(), elem: u.Elem()}
		}
	}
	panic(fmt.Sprintf("load of unsupported type %s", t))
}

func (x *Exec) storeAt(st *State, blk, idx, fld *Term, t types.Type, v Val) {
	if srt, key, ok := scalar(t); ok {
		tv := x.asTerm(st, v)
		x.writeCell(st, key, srt, MkObj(blk, fld), idx, tv)
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			x.storeAt(st, blk, idx, Add(fld, Num(int64(fieldOff(u, i)))), u.Field(i).Type(), sv.f[i])
		}
		return
	case *types.Array:
		av := v.(*ArrV)
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				x.storeAt(st, blk, Add(idx, Num(i)), fld, u.Elem(), Select(av.content, Add(av.base, Num(i))))
			}
			return
		}
	}
	panic(fmt.Sprintf("store of unsupported type %s", t))
}

func (x *Exec) writeCell(st *State, key, srt string, obj, idx, v *Term) {
	x.install(st)
	x.checkWrite(st, wloc{key: key, srt: srt, obj: obj, idx: idx})
	m := x.memOf(st.mem, key, srt)
	st.mem[key] = Store(m, obj, Store(x.selObj(m, obj), idx, v))
}

func (x *Exec) writeObj(st *State, key, srt string, obj, content *Term) {
	x.install(st)
	x.checkWrite(st, wloc{key: key, srt: srt, obj: obj})
	m := x.memOf(st.mem, key, srt)
	st.mem[key] = Store(m, obj, content)
}

// writeObjNoCheck: initialisation of a fresh object
func (x *Exec) initObj(st *State, key, srt string, obj, content *Term) {
	m := x.memOf(st.mem, key, srt)
	st.mem[key] = Store(m, obj, content)
}

func (x *Exec) blkFreshSince(st *State, blk, cnt *Term) *Term {
	// blk >= cnt, decided syntactically for fresh symbols when possible
	if blk.kind == kApp && blk.op == "ite" {
		return Ite(blk.args[0], x.blkFreshSince(st, blk.args[1], cnt), x.blkFreshSince(st, blk.args[2], cnt))
	}
	return Le(cnt, blk)
}

// inSet: the cell (o, i) of memory key belongs to the set.
func inSet(set []wloc, key string, o, i *Term) *Term {
	var alts []*Term
	for _, a := range set {
		if a.key != key {
			continue
		}
		if a.pred != nil {
			alts = append(alts, a.pred(o, i))
			continue
		}
		if a.obj == nil {
			return True
		}
		c := Eq(a.obj, o)
		if a.idx != nil {
			c = And(c, Eq(a.idx, i))
		}
		if a.lo != nil {
			c = And(c, Le(a.lo, i), Lt(i, a.hi))
		}
		alts = append(alts, c)
	}
	return Or(alts...)
}

func (x *Exec) allowed(st *State, w wloc, set []wloc, cnt *Term) *Term {
	if w.lo != nil {
		if s, ok := x.fresh[w.obj.args[0]]; ok {
			if c, ok2 := x.cntSerial(cnt); ok2 && s > c {
				return True
			}
		}
		// whole object allowed?
		for _, a := range set {
			if a.key == w.key && (a.obj == w.obj && a.idx == nil && a.lo == nil || a.obj == nil && a.pred == nil) {
				return True
			}
		}
		i := Fresh("anyidx", SInt)
		return Implies(And(Le(w.lo, i), Lt(i, w.hi)), Or(x.blkFreshSince(st, w.obj.args[0], cnt), inSet(set, w.key, w.obj, i)))
	}
	if w.obj == nil && w.pred == nil {
		for _, a := range set {
			if a.key == w.key && a.obj == nil && a.pred == nil {
				return True
			}
		}
		return False
	}
	if w.pred != nil {
		for _, a := range set {
			if a.key == w.key && a.obj == nil && a.pred == nil {
				return True
			}
		}
		o := MkObj(Fresh("anyblk", SInt), Fresh("anyfld", SInt))
		i := Fresh("anyidx", SInt)
		var alts []*Term
		for _, a := range set {
			if a.key != w.key {
				continue
			}
			if a.pred != nil {
				alts = append(alts, a.pred(o, i))
			} else if a.obj != nil {
				c := Eq(a.obj, o)
				if a.idx != nil {
					c = And(c, Eq(a.idx, i))
				}
				if a.lo != nil {
					c = And(c, Le(a.lo, i), Lt(i, a.hi))
				}
				alts = append(alts, c)
			}
		}
		alts = append(alts, Le(cnt, o.args[0]))
		return Implies(w.pred(o, i), Or(alts...))
	}
	blk := w.obj.args[0]
	if s, ok := x.fresh[blk]; ok {
		if c, ok2 := x.cntSerial(cnt); ok2 && s > c {
			return True
		}
	}
	var alts []*Term
	for _, a := range set {
		if a.key != w.key {
			continue
		}
		if a.obj == nil {
			if a.pred == nil {
				return True
			}
			alts = append(alts, a.pred(w.obj, w.idx))
			continue
		}
		if (a.idx != nil || a.lo != nil) && w.idx == nil {
			continue
		}
		c := Eq(a.obj, w.obj)
		if a.idx != nil {
			c = And(c, Eq(a.idx, w.idx))
		}
		if a.lo != nil {
			c = And(c, Le(a.lo, w.idx), Lt(w.idx, a.hi))
		}
		if c == True {
			return True
		}
		alts = append(alts, c)
	}
	if blk == Num(0) {
		return True
	}
	alts = append(alts, Eq(blk, Num(0))) // nothing is stored through nil
	alts = append([]*Term{x.blkFreshSince(st, blk, cnt)}, alts...)
	return Or(alts...)
}

var cntSerials = map[*Term]int{}

func (x *Exec) cntSerial(c *Term) (int, bool) {
	s, ok := cntSerials[c]
	return s, ok
}

func (x *Exec) checkWrite(st *State, w wloc) {
	if len(x.dry) > 0 {
		r := x.dry[len(x.dry)-1].rec
		w.lo, w.hi = nil, nil
		r.writes = append(r.writes, w)
		return
	}
	for _, lc := range st.loops {
		if lc.unroll > 0 || lc.dry {
			continue
		}
		g := x.allowed(st, w, lc.W, lc.cntIn)
		if x.wcond != nil {
			g = Implies(x.wcond, g)
		}
		if g != True {
			x.oblige(st, "loop-frame", fmt.Sprintf("loop %d of %s writes only what its frame allows (%s)", lc.loop.ord, shortName(lc.loop.fn), w.key), nil, g, token.NoPos)
		}
	}
	if x.modSet != nil || x.con != nil && !x.con.noframe && x.con.modAll == false {
		if x.con != nil && x.con.noframe {
			return
		}
		g := x.allowed(st, w, x.modSet, x.old.cnt)
		if x.wcond != nil {
			g = Implies(x.wcond, g)
		}
		if g != True {
			x.oblige(st, "frame", "writes only what modifies allows ("+w.key+")", nil, g, token.NoPos)
		}
	}
}

func (x *Exec) ghostWrite(st *State, name string) {
	if len(x.dry) > 0 {
		x.dry[len(x.dry)-1].rec.ghosts[name] = true
		return
	}
	for _, lc := range st.loops {
		if lc.unroll > 0 {
			continue
		}
		if !lc.ghostW[name] {
			x.oblige(st, "loop-frame", "ghost "+name+" changes in loop", nil, False, token.NoPos)
		}
	}
	if x.con != nil && !x.con.noframe && !x.modGh[name] {
		x.oblige(st, "frame", "ghost "+name+" not in modifies", nil, False, token.NoPos)
	}
}

// ---- obligations ---------------------------------------------------------------

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (x *Exec) oblige(st *State, kind, name string, tags []string, goal *Term, pos token.Pos) {
	x.obligeC(st, kind, name, tags, goal, pos, "")
}

func (x *Exec) obligeC(st *State, kind, name string, tags []string, goal *Term, pos token.Pos, cand string) {
	if len(x.dry) > 0 || infeasible(st) {
		return
	}
	if x.con != nil && x.con.lenient && kind != "unsupported" && kind != "tool" && cand == "" && !(kind == "requires" && hasTag(tags, x.prop)) {
		return
	}
	if goal.kind == kApp && goal.op == "and" {
		for _, g := range goal.args {
			x.obligeC(st, kind, name, tags, g, pos, cand)
		}
		return
	}
	o := &Obligation{fn: x.name, kind: kind, name: name, tags: tags, goal: goal, pos: x.posStr(pos), cand: cand, slow: x.slow}
	if goal == True || st.pcset[goal] {
		o.trivial = true
		o.res = solveRes{status: "unsat", solver: "simplifier"}
	} else {
		o.assumes = append(append([]*Term{}, st.pc...), x.initFacts...)
		o.trace = strings.Join(st.trace, " > ")
		o.query = buildQuery(o.assumes, goal)
		if f := x.focus(o.assumes, name); f != nil {
			o.fquery = buildQuery(f, goal)
		}
	}
	x.obls = append(x.obls, o)
	if x.sink != nil {
		x.sink(o)
	}
}

// safety obligation: generated when the property asks for panic freedom, then assumed.
func (x *Exec) safety(st *State, name string, goal *Term, pos token.Pos) {
	if goal == True || st.pcset[goal] {
		return
	}
	if x.safetyOn {
		x.oblige(st, "safety", name, nil, goal, pos)
	}
	x.assume(st, goal)
}

func (x *Exec) unsupported(st *State, msg string, pos token.Pos) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "unsupported:", x.name, msg, x.posStr(pos))
	}
	x.oblige(st, "unsupported", msg, nil, False, pos)
	x.errs = append(x.errs, fmt.Sprintf("%s: unsupported: %s at %s", x.name, msg, x.posStr(pos)))
}

type abortExec struct{ msg string }

// ---- values ----------------------------------------------------------------------

func (x *Exec) zero(t types.Type) Val {
	if srt, _, ok := scalar(t); ok {
		return x.zeroTerm(srt, t)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if srt, _, ok := scalar(u.Elem()); ok {
			return &ArrV{content: ConstArr(arrSort(srt), x.zeroTerm(srt, u.Elem())), base: Num(0), n: u.Len(), elem: u.Elem()}
		}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, x.zero(u.At(i).Type()))
		}
		return tv
	}
	panic("zero of " + t.String())
}

func (x *Exec) zeroTerm(srt string, t types.Type) *Term {
	switch srt {
	case SInt:
		if opaqueStruct(t) {
			return UF("zero_"+sanitize(shortType(t)), SInt)
		}
		return Num(0)
	case SBool:
		return False
	case SReal:
		return realNum("0.0")
	case SStr:
		return strConst("")
	case SPtr:
		return NilPtr
	case SSlc:
		return NilSlc
	}
	panic("zeroTerm " + srt)
}

func realNum(s string) *Term { return intern(&Term{op: s, kind: kApp, sort: SReal}) }

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	if srt, _, ok := scalar(t); ok {
		v := Fresh(name, srt)
		if srt == SSlc {
			v = MkSlc(Fresh(name+"_blk", SInt), Fresh(name+"_off", SInt), Fresh(name+"_len", SInt), Fresh(name+"_cap", SInt))
		} else if srt == SPtr {
			f := Fresh(name+"_fld", SInt)
			if p, ok := under(t).(*types.Pointer); ok && structOf(p.Elem()) != nil && !opaqueStruct(p.Elem()) {
				v = MkPtr(Fresh(name+"_blk", SInt), Fresh(name+"_idx", SInt), Num(0))
			} else {
				v = MkPtr(Fresh(name+"_blk", SInt), Fresh(name+"_idx", SInt), f)
			}
		}
		x.assumeWF(st, v, t)
		return v
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if srt, _, ok := scalar(u.Elem()); ok {
			return &ArrV{content: Fresh(name, arrSort(srt)), base: Num(0), n: u.Len(), elem: u.Elem()}
		}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, x.freshVal(st, fmt.Sprintf("%s%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	panic("freshVal of " + t.String())
}

func (x *Exec) asTerm(st *State, v Val) *Term {
	switch y := v.(type) {
	case *Term:
		return y
	case *IfaceV:
		return y.t
	case *ClosV:
		// opaque function value
		if len(y.binds) == 0 {
			s := UF("fnval_"+sanitize(shortName(y.fn)), SInt)
			x.assume(st, Not(Eq(s, Num(0))))
			return s
		}
		s := Fresh("clos_"+shortName(y.fn), SInt)
		x.assume(st, Not(Eq(s, Num(0))))
		return s
	case *LocV:
		panic(abortExec{"address of register variable escapes"})
	}
	panic(abortExec{fmt.Sprintf("asTerm of %T", v)})
}

// string constants
var strConsts = map[string]*Term{}
var strVals = map[*Term]string{}

func strConst(s string) *Term {
	if t, ok := strConsts[s]; ok {
		return t
	}
	t := Sym(fmt.Sprintf("str!%d", len(strConsts)), SStr)
	strConsts[s] = t
	strVals[t] = s
	return t
}

func RLen(s *Term) *Term {
	if v, ok := strVals[s]; ok {
		return Num(int64(len([]rune(v))))
	}
	return UF("rlen", SInt, s)
}
func BLen(s *Term) *Term {
	if v, ok := strVals[s]; ok {
		return Num(int64(len(v)))
	}
	return UF("blen", SInt, s)
}

// Runes(s): content array of []rune(s)
func Runes(s *Term) *Term {
	r := UF("runes", arrSort(SInt), s)
	return r
}

func (x *Exec) strFacts(st *State, s *Term) {
	if s.open {
		return
	}
	if v, ok := strVals[s]; ok {
		rs := []rune(v)
		for i, r := range rs {
			if i > 60 {
				break
			}
			x.assume(st, Eq(Select(Runes(s), Num(int64(i))), Num(int64(r))))
		}
		x.assume(st, UF("runestr", SBool, s))
		// keep uninterpreted functions consistent with the literal
		x.assume(st, App("=", SBool, UF("rlen", SInt, s), Num(int64(len(rs)))))
		x.assume(st, App("=", SBool, UF("blen", SInt, s), Num(int64(len(v)))))
		return
	}
	rl, bl := RLen(s), BLen(s)
	x.assume(st, And(Le(Num(0), rl), Le(rl, bl), Le(bl, Mul(Num(4), rl)), Implies(Eq(rl, Num(0)), Eq(s, strConst("")))))
}

// MkStr: string(runes) of content c[off..off+n)
func (x *Exec) mkStr(st *State, c, off, n *Term) *Term {
	s := UF("mkstr", SStr, c, off, n)
	if !s.open {
		x.assume(st, Eq(RLen(s), Ite(Le(n, Num(0)), Num(0), n)))
		x.assume(st, UF("runestr", SBool, s))
		j := BoundVar("j", SInt)
		x.assume(st, Forall([]*Term{j}, Implies(And(Le(Num(0), j), Lt(j, n)),
			Eq(Select(Runes(s), j), UF("normrune", SInt, Select(c, Add(off, j))))), []*Term{Select(Runes(s), j)}))
		x.strFacts(st, s)
	}
	return s
}

// strEq: a == b on strings, with an extensionality instance.
func (x *Exec) strEq(st *State, a, b *Term) *Term {
	e := Eq(a, b)
	if e == True || e.open {
		return e
	}
	if st != nil {
		x.strFacts(st, a)
		x.strFacts(st, b)
		d := UF("strdiff", SInt, a, b)
		ext := Or(e, Not(Eq(RLen(a), RLen(b))), Not(UF("runestr", SBool, a)), Not(UF("runestr", SBool, b)),
			And(Le(Num(0), d), Lt(d, RLen(a)), Not(Eq(Select(Runes(a), d), Select(Runes(b), d)))))
		x.assume(st, ext)
	}
	return e
}

// ---- wrap-around --------------------------------------------------------------------

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func wrapInt(t *Term, ty types.Type) *Term {
	bits, signed, ok := wrapBits(ty)
	if !ok {
		return t
	}
	if t.kind == kNum {
		m := new(big.Int).Mod(t.num, pow2(bits))
		if signed && m.Cmp(pow2(bits-1)) >= 0 {
			m.Sub(m, pow2(bits))
		}
		return BigNum(m)
	}
	mod := BigNum(pow2(bits))
	if signed {
		h := BigNum(pow2(bits - 1))
		in := And(Le(Neg(h), t), Lt(t, h))
		return Ite(in, t, Sub(ModT(Add(t, h), mod), h))
	}
	in := And(Le(Num(0), t), Lt(t, mod))
	return Ite(in, t, ModT(t, mod))
}

// inRange: syntactic knowledge that t is in the range of ty on this path
func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	bits, signed, ok := wrapBits(ty)
	if !ok || t.kind == kNum {
		return wrapInt(t, ty)
	}
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
	if signed {
		lo = new(big.Int).Neg(pow2(bits - 1))
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	if l, h, ok := x.bounds(st, t, 0); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	return wrapInt(t, ty)
}

// bounds: cheap interval analysis using path facts of the form c<=t, t<=c.
func (x *Exec) bounds(st *State, t *Term, d int) (lo, hi *big.Int, ok bool) {
	if d > 8 {
		return
	}
	if t.kind == kNum {
		return t.num, t.num, true
	}
	var l, h *big.Int
	for _, p := range st.pc {
		if p.kind == kApp && p.op == "<=" {
			a, b := p.args[0], p.args[1]
			if b == t && a.kind == kNum && (l == nil || a.num.Cmp(l) > 0) {
				l = a.num
			}
			if a == t && b.kind == kNum && (h == nil || b.num.Cmp(h) < 0) {
				h = b.num
			}
			// forms like (+ t c) <= k
			if b.kind == kNum && a.kind == kApp && a.op == "+" && len(a.args) == 2 && a.args[0] == t && a.args[1].kind == kNum {
				v := new(big.Int).Sub(b.num, a.args[1].num)
				if h == nil || v.Cmp(h) < 0 {
					h = v
				}
			}
		}
		if p.kind == kApp && p.op == "=" && p.args[0] == t && p.args[1].kind == kNum {
			return p.args[1].num, p.args[1].num, true
		}
	}
	if l != nil && h != nil {
		return l, h, true
	}
	if t.kind == kApp {
		switch t.op {
		case "+":
			sl, sh := big.NewInt(0), big.NewInt(0)
			for _, a := range t.args {
				al, ah, ok2 := x.bounds(st, a, d+1)
				if !ok2 {
					return l, h, false
				}
				sl = new(big.Int).Add(sl, al)
				sh = new(big.Int).Add(sh, ah)
			}
			return sl, sh, true
		case "*":
			if t.args[0].kind == kNum {
				al, ah, ok2 := x.bounds(st, t.args[1], d+1)
				if !ok2 {
					return nil, nil, false
				}
				p, q := new(big.Int).Mul(t.args[0].num, al), new(big.Int).Mul(t.args[0].num, ah)
				if p.Cmp(q) > 0 {
					p, q = q, p
				}
				return p, q, true
			}
		case "mod":
			if t.args[1].kind == kNum && t.args[1].num.Sign() > 0 {
				return big.NewInt(0), new(big.Int).Sub(t.args[1].num, big.NewInt(1)), true
			}
		case "ite":
			al, ah, ok1 := x.bounds(st, t.args[1], d+1)
			bl, bh, ok2 := x.bounds(st, t.args[2], d+1)
			if ok1 && ok2 {
				if bl.Cmp(al) < 0 {
					al = bl
				}
				if bh.Cmp(ah) > 0 {
					ah = bh
				}
				return al, ah, true
			}
		}
	}
	return nil, nil, false
}

// Go truncated division
func goDiv(a, b *Term) *Term {
	if b.kind == kNum && b.num.Sign() > 0 {
		if a.kind == kNum && a.num.Sign() >= 0 {
			return DivT(a, b)
		}
		return Ite(Le(Num(0), a), DivT(a, b), Neg(DivT(Neg(a), b)))
	}
	pos := Ite(Le(Num(0), a), DivT(a, b), Neg(DivT(Neg(a), b)))
	neg := Ite(Le(Num(0), a), Neg(DivT(a, Neg(b))), DivT(Neg(a), Neg(b)))
	return Ite(Lt(Num(0), b), pos, neg)
}
func goRem(a, b *Term) *Term {
	if b.kind == kNum && b.num.Sign() > 0 {
		if a.kind == kNum && a.num.Sign() >= 0 {
			return ModT(a, b)
		}
		return Ite(Le(Num(0), a), ModT(a, b), Neg(ModT(Neg(a), b)))
	}
	absb := Ite(Lt(Num(0), b), b, Neg(b))
	return Ite(Le(Num(0), a), ModT(a, absb), Neg(ModT(Neg(a), absb)))
}

// ---- constants -----------------------------------------------------------------------

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		// named/type params etc.
		return x.zero(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		s := strConst(constant.StringVal(c.Value))
		if st != nil {
			x.strFacts(st, s)
		}
		return s
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return BigNum(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		s := constant.ToFloat(c.Value)
		_ = f
		num, den := constant.Num(s), constant.Denom(s)
		if num.Kind() != constant.Unknown && den.Kind() != constant.Unknown && !strings.HasPrefix(num.ExactString(), "-") {
			return realNum(fmt.Sprintf("(/ %s.0 %s.0)", num.ExactString(), den.ExactString()))
		}
		return Fresh("fconst", SReal)
	}
	return x.zero(t)
}

// ---- globals --------------------------------------------------------------------------

func (x *Exec) globalBlk(name string) *Term {
	if b, ok := x.gblk[name]; ok {
		return b
	}
	b := Num(int64(len(x.gblk) + 1))
	x.gblk[name] = b
	return b
}

func (x *Exec) globalPtr(g *ssa.Global) *Term {
	return MkPtr(x.globalBlk(g.RelString(nil)), Num(0), Num(0))
}

// initValue finds the single value stored to an unmutated global by init.
func (x *Exec) initValue(g *ssa.Global) ssa.Value {
	if x.w.mutated[g] || g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var v ssa.Value
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				v = s.Val
				n++
			}
		}
	}
	if n == 1 {
		return v
	}
	return nil
}

// constGlobal evaluates an unmutated global to a value, if it has a simple initialiser.
func (x *Exec) constGlobal(st *State, g *ssa.Global) (Val, bool) {
	t := g.Type().(*types.Pointer).Elem()
	if types.Identical(t, types.Universe.Lookup("error").Type()) && !x.w.mutated[g] {
		s := Sym("gv_"+sanitize(shortGlobal(g)), SInt)
		x.assume(st, Not(Eq(s, Num(0))))
		return s, true
	}
	if g.Pkg == nil || !isRepoPkg(g.Pkg.Pkg) {
		if x.w.mutated[g] {
			return nil, false
		}
		srt, _, ok := scalar(t)
		if ok {
			s := Sym("gv_"+sanitize(g.RelString(nil)), srt)
			return s, true
		}
		return nil, false
	}
	v := x.initValue(g)
	if v == nil {
		return nil, false
	}
	return x.constValue(st, v, g.RelString(nil))
}

func shortGlobal(g *ssa.Global) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

func (x *Exec) constValue(st *State, v ssa.Value, name string) (Val, bool) {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(st, y), true
	case *ssa.Convert:
		// []rune("...")
		if c, ok := y.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			if sl, ok := under(y.Type()).(*types.Slice); ok && memTypeName(sl.Elem()) == "int32" {
				rs := []rune(constant.StringVal(c.Value))
				return x.constRuneSlice(st, rs, name), true
			}
		}
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
			return x.constGlobal(st, g)
		}
		if a, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			var sv ssa.Value
			n := 0
			for _, b := range a.Parent().Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != a {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == a {
							sv = s.Val
							n++
						} else if _, ok := in.(*ssa.UnOp); !ok {
							n += 2
						}
					}
				}
			}
			if n == 1 {
				return x.constValue(st, sv, name)
			}
		}
	case *ssa.Call:
		return x.constCall(st, y, name)
	case *ssa.Slice:
		a, ok := y.X.(*ssa.Alloc)
		if !ok || y.Low != nil || y.High != nil {
			return nil, false
		}
		at, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Array)
		if !ok {
			return nil, false
		}
		elems := make([]Val, at.Len())
		for _, b := range a.Parent().Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != a {
					continue
				}
				ic, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				k := ic.Int64()
				ev, ok := x.constValue(st, s.Val, fmt.Sprintf("%s[%d]", name, k))
				if !ok {
					return nil, false
				}
				elems[k] = ev
			}
		}
		srt, key, ok := scalar(at.Elem())
		if !ok {
			return nil, false
		}
		blk := x.globalBlk(name + "#arr")
		arr := Sym("tbl_"+sanitize(name), arrSort(srt))
		var ts []*Term
		for _, e := range elems {
			t, ok := e.(*Term)
			if !ok {
				if e == nil {
					t = x.zeroTerm(srt, at.Elem())
				} else {
					return nil, false
				}
			}
			ts = append(ts, t)
		}
		constTables[arr] = ts
		x.setConstMem(key, srt, MkObj(blk, Num(0)), arr)
		n := Num(at.Len())
		return MkSlc(blk, Num(0), n, n), true
	}
	return nil, false
}

// constCall: an unmutated global initialised by a call of an external function with a trusted contract (by
// the dynamic type of an interface argument, perhaps) is a constant of which the contract's clauses over
// the result hold.
func (x *Exec) constCall(st *State, c *ssa.Call, name string) (Val, bool) {
	fn := c.Call.StaticCallee()
	if fn == nil || fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) || fn.Parent() != nil {
		return nil, false
	}
	srt, _, ok := scalar(c.Type())
	if !ok || srt != SPtr {
		return nil, false
	}
	con := x.sp.contracts[shortName(fn)]
	for _, a := range c.Call.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok && con == nil {
			con = x.sp.contracts[shortName(fn)+"@"+shortType(mi.X.Type())]
		}
	}
	if con == nil || !con.trusted {
		return nil, false
	}
	x.trusted[con.fn] = true
	s := Sym("gv_"+sanitize(name), srt)
	if x.facts[s] {
		return s, true
	}
	x.facts[s] = true
	x.initFacts = append(x.initFacts, wfPtr(s, Num(globalLimit)))
	env := &Env{x: x, st: newState(), vars: map[string]TV{"result": {v: s, t: c.Type()}, "result0": {v: s, t: c.Type()}}, bindings: map[string]TV{}}
	for _, e := range con.ensures {
		if !tagActive(e.tags, x.prop) {
			continue
		}
		g, er := env.boolean(e.e)
		if er != nil {
			panic(abortExec{fmt.Sprintf("contract of %s for the value of %s: %v", con.fn, name, er)})
		}
		x.initFacts = append(x.initFacts, g)
	}
	return s, true
}

func (x *Exec) constRuneSlice(st *State, rs []rune, name string) *Term {
	blk := x.globalBlk(name + "#arr")
	arr := Sym("tbl_"+sanitize(name), arrSort(SInt))
	var ts []*Term
	for _, r := range rs {
		ts = append(ts, Num(int64(r)))
	}
	constTables[arr] = ts
	x.setConstMem("int32", SInt, MkObj(blk, Num(0)), arr)
	n := Num(int64(len(rs)))
	return MkSlc(blk, Num(0), n, n)
}

func (x *Exec) setConstMem(key, srt string, obj, arr *Term) {
	memSrt[key] = srt
	m := Sym("M0_"+sanitize(key), memSort(srt))
	if x.constM[m] == nil {
		x.constM[m] = map[*Term]*Term{}
	}
	x.constM[m][obj] = arr
	f := App("=", SBool, App("select", elemSort(m.sort), m, obj), arr)
	if !x.facts[f] {
		x.facts[f] = true
		x.initFacts = append(x.initFacts, f)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
