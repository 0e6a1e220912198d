package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // operator, or symbol name for constants/vars
	kind tkind
	args []*Term
	sort string
	num  *big.Int // for integer literals
	// quantifier data
	bound []*Term // bound variables
	trigs [][]*Term
	open  bool // contains a bound variable free
	quant bool // contains a quantifier
}

type tkind uint8

const (
	kApp   tkind = iota
	kSym         // free symbol (declared constant)
	kBound       // bound variable
	kNum
	kQuant
)

var (
	termTab  = map[string]*Term{}
	termList []*Term
	symSort  = map[string]string{} // declared constants
)

const (
	SInt  = "Int"
	SBool = "Bool"
	SReal = "Real"
	SStr  = "Str"
	SPtr  = "Ptr"
	SSlc  = "Slc"
	SObj  = "Obj"
)

func arrSort(s string) string { return "(Array Int " + s + ")" }
func memSort(s string) string { return "(Array Obj (Array Int " + s + "))" }
func elemSort(s string) string {
	if strings.HasPrefix(s, "(Array Int ") {
		return s[len("(Array Int ") : len(s)-1]
	}
	if strings.HasPrefix(s, "(Array Obj ") {
		return s[len("(Array Obj ") : len(s)-1]
	}
	panic("elemSort of " + s)
}

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", t.kind, t.op, t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.bound {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, tr := range t.trigs {
		sb.WriteByte('{')
		for _, a := range tr {
			fmt.Fprintf(&sb, " %d", a.id)
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	t.id = len(termList)
	for _, a := range t.args {
		if a.open {
			t.open = true
		}
		if a.quant {
			t.quant = true
		}
	}
	if t.kind == kBound {
		t.open = true
	}
	if t.kind == kQuant {
		t.quant = true
		// open if some free bound var remains
		fv := map[*Term]bool{}
		freeBound(t.args[0], map[*Term]bool{}, fv)
		for _, b := range t.bound {
			delete(fv, b)
		}
		t.open = len(fv) > 0
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func freeBound(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if !t.open || seen[t] {
		return
	}
	seen[t] = true
	if t.kind == kBound {
		out[t] = true
		return
	}
	if t.kind == kQuant {
		in := map[*Term]bool{}
		freeBound(t.args[0], map[*Term]bool{}, in)
		for _, b := range t.bound {
			delete(in, b)
		}
		for b := range in {
			out[b] = true
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, seen, out)
	}
}

func Sym(name, srt string) *Term {
	symSort[name] = srt
	return intern(&Term{op: name, kind: kSym, sort: srt})
}

var freshCtr = map[string]int{}

func Fresh(base, srt string) *Term {
	base = sanitize(base)
	freshCtr[base]++
	return Sym(fmt.Sprintf("%s!%d", base, freshCtr[base]), srt)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "v"
	}
	return sb.String()
}

var boundCtr int

func BoundVar(name, srt string) *Term {
	boundCtr++
	return intern(&Term{op: fmt.Sprintf("%s?%d", sanitize(name), boundCtr), kind: kBound, sort: srt})
}

func Num(n int64) *Term { return BigNum(big.NewInt(n)) }
func BigNum(n *big.Int) *Term {
	t := &Term{op: n.String(), kind: kNum, sort: SInt, num: n}
	return intern(t)
}

var True = intern(&Term{op: "true", kind: kApp, sort: SBool})
var False = intern(&Term{op: "false", kind: kApp, sort: SBool})

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func App(op, srt string, args ...*Term) *Term {
	return intern(&Term{op: op, kind: kApp, sort: srt, args: args})
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not" && a.kind == kApp:
		return a.args[0]
	}
	if a.kind == kApp && a.op == "<=" { // not (x <= y) => y < x  ( y+1 <= x )
		return Le(Add(a.args[1], Num(1)), a.args[0])
	}
	return App("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == False {
			return false
		}
		if x == True || seen[x] {
			return true
		}
		if x.kind == kApp && x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	for _, x := range out {
		if x.kind == kApp && x.op == "not" && seen[x.args[0]] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == True {
			return false
		}
		if x == False || seen[x] {
			return true
		}
		if x.kind == kApp && x.op == "or" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return True
		}
	}
	for _, x := range out {
		if x.kind == kApp && x.op == "not" && seen[x.args[0]] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return App("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " " + b.sort)
	}
	return App("ite", a.sort, c, a, b)
}

// linear forms ---------------------------------------------------------

type lin struct {
	c     *big.Int
	terms map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	linAdd(&l, t, big.NewInt(1))
	return l
}

func linAdd(l *lin, t *Term, k *big.Int) {
	switch {
	case t.kind == kNum:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.num, k))
		return
	case t.kind == kApp && t.op == "+":
		for _, a := range t.args {
			linAdd(l, a, k)
		}
		return
	case t.kind == kApp && t.op == "*" && len(t.args) == 2 && t.args[0].kind == kNum:
		linAdd(l, t.args[1], new(big.Int).Mul(k, t.args[0].num))
		return
	}
	c, ok := l.terms[t]
	if !ok {
		c = big.NewInt(0)
	}
	c = new(big.Int).Add(c, k)
	if c.Sign() == 0 {
		delete(l.terms, t)
	} else {
		l.terms[t] = c
	}
}

func (l lin) term() *Term {
	var ts []*Term
	for t := range l.terms {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		c := l.terms[t]
		if c.IsInt64() && c.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, App("*", SInt, BigNum(c), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, BigNum(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("+", SInt, out...)
}

func Add(xs ...*Term) *Term {
	if len(xs) > 0 && xs[0].sort == SReal {
		return App("+", SReal, xs...)
	}
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for _, x := range xs {
		linAdd(&l, x, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return App("-", SReal, a, b)
	}
	l := linOf(a)
	linAdd(&l, b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term {
	if a.sort == SReal {
		return App("-", SReal, a)
	}
	return Sub(Num(0), a)
}
func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return App("*", SReal, a, b)
	}
	if a.kind == kNum {
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		linAdd(&l, b, a.num)
		return l.term()
	}
	if b.kind == kNum {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("*", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a.sort == SReal {
		return App("<=", SBool, a, b)
	}
	d := linOf(Sub(b, a)) // b-a >= 0
	if len(d.terms) == 0 {
		return BoolT(d.c.Sign() >= 0)
	}
	// canonical: move positive coefs to right, negative to the left
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	r := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for t, c := range d.terms {
		if c.Sign() > 0 {
			r.terms[t] = c
		} else {
			l.terms[t] = new(big.Int).Neg(c)
		}
	}
	if d.c.Sign() > 0 {
		r.c = d.c
	} else {
		l.c = new(big.Int).Neg(d.c)
	}
	return App("<=", SBool, l.term(), r.term())
}
func Lt(a, b *Term) *Term {
	if a.sort == SReal {
		return App("<", SBool, a, b)
	}
	return Le(Add(a, Num(1)), b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func isCtor(t *Term) bool {
	if t.kind != kApp {
		return false
	}
	switch t.op {
	case "slc", "ptr", "obj":
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of different sorts %s:%s %s:%s", a.op, a.sort, b.op, b.sort))
	}
	switch a.sort {
	case SInt:
		d := linOf(Sub(a, b))
		if len(d.terms) == 0 {
			return BoolT(d.c.Sign() == 0)
		}
		// canonical form
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		r := lin{big.NewInt(0), map[*Term]*big.Int{}}
		// orient so that smallest-id term is on the left positively
		var ts []*Term
		for t := range d.terms {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		neg := d.terms[ts[0]].Sign() < 0
		for t, c := range d.terms {
			if neg {
				c = new(big.Int).Neg(c)
			}
			if c.Sign() > 0 {
				l.terms[t] = c
			} else {
				r.terms[t] = new(big.Int).Neg(c)
			}
		}
		c := new(big.Int).Set(d.c)
		if neg {
			c.Neg(c)
		}
		r.c = new(big.Int).Neg(c)
		return App("=", SBool, l.term(), r.term())
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// datatypes ---------------------------------------------------------------

func MkObj(b, f *Term) *Term { return App("obj", SObj, b, f) }
func MkPtr(b, i, f *Term) *Term {
	if b.kind == kApp && b.op == "pblk" && i.kind == kApp && i.op == "pidx" && f.kind == kApp && f.op == "pfld" &&
		b.args[0] == i.args[0] && i.args[0] == f.args[0] {
		return b.args[0]
	}
	return App("ptr", SPtr, b, i, f)
}
func MkSlc(b, o, l, c *Term) *Term {
	if b.kind == kApp && b.op == "sblk" && o.kind == kApp && o.op == "soff" && l.kind == kApp && l.op == "slen" && c.kind == kApp && c.op == "scap" &&
		b.args[0] == o.args[0] && o.args[0] == l.args[0] && l.args[0] == c.args[0] {
		return b.args[0]
	}
	return App("slc", SSlc, b, o, l, c)
}

var NilPtr = MkPtr(Num(0), Num(0), Num(0))
var NilSlc = MkSlc(Num(0), Num(0), Num(0), Num(0))

var selIdx = map[string]int{"pblk": 0, "pidx": 1, "pfld": 2, "sblk": 0, "soff": 1, "slen": 2, "scap": 3}

func proj(op string, t *Term) *Term {
	if isCtor(t) {
		return t.args[selIdx[op]]
	}
	if t.kind == kApp && t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if isCtor(a) || isCtor(b) || a.op == "ite" || b.op == "ite" {
			return Ite(t.args[0], proj(op, a), proj(op, b))
		}
	}
	return App(op, SInt, t)
}
func PBlk(t *Term) *Term { return proj("pblk", t) }
func PIdx(t *Term) *Term { return proj("pidx", t) }
func PFld(t *Term) *Term { return proj("pfld", t) }
func SBlk(t *Term) *Term { return proj("sblk", t) }
func SOff(t *Term) *Term { return proj("soff", t) }
func SLen(t *Term) *Term { return proj("slen", t) }
func SCap(t *Term) *Term { return proj("scap", t) }

// arrays ------------------------------------------------------------------

// distinctHook lets the executor add knowledge about blocks (freshness).
var distinctHook func(a, b *Term) bool

func definitelyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		d := linOf(Sub(a, b))
		if len(d.terms) == 0 && d.c.Sign() != 0 {
			return true
		}
		if distinctHook != nil && distinctHook(a, b) {
			return true
		}
	case SObj:
		if isCtor(a) && isCtor(b) {
			return definitelyDistinct(a.args[0], b.args[0]) || definitelyDistinct(a.args[1], b.args[1])
		}
	}
	return false
}

func Select(a, i *Term) *Term {
	for a.kind == kApp && a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.kind == kApp && a.op == "ite" {
		x, y := a.args[1], a.args[2]
		if x.op == "store" || y.op == "store" {
			return Ite(a.args[0], Select(x, i), Select(y, i))
		}
	}
	if a.kind == kApp && a.op == "constarr" {
		return a.args[0]
	}
	if a.kind == kSym && i.kind == kNum {
		if tb, ok := constTables[a]; ok && i.num.IsInt64() {
			j := i.num.Int64()
			if j >= 0 && j < int64(len(tb)) {
				return tb[j]
			}
		}
	}
	return App("select", elemSort(a.sort), a, i)
}

// constTables: symbolic arrays with known leading contents.
var constTables = map[*Term][]*Term{}

func Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic("store sort mismatch " + a.sort + " <- " + v.sort)
	}
	if a.kind == kApp && a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.kind == kApp && v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return App("store", a.sort, a, i, v)
}

func ConstArr(srt string, v *Term) *Term { return App("constarr", srt, v) }

func Forall(bound []*Term, body *Term, trigs ...[]*Term) *Term {
	if body == True {
		return True
	}
	if !body.open {
		return body
	}
	return intern(&Term{op: "forall", kind: kQuant, sort: SBool, args: []*Term{body}, bound: bound, trigs: trigs})
}
func Exists(bound []*Term, body *Term, trigs ...[]*Term) *Term {
	if body == False {
		return False
	}
	if !body.open {
		return body
	}
	return intern(&Term{op: "exists", kind: kQuant, sort: SBool, args: []*Term{body}, bound: bound, trigs: trigs})
}

// substitution of symbols/terms (used for quantifier instantiation and write-set generalisation)
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		ntr := t.trigs
		if len(t.trigs) > 0 {
			ntr = nil
			for _, tr := range t.trigs {
				var x []*Term
				for _, a := range tr {
					y := rec(a)
					if y != a {
						ch = true
					}
					x = append(x, y)
				}
				ntr = append(ntr, x)
			}
		}
		r := t
		if ch {
			r = rebuild(t, na, ntr)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, na []*Term, ntr [][]*Term) *Term {
	if t.kind == kQuant {
		if t.op == "forall" {
			return Forall(t.bound, na[0], ntr...)
		}
		return Exists(t.bound, na[0], ntr...)
	}
	switch t.op {
	case "and":
		return And(na...)
	case "or":
		return Or(na...)
	case "not":
		return Not(na[0])
	case "=>":
		return Implies(na[0], na[1])
	case "=":
		return Eq(na[0], na[1])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "+":
		return Add(na...)
	case "*":
		if len(na) == 2 {
			return Mul(na[0], na[1])
		}
	case "<=":
		return Le(na[0], na[1])
	case "select":
		return Select(na[0], na[1])
	case "store":
		return Store(na[0], na[1], na[2])
	case "slc":
		return MkSlc(na[0], na[1], na[2], na[3])
	case "ptr":
		return MkPtr(na[0], na[1], na[2])
	case "div", "mod":
		if t.op == "div" {
			return DivT(na[0], na[1])
		}
		return ModT(na[0], na[1])
	}
	if _, ok := selIdx[t.op]; ok {
		return proj(t.op, na[0])
	}
	return App(t.op, t.sort, na...)
}

// Euclidean div/mod (SMT semantics)
func DivT(a, b *Term) *Term {
	if a.kind == kNum && b.kind == kNum && b.num.Sign() != 0 {
		q, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		_ = m
		return BigNum(q)
	}
	return App("div", SInt, a, b)
}
func ModT(a, b *Term) *Term {
	if a.kind == kNum && b.kind == kNum && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return BigNum(m)
	}
	return App("mod", SInt, a, b)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	s := printTerm(t, 6)
	return s
}

func printTerm(t *Term, depth int) string {
	if depth == 0 {
		return "…"
	}
	if t.kind == kQuant {
		var bs []string
		for _, b := range t.bound {
			bs = append(bs, b.op)
		}
		return "(" + t.op + " " + strings.Join(bs, ",") + " " + printTerm(t.args[0], depth) + ")"
	}
	if len(t.args) == 0 {
		return t.op
	}
	var ss []string
	for _, a := range t.args {
		ss = append(ss, printTerm(a, depth-1))
	}
	return "(" + t.op + " " + strings.Join(ss, " ") + ")"
}
