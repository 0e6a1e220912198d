package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---- expression AST ---------------------------------------------------------

type Expr struct {
	k    string // num str ident call field index slice unary bin quant deref addr
	s    string
	args []*Expr
	vars [][2]string
	trig [][]*Expr
	src  string
}

type lexer struct {
	s    string
	pos  int
	toks []string
	i    int
	file string
}

func isIdStart(r byte) bool {
	return r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80
}

func lexExpr(s string) []string {
	var t []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case isIdStart(c):
			j := i
			for j < len(s) && (isIdStart(s[j]) || s[j] >= '0' && s[j] <= '9' || s[j] == '!') {
				if s[j] == '!' && j+1 < len(s) && s[j+1] == '=' {
					break
				}
				j++
			}
			t = append(t, s[i:j])
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			t = append(t, s[i:j])
			i = j
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				j++
			}
			t = append(t, s[i:j+1])
			i = j + 1
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			t = append(t, s[i:j+1])
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "[*]"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					t = append(t, o)
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				t = append(t, string(c))
				i++
			}
		}
	}
	return t
}

type parser struct {
	t   []string
	i   int
	src string
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parse %q: %v", s, r)
		}
	}()
	p := &parser{t: lexExpr(s), src: s}
	e = p.expr()
	if p.i != len(p.t) {
		panic(fmt.Sprintf("trailing %v", p.t[p.i:]))
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e, nil
}

func (p *parser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *parser) next() string { x := p.peek(); p.i++; return x }
func (p *parser) expect(s string) {
	if p.next() != s {
		panic("expected " + s + " near " + strings.Join(p.t[max(0, p.i-4):min(len(p.t), p.i+3)], " "))
	}
}

func (p *parser) expr() *Expr {
	if x := p.peek(); x == "forall" || x == "exists" {
		p.next()
		e := &Expr{k: "quant", s: x}
		for {
			n := p.next()
			ty := "int"
			if q := p.peek(); q != "," && q != "::" && q != "{" {
				ty = p.next()
			}
			e.vars = append(e.vars, [2]string{n, ty})
			if p.peek() == "," {
				p.next()
				continue
			}
			break
		}
		for p.peek() == "{" {
			p.next()
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if p.peek() == "," {
					p.next()
					continue
				}
				break
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		p.expect("::")
		e.args = []*Expr{p.expr()}
		return e
	}
	return p.iff()
}
func bin(op string, a, b *Expr) *Expr { return &Expr{k: "bin", s: op, args: []*Expr{a, b}} }

func (p *parser) rhs(f func() *Expr) *Expr {
	if x := p.peek(); x == "forall" || x == "exists" {
		return p.expr()
	}
	return f()
}

func (p *parser) iff() *Expr {
	a := p.impl()
	for p.peek() == "<==>" {
		p.next()
		a = bin("<==>", a, p.rhs(p.impl))
	}
	return a
}
func (p *parser) impl() *Expr {
	a := p.or()
	if p.peek() == "==>" {
		p.next()
		return bin("==>", a, p.rhs(p.impl))
	}
	return a
}
func (p *parser) or() *Expr {
	a := p.and()
	for p.peek() == "||" {
		p.next()
		a = bin("||", a, p.rhs(p.and))
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.cmp()
	for p.peek() == "&&" {
		p.next()
		a = bin("&&", a, p.rhs(p.cmp))
	}
	return a
}
func (p *parser) cmp() *Expr {
	a := p.sum()
	var res *Expr
	for {
		switch p.peek() {
		case "==", "!=", "<", "<=", ">", ">=":
			op := p.next()
			b := p.sum()
			c := bin(op, a, b)
			if res == nil {
				res = c
			} else {
				res = bin("&&", res, c)
			}
			a = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return a
}
func (p *parser) sum() *Expr {
	a := p.prod()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.next()
		a = bin(op, a, p.prod())
	}
	return a
}
func (p *parser) prod() *Expr {
	a := p.unary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		op := p.next()
		a = bin(op, a, p.unary())
	}
	return a
}
func (p *parser) unary() *Expr {
	switch p.peek() {
	case "!", "-", "*", "&":
		op := p.next()
		return &Expr{k: "unary", s: op, args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	a := p.primary()
	for {
		switch p.peek() {
		case ".":
			p.next()
			n := p.next()
			a = &Expr{k: "field", s: n, args: []*Expr{a}}
		case "[*]":
			p.next()
			a = &Expr{k: "star", args: []*Expr{a}}
		case "[":
			p.next()
			if p.peek() == ":" {
				p.next()
				p.expect("]")
				a = &Expr{k: "star", s: "rng", args: []*Expr{a}}
				continue
			}
			i := p.expr()
			p.expect("]")
			a = &Expr{k: "index", args: []*Expr{a, i}}
		default:
			return a
		}
	}
}
func (p *parser) primary() *Expr {
	x := p.next()
	if x == "" {
		panic("unexpected end")
	}
	switch {
	case x == "(":
		e := p.expr()
		p.expect(")")
		return e
	case x[0] >= '0' && x[0] <= '9':
		return &Expr{k: "num", s: x}
	case x[0] == '\'':
		r := []rune(x[1 : len(x)-1])
		return &Expr{k: "num", s: fmt.Sprint(int(r[0]))}
	case x[0] == '"':
		return &Expr{k: "str", s: x[1 : len(x)-1]}
	case isIdStart(x[0]):
		if p.peek() == "(" {
			p.next()
			e := &Expr{k: "call", s: x}
			if p.peek() != ")" {
				for {
					e.args = append(e.args, p.expr())
					if p.peek() == "," {
						p.next()
						continue
					}
					break
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{k: "ident", s: x}
	}
	panic("unexpected token " + x)
}

// ---- contract files -----------------------------------------------------------

type Clause struct {
	tags []string
	e    *Expr
	name string
	// loop candidate
	auto bool
}

type LoopSpec struct {
	id     string // "1", "2", "*", or "@callee"
	invs   []*Clause
	ghosts []*ghostSet
	unroll int
}

type ghostSet struct {
	when string // init, step, exit
	name string
	tags []string
	e    *Expr
}

type Contract struct {
	fn       string
	file     string
	trusted  bool
	bounded  bool
	pure     bool
	inline   bool // never use as contract at calls; body is inlined
	noframe  bool
	lenient  bool
	requires []*Clause
	ghosts   []*ghostSet // ghost assignments at entry
	ensures  []*Clause
	onpanic  []*Clause
	modifies []*Clause
	modAll   bool
	assumes  []*Clause // lemma uses at entry (must be proven lemmas) "use"
	lets     [][2]string
	letE     map[string]*Expr
	loops    []*LoopSpec
	safety   []string
	note     string
	only     []string // properties this contract is active in
	ghostUpd []*Clause
	params   []string
	maxpaths int
	opaque   bool // products of two unknowns, divisions of reals and their rounding are uninterpreted
	merge    int // join paths: 1 at loops, 2 at every join
	asserts  []*AssertSpec
	slow     int
	optional bool
	noreturn bool
}

// AssertSpec: intermediate assertion attached to a program event.
type AssertSpec struct {
	at string // "ret", "call NAME", ...
	c  *Clause
}

type Macro struct {
	name   string
	params []string
	ptypes []string
	body   *Expr
}

type Lemma struct {
	name string
	text string // raw smt: assertions whose conjunction must be unsat
	tags []string
	fact string // raw smt assert to be added (as an axiom) once proven
}

type Property struct {
	id        string
	sensitive []string
	roots     []string
	also      []string
	lem       []string
}

type Specs struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	ghosts    map[string]string // ghost variable -> sort
	lemmas    []*Lemma
	props     map[string]*Property
	smtSig    map[string]ufSig
	files     []string
}

var tagRe = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)

func takeTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if m := tagRe.FindStringSubmatch(s); m != nil {
		var t []string
		for _, x := range strings.Split(m[1], ",") {
			t = append(t, strings.TrimSpace(x))
		}
		return t, s[len(m[0]):]
	}
	return nil, s
}

var labelRe = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*):\s+`)

func mkClause(s string) (*Clause, error) {
	tags, rest := takeTags(s)
	c := &Clause{tags: tags}
	if m := labelRe.FindStringSubmatch(rest); m != nil {
		c.name = m[1]
		rest = rest[len(m[0]):]
	}
	e, err := parseExpr(rest)
	if err != nil {
		return nil, err
	}
	c.e = e
	if c.name == "" {
		c.name = e.src
		if len(c.name) > 60 {
			c.name = c.name[:57] + "..."
		}
	}
	return c, nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if x := strings.TrimSpace(s[st:]); x != "" {
		out = append(out, x)
	}
	return out
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string]string{}, props: map[string]*Property{}, smtSig: map[string]ufSig{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.files = append(sp.files, filepath.Base(f))
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	for _, b := range smtBlocks {
		parseSigs(b.text, sp.smtSig)
	}
	return sp, nil
}

// parseSigs extracts function signatures out of SMT text.
func parseSigs(txt string, out map[string]ufSig) {
	toks := sexprs(txt)
	for _, s := range toks {
		if len(s.l) < 4 {
			continue
		}
		switch s.l[0].a {
		case "declare-fun":
			var as []string
			for _, a := range s.l[2].l {
				as = append(as, a.String())
			}
			out[s.l[1].a] = ufSig{as, s.l[3].String()}
		case "define-fun", "define-fun-rec":
			var as []string
			for _, a := range s.l[2].l {
				as = append(as, a.l[1].String())
			}
			out[s.l[1].a] = ufSig{as, s.l[3].String()}
		}
	}
	for _, s := range toks {
		if len(s.l) == 3 && s.l[0].a == "declare-const" {
			out[s.l[1].a] = ufSig{nil, s.l[2].String()}
		}
	}
}

type sx struct {
	a string
	l []*sx
}

func (s *sx) String() string {
	if s.l == nil {
		return s.a
	}
	var o []string
	for _, x := range s.l {
		o = append(o, x.String())
	}
	return "(" + strings.Join(o, " ") + ")"
}

func sexprs(t string) []*sx {
	var stack []*sx
	root := &sx{l: []*sx{}}
	stack = append(stack, root)
	i := 0
	for i < len(t) {
		c := t[i]
		switch {
		case c == '(':
			n := &sx{l: []*sx{}}
			top := stack[len(stack)-1]
			top.l = append(top.l, n)
			stack = append(stack, n)
			i++
		case c == ')':
			stack = stack[:len(stack)-1]
			i++
		case unicode.IsSpace(rune(c)):
			i++
		default:
			j := i
			for j < len(t) && t[j] != '(' && t[j] != ')' && !unicode.IsSpace(rune(t[j])) {
				j++
			}
			top := stack[len(stack)-1]
			top.l = append(top.l, &sx{a: t[i:j]})
			i = j
		}
	}
	return root.l
}

func (sp *Specs) parseFile(fname, txt string) error {
	// remove comment lines (// ...)
	lines := strings.Split(txt, "\n")
	for i, l := range lines {
		if j := strings.Index(l, "//"); j >= 0 {
			lines[i] = l[:j]
		}
	}
	i := 0
	// read a block enclosed by { ... } starting at line i whose line ends with "{"
	for i < len(lines) {
		l := strings.TrimSpace(lines[i])
		if l == "" {
			i++
			continue
		}
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "smt", "lemma":
			name := strings.TrimSpace(strings.TrimSuffix(rest, "{{"))
			var body []string
			i++
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}}" {
				body = append(body, lines[i])
				i++
			}
			i++
			if kw == "smt" {
				addSmtBlock(name, strings.Join(body, "\n"))
			} else {
				tags, n := takeTags(name)
				sp.lemmas = append(sp.lemmas, &Lemma{name: n, text: strings.Join(body, "\n"), tags: tags})
			}
		case "ghost":
			f := strings.Fields(rest)
			sp.ghosts[f[0]] = strings.Join(f[1:], " ")
			i++
		case "define":
			// define name(a T, b T) = expr   (may continue on following indented lines)
			full := rest
			i++
			for i < len(lines) && (strings.HasPrefix(lines[i], " ") || strings.HasPrefix(lines[i], "\t")) && strings.TrimSpace(lines[i]) != "" {
				full += " " + strings.TrimSpace(lines[i])
				i++
			}
			lp := strings.Index(full, "(")
			rp := strings.Index(full, ")")
			eq := strings.Index(full[rp:], "=") + rp
			m := &Macro{name: strings.TrimSpace(full[:lp])}
			for _, a := range splitTop(full[lp+1 : rp]) {
				n, t, _ := strings.Cut(a, " ")
				m.params = append(m.params, n)
				m.ptypes = append(m.ptypes, strings.TrimSpace(t))
			}
			e, err := parseExpr(full[eq+1:])
			if err != nil {
				return err
			}
			m.body = e
			if sp.macros[m.name] != nil {
				return fmt.Errorf("%s: %s is defined twice", fname, m.name)
			}
			sp.macros[m.name] = m
		case "property":
			id, r, _ := strings.Cut(rest, " ")
			p := sp.props[id]
			if p == nil {
				p = &Property{id: id}
				sp.props[id] = p
			}
			_ = r
			i++
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}" {
				ll := strings.TrimSpace(lines[i])
				k, v, _ := strings.Cut(ll, " ")
				switch k {
				case "root":
					p.roots = append(p.roots, strings.TrimSpace(v))
				case "sensitive":
					p.sensitive = append(p.sensitive, strings.TrimSpace(v))
				case "also":
					p.also = append(p.also, strings.TrimSpace(v))
				case "lemma":
					p.lem = append(p.lem, strings.TrimSpace(v))
				}
				i++
			}
			i++
		case "func", "trusted":
			c := &Contract{file: fname, letE: map[string]*Expr{}}
			if kw == "trusted" {
				c.trusted = true
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "func"))
			}
			c.fn = strings.TrimSpace(strings.TrimSuffix(rest, "{"))
			i++
			var items []string
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}" {
				ll := lines[i]
				t := strings.TrimSpace(ll)
				i++
				if t == "" {
					continue
				}
				// continuation: deeper-indented line (>= 8 spaces or starts with '|')
				if len(items) > 0 && strings.HasPrefix(t, "|") && !strings.HasPrefix(t, "||") {
					items[len(items)-1] += " " + strings.TrimSpace(t[1:])
					continue
				}
				items = append(items, t)
			}
			i++
			if err := c.parseItems(items); err != nil {
				return fmt.Errorf("%s: %w", c.fn, err)
			}
			if _, dup := sp.contracts[c.fn]; dup {
				return fmt.Errorf("duplicate contract %s", c.fn)
			}
			sp.contracts[c.fn] = c
			sp.order = append(sp.order, c.fn)
		default:
			return fmt.Errorf("line %d: unexpected %q", i+1, l)
		}
	}
	return nil
}

func (c *Contract) parseItems(items []string) error {
	var cur *LoopSpec
	for _, it := range items {
		k, v, _ := strings.Cut(it, " ")
		v = strings.TrimSpace(v)
		add := func(dst *[]*Clause) error {
			cl, err := mkClause(v)
			if err != nil {
				return err
			}
			*dst = append(*dst, cl)
			return nil
		}
		var err error
		switch k {
		case "requires":
			err = add(&c.requires)
		case "ensures":
			err = add(&c.ensures)
		case "use":
			err = add(&c.assumes)
		case "modifies":
			tags, rest := takeTags(v)
			for _, x := range splitTop(rest) {
				if x == "nothing" {
					continue
				}
				e, er := parseExpr(x)
				if er != nil {
					return er
				}
				c.modifies = append(c.modifies, &Clause{e: e, name: x, tags: tags})
			}
		case "pure":
			c.pure = true
		case "inline":
			c.inline = true
		case "noframe":
			c.noframe = true
		case "noreturn":
			c.noreturn = true
		case "optional":
			c.optional = true
		case "bounded":
			c.bounded = true
		case "safety":
			tags, _ := takeTags(v)
			c.safety = tags
		case "only":
			tags, _ := takeTags(v)
			c.only = tags
		case "note":
			c.note = v
		case "slow":
			fmt.Sscan(v, &c.slow)
		case "opaque":
			c.opaque = true
		case "merge":
			c.merge = 1
			if v == "all" {
				c.merge = 2
			}
		case "maxpaths":
			fmt.Sscan(v, &c.maxpaths)
		case "let":
			n, ex, _ := strings.Cut(v, "=")
			e, er := parseExpr(ex)
			if er != nil {
				return er
			}
			c.lets = append(c.lets, [2]string{strings.TrimSpace(n), ex})
			c.letE[strings.TrimSpace(n)] = e
		case "loop":
			cur = &LoopSpec{id: v}
			c.loops = append(c.loops, cur)
		case "invariant":
			if cur == nil {
				return fmt.Errorf("invariant outside loop")
			}
			err = add(&cur.invs)
		case "init", "step", "exit":
			if cur == nil && k != "init" {
				return fmt.Errorf("%s outside loop", k)
			}
			tags, rest := takeTags(v)
			n, ex, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s needs NAME = EXPR", k)
			}
			e, er := parseExpr(strings.TrimSpace(ex))
			if er != nil {
				return er
			}
			g := &ghostSet{k, strings.TrimSpace(n), tags, e}
			if cur == nil { // at function entry
				c.ghosts = append(c.ghosts, g)
			} else {
				cur.ghosts = append(cur.ghosts, g)
			}
		case "unroll":
			fmt.Sscan(v, &cur.unroll)
		case "assert":
			at, ex, _ := strings.Cut(v, "::")
			cl, er := mkClause(strings.TrimSpace(ex))
			if er != nil {
				return er
			}
			c.asserts = append(c.asserts, &AssertSpec{strings.TrimSpace(at), cl})
		default:
			return fmt.Errorf("unknown item %q", it)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func tagActive(tags []string, prop string) bool {
	if len(tags) == 0 || prop == "" {
		return true
	}
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}
