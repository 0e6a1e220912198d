package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	funcs   map[string]*ssa.Function // by short name
	specs   *Specs
	typeFns map[string]*ssa.Function // values of named function types that have a contract
	mutated map[*ssa.Global]bool // globals stored to outside init
	names   map[*ssa.Function]string
	lits    map[string]*ssa.Function
}

func shortName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/cmd/krypto431.", "main.")
	s = strings.ReplaceAll(s, modPath+"/diana.", "diana.")
	s = strings.ReplaceAll(s, modPath+"/crand.", "crand.")
	s = strings.ReplaceAll(s, modPath+".", "krypto431.")
	return s
}

// driverOverlay: the driver functions under contracts/drivers (callers of the real code that carry contracts of
// their own, e.g. applying a returned closure), placed in the packages they call.
func driverOverlay(dir, specs string) map[string][]byte {
	ov := map[string][]byte{}
	for d, pkg := range map[string]string{"root": "", "cmd": "cmd/krypto431", "crand": "crand", "diana": "diana"} {
		fs, _ := filepath.Glob(filepath.Join(specs, "drivers", d, "*.go"))
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				ov[filepath.Join(dir, pkg, "zz_verif_"+filepath.Base(f))] = b
			}
		}
	}
	return ov
}

func loadPkgs(dir string, ov map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: ov}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	return pkgs, nil
}

func loadWorld(dir, specs string) (*World, error) {
	if a, err := filepath.Abs(dir); err == nil {
		dir = a
	}
	pkgs, err := loadPkgs(dir, driverOverlay(dir, specs))
	if err != nil {
		// drivers that no longer fit the code are left out: contracts on them then fail as missing
		fmt.Fprintln(os.Stderr, "drivers left out:", err)
		if pkgs, err = loadPkgs(dir, nil); err != nil {
			return nil, err
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, funcs: map[string]*ssa.Function{}, typeFns: map[string]*ssa.Function{}, mutated: map[*ssa.Global]bool{}, names: map[*ssa.Function]string{}}
	for _, p := range spkgs {
		if p != nil && isRepoPkg(p.Pkg) {
			w.pkgs = append(w.pkgs, p)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !isRepoPkg(fn.Pkg.Pkg) {
			continue
		}
		n := shortName(fn)
		w.funcs[n] = fn
		w.names[fn] = n
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if ok && isInit && fn.Name() == "init" {
					continue
				}
				// a store through an element of a global slice writes the table
				if ok {
					if ia, isIA := s.Addr.(*ssa.IndexAddr); isIA {
						for v := ia.X; v != nil; {
							switch y := v.(type) {
							case *ssa.UnOp:
								v = y.X
							case *ssa.IndexAddr:
								v = y.X
							case *ssa.Slice:
								v = y.X
							case *ssa.Global:
								w.mutated[y] = true
								v = nil
							default:
								v = nil
							}
						}
					}
				}
				// any use of a global other than load marks it mutated
				for _, op := range in.Operands(nil) {
					g, isG := (*op).(*ssa.Global)
					if !isG {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if y.Addr == g {
							w.mutated[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						w.mutated[g] = true
					default:
						w.mutated[g] = true
					}
				}
				_ = s
			}
		}
	}
	return w, nil
}

// roleNames maps closures to stable role names, e.g. "main.keys:filter".
func (w *World) roleFunc(name string) *ssa.Function {
	if f, ok := w.funcs[name]; ok {
		return f
	}
	// outer@N : closure of `outer` whose signature is given, e.g. main.keys@func(*krypto431.Key) bool
	if i := strings.Index(name, "@"); i > 0 {
		outer := w.funcs[name[:i]]
		sig := name[i+1:]
		if outer == nil {
			return nil
		}
		var hits []*ssa.Function
		for _, a := range outer.AnonFuncs {
			if types.TypeString(a.Signature, func(p *types.Package) string { return p.Name() }) == sig || sigString(a) == sig {
				hits = append(hits, a)
			}
		}
		if len(hits) == 1 {
			return hits[0]
		}
	}
	return nil
}

// typeImpls finds the functions of the repository that are converted to the named function type.
func (w *World) typeImpls(name string) (fns []*ssa.Function, unknown []string, ok bool) {
	i := strings.Index(name, ".")
	if i < 0 || w.funcs[name] != nil {
		return
	}
	var typ types.Type
	for _, p := range w.pkgs {
		if p.Pkg.Name() == name[:i] {
			if m, isT := p.Members[name[i+1:]].(*ssa.Type); isT {
				if _, isS := m.Type().Underlying().(*types.Signature); isS {
					typ = m.Type()
				}
			}
		}
	}
	if typ == nil {
		return
	}
	ok = true
	seen := map[*ssa.Function]bool{}
	for _, n := range sortedKeys(w.funcs) {
		f := w.funcs[n]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(*ssa.ChangeType)
				if !isC || !types.Identical(c.Type(), typ) {
					continue
				}
				gs := funcValues(c.X, 0)
				if len(gs) == 0 {
					unknown = append(unknown, n)
				}
				for _, g := range gs {
					if !seen[g] {
						seen[g] = true
						fns = append(fns, g)
					}
				}
			}
		}
	}
	return
}

// funcValues: the functions v can be, nil if not known.
func funcValues(v ssa.Value, depth int) (out []*ssa.Function) {
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.Phi:
		if depth > 3 {
			return nil
		}
		for _, e := range v.Edges {
			fs := funcValues(e, depth+1)
			if len(fs) == 0 {
				return nil
			}
			out = append(out, fs...)
		}
		return out
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || depth > 3 {
			return nil
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != a {
					return nil
				}
				fs := funcValues(r.Val, depth+1)
				if len(fs) == 0 {
					return nil
				}
				out = append(out, fs...)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return out
	}
	return nil
}

func sigString(f *ssa.Function) string {
	var ps []string
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ps = append(ps, shortType(f.Signature.Params().At(i).Type()))
	}
	r := ""
	if f.Signature.Results().Len() > 0 {
		var rs []string
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs = append(rs, shortType(f.Signature.Results().At(i).Type()))
		}
		r = strings.Join(rs, ",")
	}
	return "func(" + strings.Join(ps, ",") + ")" + r
}

// natural loops ----------------------------------------------------------------

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	cells  []*ssa.Alloc // register allocs written inside the loop, declared outside
}

var loopCache = map[*ssa.Function][]*Loop{}

func loopsOf(fn *ssa.Function) []*Loop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	byH := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &Loop{fn: fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
				}
				// collect
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	var out []*Loop
	for _, b := range fn.Blocks {
		if l := byH[b]; l != nil {
			out = append(out, l)
		}
	}
	// order by source position of the loop (first instruction with a position), falling back to block index
	pos := func(l *Loop) int {
		best := int(^uint(0) >> 1)
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := int(in.Pos()); p > 0 && p < best {
					best = p
				}
			}
		}
		return best
	}
	for i := 0; i < len(out); i++ {
		for j := i + 1; j < len(out); j++ {
			pi, pj := pos(out[i]), pos(out[j])
			if pj < pi || pj == pi && len(out[j].blocks) > len(out[i].blocks) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	for i, l := range out {
		l.ord = i + 1
		seen := map[*ssa.Alloc]bool{}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := rootAlloc(st.Addr)
				if a == nil || a.Heap || seen[a] {
					continue
				}
				if l.blocks[a.Block()] {
					continue
				}
				seen[a] = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && seen[a] {
					l.cells = append(l.cells, a)
				}
			}
		}
	}
	loopCache[fn] = out
	return out
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	for _, l := range loopsOf(fn) {
		if l.header == b {
			return l
		}
	}
	return nil
}

// roleOf returns the role name ("outer@signature") of an anonymous function when unique.
func (w *World) roleOf(fn *ssa.Function) string {
	if fn.Parent() == nil {
		return ""
	}
	n := shortName(fn.Parent()) + "@" + sigString(fn)
	if w.roleFunc(n) == fn {
		return n
	}
	return ""
}
