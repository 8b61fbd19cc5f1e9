package main

// Loading: the type-checked program of /repo, its SSA form, and the values its
// package variables have once initialisation is over.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	repo       string
	ssa        *ssa.Program
	fset       *token.FileSet
	pkgs       []*packages.Package          // repo packages, dependencies first
	byPath     map[string]*packages.Package // repo packages by short path ("lib/pool")
	spkg       map[string]*ssa.Package
	infos      map[*ssa.Function]*fnInfo
	ifaceTypes map[string]types.Type
	maxUnroll  int
	u256       types.Type
	funcs      map[string]*ssa.Function // by short name
	badSpecs   map[string]string
	nFuncs     int
}

const modPath = "uniswap-simulator"

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// loadProg loads /repo with the given files laid over it.
func loadProg(repo string, overlay map[string][]byte) (*Prog, error) {
	bad := map[string]string{}
	for try := 0; ; try++ {
		p, retry, err := loadOnce(repo, overlay, bad)
		if err == nil {
			p.badSpecs = bad
			return p, nil
		}
		if len(retry) == 0 || try > 8 {
			return nil, err
		}
		for f, msg := range retry {
			bad[f] = msg
			delete(overlay, f)
		}
	}
}

func loadOnce(repo string, overlay map[string][]byte, bad map[string]string) (*Prog, map[string]string, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo, Fset: fset, Env: goEnv(), Overlay: overlay,
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	p := &Prog{repo: repo, fset: fset, byPath: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{},
		infos: map[*ssa.Function]*fnInfo{}, ifaceTypes: map[string]types.Type{}, maxUnroll: 300, funcs: map[string]*ssa.Function{}}
	retry := map[string]string{}
	var firstErr error
	packages.Visit(roots, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, modPath) {
			for _, e := range q.Errors {
				f := e.Pos
				if i := strings.Index(f, ".go:"); i >= 0 {
					f = f[:i+3]
				}
				if _, ok := overlay[f]; ok {
					retry[f] = e.Msg
				} else if firstErr == nil {
					firstErr = fmt.Errorf("%s: %s", e.Pos, e.Msg)
				}
			}
			p.pkgs = append(p.pkgs, q)
			p.byPath[strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")] = q
		}
	})
	if len(retry) > 0 {
		return nil, retry, fmt.Errorf("specifications do not compile: %v", retry)
	}
	if firstErr != nil {
		return nil, nil, firstErr
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	p.ssa = prog
	for _, q := range p.pkgs {
		sp := prog.Package(q.Types)
		if sp == nil {
			return nil, nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		sp.Build()
		p.spkg[q.PkgPath] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if isRepo(fn) && fn.Blocks != nil {
			p.nFuncs++
		}
	}
	for _, q := range p.pkgs {
		sp := p.spkg[q.PkgPath]
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				p.funcs[shortName(x)] = x
			case *ssa.Type:
				nt, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				if isUint256(nt) {
					p.u256 = nt
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						p.funcs[shortName(f)] = f
					}
				}
			}
		}
	}
	if p.u256 == nil {
		return nil, nil, fmt.Errorf("no 256-bit integer type")
	}
	return p, nil, nil
}

func (p *Prog) pos(fn *ssa.Function) string {
	ps := p.fset.Position(fn.Pos())
	f, err := filepath.Rel(p.repo, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) posOf(ps token.Pos) string {
	q := p.fset.Position(ps)
	f, err := filepath.Rel(p.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func isSpecFile(name string) bool { return strings.HasPrefix(filepath.Base(name), "zz_verif") }

// isSpecFn: the function comes from a specification, not from the repository.
func (p *Prog) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return isSpecFile(p.fset.Position(fn.Pos()).Filename)
}

var _ = ast.Inspect

func newMach(e *Eng, p *Prog, cfg *Cfg) *Mach {
	if cfg == nil {
		cfg = &Cfg{}
	}
	e.closedTables = cfg.closed
	e.smallInts = cfg.small
	e.limbs = cfg.limbs
	e.divCases = cfg.divCases
	e.sortedFld = map[string]string{}
	for tn, fn := range sortedRec {
		i := strings.Index(tn, ".")
		for _, q := range p.pkgs {
			if q.Types.Name() != tn[:i] {
				continue
			}
			o := q.Types.Scope().Lookup(tn[i+1:])
			if o == nil {
				continue
			}
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for k := 0; k < s.NumFields(); k++ {
					if s.Field(k).Name() == fn {
						e.sortedFld[tn] = fmt.Sprint(k)
					}
				}
			}
		}
	}
	return &Mach{e: e, prog: p, cfg: cfg, typ: map[*Term]types.Type{}, birth: map[*Term]int{},
		u256: p.u256, clos: map[string]*closure{}, fnsRun: map[string]bool{}, iters: map[*Term]*iterInfo{},
		lent: map[*Term]string{}, keySeps: map[string]bool{}}
}

// bootHeap computes what the package variables hold after initialisation.
// Variables that other functions assign keep an unknown value.
func (m *Mach) bootHeap() map[*Term]Val {
	e := m.e
	m.booting = true
	lim := e.limit
	e.limit = 6
	if m.cfg.tables {
		lim = 6
	}
	unr := m.prog.maxUnroll
	m.prog.maxUnroll = 20
	defer func() { e.limit, m.prog.maxUnroll = lim, unr }()
	defer func() { m.booting = false }()
	st := &State{e.T, map[*Term]Val{}}
	for _, q := range m.prog.pkgs {
		sp := m.prog.spkg[q.PkgPath]
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				t := m.global(g)
				m.storeZero(st, t, m.typ[t])
			}
		}
	}
	for _, q := range m.prog.pkgs {
		sp := m.prog.spkg[q.PkgPath]
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		func() {
			saved := st.clone()
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Undecided); ok {
						m.notes = append(m.notes, "initialisation of "+q.PkgPath+": "+u.msg)
						m.stack = nil
						st = saved
						// nothing is known about this package's variables
						for k := range st.heap {
							if rootGlob(k, sp.Pkg.Name()) {
								delete(st.heap, k)
							}
						}
						return
					}
					panic(r)
				}
			}()
			_, st2 := m.call(fn, nil, nil, st)
			if st2.reach == e.F {
				undecided("initialisation always panics")
			}
			st = st2
			st.reach = e.T
		}()
	}
	// objects of initialisation become named constants of the program
	sub := map[*Term]*Node{}
	ren := func(t *Term) *Term {
		g := e.mk(&Term{op: "gobj", sort: SRef, str: t.str})
		if ty, ok := m.typ[t]; ok {
			m.setType(g, ty)
		}
		return g
	}
	for t := range m.birth {
		sub[t] = e.leaf(ren(t))
	}
	mutable := m.assignedGlobals()
	out := map[*Term]Val{}
	for _, k := range sortedKeys(st.heap) {
		v := st.heap[k]
		if g := globRoot(k); g != "" && mutable[g] {
			continue
		}
		if k.op == "tok" || k.op == "mem" {
			continue
		}
		nk := e.subst(e.leaf(k), sub).term
		if ty, ok := m.typ[k]; ok {
			m.setType(nk, ty)
		}
		nv := m.mapVal(v, func(n *Node) *Node { return e.subst(n, sub) })
		if k.op == "cont" && !m.cfg.tables {
			if n, ok := nv.(*Node); ok && (n.term == nil || n.term.op == "qcomp") {
				continue // a computed table: known by name only
			}
		}
		out[nk] = nv
	}
	// types of the renamed addresses
	for t, ty := range m.typ {
		if rootAlloc(t) {
			nt := e.subst(e.leaf(t), sub)
			if nt.term != nil {
				m.setType(nt.term, ty)
			}
		}
	}
	m.boot = out
	return out
}

func globRoot(k *Term) string {
	for {
		switch k.op {
		case "glob":
			return k.str
		case "fld", "idx", "cont", "mapc":
			k = k.args[0]
			continue
		}
		return ""
	}
}

func rootGlob(k *Term, pkg string) bool { return strings.HasPrefix(globRoot(k), pkg+".") }

// assignedGlobals: package variables whose address is used outside initialisation
// for anything but reading.
func (m *Mach) assignedGlobals() map[string]bool {
	out := map[string]bool{}
	for fn := range ssautil.AllFunctions(m.prog.ssa) {
		if !isRepo(fn) || fn.Blocks == nil || m.prog.isSpecFn(fn) {
			continue
		}
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		if strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if onlyRead(x.(ssa.Value)) {
							continue
						}
					}
					out[g.Pkg.Pkg.Name()+"."+g.Name()] = true
				}
			}
		}
	}
	return out
}

func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// entry makes the state a function starts in.
func (m *Mach) entry() *State {
	st := &State{m.e.T, map[*Term]Val{}}
	for k, v := range m.boot {
		st.heap[k] = v
	}
	return st
}

// param makes the unknown value of a parameter.
func (m *Mach) param(name string, ty types.Type) Val {
	e := m.e
	if s, ok := leafSort(ty); ok {
		n := e.raw("par", s, name)
		if s == SRef {
			m.noteRefs(n, ty)
		}
		return n
	}
	if isSlice(ty) {
		b := e.mk(&Term{op: "sbase", sort: SRef, args: []*Term{e.mk(&Term{op: "par", sort: SRef, str: name})}})
		m.setType(b, &backing{elem: ty.Underlying().(*types.Slice).Elem()})
		return &SliceV{e.leaf(b), e.cint(SI64, 0), m.sliceLen0(nil, b.args[0])}
	}
	if isBigArray(ty) {
		return e.leaf(e.mk(&Term{op: "seq0", sort: SSeq, args: []*Term{e.mk(&Term{op: "par", sort: SRef, str: name}), e.cint(SI64, ty.Underlying().(*types.Array).Len()).term}}))
	}
	ts, ns := components(ty)
	a := &Agg{}
	for i, t := range ts {
		a.f = append(a.f, m.param(name+"."+ns[i], t))
	}
	return a
}

func sortedStrings(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var _ = big.NewInt
