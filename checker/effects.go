package main

// Rules over the points-to analysis: what may be written, and by whom.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	ptaMu   sync.Mutex
	ptaMemo = map[*ssa.Program]*pta{}
)

func analysed(p *Prog) *pta {
	ptaMu.Lock()
	defer ptaMu.Unlock()
	if ptaMemo[p.ssa] == nil {
		ptaMemo[p.ssa] = pointsTo(p)
	}
	return ptaMemo[p.ssa]
}

// effect is a rule over the whole repository.
type effect struct {
	what string
	f    func(a *pta, o *outcome)
}

func (r *effect) name() string { return r.what }

func (r *effect) run(p *Prog, deadline time.Time) []*outcome {
	t0 := time.Now()
	a := analysed(p)
	o := &outcome{rule: r.what, target: "repository", status: "ok"}
	seen := map[string]bool{}
	for _, in := range a.insts {
		seen[shortName(in.fn)] = true
	}
	for k := range seen {
		o.fns = append(o.fns, k)
	}
	sort.Strings(o.fns)
	r.f(a, o)
	o.wall = time.Since(t0)
	return []*outcome{o}
}

func (o *outcome) violate(where, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	for _, d := range o.diffs {
		if d.where == where && d.msg == msg {
			return
		}
	}
	o.status = "violated"
	o.diffs = append(o.diffs, Diff{where: where, msg: msg})
}

func inLib(pkg string) bool {
	return strings.HasPrefix(pkg, modPath+"/lib/") || strings.HasPrefix(pkg, modPath+"/uint256")
}

// fixedState: package variables of the libraries and everything reachable from them.
func (a *pta) fixedState() map[*pobj]string {
	fixed := map[*pobj]string{}
	var work []*pobj
	for g, o := range a.gobj {
		if inLib(g.Pkg.Pkg.Path()) && !isSpecFile(a.p.fset.Position(g.Pos()).Filename) {
			fixed[o] = o.what
			work = append(work, o)
		}
	}
	sort.Slice(work, func(i, j int) bool { return work[i].id < work[j].id })
	byObj := map[*pobj][]*pnode{}
	for l, n := range a.cells {
		byObj[l.o] = append(byObj[l.o], n)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		var next []*pobj
		for _, n := range byObj[o] {
			for l := range n.pts {
				if l.o.boot && fixed[l.o] == "" {
					fixed[l.o] = fixed[o]
					next = append(next, l.o)
				}
			}
		}
		sort.Slice(next, func(i, j int) bool { return next[i].id < next[j].id })
		work = append(work, next...)
	}
	return fixed
}

// unchanged: nothing that runs after initialisation writes to package variables
// of the libraries or to anything reachable from them.
func unchanged() rule {
	return &effect{"no write after start-up may reach a package variable or what it refers to", func(a *pta, o *outcome) {
		fixed := a.fixedState()
		for _, w := range a.writes {
			if w.in.boot {
				continue
			}
			o.nobs++
			for l := range w.addr.pts {
				if g, ok := fixed[l.o]; ok {
					o.violate(a.at(w), "may change %s", g)
				}
			}
		}
	}}
}

// at describes the place of a write, with the place it is called from when it
// is inside the number type.
func (a *pta) at(w pwrite) string {
	if w.in.site != nil && w.in.fn.Pkg != nil && w.in.fn.Pkg.Pkg.Name() == "uint256" {
		return shortName(w.in.fn) + " called in " + shortName(w.in.site.Parent()) + " (" + a.p.posOf(w.in.site.Pos()) + ")"
	}
	s := shortName(w.in.fn) + " (" + a.p.posOf(w.at.Pos()) + ")"
	if w.in.site != nil {
		s += " called in " + shortName(w.in.site.Parent()) + " (" + a.p.posOf(w.in.site.Pos()) + ")"
	}
	return s
}

// argumentsKept: exported operations leave the numbers, lists and pools they are given alone.
func argumentsKept() rule {
	return &effect{"no write may reach a number, list or pool that was passed as an argument, at once or later", func(a *pta, o *outcome) {
		for _, w := range a.writes {
			if w.in.boot {
				continue
			}
			o.nobs++
			if a.fresh[w.in.fn] || w.in.site != nil && a.fresh[w.in.site.Parent()] {
				continue // decided by value: these change nothing they are given
			}
			for l := range w.addr.pts {
				if l.o.arg != "" && !strings.HasPrefix(l.path, "@") {
					o.violate(a.at(w), "may change %s", l.o.arg)
				}
			}
		}
	}}
}

// constants: the values package variables have after start-up.
type constants struct{}

func (constants) name() string { return "values after start-up" }

func (constants) run(p *Prog, deadline time.Time) []*outcome {
	pow := func(b, n int64) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(n), nil) }
	minus := func(a *big.Int, n int64) *big.Int { return new(big.Int).Sub(a, big.NewInt(n)) }
	maxPrice, _ := new(big.Int).SetString("1461446703485210103287273052203988822378723970342", 10)
	numbers := map[string]*big.Int{
		"constants.Zero": big.NewInt(0), "constants.One": big.NewInt(1), "constants.NegativeOne": minus(pow(2, 256), 1),
		"constants.MaxUint256": minus(pow(2, 256), 1), "constants.Q128": pow(2, 128), "constants.Q96": pow(2, 96), "constants.Q192": pow(2, 192),
		"constants.E6": pow(10, 6), "constants.E18": pow(10, 18), "sqrtprice_math.MaxUint160": minus(pow(2, 160), 1), "swapmath.MaxFee": pow(10, 6),
		"tickmath.Q32": pow(2, 32), "tickmath.MinSqrtRatio": big.NewInt(4295128739), "tickmath.MaxSqrtRatio": maxPrice,
	}
	m := newMach(NewEng(), p.copy(), nil)
	m.bootHeap()
	e := m.e
	st := m.entry()
	var outs []*outcome
	decide := func(name string, got *Node, want string, ok bool) {
		o := &outcome{rule: "has its value after start-up", target: name, status: "ok", nobs: 1}
		switch {
		case got == nil:
			o.status, o.note = "undecided", "not found"
		case !ok && (got.term == nil || !got.term.isConst()):
			o.status, o.note = "undecided", "its value is not a known constant"
		case !ok:
			o.violate(name, "is %s after start-up, required is %s", got.term.num, want)
		}
		outs = append(outs, o)
	}
	variable := func(name string) (*ssa.Global, *Term) {
		for _, q := range p.pkgs {
			if q.Types.Name() != name[:strings.Index(name, ".")] {
				continue
			}
			if g, ok := p.spkg[q.PkgPath].Members[name[strings.Index(name, ".")+1:]].(*ssa.Global); ok {
				return g, m.global(g)
			}
		}
		return nil, nil
	}
	var names []string
	for n := range numbers {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var got *Node
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Undecided); !ok {
						panic(r)
					}
				}
			}()
			g, t := variable(n)
			if g == nil {
				return
			}
			ptr, ok := g.Type().(*types.Pointer).Elem().(*types.Pointer)
			if !ok || !types.Identical(ptr.Elem(), p.u256) {
				return
			}
			if _, known := st.heap[t]; !known {
				return
			}
			v, _ := m.load(st, t, ptr).(*Node)
			if v != nil && v.term != nil {
				got, _ = m.loadN(st, v, ptr.Elem()).(*Node)
			}
		}()
		want := wrap(SU256, new(big.Int).Set(numbers[n]))
		ok := false
		if got != nil {
			if c, isC := got.constInt(); isC {
				ok = wrap(SU256, new(big.Int).Set(c)).Cmp(want) == 0
			}
		}
		decide(n, got, want.String(), ok)
	}
	// spacings
	if g, t := variable("constants.TickSpaces"); g != nil {
		mt, _ := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		for _, fs := range [][2]int64{{500, 10}, {3000, 60}, {10000, 200}} {
			var got *Node
			if mt != nil && st.heap[t] != nil {
				if v, ok := m.load(st, t, mt).(*Node); ok && v.term != nil {
					if c, ok := st.heap[m.mapKey(v.term)].(*Node); ok {
						got = e.build("mget", SI64, typeName(mt.Elem()), nil, c, e.cint(SI64, fs[0]))
					}
				}
			}
			ok := got != nil && got == e.cint(SI64, fs[1])
			decide(fmt.Sprintf("constants.TickSpaces[%d]", fs[0]), got, fmt.Sprint(fs[1]), ok)
		}
	}
	for n, v := range map[string]int64{"MinTick": -887272, "MaxTick": 887272} {
		for _, q := range p.pkgs {
			if q.Types.Name() != "tickmath" {
				continue
			}
			c, ok := q.Types.Scope().Lookup(n).(*types.Const)
			o := &outcome{rule: "has its value", target: "tickmath." + n, status: "ok", nobs: 1}
			if !ok {
				o.status, o.note = "undecided", "not found"
			} else if x, exact := constant.Int64Val(constant.ToInt(c.Val())); !exact || x != v {
				o.violate("tickmath."+n, "is %s, required is %d", c.Val(), v)
			}
			outs = append(outs, o)
		}
	}
	return outs
}
