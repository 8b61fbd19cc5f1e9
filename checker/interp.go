package main

// Abstract execution of SSA functions over value-graph states.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cfg struct {
	vocab    map[string]*Vocab
	tokTypes map[string]string // type name -> "region" or "world"
	noModel  map[string]bool   // functions not to be replaced by their model
	inline   map[string]bool
	fieldTok map[string]string    // "pkg.Type.Field" -> token group
	derived  map[string][2]string // "pkg.Type.Field" -> table and field it is the entry of
	tables   bool                 // keep computed tables open
	small    bool                 // integers are exact as floating-point numbers
	bare     string               // functions of this package are followed into their bodies
	divCases bool                 // quotients by cases
	extra    map[string]model     // further operations
	unroll   int                  // iterations of loops followed one by one
	limbs    bool                 // machine words as exact integers
	closed   bool                 // looking up a constant table is one operation
}

type Mach struct {
	e       *Eng
	prog    *Prog
	cfg     *Cfg
	typ     map[*Term]types.Type
	birth   map[*Term]int
	nalloc  int
	writes  int
	u256    types.Type
	clos    map[string]*closure
	boot    map[*Term]Val
	stack   []*ssa.Function
	depth   int // loop nesting
	nvar    int
	fnsRun  map[string]bool
	extUsed map[string]int
	extSide int
	texts   [3]int           // lookups in constant text by either side
	cutK    int              // iterations followed when loops are not summarised (0: summarised)
	tinyN   int64            // length of ordered lists when it is known
	cut     *Node            // when there are more of them
	named   [3]map[*Node]int // initial values of the variables known by name only, per side
	nblk    int
	nloop   int
	nsolve  int
	nsearch int
	notes   []string
	booting bool
	iters   map[*Term]*iterInfo
	lent    map[*Term]string // numbers that belong to another object
	lentW   []string         // changes made to such numbers
	keySeps map[string]bool
	touched string // an object taken as a whole was worked on from within its package
}

type closure struct {
	fn   *ssa.Function
	bind []Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	ret      Val // for returns (to == nil)
	vals     map[ssa.Value]Val
}

type deferred struct {
	in   *ssa.Defer
	cond *Node
	fnv  Val
	args []Val
}

type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	bind   []Val
	info   *fnInfo
	defers []*deferred
}

type fnInfo struct {
	order []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (m *Mach) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := m.prog.infos[fn]; ok {
		return i
	}
	i := &fnInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for j := len(post) - 1; j >= 0; j-- {
		i.pos[post[j]] = len(i.order)
		i.order = append(i.order, post[j])
	}
	for _, b := range i.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if i.pos[s] <= i.pos[b] {
				undecided("irreducible control flow in %s", fn)
			}
		}
	}
	m.prog.infos[fn] = i
	return i
}

// call runs fn and gives its result and the state after it.
func (m *Mach) call(fn *ssa.Function, bind []Val, args []Val, st *State) (Val, *State) {
	if fn.Blocks == nil {
		undecided("no body: %s", fn)
	}
	for _, f := range m.stack {
		if f == fn {
			undecided("recursion through %s", fn)
		}
	}
	if len(m.stack) > 60 {
		undecided("calls nested too deeply")
	}
	m.stack = append(m.stack, fn)
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	m.fnsRun[shortName(fn)] = true
	f := &frame{fn: fn, vals: map[ssa.Value]Val{}, bind: bind, info: m.infoOf(fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			f.vals[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.vals[p] = bind[i]
		}
	}
	exits := m.region(f, nil, fn.Blocks[0], st.clone(), nil)
	var sts []*State
	var v Val
	for _, x := range exits {
		if x.to != nil || x.st.reach == m.e.F {
			continue
		}
		sts = append(sts, x.st)
	}
	if len(sts) == 0 {
		return m.junkRes(fn.Signature), &State{m.e.F, map[*Term]Val{}}
	}
	for i := len(exits) - 1; i >= 0; i-- {
		x := exits[i]
		if x.to != nil || x.st.reach == m.e.F {
			continue
		}
		if v == nil {
			v = x.ret
		} else {
			v = m.iteVal(x.st.reach, x.ret, v)
		}
	}
	out := m.merge(sts)
	return m.restrictVal(v, out.reach), out
}

func (m *Mach) junkRes(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return &Agg{}
	case 1:
		return m.zero(sig.Results().At(0).Type())
	}
	a := &Agg{}
	for i := 0; i < sig.Results().Len(); i++ {
		a.f = append(a.f, m.zero(sig.Results().At(i).Type()))
	}
	return a
}

type phiEnv map[*ssa.Phi]Val

// region executes the blocks of a loop body (or of a function when body is nil)
// from entry. Edges that leave the region, returns, and edges back to entry
// (to == entry) are returned. fixed gives the values of entry's phis.
func (m *Mach) region(f *frame, body map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *State, fixed phiEnv) []*edge {
	pend := map[*ssa.BasicBlock][]*edge{}
	var out []*edge
	push := func(x *edge) {
		if x.st.reach == m.e.F {
			return
		}
		if x.to == nil || x.to == entry || body != nil && !body[x.to] {
			out = append(out, x)
			return
		}
		pend[x.to] = append(pend[x.to], x)
	}
	inner := map[*ssa.BasicBlock]bool{}
	for _, b := range f.info.order {
		if body != nil && !body[b] || inner[b] {
			continue
		}
		var cur *State
		var ins []*edge
		if b == entry {
			cur = st
		} else {
			ins = pend[b]
			if len(ins) == 0 {
				continue
			}
			var sts []*State
			for _, x := range ins {
				sts = append(sts, x.st)
			}
			cur = m.merge(sts)
		}
		lb, isHead := f.info.loops[b]
		if isHead && (b != entry || body == nil) {
			// an inner loop
			init := phiEnv{}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				init[p] = m.phiVal(f, p, b, ins, cur)
			}
			for x := range lb {
				inner[x] = true
			}
			for _, x := range m.loop(f, b, lb, cur, init) {
				if x.to == b {
					undecided("loop left an edge to its head")
				}
				push(x)
			}
			continue
		}
		if cur.reach == m.e.F {
			continue
		}
		m.nblk++
		if b == entry && fixed != nil {
			for p, v := range fixed {
				f.vals[p] = v
			}
		} else {
			vs := map[*ssa.Phi]Val{}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vs[p] = m.phiVal(f, p, b, ins, cur)
			}
			for p, v := range vs {
				f.vals[p] = v
			}
		}
		for _, x := range m.block(f, b, cur) {
			push(x)
		}
	}
	return out
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

func (m *Mach) phiVal(f *frame, p *ssa.Phi, b *ssa.BasicBlock, ins []*edge, st *State) Val {
	var v Val
	for i := len(ins) - 1; i >= 0; i-- {
		x := ins[i]
		k := predIndex(b, x.from)
		// the same predecessor on two edges: use them in order
		for j := 0; j < i; j++ {
			if ins[j].from == x.from {
				for k2 := k + 1; k2 < len(b.Preds); k2++ {
					if b.Preds[k2] == x.from {
						k = k2
						break
					}
				}
			}
		}
		w := m.getAt(f, p.Edges[k], x.st)
		if v == nil {
			v = w
		} else {
			v = m.iteVal(x.st.reach, w, v)
		}
	}
	return m.restrictVal(v, st.reach)
}

func (m *Mach) getAt(f *frame, v ssa.Value, st *State) Val {
	return m.restrictVal(m.get0(f, v), st.reach)
}

func (m *Mach) get0(f *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.e.leaf(m.global(x))
	case *ssa.Function:
		return m.fnRef(x, nil)
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.vals[v]
	if !ok {
		undecided("%s: value %s is not defined on a path that uses it", f.fn, v.Name())
	}
	return r
}

func (m *Mach) global(g *ssa.Global) *Term {
	t := m.e.mk(&Term{op: "glob", sort: SRef, str: g.Pkg.Pkg.Name() + "." + g.Name()})
	m.setType(t, g.Type().Underlying().(*types.Pointer).Elem())
	return t
}

func (m *Mach) fnRef(fn *ssa.Function, bind []Val) *Node {
	id := fn.String()
	if bind != nil {
		m.nvar++
		id = fmt.Sprintf("%s$%d", id, m.nvar)
	}
	if _, ok := m.clos[id]; !ok {
		m.clos[id] = &closure{fn, bind}
	}
	return m.e.raw("fn", SRef, id)
}

func (m *Mach) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	s, ok := leafSort(t)
	if !ok {
		undecided("constant of type %s", t)
	}
	return m.constOf(s, c.Value)
}

func (m *Mach) constOf(s Sort, v constant.Value) *Node {
	switch {
	case s == SBool:
		return m.e.cbool(constant.BoolVal(v))
	case s == SStr:
		return m.e.cstr(constant.StringVal(v))
	case s == SF64:
		f, _ := constant.Float64Val(v)
		return m.e.leaf(m.e.fconst(f))
	case s.arith():
		i := constant.ToInt(v)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			undecided("constant %s", v)
		}
		return m.e.cbig(s, n)
	}
	undecided("constant %s", v)
	return nil
}

func (m *Mach) fallthroughEdge(b *ssa.BasicBlock, st *State) []*edge {
	return []*edge{{from: b, to: b.Succs[0], st: st}}
}

// block executes the instructions of b.
func (m *Mach) block(f *frame, b *ssa.BasicBlock, st *State) []*edge {
	e := m.e
	for _, in := range b.Instrs {
		e.tick()
		if st.reach == e.F {
			return nil
		}
		get := func(v ssa.Value) Val { return m.getAt(f, v, st) }
		getN := func(v ssa.Value) *Node {
			n, ok := m.getAt(f, v, st).(*Node)
			if !ok {
				undecided("%s: %s is not a scalar", f.fn, v.Name())
			}
			return n
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := getN(x.Cond)
			t := &State{e.and(st.reach, c), st.heap}
			el := &State{e.and(st.reach, e.not(c)), st.heap}
			return []*edge{{from: b, to: b.Succs[0], st: t.clone()}, {from: b, to: b.Succs[1], st: el.clone()}}
		case *ssa.Jump:
			return m.fallthroughEdge(b, st)
		case *ssa.Return:
			var v Val
			if len(x.Results) == 1 {
				v = get(x.Results[0])
			} else {
				a := &Agg{}
				for _, r := range x.Results {
					a.f = append(a.f, get(r))
				}
				v = a
			}
			return []*edge{{from: b, to: nil, st: st, ret: v}}
		case *ssa.Panic:
			return nil
		case *ssa.RunDefers:
			for i := len(f.defers) - 1; i >= 0; i-- {
				d := f.defers[i]
				c := e.and(d.cond, st.reach)
				if c == e.F {
					continue
				}
				yes := &State{c, st.heap}
				no := &State{e.and(st.reach, e.not(d.cond)), st.heap}
				_, ys := m.dispatch(f, &d.in.Call, d.fnv, d.args, yes.clone(), d.in)
				st = m.merge([]*State{ys, no.clone()})
			}
		case *ssa.Defer:
			for _, d := range f.defers {
				if d.in == x {
					undecided("defer inside a loop")
				}
			}
			fv, args := m.callArgs(f, &x.Call, st)
			f.defers = append(f.defers, &deferred{x, st.reach, fv, args})
		case *ssa.Go:
			fv, args := m.callArgs(f, &x.Call, st)
			st = m.goEffect(f, x, fv, args, st)
		case *ssa.Call:
			fv, args := m.callArgs(f, &x.Call, st)
			var v Val
			v, st = m.dispatch(f, &x.Call, fv, args, st, x)
			f.vals[x] = v
		case *ssa.Store:
			m.storeN(st, getN(x.Addr), x.Addr.Type().Underlying().(*types.Pointer).Elem(), get(x.Val))
		case *ssa.MapUpdate:
			m.mapPut(st, getN(x.Map), x.Map.Type(), get(x.Key), get(x.Value))
		case *ssa.Send, *ssa.Select:
			undecided("%s: channels", f.fn)
		case ssa.Value:
			f.vals[x] = m.value(f, x, st)
		default:
			undecided("%s: instruction %T", f.fn, in)
		}
	}
	undecided("%s: block without end", f.fn)
	return nil
}

func (m *Mach) mapPut(st *State, mp *Node, ty types.Type, k, v Val) {
	mt := ty.Underlying().(*types.Map)
	kn := m.mapKeyText(m.pack(k, mt.Key()))
	vn := m.pack(v, mt.Elem())
	ts, cs := m.leafConds(m.e.restrict(mp, st.reach))
	for i, t := range ts {
		if t.op == "nil" {
			continue
		}
		key := m.mapKey(t)
		old := m.node(st, key)
		st.heap[key] = m.e.ite(cs[i], m.e.op("mput", SState, old, kn, vn), old)
	}
}

func (m *Mach) mapGet(st *State, mp *Node, ty types.Type, k Val) (Val, *Node) {
	mt := ty.Underlying().(*types.Map)
	kn := m.mapKeyText(m.pack(k, mt.Key()))
	has := m.e.F
	v := m.overLeaves(m.e.restrict(mp, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return m.zero(mt.Elem())
		}
		c := m.node(st, m.mapKey(t))
		return m.unpack(m.e.build("mget", m.packSort(mt.Elem()), typeName(mt.Elem()), nil, c, kn), mt.Elem())
	})
	has = m.overLeaves(m.e.restrict(mp, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return m.e.F
		}
		return m.e.op("mhas", SBool, m.node(st, m.mapKey(t)), kn)
	}).(*Node)
	return v, has
}

func (m *Mach) callArgs(f *frame, c *ssa.CallCommon, st *State) (Val, []Val) {
	var fv Val
	if c.IsInvoke() {
		fv = m.getAt(f, c.Value, st)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if fn := c.StaticCallee(); fn == nil || fn.Parent() != nil || len(fn.FreeVars) > 0 {
			fv = m.getAt(f, c.Value, st)
		}
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, m.getAt(f, a, st))
	}
	return fv, args
}

func (m *Mach) conv(n *Node, from, to Sort) *Node {
	e := m.e
	if from == to {
		return n
	}
	if from.machine() && to.machine() {
		return e.op("cv", to, n)
	}
	if from.machine() && to == SF64 {
		return e.op("i2f", SF64, n)
	}
	if from == SF64 && to.machine() {
		return e.op("f2i", to, n)
	}
	return e.build("cvt", to, from.String(), nil, n)
}

func (m *Mach) value(f *frame, v ssa.Value, st *State) Val {
	e := m.e
	get := func(v ssa.Value) Val { return m.getAt(f, v, st) }
	getN := func(v ssa.Value) *Node {
		n, ok := m.getAt(f, v, st).(*Node)
		if !ok {
			undecided("%s: %s is not a scalar", f.fn, v.Name())
		}
		return n
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		ty := x.Type().Underlying().(*types.Pointer).Elem()
		a := m.newAlloc(ty, "a")
		m.storeZero(st, a, ty)
		return e.leaf(a)
	case *ssa.BinOp:
		return m.binop(f, x, get(x.X), get(x.Y))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return m.loadN(st, getN(x.X), x.Type())
		case token.SUB:
			s, _ := leafSort(x.Type())
			if s == SF64 {
				return e.op("fneg", SF64, getN(x.X))
			}
			return e.op("neg", s, getN(x.X))
		case token.NOT:
			return e.not(getN(x.X))
		case token.XOR:
			s, _ := leafSort(x.Type())
			return e.op("not", s, getN(x.X))
		}
		undecided("%s: operator %s", f.fn, x.Op)
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		fl := pt.Underlying().(*types.Struct).Field(x.Field)
		if n := typeNameOf(pt); m.cfg.tokTypes[n] != "" && f.fn.Pkg != nil && fl.Pkg() == f.fn.Pkg.Pkg && !m.booting {
			m.touched = n
		}
		return e.mapLeaves(getN(x.X), func(t *Term) *Node {
			if t.op == "nil" {
				return e.leaf(t)
			}
			m.setType(t, pt)
			return e.leaf(m.fld(t, x.Field, fl.Name(), fl.Type()))
		})
	case *ssa.IndexAddr:
		i := m.asInt(getN(x.Index), x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			sv := get(x.X).(*SliceV)
			return m.elemAddr(sv, i, u.Elem())
		case *types.Pointer:
			el := u.Elem().Underlying().(*types.Array).Elem()
			return e.map2(getN(x.X), i, func(a, k *Term) *Node {
				if a.op == "nil" {
					return e.leaf(a)
				}
				m.setType(a, u.Elem())
				return e.leaf(m.idxT(a, k, el))
			})
		}
	case *ssa.Field:
		g, ok := get(x.X).(*Agg)
		if !ok {
			undecided("field of %s", x.X.Type())
		}
		return g.f[x.Field]
	case *ssa.Index:
		i := m.asInt(getN(x.Index), x.Index.Type())
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return m.charAt(getN(x.X), i)
		}
		switch a := get(x.X).(type) {
		case *Agg:
			return m.overLeaves(i, func(k *Term) Val {
				if k.isConst() {
					n := int(k.num.Int64())
					if n < 0 || n >= len(a.f) {
						return m.zero(x.Type())
					}
					return a.f[n]
				}
				var r Val
				for j := len(a.f) - 1; j >= 0; j-- {
					r = m.iteVal(e.op("eq", SBool, e.leaf(k), e.cint(SI64, int64(j))), a.f[j], r)
				}
				return r
			})
		case *Node:
			el := x.X.Type().Underlying().(*types.Array).Elem()
			return m.unpack(e.build("sel", m.packSort(el), typeName(el), nil, a, i), el)
		}
	case *ssa.Extract:
		return get(x.Tuple).(*Agg).f[x.Index]
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := m.asInt(getN(x.Len), x.Len.Type()), m.asInt(getN(x.Cap), x.Cap.Type())
		st.reach = e.and(st.reach, e.and(e.op("le", SBool, e.cint(SI64, 0), ln), e.op("le", SBool, ln, cp)))
		return m.newSlice(st, el, e.comp(m.asInt(getN(x.Len), x.Len.Type()), m.pack(m.zero(el), el), 0), m.asInt(getN(x.Len), x.Len.Type()))
	case *ssa.MakeMap:
		a := m.newAlloc(x.Type(), "m")
		st.heap[m.mapKey(a)] = e.raw("mempty", SState, "")
		return e.leaf(a)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, get(b))
		}
		return m.fnRef(x.Fn.(*ssa.Function), bs)
	case *ssa.MakeInterface:
		return m.mkIface(get(x.X), x.X.Type())
	case *ssa.ChangeInterface:
		return get(x.X)
	case *ssa.ChangeType:
		v := get(x.X)
		if n, ok := v.(*Node); ok && isUint256(x.X.Type()) && !isUint256(x.Type()) {
			g := &Agg{}
			for i := int64(0); i < 4; i++ {
				g.f = append(g.f, m.e.word(n, i))
			}
			return g
		}
		if g, ok := v.(*Agg); ok && isUint256(x.Type()) && !isUint256(x.X.Type()) {
			var ws []*Node
			for _, w := range g.f {
				ws = append(ws, w.(*Node))
			}
			return m.e.op("pack", SU256, ws...)
		}
		return v
	case *ssa.Convert:
		return m.convert(f, st, get(x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		return m.typeAssert(get(x.X).(*Node), x)
	case *ssa.Slice:
		return m.slice(f, st, x)
	case *ssa.SliceToArrayPointer:
		sv := get(x.X).(*SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		return e.map2(sv.base, sv.off, func(b, o *Term) *Node {
			return m.arrayView(b, o, at)
		})
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return m.charAt(getN(x.X), m.asInt(getN(x.Index), x.Index.Type()))
		}
		r, has := m.mapGet(st, getN(x.X), x.X.Type(), get(x.Index))
		if x.CommaOk {
			return &Agg{[]Val{r, has}}
		}
		return r
	case *ssa.Range:
		return m.rangeStart(st, getN(x.X), x.X.Type())
	case *ssa.Next:
		return m.next(f, x, st)
	}
	undecided("%s: %T", f.fn, v)
	return nil
}

// arrayView: the array that starts at index o of b.
func (m *Mach) arrayView(b, o *Term, at types.Type) *Node {
	e := m.e
	if b.op == "nil" {
		return e.leaf(b)
	}
	if b.op == "aview" {
		return m.arrayView(b.args[0], e.pAdd(SI64, b.args[1], o), at)
	}
	if o.isConst() && o.num.Sign() == 0 {
		if t := m.typ[b]; t != nil {
			if isUint256(t) || types.Identical(t.Underlying(), at.Underlying()) {
				return e.leaf(b)
			}
		}
	}
	t := e.mk(&Term{op: "aview", sort: SRef, args: []*Term{b, o}})
	m.setType(t, at)
	return e.leaf(t)
}

func (m *Mach) asInt(n *Node, t types.Type) *Node {
	s, _ := leafSort(t)
	return m.conv(n, s, SI64)
}

func (m *Mach) storeZero(st *State, a *Term, ty types.Type) {
	if isBigArray(ty) {
		st.heap[m.contKey(a)] = m.zero(ty)
		return
	}
	m.store(st, m.e.T, a, ty, m.zero(ty))
}

func (m *Mach) elemAddr(sv *SliceV, i *Node, el types.Type) *Node {
	e := m.e
	ix := e.op("add", SI64, sv.off, i)
	return e.map2(sv.base, ix, func(b, k *Term) *Node {
		if b.op == "nil" {
			return e.leaf(b)
		}
		return e.leaf(m.idxT(b, k, el))
	})
}

func (m *Mach) newSlice(st *State, el types.Type, content *Node, ln *Node) *SliceV {
	b := m.newAlloc(&backing{elem: el}, "s")
	st.heap[m.contKey(b)] = content
	return &SliceV{m.e.leaf(b), m.e.cint(SI64, 0), ln}
}

func (m *Mach) mkIface(v Val, t types.Type) *Node {
	p := m.pack(v, t)
	name := types.TypeString(t, nil)
	m.prog.ifaceTypes[name] = t
	return m.e.build("iface", SRef, name, nil, p)
}

func (m *Mach) typeAssert(n *Node, x *ssa.TypeAssert) Val {
	e := m.e
	okv := e.F
	known := true
	for _, t := range leaves(n) {
		if t.op != "iface" && t.op != "nil" {
			known = false
		}
	}
	if !known {
		undecided("type assertion on an unknown value")
	}
	var r Val
	if types.IsInterface(x.AssertedType) {
		r = n
		okv = e.mapLeaves(n, func(t *Term) *Node {
			if t.op == "nil" {
				return e.F
			}
			return e.cbool(types.Implements(m.prog.ifaceTypes[t.str], x.AssertedType.Underlying().(*types.Interface)))
		})
	} else {
		name := types.TypeString(x.AssertedType, nil)
		r = m.overLeaves(n, func(t *Term) Val {
			if t.op == "iface" && t.str == name {
				return m.unpack(e.leaf(t.args[0]), x.AssertedType)
			}
			return m.zero(x.AssertedType)
		})
		okv = e.mapLeaves(n, func(t *Term) *Node { return e.cbool(t.op == "iface" && t.str == name) })
	}
	if x.CommaOk {
		return &Agg{[]Val{r, okv}}
	}
	return r
}

func (m *Mach) slice(f *frame, st *State, x *ssa.Slice) Val {
	e := m.e
	opt := func(v ssa.Value) *Node {
		if v == nil {
			return nil
		}
		return m.asInt(m.getAt(f, v, st).(*Node), v.Type())
	}
	lo, hi := opt(x.Low), opt(x.High)
	if lo == nil {
		lo = e.cint(SI64, 0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		sv := m.getAt(f, x.X, st).(*SliceV)
		if hi == nil {
			hi = sv.ln
		}
		return &SliceV{sv.base, e.op("add", SI64, sv.off, lo), e.op("sub", SI64, hi, lo)}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = e.cint(SI64, a.Len())
		}
		b := m.getAt(f, x.X, st).(*Node)
		off := lo
		base := e.mapLeaves(b, func(t *Term) *Node {
			if t.op == "aview" {
				return e.leaf(t.args[0])
			}
			m.setType(t, u.Elem())
			return e.leaf(t)
		})
		off = e.map2(b, lo, func(t, l *Term) *Node {
			if t.op == "aview" {
				return e.leaf(e.pAdd(SI64, t.args[1], l))
			}
			return e.leaf(l)
		})
		return &SliceV{base, off, e.op("sub", SI64, hi, lo)}
	default:
		s := m.getAt(f, x.X, st).(*Node)
		if hi == nil {
			hi = e.op("strlen", SI64, s)
		}
		return e.op("ssub", SStr, s, lo, hi)
	}
}

func (m *Mach) convert(f *frame, st *State, v Val, from, to types.Type) Val {
	fs, ok1 := leafSort(from)
	ts, ok2 := leafSort(to)
	if ok1 && ok2 {
		n := v.(*Node)
		if fs == ts {
			return n
		}
		return m.conv(n, fs, ts)
	}
	if isSlice(from) && ts == SStr {
		return m.e.op("bytestr", SStr, m.sliceContent(st, v.(*SliceV)))
	}
	if fs == SStr && isSlice(to) {
		n := v.(*Node)
		return m.newSlice(st, to.Underlying().(*types.Slice).Elem(), m.e.build("strbytes", SSeq, typeName(to), nil, n), m.e.op("strlen", SI64, n))
	}
	undecided("%s: conversion %s to %s", f.fn, from, to)
	return nil
}

// sliceContent is the sequence a slice shows.
func (m *Mach) sliceContent(st *State, s *SliceV) *Node {
	c := m.overLeaves(m.e.restrict(s.base, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return m.e.raw("qnil", SSeq, "")
		}
		return m.content(st, t)
	}).(*Node)
	return m.e.op("qsub", SSeq, c, s.off, s.ln)
}

func (m *Mach) binop(f *frame, x *ssa.BinOp, a, b Val) Val {
	e := m.e
	if x.Op == token.EQL || x.Op == token.NEQ {
		r := m.equal(a, b, x.X.Type())
		if x.Op == token.NEQ {
			r = e.not(r)
		}
		return r
	}
	p, q := a.(*Node), b.(*Node)
	s, _ := leafSort(x.X.Type())
	rs, _ := leafSort(x.Type())
	switch x.Op {
	case token.LSS:
		return e.op("lt", SBool, p, q)
	case token.GTR:
		return e.op("lt", SBool, q, p)
	case token.LEQ:
		return e.op("le", SBool, p, q)
	case token.GEQ:
		return e.op("le", SBool, q, p)
	}
	if s == SF64 {
		switch x.Op {
		case token.ADD:
			return e.op("fadd", SF64, p, q)
		case token.SUB:
			return e.op("fsub", SF64, p, q)
		case token.MUL:
			return e.op("fmul", SF64, p, q)
		case token.QUO:
			return e.op("fquo", SF64, p, q)
		}
	}
	if s == SStr && x.Op == token.ADD {
		return e.op("scat", SStr, p, q)
	}
	switch x.Op {
	case token.ADD:
		return e.op("add", rs, p, q)
	case token.SUB:
		return e.op("sub", rs, p, q)
	case token.MUL:
		return e.op("mul", rs, p, q)
	case token.QUO:
		return e.op("tdiv", rs, p, q)
	case token.REM:
		return e.op("trem", rs, p, q)
	case token.AND:
		return e.op("and", rs, p, q)
	case token.OR:
		return e.op("or", rs, p, q)
	case token.XOR:
		return e.op("xor", rs, p, q)
	case token.AND_NOT:
		return e.op("and", rs, p, e.op("not", rs, q))
	case token.SHL, token.SHR:
		ys, _ := leafSort(x.Y.Type())
		op := "shl"
		if x.Op == token.SHR {
			op = "shr"
		}
		return e.op(op, rs, p, m.conv(q, ys, SU64))
	}
	undecided("%s: operator %s", f.fn, x.Op)
	return nil
}

func (m *Mach) equal(a, b Val, t types.Type) *Node {
	e := m.e
	switch x := a.(type) {
	case *Node:
		if y, ok := b.(*Node); ok {
			if m.cfg.limbs && types.Identical(t, m.u256) {
				r := e.T
				for i := int64(0); i < 4; i++ {
					r = e.and(r, e.op("eq", SBool, e.word(x, i), e.word(y, i)))
				}
				return r
			}
			return e.op("eq", SBool, x, y)
		}
	case *Agg:
		if y, ok := b.(*Agg); ok {
			r := e.T
			ts, _ := components(t)
			for i := range x.f {
				r = e.and(r, m.equal(x.f[i], y.f[i], ts[i]))
			}
			return r
		}
	case *SliceV: // comparison with nil
		y := b.(*SliceV)
		if len(leaves(y.base)) == 1 && y.base.term != nil && y.base.term.op == "nil" {
			return e.op("eq", SBool, x.base, y.base)
		}
		return e.op("eq", SBool, y.base, x.base)
	}
	undecided("comparison of %T", a)
	return nil
}

// dispatch performs a call.
func (m *Mach) dispatch(f *frame, c *ssa.CallCommon, fv Val, args []Val, st *State, in ssa.Instruction) (Val, *State) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(f, b, c, args, st)
	}
	if c.IsInvoke() {
		recv := fv.(*Node)
		if v, s, ok := m.vocabInvoke(c, recv, args, st); ok {
			return v, s
		}
		var v Val
		var sts []*State
		ts, cs := m.leafConds(m.e.restrict(recv, st.reach))
		for i, t := range ts {
			if t.op == "nil" {
				continue
			}
			if t.op != "iface" {
				if v, s, ok := m.unknownInvoke(c, recv, args, st); ok {
					return v, s
				}
				undecided("%s: method %s of an unknown value", f.fn, c.Method.Name())
			}
			ty := m.prog.ifaceTypes[t.str]
			fn := m.prog.ssa.LookupMethod(ty, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				undecided("no method %s on %s", c.Method.Name(), ty)
			}
			s2 := &State{m.e.and(st.reach, cs[i]), st.heap}
			r, s3 := m.callFn(f, fn, nil, append([]Val{m.unpack(m.e.leaf(t.args[0]), ty)}, args...), s2.clone(), c)
			if s3.reach == m.e.F {
				continue
			}
			if v == nil {
				v = r
			} else {
				v = m.iteVal(s3.reach, r, v)
			}
			sts = append(sts, s3)
		}
		return v, m.merge(sts)
	}
	if fv == nil {
		return m.callFn(f, c.StaticCallee(), nil, args, st, c)
	}
	var v Val
	var sts []*State
	ts, cs := m.leafConds(m.e.restrict(fv.(*Node), st.reach))
	for i, t := range ts {
		if t.op == "nil" {
			continue
		}
		cl := m.clos[t.str]
		if t.op != "fn" || cl == nil {
			undecided("%s: call of an unknown function value", f.fn)
		}
		s2 := &State{m.e.and(st.reach, cs[i]), st.heap}
		r, s3 := m.callFn(f, cl.fn, cl.bind, args, s2.clone(), c)
		if s3.reach == m.e.F {
			continue
		}
		if v == nil {
			v = r
		} else {
			v = m.iteVal(s3.reach, r, v)
		}
		sts = append(sts, s3)
	}
	if len(sts) == 0 {
		return m.junkRes(c.Signature()), &State{m.e.F, map[*Term]Val{}}
	}
	return v, m.merge(sts)
}

// shortName: package.Type.Method or package.Func.
func shortName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return shortName(fn.Parent()) + "$" + fn.Name()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
			if nt.Obj().Pkg() != nil {
				return pkgShort(nt.Obj().Pkg()) + "." + n
			}
		}
		return n
	}
	if fn.Pkg != nil {
		return pkgShort(fn.Pkg.Pkg) + "." + n
	}
	return n
}

func pkgShort(p *types.Package) string {
	if strings.HasPrefix(p.Path(), "uniswap-simulator") {
		return p.Name()
	}
	return p.Path()
}

func isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if fn.Synthetic != "" && fn.Signature.Recv() != nil {
			return true // wrapper
		}
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), "uniswap-simulator")
}

func (m *Mach) callFn(f *frame, fn *ssa.Function, bind []Val, args []Val, st *State, c *ssa.CallCommon) (Val, *State) {
	name := shortName(fn)
	if m.booting && (fn.Name() == "init" && fn.Synthetic != "") {
		return &Agg{}, st // packages are initialised in order by bootHeap
	}
	if mod, ok := m.cfg.extra[name]; ok && !m.booting && !m.cfg.noModel[name] {
		return mod(m, st, args, fn)
	}
	if !m.cfg.noModel[name] && (m.booting || m.cfg.bare == "" || !strings.HasPrefix(name, m.cfg.bare)) {
		if mod, ok := models[name]; ok {
			return mod(m, st, args, fn)
		}
		if vc, ok := m.cfg.vocab[name]; ok && !m.cfg.inline[name] {
			return m.vocabCall(vc, name, fn.Signature, args, st)
		}
	}
	if isRepo(fn) && fn.Blocks != nil {
		return m.call(fn, bind, args, st)
	}
	return m.external(name, fn.Signature, args, st)
}

func sortedKeys(mm map[*Term]Val) []*Term {
	var ks []*Term
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
