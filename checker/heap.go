package main

// Memory. A heap maps addresses to the values written there since the analysed
// function was entered; what is not in it still has its initial value, which is
// computed on demand. Loads never change the heap.

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"sort"
	"strings"
)

type Val interface{} // *Node, *Agg, *SliceV

type Agg struct{ f []Val }

type SliceV struct{ base, off, ln *Node }

type State struct {
	reach *Node
	heap  map[*Term]Val
}

func (s *State) clone() *State {
	h := make(map[*Term]Val, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.reach, h}
}

const smallArray = 16

func isUint256(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/uint256")
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

// isOpaqueStd: library structures whose value is one indivisible thing.
func isOpaqueStd(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, "uniswap-simulator") || !strings.Contains(p, "/") && strings.Contains(p, ".") {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st
}

// leafSort gives the sort of values kept in one cell.
func leafSort(t types.Type) (Sort, bool) {
	if isUint256(t) {
		return SU256, true
	}
	if isBigInt(t) {
		return SBig, true
	}
	if isOpaqueStd(t) {
		return SAny, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return SBool, true
		case types.Int, types.Int64, types.UntypedInt:
			return SI64, true
		case types.Int32, types.UntypedRune:
			return SI32, true
		case types.Int16:
			return SI16, true
		case types.Int8:
			return SI8, true
		case types.Uint, types.Uint64, types.Uintptr:
			return SU64, true
		case types.Uint32:
			return SU32, true
		case types.Uint16:
			return SU16, true
		case types.Uint8:
			return SU8, true
		case types.Float64, types.Float32, types.UntypedFloat:
			return SF64, true
		case types.String, types.UntypedString:
			return SStr, true
		case types.UntypedNil:
			return SRef, true
		case types.UnsafePointer:
			return SRef, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SRef, true
	}
	return SAny, false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func typeName(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()].Name() // byte is uint8
	}
	if s, ok := t.(*types.Slice); ok {
		return "[]" + typeName(s.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fieldTypes: component types of a structure or small array.
func components(t types.Type) (ts []types.Type, names []string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ts = append(ts, u.Field(i).Type())
			names = append(names, u.Field(i).Name())
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			ts = append(ts, u.Elem())
			names = append(names, fmt.Sprint(i))
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, u.At(i).Type())
			names = append(names, u.At(i).Name())
		}
	}
	return
}

func isBigArray(t types.Type) bool {
	if isUint256(t) {
		return false
	}
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() > smallArray
}

// backing marks the storage behind a slice.
type backing struct {
	types.Type
	elem types.Type
}

func (m *Mach) setType(t *Term, ty types.Type) *Term {
	if _, ok := m.typ[t]; !ok {
		m.typ[t] = ty
	}
	return t
}

type contKind int

const (
	kSmall contKind = iota
	kWord
	kSeq
)

// kind says how the elements of container c are stored.
func (m *Mach) kind(c *Term) contKind {
	switch c.op {
	case "aview":
		return kWord
	case "sbase", "buf":
		return kSeq
	}
	t := m.typ[c]
	if t == nil {
		return kSeq
	}
	if _, ok := t.(*backing); ok {
		return kSeq
	}
	if isUint256(t) {
		return kWord
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= smallArray {
		return kSmall
	}
	return kSeq
}

func (m *Mach) arrayLen(c *Term) (int64, bool) {
	if t := m.typ[c]; t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

func (m *Mach) fld(a *Term, i int, name string, ty types.Type) *Term {
	t := m.e.mk(&Term{op: "fld", sort: SRef, str: name, num: big.NewInt(int64(i)), args: []*Term{a}})
	m.setType(t, ty)
	return t
}

func (m *Mach) idxT(a, i *Term, ty types.Type) *Term {
	if a.op == "aview" {
		return m.idxT(a.args[0], m.e.pAdd(SI64, a.args[1], i), ty)
	}
	t := m.e.mk(&Term{op: "idx", sort: SRef, args: []*Term{a, i}})
	m.setType(t, ty)
	return t
}

func (m *Mach) newAlloc(ty types.Type, what string) *Term {
	m.nalloc++
	t := m.e.mk(&Term{op: "alloc", sort: SRef, str: fmt.Sprintf("%s%d", what, m.nalloc)})
	m.typ[t] = ty
	m.birth[t] = m.nalloc
	return t
}

func (m *Mach) zero(ty types.Type) Val {
	e := m.e
	if s, ok := leafSort(ty); ok {
		if s == SAny {
			return e.raw("zero", SAny, typeName(ty))
		}
		return e.zeroTerm(s, "")
	}
	if isSlice(ty) {
		return &SliceV{e.nilRef(), e.cint(SI64, 0), e.cint(SI64, 0)}
	}
	if isBigArray(ty) {
		n := ty.Underlying().(*types.Array)
		z := m.pack(m.zero(n.Elem()), n.Elem())
		return e.comp(e.cint(SI64, n.Len()), z, 0)
	}
	ts, _ := components(ty)
	a := &Agg{}
	for _, t := range ts {
		a.f = append(a.f, m.zero(t))
	}
	return a
}

func (m *Mach) iteVal(c *Node, a, b Val) Val {
	if c == m.e.T || b == nil {
		return a
	}
	if c == m.e.F || a == nil {
		return b
	}
	switch x := a.(type) {
	case *Node:
		y, ok := b.(*Node)
		if !ok {
			undecided("values of different shapes meet")
		}
		return m.e.ite(c, x, y)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			undecided("values of different shapes meet")
		}
		r := &Agg{}
		for i := range x.f {
			r.f = append(r.f, m.iteVal(c, x.f[i], y.f[i]))
		}
		return r
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			undecided("values of different shapes meet")
		}
		return &SliceV{m.e.ite(c, x.base, y.base), m.e.ite(c, x.off, y.off), m.e.ite(c, x.ln, y.ln)}
	}
	undecided("merge of %T", a)
	return nil
}

func (m *Mach) mapVal(v Val, f func(*Node) *Node) Val {
	switch x := v.(type) {
	case nil:
		return nil
	case *Node:
		return f(x)
	case *Agg:
		r := &Agg{}
		for _, y := range x.f {
			r.f = append(r.f, m.mapVal(y, f))
		}
		return r
	case *SliceV:
		return &SliceV{f(x.base), f(x.off), f(x.ln)}
	}
	undecided("value of %T", v)
	return nil
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Node:
		y, ok := b.(*Node)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	}
	return false
}

// overLeaves computes f for every leaf of n and joins the results.
func (m *Mach) overLeaves(n *Node, f func(*Term) Val) Val {
	memo := map[*Node]Val{}
	var w func(*Node) Val
	w = func(n *Node) Val {
		if v, ok := memo[n]; ok {
			return v
		}
		var v Val
		if n.term != nil {
			v = f(n.term)
		} else {
			v = m.iteVal(m.e.atom(n.atom), w(n.hi), w(n.lo))
		}
		memo[n] = v
		return v
	}
	return w(n)
}

// leafConds lists the leaves of n with the condition under which each is taken.
func (m *Mach) leafConds(n *Node) (ts []*Term, cs []*Node) {
	conds := map[*Term]*Node{}
	for _, t := range leaves(n) {
		ts = append(ts, t)
		conds[t] = m.e.mapLeaves(n, func(x *Term) *Node { return m.e.cbool(x == t) })
	}
	for _, t := range ts {
		cs = append(cs, conds[t])
	}
	return
}

// ---- packing values into terms, so that they can be elements of sequences

func (m *Mach) pack(v Val, ty types.Type) *Node {
	switch x := v.(type) {
	case *Node:
		return x
	case *Agg:
		ts, _ := components(ty)
		var as []*Node
		for i, f := range x.f {
			as = append(as, m.pack(f, ts[i]))
		}
		return m.e.build("rec", SRec, typeName(ty), nil, as...)
	case *SliceV:
		return m.e.build("rec", SRec, "slice", nil, x.base, x.off, x.ln)
	}
	undecided("pack %T", v)
	return nil
}

func (m *Mach) packSort(ty types.Type) Sort {
	if s, ok := leafSort(ty); ok {
		return s
	}
	if isBigArray(ty) {
		return SSeq
	}
	return SRec
}

func (m *Mach) unpack(n *Node, ty types.Type) Val {
	if s, ok := leafSort(ty); ok {
		if s == SRef {
			m.noteRefs(n, ty)
		}
		return n
	}
	if isBigArray(ty) {
		return n
	}
	if isSlice(ty) {
		b := m.e.build("rf", SRef, "", big.NewInt(0), n)
		el := ty.Underlying().(*types.Slice).Elem()
		for _, t := range leaves(b) {
			if t.op != "nil" {
				m.setType(t, &backing{elem: el})
			}
		}
		return &SliceV{b, m.e.build("rf", SI64, "", big.NewInt(1), n), m.e.build("rf", SI64, "", big.NewInt(2), n)}
	}
	ts, _ := components(ty)
	a := &Agg{}
	for i, t := range ts {
		a.f = append(a.f, m.unpack(m.e.build("rf", m.packSort(t), "", big.NewInt(int64(i)), n), t))
	}
	return a
}

// noteRefs records what the references in n point to.
func (m *Mach) noteRefs(n *Node, ty types.Type) {
	if _, ok := ty.Underlying().(*types.Map); ok {
		for _, t := range leaves(n) {
			if t.op != "nil" {
				m.setType(t, ty)
			}
		}
		return
	}
	p, ok := ty.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	for _, t := range leaves(n) {
		if t.op != "nil" {
			m.setType(t, p.Elem())
		}
	}
}

// ---- cells

func symbolicRef(t *Term) bool {
	switch t.op {
	case "sel", "mget", "rf", "lpv", "var", "outref":
		return true
	case "fld", "idx", "in", "rd":
		return symbolicRef(t.args[0])
	case "sbase":
		return symbolicRef(t.args[0])
	}
	return false
}

func shape(t *Term) string {
	switch t.op {
	case "sel":
		return "sel(" + shape(t.args[0]) + ")"
	case "mget":
		return "mget(" + shape(t.args[0]) + ")"
	case "rf":
		return shape(t.args[0]) + "." + t.num.String()
	case "fld":
		return shape(t.args[0]) + "." + t.str
	case "idx":
		return shape(t.args[0]) + "[]"
	case "in", "rd", "sbase", "seq0", "map0":
		return t.op + "(" + shape(t.args[0]) + ")"
	case "mput", "mdel":
		return shape(t.args[0])
	}
	return t.op + ":" + t.str
}

func (m *Mach) contKey(b *Term) *Term {
	return m.e.mk(&Term{op: "cont", sort: SRef, args: []*Term{b}})
}
func (m *Mach) mapKey(b *Term) *Term {
	return m.e.mk(&Term{op: "mapc", sort: SRef, args: []*Term{b}})
}
func (m *Mach) memKey(a *Term, s Sort) *Term {
	return m.e.mk(&Term{op: "mem", sort: SRef, str: shape(a) + "|" + s.String()})
}

// initial gives the content of cell key before anything was written to it.
func (m *Mach) initial(st *State, key *Term) Val {
	e := m.e
	switch key.op {
	case "cont":
		b := key.args[0]
		if b.op == "sbase" {
			l := m.sliceLen0(st, b.args[0])
			return e.leaf(e.mk(&Term{op: "seq0", sort: SSeq, args: []*Term{b, l.term}}))
		}
		if b.op == "nil" {
			return e.raw("qnil", SSeq, "")
		}
		if n, ok := m.arrayLen(b); ok {
			return e.leaf(e.mk(&Term{op: "seq0", sort: SSeq, args: []*Term{b, e.cint(SI64, n).term}}))
		}
		return e.raw("seq0", SSeq, "", b)
	case "mapc":
		return e.raw("map0", SState, "", key.args[0])
	case "mem":
		return e.raw("mem0", SState, key.str)
	case "tok":
		return e.raw("tok0", SState, key.str, key.args...)
	}
	return nil
}

// sortedList: ty is a list of records kept in increasing order.
func (m *Mach) sortedList(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Slice)
	return ok && m.e.sortedFld[typeName(s.Elem())] != ""
}

// inOrder: the lists of a parameter are in increasing order.
func (m *Mach) inOrder(v Val, ty types.Type) *Node {
	e := m.e
	r := e.T
	n, ok := v.(*Node)
	p, ok2 := ty.Underlying().(*types.Pointer)
	if !ok || !ok2 || n.term == nil {
		return r
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < s.NumFields(); i++ {
		if !m.sortedList(s.Field(i).Type()) {
			continue
		}
		a := m.fld(n.term, i, s.Field(i).Name(), s.Field(i).Type())
		b := e.mk(&Term{op: "sbase", sort: SRef, args: []*Term{a}})
		ks, _ := e.tinyKeys(e.mk(&Term{op: "seq0", sort: SSeq, args: []*Term{b, e.cint(SI64, m.tinyN).term}}))
		for j := 1; j < len(ks); j++ {
			r = e.and(r, e.op("lt", SBool, ks[j-1], ks[j]))
		}
	}
	return r
}

func (m *Mach) sliceLen0(st *State, addr *Term) *Node {
	if m.e.tiny {
		if ty := m.typ[addr]; ty != nil && m.sortedList(ty) {
			return m.e.cint(SI64, m.tinyN)
		}
	}
	return m.e.leaf(m.e.mk(&Term{op: "slen", sort: SI64, args: []*Term{addr}}))
}

// get reads a cell.
func (m *Mach) get(st *State, key *Term) Val {
	if v, ok := st.heap[key]; ok {
		return m.restrictVal(v, st.reach)
	}
	v := m.initial(st, key)
	if v == nil {
		undecided("cell %s has no content", key)
	}
	return v
}

func (m *Mach) node(st *State, key *Term) *Node { return m.get(st, key).(*Node) }

func (m *Mach) content(st *State, b *Term) *Node {
	if b.op == "box" {
		return m.e.leaf(b.args[0])
	}
	if m.kind(b) == kSmall {
		n, _ := m.arrayLen(b)
		el := m.elemType(b)
		var ps []*Node
		for i := int64(0); i < n; i++ {
			v := m.load(st, m.idxT(b, m.e.cint(SI64, i).term, el), el)
			ps = append(ps, m.e.build("qunit", SSeq, "", nil, m.pack(v, el)))
		}
		if len(ps) == 0 {
			return m.e.raw("qnil", SSeq, "")
		}
		return m.e.build("qcat", SSeq, "", nil, ps...)
	}
	if m.kind(b) == kWord {
		var ps []*Node
		for i := int64(0); i < 4; i++ {
			v := m.load(st, m.idxT(b, m.e.cint(SI64, i).term, types.Typ[types.Uint64]), types.Typ[types.Uint64])
			ps = append(ps, m.e.build("qunit", SSeq, "", nil, v.(*Node)))
		}
		return m.e.build("qcat", SSeq, "", nil, ps...)
	}
	return m.node(st, m.contKey(b))
}

func (m *Mach) elemType(b *Term) types.Type {
	switch t := m.typ[b].(type) {
	case *backing:
		return t.elem
	case nil:
		undecided("element type of %s", b)
	default:
		if isUint256(t) {
			return types.Typ[types.Uint64]
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	undecided("element type of %s", b)
	return nil
}

type step struct {
	fld bool
	i   int
	idx *Term
	t   types.Type
}

// locate finds the cell an address lies in, and the way from the cell's value to the addressed part.
func (m *Mach) locate(a *Term) (root *Term, steps []step) {
	t := a
	var rev []step
	for {
		switch t.op {
		case "fld":
			rev = append(rev, step{fld: true, i: int(t.num.Int64()), t: m.typ[t]})
			t = t.args[0]
			continue
		case "idx":
			c := t.args[0]
			switch m.kind(c) {
			case kSeq:
				rev = append(rev, step{idx: t.args[1], t: m.typ[t]})
				for i := len(rev) - 1; i >= 0; i-- {
					steps = append(steps, rev[i])
				}
				return c, steps
			default:
				if !t.args[1].isConst() {
					undecided("computed index into a small array as an address")
				}
				rev = append(rev, step{fld: true, i: int(t.args[1].num.Int64()), t: m.typ[t]})
				t = c
				continue
			}
		case "box":
			for i := len(rev) - 1; i >= 0; i-- {
				steps = append(steps, rev[i])
			}
			return t, steps
		}
		return nil, nil
	}
}

// load reads a value of type ty at address a.
func (m *Mach) load(st *State, a *Term, ty types.Type) Val {
	m.e.tick()
	if a.op == "nil" {
		return m.junk(ty)
	}
	if a.op == "idx" {
		c := a.args[0]
		if k := m.kind(c); k == kWord || k == kSmall {
			if !a.args[1].isConst() {
				n := int64(4)
				if k == kSmall {
					n, _ = m.arrayLen(c)
				}
				var v Val
				for i := n - 1; i >= 0; i-- {
					it := m.e.cint(SI64, i)
					eq := m.e.op("eq", SBool, m.e.leaf(a.args[1]), it)
					v = m.iteVal(eq, m.load(st, m.idxT(c, it.term, m.typ[a]), ty), v)
				}
				return v
			}
			if k == kWord {
				if c.op == "aview" {
					undecided("aview index")
				}
				n := m.load(st, c, m.u256).(*Node)
				return m.e.build("word", SU64, "", new(big.Int).Set(a.args[1].num), n)
			}
		}
	}
	if a.op == "aview" {
		var ws []*Node
		for i := int64(0); i < 4; i++ {
			w := m.load(st, m.idxT(a.args[0], m.e.pAdd(SI64, a.args[1], m.e.cint(SI64, i).term), types.Typ[types.Uint64]), types.Typ[types.Uint64])
			ws = append(ws, w.(*Node))
		}
		p := m.e.op("pack", SU256, ws...)
		if isUint256(ty) {
			return p
		}
		return &Agg{[]Val{ws[0], ws[1], ws[2], ws[3]}}
	}
	if _, leaf := leafSort(ty); !leaf && !isSlice(ty) {
		if isBigArray(ty) {
			return m.content(st, m.setType(a, ty))
		}
		ts, ns := components(ty)
		r := &Agg{}
		_, isArr := ty.Underlying().(*types.Array)
		for i, t := range ts {
			var ad *Term
			if isArr {
				ad = m.idxT(a, m.e.cint(SI64, int64(i)).term, t)
			} else {
				ad = m.fld(a, i, ns[i], t)
			}
			r.f = append(r.f, m.load(st, ad, t))
		}
		return r
	}
	root, steps := m.locate(a)
	if root != nil {
		var v *Node
		if root.op == "box" {
			v = m.e.leaf(root.args[0])
		} else {
			c := m.content(st, root)
			s := steps[0]
			v = m.e.build("sel", m.packSort(s.t), typeNameOf(s.t), nil, c, m.e.leaf(s.idx))
			steps = steps[1:]
		}
		for _, s := range steps {
			if !s.fld {
				undecided("array inside a sequence element")
			}
			v = m.e.build("rf", m.packSort(s.t), "", big.NewInt(int64(s.i)), v)
		}
		return m.unpack(v, ty)
	}
	if v, ok := st.heap[a]; ok {
		return m.restrictVal(v, st.reach)
	}
	return m.initCell(st, a, ty)
}

func typeNameOf(t types.Type) string {
	if t == nil {
		return ""
	}
	return typeName(t)
}

func (m *Mach) junk(ty types.Type) Val { return m.zero(ty) }

// initCell is what a holds when it has not been written.
func (m *Mach) initCell(st *State, a *Term, ty types.Type) Val {
	if isSlice(ty) {
		b := m.e.mk(&Term{op: "sbase", sort: SRef, args: []*Term{a}})
		m.setType(b, &backing{elem: ty.Underlying().(*types.Slice).Elem()})
		if g := m.tokOf(st, a); g != nil {
			b = m.e.mk(&Term{op: "sbase", sort: SRef, args: []*Term{m.e.mk(&Term{op: "at", sort: SRef, args: []*Term{a, g}})}})
			m.setType(b, &backing{elem: ty.Underlying().(*types.Slice).Elem()})
		}
		return &SliceV{m.e.leaf(b), m.e.cint(SI64, 0), m.sliceLen0(st, b.args[0])}
	}
	if v := m.derivedCell(st, a); v != nil {
		return v
	}
	s, _ := leafSort(ty)
	if symbolicRef(a) && !m.opaqueOwner(a) {
		k := m.memKey(a, s)
		n := m.e.build("mget", s, "", nil, m.node(st, k), m.e.leaf(a))
		if s == SRef {
			m.noteRefs(n, ty)
		}
		return n
	}
	return m.inTerm(st, a, s, ty)
}

// derivedCell: a field that holds the entry of a table for another field of its
// object, from the time the object was made.
func (m *Mach) derivedCell(st *State, a *Term) Val {
	if len(m.cfg.derived) == 0 || a.op != "fld" {
		return nil
	}
	p := a.args[0]
	ty := m.typ[p]
	if ty == nil {
		return nil
	}
	d, ok := m.cfg.derived[typeNameOf(ty)+"."+a.str]
	str, ok2 := ty.Underlying().(*types.Struct)
	if !ok || !ok2 || local(p) {
		return nil
	}
	pkg, name, _ := strings.Cut(d[0], ".")
	for _, sp := range m.prog.spkg {
		g, ok := sp.Members[name].(*ssa.Global)
		if sp.Pkg.Name() != pkg || !ok {
			continue
		}
		gt := g.Type().Underlying().(*types.Pointer).Elem()
		for i := 0; i < str.NumFields(); i++ {
			if f := str.Field(i); f.Name() == d[1] {
				k := m.load(st, m.fld(p, i, f.Name(), f.Type()), f.Type())
				v, _ := m.mapGet(st, m.load(st, m.global(g), gt).(*Node), gt, k)
				return v
			}
		}
	}
	return nil
}

func (m *Mach) inTerm(st *State, a *Term, s Sort, ty types.Type) *Node {
	var n *Node
	if g := m.tokOf(st, a); g != nil {
		n = m.asN("rd", s, []*Term{a, g})
	} else {
		n = m.asN("in", s, []*Term{a})
	}
	if s == SRef {
		m.noteRefs(n, ty)
	}
	return n
}

func (m *Mach) asN(op string, s Sort, args []*Term) *Node {
	return m.e.asNode(m.e.mk(&Term{op: op, sort: s, args: args}))
}

// tokOf gives the state token that stands for memory a belongs to, if that
// memory is treated as a whole.
func (m *Mach) tokOf(st *State, a *Term) *Term {
	k := m.ownerTok(a)
	if k == nil {
		return nil
	}
	n := m.node(st, k)
	f := m.e.freeze(n)
	return f.term
}

func (m *Mach) opaqueOwner(a *Term) bool { return m.ownerTok(a) != nil }

// ownerTok: the token cell governing address a.
func (m *Mach) ownerTok(a *Term) *Term {
	for t := a; ; {
		switch t.op {
		case "fld", "idx":
			p := t.args[0]
			if ty := m.typ[p]; ty != nil {
				n := typeNameOf(ty)
				if tk, ok := m.cfg.tokTypes[n]; ok && !local(p) {
					if tk == "world" {
						return m.worldTok()
					}
					return m.regionTok(p, m.cfg.fieldTok[n+"."+t.str])
				}
			}
			t = p
			continue
		case "in", "rd", "sbase", "at":
			t = t.args[0]
			continue
		}
		return nil
	}
}

func (m *Mach) worldTok() *Term { return m.e.mk(&Term{op: "tok", sort: SRef, str: "world"}) }
func (m *Mach) extTok() *Term   { return m.e.mk(&Term{op: "tok", sort: SRef, str: "ext"}) }
func (m *Mach) regionTok(p *Term, group string) *Term {
	if p.op == "rd" {
		p = m.e.mk(&Term{op: "in", sort: SRef, args: p.args[:1]})
	}
	return m.e.mk(&Term{op: "tok", sort: SRef, str: "region" + group, args: []*Term{p}})
}

// tokGroups lists the token groups of an object type.
func (m *Mach) tokGroups(t types.Type) []string {
	set := map[string]bool{"": true}
	n := typeNameOf(t)
	for k, g := range m.cfg.fieldTok {
		if strings.HasPrefix(k, n+".") {
			set[g] = true
		}
	}
	return sortedStrings(set)
}

// store writes v (of type ty) at address a, when c holds.
func (m *Mach) store(st *State, c *Node, a *Term, ty types.Type, v Val) {
	m.e.tick()
	if c == m.e.F || a.op == "nil" {
		return
	}
	if a.op == "idx" {
		ct := a.args[0]
		if k := m.kind(ct); k == kWord || k == kSmall {
			if !a.args[1].isConst() {
				n := int64(4)
				if k == kSmall {
					n, _ = m.arrayLen(ct)
				}
				for i := int64(0); i < n; i++ {
					it := m.e.cint(SI64, i)
					eq := m.e.op("eq", SBool, m.e.leaf(a.args[1]), it)
					m.store(st, m.e.and(c, eq), m.idxT(ct, it.term, m.typ[a]), ty, v)
				}
				return
			}
			if k == kWord {
				n := m.load(st, ct, m.u256).(*Node)
				var ws []*Node
				for i := int64(0); i < 4; i++ {
					if i == a.args[1].num.Int64() {
						ws = append(ws, v.(*Node))
					} else {
						ws = append(ws, m.e.build("word", SU64, "", big.NewInt(i), n))
					}
				}
				m.store(st, c, ct, m.u256, m.e.op("pack", SU256, ws...))
				return
			}
		}
	}
	if a.op == "aview" {
		n, ok := v.(*Node)
		for i := int64(0); i < 4; i++ {
			var w Val
			if ok {
				w = m.e.build("word", SU64, "", big.NewInt(i), n)
			} else {
				w = v.(*Agg).f[i]
			}
			m.store(st, c, m.idxT(a.args[0], m.e.pAdd(SI64, a.args[1], m.e.cint(SI64, i).term), types.Typ[types.Uint64]), types.Typ[types.Uint64], w)
		}
		return
	}
	if _, leaf := leafSort(ty); !leaf && !isSlice(ty) {
		if isBigArray(ty) {
			k := m.contKey(m.setType(a, ty))
			st.heap[k] = m.iteVal(c, v, m.get(st, k))
			return
		}
		ts, ns := components(ty)
		_, isArr := ty.Underlying().(*types.Array)
		g, ok := v.(*Agg)
		if !ok {
			undecided("store of %T as %s", v, ty)
		}
		for i, t := range ts {
			var ad *Term
			if isArr {
				ad = m.idxT(a, m.e.cint(SI64, int64(i)).term, t)
			} else {
				ad = m.fld(a, i, ns[i], t)
			}
			m.store(st, c, ad, t, g.f[i])
		}
		return
	}
	root, steps := m.locate(a)
	if root != nil {
		if root.op == "box" {
			undecided("write to an object known only by its value")
		}
		k := m.contKey(root)
		cn := m.content(st, root)
		s := steps[0]
		old := m.e.build("sel", m.packSort(s.t), typeNameOf(s.t), nil, cn, m.e.leaf(s.idx))
		nv := m.replace(old, s.t, steps[1:], m.pack(v, ty))
		up := m.e.op("upd", SSeq, cn, m.e.leaf(s.idx), nv)
		st.heap[k] = m.e.ite(c, up, cn)
		return
	}
	if external(a) {
		m.writes++
	}
	if by := m.lent[a]; by != "" && !m.sameUnder(v, m.get(st, a), m.e.and(c, st.reach)) {
		m.lentW = append(m.lentW, by)
	}
	if n, ok := v.(*Node); ok && symbolicRef(a) {
		s, _ := leafSort(ty)
		k := m.memKey(a, s)
		old := m.node(st, k)
		up := m.e.build("mput", SState, "", nil, old, m.e.leaf(a), n)
		st.heap[k] = m.e.ite(c, up, old)
		return
	}
	if c == m.e.T || m.e.restrict(c, st.reach) == m.e.T {
		st.heap[a] = v
		return
	}
	old := m.load(st, a, ty)
	st.heap[a] = m.iteVal(c, v, old)
}

func (m *Mach) replace(old *Node, ty types.Type, steps []step, v *Node) *Node {
	if len(steps) == 0 {
		return v
	}
	ts, _ := components(ty)
	var as []*Node
	for i, t := range ts {
		o := m.e.build("rf", m.packSort(t), "", big.NewInt(int64(i)), old)
		if i == steps[0].i {
			o = m.replace(o, t, steps[1:], v)
		}
		as = append(as, o)
	}
	return m.e.build("rec", SRec, typeName(ty), nil, as...)
}

// loadN, storeN: through a pointer value.
func (m *Mach) loadN(st *State, p *Node, ty types.Type) Val {
	p = m.e.restrict(p, st.reach)
	return m.overLeaves(p, func(t *Term) Val { return m.load(st, m.setType(t, ty), ty) })
}

func (m *Mach) storeN(st *State, p *Node, ty types.Type, v Val) {
	p = m.e.restrict(p, st.reach)
	ts, cs := m.leafConds(p)
	for i, t := range ts {
		if t.op == "nil" {
			continue
		}
		m.store(st, cs[i], m.setType(t, ty), ty, v)
	}
}

func (m *Mach) restrictVal(v Val, c *Node) Val {
	if c == m.e.T || c == m.e.F {
		return v
	}
	return m.mapVal(v, func(n *Node) *Node { return m.e.restrict(n, c) })
}

// merge joins states that meet; conds are their reaching conditions.
func (m *Mach) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s.reach != m.e.F {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) == 0 {
			return &State{m.e.F, map[*Term]Val{}}
		}
		return sts[0]
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	out := live[len(live)-1].clone()
	for i := len(live) - 2; i >= 0; i-- {
		out = m.merge2(live[i], out)
	}
	return out
}

func (m *Mach) merge2(a, b *State) *State {
	r := &State{m.e.or(a.reach, b.reach), make(map[*Term]Val, len(b.heap))}
	var keys []*Term
	seen := map[*Term]bool{}
	for k := range a.heap {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for k := range b.heap {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		x, okx := a.heap[k]
		y, oky := b.heap[k]
		if okx && oky {
			if sameVal(x, y) {
				r.heap[k] = x
				continue
			}
			r.heap[k] = m.restrictVal(m.iteVal(a.reach, x, y), r.reach)
			continue
		}
		if !okx {
			x = m.absent(a, k)
		} else {
			y = m.absent(b, k)
		}
		if x == nil {
			r.heap[k] = y
		} else if y == nil {
			r.heap[k] = x
		} else {
			r.heap[k] = m.restrictVal(m.iteVal(a.reach, x, y), r.reach)
		}
	}
	return r
}

// absent is the content of a cell one of two joining states has not written.
func (m *Mach) absent(s *State, k *Term) Val {
	if rootAlloc(k) {
		return nil // not allocated there
	}
	if v := m.initial(s, k); v != nil {
		return v
	}
	ty := m.typ[k]
	if ty == nil {
		undecided("type of cell %s", k)
	}
	return m.initCell(s, k, ty)
}

func rootAlloc(k *Term) bool {
	for {
		switch k.op {
		case "alloc":
			return true
		case "fld", "idx", "cont", "mapc", "aview":
			k = k.args[0]
			continue
		}
		return false
	}
}
