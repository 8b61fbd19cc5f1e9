package main

// Comparison of a function with its specification: both are reduced to value
// graphs over the same entry state, and everything a caller can observe
// afterwards (results, memory, whether the call panics) must be the same graph.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Diff struct {
	where string
	msg   string
}

type cmp struct {
	m       *Mach
	e       *Eng
	s1, s2  *State // candidate, specification
	R       *Node
	diffs   []Diff
	pairs   map[*Term][]pairing
	done    map[string]bool
	nobs    int
	nslow   int
	depth   int
	lax     bool
	doubts  int  // differences no instance shows
	bounded bool // the first iterations of restructured loops are compared

	bodies  map[[3]*Node]bool
	comemo  map[coKey]bool
	codepth int
}

type pairing struct {
	t2    *Term
	cond  *Node
	where string
}

func (c *cmp) diff(where, f string, a ...interface{}) {
	if len(c.diffs) < 6 {
		c.diffs = append(c.diffs, Diff{where, fmt.Sprintf(f, a...)})
	}
}

// equalUnder compares two diagrams where cond holds; it returns a description of
// a case in which they differ.
func (c *cmp) equalUnder(a, b, cond *Node) (string, bool) {
	e := c.e
	if a == b || cond == e.F {
		return "", true
	}
	none := e.raw("none", SAny, "")
	x, y := e.ite(cond, a, none), e.ite(cond, b, none)
	if x == y {
		return "", true
	}
	c.nslow++
	// opened gates
	x, y = e.expand(x), e.expand(y)
	if x == y {
		return "", true
	}
	if x = c.align(x, y, cond); x == y {
		return "", true
	}
	var ls []lit
	n := 0
	msg := ""
	type k2 struct{ a, b *Node }
	var w func(x, y *Node) bool
	w = func(x, y *Node) bool {
		if x == y {
			return true
		}
		n++
		if n > 20000 {
			undecided("too many cases to compare")
		}
		e.tick()
		if x.term != nil && y.term != nil {
			if e.infeasible(ls) {
				return true
			}
			p, q := e.applyEq(e.asNode(x.term), ls), e.applyEq(e.asNode(y.term), ls)
			if p == q {
				return true
			}
			if p.term == nil || q.term == nil {
				// the case in the same terms as the values
				ls2, dead := e.restated(ls)
				if dead {
					return true
				}
				for _, l := range ls2[len(ls):] {
					p, q = e.restrict(p, e.litNode(l)), e.restrict(q, e.litNode(l))
				}
				if p == q || c.eqLits(p, q, ls2) {
					return true
				}
			} else if e.congEq(p.term, q.term, ls) {
				return true
			}
			msg = fmt.Sprintf("code gives %s, required is %s", clip(p.String()), clip(q.String()))
			if len(ls) > 0 {
				msg += ", when " + showLits(ls)
			}
			return false
		}
		at := x.atom
		if x.term != nil || y.lvl() < x.lvl() {
			at = y.atom
		}
		for _, pos := range []bool{true, false} {
			x1, y1 := cof(x, at, pos), cof(y, at, pos)
			if x1 == y1 {
				continue
			}
			ls = append(ls, lit{at, pos})
			ok := e.infeasible(ls) || w(x1, y1)
			ls = ls[:len(ls)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	if w(x, y) {
		return "", true
	}
	if found, open := c.instance(a, b, cond); !found && !open {
		c.doubts++
		return "", true
	}
	return msg, false
}

// restated adds the literals as they read with the equalities among them put in.
func (e *Eng) restated(ls []lit) (out []lit, dead bool) {
	out = append(out, ls...)
	for _, l := range ls {
		n := e.applyEq(e.litNode(l), ls)
		switch {
		case n == e.F:
			return nil, true
		case n.term != nil || n == e.litNode(l):
		case n.hi == e.T && n.lo == e.F:
			out = append(out, lit{n.atom, true})
		case n.hi == e.F && n.lo == e.T:
			out = append(out, lit{n.atom, false})
		}
	}
	return out, false
}

// congEq: the same operation on operands the literals make equal.
func (e *Eng) congEq(t, u *Term, ls []lit) bool {
	if t == u {
		return true
	}
	if t.sort != u.sort {
		return false
	}
	if t.sort == SI64 {
		for _, p := range [][2]*Term{{t, u}, {u, t}} {
			n := e.op("lt", SBool, e.leaf(p[0]), e.leaf(p[1]))
			if n == e.F {
				continue
			}
			l2 := append([]lit(nil), ls...)
			switch {
			case n.term == nil && n.hi == e.T && n.lo == e.F:
				l2 = append(l2, lit{n.atom, true})
			case n.term == nil && n.hi == e.F && n.lo == e.T:
				l2 = append(l2, lit{n.atom, false})
			default:
				l2 = nil
			}
			if l2 == nil || !e.infeasible(l2) {
				goto args
			}
		}
		return true
	}
args:
	if t.op != u.op || t.str != u.str || len(t.args) == 0 || len(t.args) != len(u.args) || len(t.nodes) != len(u.nodes) || (t.num == nil) != (u.num == nil) || t.num != nil && t.num.Cmp(u.num) != 0 {
		return false
	}
	if t.op == "+" || t.op == "sum" || t.op == "poly" {
		return false
	}
	for i := range t.nodes {
		if t.nodes[i] != u.nodes[i] {
			return false
		}
	}
	for i := range t.args {
		if !e.congEq(t.args[i], u.args[i], ls) {
			return false
		}
	}
	return true
}

// eqLits: equal in every case compatible with the literals.
func (c *cmp) eqLits(p, q *Node, ls []lit) bool { return c.eqLits1(p, q, ls, 2) }

func (c *cmp) eqLits1(p, q *Node, ls []lit, depth int) bool {
	e := c.e
	n := 0
	base := len(ls)
	ls = append([]lit(nil), ls...)
	var w func(x, y *Node) bool
	w = func(x, y *Node) bool {
		if x == y {
			return true
		}
		n++
		if n > 3000 {
			return false
		}
		e.tick()
		if x.term != nil && y.term != nil {
			if e.infeasible(ls) {
				return true
			}
			if len(ls) == base || depth == 0 {
				return false
			}
			// parts chosen by the conditions met since
			p1, q1 := e.applyEq(e.expand(x), ls), e.applyEq(e.expand(y), ls)
			if p1 == q1 {
				return true
			}
			if p1.term == nil || q1.term == nil {
				return c.eqLits1(p1, q1, ls, depth-1)
			}
			return e.congEq(p1.term, q1.term, ls)
		}
		at := x.atom
		if x.term != nil || y.lvl() < x.lvl() {
			at = y.atom
		}
		for _, pos := range []bool{true, false} {
			x1, y1 := cof(x, at, pos), cof(y, at, pos)
			if x1 == y1 {
				continue
			}
			ls = append(ls, lit{at, pos})
			ok := e.infeasible(ls) || w(x1, y1)
			ls = ls[:len(ls)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	return w(p, q)
}

// expand opens the gates at the leaves of n.
func (e *Eng) expand(n *Node) *Node {
	for i := 0; i < 4; i++ {
		big := 0
		r := e.mapLeaves(n, func(t *Term) *Node {
			if t.op == "gate" {
				big++
				return t.nodes[0]
			}
			return e.asNode(t)
		})
		if big == 0 {
			return n
		}
		n = r
	}
	return n
}

func clip(s string) string {
	if len(s) > 80*showDepth {
		return s[:80*showDepth] + "…"
	}
	return s
}

var showDepth = func() int {
	if n, err := strconv.Atoi(os.Getenv("VDEPTH")); err == nil {
		return n
	}
	return 5
}()

func showLits(ls []lit) string {
	var ps []string
	for i, l := range ls {
		if i > 12 && os.Getenv("VDEBUG") == "" {
			ps = append(ps, "…")
			break
		}
		s := l.a.show(showDepth)
		switch l.a.op {
		case "le0":
			s = l.a.args[0].show(showDepth) + " <= 0"
		case "eq0":
			s = l.a.args[0].show(showDepth) + " = 0"
		}
		if !l.pos {
			s = "not(" + s + ")"
		}
		ps = append(ps, clip(s))
	}
	return strings.Join(ps, " and ")
}

// compareFns analyses both functions from the same entry state.
func (m *Mach) compareFns(cand, spec *ssa.Function, opt *target) *cmp {
	e := m.e
	st := m.entry()
	sig := cand.Signature
	ts := m.allParams(sig)
	ss := m.allParams(spec.Signature)
	if len(ts) != len(ss) {
		undecided("%s has %d parameters, its specification %d", shortName(cand), len(ts), len(ss))
	}
	names := map[int]string{}
	for i, p := range cand.Params {
		names[i] = p.Name()
		if names[i] == "" || names[i] == "_" {
			names[i] = fmt.Sprintf("arg%d", i)
		}
	}
	var args []Val
	for i, t := range ts {
		if !types.Identical(t, ss[i]) {
			undecided("%s: parameter %d has type %s, its specification %s", shortName(cand), i, t, ss[i])
		}
		args = append(args, m.param(names[i], t))
	}
	if opt != nil {
		for i, v := range opt.args {
			if v != nil {
				args[i] = v(m, st)
			}
		}
		for i, l := range opt.limits {
			if n, ok := args[i].(*Node); ok && n.term != nil {
				if e.lim == nil {
					e.lim = map[*Term][2]*big.Int{}
				}
				e.lim[n.term] = [2]*big.Int{big.NewInt(l[0]), big.NewInt(l[1])}
			}
		}
		for i, j := range opt.alias {
			args[i] = args[j]
		}
	}
	if sig.Results().Len() != spec.Signature.Results().Len() {
		undecided("%s returns %d values, its specification %d", shortName(cand), sig.Results().Len(), spec.Signature.Results().Len())
	}
	assume := e.T
	if opt != nil && opt.assume != nil {
		assume = opt.assume(m, st, args)
	}
	if e.tiny {
		for i, t := range ts {
			assume = e.and(assume, m.inOrder(args[i], t))
		}
	}
	st.reach = assume
	m.extSide, m.extUsed, m.texts = 1, map[string]int{}, [3]int{}
	v2, s2 := m.call(spec, nil, args, st.clone())
	m.extSide = 2
	no := m.cfg.noModel
	m.cfg.noModel = map[string]bool{}
	for k := range no {
		m.cfg.noModel[k] = true
	}
	if opt != nil {
		for _, k := range opt.own {
			m.cfg.noModel[k] = true
		}
	}
	m.cfg.noModel[shortName(cand)] = true
	m.lentW, m.touched = nil, ""
	m.keySeps = map[string]bool{}
	v1, s1 := m.call(cand, nil, args, st.clone())
	m.cfg.noModel = no
	c := &cmp{m: m, e: e, s1: s1, s2: s2, pairs: map[*Term][]pairing{}, done: map[string]bool{}, bounded: m.cutK > 0 && m.tinyN == 0}
	if m.cut != nil {
		assume = e.and(assume, e.not(m.cut))
	}
	if msg, ok := c.equalUnder(s1.reach, s2.reach, assume); !ok {
		c.diff("rejection of its arguments", "returns normally or panics under other conditions: %s", msg)
	}
	c.R = e.and(s1.reach, s2.reach)
	if m.cut != nil {
		c.R = e.and(c.R, e.not(m.cut))
	}
	c.nobs++
	if c.R == e.F {
		return c
	}
	skip := map[int]bool{}
	if opt != nil {
		for _, i := range opt.noResult {
			skip[i] = true
		}
	}
	switch sig.Results().Len() {
	case 0:
	case 1:
		if !skip[0] {
			c.obs("result", nil, v1, v2, sig.Results().At(0).Type(), c.R)
		}
	default:
		for i := 0; i < sig.Results().Len(); i++ {
			if !skip[i] {
				c.obs(fmt.Sprintf("result %d", i+1), nil, v1.(*Agg).f[i], v2.(*Agg).f[i], sig.Results().At(i).Type(), c.R)
			}
		}
	}
	c.heaps()
	for i, by := range m.lentW {
		if i == 0 {
			c.diff("numbers that belong to another object", "a number obtained from %s is changed in place", by)
		}
	}
	return c
}

// heaps compares all memory that existed before the call.
func (c *cmp) heaps() {
	m := c.m
	keys := map[*Term]bool{}
	var work []*Term
	add := func(k *Term) {
		if !keys[k] {
			keys[k] = true
			work = append(work, k)
		}
	}
	for _, st := range []*State{c.s1, c.s2} {
		for k, v := range st.heap {
			if rootAlloc(k) {
				continue
			}
			if b, ok := m.boot[k]; ok && sameVal(b, v) {
				continue
			}
			add(k)
		}
	}
	// leaf objects are looked at through the variable that points to them
	sort.Slice(work, func(i, j int) bool { return work[i].id < work[j].id })
	for i := 0; i < len(work); i++ {
		k := work[i]
		switch {
		case (k.op == "in" || k.op == "rd") && k.sort == SRef:
			delete(keys, k)
			add(k.args[0])
		case k.op == "cont" && k.args[0].op == "sbase" && k.args[0].args[0].op == "fld" && c.m.typ[k.args[0].args[0]] != nil:
			// the elements belong to the slice variable
			delete(keys, k)
			add(k.args[0].args[0])
		case k.op == "mem":
			owners, ok := c.memOwners(k)
			if ok {
				delete(keys, k)
				for _, o := range owners {
					add(o)
				}
			}
		}
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		c.cell(k)
	}
}

// memOwners finds the containers whose elements a memory region's addresses belong to.
func (c *cmp) memOwners(k *Term) ([]*Term, bool) {
	var out []*Term
	for _, st := range []*State{c.s1, c.s2} {
		n, ok := c.m.get(st, k).(*Node)
		if !ok {
			return nil, false
		}
		for _, l := range leaves(n) {
			for t := l; t.op != "mem0"; t = t.args[0] {
				if t.op != "mput" {
					return nil, false
				}
				o := c.owner(t.args[1])
				if o == nil {
					return nil, false
				}
				out = append(out, o)
			}
		}
	}
	return out, true
}

func (c *cmp) owner(a *Term) *Term {
	for {
		switch a.op {
		case "fld", "rf", "in", "idx":
			if a.op == "in" && !symbolicRef(a.args[0]) {
				return nil
			}
			a = a.args[0]
			continue
		case "sel":
			s := a.args[0]
			if s.op == "seq0" {
				b := s.args[0]
				if symbolicRef(b) {
					a = b
					continue
				}
				return c.m.contKey(b)
			}
			return nil
		case "mget":
			s := a.args[0]
			if s.op == "map0" {
				return c.m.mapKey(s.args[0])
			}
			return nil
		case "sbase":
			a = a.args[0]
			continue
		}
		return nil
	}
}

func (c *cmp) val(st *State, k *Term) Val {
	if v, ok := st.heap[k]; ok {
		return c.m.restrictVal(v, c.R)
	}
	return c.m.absent(st, k)
}

func (c *cmp) cell(k *Term) {
	m, e := c.m, c.e
	a, b := c.val(c.s1, k), c.val(c.s2, k)
	where := k.String()
	switch k.op {
	case "cont":
		el := m.elemType(k.args[0])
		c.seqs(where[5:len(where)-1]+"[]", a.(*Node), b.(*Node), el, c.R)
		return
	case "mapc":
		mt, ok := m.typ[k.args[0]].(types.Type)
		if !ok || mt == nil {
			undecided("type of map %s", k.args[0])
		}
		c.maps(where[5:len(where)-1], a.(*Node), b.(*Node), mt.Underlying().(*types.Map), c.R)
		return
	case "mem":
		c.nobs++
		A := e.leaf(e.mk(&Term{op: "var", sort: SRef, str: "A"}))
		x := e.build("mget", nodeSortOfMem(k), "", nil, a.(*Node), A)
		y := e.build("mget", nodeSortOfMem(k), "", nil, b.(*Node), A)
		if msg, ok := c.equalUnder(x, y, c.R); !ok {
			c.diff("memory "+k.str, "%s", msg)
		}
		return
	case "tok":
		c.nobs++
		if msg, ok := c.equalUnder(a.(*Node), b.(*Node), c.R); !ok {
			what := "calls made"
			if len(k.args) > 0 {
				what = "changes made to " + k.args[0].String()
			}
			c.diff(what, "%s", msg)
		}
		return
	}
	ty := m.typ[k]
	if ty == nil {
		undecided("type of %s", k)
	}
	c.obs(where, k, a, b, ty, c.R)
}

func nodeSortOfMem(k *Term) Sort {
	i := strings.LastIndex(k.str, "|")
	for s, n := range sortNames {
		if n == k.str[i+1:] {
			return Sort(s)
		}
	}
	return SAny
}

// obs compares two values of type ty found in the same place.
func (c *cmp) obs(where string, slot *Term, a, b Val, ty types.Type, cond *Node) {
	m, e := c.m, c.e
	if cond == e.F || len(c.diffs) >= 6 {
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 12 {
		undecided("structure too deep at %s", where)
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		c.ptrs(where, slot, a.(*Node), b.(*Node), u.Elem(), cond)
		return
	case *types.Slice:
		c.slices(where, slot, a.(*SliceV), b.(*SliceV), u.Elem(), cond)
		return
	case *types.Map:
		c.mapRefs(where, slot, a.(*Node), b.(*Node), u, cond)
		return
	case *types.Interface:
		c.ifaces(where, a.(*Node), b.(*Node), cond)
		return
	case *types.Signature:
		c.nobs++
		x := c.fnIds(a.(*Node))
		y := c.fnIds(b.(*Node))
		if msg, ok := c.equalUnder(x, y, cond); !ok {
			c.diff(where, "%s", msg)
		}
		return
	}
	if x, ok := a.(*Agg); ok {
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			c.diff(where, "different structure")
			return
		}
		ts, ns := components(ty)
		for i := range x.f {
			var sl *Term
			if slot != nil {
				sl = m.fld(slot, i, ns[i], ts[i])
			}
			c.obs(where+"."+ns[i], sl, x.f[i], y.f[i], ts[i], cond)
		}
		return
	}
	if isBigArray(ty) {
		c.seqs(where+"[]", a.(*Node), b.(*Node), ty.Underlying().(*types.Array).Elem(), cond)
		return
	}
	c.nobs++
	if msg, ok := c.equalUnder(a.(*Node), b.(*Node), cond); !ok {
		c.diff(where, "%s", msg)
	}
}

func (c *cmp) fnIds(n *Node) *Node { return n }

// casesOf lists the pairs of leaves two diagrams take together.
func (c *cmp) cases(a, b, cond *Node, f func(t1, t2 *Term, cond *Node)) {
	m := c.m
	a, b = c.e.restrict(a, cond), c.e.restrict(b, cond)
	ts, cs := m.leafConds(a)
	us, ds := m.leafConds(b)
	for i, t := range ts {
		for j, u := range us {
			cc := c.e.and(c.e.and(cs[i], ds[j]), cond)
			if cc == c.e.F {
				continue
			}
			if t != u && c.impossible(cc) {
				continue
			}
			f(t, u, cc)
		}
	}
}

// impossible: no case of cond can occur.
func (c *cmp) impossible(cond *Node) bool {
	_, ok := c.equalUnder(c.e.T, c.e.F, cond)
	return ok
}

func leafPointee(t types.Type) bool {
	s, ok := leafSort(t)
	return ok && s != SRef
}

func (c *cmp) ptrs(where string, slot *Term, a, b *Node, el types.Type, cond *Node) {
	e := c.e
	c.nobs++
	leaf := leafPointee(el)
	c.cases(a, b, cond, func(t1, t2 *Term, cc *Node) {
		if t1.op == "nil" || t2.op == "nil" {
			if t1 != t2 {
				if t1.op != "nil" && t2.op == "nil" || t2.op != "nil" {
					// the reference may itself be nil
					o := t1
					if t1.op == "nil" {
						o = t2
					}
					x := e.and(cc, e.not(e.eqRef(o, e.nilRef().term)))
					if x == e.F || c.impossible(x) {
						return
					}
				}
				c.diff(where, "code gives %s, required is %s%s", t1, t2, c.when(cc))
			}
			return
		}
		l1, l2 := local(t1), local(t2)
		if t1 == t2 {
			if leaf || symbolicRef(t1) || l1 {
				c.pointee(where, t1, t2, el, cc)
			}
			return
		}
		if leaf {
			if moved := l2 && !l1 && !c.ownSlot(slot, t1) && c.givenUp(t1, el, cc); moved {
				c.pair(where, t1, t2, cc)
			} else if l2 && !l1 && !c.ownSlot(slot, t1) && t1.op != "outref" {
				c.diff(where, "shares the number object %s with another owner where a separate one is required%s", t1, c.when(cc))
				return
			}
			if l1 && l2 {
				c.pair(where, t1, t2, cc)
			}
			if !l1 && !l2 && !c.ownSlot(slot, t1) {
				// two different existing objects
				if e.eqRef(t1, t2) == e.F {
					c.diff(where, "refers to the object %s, required is %s%s", t1, t2, c.when(cc))
					return
				}
				if msg, ok := c.equalUnder(e.leaf(t1), e.leaf(t2), cc); !ok {
					c.diff(where, "refers to another object: %s", msg)
					return
				}
			}
			c.pointee(where, t1, t2, el, cc)
			return
		}
		if l1 != l2 {
			if l1 {
				c.diff(where, "a new object where the existing %s is required%s", t2, c.when(cc))
			} else {
				c.diff(where, "the existing object %s where a new one is required%s", t1, c.when(cc))
			}
			return
		}
		if l1 {
			c.pair(where, t1, t2, cc)
			c.pointee(where, t1, t2, el, cc)
			return
		}
		if msg, ok := c.equalUnder(e.leaf(t1), e.leaf(t2), cc); !ok {
			c.diff(where, "refers to another object: %s", msg)
			return
		}
		if symbolicRef(t1) || symbolicRef(t2) {
			// one object by two names
			c.pointee(where, t1, t1, el, cc)
		}
	})
}

func (c *cmp) when(cc *Node) string {
	if cc == c.e.T {
		return ""
	}
	return ", when " + clip(cc.show(4))
}

// givenUp: t was found in a variable that no longer holds it (the caller of the
// comparison sees to it that only one other place holds it now).
func (c *cmp) givenUp(t *Term, el types.Type, cond *Node) bool {
	if t.op != "in" && t.op != "rd" || len(t.args) != 1 {
		return false
	}
	n, ok := c.m.load(c.s1, t.args[0], types.NewPointer(el)).(*Node)
	if !ok {
		return false
	}
	x := c.e.and(cond, c.e.mapLeaves(n, func(x *Term) *Node { return c.e.eqRef(x, t) }))
	return x == c.e.F || c.impossible(x)
}

// ownSlot: t is what the variable pointed to before.
func (c *cmp) ownSlot(slot, t *Term) bool {
	if slot == nil {
		return false
	}
	return (t.op == "in" || t.op == "rd") && t.args[0] == slot
}

func (c *cmp) pair(where string, t1, t2 *Term, cond *Node) {
	for _, p := range c.pairs[t1] {
		if p.t2 != t2 {
			o := c.e.and(p.cond, cond)
			if o != c.e.F && !c.impossible(o) {
				c.diff(where, "the same object is also %s, where separate ones are required", p.where)
				return
			}
		}
	}
	c.pairs[t1] = append(c.pairs[t1], pairing{t2, cond, where})
}

func (c *cmp) pointee(where string, t1, t2 *Term, el types.Type, cond *Node) {
	key := fmt.Sprintf("%d,%d,%d", t1.id, t2.id, cond.id)
	if c.done[key] {
		return
	}
	c.done[key] = true
	m := c.m
	m.setType(t1, el)
	m.setType(t2, el)
	if t1.op == "box" && t2.op == "box" || !leafPointee(el) && (t1.op == "box" || t2.op == "box") {
		// fallthrough to contents
	}
	a, b := m.load(c.s1, t1, el), m.load(c.s2, t2, el)
	var slot *Term
	if !local(t1) && t1 == t2 {
		slot = t1
	}
	c.obs(where, slot, a, b, el, cond)
}

func (c *cmp) slices(where string, slot *Term, a, b *SliceV, el types.Type, cond *Node) {
	c.nobs++
	if msg, ok := c.equalUnder(a.ln, b.ln, cond); !ok {
		c.diff("len("+where+")", "%s", msg)
		return
	}
	c.cases(a.base, b.base, cond, func(t1, t2 *Term, cc *Node) {
		if t1 == t2 || local(t1) || t1.op == "nil" {
			return
		}
		if t2.op == "nil" || local(t2) {
			if slot != nil && t1.op == "sbase" && t1.args[0] == slot {
				return
			}
			if t2.op == "nil" {
				return
			}
			z := c.e.and(cc, c.e.not(c.e.op("eq", SBool, a.ln, c.e.cint(SI64, 0))))
			if z != c.e.F {
				c.diff(where, "shares its elements with %s where separate ones are required%s", t1, c.when(cc))
			}
		}
	})
	ca, cb := c.m.sliceContent(c.s1, a), c.m.sliceContent(c.s2, b)
	c.seqs(where+"[]", ca, cb, el, cond)
}

func (c *cmp) noAllocs(n *Node) bool {
	return len(findTerms(n, func(t *Term) bool { return t.op == "alloc" })) == 0
}

func (c *cmp) memTouched() bool {
	for _, st := range []*State{c.s1, c.s2} {
		for k := range st.heap {
			if k.op == "mem" {
				return true
			}
		}
	}
	return false
}

func (c *cmp) seqs(where string, a, b *Node, el types.Type, cond *Node) {
	m, e := c.m, c.e
	c.nobs++
	if a == b && c.noAllocs(a) && !(hasRefs(el) && c.memTouched()) {
		return
	}
	none := e.raw("none", SAny, "")
	if !hasRefs(el) && e.ite(cond, a, none) == e.ite(cond, b, none) {
		return
	}
	la, lb := e.op("qlen", SI64, a), e.op("qlen", SI64, b)
	_ = lb
	J := e.leaf(e.mk(&Term{op: "var", sort: SI64, str: "J", num: big.NewInt(int64(c.depth + 10))}))
	in := e.and(e.op("le", SBool, e.cint(SI64, 0), J), e.op("lt", SBool, J, la))
	cond = e.and(cond, in)
	if cond == e.F {
		return
	}
	x := e.build("sel", m.packSort(el), typeName(el), nil, a, J)
	y := e.build("sel", m.packSort(el), typeName(el), nil, b, J)
	c.obs(where, nil, m.unpack(e.restrict(x, cond), el), m.unpack(e.restrict(y, cond), el), el, cond)
}

func (c *cmp) mapRefs(where string, slot *Term, a, b *Node, mt *types.Map, cond *Node) {
	c.nobs++
	c.cases(a, b, cond, func(t1, t2 *Term, cc *Node) {
		if t1 == t2 && !local(t1) {
			return // compared as memory
		}
		if t1.op == "nil" || t2.op == "nil" {
			if t1 != t2 {
				c.diff(where, "code gives %s, required is %s%s", t1, t2, c.when(cc))
			}
			return
		}
		if !local(t1) && local(t2) && !(slot != nil && t1.op == "in" && t1.args[0] == slot) {
			c.diff(where, "shares the map %s where a separate one is required%s", t1, c.when(cc))
			return
		}
		if !local(t1) && !local(t2) {
			c.diff(where, "refers to map %s, required is %s%s", t1, t2, c.when(cc))
			return
		}
		x, y := c.m.node(c.s1, c.m.mapKey(t1)), c.m.node(c.s2, c.m.mapKey(t2))
		c.maps(where, x, y, mt, cc)
	})
}

func (c *cmp) maps(where string, a, b *Node, mt *types.Map, cond *Node) {
	m, e := c.m, c.e
	c.nobs++
	if a == b && c.noAllocs(a) && !c.memTouched() {
		return
	}
	key := e.mk(&Term{op: "var", sort: m.packSort(mt.Key()), str: "k", num: big.NewInt(int64(c.depth))})
	kn := e.asNode(key)
	h1, h2 := e.op("mhas", SBool, a, kn), e.op("mhas", SBool, b, kn)
	if msg, ok := c.equalUnder(h1, h2, cond); !ok {
		c.diff("keys of "+where, "%s", msg)
		return
	}
	cond0 := cond
	cond = e.and(cond, e.and(h1, h2))
	if cond == e.F {
		return
	}
	at := func(where string, k, cond *Node) {
		if cond == e.F {
			return
		}
		x := e.build("mget", m.packSort(mt.Elem()), typeName(mt.Elem()), nil, a, k)
		y := e.build("mget", m.packSort(mt.Elem()), typeName(mt.Elem()), nil, b, k)
		x, y = e.restrict(x, cond), e.restrict(y, cond)
		c.obs(where, nil, m.unpack(x, mt.Elem()), m.unpack(y, mt.Elem()), mt.Elem(), cond)
	}
	// the keys written to, then all others
	rest := cond
	seen := map[*Term]bool{}
	for _, s := range []*Node{a, b} {
		for _, l := range leaves(s) {
			for t := l; t.op == "mput" || t.op == "mdel"; t = t.args[0] {
				k := t.args[1]
				if seen[k] || e.mentions(e.leaf(k), map[*Term]bool{key: true}) {
					continue
				}
				seen[k] = true
				eq := e.op("eq", SBool, kn, e.leaf(k))
				h := e.and(e.op("mhas", SBool, a, e.leaf(k)), e.op("mhas", SBool, b, e.leaf(k)))
				at(fmt.Sprintf("%s[%s]", where, k), e.leaf(k), e.and(cond0, h))
				rest = e.and(rest, e.not(eq))
			}
		}
	}
	at(where+"[k]", kn, rest)
}

func (c *cmp) ifaces(where string, a, b *Node, cond *Node) {
	c.nobs++
	c.cases(a, b, cond, func(t1, t2 *Term, cc *Node) {
		if t1 == t2 {
			return
		}
		if t1.op == "iface" && t2.op == "iface" && t1.str == t2.str {
			ty := c.m.prog.ifaceTypes[t1.str]
			c.obs(where, nil, c.m.unpack(c.e.asNode(t1.args[0]), ty), c.m.unpack(c.e.asNode(t2.args[0]), ty), ty, cc)
			return
		}
		if msg, ok := c.equalUnder(c.e.leaf(t1), c.e.leaf(t2), cc); !ok {
			c.diff(where, "%s", msg)
		}
	})
}
