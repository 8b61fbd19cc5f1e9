package main

// Hash-consed terms and decision-diagram values.
//
// A Term is a node of the value graph: an operator applied to other terms, in
// normal form. Terms contain no case distinctions. A Node is a decision
// diagram over boolean atoms (terms of sort SBool) whose leaves are terms; it
// is the value a program variable has at a program point, merged over all the
// paths that reach the point. Two values are the same iff they are the same
// Node.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type Sort uint8

const (
	SBool Sort = iota
	SI64
	SI32
	SI16
	SI8
	SU64
	SU32
	SU16
	SU8
	SU256
	SBig
	SF64
	SStr
	SRef
	SSeq
	SRec
	SState
	SAny
)

var sortNames = []string{"bool", "int", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "u256", "big", "float", "string", "ref", "seq", "rec", "state", "any"}

func (s Sort) String() string { return sortNames[s] }

func (s Sort) arith() bool { return s >= SI64 && s <= SBig }
func (s Sort) signed() bool {
	return s >= SI64 && s <= SI8
}
func (s Sort) machine() bool { return s >= SI64 && s <= SU8 }
func (s Sort) unsigned() bool {
	return s >= SU64 && s <= SU256
}

func (s Sort) width() uint {
	switch s {
	case SI64, SU64:
		return 64
	case SI32, SU32:
		return 32
	case SI16, SU16:
		return 16
	case SI8, SU8:
		return 8
	case SU256:
		return 256
	}
	return 0
}

type mono struct {
	c *big.Int
	f []*Term // sorted by id, with repetitions
}

type Term struct {
	id    int
	op    string
	sort  Sort
	str   string
	num   *big.Int
	args  []*Term
	nodes []*Node
	poly  []mono
	lvl   int // order of the atom, when used as one
	leaf  *Node
	bvs   int // 1 + greatest bound variable level inside, 0 if none
	vars  bool
}

type Node struct {
	id     int
	atom   *Term
	hi, lo *Node
	term   *Term // leaf
	nleaf  int
}

type iteKey struct{ a, b, c int }
type buildKey struct {
	op  string
	srt Sort
	str string
	num string
	ids string
}

type Eng struct {
	terms        map[string]*Term
	nodes        map[iteKey]*Node
	nextT        int
	nextN        int
	nextLvl      int
	zbounds      map[*Term][2]*big.Int
	iteMemo      map[iteKey]*Node
	restMemo     map[iteKey]*Node
	bMemo        map[buildKey]*Node
	T, F         *Node
	limit        int
	steps        int
	maxSteps     int
	closedTables bool
	smallInts    bool
	divCases     bool // division as a decision over its simple cases
	limbs        bool // words as exact integers
	textEqs      map[*Term][]*Term
	deadline     time.Time
	typeInfo     map[*Term]interface{}
	substGen     int
	// record types kept in key order: the key's field number
	lim       map[*Term][2]*big.Int // known ranges
	ub        map[*Term][2]*big.Int // ranges of 256-bit numbers by their shape
	ubn       map[*Node][2]*big.Int
	tiny      bool                  // ordered lists have a known small length
	sortedFld map[string]string
	gates     map[*Node][]*Term
}

type Undecided struct{ msg string }

func undecided(f string, a ...interface{}) {
	panic(Undecided{fmt.Sprintf(f, a...)})
}

func NewEng() *Eng {
	e := &Eng{
		terms: map[string]*Term{}, nodes: map[iteKey]*Node{},
		iteMemo: map[iteKey]*Node{}, restMemo: map[iteKey]*Node{}, bMemo: map[buildKey]*Node{},
		limit: 160, maxSteps: 60_000_000, gates: map[*Node][]*Term{},
	}
	e.T = e.leaf(e.mk(&Term{op: "true", sort: SBool}))
	e.F = e.leaf(e.mk(&Term{op: "false", sort: SBool}))
	return e
}

func (e *Eng) tick() {
	e.steps++
	if e.steps&0xfff == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		undecided("out of time")
	}
	if e.steps > e.maxSteps {
		undecided("analysis budget exhausted (%d steps)", e.maxSteps)
	}
}

// mk hash-conses a raw term.
func (e *Eng) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteByte(byte('A' + t.sort))
	b.WriteString(t.str)
	if t.num != nil {
		b.WriteByte('#')
		b.WriteString(t.num.Text(36))
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, n := range t.nodes {
		fmt.Fprintf(&b, ";%d", n.id)
	}
	for _, m := range t.poly {
		b.WriteByte('+')
		b.WriteString(m.c.Text(36))
		for _, f := range m.f {
			fmt.Fprintf(&b, "*%d", f.id)
		}
	}
	k := b.String()
	if o, ok := e.terms[k]; ok {
		return o
	}
	e.tick()
	t.id = e.nextT
	e.nextT++
	t.lvl = -1
	e.terms[k] = t
	if t.op == "bv" {
		t.bvs = int(t.num.Int64()) + 1
	}
	if t.op == "var" {
		t.vars = true
	}
	for _, a := range t.args {
		if a.bvs > t.bvs {
			t.bvs = a.bvs
		}
		t.vars = t.vars || a.vars
	}
	for _, m := range t.poly {
		for _, a := range m.f {
			if a.bvs > t.bvs {
				t.bvs = a.bvs
			}
			t.vars = t.vars || a.vars
		}
	}
	for _, n := range t.nodes {
		bv, vs := n.bvs(map[*Node]bool{})
		if bv > t.bvs {
			t.bvs = bv
		}
		t.vars = t.vars || vs
	}
	return t
}

func (n *Node) bvs(seen map[*Node]bool) (int, bool) {
	if seen[n] {
		return 0, false
	}
	seen[n] = true
	if n.term != nil {
		return n.term.bvs, n.term.vars
	}
	m, v := n.atom.bvs, n.atom.vars
	for _, c := range []*Node{n.hi, n.lo} {
		b, w := c.bvs(seen)
		if b > m {
			m = b
		}
		v = v || w
	}
	return m, v
}

func (e *Eng) leaf(t *Term) *Node {
	if t.leaf == nil {
		t.leaf = &Node{id: e.nextN, term: t, nleaf: 1}
		e.nextN++
	}
	return t.leaf
}

func (e *Eng) node(a *Term, hi, lo *Node) *Node {
	if hi == lo {
		return hi
	}
	if a.lvl < 0 {
		a.lvl = e.nextLvl
		e.nextLvl++
		if x := textEq(a); x != nil {
			if e.textEqs == nil {
				e.textEqs = map[*Term][]*Term{}
			}
			e.textEqs[x] = append(e.textEqs[x], a)
		}
	}
	if x := textEq(a); x != nil && len(e.textEqs[x]) > 1 {
		// a text equals at most one of several constants
		h0, l0 := hi, lo
		for _, o := range e.textEqs[x] {
			if o.lvl > a.lvl {
				no := e.node(o, e.F, e.T)
				h0, l0 = e.restrict(h0, no), e.restrict(l0, no)
			}
		}
		hi = h0
		if hi == l0 {
			return lo
		}
	}
	k := iteKey{a.id, hi.id, lo.id}
	if n, ok := e.nodes[k]; ok {
		return n
	}
	e.tick()
	n := &Node{id: e.nextN, atom: a, hi: hi, lo: lo, nleaf: hi.nleaf + lo.nleaf}
	if n.nleaf > 1<<20 {
		n.nleaf = 1 << 20
	}
	e.nextN++
	e.nodes[k] = n
	return n
}

// textEq: what an atom compares with a constant text.
func textEq(a *Term) *Term {
	if a.op == "eqs" {
		for i, t := range a.args {
			if t.op == "s" {
				return a.args[1-i]
			}
		}
	}
	return nil
}

const leafLvl = 1 << 60

func (n *Node) lvl() int {
	if n.term != nil {
		return leafLvl
	}
	return n.atom.lvl
}

func cof(n *Node, a *Term, hi bool) *Node {
	if n.term != nil || n.atom != a {
		return n
	}
	if hi {
		return n.hi
	}
	return n.lo
}

// atom turns a boolean term into a Node.
func (e *Eng) atom(t *Term) *Node {
	if t == e.T.term {
		return e.T
	}
	if t == e.F.term {
		return e.F
	}
	return e.node(t, e.T, e.F)
}

func (e *Eng) ite(f, g, h *Node) *Node {
	if f == e.T {
		return g
	}
	if f == e.F {
		return h
	}
	if g == h {
		return g
	}
	if g == e.T && h == e.F {
		return f
	}
	if f.term != nil {
		undecided("condition is not boolean: %s", f.term.op)
	}
	k := iteKey{f.id, g.id, h.id}
	if r, ok := e.iteMemo[k]; ok {
		return r
	}
	l := f.lvl()
	a := f.atom
	if g.lvl() < l {
		l, a = g.lvl(), g.atom
	}
	if h.lvl() < l {
		a = h.atom
	}
	r := e.node(a, e.ite(cof(f, a, true), cof(g, a, true), cof(h, a, true)),
		e.ite(cof(f, a, false), cof(g, a, false), cof(h, a, false)))
	e.iteMemo[k] = r
	return r
}

func (e *Eng) not(a *Node) *Node    { return e.ite(a, e.F, e.T) }
func (e *Eng) and(a, b *Node) *Node { return e.ite(a, b, e.F) }
func (e *Eng) or(a, b *Node) *Node  { return e.ite(a, e.T, b) }
func (e *Eng) xor(a, b *Node) *Node { return e.ite(a, e.not(b), b) }

// restrict simplifies v, given that c holds.
func (e *Eng) restrict(v, c *Node) *Node {
	if v.term != nil || c == e.T || c == e.F {
		return v
	}
	k := iteKey{v.id, c.id, 0}
	if r, ok := e.restMemo[k]; ok {
		return r
	}
	var r *Node
	switch {
	case c.lvl() < v.lvl():
		if c.hi == e.F {
			r = e.restrict(v, c.lo)
		} else if c.lo == e.F {
			r = e.restrict(v, c.hi)
		} else {
			r = e.restrict(v, e.or(c.hi, c.lo))
		}
	case c.lvl() == v.lvl():
		if c.hi == e.F {
			r = e.restrict(v.lo, c.lo)
		} else if c.lo == e.F {
			r = e.restrict(v.hi, c.hi)
		} else {
			r = e.node(v.atom, e.restrict(v.hi, c.hi), e.restrict(v.lo, c.lo))
		}
	default:
		r = e.node(v.atom, e.restrict(v.hi, c), e.restrict(v.lo, c))
	}
	e.restMemo[k] = r
	return r
}

// leaves lists the distinct leaf terms.
func leaves(n *Node) []*Term {
	seen := map[*Node]bool{}
	var out []*Term
	ts := map[*Term]bool{}
	var w func(*Node)
	w = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.term != nil {
			if !ts[n.term] {
				ts[n.term] = true
				out = append(out, n.term)
			}
			return
		}
		w(n.hi)
		w(n.lo)
	}
	w(n)
	return out
}

func countPaths(n *Node) int { return n.nleaf }

// mapLeaves rebuilds n with every leaf replaced by f(leaf).
func (e *Eng) mapLeaves(n *Node, f func(*Term) *Node) *Node {
	memo := map[*Node]*Node{}
	var w func(*Node) *Node
	w = func(n *Node) *Node {
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		if n.term != nil {
			r = f(n.term)
		} else {
			r = e.ite(e.atom(n.atom), w(n.hi), w(n.lo))
		}
		memo[n] = r
		return r
	}
	return w(n)
}

// map2 combines two diagrams leaf by leaf.
func (e *Eng) map2(a, b *Node, f func(x, y *Term) *Node) *Node {
	type k2 struct{ a, b *Node }
	memo := map[k2]*Node{}
	var w func(a, b *Node) *Node
	w = func(a, b *Node) *Node {
		k := k2{a, b}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Node
		if a.term != nil && b.term != nil {
			r = f(a.term, b.term)
		} else {
			at := a.atom
			if b.lvl() < a.lvl() {
				at = b.atom
			}
			r = e.ite(e.atom(at), w(cof(a, at, true), cof(b, at, true)), w(cof(a, at, false), cof(b, at, false)))
		}
		memo[k] = r
		return r
	}
	return w(a, b)
}

// freeze makes one leaf of a diagram with many.
func (e *Eng) freeze(n *Node) *Node {
	if n.term != nil {
		return n
	}
	srt := leaves(n)[0].sort
	if srt == SBool {
		return n
	}
	return e.leaf(e.mk(&Term{op: "gate", sort: srt, nodes: []*Node{n}}))
}

// build applies an operator to decision-diagram arguments.
func (e *Eng) build(op string, srt Sort, str string, num *big.Int, args ...*Node) *Node {
	all := true
	for _, a := range args {
		if a.term == nil {
			all = false
			break
		}
	}
	if all {
		ts := make([]*Term, len(args))
		for i, a := range args {
			ts[i] = a.term
		}
		return e.mkTerm(op, srt, str, num, ts)
	}
	// keep the product of cases bounded
	for {
		distinct := map[*Node]bool{}
		prod := 1
		var big *Node
		for _, a := range args {
			if a.term != nil || distinct[a] {
				continue
			}
			distinct[a] = true
			nl := len(leaves(a))
			if prod < 1<<30 {
				prod *= nl
			}
			if big == nil || nl > len(leaves(big)) {
				big = a
			}
		}
		if prod <= e.limit*8 || big == nil {
			break
		}
		fz := e.freeze(big)
		if fz == big {
			break
		}
		na := make([]*Node, len(args))
		for i, a := range args {
			if a == big {
				a = fz
			}
			na[i] = a
		}
		args = na
	}
	var ids strings.Builder
	for _, a := range args {
		fmt.Fprintf(&ids, "%d,", a.id)
	}
	k := buildKey{op, srt, str, "", ids.String()}
	if num != nil {
		k.num = num.Text(36)
	}
	if r, ok := e.bMemo[k]; ok {
		return r
	}
	var at *Term
	l := leafLvl
	for _, a := range args {
		if a.lvl() < l {
			l, at = a.lvl(), a.atom
		}
	}
	var r *Node
	if at == nil {
		return e.build(op, srt, str, num, args...)
	}
	h := make([]*Node, len(args))
	lo := make([]*Node, len(args))
	for i, a := range args {
		h[i] = cof(a, at, true)
		lo[i] = cof(a, at, false)
	}
	r = e.ite(e.atom(at), e.build(op, srt, str, num, h...), e.build(op, srt, str, num, lo...))
	if r.term == nil && r.nleaf > e.limit && srt != SBool && srt != SRef {
		if len(leaves(r)) > e.limit {
			r = e.freeze(r)
		}
	}
	e.bMemo[k] = r
	return r
}

// op is build without payload.
func (e *Eng) op(op string, srt Sort, args ...*Node) *Node { return e.build(op, srt, "", nil, args...) }

func (e *Eng) cint(srt Sort, n int64) *Node { return e.cbig(srt, big.NewInt(n)) }
func (e *Eng) cbig(srt Sort, n *big.Int) *Node {
	return e.leaf(e.mk(&Term{op: "c", sort: srt, num: wrap(srt, n)}))
}
func (e *Eng) cstr(s string) *Node { return e.leaf(e.mk(&Term{op: "s", sort: SStr, str: s})) }
func (e *Eng) cbool(b bool) *Node {
	if b {
		return e.T
	}
	return e.F
}
func (e *Eng) raw(op string, srt Sort, str string, args ...*Term) *Node {
	t := e.mk(&Term{op: op, sort: srt, str: str, args: args})
	if srt == SBool {
		return e.atom(t)
	}
	return e.leaf(t)
}
func (e *Eng) nilRef() *Node { return e.raw("nil", SRef, "") }

func (t *Term) isConst() bool { return t.op == "c" }

func (n *Node) constInt() (*big.Int, bool) {
	if n.term != nil && n.term.op == "c" {
		return n.term.num, true
	}
	return nil, false
}

// ---- printing

func (t *Term) String() string { return t.show(7) }

func (t *Term) show(d int) string {
	if d <= 0 {
		return "…"
	}
	switch t.op {
	case "c":
		if t.sort == SU256 && t.num.BitLen() > 200 {
			n := new(big.Int).Sub(t.num, two256)
			if n.BitLen() < 100 {
				return n.String()
			}
		}
		return t.num.String()
	case "s":
		return fmt.Sprintf("%q", t.str)
	case "poly":
		var ps []string
		for _, m := range t.poly {
			c := m.c
			if t.sort.unsigned() {
				h := new(big.Int).Sub(m.c, new(big.Int).Lsh(one, t.sort.width()))
				if h.BitLen() < c.BitLen() {
					c = h
				}
			}
			s := ""
			for i, f := range m.f {
				if i > 0 {
					s += "·"
				}
				s += f.show(d - 1)
			}
			if s == "" {
				s = c.String()
			} else if c.Cmp(one) != 0 {
				if c.Cmp(big.NewInt(-1)) == 0 {
					s = "-" + s
				} else {
					s = c.String() + "·" + s
				}
			}
			ps = append(ps, s)
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "gate":
		return "cases{" + t.nodes[0].show(d-1) + "}"
	case "fld":
		return t.args[0].show(d) + "." + t.str
	case "in":
		return t.args[0].show(d)
	case "par", "glob":
		return t.str
	}
	s := t.op
	if t.str != "" {
		s += ":" + t.str
	}
	if t.num != nil {
		s += "#" + t.num.String()
	}
	if len(t.args)+len(t.nodes) > 0 {
		var as []string
		for i, a := range t.args {
			if i > 8 {
				as = append(as, "…")
				break
			}
			as = append(as, a.show(d-1))
		}
		for i, n := range t.nodes {
			if i > 4 {
				as = append(as, "…")
				break
			}
			as = append(as, n.show(d-1))
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func (n *Node) String() string { return n.show(7) }

func (n *Node) show(d int) string {
	if n.term != nil {
		return n.term.show(d)
	}
	if d <= 0 {
		return "…"
	}
	return "if " + n.atom.show(d-1) + " {" + n.hi.show(d-1) + "} else {" + n.lo.show(d-1) + "}"
}

func sortTerms(ts []*Term) []*Term {
	o := append([]*Term(nil), ts...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].id < o[j].id })
	return o
}
