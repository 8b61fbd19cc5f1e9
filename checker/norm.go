package main

// Normal forms. mkTerm is the only place where operators are given meaning.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
)

var (
	one    = big.NewInt(1)
	zero   = big.NewInt(0)
	two256 = new(big.Int).Lsh(one, 256)
)

func wrap(s Sort, n *big.Int) *big.Int {
	w := s.width()
	if w == 0 {
		return n
	}
	m := new(big.Int).Lsh(one, w)
	r := new(big.Int).Mod(n, m)
	if s.signed() && r.Bit(int(w-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

func (e *Eng) monos(t *Term) []mono {
	switch t.op {
	case "c":
		if t.num.Sign() == 0 {
			return nil
		}
		return []mono{{t.num, nil}}
	case "poly":
		return t.poly
	}
	return []mono{{one, []*Term{t}}}
}

func monoKey(f []*Term) string {
	k := ""
	for _, t := range f {
		k += strconv.Itoa(t.id) + "*"
	}
	return k
}

func lessF(a, b []*Term) bool {
	// constants last, then by degree and ids
	if len(a) == 0 || len(b) == 0 {
		return len(a) > len(b)
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return len(a) < len(b)
}

func (e *Eng) fromMonos(s Sort, ms []mono) *Term {
	idx := map[string]int{}
	var out []mono
	for _, m := range ms {
		k := monoKey(m.f)
		if i, ok := idx[k]; ok {
			out[i].c = new(big.Int).Add(out[i].c, m.c)
		} else {
			idx[k] = len(out)
			out = append(out, mono{m.c, m.f})
		}
	}
	for _, m := range out {
		if ms := e.timesQuotient(s, m); ms != nil {
			var all []mono
			for _, o := range out {
				if monoKey(o.f) != monoKey(m.f) {
					all = append(all, o)
				}
			}
			return e.fromMonos(s, append(all, ms...))
		}
	}
	j := 0
	for _, m := range out {
		m.c = wrap(s, m.c)
		if m.c.Sign() != 0 {
			out[j] = m
			j++
		}
	}
	out = out[:j]
	if len(out) == 0 {
		return e.cint(s, 0).term
	}
	sort.SliceStable(out, func(i, j int) bool { return lessF(out[i].f, out[j].f) })
	if len(out) == 1 {
		if len(out[0].f) == 0 {
			return e.cbig(s, out[0].c).term
		}
		if len(out[0].f) == 1 && out[0].c.Cmp(one) == 0 {
			return out[0].f[0]
		}
	}
	return e.mk(&Term{op: "poly", sort: s, poly: out})
}

// timesQuotient: u times the quotient of x by u is x less its remainder.
func (e *Eng) timesQuotient(s Sort, m mono) []mono {
	if s != SI64 || m.c.Sign() == 0 {
		return nil
	}
	for i, f := range m.f {
		if f.op != "tdiv" {
			continue
		}
		c := m.c
		if u := f.args[1]; u.isConst() {
			if u.num.Sign() == 0 || len(m.f) != 1 {
				continue
			}
			q, r := new(big.Int).QuoRem(c, u.num, new(big.Int))
			if r.Sign() != 0 {
				continue
			}
			c = q
		} else {
			found := -1
			for k, g := range m.f {
				if g == u && k != i {
					found = k
				}
			}
			if found < 0 || len(m.f) != 2 {
				continue
			}
		}
		r := e.mkTerm("trem", s, "", nil, f.args)
		if r.term == nil {
			continue
		}
		return append(scale(e.monos(f.args[0]), c), scale(e.monos(r.term), new(big.Int).Neg(c))...)
	}
	return nil
}

func scale(ms []mono, c *big.Int) []mono {
	out := make([]mono, len(ms))
	for i, m := range ms {
		out[i] = mono{new(big.Int).Mul(m.c, c), m.f}
	}
	return out
}

func (e *Eng) pAdd(s Sort, a, b *Term) *Term {
	return e.fromMonos(s, append(append([]mono(nil), e.monos(a)...), e.monos(b)...))
}
func (e *Eng) pSub(s Sort, a, b *Term) *Term {
	return e.fromMonos(s, append(append([]mono(nil), e.monos(a)...), scale(e.monos(b), big.NewInt(-1))...))
}
func (e *Eng) pMul(s Sort, a, b *Term) *Term {
	x, y := e.monos(a), e.monos(b)
	if len(x)*len(y) > 48 {
		p := sortTerms([]*Term{a, b})
		return e.mk(&Term{op: "mulx", sort: s, args: p})
	}
	var out []mono
	for _, m := range x {
		for _, n := range y {
			f := sortTerms(append(append([]*Term(nil), m.f...), n.f...))
			out = append(out, mono{new(big.Int).Mul(m.c, n.c), f})
		}
	}
	return e.fromMonos(s, out)
}

// bound gives known integer bounds of a term (nil: none).
// fnonneg: a number that is never below zero.
func (e *Eng) fnonneg(t *Term) bool {
	if x, ok := t.float(); ok {
		return x >= 0
	}
	switch t.op {
	case "fsqrt":
		return true
	case "fadd", "fquo":
		return e.fnonneg(t.args[0]) && e.fnonneg(t.args[1])
	case "fmul":
		return t.args[0] == t.args[1] || e.fnonneg(t.args[0]) && e.fnonneg(t.args[1])
	case "out":
		if c := t.args[0]; c.op == "call" && c.str == "math/big.Float.Float64" {
			for _, f := range findTerms(e.leaf(c), func(t *Term) bool { return t.op == "call" && t.str == "math/big.Float.SetInt" }) {
				lo, _ := e.bound(f.args[len(f.args)-1])
				return lo != nil && lo.Sign() >= 0
			}
		}
	}
	return false
}

func (e *Eng) bound(t *Term) (lo, hi *big.Int) {
	if b, ok := e.lim[t]; ok {
		return b[0], b[1]
	}
	switch t.op {
	case "c":
		return t.num, t.num
	case "lb", "qlen", "bv", "slen", "strlen", "maplen", "fdim", "zwords":
		return zero, nil
	case "var":
		if t.str == "K" {
			return zero, nil
		}
	case "lpK", "finK":
		return zero, nil
	case "carry", "borrow":
		return zero, one
	case "cv":
		if b, ok := e.lim[t.args[0]]; ok && b[0].Sign() >= 0 && b[1].BitLen() < int(t.sort.width()) {
			return b[0], b[1]
		}
		if t.args[0].sort.unsigned() && t.args[0].sort.width() < 64 {
			return zero, new(big.Int).Sub(new(big.Int).Lsh(one, t.args[0].sort.width()), one)
		}
	case "and":
		for _, a := range t.args {
			if a.isConst() && a.num.Sign() >= 0 {
				return zero, a.num
			}
		}
	case "len64":
		return zero, big.NewInt(64)
	case "u2z":
		return zero, maxU256
	case "zsqrt", "zabs":
		return zero, nil
	case "bsum":
		if t.sort == SBig && e.nonNeg(t.nodes[0], 6) {
			return zero, nil
		}
	case "zdiv":
		l, _ := e.bound(t.args[0])
		d, _ := e.bound(t.args[1])
		if l != nil && d != nil && l.Sign() >= 0 && d.Sign() > 0 {
			return zero, nil
		}
	case "trem":
		if t.args[1].isConst() && t.sort.signed() {
			m := new(big.Int).Sub(new(big.Int).Abs(t.args[1].num), one)
			l, _ := e.bound(t.args[0])
			if l != nil && l.Sign() >= 0 {
				return zero, m
			}
			return new(big.Int).Neg(m), m
		}
	case "tdiv", "fdiv":
		l, h := e.bound(t.args[0])
		if t.args[1].isConst() && t.args[1].num.Sign() > 0 && l != nil && l.Sign() >= 0 {
			if h != nil {
				h = new(big.Int).Div(h, t.args[1].num)
			}
			return zero, h
		}
	case "poly":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, m := range t.poly {
			l, h := big.NewInt(1), big.NewInt(1)
			if len(m.f) == 1 {
				l, h = e.bound(m.f[0])
			} else if len(m.f) > 1 {
				for i := 0; i < len(m.f); i++ {
					if i+1 < len(m.f) && m.f[i] == m.f[i+1] {
						i++ // a square
						continue
					}
					if a, _ := e.bound(m.f[i]); a == nil || a.Sign() < 0 {
						l = nil
					}
				}
				if l != nil {
					l = zero
				}
				h = nil
			}
			if m.c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(l, m.c))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(h, m.c))
				}
			}
		}
		if t.sort.unsigned() {
			return nil, nil
		}
		return
	}
	return nil, nil
}

// nonNeg: every leaf of a small graph is at least zero.
func (e *Eng) nonNeg(n *Node, depth int) bool {
	if n.term != nil {
		l, _ := e.bound(n.term)
		return l != nil && l.Sign() >= 0
	}
	return depth > 0 && e.nonNeg(n.hi, depth-1) && e.nonNeg(n.lo, depth-1)
}

var maxU256 = new(big.Int).Sub(two256, one)

// le0 is d <= 0 over the integers.
func (e *Eng) le0(d *Term) *Node {
	if n := e.keyOrder(d); n != nil {
		return n
	}
	lo, hi := e.bound(d)
	if hi != nil && hi.Sign() <= 0 {
		return e.T
	}
	if lo != nil && lo.Sign() > 0 {
		return e.F
	}
	ms := e.monos(d)
	c := big.NewInt(0)
	g := big.NewInt(0)
	var lin []mono
	for _, m := range ms {
		if len(m.f) == 0 {
			c = m.c
			continue
		}
		lin = append(lin, m)
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	k := new(big.Int).Neg(c)
	k.Div(k, g) // floor: Euclidean with g > 0
	for i := range lin {
		lin[i] = mono{new(big.Int).Quo(lin[i].c, g), lin[i].f}
	}
	if e.limbs && len(lin) == 1 && len(lin[0].f) == 1 && lin[0].f[0].op == "cv" && lin[0].f[0].args[0].sort == SU64 {
		// the sign of a word taken as a signed number is its highest bit
		bit := e.not(e.mkTerm("eq0", SBool, "", nil, []*Term{e.zlow(e.zfloor(e.zval(lin[0].f[0].args[0]), 63))}))
		switch {
		case lin[0].c.Sign() > 0 && k.Cmp(big.NewInt(-1)) == 0:
			return bit
		case lin[0].c.Sign() < 0 && k.Sign() == 0:
			return e.not(bit)
		}
	}
	if len(lin) == 1 && len(lin[0].f) == 1 && lin[0].f[0].op == "ubitlen" {
		// so many bits: below a power of two
		x, n := lin[0].f[0].args[0], k
		if lin[0].c.Sign() < 0 {
			n = new(big.Int).Sub(new(big.Int).Neg(k), one)
		}
		r := e.T
		switch {
		case n.Sign() < 0:
			r = e.F
		case n.Cmp(big.NewInt(256)) < 0:
			r = e.mkTerm("lt", SBool, "", nil, []*Term{x, e.cbig(SU256, p2(int(n.Int64()))).term})
		}
		if lin[0].c.Sign() < 0 {
			return e.not(r)
		}
		return r
	}
	// L <= k
	if lin[0].c.Sign() < 0 {
		// L <= k  iff  not (-L <= -k-1)
		nk := new(big.Int).Add(k, one) // -L + k + 1 <= 0
		if len(lin) == 1 && len(lin[0].f) == 1 && lin[0].f[0].op == "trem" {
			return e.not(e.le0(e.fromMonosZ(append(scale(lin, big.NewInt(-1)), mono{nk, nil}))))
		}
		t := e.fromMonosZ(append(scale(lin, big.NewInt(-1)), mono{nk, nil}))
		return e.not(e.raw("le0", SBool, "", t))
	}
	if len(lin) == 1 && len(lin[0].f) == 1 && lin[0].f[0].op == "trem" && k.Sign() <= 0 && k.Cmp(big.NewInt(-1)) >= 0 {
		// a remainder has the sign of the number divided
		r := lin[0].f[0]
		if l, _ := e.bound(r.args[0]); l == nil || l.Sign() < 0 {
			div := e.mkTerm("divides", SBool, "", nil, r.args)
			if k.Sign() == 0 {
				return e.or(div, e.le0(r.args[0]))
			}
			return e.and(e.not(div), e.le0(e.fromMonosZ(append(append([]mono(nil), e.monos(r.args[0])...), mono{one, nil}))))
		}
	}
	t := e.fromMonosZ(append(append([]mono(nil), lin...), mono{new(big.Int).Neg(k), nil}))
	return e.raw("le0", SBool, "", t)
}

// fromMonosZ builds the linear form of an ordering atom (exact integers).
func (e *Eng) fromMonosZ(ms []mono) *Term { return e.fromMonos(SBig, ms) }

// roundedInt: a rounded quotient of two integers, possibly times an integer.
// Exact for the sizes of ticks and spacings: a quotient that is not an integer (or
// half of one) is further from the next than the error of the division.
func (e *Eng) roundedInt(s Sort, t *Term) *Node {
	if !e.smallInts || s != SI64 {
		return nil
	}
	if t.op == "fmul" {
		for i, a := range t.args {
			if b := t.args[1-i]; b.op == "i2f" && b.args[0].sort == SI64 {
				if n := e.roundedInt(s, a); n != nil {
					return e.op("mul", s, n, e.leaf(b.args[0]))
				}
			}
		}
		return nil
	}
	if t.op != "fround" && t.op != "ffloor" && t.op != "fceil" && t.op != "ftrunc" || t.args[0].op != "fquo" {
		return nil
	}
	x, u := t.args[0].args[0], t.args[0].args[1]
	if x.op != "i2f" || u.op != "i2f" || x.args[0].sort != SI64 || u.args[0].sort != SI64 {
		return nil
	}
	X, U := e.leaf(x.args[0]), e.leaf(u.args[0])
	q, r := e.op("tdiv", s, X, U), e.op("trem", s, X, U)
	neg, pos := e.op("lt", SBool, r, e.cint(s, 0)), e.op("lt", SBool, e.cint(s, 0), r)
	up, down := e.op("add", s, q, e.cint(s, 1)), e.op("sub", s, q, e.cint(s, 1))
	switch t.op {
	case "ffloor":
		return e.ite(neg, down, q)
	case "fceil":
		return e.ite(pos, up, q)
	case "fround":
		two := e.cint(s, 2)
		return e.ite(neg, e.ite(e.op("le", SBool, U, e.op("mul", s, r, e.cint(s, -2))), down, q),
			e.ite(pos, e.ite(e.op("le", SBool, U, e.op("mul", s, r, two)), up, q), q))
	}
	return q
}

func (e *Eng) isBit(t *Term) bool { return t.op == "carry" || t.op == "borrow" }

// eq0 is d == 0 in the arithmetic of its sort.
func (e *Eng) eq0(d *Term) *Node {
	if d.isConst() {
		return e.cbool(d.num.Sign() == 0)
	}
	if d.sort.signed() || d.sort == SBig {
		if ms := e.monos(d); len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].op == "trem" {
			r := ms[0].f[0]
			if l, _ := e.bound(r.args[0]); l == nil || l.Sign() < 0 {
				return e.mkTerm("divides", SBool, "", nil, r.args)
			}
		}
		a := e.le0(d)
		if a == e.F {
			return e.F
		}
		n := e.fromMonosZ(scale(e.monos(d), big.NewInt(-1)))
		return e.and(a, e.le0(n))
	}
	if b, ok := e.lim[d]; ok && (b[0].Sign() > 0 || b[1].Sign() < 0) {
		return e.F
	}
	if n := e.keyEq(d); n != nil {
		return n
	}
	// a number without the bits of the other
	if ms := e.monos(d); len(ms) == 2 && len(ms[1].f) == 0 && len(ms[0].f) == 1 && ms[0].c.Cmp(one) == 0 {
		if m := e.mask(ms[0].f[0]); m != nil {
			if k := wrap(d.sort, new(big.Int).Neg(ms[1].c)); new(big.Int).AndNot(k, m).Sign() != 0 {
				return e.F
			}
		}
	}
	if e.limbs && d.sort == SU64 {
		if n := e.limbEq0(d); n != nil {
			return n
		}
	}
	ms := e.monos(d)
	// 0/1 valued terms
	if len(ms) == 2 && len(ms[1].f) == 0 && len(ms[0].f) == 1 && e.isBit(ms[0].f[0]) {
		s := wrap(SBig, new(big.Int).Add(ms[0].c, ms[1].c))
		if wrap(d.sort, s).Sign() == 0 {
			return e.not(e.eq0(ms[0].f[0]))
		}
		return e.F
	}
	if x := e.lowPart(d); x != nil {
		return e.highZero(e.leaf(x))
	}
	if d.op == "or" || d.op == "pack" {
		r := e.T
		for _, a := range d.args {
			r = e.and(r, e.eq0(a))
		}
		return r
	}
	if len(ms) == 1 && ms[0].c.Bit(0) == 1 && len(ms[0].f) == 1 && ms[0].c.Cmp(one) != 0 {
		return e.eq0(ms[0].f[0])
	}
	// comparison with a wider view of a narrower number
	if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].c.Cmp(one) == 0 {
		f := ms[0].f[0]
		if (f.op == "cv" || f.op == "zext") && f.args[0].sort.unsigned() && f.args[0].sort.width() <= d.sort.width() {
			return e.eq0(f.args[0])
		}
	}
	if len(ms) == 1 && len(ms[0].f) == 1 && (ms[0].c.Cmp(one) == 0 || wrap(d.sort, new(big.Int).Neg(ms[0].c)).Cmp(one) == 0) {
		// a quotient is zero when the divisor is larger
		if f := ms[0].f[0]; f.op == "udiv" && f.sort == SU256 && f.args[1].isConst() && f.args[1].num.Sign() > 0 {
			return e.mkTerm("lt", SBool, "", nil, f.args)
		}
	}
	neg := e.fromMonos(d.sort, scale(ms, big.NewInt(-1)))
	a, b := e.monos(d)[0].c, e.monos(neg)[0].c
	if b.Cmp(a) < 0 {
		d = neg
	}
	return e.raw("eq0", SBool, "", d)
}

// lowPart: d is the difference of x and its lowest word.
func (e *Eng) lowPart(d *Term) *Term {
	if d.sort != SU256 || !e.divCases || d.op != "poly" {
		return nil
	}
	for _, m := range e.monos(d) {
		if len(m.f) == 1 && m.f[0].op == "zext" && (m.c.Cmp(one) == 0 || wrap(SU256, new(big.Int).Neg(m.c)).Cmp(one) == 0) {
			w := m.f[0].args[0]
			if w.op == "word" && w.num.Sign() == 0 {
				x := w.args[0]
				if d == e.pSub(SU256, x, m.f[0]) || d == e.pSub(SU256, m.f[0], x) {
					return x
				}
			}
		}
	}
	return nil
}

func (e *Eng) ult(a, b *Term) *Node {
	if a == b {
		return e.F
	}
	if x := e.lowPart(e.pSub(a.sort, a, b)); x != nil {
		if x == a {
			return e.F
		}
		return e.not(e.highZero(e.leaf(x)))
	}
	if a.isConst() && b.isConst() {
		return e.cbool(a.num.Cmp(b.num) < 0)
	}
	if b.isConst() {
		if b.num.Sign() == 0 {
			return e.F
		}
		if b.num.Cmp(one) == 0 {
			return e.eq0(a)
		}
	}
	if a.isConst() && a.num.Sign() == 0 {
		return e.not(e.eq0(b))
	}
	if e.limbs && a.sort == SU64 {
		if b.isConst() {
			if k, ok := pow2(b.num); ok {
				return e.eq0(e.zlow(e.zfloor(e.zval(a), k)))
			}
		} else if a.isConst() {
			if k, ok := pow2(new(big.Int).Add(a.num, one)); ok && k < 64 {
				return e.not(e.eq0(e.zlow(e.zfloor(e.zval(b), k))))
			}
		}
	}
	// below the largest value iff different from it
	if b.isConst() && a.sort.width() > 0 && new(big.Int).Add(b.num, one).BitLen() > int(a.sort.width()) {
		return e.not(e.eq0(e.pSub(a.sort, a, b)))
	}
	eq := e.eq0(e.pSub(a.sort, a, b))
	if a.id < b.id {
		return e.ite(eq, e.F, e.raw("ult", SBool, "", a, b))
	}
	return e.ite(eq, e.F, e.not(e.raw("ult", SBool, "", b, a)))
}

func (e *Eng) fconst(f float64) *Term {
	return e.mk(&Term{op: "f", sort: SF64, str: strconv.FormatFloat(f, 'g', -1, 64)})
}

func (t *Term) float() (float64, bool) {
	if t.op != "f" {
		return 0, false
	}
	f, err := strconv.ParseFloat(t.str, 64)
	return f, err == nil
}

// external reports whether a reference existed before the analysed function ran.
func external(t *Term) bool {
	switch t.op {
	case "par", "glob", "gobj", "in", "rd", "sel", "rf", "sbase", "mget", "outref":
		return true
	case "fld", "idx", "at":
		return external(t.args[0])
	}
	return false
}

func local(t *Term) bool {
	switch t.op {
	case "alloc", "box":
		return true
	case "fld", "idx", "aview":
		return local(t.args[0])
	}
	return false
}

func (e *Eng) eqRef(a, b *Term) *Node {
	if a == b {
		return e.T
	}
	if a.op == "nil" {
		a, b = b, a
	}
	if b.op == "nil" {
		if local(a) || a.op == "gobj" || a.op == "glob" || a.op == "fld" || a.op == "idx" || a.op == "fn" || a.op == "iface" || a.op == "errnew" {
			return e.F
		}
		if a.op == "out" && a.args[0].op == "call" && (a.args[0].str == "errors.New" || a.args[0].str == "fmt.Errorf") {
			return e.F
		}
		return e.raw("isnil", SBool, "", a)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return e.F
	}
	if local(a) && external(b) || external(a) && local(b) {
		return e.F
	}
	if a.op == "gobj" && b.op == "gobj" {
		return e.F
	}
	// the same part of two objects
	switch {
	case a.op == "fld" && b.op == "fld":
		if a.num.Cmp(b.num) == 0 && a.str == b.str {
			return e.eqRef(a.args[0], b.args[0])
		}
		return e.F
	case a.op == "idx" && b.op == "idx":
		i := e.op("eq", SBool, e.leaf(a.args[1]), e.leaf(b.args[1]))
		if i == e.F {
			return e.F
		}
		return e.and(i, e.eqRef(a.args[0], b.args[0]))
	case a.op == "fld" && b.op == "idx" || a.op == "idx" && b.op == "fld":
		return e.F
	case a.op == "in" && b.op == "in" || a.op == "sbase" && b.op == "sbase":
		// references kept in different places lead to different objects
		return e.eqRef(a.args[0], b.args[0])
	case a.op == "sel" && b.op == "sel":
		if a.args[0] == b.args[0] {
			return e.op("eq", SBool, e.leaf(a.args[1]), e.leaf(b.args[1]))
		}
		if initialSeq(a.args[0]) && initialSeq(b.args[0]) {
			return e.F
		}
	case a.op == "mget" && b.op == "mget":
		if a.args[0] == b.args[0] {
			return e.op("eq", SBool, e.asNode(a.args[1]), e.asNode(b.args[1]))
		}
		if a.args[0].op == "map0" && b.args[0].op == "map0" {
			return e.F
		}
	case a.op == "rf" && b.op == "rf":
		if a.num.Cmp(b.num) == 0 && a.args[0].op == "sel" && b.args[0].op == "sel" {
			x, y := a.args[0], b.args[0]
			if x.args[0] == y.args[0] {
				return e.op("eq", SBool, e.leaf(x.args[1]), e.leaf(y.args[1]))
			}
			if initialSeq(x.args[0]) && initialSeq(y.args[0]) {
				return e.F
			}
		} else if a.num.Cmp(b.num) != 0 {
			return e.F
		}
	}
	if a.op != b.op && external(a) && external(b) && a.op != "par" && b.op != "par" && a.op != "outref" && b.op != "outref" && a.op != "rd" && b.op != "rd" {
		return e.F
	}
	if (a.op == "par" || b.op == "par") && external(a) && external(b) && a.op != b.op {
		return e.F // an argument is not part of another argument's structure
	}
	p := sortTerms([]*Term{a, b})
	return e.raw("eqr", SBool, "", p...)
}

func initialSeq(t *Term) bool { return t.op == "seq0" }

func (e *Eng) mkTermRaw(op string, srt Sort, str string, num *big.Int, a []*Term) *Node {
	return e.leaf(e.mk(&Term{op: op, sort: srt, str: str, num: num, args: a}))
}

// divByCases: quotients and remainders that need no division of long numbers.
func (e *Eng) divByCases(op string, x, y *Term, n *Node) *Node {
	X, Y := e.leaf(x), e.leaf(y)
	z, q := e.zero256(), "tdiv"
	same, below := e.cint(SU256, 1), z
	if op == "umod" {
		q, same, below = "trem", z, X
	}
	small := e.zext(e.op(q, SU64, e.word(X, 0), e.word(Y, 0)))
	r := e.ite(e.highZero(X), small, n)
	r = e.ite(e.ult(x, y), below, r)
	r = e.ite(e.eq0(e.pSub(SU256, x, y)), same, r)
	return e.ite(e.eq0(y), z, r)
}

// shiftedWords: a are the words of x shifted to the right by k.
func (e *Eng) shiftedWords(a []*Term) (*Term, int) {
	if len(a) != 4 || e.limbs || a[3].op != "shr" || !a[3].args[1].isConst() {
		return nil, 0
	}
	w, s := a[3].args[0], a[3].args[1]
	if w.op != "word" || w.num.Int64() != 3 || s.num.Sign() <= 0 || s.num.Cmp(big.NewInt(63)) > 0 {
		return nil, 0
	}
	x := e.leaf(w.args[0])
	k := s.num.Int64()
	for i := int64(0); i < 3; i++ {
		lo := e.op("shr", SU64, e.word(x, i), e.leaf(s))
		hi := e.op("shl", SU64, e.word(x, i+1), e.cint(SU64, 64-k))
		if e.leaf(a[i]) != e.op("or", SU64, lo, hi) {
			return nil, 0
		}
	}
	return w.args[0], int(k)
}

// longDiv: words of the quotient, and the remainder, of a number given in words.
// a is [old content,] divisor, numerator words.
func (e *Eng) longDiv(op string, srt Sort, num *big.Int, a []*Term) *Node {
	k := 1
	if op == "udquo" {
		k = 2
	}
	if len(a) < k {
		return nil
	}
	us := a[k:]
	for len(us) > 4 && us[len(us)-1].isConst() && us[len(us)-1].num.Sign() == 0 {
		us = us[:len(us)-1]
	}
	if len(us) > 4 {
		if len(us) == len(a[k:]) {
			return nil
		}
		return e.mkTermRaw(op, srt, "", num, append(append([]*Term(nil), a[:k]...), us...))
	}
	var ws []*Node
	for i := 0; i < 4; i++ {
		if i < len(us) {
			ws = append(ws, e.leaf(us[i]))
		} else {
			ws = append(ws, e.cint(SU64, 0))
		}
	}
	u, d := e.op("pack", SU256, ws...), e.leaf(a[k-1])
	if op == "udrem" {
		return e.op("umod", SU256, u, d)
	}
	if !a[0].isConst() || a[0].num.Sign() != 0 {
		return nil
	}
	if num.Int64() > 3 {
		return e.cint(SU64, 0)
	}
	return e.word(e.op("udiv", SU256, u, d), num.Int64())
}

func (e *Eng) mkTerm(op string, srt Sort, str string, num *big.Int, a []*Term) *Node {
	opaque := func() *Node {
		t := e.mk(&Term{op: op, sort: srt, str: str, num: num, args: a})
		if srt == SBool {
			return e.atom(t)
		}
		return e.leaf(t)
	}
	allc := true
	for _, x := range a {
		if !x.isConst() {
			allc = false
		}
	}
	c := func(n *big.Int) *Node { return e.cbig(srt, n) }
	if e.limbs {
		if n := e.limbOp(op, srt, a); n != nil {
			return n
		}
	}
	switch op {
	case "n64":
		return e.leaf(e.zlow(a[0]))
	case "z64":
		return e.leaf(e.zval(a[0]))
	case "zshr":
		return e.leaf(e.zfloor(a[0], int(num.Int64())))
	case "id":
		return e.leaf(a[0])
	case "add":
		return e.leaf(e.pAdd(srt, a[0], a[1]))
	case "sub":
		return e.leaf(e.pSub(srt, a[0], a[1]))
	case "mul", "mulx":
		return e.leaf(e.pMul(srt, a[0], a[1]))
	case "neg":
		return e.leaf(e.pSub(srt, e.cint(srt, 0).term, a[0]))
	case "polyop": // rebuilt by subst
		undecided("polyop")
	case "le0":
		return e.le0(a[0])
	case "eq0":
		return e.eq0(a[0])
	case "isnil":
		return e.eqRef(a[0], e.nilRef().term)
	case "eqr":
		return e.eqRef(a[0], a[1])
	case "eq":
		s := a[0].sort
		switch {
		case s.arith():
			for i := range a {
				if n := e.orIs(s, a[i], a[1-i]); n != nil {
					return n
				}
			}
			return e.eq0(e.pSub(s, a[0], a[1]))
		case s == SRef:
			return e.eqRef(a[0], a[1])
		case s == SBool:
			return e.not(e.xor(e.leaf(a[0]), e.leaf(a[1])))
		case s == SF64:
			x, ok := a[0].float()
			y, ok2 := a[1].float()
			if ok && ok2 {
				return e.cbool(x == y)
			}
		default:
			if a[0] == a[1] {
				return e.T
			}
			if a[0].op == "s" && a[1].op == "s" {
				return e.F
			}
			for i, t := range a {
				o := a[1-i]
				if t.op != "s" {
					continue
				}
				if t.str == "" {
					return e.op("eq", SBool, e.op("strlen", SI64, e.leaf(o)), e.cint(SI64, 0))
				}
				if o.op == "bytestr" {
					if n, ok := e.qlen(o.args[0]).constInt(); ok && n.Cmp(big.NewInt(int64(len(t.str)))) != 0 {
						return e.F
					}
				}
			}
		}
		p := sortTerms(a)
		return e.raw("eqs", SBool, "", p...)
	case "eqs":
		return e.mkTerm("eq", SBool, "", nil, a)
	case "lt", "ult":
		s := a[0].sort
		switch {
		case s.signed() || s == SBig:
			d := e.fromMonosZ(append(append(append([]mono(nil), e.monos(a[0])...), scale(e.monos(a[1]), big.NewInt(-1))...), mono{one, nil}))
			return e.le0(d)
		case s.unsigned():
			if n := e.keyLess(a[0], a[1]); n != nil {
				return n
			}
			return e.ult(a[0], a[1])
		case s == SF64:
			x, ok := a[0].float()
			y, ok2 := a[1].float()
			if ok && ok2 {
				return e.cbool(x < y)
			}
			if a[0] == a[1] {
				return e.F
			}
			// the sign of a difference
			if ok && x == 0 || ok2 && y == 0 {
				d, pos := a[0], ok
				if ok {
					d = a[1]
				}
				if d.op == "fadd" && (d.args[0].op == "fneg") != (d.args[1].op == "fneg") {
					p, q := d.args[0], d.args[1]
					if p.op == "fneg" {
						p, q = q, p
					}
					if pos { // 0 < p - q
						return e.mkTerm("lt", SBool, "", nil, []*Term{q.args[0], p})
					}
					return e.mkTerm("lt", SBool, "", nil, []*Term{p, q.args[0]})
				}
			}
			if ok && x == 0 && ok2 == false || ok2 && y == 0 {
				d := a[0]
				if ok {
					d = a[1]
				}
				if d.op == "fquo" && e.fnonneg(d.args[1]) {
					// divided by a positive number
					if ok {
						return e.mkTerm("lt", SBool, "", nil, []*Term{a[0], d.args[0]})
					}
					return e.mkTerm("lt", SBool, "", nil, []*Term{d.args[0], a[1]})
				}
				if ok2 && e.fnonneg(d) {
					return e.F
				}
			}
			return e.raw("flt", SBool, "", a...)
		}
		return e.raw("slt", SBool, "", a...)
	case "le":
		s := a[0].sort
		if s == SF64 {
			x, ok := a[0].float()
			y, ok2 := a[1].float()
			if ok && ok2 {
				return e.cbool(x <= y)
			}
			// numbers that can be compared
		}
		return e.not(e.mkTerm("lt", SBool, "", nil, []*Term{a[1], a[0]}))
	case "isneg":
		if a[0].isConst() {
			return e.cbool(a[0].num.Bit(int(a[0].sort.width())-1) == 1)
		}
		if a[0].sort == SU256 && a[0].op != "c" && !e.limbs && e.positive(a[0]) {
			return e.F
		}
		return opaque()
	case "divides":
		if a[0].isConst() && a[0].num.Sign() == 0 {
			return e.T
		}
		if allc && a[1].num.Sign() != 0 {
			return e.cbool(new(big.Int).Rem(a[0].num, a[1].num).Sign() == 0)
		}
		return e.raw("divides", SBool, "", a...)
	case "tdiv", "trem":
		if a[0].isConst() && a[0].num.Sign() == 0 {
			return c(zero)
		}
		if a[0] == a[1] {
			if op == "trem" {
				return c(zero)
			}
			return c(one)
		}
		if a[1].isConst() && a[1].num.Sign() != 0 {
			if a[0].isConst() {
				if op == "tdiv" {
					return c(new(big.Int).Quo(a[0].num, a[1].num))
				}
				return c(new(big.Int).Rem(a[0].num, a[1].num))
			}
			if a[1].num.Cmp(one) == 0 {
				if op == "tdiv" {
					return e.leaf(a[0])
				}
				return c(zero)
			}
			if p, ok := pow2(a[1].num); ok && srt.unsigned() {
				if op == "tdiv" {
					return e.mkTerm("shr", srt, "", nil, []*Term{a[0], e.cint(SU64, int64(p)).term})
				}
				return e.mkTerm("and", srt, "", nil, []*Term{a[0], e.cbig(srt, new(big.Int).Sub(a[1].num, one)).term})
			}
			// non-negative multiples of the divisor
			if lo, _ := e.bound(a[0]); lo != nil && lo.Sign() >= 0 {
				q, r := e.splitMul(a[0], a[1].num)
				if q != nil {
					if op == "tdiv" {
						if r.isConst() && r.num.Sign() == 0 {
							return e.leaf(q)
						}
					} else if r != a[0] {
						if l2, _ := e.bound(r); l2 != nil && l2.Sign() >= 0 {
							return e.mkTerm("trem", srt, "", nil, []*Term{r, a[1]})
						}
					}
				}
			}
			if op == "tdiv" && a[0].op == "tdiv" && a[0].args[1].isConst() && a[0].args[1].num.Sign() > 0 && a[1].num.Sign() > 0 {
				return e.mkTerm("tdiv", srt, "", nil, []*Term{a[0].args[0], e.cbig(srt, new(big.Int).Mul(a[1].num, a[0].args[1].num)).term})
			}
		}
		return opaque()
	case "fdiv": // floor division by a positive constant
		if a[0].isConst() {
			return c(floorDiv(a[0].num, a[1].num))
		}
		if q, r := e.splitMul(a[0], a[1].num); q != nil && !(q.isConst() && q.num.Sign() == 0) {
			s := e.mkTerm("fdiv", srt, "", nil, []*Term{r, a[1]})
			return e.op("add", srt, e.leaf(q), s)
		}
		return opaque()
	case "mulmod":
		for _, x := range a {
			if x.isConst() && x.num.Sign() == 0 {
				return c(zero)
			}
		}
		return opaque()
	case "sdiv", "smod":
		if srt == SU256 && !allc && !e.limbs && e.positive(a[0]) && e.positive(a[1]) {
			return e.mkTerm("u"+op[1:], srt, str, num, a)
		}
		return opaque()
	case "udiv", "umod":
		if allc {
			if a[1].num.Sign() == 0 {
				return c(zero)
			}
			if op == "udiv" {
				return c(new(big.Int).Div(a[0].num, a[1].num))
			}
			return c(new(big.Int).Mod(a[0].num, a[1].num))
		}
		if a[1].isConst() {
			if a[1].num.Sign() == 0 {
				return c(zero)
			}
			if a[1].num.Cmp(one) == 0 {
				if op == "udiv" {
					return e.leaf(a[0])
				}
				return c(zero)
			}
			if op == "udiv" && a[0].op == "udiv" && a[0].args[1].isConst() {
				p := new(big.Int).Mul(a[1].num, a[0].args[1].num)
				if p.BitLen() <= 256 {
					return e.mkTerm("udiv", srt, "", nil, []*Term{a[0].args[0], e.cbig(srt, p).term})
				}
				return c(zero)
			}
		}
		if a[0].isConst() && a[0].num.Sign() == 0 {
			return c(zero)
		}
		if e.divCases && srt == SU256 {
			return e.divByCases(op, a[0], a[1], opaque())
		}
		return opaque()
	case "udrem", "udquo":
		if n := e.longDiv(op, srt, num, a); n != nil {
			return n
		}
		return opaque()
	case "muldiv", "muldivup":
		if a[0].isConst() && a[0].num.Sign() == 0 || a[1].isConst() && a[1].num.Sign() == 0 {
			return c(zero)
		}
		if allc && a[2].num.Sign() != 0 {
			q, r := new(big.Int).DivMod(new(big.Int).Mul(a[0].num, a[1].num), a[2].num, new(big.Int))
			if op == "muldivup" && r.Sign() != 0 {
				q.Add(q, one)
			}
			return c(q)
		}
		if op == "muldiv" && a[2].isConst() && a[2].num.Cmp(one) == 0 {
			return e.leaf(e.pMul(srt, a[0], a[1]))
		}
		if op == "muldiv" && (a[0].isConst() && a[0].num.Cmp(one) == 0) {
			return e.mkTerm("udiv", srt, "", nil, []*Term{a[1], a[2]})
		}
		if op == "muldiv" && (a[1].isConst() && a[1].num.Cmp(one) == 0) {
			return e.mkTerm("udiv", srt, "", nil, []*Term{a[0], a[2]})
		}
		if a[0].id > a[1].id {
			a = []*Term{a[1], a[0], a[2]}
		}
		return opaque()
	case "uexp":
		if allc {
			return c(new(big.Int).Exp(a[0].num, a[1].num, two256))
		}
		return opaque()
	case "usqrt":
		if allc {
			return c(new(big.Int).Sqrt(a[0].num))
		}
		return opaque()
	case "and", "or", "xor":
		return e.bitop(op, srt, a)
	case "not":
		if allc {
			return c(new(big.Int).Not(a[0].num))
		}
		if a[0].op == "not" {
			return e.leaf(a[0].args[0])
		}
		// ^x = -x-1
		return e.leaf(e.fromMonos(srt, append(scale(e.monos(a[0]), big.NewInt(-1)), mono{big.NewInt(-1), nil})))
	case "shl":
		if a[1].isConst() {
			k := a[1].num
			if k.Cmp(big.NewInt(int64(srt.width()))) >= 0 {
				return c(zero)
			}
			return e.leaf(e.fromMonos(srt, scale(e.monos(a[0]), new(big.Int).Lsh(one, uint(k.Int64())))))
		}
		if a[0].isConst() && a[0].num.Sign() == 0 {
			return c(zero)
		}
		return opaque()
	case "shr":
		if a[1].isConst() {
			k := a[1].num
			if k.Sign() == 0 {
				return e.leaf(a[0])
			}
			if srt.signed() {
				if k.Cmp(big.NewInt(62)) > 0 {
					return opaque()
				}
				return e.mkTerm("fdiv", srt, "", nil, []*Term{a[0], e.cbig(srt, new(big.Int).Lsh(one, uint(k.Int64()))).term})
			}
			if k.Cmp(big.NewInt(int64(srt.width()))) >= 0 {
				return c(zero)
			}
			if a[0].isConst() {
				return c(new(big.Int).Rsh(a[0].num, uint(k.Int64())))
			}
			if srt == SU256 {
				return e.mkTerm("udiv", srt, "", nil, []*Term{a[0], e.cbig(srt, new(big.Int).Lsh(one, uint(k.Int64()))).term})
			}
			if a[0].op == "shr" && a[0].args[1].isConst() {
				return e.mkTerm("shr", srt, "", nil, []*Term{a[0].args[0], e.leaf(e.pAdd(SU64, a[0].args[1], a[1])).term})
			}
		}
		if a[0].isConst() && a[0].num.Sign() == 0 {
			return c(zero)
		}
		return opaque()
	case "usrsh":
		if a[1].isConst() && a[1].num.Sign() == 0 {
			return e.leaf(a[0])
		}
		return opaque()
	case "cv":
		x := a[0]
		if x.sort == srt {
			return e.leaf(x)
		}
		if x.isConst() {
			return c(x.num)
		}
		if x.sort == SF64 || srt == SF64 {
			return opaque()
		}
		if x.op == "poly" && x.sort.unsigned() && srt.machine() && srt.width() > x.sort.width() && e.mask(x) != nil {
			// a sum without overflow
			r := e.cint(srt, 0)
			for _, m := range e.monos(x) {
				p := e.cbig(srt, m.c)
				for _, f := range m.f {
					p = e.op("mul", srt, p, e.op("cv", srt, e.leaf(f)))
				}
				r = e.op("add", srt, r, p)
			}
			return r
		}
		if x.op == "shr" && x.args[0].op == "cv" && x.args[1].isConst() && srt.machine() {
			// bits below the width of the number in between
			c := x.args[0]
			y := c.args[0]
			if k := x.args[1].num; y.sort.unsigned() && c.sort.unsigned() && y.sort.width() > c.sort.width() && k.IsInt64() && k.Int64()+int64(srt.width()) <= int64(c.sort.width()) {
				return e.op("cv", srt, e.op("shr", y.sort, e.leaf(y), e.leaf(x.args[1])))
			}
		}
		if x.op == "cv" && x.args[0].sort.machine() {
			y := x.args[0]
			// y -> x.sort -> srt: drop the middle if it loses nothing
			if srt.width() <= x.sort.width() || (x.sort.width() >= y.sort.width() && (x.sort.signed() == y.sort.signed())) {
				if y.sort == srt {
					return e.leaf(y)
				}
				return e.mkTerm("cv", srt, "", nil, []*Term{y})
			}
		}
		if x.op == "poly" && srt.width() == x.sort.width() {
			var ms []mono
			for _, m := range x.poly {
				var f []*Term
				for _, t := range m.f {
					f = append(f, e.mkTerm("cv", srt, "", nil, []*Term{t}).term)
				}
				ms = append(ms, mono{m.c, sortTerms(f)})
			}
			ok := true
			for _, m := range ms {
				for _, t := range m.f {
					if t.op == "poly" || t.isConst() {
						ok = false
					}
				}
			}
			if ok {
				return e.leaf(e.fromMonos(srt, ms))
			}
		}
		return opaque()
	case "zext": // machine word to u256
		if a[0].isConst() {
			return c(a[0].num)
		}
		if n := e.zextPoly(a[0]); n != nil {
			return n
		}
		return opaque()
	case "fadd", "fmul":
		x, ok := a[0].float()
		y, ok2 := a[1].float()
		if ok && ok2 {
			if op == "fadd" {
				return e.leaf(e.fconst(x + y))
			}
			return e.leaf(e.fconst(x * y))
		}
		if op == "fadd" && ok && x == 0 {
			return e.leaf(a[1])
		}
		if op == "fadd" && ok2 && y == 0 {
			return e.leaf(a[0])
		}
		if op == "fadd" {
			for i := range 2 {
				if n := a[i]; n.op == "fneg" && n.args[0] == a[1-i] {
					return e.leaf(e.fconst(0))
				}
			}
		}
		if op == "fmul" && ok && x == 1 {
			return e.leaf(a[1])
		}
		if op == "fmul" && ok2 && y == 1 {
			return e.leaf(a[0])
		}
		a = sortTerms(a)
		return opaque()
	case "fsub":
		return e.op("fadd", SF64, e.leaf(a[0]), e.op("fneg", SF64, e.leaf(a[1])))
	case "fneg":
		if x, ok := a[0].float(); ok {
			return e.leaf(e.fconst(-x))
		}
		if a[0].op == "fneg" {
			return e.leaf(a[0].args[0])
		}
		return opaque()
	case "fquo":
		x, ok := a[0].float()
		y, ok2 := a[1].float()
		if ok && ok2 && y != 0 {
			return e.leaf(e.fconst(x / y))
		}
		if ok && x == 0 && !ok2 {
			return e.leaf(a[0]) // NaN for no number
		}
		return opaque()
	case "i2f":
		if allc {
			f, _ := new(big.Float).SetInt(a[0].num).Float64()
			return e.leaf(e.fconst(f))
		}
		return opaque()
	case "f2i":
		if x, ok := a[0].float(); ok && math.Abs(x) < 1<<62 {
			return e.cint(srt, int64(x))
		}
		if n := e.roundedInt(srt, a[0]); n != nil {
			return n
		}
		return opaque()
	case "fsqrt":
		if x, ok := a[0].float(); ok && x >= 0 {
			return e.leaf(e.fconst(math.Sqrt(x)))
		}
		return opaque()
	case "fmax", "fmin":
		// of numbers, in the order that keeps the first on a tie
		a = sortTerms(a)
		p, q := a[0], a[1]
		if op == "fmin" {
			p, q = q, p
		}
		return e.ite(e.mkTerm("lt", SBool, "", nil, []*Term{p, q}), e.leaf(a[1]), e.leaf(a[0]))
	case "scat":
		return e.leaf(e.scat(a))
	case "itoa":
		if allc {
			return e.cstr(a[0].num.String())
		}
		return opaque()
	case "bytestr":
		return e.byteStr(a[0])
	case "strlen":
		if a[0].op == "s" {
			return e.cint(SI64, int64(len(a[0].str)))
		}
		if a[0].op == "bytestr" {
			return e.qlen(a[0].args[0])
		}
		return opaque()
	case "strbytes":
		if a[0].op == "bytestr" {
			return e.leaf(a[0].args[0])
		}
		if a[0].op == "s" && len(a[0].str) < 128 {
			var qs []*Node
			for i := 0; i < len(a[0].str); i++ {
				qs = append(qs, e.build("qunit", SSeq, "", nil, e.cint(SU8, int64(a[0].str[i]))))
			}
			if len(qs) == 0 {
				return e.raw("qnil", SSeq, "")
			}
			return e.build("qcat", SSeq, "", nil, qs...)
		}
		return opaque()
	case "ssub":
		if a[0].op == "bytestr" {
			return e.op("bytestr", SStr, e.op("qsub", SSeq, e.leaf(a[0].args[0]), e.leaf(a[1]), e.op("sub", SI64, e.leaf(a[2]), e.leaf(a[1]))))
		}
		if a[0].op == "s" && a[1].isConst() && a[2].isConst() {
			if i, j := a[1].num.Int64(), a[2].num.Int64(); 0 <= i && i <= j && j <= int64(len(a[0].str)) {
				return e.cstr(a[0].str[i:j])
			}
		}
		return opaque()
	case "strat":
		if a[0].op == "bytestr" {
			return e.qsel(SU8, a[0].args[0], a[1], "uint8")
		}
		if a[0].op == "s" && a[1].isConst() && a[1].num.Sign() >= 0 && int(a[1].num.Int64()) < len(a[0].str) {
			return e.cint(SU8, int64(a[0].str[a[1].num.Int64()]))
		}
		if a[0].op == "s" && !a[1].isConst() && a[0].str != "" {
			// a table whose greatest entry stands apart says whether there is a value at all
			if top, rest := apart(a[0].str); rest.Sign() >= 0 {
				is := e.eq0(e.pSub(srt, opaque().term, e.cbig(srt, top).term))
				return e.ite(is, e.cbig(srt, top), e.raw("stratlow", srt, "", a...))
			}
		}
		return opaque()
	case "stratlow":
		if a[0].op == "s" && a[1].isConst() {
			return e.mkTerm("strat", srt, str, num, a)
		}
		return opaque()
	case "pack":
		all := true
		for i, w := range a {
			if w.op != "word" || w.num.Int64() != int64(i) || w.args[0] != a[0].args[0] {
				all = false
				break
			}
		}
		if all {
			return e.leaf(a[0].args[0])
		}
		if allc {
			n := new(big.Int)
			for i := 3; i >= 0; i-- {
				n.Lsh(n, 64)
				n.Or(n, a[i].num)
			}
			return c(n)
		}
		if x, k := e.shiftedWords(a); x != nil {
			return e.mkTerm("shr", SU256, "", nil, []*Term{x, e.cint(SU64, int64(k)).term})
		}
		if len(a) == 4 && !e.limbs {
			high := true
			for _, w := range a[1:] {
				high = high && w.isConst() && w.num.Sign() == 0
			}
			if high {
				return e.mkTerm("zext", srt, "", nil, a[:1])
			}
		}
		return opaque()
	case "word":
		x := a[0]
		if num.Sign() < 0 || num.Cmp(big.NewInt(3)) > 0 {
			return opaque() // out of range
		}
		if x.isConst() {
			return c(new(big.Int).Rsh(x.num, uint(64*num.Int64())))
		}
		if x.op == "pack" {
			return e.leaf(x.args[num.Int64()])
		}
		if x.op == "zext" {
			if num.Sign() == 0 {
				return e.mkTerm("cv", SU64, "", nil, x.args)
			}
			return c(zero)
		}
		return opaque()
	case "carry": // carry out of x+y+c
		if allc {
			s := new(big.Int).Add(new(big.Int).Add(a[0].num, a[1].num), a[2].num)
			return c(s.Rsh(s, 64))
		}
		if (a[1].isConst() && a[1].num.Sign() == 0 || a[0].isConst() && a[0].num.Sign() == 0) && a[2].isConst() && a[2].num.Sign() == 0 {
			return c(zero)
		}
		if a[0].id > a[1].id {
			a = []*Term{a[1], a[0], a[2]}
		}
		return opaque()
	case "borrow":
		if allc {
			s := new(big.Int).Sub(new(big.Int).Sub(a[0].num, a[1].num), a[2].num)
			if s.Sign() < 0 {
				return c(one)
			}
			return c(zero)
		}
		if a[1].isConst() && a[1].num.Sign() == 0 && a[2].isConst() && a[2].num.Sign() == 0 {
			return c(zero)
		}
		return opaque()
	case "umulh":
		if allc {
			p := new(big.Int).Mul(a[0].num, a[1].num)
			return c(p.Rsh(p, 64))
		}
		if a[0].isConst() && a[0].num.Sign() == 0 || a[1].isConst() && a[1].num.Sign() == 0 {
			return c(zero)
		}
		a = sortTerms(a)
		return opaque()
	case "len64":
		if allc {
			return c(big.NewInt(int64(bits.Len64(a[0].num.Uint64()))))
		}
		if lo, hi := e.bound(a[0]); lo != nil && hi != nil && lo.BitLen() == hi.BitLen() {
			return c(big.NewInt(int64(lo.BitLen())))
		}
		return opaque()
	case "rf":
		if a[0].op == "rec" {
			return e.leaf(a[0].args[num.Int64()])
		}
		return opaque()
	case "rfupd": // record with one field replaced
		if a[0].op == "rec" {
			n := append([]*Term(nil), a[0].args...)
			n[num.Int64()] = a[1]
			return e.mkTerm("rec", SRec, a[0].str, nil, n)
		}
		return opaque()
	case "rec":
		all := len(a) > 0
		for i, w := range a {
			if w.op != "rf" || w.num.Int64() != int64(i) || w.args[0] != a[0].args[0] || w.args[0].sort != SRec {
				all = false
				break
			}
		}
		if all && a[0].args[0].str == str {
			return e.leaf(a[0].args[0])
		}
		return opaque()
	case "lb":
		return e.lbNode(a[0], a[1])
	case "has":
		return e.hasAtom(a[0], a[1])
	case "qlen":
		return e.qlen(a[0])
	case "sel":
		return e.qsel(srt, a[0], a[1], str)
	case "upd":
		return e.qupd(a[0], a[1], a[2])
	case "qcat":
		return e.qcat(a)
	case "qunit":
		return opaque()
	case "qsub":
		return e.qsub(a[0], a[1], a[2])
	case "mget":
		return e.mget(srt, str, a[0], a[1])
	case "mhas":
		return e.mhas(a[0], a[1])
	case "mput":
		return e.mput(a[0], a[1], a[2])
	case "maplen":
		if a[0].op == "mempty" {
			return e.cint(SI64, 0)
		}
		return opaque()
	case "toz":
		if allc {
			return c(a[0].num)
		}
		return opaque()
	case "u2z":
		if allc {
			return c(a[0].num)
		}
		return opaque()
	case "s2z":
		if allc {
			n := a[0].num
			if n.BitLen() == 256 {
				n = new(big.Int).Sub(n, two256)
			}
			return c(n)
		}
		return opaque()
	case "z2u":
		if allc {
			return c(a[0].num)
		}
		if a[0].op == "u2z" || a[0].op == "s2z" {
			return e.leaf(a[0].args[0])
		}
		return opaque()
	case "zovf":
		if allc {
			return e.cbool(a[0].num.BitLen() > 256)
		}
		if a[0].op == "u2z" || a[0].op == "s2z" {
			return e.F
		}
		return opaque()
	case "hex2u", "hexbad":
		if a[0].op == "s" {
			n, ok := parseHex(a[0].str)
			if op == "hexbad" {
				return e.cbool(!ok)
			}
			if ok {
				return c(n)
			}
		}
		return opaque()
	case "zparse", "zparseok":
		if a[0].op == "s" && a[1].isConst() {
			n, ok := new(big.Int).SetString(a[0].str, int(a[1].num.Int64()))
			if op == "zparseok" {
				return e.cbool(ok)
			}
			if ok {
				return c(n)
			}
		}
		return opaque()
	case "umulh256":
		if allc {
			p := new(big.Int).Mul(a[0].num, a[1].num)
			return c(p.Rsh(p, 256))
		}
		if a[0].isConst() && a[0].num.Sign() == 0 || a[1].isConst() && a[1].num.Sign() == 0 {
			return c(zero)
		}
		a = sortTerms(a)
		return opaque()
	case "uaddovf":
		if allc {
			return e.cbool(new(big.Int).Add(a[0].num, a[1].num).BitLen() > 256)
		}
		a = sortTerms(a)
		return opaque()
	case "zsqrt", "zabs":
		if allc && op == "zabs" {
			return c(new(big.Int).Abs(a[0].num))
		}
		if allc && a[0].num.Sign() >= 0 {
			return c(new(big.Int).Sqrt(a[0].num))
		}
		return opaque()
	case "zdiv", "zquo":
		if allc && a[1].num.Sign() != 0 {
			if op == "zdiv" {
				return c(new(big.Int).Div(a[0].num, a[1].num))
			}
			return c(new(big.Int).Quo(a[0].num, a[1].num))
		}
		return opaque()
	}
	return opaque()
}

// zextPoly: a linear combination that does not wrap.
func (e *Eng) zextPoly(t *Term) *Node {
	if len(e.lim) == 0 || t.op != "poly" || t.sort != SU64 {
		return nil
	}
	lo, hi := new(big.Int), new(big.Int)
	half := p2(63)
	var out []mono
	for _, m := range t.poly {
		c := m.c
		if c.Cmp(half) >= 0 {
			c = new(big.Int).Sub(c, p2(64))
		}
		l, h := one, one
		var f []*Term
		switch {
		case len(m.f) == 1:
			if l, h = e.bound(m.f[0]); l == nil || h == nil || l.Sign() < 0 {
				return nil
			}
			f = []*Term{e.mkTerm("zext", SU256, "", nil, m.f).term}
		case len(m.f) > 1:
			return nil
		}
		if c.Sign() < 0 {
			l, h = h, l
		}
		lo.Add(lo, new(big.Int).Mul(c, l))
		hi.Add(hi, new(big.Int).Mul(c, h))
		out = append(out, mono{c, f})
	}
	if lo.Sign() < 0 || hi.Cmp(p2(64)) >= 0 {
		return nil
	}
	return e.leaf(e.fromMonos(SU256, out))
}

func parseHex(s string) (*big.Int, bool) {
	if len(s) < 3 || s[0] != '0' || s[1] != 'x' && s[1] != 'X' || len(s) > 66 || s[2] == '0' && len(s) > 3 {
		return nil, false
	}
	return new(big.Int).SetString(s[2:], 16)
}

// mput is map m with k bound to v.
func (e *Eng) mput(m, k, v *Term) *Node {
	if m.op == "mput" && m.args[1] == k {
		return e.mput(m.args[0], k, v)
	}
	if memMap(m) {
		if cur := e.mget(v.sort, "", m, k); cur.term == v {
			return e.leaf(m)
		}
	}
	if m.op == "mput" && m.args[1].id > k.id {
		if e.op("eq", SBool, e.asNode(m.args[1]), e.asNode(k)) == e.F {
			in := e.mput(m.args[0], k, v)
			return e.op("mput", SState, in, e.asNode(m.args[1]), e.asNode(m.args[2]))
		}
	}
	return e.leaf(e.mk(&Term{op: "mput", sort: SState, args: []*Term{m, k, v}}))
}

// memMap: a memory region, in which every place has a content.
func memMap(m *Term) bool {
	for m.op == "mput" {
		m = m.args[0]
	}
	return m.op == "mem0"
}

// mcomp is map init overwritten, for the first n keys k of map dom, with val,
// which is given over the hole.
func (e *Eng) mcomp(init, dom, n, val *Node) *Node {
	i, d, c := e.freeze(init), e.freeze(dom), e.freeze(n)
	return e.leaf(e.mk(&Term{op: "mcomp", sort: SState, args: []*Term{i.term, d.term, c.term}, nodes: []*Node{val}}))
}

func (e *Eng) mcompWhole(t *Term) bool {
	return e.op("maplen", SI64, e.leaf(t.args[1])) == e.leaf(t.args[2])
}

func pow2(n *big.Int) (int, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := n.BitLen() - 1
	return k, new(big.Int).Lsh(one, uint(k)).Cmp(n) == 0
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// splitMul writes t = m*q + r, collecting the monomials divisible by m in q.
func (e *Eng) splitMul(t *Term, m *big.Int) (q, r *Term) {
	var qs, rs []mono
	for _, x := range e.monos(t) {
		if len(x.f) > 0 && new(big.Int).Rem(x.c, m).Sign() == 0 {
			qs = append(qs, mono{new(big.Int).Quo(x.c, m), x.f})
		} else if len(x.f) == 0 {
			k := floorDiv(x.c, m)
			if k.Sign() != 0 {
				qs = append(qs, mono{k, nil})
			}
			rs = append(rs, mono{new(big.Int).Sub(x.c, new(big.Int).Mul(k, m)), nil})
		} else {
			rs = append(rs, x)
		}
	}
	if qs == nil {
		return nil, t
	}
	return e.fromMonos(t.sort, qs), e.fromMonos(t.sort, rs)
}

func (e *Eng) bitop(op string, srt Sort, a []*Term) *Node {
	var flat []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == op {
			for _, x := range t.args {
				fl(x)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, t := range a {
		fl(t)
	}
	ones := wrap(srt, big.NewInt(-1))
	var k *big.Int
	count := map[*Term]int{}
	var rest []*Term
	for _, t := range flat {
		if t.isConst() {
			if k == nil {
				k = t.num
			} else if op == "and" {
				k = new(big.Int).And(k, t.num)
			} else if op == "or" {
				k = new(big.Int).Or(k, t.num)
			} else {
				k = new(big.Int).Xor(k, t.num)
			}
			continue
		}
		if count[t] == 0 {
			rest = append(rest, t)
		}
		count[t]++
	}
	if op == "xor" {
		var r2 []*Term
		for _, t := range rest {
			if count[t]%2 == 1 {
				r2 = append(r2, t)
			}
		}
		rest = r2
	}
	if k != nil {
		k = wrap(srt, k)
		switch {
		case op == "and" && k.Sign() == 0:
			return e.cbig(srt, zero)
		case op == "and" && k.Cmp(ones) == 0:
			k = nil
		case op == "or" && k.Cmp(ones) == 0:
			return e.cbig(srt, ones)
		case op != "and" && k.Sign() == 0:
			k = nil
		}
	}
	if op == "xor" && k != nil && k.Cmp(ones) == 0 && len(rest) == 1 {
		return e.mkTerm("not", srt, "", nil, rest)
	}
	if len(rest) == 0 {
		if k == nil {
			if op == "and" {
				k = ones
			} else {
				k = zero
			}
		}
		return e.cbig(srt, k)
	}
	if k == nil && len(rest) == 1 {
		return e.leaf(rest[0])
	}
	rest = sortTerms(rest)
	if k != nil {
		rest = append(rest, e.cbig(srt, k).term)
	}
	if op == "and" && k != nil && len(rest) == 2 {
		if n := e.lowBits(srt, rest, k); n != nil {
			return n
		}
	}
	if op != "and" {
		if n := e.bitSum(srt, rest); n != nil {
			return n
		}
	}
	return e.leaf(e.mk(&Term{op: op, sort: srt, args: rest}))
}

func (e *Eng) scat(a []*Term) *Term {
	var out []*Term
	for _, t := range a {
		if t.op == "scat" {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	var r []*Term
	for _, t := range out {
		if t.op == "s" {
			if t.str == "" {
				continue
			}
			if len(r) > 0 && r[len(r)-1].op == "s" {
				r[len(r)-1] = e.cstr(r[len(r)-1].str + t.str).term
				continue
			}
		}
		r = append(r, t)
	}
	if len(r) == 0 {
		return e.cstr("").term
	}
	if len(r) == 1 {
		return r[0]
	}
	return e.mk(&Term{op: "scat", sort: SStr, args: r})
}

// ---- sequences

func (e *Eng) qlen(s *Term) *Node {
	switch s.op {
	case "qunit":
		return e.cint(SI64, 1)
	case "qcat":
		n := e.cint(SI64, 0)
		for _, p := range s.args {
			n = e.op("add", SI64, n, e.qlen(p))
		}
		return n
	case "qsub":
		return e.leaf(s.args[2])
	case "qcomp":
		return e.leaf(s.args[0])
	case "upd":
		return e.qlen(s.args[0])
	case "qnil":
		return e.cint(SI64, 0)
	case "strbytes":
		return e.op("strlen", SI64, e.leaf(s.args[0]))
	case "zlimbs":
		return e.op("zwords", SI64, e.leaf(s.args[0]))
	}
	if l := e.seqLen(s); l != nil {
		return l
	}
	return e.leaf(e.mk(&Term{op: "qlen", sort: SI64, args: []*Term{s}}))
}

// seqLen: initial contents of a caller's slice has the length recorded with it.
func (e *Eng) seqLen(s *Term) *Node {
	if s.op == "seq0" && len(s.args) == 2 {
		return e.leaf(s.args[1])
	}
	return nil
}

func (e *Eng) qsel(srt Sort, s, i *Term, str string) *Node {
	switch s.op {
	case "qunit":
		return e.leaf(s.args[0])
	case "upd":
		eq := e.op("eq", SBool, e.leaf(s.args[1]), e.leaf(i))
		return e.ite(eq, e.leaf(s.args[2]), e.qsel(srt, s.args[0], i, str))
	case "qsub":
		return e.build("sel", srt, str, nil, e.leaf(s.args[0]), e.op("add", SI64, e.leaf(s.args[1]), e.leaf(i)))
	case "qcomp":
		return e.instBV(s.nodes[0], int(s.num.Int64()), i)
	case "qcat":
		n := e.qlen(s.args[0])
		in := e.op("lt", SBool, e.leaf(i), n)
		rest := e.qcat(s.args[1:])
		a := e.build("sel", srt, str, nil, e.leaf(s.args[0]), e.leaf(i))
		if in == e.T {
			return a
		}
		b := e.build("sel", srt, str, nil, rest, e.op("sub", SI64, e.leaf(i), n))
		return e.ite(in, a, b)
	}
	return e.leaf(e.mk(&Term{op: "sel", sort: srt, str: str, args: []*Term{s, i}}))
}

func (e *Eng) qupd(s, i, v *Term) *Node {
	if s.op == "upd" && s.args[1] == i {
		return e.qupd(s.args[0], i, v)
	}
	if s.op == "qcat" {
		off := e.cint(SI64, 0)
		for j, p := range s.args {
			l := e.qlen(p)
			if l.term == nil || off.term == nil {
				break
			}
			d := e.op("sub", SI64, e.leaf(i), off)
			if k, ok := d.constInt(); ok && p.op == "qunit" && k.Sign() == 0 {
				n := append([]*Term(nil), s.args...)
				n[j] = e.mk(&Term{op: "qunit", sort: SSeq, args: []*Term{v}})
				return e.qcat(n)
			}
			off = e.op("add", SI64, off, l)
		}
	}
	if s.op == "qunit" && i.isConst() && i.num.Sign() == 0 {
		return e.leaf(e.mk(&Term{op: "qunit", sort: SSeq, args: []*Term{v}}))
	}
	// order writes at provably different indices
	if s.op == "upd" && s.args[1].id > i.id {
		if e.op("eq", SBool, e.leaf(s.args[1]), e.leaf(i)) == e.F {
			in := e.qupd(s.args[0], i, v)
			return e.op("upd", SSeq, in, e.leaf(s.args[1]), e.leaf(s.args[2]))
		}
	}
	return e.leaf(e.mk(&Term{op: "upd", sort: SSeq, args: []*Term{s, i, v}}))
}

func (e *Eng) qcat(parts []*Term) *Node {
	var out []*Term
	for _, p := range parts {
		if p.op == "qcat" {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	var r []*Term
	for _, p := range out {
		if l, ok := e.qlen(p).constInt(); ok && l.Sign() == 0 {
			continue
		}
		if len(r) > 0 {
			q := r[len(r)-1]
			// merge adjacent pieces of one sequence
			qb, qo, ql := e.asSub(q)
			pb, po, pl := e.asSub(p)
			if qb == pb {
				end := e.op("add", SI64, e.leaf(qo), e.leaf(ql))
				if end.term == po {
					m := e.qsub(qb, qo, e.op("add", SI64, e.leaf(ql), e.leaf(pl)).term)
					if m.term != nil {
						r[len(r)-1] = m.term
						continue
					}
				}
			}
		}
		r = append(r, p)
	}
	if len(r) == 0 {
		return e.raw("qnil", SSeq, "")
	}
	if len(r) == 1 {
		return e.leaf(r[0])
	}
	return e.leaf(e.mk(&Term{op: "qcat", sort: SSeq, args: r}))
}

func (e *Eng) asSub(p *Term) (b, o, l *Term) {
	if p.op == "qsub" {
		return p.args[0], p.args[1], p.args[2]
	}
	n := e.qlen(p)
	if n.term == nil {
		return p, nil, nil
	}
	return p, e.cint(SI64, 0).term, n.term
}

func (e *Eng) qsub(s, o, l *Term) *Node {
	if l.isConst() && l.num.Sign() == 0 {
		return e.raw("qnil", SSeq, "")
	}
	if s.op == "qsub" {
		return e.op("qsub", SSeq, e.leaf(s.args[0]), e.op("add", SI64, e.leaf(s.args[1]), e.leaf(o)), e.leaf(l))
	}
	if o.isConst() && o.num.Sign() == 0 {
		if e.qlen(s) == e.leaf(l) {
			return e.leaf(s)
		}
	}
	if s.op == "qcat" {
		// drop and take whole parts where lengths are comparable
		off, ln := o, l
		var out []*Term
		i := 0
		for ; i < len(s.args); i++ {
			pl := e.qlen(s.args[i])
			if pl.term == nil {
				break
			}
			d := e.op("sub", SI64, e.leaf(off), pl)
			lo, _ := e.bound(d.term)
			if lo != nil && lo.Sign() >= 0 {
				off = d.term
				continue
			}
			break
		}
		if i == len(s.args) {
			return e.leaf(e.mk(&Term{op: "qsub", sort: SSeq, args: []*Term{s, o, l}}))
		}
		ok := true
		for ; i < len(s.args); i++ {
			if ln.isConst() && ln.num.Sign() == 0 {
				break
			}
			pl := e.qlen(s.args[i])
			if pl.term == nil {
				ok = false
				break
			}
			avail := e.op("sub", SI64, pl, e.leaf(off)).term // in this part from off
			d := e.op("sub", SI64, e.leaf(avail), e.leaf(ln)).term
			lo, hi := e.bound(d)
			switch {
			case lo != nil && lo.Sign() >= 0: // part suffices
				out = append(out, e.qsub(s.args[i], off, ln).term)
				ln = e.cint(SI64, 0).term
			case hi != nil && hi.Sign() <= 0: // whole rest of the part
				out = append(out, e.qsub(s.args[i], off, avail).term)
				ln = e.op("sub", SI64, e.leaf(ln), e.leaf(avail)).term
				off = e.cint(SI64, 0).term
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok && ln.isConst() && ln.num.Sign() == 0 {
			for _, t := range out {
				if t == nil {
					ok = false
				}
			}
			if ok {
				return e.qcat(out)
			}
		}
		if i > 0 && false {
			_ = out
		}
	}
	if s.op == "qcomp" {
		// shift the index
		bv := e.leaf(e.bvar(int(s.num.Int64())))
		body := e.instBV(s.nodes[0], int(s.num.Int64()), e.op("add", SI64, bv, e.leaf(o)).term)
		return e.comp(e.leaf(l), body, int(s.num.Int64()))
	}
	if s.op == "upd" {
		// the write is outside the part
		d := e.op("sub", SI64, e.leaf(s.args[1]), e.leaf(o)).term
		if _, hi := e.bound(d); hi != nil && hi.Sign() < 0 {
			return e.qsub(s.args[0], o, l)
		}
		d2 := e.op("sub", SI64, e.leaf(d), e.leaf(l)).term
		if lo, _ := e.bound(d2); lo != nil && lo.Sign() >= 0 {
			return e.qsub(s.args[0], o, l)
		}
		if lo, _ := e.bound(d); lo != nil && lo.Sign() >= 0 {
			if _, hi := e.bound(d2); hi != nil && hi.Sign() < 0 {
				return e.op("upd", SSeq, e.qsub(s.args[0], o, l), e.leaf(d), e.leaf(s.args[2]))
			}
		}
	}
	return e.leaf(e.mk(&Term{op: "qsub", sort: SSeq, args: []*Term{s, o, l}}))
}

func (e *Eng) bvar(level int) *Term {
	return e.mk(&Term{op: "bv", sort: SI64, num: big.NewInt(int64(level))})
}

// comp is the sequence body(0), ..., body(n-1), body given over bound variable level.
func (e *Eng) comp(n *Node, body *Node, level int) *Node {
	return e.mapLeaves(n, func(t *Term) *Node {
		if t.isConst() && t.num.Sign() == 0 {
			return e.raw("qnil", SSeq, "")
		}
		// [s[0], ..., s[n-1]] with n = len s is s
		if body.term != nil && body.term.op == "sel" && body.term.args[1] == e.bvar(level) && body.term.args[0].bvs <= level {
			return e.qsub(body.term.args[0], e.cint(SI64, 0).term, t)
		}
		return e.leaf(e.mk(&Term{op: "qcomp", sort: SSeq, num: big.NewInt(int64(level)), args: []*Term{t}, nodes: []*Node{body}}))
	})
}

// bindK abstracts variable k in body, choosing the binder level.
func (e *Eng) bindK(body *Node, k *Term) (*Node, int) {
	lv, _ := body.bvs(map[*Node]bool{})
	b := e.subst(body, map[*Term]*Node{k: e.leaf(e.bvar(lv))})
	return b, lv
}

func (e *Eng) instBV(body *Node, level int, i *Term) *Node {
	return e.subst(body, map[*Term]*Node{e.bvar(level): e.leaf(i)})
}

// bsum is the sum of body(0), ..., body(n-1).
func (e *Eng) bsum(srt Sort, n *Node, body *Node, level int) *Node {
	return e.mapLeaves(n, func(t *Term) *Node {
		if t.isConst() && t.num.Sign() == 0 {
			return e.cint(srt, 0)
		}
		// split sums
		if body.term != nil && body.term.op == "poly" && len(body.term.poly) > 1 {
			r := e.cint(srt, 0)
			for _, m := range body.term.poly {
				p := e.fromMonos(srt, []mono{m})
				r = e.op("add", srt, r, e.bsum(srt, e.leaf(t), e.leaf(p), level))
			}
			return r
		}
		if body.term != nil && body.term.op == "poly" && body.term.poly[0].c.Cmp(one) != 0 {
			m := body.term.poly[0]
			p := e.fromMonos(srt, []mono{{one, m.f}})
			return e.op("mul", srt, e.cbig(srt, m.c), e.bsum(srt, e.leaf(t), e.leaf(p), level))
		}
		return e.leaf(e.mk(&Term{op: "bsum", sort: srt, num: big.NewInt(int64(level)), args: []*Term{t}, nodes: []*Node{body}}))
	})
}

// ---- maps

func (e *Eng) mget(srt Sort, str string, m, k *Term) *Node {
	if e.closedTables && k.op != "c" && constTable(m) {
		return e.asNode(e.mk(&Term{op: "mget", sort: srt, str: str, args: []*Term{m, k}}))
	}
	switch m.op {
	case "mput":
		eq := e.op("eq", SBool, e.leaf(m.args[1]), e.leaf(k))
		return e.ite(eq, e.leaf(m.args[2]), e.mget(srt, str, m.args[0], k))
	case "mdel":
		eq := e.op("eq", SBool, e.leaf(m.args[1]), e.leaf(k))
		return e.ite(eq, e.zeroTerm(srt, str), e.mget(srt, str, m.args[0], k))
	case "mempty":
		return e.zeroTerm(srt, str)
	case "mem0":
		return e.asNode(e.mk(&Term{op: "in", sort: srt, args: []*Term{k}}))
	case "mcomp":
		if e.mcompWhole(m) {
			h := e.mk(&Term{op: "hole", sort: k.sort})
			v := e.subst(m.nodes[0], map[*Term]*Node{h: e.asNode(k)})
			return e.ite(e.mhas(m.args[1], k), v, e.mget(srt, str, m.args[0], k))
		}
	}
	return e.asNode(e.mk(&Term{op: "mget", sort: srt, str: str, args: []*Term{m, k}}))
}

// constTable: a map of several constant entries.
func constTable(m *Term) bool {
	n := 0
	for ; m.op == "mput" && m.args[1].op == "c"; m = m.args[0] {
		n++
	}
	return n > 1 && m.op == "mempty"
}

func (e *Eng) mhas(m, k *Term) *Node {
	switch m.op {
	case "mput":
		return e.or(e.op("eq", SBool, e.leaf(m.args[1]), e.leaf(k)), e.mhas(m.args[0], k))
	case "mdel":
		return e.and(e.not(e.op("eq", SBool, e.leaf(m.args[1]), e.leaf(k))), e.mhas(m.args[0], k))
	case "mempty":
		return e.F
	case "mcomp":
		if e.mcompWhole(m) {
			return e.or(e.mhas(m.args[1], k), e.mhas(m.args[0], k))
		}
	}
	return e.raw("mhas", SBool, "", m, k)
}

func (e *Eng) zeroTerm(srt Sort, str string) *Node {
	switch {
	case srt.arith():
		return e.cint(srt, 0)
	case srt == SF64:
		return e.leaf(e.fconst(0))
	case srt == SStr:
		return e.cstr("")
	case srt == SBool:
		return e.F
	case srt == SRef:
		return e.nilRef()
	}
	return e.raw("zero", srt, str)
}

// ---- substitution

type substCtx struct {
	m     map[*Term]*Node
	terms map[*Term]*Node
	nodes map[*Node]*Node
	names bool // the names of loops stay as they are
}

// rewrite substitutes outside the names of loops.
func (e *Eng) rewrite(n *Node, m map[*Term]*Node) *Node {
	if len(m) == 0 {
		return n
	}
	c := &substCtx{m: m, terms: map[*Term]*Node{}, nodes: map[*Node]*Node{}, names: true}
	return e.substN(c, n)
}

func (e *Eng) subst(n *Node, m map[*Term]*Node) *Node {
	if len(m) == 0 {
		return n
	}
	c := &substCtx{m: m, terms: map[*Term]*Node{}, nodes: map[*Node]*Node{}}
	return e.substN(c, n)
}

func (e *Eng) substN(c *substCtx, n *Node) *Node {
	if r, ok := c.nodes[n]; ok {
		return r
	}
	var r *Node
	if n.term != nil {
		r = e.substT(c, n.term)
	} else {
		switch a := e.substT(c, n.atom); a {
		case e.T:
			r = e.substN(c, n.hi)
		case e.F:
			r = e.substN(c, n.lo)
		default:
			r = e.ite(a, e.substN(c, n.hi), e.substN(c, n.lo))
		}
	}
	c.nodes[n] = r
	return r
}

func (e *Eng) substT(c *substCtx, t *Term) *Node {
	if r, ok := c.m[t]; ok {
		return r
	}
	if r, ok := c.terms[t]; ok {
		return r
	}
	r := e.substT1(c, t)
	c.terms[t] = r
	return r
}

func (e *Eng) asNode(t *Term) *Node {
	if t.sort == SBool {
		return e.atom(t)
	}
	return e.leaf(t)
}

func (e *Eng) substT1(c *substCtx, t *Term) *Node {
	e.tick()
	if len(t.args) == 0 && len(t.poly) == 0 && len(t.nodes) == 0 || c.names && t.op == "lpn" {
		return e.asNode(t)
	}
	if t.op == "poly" {
		r := e.cint(t.sort, 0)
		same := true
		var fs []*Node
		for _, m := range t.poly {
			for _, f := range m.f {
				g := e.substT(c, f)
				if g != e.leaf(f) {
					same = false
				}
				fs = append(fs, g)
			}
		}
		if same {
			return e.leaf(t)
		}
		i := 0
		for _, m := range t.poly {
			p := e.cbig(t.sort, m.c)
			for range m.f {
				p = e.op("mul", t.sort, p, fs[i])
				i++
			}
			r = e.op("add", t.sort, r, p)
		}
		return r
	}
	args := make([]*Node, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = e.substT(c, a)
		if args[i] != e.asNode(a) {
			same = false
		}
	}
	nodes := make([]*Node, len(t.nodes))
	for i, n := range t.nodes {
		nodes[i] = e.substN(c, n)
		if nodes[i] != n {
			same = false
		}
	}
	if same {
		return e.asNode(t)
	}
	switch t.op {
	case "qcomp":
		return e.comp(args[0], nodes[0], int(t.num.Int64()))
	case "bsum":
		return e.bsum(t.sort, args[0], nodes[0], int(t.num.Int64()))
	case "gate":
		if nodes[0].nleaf <= e.limit {
			return nodes[0]
		}
		return e.freeze(nodes[0])
	case "le0":
		return e.mapLeaves(args[0], func(x *Term) *Node { return e.le0(x) })
	}
	if len(t.nodes) > 0 {
		// opaque binder-like term
		ts := make([]*Term, len(args))
		for i, a := range args {
			f := e.freeze(a)
			if f.term == nil {
				undecided("case split inside %s", t.op)
			}
			ts[i] = f.term
		}
		x := e.mk(&Term{op: t.op, sort: t.sort, str: t.str, num: t.num, args: ts, nodes: nodes})
		return e.asNode(x)
	}
	return e.build(t.op, t.sort, t.str, t.num, args...)
}

// mentions reports whether any of the terms occurs in n.
func (e *Eng) mentions(n *Node, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	seenN := map[*Node]bool{}
	var wt func(*Term) bool
	var wn func(*Node) bool
	wt = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if wt(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, f := range m.f {
				if wt(f) {
					return true
				}
			}
		}
		for _, k := range t.nodes {
			if wn(k) {
				return true
			}
		}
		return false
	}
	wn = func(n *Node) bool {
		if seenN[n] {
			return false
		}
		seenN[n] = true
		if n.term != nil {
			return wt(n.term)
		}
		return wt(n.atom) || wn(n.hi) || wn(n.lo)
	}
	return wn(n)
}

// findTerms collects the terms satisfying f anywhere in n.
func findTerms(n *Node, f func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	seenN := map[*Node]bool{}
	var out []*Term
	var wt func(*Term)
	var wn func(*Node)
	wt = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if f(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			wt(a)
		}
		for _, m := range t.poly {
			for _, g := range m.f {
				wt(g)
			}
		}
		for _, k := range t.nodes {
			wn(k)
		}
	}
	wn = func(n *Node) {
		if seenN[n] {
			return
		}
		seenN[n] = true
		if n.term != nil {
			wt(n.term)
			return
		}
		wt(n.atom)
		wn(n.hi)
		wn(n.lo)
	}
	wn(n)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

var _ = fmt.Sprint

// orIs decides x | c = k bit by bit: every bit of c is set in k, and the others
// are those of x. With one bit or two in c these are two values of x or four.
func (e *Eng) orIs(s Sort, or, k *Term) *Node {
	if or.op != "or" || len(or.args) != 2 || !k.isConst() || s == SU256 {
		return nil
	}
	x, c := or.args[0], or.args[1]
	if x.isConst() {
		x, c = c, x
	}
	if !c.isConst() || c.num.Sign() <= 0 || k.num.Sign() < 0 {
		return nil
	}
	if new(big.Int).And(c.num, k.num).Cmp(c.num) != 0 {
		return e.F
	}
	var bits []int
	for i := 0; i < c.num.BitLen(); i++ {
		if c.num.Bit(i) == 1 {
			bits = append(bits, i)
		}
	}
	if len(bits) > 2 {
		return nil
	}
	r := e.F
	for m := 0; m < 1<<len(bits); m++ {
		v := new(big.Int).Set(k.num)
		for i, b := range bits {
			v.SetBit(v, b, uint(m>>i&1))
		}
		r = e.or(r, e.eq0(e.pSub(s, x, e.cbig(s, v).term)))
	}
	return r
}

// apart: the greatest entry of a table if all others have fewer bits, and a mask of these.
func apart(tab string) (top, rest *big.Int) {
	var hi byte
	for i := 0; i < len(tab); i++ {
		hi = max(hi, tab[i])
	}
	var m byte
	for i := 0; i < len(tab); i++ {
		if tab[i] != hi {
			m |= tab[i]
		}
	}
	if m == 0 || bits.Len8(m) >= bits.Len8(hi) {
		return nil, big.NewInt(-1)
	}
	return big.NewInt(int64(hi)), big.NewInt(1<<bits.Len8(m) - 1)
}
