package main

import (
	"fmt"
	"math/big"
	"time"
)

// accuracy decides how far the tick prices are from powers of 1.0001: an
// interval analysis of the table's value as a function of the tick. Every
// intermediate number is C·s^±(bits of |tick| seen so far), s = sqrt(1.0001), and
// the analysis keeps an interval for C. Truncations widen it, a test of a bit
// joins the intervals of its two cases.
type accuracy struct{}

func (accuracy) name() string { return "accuracy of the tick table" }

const (
	accPrec = 512
	accSlop = -400 // of every operation on intervals
	maxTick = 887272
)

type ratio struct {
	bits   uint32 // of |tick|
	sign   int    // of the exponent; 0 if lo and hi are still the number itself,
	val    uint32 // for these values of the bits
	lo, hi *big.Float
}

type bitCtx struct{ known, val uint32 }

type accKey struct {
	n   *Node
	sup uint32
	c   bitCtx
}

type accTerm struct {
	t *Term
	c bitCtx
}

type supKey struct {
	n   *Node
	sup uint32
}

func (c bitCtx) in(k uint32) bitCtx { return bitCtx{c.known & k, c.val & k} }

type acc struct {
	e     *Eng
	tick  *Term
	cas   int // ticks below zero, zero, above zero: -1, 0, 1
	base  *Term
	pw    [21]*big.Float // s^(2^i)
	terms map[accTerm]*ratio
	sups  map[*Term]uint32
	needs map[supKey]uint32
	nodes map[accKey]*ratio
	why   string
	nterm int
}

func accF(x float64) *big.Float  { return new(big.Float).SetPrec(accPrec).SetFloat64(x) }
func accI(n *big.Int) *big.Float { return new(big.Float).SetPrec(accPrec).SetInt(n) }

func (a *acc) give(format string, args ...interface{}) *ratio {
	if a.why == "" {
		a.why = fmt.Sprintf(format, args...)
	}
	return nil
}

// pow is s^k.
func (a *acc) pow(k uint32) *big.Float {
	r := accF(1)
	for i := range a.pw {
		if k>>uint(i)&1 == 1 {
			r.Mul(r, a.pw[i])
		}
	}
	return r
}

func (a *acc) widen(r *ratio) *ratio {
	d := new(big.Float).SetPrec(accPrec).SetMantExp(accF(1), accSlop)
	r.lo.Mul(r.lo, new(big.Float).SetPrec(accPrec).Sub(accF(1), d))
	r.hi.Mul(r.hi, new(big.Float).SetPrec(accPrec).Add(accF(1), d))
	return r
}

func accQuo(x, y *big.Float) *big.Float { return new(big.Float).SetPrec(accPrec).Quo(x, y) }
func accMul(x, y *big.Float) *big.Float { return new(big.Float).SetPrec(accPrec).Mul(x, y) }
func accAdd(x, y *big.Float) *big.Float { return new(big.Float).SetPrec(accPrec).Add(x, y) }
func accSub(x, y *big.Float) *big.Float { return new(big.Float).SetPrec(accPrec).Sub(x, y) }

// extent: the range of the number itself.
func (a *acc) extent(r *ratio) (least, most *big.Float) {
	k := r.bits
	if k > maxTick {
		k = maxTick
	}
	if r.sign == 0 {
		return r.lo, r.hi
	}
	p := a.pow(k)
	if r.sign < 0 {
		return accQuo(r.lo, p), r.hi
	}
	return r.lo, accMul(r.hi, p)
}

// off adds an absolute error between lo and hi to the number.
func (a *acc) off(r *ratio, lo, hi float64) *ratio {
	least, _ := a.extent(r)
	if least.Cmp(accF(2)) < 0 {
		return a.give("a number that may be zero")
	}
	q := &ratio{r.bits, r.sign, r.val, new(big.Float).Copy(r.lo), new(big.Float).Copy(r.hi)}
	q.lo.Mul(q.lo, accAdd(accF(1), accQuo(accF(lo), least)))
	q.hi.Mul(q.hi, accAdd(accF(1), accQuo(accF(hi), least)))
	return a.widen(q)
}

func (a *acc) times(r *ratio, c *big.Int) *ratio {
	if c.Sign() <= 0 {
		return a.give("a product with %s", c)
	}
	q := &ratio{r.bits, r.sign, r.val, accMul(r.lo, accI(c)), accMul(r.hi, accI(c))}
	if _, most := a.extent(q); most.Cmp(accI(p2(256))) >= 0 {
		return a.give("a product beyond 256 bits")
	}
	return a.widen(q)
}

func (a *acc) over(r *ratio, d *big.Int) *ratio {
	if d.Sign() <= 0 {
		return a.give("a quotient by %s", d)
	}
	q := a.widen(&ratio{r.bits, r.sign, r.val, accQuo(r.lo, accI(d)), accQuo(r.hi, accI(d))})
	return a.off(q, -1, 0)
}

// support: the bits a value is made from.
func (a *acc) support(t *Term) uint32 {
	if k, ok := a.sups[t]; ok {
		return k
	}
	var k uint32
	if t.op == "gate" {
		seen := map[*Node]bool{}
		var w func(n *Node)
		w = func(n *Node) {
			if seen[n] {
				return
			}
			seen[n] = true
			if n.term != nil {
				k |= a.support(n.term)
				return
			}
			if v, ok := a.ask(n.atom); ok {
				if v {
					w(n.hi)
				} else {
					w(n.lo)
				}
				return
			}
			if i, ok := a.bit(n.atom); ok {
				k |= 1 << uint(i)
			}
			w(n.hi)
			w(n.lo)
		}
		w(t.nodes[0])
	} else {
		for _, x := range t.args {
			k |= a.support(x)
		}
		for _, m := range t.poly {
			for _, x := range m.f {
				k |= a.support(x)
			}
		}
	}
	a.sups[t] = k
	return k
}

// missing: those of them that must be known before it can be told.
func (a *acc) missing(t *Term) uint32 {
	if t.op == "gate" {
		return a.need(t.nodes[0], a.support(t))
	}
	var k uint32
	for _, x := range t.args {
		k |= a.missing(x)
	}
	for _, m := range t.poly {
		for _, x := range m.f {
			k |= a.missing(x)
		}
	}
	return k
}

func (a *acc) term(t *Term, c bitCtx) *ratio {
	k := accTerm{t, c.in(a.missing(t))}
	if r, ok := a.terms[k]; ok {
		return r
	}
	a.nterm++
	r := a.term1(t, k.c)
	a.terms[k] = r
	return r
}

func (a *acc) term1(t *Term, c bitCtx) *ratio {
	switch {
	case t.sort != SU256:
		return a.give("a value of sort %s", t.sort)
	case t.isConst():
		if t.num.Sign() <= 0 {
			return a.give("the number %s", t.num)
		}
		return &ratio{0, 0, 0, accI(t.num), accI(t.num)}
	case t.op == "gate":
		return a.node(t.nodes[0], c, a.support(t))
	case t.op == "poly":
		var x *Term
		k, f := big.NewInt(0), big.NewInt(1)
		for _, m := range t.poly {
			switch {
			case len(m.f) == 0:
				k = m.c
			case len(m.f) == 1 && x == nil:
				x, f = m.f[0], m.c
			default:
				return a.give("the sum %s", clip(t.String()))
			}
		}
		if k.CmpAbs(p2(20)) > 0 {
			return a.give("the sum %s", clip(t.String()))
		}
		r := a.term(x, c)
		if r != nil {
			r = a.times(r, f)
		}
		if d, _ := accI(k).Float64(); r != nil && d != 0 {
			r = a.off(r, d, d)
		}
		return r
	case t.op == "shr" && t.args[1].isConst():
		if r := a.term(t.args[0], c); r != nil {
			return a.over(r, p2(int(t.args[1].num.Int64())))
		}
		return nil
	case t.op == "udiv" && t.args[1].isConst():
		if r := a.term(t.args[0], c); r != nil {
			return a.over(r, t.args[1].num)
		}
		return nil
	case t.op == "udiv" && t.args[0].isConst():
		r := a.term(t.args[1], c)
		if r == nil {
			return nil
		}
		n := accI(wrap(SU256, t.args[0].num))
		return a.off(a.widen(&ratio{r.bits, -r.sign, r.val, accQuo(n, r.hi), accQuo(n, r.lo)}), -1, 0)
	}
	return a.give("the value %s", clip(t.String()))
}

// bit: the atom says that a bit of |tick| is zero.
func (a *acc) bit(t *Term) (i int, ok bool) {
	if t.op != "le0" || len(t.args) != 1 || t.args[0].op != "and" {
		return 0, false
	}
	x := t.args[0]
	if len(x.args) != 2 {
		return 0, false
	}
	u, c := x.args[0], x.args[1]
	if u.isConst() {
		u, c = c, u
	}
	if !c.isConst() || c.num.Sign() <= 0 || c.num.TrailingZeroBits()+1 != uint(c.num.BitLen()) || c.num.BitLen() > 20 {
		return 0, false
	}
	if a.base == nil {
		a.base = u
	}
	return c.num.BitLen() - 1, a.base == u
}

// sign of the tick, if that is what the atom asks for.
func (a *acc) ask(t *Term) (val, ok bool) {
	if t.op != "le0" || len(t.args) != 1 {
		return
	}
	k, c := big.NewInt(0), 0
	for _, m := range a.e.monos(t.args[0]) {
		switch {
		case len(m.f) == 0:
			k = m.c
		case len(m.f) == 1 && m.f[0] == a.tick && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1):
			c = int(m.c.Int64())
		default:
			return
		}
	}
	switch {
	case c == 0:
	case k.Sign() == 0:
		return c*a.cas <= 0, true
	case k.Cmp(one) == 0:
		return c*a.cas < 0, true
	}
	return
}

// need: the bits without which some value below n is not known exactly.
func (a *acc) need(n *Node, sup uint32) uint32 {
	if k, ok := a.needs[supKey{n, sup}]; ok {
		return k
	}
	var k uint32
	if n.term != nil {
		k = sup &^ (a.support(n.term) &^ a.missing(n.term))
	} else if v, ok := a.ask(n.atom); ok {
		if v {
			k = a.need(n.hi, sup)
		} else {
			k = a.need(n.lo, sup)
		}
	} else {
		k = a.need(n.hi, sup) | a.need(n.lo, sup)
		if i, ok := a.bit(n.atom); ok {
			k &^= 1 << uint(i)
		}
	}
	a.needs[supKey{n, sup}] = k
	return k
}

// node: the value of a case distinction, in terms of the bits in sup.
func (a *acc) node(n *Node, c bitCtx, sup uint32) *ratio {
	k := accKey{n, sup, c.in(a.need(n, sup) | a.own(n))}
	if r, ok := a.nodes[k]; ok {
		return r
	}
	r := a.node1(n, k.c, sup)
	a.nodes[k] = r
	if len(a.nodes) > 200000 {
		return a.give("too many cases")
	}
	return r
}

// own: the bit tested first.
func (a *acc) own(n *Node) uint32 {
	if n.term == nil {
		if i, ok := a.bit(n.atom); ok {
			return 1 << uint(i)
		}
	}
	return 0
}

func (a *acc) node1(n *Node, c bitCtx, sup uint32) *ratio {
	if a.why != "" {
		return nil
	}
	if n.term != nil {
		r := a.term(n.term, c)
		if r == nil {
			return nil
		}
		return a.extend(r, c.in(sup))
	}
	if v, ok := a.ask(n.atom); ok {
		if v {
			return a.node(n.hi, c, sup)
		}
		return a.node(n.lo, c, sup)
	}
	b := a.own(n)
	if b == 0 {
		return a.join(a.node(n.hi, c, sup), a.node(n.lo, c, sup))
	}
	if c.known&b != 0 {
		if c.val&b == 0 {
			return a.node(n.hi, c, sup)
		}
		return a.node(n.lo, c, sup)
	}
	zero := a.node(n.hi, bitCtx{c.known | b, c.val}, sup)
	set := a.node(n.lo, bitCtx{c.known | b, c.val | b}, sup)
	return a.join(zero, set)
}

// extend: a value that does not depend on bits known here.
func (a *acc) extend(r *ratio, c bitCtx) *ratio {
	more := c.known &^ r.bits
	if more == 0 {
		return r
	}
	q := &ratio{r.bits | more, r.sign, 0, r.lo, r.hi}
	k := c.val & more
	if q.sign == 0 {
		q.val = r.val | k
		return q
	}
	return a.settle(q, q.sign, k)
}

// settle takes the power of the bits in k out of the interval.
func (a *acc) settle(r *ratio, sign int, k uint32) *ratio {
	p := a.pow(k)
	if sign < 0 {
		return a.widen(&ratio{r.bits, sign, 0, accMul(r.lo, p), accMul(r.hi, p)})
	}
	return a.widen(&ratio{r.bits, sign, 0, accQuo(r.lo, p), accQuo(r.hi, p)})
}

func (a *acc) join(x, y *ratio) *ratio {
	if x == nil || y == nil {
		return nil
	}
	if x.sign != y.sign || x.val != y.val {
		sign := x.sign + y.sign
		if x.sign == 0 && y.sign == 0 {
			if sign = -1; (y.val > x.val) == (y.lo.Cmp(x.lo) > 0) {
				sign = 1
			}
		}
		if x.sign == 0 {
			x = a.settle(x, sign, x.val)
		}
		if y.sign == 0 {
			y = a.settle(y, sign, y.val)
		}
	}
	if x.bits != y.bits || x.sign != y.sign {
		return a.give("cases that depend on different bits")
	}
	r := &ratio{x.bits, x.sign, x.val, x.lo, x.hi}
	if y.lo.Cmp(r.lo) < 0 {
		r.lo = y.lo
	}
	if y.hi.Cmp(r.hi) > 0 {
		r.hi = y.hi
	}
	return r
}

func (accuracy) run(p *Prog, deadline time.Time) []*outcome {
	o := &outcome{rule: "the price of every tick is within one part in 2^31 of a power of 1.0001 and above the one before", target: "tickmath.TickMath.GetSqrtRatioAtTick", status: "undecided"}
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Undecided)
			if o.note = fmt.Sprintf("internal error: %v", r); ok {
				o.note = u.msg
			}
		}
		o.wall = time.Since(t0)
	}()
	f := p.funcs["tickmath.zzCode_PriceAt"]
	if f == nil {
		o.note = "function not found"
		return []*outcome{o}
	}
	e := NewEng()
	e.deadline = deadline
	m := newMach(e, p.copy(), tableCfg())
	m.bootHeap()
	arg := m.param("tick", f.Params[0].Type()).(*Node)
	v, st := m.call(f, nil, []Val{arg}, m.entry())
	n := m.deep(st, v, f.Signature.Results().At(0).Type(), 0)
	o.fns = followed(m)
	var pw [21]*big.Float
	for i := range pw {
		if i == 0 {
			pw[i] = new(big.Float).SetPrec(accPrec).Sqrt(accQuo(accF(10001), accF(10000)))
		} else {
			pw[i] = accMul(pw[i-1], pw[i-1])
		}
	}
	unit, eps := accI(p2(96)), new(big.Float).SetPrec(accPrec).SetMantExp(accF(1), -31)
	lim := [2]*big.Float{accMul(unit, accSub(accF(1), eps)), accMul(unit, accAdd(accF(1), eps))}
	fresh := func(cas int) *acc {
		return &acc{e: e, tick: arg.term, cas: cas, pw: pw, terms: map[accTerm]*ratio{}, sups: map[*Term]uint32{}, needs: map[supKey]uint32{}, nodes: map[accKey]*ratio{}}
	}
	all := uint32(1<<20 - 1)
	for _, cas := range []int{-1, 1} {
		a := fresh(cas)
		r := a.node(n, bitCtx{}, all)
		o.nobs += len(a.nodes) + a.nterm
		x := arg
		if cas < 0 {
			x = e.op("neg", a.tick.sort, arg)
		}
		if r != nil && a.base != nil && e.leaf(a.base) == x && accurate(r, lim) && r.sign == cas && r.bits == all {
			continue
		}
		if o.note = "the analysis of accuracy does not know " + a.why; a.why == "" {
			o.note = "the interval is too wide, or in terms of other bits than those of the tick"
		}
	}
	// single ticks: zero, and those that show what the intervals left open
	ticks := []int64{0}
	if o.note != "" {
		for i := int64(1); i < maxTick; i *= 2 {
			ticks = append(ticks, i, -i, i+1, -i-1, i-1, 1-i)
		}
		ticks = append(ticks, maxTick, -maxTick, maxTick-1, 1-maxTick)
	}
	for _, t := range ticks {
		v := e.subst(n, map[*Term]*Node{arg.term: e.cint(arg.term.sort, t)})
		o.nobs++
		if v.term == nil || !v.term.isConst() || v.term.num.Sign() < 0 {
			if o.note == "" {
				o.note = fmt.Sprintf("the price of tick %d is not known", t)
			}
			continue
		}
		a := fresh(0)
		p := a.pow(uint32(max(t, -t)))
		if t < 0 {
			p = accQuo(accF(1), p)
		}
		if q := accQuo(accI(v.term.num), p); q.Cmp(lim[0]) < 0 || q.Cmp(lim[1]) > 0 {
			o.status = "violated"
			o.diffs = []Diff{{"price", fmt.Sprintf("tick %d: the price is %s times sqrt(1.0001)^%d · 2^96", t, accQuo(q, unit).Text('g', 20), t)}}
			return []*outcome{o}
		}
	}
	if o.note != "" {
		return []*outcome{o}
	}
	o.status = "ok"
	return []*outcome{o}
}

func accurate(r *ratio, lim [2]*big.Float) bool { return r.lo.Cmp(lim[0]) > 0 && r.hi.Cmp(lim[1]) < 0 }
