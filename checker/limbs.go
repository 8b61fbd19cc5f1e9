package main

// Exact arithmetic on machine words. In this mode a 64-bit word is kept as a sum
// of products over the integers modulo 2^64, and carries, high halves of products,
// shifts and masks are floors of such sums by powers of two. Sums of floors that
// add up to the floor of a sum cancel, so the order in which partial products and
// carries are accumulated does not matter.

import (
	"math/big"
	"sort"
)

func p2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }

// balanced writes c = 2^k q + r with -2^(k-1) < r <= 2^(k-1).
func balanced(c *big.Int, k int) (q, r *big.Int) {
	q, r = new(big.Int).DivMod(c, p2(k), new(big.Int))
	if r.Cmp(p2(k-1)) > 0 {
		r.Sub(r, p2(k))
		q.Add(q, one)
	}
	return
}

// zword is the integer value of a word-sized term that is not a sum.
func (e *Eng) zword(t *Term) *Term {
	if t.op == "n64" {
		return t.args[0]
	}
	return e.mk(&Term{op: "z64", sort: SBig, args: []*Term{t}})
}

// zlift is an integer congruent to the term modulo 2^64.
func (e *Eng) zlift(t *Term) *Term {
	var ms []mono
	for _, m := range e.monos(t) {
		_, c := balanced(m.c, 64)
		p := []mono{{c, nil}}
		for _, f := range m.f {
			p = mulMonos(p, e.monos(e.zword(f)))
		}
		ms = append(ms, p...)
	}
	return e.fromMonos(SBig, ms)
}

func mulMonos(a, b []mono) []mono {
	var out []mono
	for _, x := range a {
		for _, y := range b {
			out = append(out, mono{new(big.Int).Mul(x.c, y.c), sortTerms(append(append([]*Term(nil), x.f...), y.f...))})
		}
	}
	return out
}

// zval is the value of a word in [0, 2^64).
func (e *Eng) zval(t *Term) *Term {
	if t.isConst() {
		return e.cbig(SBig, t.num).term
	}
	l := e.zlift(t)
	f := e.zfloor(l, 64)
	return e.fromMonos(SBig, append(append([]mono(nil), e.monos(l)...), scale(e.monos(f), new(big.Int).Neg(p2(64)))...))
}

// zlow is an integer as a word.
func (e *Eng) zlow(t *Term) *Term {
	var ms []mono
	for _, m := range e.monos(t) {
		var f []*Term
		for _, x := range m.f {
			if x.op == "z64" {
				f = append(f, x.args[0])
			} else {
				f = append(f, e.mk(&Term{op: "n64", sort: SU64, args: []*Term{x}}))
			}
		}
		ms = append(ms, mono{m.c, sortTerms(f)})
	}
	return e.fromMonos(SU64, ms)
}

// zfloor is floor(t / 2^k).
func (e *Eng) zfloor(t *Term, k int) *Term {
	if k == 0 {
		return t
	}
	var out, rest []mono
	for _, m := range e.monos(t) {
		var q, r *big.Int
		if len(m.f) == 0 {
			q, r = new(big.Int).DivMod(m.c, p2(k), new(big.Int))
		} else {
			q, r = balanced(m.c, k)
		}
		if q.Sign() != 0 {
			out = append(out, mono{q, m.f})
		}
		if r.Sign() != 0 {
			rest = append(rest, mono{r, m.f})
		}
	}
	// a common power of two
	j := k
	var c0 *big.Int = zero
	for _, m := range rest {
		if len(m.f) == 0 {
			c0 = m.c
			continue
		}
		if z := int(m.c.TrailingZeroBits()); z < j {
			j = z
		}
	}
	if j > 0 {
		var r2 []mono
		for _, m := range rest {
			if len(m.f) > 0 {
				r2 = append(r2, mono{new(big.Int).Rsh(m.c, uint(j)), m.f})
			}
		}
		if c := new(big.Int).Rsh(c0, uint(j)); c.Sign() != 0 {
			r2 = append(r2, mono{c, nil})
		}
		k -= j
		r := e.fromMonos(SBig, r2)
		if k == 0 {
			return e.fromMonos(SBig, append(out, e.monos(r)...))
		}
		return e.fromMonos(SBig, append(out, e.monos(e.zfloor(r, k))...))
	}
	r := e.fromMonos(SBig, rest)
	lo, hi := e.zbound(r)
	if lo != nil && hi != nil {
		a, b := new(big.Int).Rsh(lo, uint(k)), new(big.Int).Rsh(hi, uint(k))
		if a.Cmp(b) == 0 {
			return e.fromMonos(SBig, append(out, mono{a, nil}))
		}
	}
	// a floor of a floor
	if ms := e.monos(r); len(ms) <= 2 && len(ms) > 0 && len(ms[0].f) == 1 && ms[0].c.Cmp(one) == 0 && ms[0].f[0].op == "zshr" && (len(ms) == 1 || len(ms[1].f) == 0) {
		in := ms[0].f[0]
		k2 := int(in.num.Int64())
		p := e.monos(in.args[0])
		if len(ms) == 2 {
			p = append(append([]mono(nil), p...), mono{new(big.Int).Mul(ms[1].c, p2(k2)), nil})
		}
		return e.fromMonos(SBig, append(out, e.monos(e.zfloor(e.fromMonos(SBig, p), k+k2))...))
	}
	f := e.mk(&Term{op: "zshr", sort: SBig, num: big.NewInt(int64(k)), args: []*Term{r}})
	return e.fromMonos(SBig, append(out, mono{one, []*Term{f}}))
}

// zbound: an interval containing an exact integer.
func (e *Eng) zbound(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "c":
		return t.num, t.num
	case "z64":
		x := t.args[0]
		if x.op == "cv" && x.args[0].sort.unsigned() && x.args[0].sort.width() < 64 {
			return zero, new(big.Int).Sub(p2(int(x.args[0].sort.width())), one)
		}
		if x.op == "and" && x.args[len(x.args)-1].isConst() {
			return zero, x.args[len(x.args)-1].num
		}
		return zero, new(big.Int).Sub(p2(64), one)
	case "zshr":
		lo, hi = e.zbound(t.args[0])
		if lo == nil || hi == nil {
			return nil, nil
		}
		k := uint(t.num.Int64())
		return new(big.Int).Rsh(lo, k), new(big.Int).Rsh(hi, k)
	case "poly":
		if b, ok := e.zbounds[t]; ok {
			return b[0], b[1]
		}
		defer func() {
			if e.zbounds == nil {
				e.zbounds = map[*Term][2]*big.Int{}
			}
			e.zbounds[t] = [2]*big.Int{lo, hi}
		}()
		ms, l0, h0 := e.digits(t.poly)
		ms, l1, h1 := e.carries(ms)
		lo, hi = new(big.Int).Add(l0, l1), new(big.Int).Add(h0, h1)
		for _, m := range ms {
			l, h := m.c, m.c
			for _, f := range m.f {
				a, b := e.zbound(f)
				if a == nil || b == nil {
					return nil, nil
				}
				l, h = imul(l, h, a, b)
			}
			lo, hi = new(big.Int).Add(lo, l), new(big.Int).Add(hi, h)
		}
		return lo, hi
	}
	return nil, nil
}

// digits: shifts of one number overlap in their bits. Their sum is bounded by way
// of the groups of bits they consist of; the other products are returned.
func (e *Eng) digits(ms []mono) (rest []mono, lo, hi *big.Int) {
	type part struct {
		k int
		c *big.Int
		m mono
	}
	groups := map[*Term][]part{}
	var order []*Term
	lo, hi = zero, zero
	for _, m := range ms {
		if len(m.f) != 1 {
			rest = append(rest, m)
			continue
		}
		b, k := m.f[0], 0
		if b.op == "zshr" {
			b, k = b.args[0], int(b.num.Int64())
		}
		if groups[b] == nil {
			order = append(order, b)
		}
		groups[b] = append(groups[b], part{k, m.c, m})
	}
	for _, b := range order {
		ps := groups[b]
		if len(ps) == 1 {
			rest = append(rest, ps[0].m)
			continue
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].k < ps[j].k })
		acc := zero
		l0, h0 := zero, zero
		for i, p := range ps {
			if i > 0 {
				acc = new(big.Int).Lsh(acc, uint(p.k-ps[i-1].k))
			}
			acc = new(big.Int).Add(acc, p.c)
			var l, h *big.Int
			if i+1 < len(ps) {
				l, h = zero, new(big.Int).Sub(p2(ps[i+1].k-p.k), one)
			} else {
				if l, h = e.zbound(p.m.f[0]); l == nil || h == nil {
					l0 = nil
					break
				}
			}
			l, h = imul(l, h, acc, acc)
			l0, h0 = new(big.Int).Add(l0, l), new(big.Int).Add(h0, h)
		}
		if l0 == nil {
			for _, p := range ps {
				rest = append(rest, p.m)
			}
			continue
		}
		lo, hi = new(big.Int).Add(lo, l0), new(big.Int).Add(hi, h0)
	}
	return
}

// carries: the difference of two floors is bounded by the difference of what they
// are floors of. Such pairs are bounded together; the other products are returned.
func (e *Eng) carries(ms []mono) (rest []mono, lo, hi *big.Int) {
	lo, hi = zero, zero
	rest = ms
	shr := func(m mono) *Term {
		if len(m.f) == 1 && m.f[0].op == "zshr" {
			return m.f[0]
		}
		return nil
	}
	for {
		bi, bj := -1, -1
		var bl, bh *big.Int
		for i, a := range rest {
			fa := shr(a)
			if fa == nil || a.c.Sign() < 0 {
				continue
			}
			for j, b := range rest {
				fb := shr(b)
				if fb == nil || b.c.Sign() > 0 || fa.num.Cmp(fb.num) != 0 || new(big.Int).Neg(b.c).Cmp(a.c) != 0 {
					continue
				}
				d := e.fromMonos(SBig, append(append([]mono(nil), e.monos(fa.args[0])...), scale(e.monos(fb.args[0]), big.NewInt(-1))...))
				l, h := e.zbound(d)
				if l == nil || h == nil {
					continue
				}
				k := uint(fa.num.Int64())
				l = new(big.Int).Rsh(l, k)
				h = new(big.Int).Rsh(new(big.Int).Add(h, new(big.Int).Sub(p2(int(k)), one)), k)
				if bi < 0 || new(big.Int).Sub(h, l).Cmp(new(big.Int).Sub(bh, bl)) < 0 {
					bi, bj, bl, bh = i, j, l, h
				}
			}
		}
		if bi < 0 {
			return
		}
		c := rest[bi].c
		lo, hi = new(big.Int).Add(lo, new(big.Int).Mul(c, bl)), new(big.Int).Add(hi, new(big.Int).Mul(c, bh))
		var r []mono
		for i, m := range rest {
			if i != bi && i != bj {
				r = append(r, m)
			}
		}
		rest = r
	}
}

func imul(a, b, c, d *big.Int) (lo, hi *big.Int) {
	for i, p := range []*big.Int{new(big.Int).Mul(a, c), new(big.Int).Mul(a, d), new(big.Int).Mul(b, c), new(big.Int).Mul(b, d)} {
		if i == 0 || p.Cmp(lo) < 0 {
			lo = p
		}
		if i == 0 || p.Cmp(hi) > 0 {
			hi = p
		}
	}
	return
}

func (e *Eng) zsum(ts ...*Term) *Term {
	var ms []mono
	for _, t := range ts {
		ms = append(ms, e.monos(t)...)
	}
	return e.fromMonos(SBig, ms)
}

// limbOp gives word operations their exact meaning.
func (e *Eng) limbOp(op string, srt Sort, a []*Term) *Node {
	switch op {
	case "carry":
		return e.leaf(e.zlow(e.zfloor(e.zsum(e.zval(a[0]), e.zval(a[1]), e.zval(a[2])), 64)))
	case "borrow":
		return e.ite(e.ult(a[0], a[1]), e.cint(srt, 1), e.ite(e.eq0(e.pSub(srt, a[0], a[1])), e.leaf(a[2]), e.cint(srt, 0)))
	case "umulh":
		return e.leaf(e.zlow(e.zfloor(e.fromMonos(SBig, mulMonos(e.monos(e.zval(a[0])), e.monos(e.zval(a[1])))), 64)))
	case "shr":
		if srt == SU64 && a[1].isConst() && a[1].num.Cmp(big.NewInt(64)) < 0 {
			return e.leaf(e.zlow(e.zfloor(e.zval(a[0]), int(a[1].num.Int64()))))
		}
	case "and":
		if srt == SU64 && len(a) == 2 {
			for i, m := range a {
				if m.isConst() {
					if n := e.maskOp(a[1-i], m.num); n != nil {
						return n
					}
				}
			}
		}
	case "or", "xor":
		if srt == SU64 {
			if op == "or" && len(a) == 2 {
				for i, m := range a {
					if x := a[1-i]; m.isConst() && !x.isConst() {
						if n := e.maskOp(x, m.num); n != nil && n.term != nil {
							return e.leaf(e.pAdd(SU64, e.pSub(SU64, x, n.term), m))
						}
					}
				}
			}
			return e.disjoint(op, a)
		}
	case "cv":
		x := a[0]
		if srt == SU64 && x.op == "cv" && x.args[0].sort == SU64 && x.sort.unsigned() {
			return e.maskOp(x.args[0], new(big.Int).Sub(p2(int(x.sort.width())), one))
		}
	}
	return nil
}

// maskOp selects a run of bits.
func (e *Eng) maskOp(t *Term, mask *big.Int) *Node {
	if mask.Sign() == 0 {
		return nil
	}
	lo := int(mask.TrailingZeroBits())
	hi := mask.BitLen()
	if new(big.Int).Sub(p2(hi), p2(lo)).Cmp(mask) != 0 {
		return nil
	}
	v := e.zval(t)
	a := scale(e.monos(e.zfloor(v, lo)), p2(lo))
	if lo == 0 {
		a = e.monos(v)
	}
	b := e.monos(e.zfloor(v, hi))
	return e.leaf(e.zlow(e.fromMonos(SBig, append(append([]mono(nil), a...), scale(b, new(big.Int).Neg(p2(hi)))...))))
}

// bitsOf: the bits of a word that can be set lie in [lo, hi).
func (e *Eng) bitsOf(t *Term) (lo, hi int) {
	if t.isConst() {
		return int(t.num.TrailingZeroBits()), t.num.BitLen()
	}
	lo, hi = 64, 64
	v := e.zval(t)
	for _, m := range e.monos(v) {
		if z := int(m.c.TrailingZeroBits()); z < lo {
			lo = z
		}
	}
	if l, h := e.zbound(v); l != nil && l.Sign() >= 0 && h != nil && h.BitLen() < 64 {
		hi = h.BitLen()
	}
	return
}

// disjoint: or of words without a common bit is their sum.
func (e *Eng) disjoint(op string, a []*Term) *Node {
	var flat []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == op {
			for _, x := range t.args {
				fl(x)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, t := range a {
		fl(t)
	}
	done := false
	for again := true; again; {
		again = false
		for i := 0; i < len(flat) && !again; i++ {
			for j := i + 1; j < len(flat) && !again; j++ {
				if flat[i] == flat[j] {
					continue
				}
				l1, h1 := e.bitsOf(flat[i])
				l2, h2 := e.bitsOf(flat[j])
				if h1 <= l2 || h2 <= l1 {
					flat[i] = e.pAdd(SU64, flat[i], flat[j])
					flat = append(flat[:j], flat[j+1:]...)
					again, done = true, true
				}
			}
		}
	}
	if !done {
		return nil
	}
	if len(flat) == 1 {
		return e.leaf(flat[0])
	}
	return e.bitop(op, SU64, flat)
}

// limbEq0 decides whether a word with two possible values is zero.
func (e *Eng) limbEq0(d *Term) *Node {
	l := e.zlift(d)
	c0, g := zero, zero
	var lin []mono
	for _, m := range e.monos(l) {
		if len(m.f) == 0 {
			c0 = m.c
			continue
		}
		lin = append(lin, m)
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if len(lin) == 0 {
		return nil
	}
	if lin[0].c.Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	for i := range lin {
		lin[i] = mono{new(big.Int).Quo(lin[i].c, g), lin[i].f}
	}
	b := e.fromMonos(SBig, lin)
	lo, hi := e.zbound(b)
	if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(one) > 0 {
		return nil
	}
	val := func(v *big.Int) bool {
		return wrap(SU64, new(big.Int).Add(new(big.Int).Mul(g, v), c0)).Sign() == 0
	}
	if lo.Cmp(hi) == 0 {
		return e.cbool(val(lo))
	}
	z := zero // the value the literal is about
	other := hi
	if hi.Sign() == 0 {
		other = lo
	} else if lo.Sign() != 0 {
		return nil
	}
	at := e.raw("eq0", SBool, "", e.zlow(b))
	switch zeroIs, otherIs := val(z), val(other); {
	case zeroIs && otherIs:
		return e.T
	case zeroIs:
		return at
	case otherIs:
		return e.not(at)
	}
	return e.F
}
