package main

import "math/big"

// ubound bounds a 256-bit number by the shape of the expression that gives it,
// nil when nothing better than the width is known.
func (e *Eng) ubound(t *Term) (lo, hi *big.Int) {
	if b, ok := e.ub[t]; ok {
		return b[0], b[1]
	}
	if e.ub == nil {
		e.ub, e.ubn = map[*Term][2]*big.Int{}, map[*Node][2]*big.Int{}
	}
	lo, hi = e.ubound1(t)
	e.ub[t] = [2]*big.Int{lo, hi}
	return
}

func (e *Eng) ubound1(t *Term) (lo, hi *big.Int) {
	lo, hi = zero, maxU256
	if t.sort != SU256 {
		return
	}
	switch t.op {
	case "c":
		return t.num, t.num
	case "gate":
		return e.uboundN(t.nodes[0])
	case "zext":
		if t.args[0].sort.unsigned() && t.args[0].sort.width() < 256 {
			return zero, new(big.Int).Sub(new(big.Int).Lsh(one, t.args[0].sort.width()), one)
		}
	case "and":
		if t.args[1].isConst() {
			return zero, t.args[1].num
		}
	case "udiv":
		l, h := e.ubound(t.args[0])
		dl, dh := e.ubound(t.args[1])
		if dl.Sign() > 0 {
			return new(big.Int).Div(l, dh), new(big.Int).Div(h, dl)
		}
		return zero, h
	case "umod":
		_, h := e.ubound(t.args[0])
		_, dh := e.ubound(t.args[1])
		if h.Cmp(dh) > 0 {
			h = dh
		}
		return zero, h
	case "poly":
		l, h := new(big.Int), new(big.Int)
		for _, m := range t.poly {
			if m.c.Sign() < 0 {
				return zero, maxU256
			}
			ml, mh := new(big.Int).Set(m.c), new(big.Int).Set(m.c)
			for _, f := range m.f {
				fl, fh := e.ubound(f)
				ml.Mul(ml, fl)
				mh.Mul(mh, fh)
				if mh.BitLen() > 1024 {
					return zero, maxU256
				}
			}
			l.Add(l, ml)
			h.Add(h, mh)
		}
		if h.BitLen() <= 256 {
			return l, h
		}
	}
	return
}

func (e *Eng) uboundN(n *Node) (lo, hi *big.Int) {
	if n.term != nil {
		return e.ubound(n.term)
	}
	if b, ok := e.ubn[n]; ok {
		return b[0], b[1]
	}
	lo, hi = e.uboundN(n.hi)
	l, h := e.uboundN(n.lo)
	if l.Cmp(lo) < 0 {
		lo = l
	}
	if h.Cmp(hi) > 0 {
		hi = h
	}
	e.ubn[n] = [2]*big.Int{lo, hi}
	return
}

// positive: the sign bit of a 256-bit number is clear.
func (e *Eng) positive(t *Term) bool {
	_, hi := e.ubound(t)
	return hi.BitLen() < 256
}
