package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Congruence closure over the equalities among the literals: equal operands
// give equal results, whatever the operation is.

type classes struct {
	e    *Eng
	up   map[*Term]*Term
	seen []*Term
	in   map[*Term]bool
}

func (c *classes) find(t *Term) *Term {
	for c.up[t] != nil {
		t = c.up[t]
	}
	return t
}

func (c *classes) add(t *Term) {
	if c.in[t] || len(c.seen) > 600 {
		return
	}
	c.in[t] = true
	if t.op == "lpn" {
		c.seen = append(c.seen, t)
		return
	}
	for _, a := range t.args {
		c.add(a)
	}
	for _, m := range t.poly {
		for _, f := range m.f {
			c.add(f)
		}
	}
	c.seen = append(c.seen, t)
}

func (c *classes) union(a, b *Term) bool {
	a, b = c.find(a), c.find(b)
	if a == b {
		return false
	}
	if b.isConst() || !a.isConst() && b.id < a.id {
		a, b = b, a
	}
	c.up[b] = a
	return true
}

// sig describes a term up to the classes of its parts.
func (c *classes) sig(t *Term) string {
	var b strings.Builder
	if t.op == "poly" {
		k := big.NewInt(0)
		cs := map[string]*big.Int{}
		for _, m := range t.poly {
			v := new(big.Int).Set(m.c)
			var ids []int
			for _, f := range m.f {
				if r := c.find(f); r.isConst() {
					v.Mul(v, r.num)
				} else {
					ids = append(ids, r.id)
				}
			}
			if len(ids) == 0 {
				k.Add(k, v)
				continue
			}
			sort.Ints(ids)
			key := ""
			for _, i := range ids {
				key += strconv.Itoa(i) + "*"
			}
			if cs[key] == nil {
				cs[key] = new(big.Int)
			}
			cs[key].Add(cs[key], v)
		}
		if w := t.sort.width(); w > 0 {
			k.Mod(k, p2(int(w)))
			for _, v := range cs {
				v.Mod(v, p2(int(w)))
			}
		}
		var ks []string
		for key, v := range cs {
			if v.Sign() != 0 {
				ks = append(ks, v.String()+key)
			}
		}
		sort.Strings(ks)
		return "P" + strconv.Itoa(int(t.sort)) + "|" + strings.Join(ks, "+") + "|" + k.String()
	}
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(int(t.sort)))
	b.WriteByte('|')
	b.WriteString(t.str)
	if t.num != nil {
		b.WriteByte('#')
		b.WriteString(t.num.String())
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(c.find(a).id))
	}
	for _, n := range t.nodes {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(n.id))
	}
	return b.String()
}

// congruence builds the classes; nil when there is no equality to start from.
func (e *Eng) congruence(ls []lit, more ...*Term) *classes {
	c := &classes{e: e, up: map[*Term]*Term{}, in: map[*Term]bool{}}
	any := false
	for _, l := range ls {
		if !l.pos || l.a.op != "eq0" && l.a.op != "eqs" {
			continue
		}
		if l.a.op == "eqs" {
			c.add(l.a.args[0])
			c.add(l.a.args[1])
			any = c.union(l.a.args[0], l.a.args[1]) || any
			continue
		}
		d := l.a.args[0]
		var ms []mono
		for _, m := range e.monos(d) {
			// small coefficients
			if d.sort.unsigned() {
				if h := new(big.Int).Sub(m.c, p2(int(d.sort.width()))); h.CmpAbs(m.c) < 0 {
					m.c = h
				}
			}
			ms = append(ms, m)
		}
		var x, y *Term
		switch {
		case len(ms) == 1 && len(ms[0].f) == 1:
			x, y = ms[0].f[0], e.cint(d.sort, 0).term
		case len(ms) == 2 && len(ms[0].f) == 1 && ms[0].c.CmpAbs(one) == 0:
			if len(ms[1].f) == 0 {
				v := new(big.Int).Neg(ms[1].c)
				if ms[0].c.Sign() < 0 {
					v.Neg(v)
				}
				x, y = ms[0].f[0], e.cbig(d.sort, v).term
			} else if len(ms[1].f) == 1 && new(big.Int).Add(ms[0].c, ms[1].c).Sign() == 0 {
				x, y = ms[0].f[0], ms[1].f[0]
			}
		}
		if x == nil {
			continue
		}
		c.add(x)
		c.add(y)
		any = c.union(x, y) || any
	}
	if !any {
		return nil
	}
	for _, l := range ls {
		c.add(l.a)
	}
	for _, t := range more {
		c.add(t)
	}
	for again := true; again; {
		again = false
		by := map[string]*Term{}
		for _, t := range c.seen {
			if len(t.args) == 0 && t.poly == nil || t.op == "lpn" {
				continue
			}
			s := c.sig(t)
			if o := by[s]; o == nil {
				by[s] = t
			} else if c.union(o, t) {
				again = true
			}
		}
		e.tick()
	}
	return c
}

// congContradiction: the literals contradict one another by the classes alone.
func (e *Eng) congContradiction(ls []lit) bool {
	c := e.congruence(ls)
	if c == nil {
		return false
	}
	// two constants in one class
	for _, t := range c.seen {
		if t.isConst() {
			if r := c.find(t); r != t && r.isConst() && r.num.Cmp(t.num) != 0 {
				return true
			}
		}
	}
	val := map[*Term]bool{}
	for _, l := range ls {
		r := c.find(l.a)
		if v, ok := val[r]; ok && v != l.pos {
			return true
		}
		val[r] = l.pos
		if !l.pos && l.a.op == "eqs" && c.find(l.a.args[0]) == c.find(l.a.args[1]) {
			return true
		}
		if !l.pos && l.a.op == "eq0" {
			if s := c.sig(l.a.args[0]); l.a.args[0].op == "poly" && strings.HasSuffix(s, "||0") {
				return true
			}
		}
	}
	return false
}
