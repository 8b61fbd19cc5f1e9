package main

// Case conditions that exclude each other. A case split whose conditions
// contradict one another by order, equality or linear arithmetic is not a case.

import (
	"math/big"
	"sort"
	"strings"
)

type lit struct {
	a   *Term
	pos bool
}

// equalities that hold where the literals do, as a substitution.
func (e *Eng) equalities(ls []lit, in ...*Node) map[*Term]*Node {
	sub, _ := e.equalities2(ls, in...)
	return sub
}

// equalities2 also gives equalities that follow because equal operations on
// equal operands have equal results.
func (e *Eng) equalities2(ls []lit, in ...*Node) (map[*Term]*Node, []lit) {
	sub := map[*Term]*Node{}
	type kk struct{ s string }
	le := map[*Term]bool{}
	for _, l := range ls {
		if l.a.op == "le0" && l.pos {
			le[l.a.args[0]] = true
		}
	}
	var zeros []*Term
	for _, l := range ls {
		switch l.a.op {
		case "eq0":
			if l.pos {
				zeros = append(zeros, l.a.args[0])
			} else if d := l.a.args[0]; e.limbs && d.sort == SU64 {
				// not zero: the other of two values
				if lo, hi := e.zbound(e.zlift(d)); lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(one) == 0 {
					v := lo
					if lo.Sign() == 0 {
						v = hi
					}
					zeros = append(zeros, e.pSub(SU64, d, e.cbig(SU64, v).term))
				}
			}
		case "le0":
			// d <= 0 and not (d <= -1)
			d := l.a.args[0]
			if l.pos {
				d1 := e.fromMonos(SBig, append(append([]mono(nil), e.monos(d)...), mono{one, nil}))
				for _, k := range ls {
					if k.a.op == "le0" && !k.pos && k.a.args[0] == d1 {
						zeros = append(zeros, d)
					}
				}
			}
		case "divides":
			if l.pos {
				r := e.mkTerm("trem", SI64, "", nil, l.a.args)
				if r.term != nil && !r.term.isConst() {
					sub[r.term] = e.cint(SI64, 0)
				}
			}
		case "isnil":
			if l.pos {
				sub[l.a.args[0]] = e.nilRef()
			}
		case "eqr", "eqs":
			if l.pos {
				x, y := l.a.args[0], l.a.args[1]
				if x.op == "s" || x.op == "par" || y.op == "var" {
					x, y = y, x
				}
				if x.sort != SBool && sub[x] == nil {
					sub[x] = e.asNode(y)
				}
			}
		case "mhas":
			if !l.pos && !memMap(l.a.args[0]) {
				// what is not there reads as zero
				m, k := l.a.args[0], l.a.args[1]
				ns := append([]*Node(nil), in...)
				for _, o := range ls {
					ns = append(ns, e.atom(o.a))
				}
				for _, o := range ns {
					for _, t := range findTerms(o, func(t *Term) bool {
						return t.op == "mget" && t.args[0] == m && t.args[1] == k && t.sort != SBool && t.sort != SRec
					}) {
						sub[t] = e.zeroTerm(t.sort, "")
					}
				}
			}
		}
	}
	nult := 0
	for _, l := range ls {
		if l.a.op == "ult" && !l.pos {
			nult++
		}
	}
	if nult >= 2 {
		_, eqs := e.order(ls, true)
		for _, q := range eqs {
			if d := e.pSub(q[0].sort, q[0], q[1]); !d.isConst() {
				zeros = append(zeros, d)
			}
		}
	}
	nflt := 0
	for _, l := range ls {
		if l.a.op == "flt" && !l.pos {
			nflt++
		}
	}
	if nflt >= 2 {
		_, eqs := e.floatOrder(ls, true)
		for _, q := range eqs {
			x, y := q[0], q[1]
			if _, ok := x.float(); ok || !e.mentions(e.leaf(y), map[*Term]bool{x: true}) && x.id < y.id {
				x, y = y, x
			}
			if sub[x] == nil && !e.mentions(e.leaf(y), map[*Term]bool{x: true}) {
				sub[x] = e.leaf(y)
			}
		}
	}
	for _, n := range in {
		// remainders of numbers below the divisor
		for _, t := range findTerms(n, func(t *Term) bool {
			return (t.op == "trem" || t.op == "tdiv") && t.sort == SI64 && !t.args[0].isConst()
		}) {
			if e.neverUnder(ls, e.op("lt", SBool, e.leaf(t.args[0]), e.cint(SI64, 0))) && e.neverUnder(ls, e.op("le", SBool, e.leaf(t.args[1]), e.leaf(t.args[0]))) {
				if sub[t] = e.leaf(t.args[0]); t.op == "tdiv" {
					sub[t] = e.cint(SI64, 0)
				}
			}
		}
	}
	if e.divCases {
		// a number without high words is its lowest word
		high := map[*Term]int{}
		for _, d := range zeros {
			if d.op == "word" && d.num.Sign() > 0 {
				if high[d.args[0]]++; high[d.args[0]] == 3 {
					p := e.leaf(d.args[0])
					if z := e.zext(e.word(p, 0)); z.term != nil {
						sub[z.term] = p
					}
				}
			}
		}
	}
	done := map[*Term]*Node{}
	for _, d := range zeros {
		if e.divCases && d.op == "word" {
			continue // better left as part of its number
		}
		if len(done) > 0 {
			for i := 0; i < 3; i++ {
				n := e.rewrite(e.leaf(d), done)
				if n.term == nil || n.term == d {
					break
				}
				d = n.term
			}
			if d.isConst() {
				continue
			}
		}
		ms := e.monos(d)
		best := -1
		for i, m := range ms {
			if len(m.f) != 1 || m.c.CmpAbs(one) != 0 {
				c := wrap(d.sort, new(big.Int).Neg(m.c))
				if len(m.f) != 1 || c.Cmp(one) != 0 {
					continue
				}
			}
			if sub[m.f[0]] != nil {
				continue
			}
			// prefer the newest, most specific term
			if best < 0 || m.f[0].id > ms[best].f[0].id {
				occ := false
				for j, n := range ms {
					if j == i {
						continue
					}
					for _, f := range n.f {
						if f == m.f[0] || e.mentions(e.asNode(f), map[*Term]bool{m.f[0]: true}) {
							occ = true
						}
					}
				}
				if !occ {
					best = i
				}
			}
		}
		if best < 0 {
			continue
		}
		x := ms[best].f[0]
		var rest []mono
		for j, n := range ms {
			if j != best {
				rest = append(rest, n)
			}
		}
		if ms[best].c.Cmp(one) == 0 {
			rest = scale(rest, big.NewInt(-1))
		}
		srt := x.sort
		sub[x] = e.leaf(e.fromMonos(srt, rest))
		done[x] = sub[x]
	}
	return sub, e.closeSub(sub)
}

// neverUnder: linear arithmetic excludes n where the literals hold.
func (e *Eng) neverUnder(ls []lit, n *Node) bool {
	if n == e.F {
		return true
	}
	if n.term != nil || n.hi.term == nil || n.lo.term == nil {
		return false
	}
	return e.linContradiction(append(append([]lit(nil), ls...), lit{n.atom, n.hi == e.T}))
}

// closeSub adds the forms the replaced terms take when their own operands are
// replaced.
func (e *Eng) closeSub(sub map[*Term]*Node) (more []lit) {
	if len(sub) < 2 {
		return
	}
	var ks []*Term
	for k := range sub {
		if strings.HasPrefix(k.op, "out") || k.op == "sel" || k.op == "rf" {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	c := &substCtx{m: sub, terms: map[*Term]*Node{}, nodes: map[*Node]*Node{}, names: true}
	for _, k := range ks {
		n := e.substT1(c, k)
		if n.term == nil || n.term == k || n.term.isConst() {
			continue
		}
		if v, w := sub[n.term], sub[k]; v == nil {
			sub[n.term] = w
		} else if v != w && k.sort.arith() && v.term != nil && w.term != nil {
			if d := e.op("eq", SBool, v, w); d.term == nil && d.hi == e.T && d.lo == e.F {
				more = append(more, lit{d.atom, true})
			}
		}
	}
	return
}

// openings gives the gates the literals decide, in part or in whole.
func (e *Eng) openings(ls []lit, in ...*Node) map[*Term]*Node {
	sub := map[*Term]*Node{}
	var cond *Node
	gate := func(g *Term) {
		if sub[g] != nil {
			return
		}
		if cond == nil {
			cond = e.T
			for _, l := range ls {
				cond = e.and(cond, e.litNode(l))
			}
		}
		if cond == e.F {
			return
		}
		if r := e.restrict(g.nodes[0], cond); r != g.nodes[0] && r.nleaf < g.nodes[0].nleaf {
			sub[g] = r
		}
	}
	for _, l := range ls {
		for _, g := range e.gatesIn(e.atom(l.a)) {
			gate(g)
		}
	}
	for _, n := range in {
		for _, g := range e.gatesIn(n) {
			gate(g)
		}
	}
	return sub
}

// simpler rewrites literals by a substitution; ok is false when they contradict
// one another.
func (e *Eng) simpler(ls []lit, sub map[*Term]*Node) (out []lit, changed, ok bool) {
	for _, l := range ls {
		n := e.rewrite(e.atom(l.a), sub)
		if n == e.atom(l.a) {
			out = append(out, l)
			continue
		}
		if !l.pos {
			n = e.not(n)
		}
		if n == e.F {
			return nil, true, false
		}
		if n == e.T {
			continue
		}
		changed = true
		if n.term == nil && n.hi.term != nil && n.lo.term != nil {
			out = append(out, lit{n.atom, n.hi == e.T})
		}
	}
	return out, changed, true
}

func (e *Eng) applyEq(n *Node, ls []lit) *Node {
	if op := e.openings(ls, n); len(op) > 0 {
		n = e.rewrite(n, op)
		if l2, _, ok := e.simpler(ls, op); ok {
			ls = l2
		}
	}
	sub := e.equalities(ls, n)
	if len(sub) == 0 {
		return n
	}
	for i := 0; i < 3; i++ {
		n2 := e.rewrite(n, sub)
		if n2 == n {
			break
		}
		n = n2
	}
	return n
}

func (e *Eng) litNode(l lit) *Node {
	n := e.atom(l.a)
	if !l.pos {
		n = e.not(n)
	}
	return n
}

// infeasible reports that the literals contradict one another.
func (e *Eng) infeasible(ls []lit) bool { return e.infeasible1(ls, 2) }

func (e *Eng) infeasible1(ls []lit, depth int) bool {
	if e.ordContradiction(ls) || e.linContradiction(ls) || e.floatContradiction(ls) || e.divContradiction(ls) {
		return true
	}
	if op := e.openings(ls); len(op) > 0 {
		l2, changed, ok := e.simpler(ls, op)
		if !ok || changed && (e.propContradiction(l2) || depth > 0 && e.infeasible1(l2, depth-1)) {
			return true
		}
		ls = l2
	}
	sub, more := e.equalities2(ls)
	if len(more) > 0 {
		ls = append(append([]lit(nil), ls...), more...)
		if e.propContradiction(ls) {
			return true
		}
		if depth > 0 && e.infeasible1(ls, depth-1) {
			return true
		}
	}
	// plain variables first, so that equal calls on them are recognised
	plain := map[*Term]*Node{}
	for k, v := range sub {
		if k.op == "in" || k.op == "par" || k.op == "rd" || k.op == "var" {
			plain[k] = v
		}
	}
	if len(plain) > 0 && len(plain) < len(sub) {
		l2, changed, ok := e.simpler(ls, plain)
		if !ok || changed && (e.propContradiction(l2) || depth > 0 && e.infeasible1(l2, depth-1)) {
			return true
		}
	}
	if len(sub) > 0 {
		l2 := ls
		any := false
		for i := 0; i < 3; i++ {
			// again for the terms that become equal to ones replaced
			l3, changed, ok := e.simpler(l2, sub)
			if !ok || changed && e.propContradiction(l3) {
				return true
			}
			l2, any = l3, any || changed
			if !changed {
				break
			}
		}
		if any && depth > 0 && e.infeasible1(l2, depth-1) {
			return true
		}
	}
	return depth == 2 && e.congContradiction(ls)
}

func (e *Eng) propContradiction(ls []lit) bool {
	v := map[*Term]bool{}
	for _, l := range ls {
		if p, ok := v[l.a]; ok && p != l.pos {
			return true
		}
		v[l.a] = l.pos
	}
	return false
}

// ordContradiction: cycles in the order of unsigned numbers.
func (e *Eng) ordContradiction(ls []lit) bool {
	bad, _ := e.order(ls, false)
	return bad
}

// order also gives the numbers that must be equal because each is no more than
// the other.
func (e *Eng) order(ls []lit, wantEq bool) (bool, [][2]*Term) {
	type edge struct {
		to     int
		strict bool
	}
	idx := map[*Term]int{}
	var ts []*Term
	var adj [][]edge
	node := func(t *Term) int {
		if i, ok := idx[t]; ok {
			return i
		}
		idx[t] = len(ts)
		ts = append(ts, t)
		adj = append(adj, nil)
		return len(ts) - 1
	}
	add := func(a, b *Term, strict bool) {
		i, j := node(a), node(b)
		adj[i] = append(adj[i], edge{j, strict})
	}
	type ne struct{ a, b *Term }
	var nes []ne
	split := func(d *Term) (*Term, *Term, bool) {
		ms := e.monos(d)
		neg1 := func(c *big.Int) bool { return wrap(d.sort, new(big.Int).Neg(c)).Cmp(one) == 0 }
		switch {
		case len(ms) == 2 && len(ms[0].f) == 1 && len(ms[1].f) == 1:
			if ms[0].c.Cmp(one) == 0 && neg1(ms[1].c) {
				return ms[0].f[0], ms[1].f[0], true
			}
			if ms[1].c.Cmp(one) == 0 && neg1(ms[0].c) {
				return ms[1].f[0], ms[0].f[0], true
			}
		case len(ms) == 2 && len(ms[0].f) == 1 && len(ms[1].f) == 0:
			c := ms[1].c
			if ms[0].c.Cmp(one) == 0 {
				c = wrap(d.sort, new(big.Int).Neg(c))
			} else if !neg1(ms[0].c) {
				return nil, nil, false
			}
			return ms[0].f[0], e.cbig(d.sort, c).term, true
		case len(ms) == 1 && len(ms[0].f) == 1 && (ms[0].c.Cmp(one) == 0 || neg1(ms[0].c)):
			return ms[0].f[0], e.cint(d.sort, 0).term, true
		}
		return nil, nil, false
	}
	any := false
	for _, l := range ls {
		switch l.a.op {
		case "ult":
			any = true
			if l.pos {
				add(l.a.args[0], l.a.args[1], true)
			} else {
				add(l.a.args[1], l.a.args[0], false)
			}
		case "eq0":
			d := l.a.args[0]
			if !d.sort.unsigned() {
				continue
			}
			if d.op == "n64" && d.args[0].op == "zshr" && d.args[0].args[0].op == "z64" {
				any = true
				x, h := d.args[0].args[0].args[0], e.cbig(SU64, p2(int(d.args[0].num.Int64()))).term
				if l.pos {
					add(x, h, true)
				} else {
					add(h, x, false)
				}
			}
			a, b, ok := split(d)
			if !ok {
				continue
			}
			any = true
			if l.pos {
				add(a, b, false)
				add(b, a, false)
			} else {
				nes = append(nes, ne{a, b})
			}
		case "isneg":
			any = true
			x := l.a.args[0]
			h := e.cbig(x.sort, new(big.Int).Lsh(one, x.sort.width()-1)).term
			if l.pos {
				add(h, x, false)
			} else {
				add(x, h, true)
			}
		}
	}
	if !any {
		return false, nil
	}
	// constants, zero below everything
	for i := 0; i < len(ts); i++ {
		if !ts[i].sort.unsigned() {
			continue
		}
		z := e.cint(ts[i].sort, 0).term
		if ts[i] != z {
			add(z, ts[i], false)
		}
	}
	for i := range ts {
		for j := range ts {
			if i != j && ts[i].isConst() && ts[j].isConst() && ts[i].sort == ts[j].sort && ts[i].num.Cmp(ts[j].num) < 0 {
				adj[i] = append(adj[i], edge{j, true})
			}
		}
	}
	n := len(ts)
	if n > 60 {
		return false, nil
	}
	// reach: 0 none, 1 <=, 2 <
	r := make([][]int, n)
	for i := range r {
		r[i] = make([]int, n)
		r[i][i] = 1
		for _, x := range adj[i] {
			v := 1
			if x.strict {
				v = 2
			}
			if r[i][x.to] < v {
				r[i][x.to] = v
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if r[i][k] == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if r[k][j] == 0 {
					continue
				}
				v := r[i][k]
				if r[k][j] > v {
					v = r[k][j]
				}
				if v > r[i][j] {
					r[i][j] = v
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if r[i][i] == 2 {
			return true, nil
		}
	}
	for _, x := range nes {
		i, ok1 := idx[x.a]
		j, ok2 := idx[x.b]
		if ok1 && ok2 && r[i][j] > 0 && r[j][i] > 0 {
			return true, nil
		}
	}
	var eqs [][2]*Term
	if wantEq {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if r[i][j] > 0 && r[j][i] > 0 && ts[i].sort == ts[j].sort {
					eqs = append(eqs, [2]*Term{ts[i], ts[j]})
					break
				}
			}
		}
	}
	return false, eqs
}

// linContradiction: Fourier-Motzkin over the integer orderings, with bounds of terms.
func (e *Eng) linContradiction(ls []lit) bool { return e.lin(ls, false) }

func (e *Eng) lin(ls []lit, nodiv bool) bool {
	type row struct {
		co map[string]*big.Int
		k  *big.Int // sum co*x + k <= 0
	}
	vars := map[string]*Term{}
	mkrow := func(d *Term, flip bool) *row {
		r := &row{map[string]*big.Int{}, big.NewInt(0)}
		for _, m := range e.monos(d) {
			c := m.c
			if len(m.f) == 0 {
				r.k = new(big.Int).Set(c)
				continue
			}
			key := monoKey(m.f)
			if len(m.f) == 1 {
				vars[key] = m.f[0]
			}
			r.co[key] = new(big.Int).Set(c)
		}
		if flip { // not (d <= 0): -d + 1 <= 0
			for k := range r.co {
				r.co[k].Neg(r.co[k])
			}
			r.k.Neg(r.k)
			r.k.Add(r.k, one)
		}
		return r
	}
	var rows []*row
	for _, l := range ls {
		if l.a.op == "le0" {
			rows = append(rows, mkrow(l.a.args[0], !l.pos))
		}
	}
	if len(rows) == 0 {
		return false
	}
	hasKey := map[*Term]map[*Term]bool{}
	for _, l := range ls {
		if l.a.op == "has" && l.pos {
			if hasKey[l.a.args[0]] == nil {
				hasKey[l.a.args[0]] = map[*Term]bool{}
			}
			hasKey[l.a.args[0]][l.a.args[1]] = true
		}
	}
	var extra []*row
	for q, xs := range hasKey {
		// something that is there has a place within the length
		n := e.op("qlen", SI64, e.leaf(q))
		if n.term == nil {
			continue
		}
		for x := range xs {
			l := e.lbNode(q, x)
			if l.term == nil {
				continue
			}
			d := e.fromMonos(SBig, append(append(scale(e.monos(n.term), big.NewInt(-1)), e.monos(l.term)...), mono{one, nil}))
			extra = append(extra, mkrow(d, false), mkrow(e.fromMonos(SBig, scale(e.monos(l.term), big.NewInt(-1))), false))
		}
	}
	// numbers near the end of the machine's range: the range of what is compared
	// with them counts
	far := false
	for _, r := range rows {
		if r.k.BitLen() >= 62 {
			far = true
		}
	}
	// division by a positive constant: c*q <= x <= c*q + c-1 for x >= 0
	for key, t := range vars {
		lo, hi := e.bound(t)
		if far && t.sort.signed() && machineLeaf(t) {
			h := new(big.Int).Lsh(one, t.sort.width()-1)
			if lo == nil {
				lo = new(big.Int).Neg(h)
			}
			if hi == nil {
				hi = h.Sub(h, one)
			}
		}
		if lo != nil {
			extra = append(extra, &row{map[string]*big.Int{key: big.NewInt(-1)}, new(big.Int).Set(lo)})
		}
		if hi != nil {
			extra = append(extra, &row{map[string]*big.Int{key: big.NewInt(1)}, new(big.Int).Neg(hi)})
		}
		if t.op == "lb" && isTickTable(t.args[0]) {
			// the table begins with the lowest price
			if e.firstAbove(ls, t.args[1]) {
				extra = append(extra, &row{map[string]*big.Int{key: big.NewInt(-1)}, big.NewInt(1)})
			}
		}
		if t.op == "lb" {
			// no more than the length, less if the key is there
			n := e.op("qlen", SI64, e.leaf(t.args[0]))
			if n.term != nil {
				off := big.NewInt(0)
				if hasKey[t.args[0]][t.args[1]] {
					off = one
				}
				d := e.fromMonos(SBig, append(append(scale(e.monos(n.term), big.NewInt(-1)), mono{one, []*Term{t}}), mono{off, nil}))
				r := mkrow(d, false)
				extra = append(extra, r)
				for k := range r.co {
					if k != key && r.co[k].Sign() < 0 {
						extra = append(extra, &row{map[string]*big.Int{k: big.NewInt(-1)}, big.NewInt(0)})
					}
				}
			}
		}
		if (t.op == "fdiv" || t.op == "tdiv") && t.args[1].isConst() && t.args[1].num.Sign() > 0 {
			c := t.args[1].num
			x := t.args[0]
			if t.op == "tdiv" {
				if l, _ := e.bound(x); l == nil || l.Sign() < 0 {
					if nodiv {
						continue
					}
					// the sign of x, from the other facts
					neg := e.fromMonos(SBig, append(append([]mono(nil), e.monos(x)...), mono{one, nil}))
					if neg.isConst() || !e.lin(append([]lit{{e.mk(&Term{op: "le0", sort: SBool, args: []*Term{neg}}), true}}, ls...), true) {
						continue
					}
				}
			}
			cq := e.fromMonos(SBig, []mono{{c, []*Term{t}}})
			d1 := e.fromMonos(SBig, append(append([]mono(nil), e.monos(cq)...), scale(e.monos(x), big.NewInt(-1))...))
			extra = append(extra, mkrow(d1, false))
			d2 := e.fromMonos(SBig, append(append(append([]mono(nil), e.monos(x)...), scale(e.monos(cq), big.NewInt(-1))...), mono{new(big.Int).Sub(one, c), nil}))
			extra = append(extra, mkrow(d2, false))
		}
	}
	rows = append(rows, extra...)
	for {
		// contradictions, and a variable to eliminate
		count := map[string][2]int{}
		for _, r := range rows {
			if len(r.co) == 0 {
				if r.k.Sign() > 0 {
					return true
				}
				continue
			}
			for k, c := range r.co {
				x := count[k]
				if c.Sign() > 0 {
					x[0]++
				} else {
					x[1]++
				}
				count[k] = x
			}
		}
		if len(count) == 0 {
			return false
		}
		best, cost := "", 1<<30
		for k, x := range count {
			c := x[0]*x[1] - x[0] - x[1]
			if c < cost || c == cost && k < best {
				best, cost = k, c
			}
		}
		var pos, neg, rest []*row
		// the strongest of the rows over the same combination
		strong := map[string]*row{}
		for _, r := range rows {
			var ks []string
			for k, c := range r.co {
				ks = append(ks, k+"*"+c.Text(36))
			}
			sort.Strings(ks)
			key := strings.Join(ks, "+")
			if o, ok := strong[key]; !ok || o.k.Cmp(r.k) < 0 {
				strong[key] = r
			}
		}
		rows = rows[:0:0]
		for _, r := range strong {
			rows = append(rows, r)
		}
		for _, r := range rows {
			c, ok := r.co[best]
			switch {
			case !ok:
				rest = append(rest, r)
			case c.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if len(pos)*len(neg)+len(rest) > 400 {
			return false
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p.co[best], new(big.Int).Neg(q.co[best])
				n := &row{map[string]*big.Int{}, new(big.Int).Add(new(big.Int).Mul(p.k, b), new(big.Int).Mul(q.k, a))}
				for k, c := range p.co {
					n.co[k] = new(big.Int).Mul(c, b)
				}
				for k, c := range q.co {
					v := new(big.Int).Mul(c, a)
					if o, ok := n.co[k]; ok {
						v.Add(v, o)
					}
					n.co[k] = v
				}
				g := new(big.Int)
				for k, c := range n.co {
					if c.Sign() == 0 {
						delete(n.co, k)
						continue
					}
					g.GCD(nil, nil, g, new(big.Int).Abs(c))
				}
				if g.Cmp(one) > 0 {
					for k, c := range n.co {
						n.co[k] = new(big.Int).Quo(c, g)
					}
					// L <= -k  =>  L/g <= floor(-k/g)
					nk := new(big.Int).Neg(n.k)
					nk.Div(nk, g)
					n.k = nk.Neg(nk)
				}
				rest = append(rest, n)
			}
		}
		rows = rest
	}
}

// machineLeaf: a number that is held in a variable, a field or an element, not
// computed.
func machineLeaf(t *Term) bool {
	switch t.op {
	case "poly", "mulx", "tdiv", "fdiv", "trem":
		return false
	}
	return true
}

var minPrice = big.NewInt(4295128739)

// firstAbove: x is above the lowest price of the table.
func (e *Eng) firstAbove(ls []lit, x *Term) bool {
	if x.sort != SU256 {
		return false
	}
	if x.isConst() {
		return x.num.Cmp(minPrice) > 0
	}
	for _, l := range ls {
		if l.a.op == "ult" || l.a.op == "eq0" {
			n := e.mkTerm("lt", SBool, "", nil, []*Term{e.cbig(SU256, minPrice).term, x})
			if n.term == nil && n.hi.term != nil && n.lo.term != nil {
				return e.ordContradiction(append(append([]lit(nil), ls...), lit{n.atom, n.hi != e.T}))
			}
			// min < x as a choice between equality and order
			ok := true
			var w func(n *Node, k []lit)
			w = func(n *Node, k []lit) {
				if n == e.T || !ok || len(k) > 3 {
					return
				}
				all := append(append([]lit(nil), ls...), k...)
				if len(k) > 0 && (e.propContradiction(all) || e.ordContradiction(all)) {
					return
				}
				if n == e.F {
					ok = false
					return
				}
				w(n.hi, append(append([]lit(nil), k...), lit{n.atom, true}))
				w(n.lo, append(append([]lit(nil), k...), lit{n.atom, false}))
			}
			w(n, nil)
			return ok
		}
	}
	return false
}

// divContradiction: multiples of one number that are or are not multiples of others.
func (e *Eng) divContradiction(ls []lit) bool {
	n := 0
	for _, l := range ls {
		if l.a.op == "divides" && l.a.args[1].isConst() {
			n++
		}
	}
	if n < 2 {
		return false
	}
	yes := map[*Term]*big.Int{}
	lcm := func(x *Term, m *big.Int) bool {
		o := yes[x]
		if o == nil {
			yes[x] = m
			return true
		}
		g := new(big.Int).GCD(nil, nil, o, m)
		l := new(big.Int).Div(new(big.Int).Mul(o, m), g)
		yes[x] = l
		return l.Cmp(o) != 0
	}
	// x/c of a multiple x of c
	whole := func(x *Term, m *big.Int) (*Term, *big.Int) {
		for x.op == "tdiv" && x.args[1].isConst() && x.args[1].num.Sign() > 0 {
			y, c := x.args[0], x.args[1].num
			if o := yes[y]; o == nil || new(big.Int).Rem(o, c).Sign() != 0 {
				break
			}
			x, m = y, new(big.Int).Mul(m, c)
		}
		return x, m
	}
	for again := true; again; {
		again = false
		for _, l := range ls {
			if l.pos && l.a.op == "divides" && l.a.args[1].isConst() && l.a.args[1].num.Sign() != 0 {
				x, m := whole(l.a.args[0], new(big.Int).Abs(l.a.args[1].num))
				if lcm(x, m) {
					again = true
				}
			}
		}
	}
	for _, l := range ls {
		if !l.pos && l.a.op == "divides" && l.a.args[1].isConst() && l.a.args[1].num.Sign() != 0 {
			x, m := whole(l.a.args[0], new(big.Int).Abs(l.a.args[1].num))
			if o := yes[x]; o != nil && new(big.Int).Rem(o, m).Sign() == 0 {
				return true
			}
		}
	}
	return false
}

// floatContradiction: cycles in the order of floating-point numbers (none of
// them NaN).
func (e *Eng) floatContradiction(ls []lit) bool {
	bad, _ := e.floatOrder(ls, false)
	return bad
}

func (e *Eng) floatOrder(ls []lit, wantEq bool) (bool, [][2]*Term) {
	idx := map[*Term]int{}
	var ts []*Term
	at := func(t *Term) int {
		if i, ok := idx[t]; ok {
			return i
		}
		idx[t] = len(ts)
		ts = append(ts, t)
		return len(ts) - 1
	}
	type edge struct {
		a, b   int
		strict bool
	}
	var es []edge
	var nes [][2]int
	for _, l := range ls {
		if len(l.a.args) != 2 || l.a.args[0].sort != SF64 {
			continue
		}
		a, b := l.a.args[0], l.a.args[1]
		switch {
		case (l.a.op == "flt" || l.a.op == "fle") && l.pos:
			es = append(es, edge{at(a), at(b), l.a.op == "flt"})
		case l.a.op == "flt" || l.a.op == "fle":
			es = append(es, edge{at(b), at(a), l.a.op == "fle"})
		case l.a.op == "eqs" && l.pos:
			es = append(es, edge{at(a), at(b), false}, edge{at(b), at(a), false})
		case l.a.op == "eqs":
			nes = append(nes, [2]int{at(a), at(b)})
		}
	}
	if len(es) < 2 && len(nes) == 0 && len(ts) == 0 || len(ts) > 40 {
		return false, nil
	}
	for i, t := range ts {
		x, ok := t.float()
		if !ok {
			continue
		}
		for j, u := range ts {
			if y, ok := u.float(); ok && x < y {
				es = append(es, edge{i, j, true})
			}
		}
		if x == 0 {
			for j, u := range ts {
				if j != i && e.fnonneg(u) {
					es = append(es, edge{i, j, false})
				}
			}
		}
	}
	n := len(ts)
	r := make([][]int, n)
	for i := range r {
		r[i] = make([]int, n)
	}
	for _, x := range es {
		r[x.a][x.b] = max(r[x.a][x.b], 1)
		if x.strict {
			r[x.a][x.b] = 2
		}
	}
	for k := range n {
		for i := range n {
			for j := range n {
				if r[i][k] > 0 && r[k][j] > 0 {
					r[i][j] = max(r[i][j], r[i][k], r[k][j])
				}
			}
		}
	}
	for i := range n {
		if r[i][i] == 2 {
			return true, nil
		}
	}
	for _, x := range nes {
		if r[x[0]][x[1]] > 0 && r[x[1]][x[0]] > 0 {
			return true, nil
		}
	}
	var eqs [][2]*Term
	if wantEq {
		for i := range n {
			for j := i + 1; j < n; j++ {
				if r[i][j] > 0 && r[j][i] > 0 {
					eqs = append(eqs, [2]*Term{ts[i], ts[j]})
					break
				}
			}
		}
	}
	return false, eqs
}

// gatesIn lists the gates inside the terms of n.
func (e *Eng) gatesIn(n *Node) []*Term {
	if g, ok := e.gates[n]; ok {
		return g
	}
	g := findTerms(n, func(t *Term) bool { return t.op == "gate" })
	e.gates[n] = g
	return g
}
