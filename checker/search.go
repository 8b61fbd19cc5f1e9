package main

// Ordered sequences and searching in them. Elements of a sequence kept in
// increasing order of a key are addressed by lb(seq,x), the number of elements
// with a key below x, and has(seq,x), whether x itself is a key. Comparing an
// element's key with x becomes comparing its index with lb. A loop that narrows
// two bounds until they meet is replaced by the index it must end at, which
// inductive linear invariants between its bounds and lb establish.

import (
	"fmt"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

var debugSearch = os.Getenv("VDEBUG") == "search"

// sortedRec: record types kept in increasing order of a field.
var sortedRec = map[string]string{"tickdata.Tick": "Index"}

// tableKey: the number stored under an element of an ordered table.
func (e *Eng) keyOf(t *Term) (seq, i *Term) {
	if e.tiny {
		return nil, nil
	}
	switch t.op {
	case "rf":
		s := t.args[0]
		if s.op == "sel" && e.sortedFld[s.str] != "" && e.sortedFld[s.str] == t.num.String() && s.args[0].op == "seq0" {
			return s.args[0], s.args[1]
		}
	case "in", "rd":
		s := t.args[0]
		if s.op == "sel" && isTickTable(s.args[0]) {
			return s.args[0], s.args[1]
		}
	}
	return nil, nil
}

// tinyKeys: the keys of an ordered list of known length.
func (e *Eng) tinyKeys(seq *Term) (ks []*Node, ok bool) {
	if !e.tiny || seq.op != "seq0" || len(seq.args) != 2 || !seq.args[1].isConst() || seq.args[1].num.Cmp(big.NewInt(16)) > 0 {
		return nil, false
	}
	rec := ""
	for r := range e.sortedFld {
		rec = r
	}
	for i := int64(0); i < seq.args[1].num.Int64(); i++ {
		x := e.leaf(e.mk(&Term{op: "sel", sort: SRec, str: rec, args: []*Term{seq, e.cint(SI64, i).term}}))
		f, _ := new(big.Int).SetString(e.sortedFld[rec], 10)
		ks = append(ks, e.build("rf", SI64, "", f, x))
	}
	return ks, true
}

func isTickTable(seq *Term) bool {
	for seq.op == "in" || seq.op == "rd" || seq.op == "cont" || seq.op == "seq0" {
		seq = seq.args[0]
	}
	return seq.op == "fld" && seq.str == "ticks"
}

func (e *Eng) lbNode(seq, x *Term) *Node {
	if n, ok := e.tinyKeys(seq); ok {
		l := e.cint(SI64, int64(len(n)))
		for i := len(n) - 1; i >= 0; i-- {
			l = e.ite(e.op("lt", SBool, n[i], e.leaf(x)), l, e.cint(SI64, int64(i)))
		}
		return l
	}
	if x.isConst() && x.sort == SU256 && isTickTable(seq) && x.num.Cmp(minPrice) <= 0 {
		return e.cint(SI64, 0)
	}
	if x.sort == SU256 {
		return e.leaf(e.mk(&Term{op: "lb", sort: SI64, args: []*Term{seq, x}}))
	}
	var rest []mono
	c := new(big.Int)
	for _, m := range e.monos(x) {
		if len(m.f) == 0 {
			c = m.c
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == 0 || c.Cmp(one) != 0 {
		x = e.fromMonos(SI64, e.monos(x))
		return e.leaf(e.mk(&Term{op: "lb", sort: SI64, args: []*Term{seq, x}}))
	}
	return e.ubNode(seq, e.fromMonos(SI64, rest))
}

func (e *Eng) hasAtom(seq, x *Term) *Node {
	if n, ok := e.tinyKeys(seq); ok {
		h := e.F
		for _, k := range n {
			h = e.or(h, e.op("eq", SBool, k, e.leaf(x)))
		}
		return h
	}
	if x.isConst() && x.sort == SU256 && isTickTable(seq) && x.num.Cmp(minPrice) <= 0 {
		return e.cbool(x.num.Cmp(minPrice) == 0)
	}
	return e.raw("has", SBool, "", seq, x)
}

func (e *Eng) ubNode(seq, x *Term) *Node {
	l := e.leaf(e.mk(&Term{op: "lb", sort: SI64, args: []*Term{seq, x}}))
	return e.ite(e.hasAtom(seq, x), e.op("add", SI64, l, e.cint(SI64, 1)), l)
}

// keyOrder rewrites d <= 0 when d compares one element's key with something.
func (e *Eng) keyOrder(d *Term) *Node {
	if len(e.sortedFld) == 0 {
		return nil
	}
	var seq, i *Term
	var c *big.Int
	var rest []mono
	for _, m := range e.monos(d) {
		if len(m.f) == 1 {
			if s, k := e.keyOf(m.f[0]); s != nil {
				if seq != nil || m.c.CmpAbs(one) != 0 {
					return nil
				}
				seq, i, c = s, k, m.c
				continue
			}
		}
		rest = append(rest, m)
	}
	if seq == nil {
		return nil
	}
	if c.Sign() > 0 { // key <= -R, key < 1-R
		x := e.fromMonos(SI64, append(scale(rest, big.NewInt(-1)), mono{one, nil}))
		return e.op("lt", SBool, e.leaf(i), e.lbNode(seq, x))
	}
	x := e.fromMonos(SI64, rest)
	return e.not(e.op("lt", SBool, e.leaf(i), e.lbNode(seq, x)))
}

// keyLess rewrites unsigned a < b for elements of an ordered table.
func (e *Eng) keyLess(a, b *Term) *Node {
	if s, i := e.keyOf(a); s != nil && a.sort == SU256 {
		if q, _ := e.keyOf(b); q == nil {
			return e.op("lt", SBool, e.leaf(i), e.lbNode(s, b))
		}
	}
	if s, i := e.keyOf(b); s != nil && b.sort == SU256 {
		if q, _ := e.keyOf(a); q == nil {
			return e.not(e.op("lt", SBool, e.leaf(i), e.ubNode(s, a)))
		}
	}
	return nil
}

// keyEq rewrites key = x for unsigned keys.
func (e *Eng) keyEq(d *Term) *Node {
	ms := e.monos(d)
	if d.sort != SU256 || len(ms) != 2 {
		return nil
	}
	for j, m := range ms {
		o := ms[1-j]
		if len(m.f) != 1 {
			continue
		}
		s, i := e.keyOf(m.f[0])
		if s == nil || m.c.Cmp(one) != 0 && wrap(SU256, new(big.Int).Neg(m.c)).Cmp(one) != 0 {
			continue
		}
		x := []mono{o}
		if m.c.Cmp(one) == 0 {
			x = scale(x, big.NewInt(-1))
		}
		xt := e.fromMonos(SU256, x)
		in := e.leaf(i)
		return e.and(e.not(e.op("lt", SBool, in, e.lbNode(s, xt))), e.op("lt", SBool, in, e.ubNode(s, xt)))
	}
	return nil
}

// unsat: no case of n can occur. With precise false, says no only when a case
// is not excluded.
func (e *Eng) unsat(n *Node) bool {
	var ls []lit
	cnt := 0
	var w func(n *Node) bool
	w = func(n *Node) bool {
		if n == e.F {
			return true
		}
		cnt++
		if cnt > 4000 {
			return false
		}
		if len(ls) > 0 && e.infeasible(ls) {
			return true
		}
		if n.term != nil {
			return false
		}
		for _, pos := range []bool{true, false} {
			ls = append(ls, lit{n.atom, pos})
			k := w(cof(n, n.atom, pos))
			ls = ls[:len(ls)-1]
			if !k {
				return false
			}
		}
		return true
	}
	return w(n)
}

type exitInfo struct {
	x    *edge
	c    *Node
	vals map[ssa.Value]Val
}

// liveAt: u may be used after leaving the loop over x.
func liveAt(u ssa.Value, x *edge, body map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock)
	w = func(b *ssa.BasicBlock) {
		if seen[b] || body[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			w(s)
		}
	}
	w(x.to)
	for _, r := range *u.Referrers() {
		b := r.Block()
		if p, ok := r.(*ssa.Phi); ok {
			for i, ed := range p.Edges {
				if ed == u && (seen[b.Preds[i]] || b == x.to && b.Preds[i] == x.from) {
					return true
				}
			}
			continue
		}
		if seen[b] {
			return true
		}
	}
	return false
}

// loopLocal: every round sets the variable before using it, and nothing else does.
func loopLocal(al *ssa.Alloc, body map[*ssa.BasicBlock]bool) bool {
	var first *ssa.Store
	at := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			return at(a) <= at(b)
		}
		return a.Block().Dominates(b.Block())
	}
	for _, r := range *al.Referrers() {
		if !body[r.Block()] {
			return false
		}
		if s, ok := r.(*ssa.Store); ok {
			if s.Addr != al {
				return false
			}
			if first == nil || before(s, first) {
				first = s
			}
		}
	}
	if first == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if !before(first, r) {
			return false
		}
	}
	return true
}

// search replaces a loop that narrows bounds in an ordered sequence.
func (m *Mach) search(f *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, init phiEnv) ([]*edge, bool) {
	e := m.e
	if len(e.sortedFld) == 0 {
		return nil, false
	}
	var phis []*ssa.Phi
	env := phiEnv{}
	vars := map[*ssa.Phi]*Term{}
	vset := map[*Term]bool{}
	var lv []*Term
	inits := map[*Term]*Node{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n, ok := init[p].(*Node)
		if !ok {
			return nil, false
		}
		if s, ok := leafSort(p.Type()); !ok || s != SI64 {
			return nil, false
		}
		v := m.freshVar(SI64, n).v
		phis = append(phis, p)
		vars[p] = v
		vset[v] = true
		lv = append(lv, v)
		inits[v] = n
		env[p] = e.leaf(v)
	}
	if len(phis) < 1 || len(phis) > 3 {
		return nil, false
	}
	own := map[*Term]bool{} // variables of one round
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				if !ok || !loopLocal(al, body) {
					return nil, false
				}
				if n, ok := f.vals[al].(*Node); ok && n.term != nil && !body[al.Block()] {
					own[n.term] = true
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send:
				return nil, false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
			}
		}
	}
	before := st.clone()
	nd := len(f.defers)
	fail := func() ([]*edge, bool) {
		if debugSearch {
			fmt.Println("search: not", f.fn)
		}
		f.defers = f.defers[:nd]
		return nil, false
	}
	exits := m.region(f, body, h, &State{e.T, st.clone().heap}, env)
	var backs, outs []*edge
	for _, x := range exits {
		for k, v := range x.st.heap {
			if a := rootOf(k); a != nil && own[a] {
				continue
			}
			if a := rootOf(k); a != nil && m.birth[a] > 0 {
				if _, had := before.heap[k]; !had {
					continue
				}
			}
			old, had := before.heap[k]
			if !had {
				old = m.absent(before, k)
			}
			if !m.sameUnder(v, old, x.st.reach) {
				return fail()
			}
		}
		if x.to == h {
			backs = append(backs, x)
		} else {
			outs = append(outs, x)
		}
	}
	if len(backs) == 0 || len(outs) == 0 {
		return fail()
	}
	// the positions searched for
	lbs := map[*Term]bool{}
	for _, x := range exits {
		for _, t := range findTerms(x.st.reach, func(t *Term) bool { return t.op == "lb" }) {
			if !e.mentions(e.leaf(t), vset) {
				lbs[t] = true
			}
		}
	}
	if debugSearch {
		fmt.Println("lbs", lbs)
	}
	if len(lbs) != 1 {
		return fail()
	}
	var lb *Term
	for t := range lbs {
		lb = t
	}
	add := func(n *Node, k int64) *Node { return e.op("add", SI64, n, e.cint(SI64, k)) }
	L, U := e.leaf(lb), e.ubNode(lb.args[0], lb.args[1])
	// steps, one per back edge and variable
	type stp struct {
		c   *Node
		sub map[*Term]*Node
	}
	var steps []stp
	for _, b := range backs {
		s := stp{b.st.reach, map[*Term]*Node{}}
		for _, p := range phis {
			n, ok := m.phiVal(f, p, h, []*edge{b}, b.st).(*Node)
			if !ok {
				return fail()
			}
			s.sub[vars[p]] = n
		}
		steps = append(steps, s)
	}
	// two variables that move and bracket; others are leftovers of the last round
	var mv []*Term
	for _, v := range lv {
		stays := false
		for _, s := range steps {
			if e.restrict(s.sub[v], s.c) == e.leaf(v) {
				stays = true
			}
		}
		if stays {
			mv = append(mv, v)
		}
	}
	bracket := len(mv) == 2 || len(mv) == 3
	assume := st.reach
	le := func(a, b *Node) *Node { return e.not(e.op("lt", SBool, b, a)) }
	uses := m.outUses(body)
	try := func(round int) ([]*exitInfo, bool) {
		exprs := []*Node{L, U, add(L, -1), add(U, -1)}
		for _, v := range mv {
			exprs = append(exprs, inits[v])
			// search results are clipped to the initial bounds
			for _, x := range []*Node{L, U, add(L, -1), add(U, -1)} {
				if round == 0 {
					break
				}
				lt := e.op("lt", SBool, x, inits[v])
				exprs = append(exprs, e.ite(lt, inits[v], x), e.ite(lt, x, inits[v]))
			}
			if round < 2 {
				continue
			}
			// a scan: what was seen last, if anything was
			for _, w := range mv {
				if w == v {
					continue
				}
				for _, x := range []*Node{e.leaf(w), add(e.leaf(w), -1)} {
					lt := e.op("lt", SBool, x, inits[v])
					exprs = append(exprs, e.ite(lt, inits[v], x))
				}
			}
		}
		var cands []*Node
		seen := map[*Node]bool{}
		for _, v := range mv {
			for _, x := range append(exprs, e.cint(SI64, 0)) {
				for _, c := range []*Node{le(e.leaf(v), x), le(x, e.leaf(v))} {
					if !seen[c] {
						seen[c] = true
						cands = append(cands, c)
					}
				}
			}
		}
		if len(mv) > 1 {
			a, b := e.leaf(mv[0]), e.leaf(mv[1])
			cands = append(cands, le(a, b), le(b, a), le(a, add(b, 1)), le(b, add(a, 1)))
		}
		// base case
		ini := map[*Term]*Node{}
		for v, n := range inits {
			ini[v] = n
		}
		var inv []*Node
		for _, c := range cands {
			if e.unsat(e.and(assume, e.not(e.subst(c, ini)))) {
				inv = append(inv, c)
			}
		}
		for changed := true; changed; {
			changed = false
			all := e.T
			for _, c := range inv {
				all = e.and(all, c)
			}
			var keep []*Node
			for _, c := range inv {
				ok := true
				for _, s := range steps {
					n := e.and(e.and(all, s.c), e.not(e.subst(c, s.sub)))
					if !e.unsat(e.and(assume, n)) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					changed = true
				}
			}
			inv = keep
		}
		if debugSearch {
			fmt.Println("search", f.fn, "inv:")
			for _, c := range inv {
				fmt.Println("    ", c)
			}
			for _, s := range steps {
				fmt.Println("  step", s.c, s.sub)
			}
		}
		all := assume
		for _, c := range inv {
			all = e.and(all, c)
		}
		// every round moves a bound, and no bound goes on for ever
		var meas []*Node
		for _, v := range mv {
			meas = append(meas, e.leaf(v), e.op("neg", SI64, e.leaf(v)))
			for _, w := range mv {
				if w != v {
					meas = append(meas, e.op("sub", SI64, e.leaf(v), e.leaf(w)))
				}
			}
		}
		ends := false
		for _, q := range meas {
			ok := true
			for _, s := range steps {
				low := e.op("lt", SBool, q, add(e.op("neg", SI64, L), -2))
				for _, x := range []*Node{e.cint(SI64, -4), add(e.op("neg", SI64, U), -2)} {
					low = e.and(low, e.op("lt", SBool, q, x))
				}
				down := e.op("lt", SBool, e.subst(q, s.sub), q)
				if !e.unsat(e.and(e.and(all, s.c), e.not(down))) || !e.unsat(e.and(e.and(all, s.c), low)) {
					ok = false
					break
				}
			}
			if ok {
				ends = true
				break
			}
		}
		if !ends {
			if debugSearch {
				fmt.Println("  no progress shown")
			}
			return nil, false
		}
		// where each exit leaves the bounds and the midpoint
		var infos []*exitInfo
		for _, x := range outs {
			R := e.and(all, x.st.reach)
			if debugSearch {
				fmt.Println("  exit", x.st.reach)
			}
			if e.unsat(R) {
				continue
			}
			ei := &exitInfo{x: x, vals: map[ssa.Value]Val{}}
			sub := map[*Term]*Node{}
			det := func(n *Node) *Node {
				for _, x := range exprs {
					lo := e.op("lt", SBool, n, x)
					hi := e.op("lt", SBool, x, n)
					if e.unsat(e.and(R, lo)) && e.unsat(e.and(R, hi)) {
						return x
					}
				}
				return nil
			}
			for _, v := range lv {
				if d := det(e.leaf(v)); d != nil {
					sub[v] = d
				}
			}
			// midpoints: integer instructions of the loop
			var mids []*Node
			for b := range body {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					if n, ok := f.vals[v].(*Node); ok && n.term != nil && n.term.sort == SI64 && e.mentions(n, vset) {
						mids = append(mids, n)
					}
				}
			}
			for _, n := range mids {
				q := findTerms(n, func(t *Term) bool { return t.op == "tdiv" && e.mentions(e.leaf(t), vset) })
				if len(q) != 1 || sub[q[0]] != nil {
					continue
				}
				if d := det(n); d != nil {
					rest := e.op("sub", SI64, n, e.leaf(q[0]))
					if e.mentions(rest, map[*Term]bool{q[0]: true}) {
						continue
					}
					sub[q[0]] = e.op("sub", SI64, d, rest)
				}
			}
			fin := func(n *Node) *Node {
				for i := 0; i < 3; i++ {
					// midpoints first: their definition mentions the bounds
					ms := map[*Term]*Node{}
					for t, r := range sub {
						if t.op == "tdiv" {
							ms[t] = r
						}
					}
					n = e.subst(n, ms)
					n = e.subst(n, sub)
				}
				return n
			}
			if debugSearch {
				fmt.Println("  sub", sub, "mids", mids)
			}
			bad := false
			for _, u := range uses {
				v, ok := f.vals[u]
				if !ok || !liveAt(u, x, body) {
					continue
				}
				ei.vals[u] = m.mapVal(v, func(n *Node) *Node {
					r := fin(e.restrict(n, x.st.reach))
					if e.mentions(r, vset) {
						bad = true
					}
					return r
				})
			}
			for k, v := range x.st.heap {
				_ = k
				m.mapVal(v, func(n *Node) *Node {
					if e.mentions(fin(n), vset) {
						if _, had := before.heap[k]; had {
							bad = true
						}
					}
					return n
				})
			}
			if bad {
				return nil, false
			}
			ei.c = e.restrict(fin(x.st.reach), assume)
			if e.mentions(ei.c, vset) {
				// what is known of the searched position there
				ei.c = e.T
				h := e.hasAtom(lb.args[0], lb.args[1])
				for _, q := range []*Node{h, e.not(h)} {
					if e.unsat(e.and(R, e.not(q))) {
						ei.c = q
					}
				}
			}
			infos = append(infos, ei)
		}
		return infos, true
	}
	var infos []*exitInfo
	ok := false
	if bracket {
		infos, ok = try(0)
		if !ok {
			infos, ok = try(1)
		}
	}
	if !ok {
		mv = lv
		infos, ok = try(2)
	}
	if !ok {
		return fail()
	}
	if len(infos) == 0 {
		return fail()
	}
	// an exit that says more comes first
	for i := 0; i < len(infos); i++ {
		for j := i + 1; j < len(infos); j++ {
			if infos[i].c == e.T && infos[j].c != e.T {
				infos[i], infos[j] = infos[j], infos[i]
			}
		}
	}
	left := e.T
	var res []*edge
	comb := map[ssa.Value]Val{}
	for i, ei := range infos {
		c := ei.c
		excl := true
		for j := i + 1; j < len(infos); j++ {
			if !e.unsat(e.and(assume, e.and(c, infos[j].c))) {
				excl = false
			}
		}
		if i == len(infos)-1 {
			c = left
		} else {
			if !excl {
				m.nvar++
				c = e.and(c, e.raw("early", SBool, "", lb, e.mk(&Term{op: "var", sort: SI64, str: fmt.Sprintf("early%d", m.nvar)})))
			}
			c = e.and(c, left)
		}
		left = e.and(left, e.not(c))
		ns := before.clone()
		ns.reach = e.and(st.reach, c)
		for k, v := range ei.x.st.heap {
			if _, had := ns.heap[k]; !had {
				ns.heap[k] = v
			}
		}
		for u, v := range ei.vals {
			if old, ok := comb[u]; ok {
				comb[u] = m.iteVal(c, v, old)
			} else {
				comb[u] = v
			}
		}
		ne := *ei.x
		ne.st = ns
		res = append(res, &ne)
	}
	for u, v := range comb {
		bad := false
		m.mapVal(v, func(n *Node) *Node {
			if e.mentions(n, vset) {
				bad = true
			}
			return n
		})
		if bad {
			return fail()
		}
		f.vals[u] = v
	}
	f.defers = f.defers[:nd]
	m.nsearch++
	return res, true
}

// sort.Search(n, f): the first index below n at which f holds, n if none does.
func (m *Mach) sortSearch(n *Node, fv *Node, st *State) (*Node, bool) {
	e := m.e
	if fv.term == nil || fv.term.op != "fn" || m.clos[fv.term.str] == nil {
		return nil, false
	}
	cl := m.clos[fv.term.str]
	j := m.freshVar(SI64, n).v
	before := st.clone()
	r, s2 := m.call(cl.fn, cl.bind, []Val{e.leaf(j)}, &State{e.T, st.clone().heap})
	q, ok := r.(*Node)
	if !ok {
		return nil, false
	}
	for k, v := range s2.heap {
		if old, had := before.heap[k]; had && !m.sameUnder(v, old, e.T) {
			return nil, false
		}
	}
	jn := e.leaf(j)
	var exprs []*Node
	for _, t := range findTerms(q, func(t *Term) bool { return t.op == "lb" }) {
		if !e.mentions(e.leaf(t), map[*Term]bool{j: true}) {
			exprs = append(exprs, e.leaf(t), e.ubNode(t.args[0], t.args[1]))
		}
	}
	in := e.and(e.not(e.op("lt", SBool, jn, e.cint(SI64, 0))), e.op("lt", SBool, jn, n))
	for _, x := range exprs {
		want := e.not(e.op("lt", SBool, jn, x))
		if e.unsat(e.and(e.and(st.reach, in), e.xor(q, want))) {
			// between 0 and n
			if e.unsat(e.and(st.reach, e.op("lt", SBool, n, x))) {
				return x, true
			}
			return e.ite(e.op("lt", SBool, n, x), n, x), true
		}
	}
	return nil, false
}

// searchEach: the same over a known number of places.
func (m *Mach) searchEach(n int64, fv *Node, st *State) (*Node, bool) {
	e := m.e
	if fv.term == nil || fv.term.op != "fn" || m.clos[fv.term.str] == nil {
		return nil, false
	}
	cl := m.clos[fv.term.str]
	res := e.cint(SI64, n)
	for i := n - 1; i >= 0; i-- {
		r, _ := m.call(cl.fn, cl.bind, []Val{e.cint(SI64, i)}, st.clone())
		q, ok := r.(*Node)
		if !ok {
			return nil, false
		}
		res = e.ite(q, e.cint(SI64, i), res)
	}
	return res, true
}

func init() {
	models["sort.Search"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		if c, ok := N(a[0]).constInt(); ok && m.e.tiny && c.Cmp(big.NewInt(16)) <= 0 {
			if r, ok := m.searchEach(c.Int64(), N(a[1]), st); ok {
				return r, st
			}
		}
		if r, ok := m.sortSearch(N(a[0]), N(a[1]), st); ok {
			return r, st
		}
		undecided("sort.Search over an unknown order")
		return nil, nil
	}
}
