package main

// What a run may depend on: its inputs only.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runs: the instances of repository functions a simulation run may reach.
func (a *pta) simulation() []*pinst {
	var work []*pinst
	seen := map[*pinst]bool{}
	spawned := map[ssa.Instruction]bool{}
	for _, in := range a.insts {
		for _, b := range in.fn.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					spawned[g] = true
				}
			}
		}
	}
	for _, in := range a.insts {
		if in.boot || in.fn.Pkg == nil && in.fn.Parent() == nil {
			continue
		}
		pk := pkgOf(in.fn)
		if strings.HasPrefix(pk, modPath+"/lib/") || pk == modPath && (runPart(in.fn) || in.site != nil && spawned[in.site]) {
			work = append(work, in)
			seen[in] = true
		}
	}
	for len(work) > 0 {
		in := work[0]
		work = work[1:]
		for c := range a.calls[in] {
			if !seen[c] {
				seen[c] = true
				work = append(work, c)
			}
		}
	}
	out := make([]*pinst, 0, len(seen))
	for in := range seen {
		out = append(out, in)
	}
	sort.Slice(out, func(i, j int) bool {
		x, y := out[i], out[j]
		if x.fn.String() != y.fn.String() {
			return x.fn.String() < y.fn.String()
		}
		return sitePos(x) < sitePos(y)
	})
	return out
}

func sitePos(in *pinst) token.Pos {
	if in.site == nil {
		return 0
	}
	return in.site.Pos()
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

// runPart: what main starts once per run, and the statistics of a run.
func runPart(fn *ssa.Function) bool {
	switch fn.Name() {
	case "runAndAppend", "createResult", "getReturns", "calculateMaximumDrawdown", "calculateDownDeviation", "calculateVar", "calculateStd":
		return true
	}
	return false
}

// foreign: packages whose functions answer from outside the program's inputs.
func foreign(fn *ssa.Function) string {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	switch pk {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "random numbers"
	case "os", "syscall", "os/exec", "os/user", "net", "net/http", "io/ioutil":
		return "the environment"
	case "runtime", "runtime/debug":
		return "the state of the Go runtime"
	case "time":
		switch fn.Name() {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker":
			return "the clock"
		}
	case "sync/atomic":
		return ""
	}
	return ""
}

// reaches: whether a value can get anywhere but into messages and durations.
func reaches(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			c := x.Common()
			f := c.StaticCallee()
			if f == nil || f.Pkg == nil {
				return true
			}
			switch f.Pkg.Pkg.Path() {
			case "fmt":
				if !strings.HasPrefix(f.Name(), "Print") {
					return true
				}
			case "log":
			case "time":
				if y, ok := r.(ssa.Value); ok && reaches(y, seen) {
					return true
				}
			default:
				return true
			}
		case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.Phi, *ssa.Extract, *ssa.Slice, *ssa.Field:
			if reaches(r.(ssa.Value), seen) {
				return true
			}
		case *ssa.Store:
			if x.Val != v {
				continue // the list of a variadic call being filled
			}
			// into the list of a call or a variable of this function
			al, ok := within(x.Addr).(*ssa.Alloc)
			if !ok || reaches(al, seen) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && reaches(x.Fn.(*ssa.Function).FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.UnOp:
			if reaches(x, seen) {
				return true
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if reaches(r.(ssa.Value), seen) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// determined: a run depends on nothing but its inputs.
func determined() rule {
	return &effect{"a run uses no clock, chance, environment, goroutines, hidden state or order of a map", func(a *pta, o *outcome) {
		fns := map[*ssa.Function]bool{}
		sim := a.simulation()
		for _, in := range sim {
			fns[in.fn] = true
		}
		list := make([]*ssa.Function, 0, len(fns))
		for f := range fns {
			list = append(list, f)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
		for _, f := range list {
			a.depends(f, o)
		}
		// state outside the objects of a run
		fixed := a.fixedState()
		for g, ob := range a.gobj {
			if g.Pkg.Pkg.Path() == modPath && !isSpecFile(a.p.fset.Position(g.Pos()).Filename) {
				fixed[ob] = ob.what
			}
		}
		mine := map[*pinst]bool{}
		for _, in := range sim {
			mine[in] = true
		}
		for _, w := range a.writes {
			if !mine[w.in] {
				continue
			}
			o.nobs++
			for l := range w.addr.pts {
				if g, ok := fixed[l.o]; ok {
					o.violate(a.at(w), "may change %s, which outlives the run", g)
				}
			}
		}
		// maps
		for _, in := range sim {
			for _, b := range in.fn.Blocks {
				for _, ins := range b.Instrs {
					r, ok := ins.(*ssa.Range)
					if !ok {
						continue
					}
					if _, ok := r.X.Type().Underlying().(*types.Map); ok {
						o.nobs++
						a.mapOrder(in, r, o)
					}
				}
			}
		}
	}}
}

// depends looks for uses of what is outside a run's inputs.
func (a *pta) depends(f *ssa.Function, o *outcome) {
	at := func(i ssa.Instruction) string { return shortName(f) + " (" + a.p.posOf(i.Pos()) + ")" }
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			o.nobs++
			switch x := ins.(type) {
			case *ssa.Go:
				o.violate(at(ins), "starts a goroutine inside a run")
			case *ssa.Select:
				if len(x.States) > 1 {
					o.violate(at(ins), "chooses between channels by chance")
				}
			}
			for _, op := range ins.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Global:
					if g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" || g.Pkg.Pkg.Path() == "crypto/rand" {
						o.violate(at(ins), "uses %s.%s", g.Pkg.Pkg.Name(), g.Name())
					}
					if isRepoPkg(g.Pkg) && keeper(deref(g.Type())) {
						o.violate(at(ins), "keeps state in variable %s.%s, which outlives the run", g.Pkg.Pkg.Name(), g.Name())
					}
				case *ssa.Function:
					if isRepo(g) {
						continue
					}
					why := foreign(g)
					if why == "" {
						continue
					}
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().Value == g {
						if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Exit" || g.Signature.Recv() != nil) {
							continue
						}
						v, ok := ins.(ssa.Value)
						if ok && why != "random numbers" && !reaches(v, map[ssa.Value]bool{}) {
							continue
						}
					}
					o.violate(at(ins), "uses %s: %s", why, shortName(g))
				}
			}
		}
	}
}

func isRepoPkg(p *ssa.Package) bool { return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) }

// keeper: types of variables that are there to keep something.
func keeper(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync":
		return n.Obj().Name() == "Pool" || n.Obj().Name() == "Map"
	case "sync/atomic", "math/rand", "math/rand/v2":
		return true
	}
	return false
}

// mapOrder: what a loop over a map does must not depend on the order of its entries.
func (a *pta) mapOrder(in *pinst, r *ssa.Range, o *outcome) {
	if a.fresh[in.fn] {
		return // equal to a copy made entry by entry, whatever the order
	}
	at := func(i ssa.Instruction) string { return shortName(in.fn) + " (" + a.p.posOf(i.Pos()) + ")" }
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	body := loopBlocks(head)
	if body == nil {
		return
	}
	// what comes from the entry at hand
	entry := map[ssa.Value]bool{next: true}
	for grown := true; grown; {
		grown = false
		for b := range body {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && entry[st.Val] {
					if al, ok := within(st.Addr).(*ssa.Alloc); ok && body[al.Block()] && !entry[al] {
						entry[al] = true
						grown = true
					}
				}
				v, ok := ins.(ssa.Value)
				if !ok || entry[v] {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if entry[*op] {
						entry[v] = true
						grown = true
						break
					}
				}
			}
		}
	}
	// values kept from one entry to the next
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range phi.Edges {
			if !body[head.Preds[i]] || e == ssa.Value(phi) || !entry[e] {
				continue
			}
			switch why := carried(phi, e); why {
			case "":
			case "list":
				if !sorted(in.fn, phi) {
					o.violate(at(ins), "a list is filled in the order of a map")
				}
			default:
				o.violate(at(ins), "%s", why)
			}
		}
	}
	// leaving early with something of the entry
	for b := range body {
		if len(b.Instrs) == 0 {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if entry[v] {
					o.violate(at(ret), "what is returned depends on which entry of a map comes first")
				}
			}
		}
		for _, s := range b.Succs {
			if body[s] || b == head {
				continue
			}
			if ret := onlyReturn(s); ret != nil {
				for _, v := range ret.Results {
					if entry[v] {
						o.violate(at(ret), "what is returned depends on which entry of a map comes first")
					}
				}
			}
			for _, ins := range s.Instrs {
				if phi, ok := ins.(*ssa.Phi); ok {
					for i, p := range s.Preds {
						if p == b && entry[phi.Edges[i]] {
							o.violate(at(ins), "what is used depends on which entry of a map comes first")
						}
					}
				}
			}
		}
	}
	// what the loop does to memory
	for b := range body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				a.stored(in, body, entry, x, o, at)
			case ssa.CallInstruction:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := c.StaticCallee(); f != nil && isNumberSum(f) {
					continue
				}
				a.called(in, x, entry, o, at)
			}
		}
	}
}

// within: the variable an address is part of.
func within(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
			continue
		case *ssa.IndexAddr:
			v = y.X
			continue
		}
		return v
	}
}

// stored: an assignment in a loop over a map to something outside it.
func (a *pta) stored(in *pinst, body map[*ssa.BasicBlock]bool, entry map[ssa.Value]bool, x *ssa.Store, o *outcome, at func(ssa.Instruction) string) {
	root := x.Addr
	byEntry := false
	for {
		if entry[root] {
			byEntry = true
		}
		switch y := root.(type) {
		case *ssa.FieldAddr:
			root = y.X
			continue
		case *ssa.IndexAddr:
			root = y.X
			continue
		}
		break
	}
	if byEntry || !entry[x.Val] {
		return
	}
	if al, ok := root.(*ssa.Alloc); ok && body[al.Block()] {
		return
	}
	bin, ok := x.Val.(*ssa.BinOp)
	if ok {
		ld, isLoad := bin.X.(*ssa.UnOp)
		if isLoad && sameAddr(ld.X, x.Addr) {
			if why := combine(bin); why != "" {
				o.violate(at(x), "%s", why)
			}
			return
		}
	}
	if c, ok := x.Val.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if !sortedAt(in.fn, x.Addr) {
				o.violate(at(x), "a list is filled in the order of a map")
			}
		}
	}
}

// called: a call in a loop over a map that changes something shared by its entries.
func (a *pta) called(in *pinst, x ssa.CallInstruction, entry map[ssa.Value]bool, o *outcome, at func(ssa.Instruction) string) {
	c := x.Common()
	own := map[*pobj]bool{}
	args := append([]ssa.Value(nil), c.Args...)
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	for _, v := range args {
		if entry[v] {
			for _, q := range a.leaves(v.Type()) {
				for l := range a.val(in, v, q).pts {
					own[l.o] = true
				}
			}
		}
	}
	seen := map[*pinst]bool{}
	var work []*pinst
	for cal := range a.calls[in] {
		if cal.site == ssa.Instruction(x) {
			work = append(work, cal)
			seen[cal] = true
		}
	}
	for len(work) > 0 {
		i := work[0]
		work = work[1:]
		for cal := range a.calls[i] {
			if !seen[cal] {
				seen[cal] = true
				work = append(work, cal)
			}
		}
	}
	fresh := map[*pobj]bool{}
	for k, ob := range a.objs {
		if k.in != nil && seen[k.in] {
			fresh[ob] = true
		}
	}
	for _, w := range a.writes {
		if !seen[w.in] {
			continue
		}
		for l := range w.addr.pts {
			if !own[l.o] && !fresh[l.o] {
				o.violate(at(x), "is done once per entry of a map, in any order, and may change %s", l.o.what)
				return
			}
		}
	}
}

// isNumberSum: adding up numbers gives the same in any order.
func isNumberSum(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	switch f.Name() {
	case "Add", "And", "Or", "Xor", "Mul":
		n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		return ok && n.Obj().Name() == "Int"
	}
	return false
}

// carried: how a value kept over a loop is combined with an entry; empty if in any order the same.
func carried(phi *ssa.Phi, e ssa.Value) string {
	switch x := e.(type) {
	case *ssa.BinOp:
		if x.X == ssa.Value(phi) || x.Y == ssa.Value(phi) {
			return combine(x)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return "list"
		}
	case *ssa.Extract:
		return "what is kept depends on which entry of a map comes last"
	}
	return ""
}

func combine(x *ssa.BinOp) string {
	b, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Info()&types.IsFloat != 0 || b.Info()&types.IsComplex != 0:
		return "fractions are added up in the order of a map, which decides their rounding"
	case b.Info()&types.IsString != 0 && x.Op == token.ADD:
		return "text is put together in the order of a map"
	}
	return ""
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	if ok1 && ok2 && fx.Field == fy.Field {
		return sameAddr(fx.X, fy.X)
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	return ok1 && ok2 && ux.Op == token.MUL && uy.Op == token.MUL && sameAddr(ux.X, uy.X)
}

func sorter(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		pk := f.Pkg.Pkg.Path()
		return pk == "sort" || pk == "slices"
	}
	return false
}

// sorted: the list is put in order after it is filled.
func sorted(fn *ssa.Function, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				if sorter(x.Common()) {
					return true
				}
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok && x.Common().StaticCallee() != nil && isRepo(x.Common().StaticCallee()) {
					return true // sorted there, perhaps
				}
			case *ssa.Store:
				if x.Val == v && sortedAt(fn, x.Addr) {
					return true
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.Convert:
				if look(r.(ssa.Value)) {
					return true
				}
			}
		}
		return false
	}
	return look(v)
}

func sortedAt(fn *ssa.Function, addr ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, addr) && sorted(fn, u) {
				return true
			}
		}
	}
	return false
}

func onlyReturn(b *ssa.BasicBlock) *ssa.Return {
	if len(b.Instrs) == 0 || len(b.Preds) != 1 {
		return nil
	}
	r, _ := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return r
}

// loopBlocks: the natural loop of a head.
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}
