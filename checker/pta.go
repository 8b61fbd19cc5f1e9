package main

// Who may point to what: an inclusion-based points-to analysis of the whole
// repository, by fields, with functions analysed once per place they are called
// from, and separately for initialisation and for what runs after it. Every
// write to memory is recorded with the locations it may change.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pobj struct {
	id    int
	typ   types.Type
	what  string // where it comes from
	boot  bool   // made during initialisation
	arg   string // an argument of an exported function, given by its caller
	glob  *ssa.Global
	fn    *ssa.Function
	binds int
}

type ploc struct {
	o    *pobj
	path string
}

type pinst struct {
	fn    *ssa.Function
	boot  bool
	site  ssa.Instruction // nil: called from outside
	stats bool
}

type pnode struct {
	pts   map[ploc]bool
	succ  map[*pnode]bool
	cons  []func(l ploc)
	dirty []ploc
}

type pkey struct {
	in   *pinst
	v    interface{}
	path string
}

type pwrite struct {
	in   *pinst
	at   ssa.Instruction
	addr *pnode
	sfx  string
}

type pta struct {
	p      *Prog
	nodes  map[pkey]*pnode
	cells  map[ploc]*pnode
	insts  map[pkey]*pinst
	objs   map[pkey]*pobj
	all    []*pobj
	work   []*pnode
	writes []pwrite
	todo   []*pinst
	gobj   map[*ssa.Global]*pobj
	byType map[string][]*pobj
	wantT  map[string][]*pnode
	conc   []types.Type // types made into interfaces or with methods
	leafs  map[types.Type][]string
	calls  map[*pinst]map[*pinst]bool
	exts   map[*pinst][]*ssa.Function // functions of other modules called
	known  map[string]bool            // operations whose arguments are protected
	kills  map[*ssa.Store]*overwritten
	fresh  map[*ssa.Function]bool // functions whose result is a deep copy
}

func (a *pta) node(in *pinst, v interface{}, path string) *pnode {
	k := pkey{in, v, path}
	n := a.nodes[k]
	if n == nil {
		n = &pnode{pts: map[ploc]bool{}, succ: map[*pnode]bool{}}
		a.nodes[k] = n
	}
	return n
}

func (a *pta) cell(l ploc) *pnode {
	n := a.cells[l]
	if n == nil {
		n = &pnode{pts: map[ploc]bool{}, succ: map[*pnode]bool{}}
		a.cells[l] = n
	}
	return n
}

func (a *pta) add(n *pnode, l ploc) {
	if !n.pts[l] {
		n.pts[l] = true
		if len(n.dirty) == 0 {
			a.work = append(a.work, n)
		}
		n.dirty = append(n.dirty, l)
	}
}

func (a *pta) flow(src, dst *pnode) {
	if src == dst || src.succ[dst] {
		return
	}
	src.succ[dst] = true
	for l := range src.pts {
		a.add(dst, l)
	}
}

// each runs f on every location n may hold, now and later.
func (a *pta) each(n *pnode, f func(l ploc)) {
	n.cons = append(n.cons, f)
	for l := range n.pts {
		f(l)
	}
}

func (a *pta) object(in *pinst, site interface{}, sub string, t types.Type, what string) *pobj {
	k := pkey{in, site, "new" + sub}
	o := a.objs[k]
	if o == nil {
		o = &pobj{id: len(a.all), typ: t, what: what, boot: in != nil && in.boot}
		a.objs[k] = o
		a.all = append(a.all, o)
		if t != nil && !o.boot && !(in != nil && a.isCopy(in.fn)) {
			s := types.TypeString(t, nil)
			a.byType[s] = append(a.byType[s], o)
			for _, n := range a.wantT[s] {
				a.add(n, ploc{o, ""})
			}
		}
	}
	return o
}

// leaves of a type: the paths at which references are found.
func (a *pta) leaves(t types.Type) []string {
	if r, ok := a.leafs[t]; ok {
		return r
	}
	var r []string
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		r = []string{""}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, q := range a.leaves(u.Field(i).Type()) {
				r = append(r, fmt.Sprintf(".%d%s", i, q))
			}
		}
	case *types.Array:
		for _, q := range a.leaves(u.Elem()) {
			r = append(r, "[]"+q)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, q := range a.leaves(u.At(i).Type()) {
				r = append(r, fmt.Sprintf("#%d%s", i, q))
			}
		}
	}
	a.leafs[t] = r
	return r
}

// val is the node of a value at a path of its type.
func (a *pta) val(in *pinst, v ssa.Value, path string) *pnode {
	switch x := v.(type) {
	case *ssa.Global:
		n := a.node(nil, x, "")
		a.add(n, ploc{a.global(x), ""})
		return n
	case *ssa.Function:
		n := a.node(nil, x, "")
		o := a.object(nil, x, "", nil, x.String())
		o.fn = x
		a.add(n, ploc{o, ""})
		return n
	}
	return a.node(in, v, path)
}

func (a *pta) global(g *ssa.Global) *pobj {
	o := a.gobj[g]
	if o == nil {
		o = &pobj{id: len(a.all), typ: g.Type().(*types.Pointer).Elem(), what: "variable " + g.Pkg.Pkg.Name() + "." + g.Name(), glob: g, boot: true}
		a.gobj[g] = o
		a.all = append(a.all, o)
	}
	return o
}

func (a *pta) copyVal(in *pinst, src ssa.Value, sp string, in2 *pinst, dst ssa.Value, dp string, t types.Type) {
	for _, q := range a.leaves(t) {
		a.flow(a.val(in, src, sp+q), a.val(in2, dst, dp+q))
	}
}

func (a *pta) loadFrom(addr *pnode, sfx string, in *pinst, dst ssa.Value, dp string, t types.Type) {
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	a.each(addr, func(l ploc) {
		for _, q := range ls {
			a.flow(a.cell(ploc{l.o, l.path + sfx + q}), a.node(in, dst, dp+q))
		}
	})
}

func (a *pta) storeTo(addr *pnode, sfx string, in *pinst, src ssa.Value, sp string, t types.Type, at ssa.Instruction) {
	a.writes = append(a.writes, pwrite{in, at, addr, sfx})
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	if _, ok := src.(*ssa.Const); ok {
		return
	}
	a.each(addr, func(l ploc) {
		for _, q := range ls {
			a.flow(a.val(in, src, sp+q), a.cell(ploc{l.o, l.path + sfx + q}))
		}
	})
}

func (a *pta) shift(src *pnode, off string, dst *pnode) {
	a.each(src, func(l ploc) {
		if len(l.path) < 60 {
			a.add(dst, ploc{l.o, l.path + off})
		}
	})
}

func (a *pta) inst(fn *ssa.Function, boot bool, site ssa.Instruction) *pinst {
	k := pkey{nil, fn, fmt.Sprint(boot)}
	if site != nil {
		k = pkey{nil, [2]interface{}{fn, site}, fmt.Sprint(boot)}
	}
	in := a.insts[k]
	if in == nil {
		in = &pinst{fn: fn, boot: boot, site: site}
		a.insts[k] = in
		a.todo = append(a.todo, in)
	}
	return in
}

func (a *pta) skip(fn *ssa.Function) bool {
	return fn.Blocks == nil || !isRepo(fn) || a.p.isSpecFn(fn)
}

// call binds a call to the body of fn.
func (a *pta) call(in *pinst, fn *ssa.Function, at ssa.Instruction, args []ssa.Value, free *ploc) {
	if a.skip(fn) {
		a.exts[in] = append(a.exts[in], fn)
		return
	}
	c := a.inst(fn, in.boot, at)
	if a.calls[in] == nil {
		a.calls[in] = map[*pinst]bool{}
	}
	a.calls[in][c] = true
	for i, p := range fn.Params {
		if i < len(args) {
			a.copyVal(in, args[i], "", c, p, "", p.Type())
		}
	}
	if free != nil {
		for i, fv := range fn.FreeVars {
			for _, q := range a.leaves(fv.Type()) {
				a.flow(a.cell(ploc{free.o, fmt.Sprintf("$%d%s", i, q)}), a.node(c, fv, q))
			}
		}
	}
	if v, ok := at.(ssa.Value); ok {
		rs := fn.Signature.Results()
		if a.isCopy(fn) {
			if pt, ok := rs.At(0).Type().Underlying().(*types.Pointer); ok {
				a.add(a.node(in, v, ""), ploc{a.copied(in, at, "", pt.Elem(), 0), ""})
				return
			}
		}
		for i := 0; i < rs.Len(); i++ {
			dp := ""
			if rs.Len() > 1 {
				dp = fmt.Sprintf("#%d", i)
			}
			for _, q := range a.leaves(rs.At(i).Type()) {
				a.flow(a.node(c, fn, fmt.Sprintf("#%d%s", i, q)), a.node(in, v, dp+q))
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *pta) common(in *pinst, at ssa.Instruction, c *ssa.CallCommon) {
	if c.IsInvoke() {
		done := map[*types.Named]bool{}
		for _, t := range a.conc {
			n, _ := deref(t).(*types.Named)
			if n == nil || done[n] {
				continue
			}
			iface := c.Value.Type().Underlying().(*types.Interface)
			var rt types.Type = n
			if !types.Implements(n, iface) {
				rt = types.NewPointer(n)
				if !types.Implements(rt, iface) {
					continue
				}
			}
			done[n] = true
			fn := a.p.ssa.LookupMethod(rt, c.Method.Pkg(), c.Method.Name())
			if fn == nil || a.skip(fn) {
				continue
			}
			callee := a.inst(fn, in.boot, at)
			if a.calls[in] == nil {
				a.calls[in] = map[*pinst]bool{}
			}
			a.calls[in][callee] = true
			recv := a.node(callee, fn.Params[0], "")
			nn := n
			ptr := false
			if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
				ptr = true
			}
			a.each(a.val(in, c.Value, ""), func(l ploc) {
				if l.path == "" && l.o.typ != nil && types.Identical(l.o.typ, nn) {
					if ptr {
						a.add(recv, l)
					} else {
						for _, q := range a.leaves(nn) {
							a.flow(a.cell(ploc{l.o, q}), a.node(callee, fn.Params[0], q))
						}
					}
				}
			})
			for i, x := range c.Args {
				a.copyVal(in, x, "", callee, fn.Params[i+1], "", x.Type())
			}
			if v, ok := at.(ssa.Value); ok {
				rs := fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					dp := ""
					if rs.Len() > 1 {
						dp = fmt.Sprintf("#%d", i)
					}
					for _, q := range a.leaves(rs.At(i).Type()) {
						a.flow(a.node(callee, fn, fmt.Sprintf("#%d%s", i, q)), a.node(in, v, dp+q))
					}
				}
			}
		}
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		a.builtin(in, at, f.Name(), c.Args)
		return
	case *ssa.Function:
		a.call(in, f, at, c.Args, nil)
		return
	}
	a.each(a.val(in, c.Value, ""), func(l ploc) {
		if l.o.fn != nil {
			a.call(in, l.o.fn, at, c.Args, &l)
		}
	})
}

func (a *pta) builtin(in *pinst, at ssa.Instruction, name string, args []ssa.Value) {
	switch name {
	case "append":
		v := at.(ssa.Value)
		el := v.Type().Underlying().(*types.Slice).Elem()
		o := a.object(in, at, "", types.NewArray(el, 0), "append at "+a.p.posOf(at.Pos()))
		dst := a.node(in, v, "")
		a.add(dst, ploc{o, ""})
		src := a.val(in, args[0], "")
		a.flow(src, dst)
		ls := a.leaves(el)
		move := func(from ploc) {
			for _, q := range ls {
				s := a.cell(ploc{from.o, from.path + "[]" + q})
				a.flow(s, a.cell(ploc{o, "[]" + q}))
				a.each(src, func(l ploc) { a.flow(s, a.cell(ploc{l.o, l.path + "[]" + q})) })
			}
		}
		a.each(src, move)
		if len(args) > 1 {
			a.each(a.val(in, args[1], ""), move)
			a.writes = append(a.writes, pwrite{in, at, src, "[]"})
		}
	case "copy":
		dst := a.val(in, args[0], "")
		a.writes = append(a.writes, pwrite{in, at, dst, "[]"})
		sl, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		ls := a.leaves(sl.Elem())
		a.each(a.val(in, args[1], ""), func(f ploc) {
			for _, q := range ls {
				s := a.cell(ploc{f.o, f.path + "[]" + q})
				a.each(dst, func(l ploc) { a.flow(s, a.cell(ploc{l.o, l.path + "[]" + q})) })
			}
		})
	case "delete", "clear":
		a.writes = append(a.writes, pwrite{in, at, a.val(in, args[0], ""), "{}"})
	}
}

func (a *pta) body(in *pinst) {
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			a.instr(in, ins)
		}
	}
}

func (a *pta) where(at ssa.Instruction) string { return a.p.posOf(at.Pos()) }

func (a *pta) instr(in *pinst, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := a.object(in, x, "", deref(x.Type()), "object made in "+shortName(in.fn))
		a.add(a.node(in, x, ""), ploc{o, ""})
	case *ssa.MakeSlice:
		o := a.object(in, x, "", types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), 0), "list made in "+shortName(in.fn))
		a.add(a.node(in, x, ""), ploc{o, ""})
	case *ssa.MakeMap:
		o := a.object(in, x, "", x.Type(), "map made in "+shortName(in.fn))
		a.add(a.node(in, x, ""), ploc{o, ""})
	case *ssa.MakeChan:
		o := a.object(in, x, "", x.Type(), "channel made in "+shortName(in.fn))
		a.add(a.node(in, x, ""), ploc{o, ""})
	case *ssa.MakeClosure:
		o := a.object(in, x, "", nil, "function in "+shortName(in.fn))
		o.fn = x.Fn.(*ssa.Function)
		a.add(a.node(in, x, ""), ploc{o, ""})
		for i, b := range x.Bindings {
			for _, q := range a.leaves(b.Type()) {
				a.flow(a.val(in, b, q), a.cell(ploc{o, fmt.Sprintf("$%d%s", i, q)}))
			}
		}
	case *ssa.MakeInterface:
		t := x.X.Type()
		if len(a.leaves(t)) == 1 && a.leaves(t)[0] == "" {
			a.flow(a.val(in, x.X, ""), a.node(in, x, ""))
			return
		}
		o := a.object(in, x, "", t, "value boxed in "+shortName(in.fn))
		a.add(a.node(in, x, ""), ploc{o, ""})
		for _, q := range a.leaves(t) {
			a.flow(a.val(in, x.X, q), a.cell(ploc{o, q}))
		}
	case *ssa.TypeAssert:
		dp := ""
		if x.CommaOk {
			dp = "#0"
		}
		t := x.AssertedType
		if len(a.leaves(t)) == 1 && a.leaves(t)[0] == "" {
			a.flow(a.val(in, x.X, ""), a.node(in, x, dp))
			return
		}
		a.loadFrom(a.val(in, x.X, ""), "", in, x, dp, t)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(in, e, "", in, x, "", x.Type())
		}
	case *ssa.ChangeType:
		a.copyVal(in, x.X, "", in, x, "", x.Type())
	case *ssa.ChangeInterface:
		a.copyVal(in, x.X, "", in, x, "", x.Type())
	case *ssa.Convert:
		if len(a.leaves(x.Type())) > 0 && len(a.leaves(x.X.Type())) > 0 {
			a.copyVal(in, x.X, "", in, x, "", x.Type())
		} else if len(a.leaves(x.Type())) > 0 {
			o := a.object(in, x, "", x.Type(), "list made in "+shortName(in.fn))
			a.add(a.node(in, x, ""), ploc{o, ""})
		}
	case *ssa.SliceToArrayPointer:
		a.flow(a.val(in, x.X, ""), a.node(in, x, ""))
	case *ssa.Slice:
		a.flow(a.val(in, x.X, ""), a.node(in, x, ""))
	case *ssa.FieldAddr:
		a.shift(a.val(in, x.X, ""), fmt.Sprintf(".%d", x.Field), a.node(in, x, ""))
	case *ssa.IndexAddr:
		a.shift(a.val(in, x.X, ""), "[]", a.node(in, x, ""))
	case *ssa.Field:
		a.copyVal(in, x.X, fmt.Sprintf(".%d", x.Field), in, x, "", x.Type())
	case *ssa.Index:
		a.copyVal(in, x.X, "[]", in, x, "", x.Type())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			dp := ""
			if x.CommaOk {
				dp = "#0"
			}
			a.loadFrom(a.val(in, x.X, ""), "{}", in, x, dp, x.X.Type().Underlying().(*types.Map).Elem())
		}
	case *ssa.Range:
		a.flow(a.val(in, x.X, ""), a.node(in, x, ""))
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
				a.loadFrom(a.val(in, r, ""), "{}", in, x, "#2", mt.Elem())
			}
		}
	case *ssa.Extract:
		a.copyVal(in, x.Tuple, fmt.Sprintf("#%d", x.Index), in, x, "", x.Type())
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			a.loadFrom(a.val(in, x.X, ""), "", in, x, "", x.Type())
		case "<-":
			dp := ""
			t := x.Type()
			if x.CommaOk {
				dp = "#0"
				t = t.(*types.Tuple).At(0).Type()
			}
			a.loadFrom(a.val(in, x.X, ""), "{}", in, x, dp, t)
		}
	case *ssa.Store:
		if o := a.overwrites(x); o != nil {
			a.storeCopy(in, x, o)
			return
		}
		a.storeTo(a.val(in, x.Addr, ""), "", in, x.Val, "", x.Val.Type(), x)
	case *ssa.MapUpdate:
		a.storeTo(a.val(in, x.Map, ""), "{}", in, x.Value, "", x.Value.Type(), x)
	case *ssa.Send:
		a.storeTo(a.val(in, x.Chan, ""), "{}", in, x.X, "", x.X.Type(), x)
	case *ssa.Return:
		for i, r := range x.Results {
			for _, q := range a.leaves(r.Type()) {
				a.flow(a.val(in, r, q), a.node(in, in.fn, fmt.Sprintf("#%d%s", i, q)))
			}
		}
	case ssa.CallInstruction:
		a.common(in, x, x.Common())
	}
}

func (a *pta) solve() {
	for len(a.work) > 0 || len(a.todo) > 0 {
		for len(a.todo) > 0 {
			in := a.todo[len(a.todo)-1]
			a.todo = a.todo[:len(a.todo)-1]
			a.body(in)
		}
		if len(a.work) == 0 {
			break
		}
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		d := n.dirty
		n.dirty = nil
		for _, l := range d {
			for s := range n.succ {
				a.add(s, l)
			}
			for i := 0; i < len(n.cons); i++ {
				n.cons[i](l)
			}
		}
	}
}

// given makes an object handed over by a caller outside the repository.
func (a *pta) given(root, path string, t types.Type, arg string, depth int) *pobj {
	k := pkey{nil, root + "|" + types.TypeString(t, nil) + "|" + path, "ext"}
	if o := a.objs[k]; o != nil {
		return o
	}
	o := &pobj{id: len(a.all), typ: t, what: "what " + root + " is given", arg: arg}
	a.objs[k] = o
	a.all = append(a.all, o)
	a.fill(o, "", t, root, arg, depth)
	return o
}

func (a *pta) fill(o *pobj, path string, t types.Type, root, arg string, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a.fill(o, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type(), root, arg, depth)
		}
	case *types.Array:
		a.fill(o, path+"[]", u.Elem(), root, arg, depth)
	case *types.Pointer:
		a.add(a.cell(ploc{o, path}), ploc{a.given(root, sub(path, depth), u.Elem(), arg, depth+1), ""})
	case *types.Slice:
		a.add(a.cell(ploc{o, path}), ploc{a.given(root, sub(path, depth), types.NewArray(u.Elem(), 0), arg, depth+1), ""})
	case *types.Map:
		m := a.given(root, sub(path, depth), t, arg, depth+1)
		a.add(a.cell(ploc{o, path}), ploc{m, ""})
		if depth < 6 {
			a.fill(m, "{}", u.Elem(), root, arg, depth+1)
		}
	}
}

func sub(path string, depth int) string {
	if depth > 3 {
		return ""
	}
	return path
}

// protected: arguments of this type stay the caller's.
func (a *pta) protected(fn *ssa.Function, t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		if types.Identical(u.Elem(), a.p.u256) {
			return true
		}
		n, ok := u.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Pool" && fn.Signature.Recv() == nil && fn.Pkg.Pkg.Name() == "strategy"
	case *types.Slice:
		if p, ok := u.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), a.p.u256) {
			return true
		}
		n, ok := u.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Transaction"
	}
	return false
}

// root analyses fn as called from outside with anything.
func (a *pta) root(fn *ssa.Function) {
	in := a.inst(fn, false, nil)
	for i, p := range fn.Params {
		recv := i == 0 && fn.Signature.Recv() != nil
		t := p.Type()
		name := shortName(fn) + "'s " + p.Name()
		if !recv && a.known[shortName(fn)] && a.protected(fn, t) {
			arg := fmt.Sprintf("argument %s of %s", p.Name(), shortName(fn))
			h := a.given(name, "", types.NewPointer(t), arg, 0)
			a.fill(h, "@", t, name, arg, 0)
			a.flow(a.cell(ploc{h, "@"}), a.node(in, p, ""))
			continue
		}
		h := a.given(name, "", types.NewPointer(t), "", 0)
		a.fill(h, "@", t, name, "", 0)
		for _, q := range a.leaves(t) {
			a.flow(a.cell(ploc{h, "@" + q}), a.node(in, p, q))
		}
		want := func(t types.Type, n *pnode) {
			s := types.TypeString(t, nil)
			a.wantT[s] = append(a.wantT[s], n)
			for _, o := range a.byType[s] {
				a.add(n, ploc{o, ""})
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if !types.Identical(u.Elem(), a.p.u256) {
				want(u.Elem(), a.node(in, p, ""))
			}
		case *types.Interface:
			for _, c := range a.conc {
				if types.Implements(c, u) {
					want(deref(c), a.node(in, p, ""))
				}
			}
		}
	}
}

// pointsTo analyses the repository.
func pointsTo(p *Prog) *pta {
	a := &pta{p: p, nodes: map[pkey]*pnode{}, cells: map[ploc]*pnode{}, insts: map[pkey]*pinst{}, objs: map[pkey]*pobj{},
		gobj: map[*ssa.Global]*pobj{}, byType: map[string][]*pobj{}, wantT: map[string][]*pnode{}, leafs: map[types.Type][]string{},
		calls: map[*pinst]map[*pinst]bool{}, exts: map[*pinst][]*ssa.Function{}, kills: map[*ssa.Store]*overwritten{}, fresh: deepCopies(p)}
	a.known = map[string]bool{}
	for _, pr := range properties() {
		for _, r := range pr.rules {
			if t, ok := r.(*target); ok {
				a.known[t.fn] = true
			}
		}
	}
	for _, q := range p.pkgs {
		for _, name := range q.Types.Scope().Names() {
			tn, ok := q.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok && n.NumMethods() > 0 {
				a.conc = append(a.conc, n, types.NewPointer(n))
			}
		}
	}
	for _, q := range p.pkgs {
		if f := p.spkg[q.PkgPath].Func("init"); f != nil {
			a.inst(f, true, nil)
		}
	}
	a.solve()
	for _, fn := range a.roots() {
		a.root(fn)
	}
	a.solve()
	return a
}

// roots: what code outside the repository can start.
func (a *pta) roots() (rs []*ssa.Function) {
	names := make([]string, 0, len(a.p.funcs))
	for n := range a.p.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := a.p.funcs[n]
		if a.skip(fn) || fn.Pkg == nil {
			continue
		}
		pk := fn.Pkg.Pkg.Name()
		if pk == "uint256" {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() || pk == "main" && fn.Name() == "main" {
			if strings.HasPrefix(fn.Name(), "init") && fn.Synthetic != "" {
				continue
			}
			rs = append(rs, fn)
		}
	}
	return rs
}
