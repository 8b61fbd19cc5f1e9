package main

// A structure copied whole into a local variable and then given new fields
// before anyone else can see it does not keep the fields it was copied with.

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type overwritten struct {
	fields map[int]bool            // the fields the copy does not keep
	loads  map[int][]*ssa.UnOp     // reads of such a field that may see the copied one
	addrs  map[*ssa.FieldAddr]bool // addresses used only for reading and writing
}

// pathAvoiding: is there a path from just after instruction s to instruction u that
// does not pass an instruction of stop?
func pathAvoiding(s, u ssa.Instruction, stop map[ssa.Instruction]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) bool
	scan = func(b *ssa.BasicBlock, from int) bool {
		for _, i := range b.Instrs[from:] {
			if i == u {
				return true
			}
			if stop[i] {
				return false
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if scan(n, 0) {
					return true
				}
			}
		}
		return false
	}
	b := s.Block()
	for k, i := range b.Instrs {
		if i == s {
			return scan(b, k+1)
		}
	}
	return true
}

// overwrites finds the fields of the copy stored by s that are always replaced
// before the copy is seen from elsewhere.
func (a *pta) overwrites(s *ssa.Store) *overwritten {
	if o, ok := a.kills[s]; ok {
		return o
	}
	a.kills[s] = nil
	al, ok := s.Addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if _, ok := s.Val.(*ssa.Const); ok {
		return nil
	}
	if al.Referrers() == nil {
		return nil
	}
	var escapes []ssa.Instruction
	byField := map[int][]*ssa.FieldAddr{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			byField[x.Field] = append(byField[x.Field], x)
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == al && x.Val != al {
				continue // another copy, with fields of its own
			}
			escapes = append(escapes, r)
		default:
			escapes = append(escapes, r)
		}
	}
	o := &overwritten{fields: map[int]bool{}, loads: map[int][]*ssa.UnOp{}, addrs: map[*ssa.FieldAddr]bool{}}
	for f, fas := range byField {
		stop := map[ssa.Instruction]bool{}
		var loads []*ssa.UnOp
		plain := true
		for _, fa := range fas {
			for _, r := range *fa.Referrers() {
				switch x := r.(type) {
				case *ssa.UnOp:
					loads = append(loads, x)
				case *ssa.Store:
					if x.Addr != fa || x.Val == ssa.Value(fa) {
						plain = false
					} else {
						stop[x] = true
					}
				case *ssa.DebugRef:
				default:
					plain = false
				}
			}
		}
		if !plain || len(stop) == 0 {
			continue
		}
		for _, e := range escapes {
			if pathAvoiding(s, e, stop) {
				plain = false
			}
		}
		if !plain {
			continue
		}
		o.fields[f] = true
		for _, l := range loads {
			if pathAvoiding(s, l, stop) {
				o.loads[f] = append(o.loads[f], l)
			}
		}
	}
	if len(o.fields) == 0 {
		return nil
	}
	a.kills[s] = o
	return o
}

// storeCopy is the store of a whole structure without the fields it loses.
func (a *pta) storeCopy(in *pinst, s *ssa.Store, o *overwritten) {
	addr := a.val(in, s.Addr, "")
	a.writes = append(a.writes, pwrite{in, s, addr, ""})
	lost := func(q string) int {
		for f := range o.fields {
			p := fmt.Sprintf(".%d", f)
			if len(q) >= len(p) && q[:len(p)] == p && (len(q) == len(p) || q[len(p)] < '0' || q[len(p)] > '9') {
				return f
			}
		}
		return -1
	}
	for _, q := range a.leaves(s.Val.Type()) {
		q := q
		f := lost(q)
		if f < 0 {
			a.each(addr, func(l ploc) { a.flow(a.val(in, s.Val, q), a.cell(ploc{l.o, l.path + q})) })
			continue
		}
		rest := q[len(fmt.Sprintf(".%d", f)):]
		for _, l := range o.loads[f] {
			a.flow(a.val(in, s.Val, q), a.node(in, l, rest))
		}
	}
}

// deepCopies: the functions that return a copy sharing nothing with what they
// copy. They are decided by value (C12); unless one of them shares something,
// their results are taken to be new all the way down. True: that was shown.
func deepCopies(p *Prog) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, ru := range cat(std("position", "Info.Clone"), std("tickdata", "TickData.Clone"), std("pool", "Pool.Clone")) {
		t := ru.(*target)
		fn := p.funcs[t.fn]
		if fn == nil {
			continue
		}
		proved := false
		for _, o := range undecidedOnPanic(func() []*outcome { return t.run(p, time.Now().Add(60*time.Second)) }) {
			if o.status == "violated" {
				return nil
			}
			proved = o.status == "ok"
		}
		if fn.Signature.Recv() != nil && len(fn.Params) == 1 && fn.Signature.Results().Len() == 1 {
			r[fn] = proved
		}
	}
	return r
}

func (a *pta) isCopy(fn *ssa.Function) bool {
	_, ok := a.fresh[fn]
	return ok
}

func undecidedOnPanic(f func() []*outcome) (r []*outcome) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return f()
}

// copied is a new object of type t and all it leads to, made by the call at.
func (a *pta) copied(in *pinst, at ssa.Instruction, path string, t types.Type, depth int) *pobj {
	k := "copy" + sub(path, depth) + "|" + types.TypeString(t, nil)
	known := a.objs[pkey{in, at, "new" + k}] != nil
	o := a.object(in, at, k, t, "copy made at "+a.where(at))
	if known {
		return o
	}
	var fill func(path string, t types.Type)
	fill = func(path string, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fill(fmt.Sprintf("%s.%d", path, i), u.Field(i).Type())
			}
		case *types.Array:
			fill(path+"[]", u.Elem())
		case *types.Pointer:
			a.add(a.cell(ploc{o, path}), ploc{a.copied(in, at, k+path, u.Elem(), depth+1), ""})
		case *types.Slice:
			a.add(a.cell(ploc{o, path}), ploc{a.copied(in, at, k+path, types.NewArray(u.Elem(), 0), depth+1), ""})
		case *types.Map:
			a.add(a.cell(ploc{o, path}), ploc{a.copied(in, at, k+path, u, depth+1), ""})
		}
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		fill("{}", m.Elem())
	} else {
		fill("", t)
	}
	return o
}
