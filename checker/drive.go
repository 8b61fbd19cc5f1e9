package main

// The main program followed with what is known of it at every step: numbers
// that are constants are known, everything read or returned from elsewhere is a
// name. Runs it starts are recorded with their arguments, taken both when they
// are started and when they are waited for.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type aval interface{}

type asym struct {
	id   int
	op   string
	args []aval
	call *ssa.Function
	typ  types.Type
	some bool // not nil
	bad  bool // the error of the operation that fails
	in   bool // made while following a task
	seq  int  // which one in it, 0 if it is what op makes of args
}

type aobj struct {
	id    int
	typ   types.Type
	cells map[string]aval
	ln    int64 // lists: their length, -1 unknown
	list  bool
	runs  bool // the list of results
	seq   int  // made while following a task: which one
}

type aptr struct {
	o    *aobj
	path string
}

type aslice struct {
	o      *aobj
	lo, hi int64 // -1 unknown
}

type afn struct {
	fn    *ssa.Function
	binds []aval
}

type aagg struct{ f map[string]aval } // by path

type atuple []aval

type task struct {
	f      aval
	args   []aval
	site   ssa.Instruction
	first  []*oneRun
	dones  int
	joined bool
	auto   bool // registered and announced by the group itself
}

type oneRun struct {
	args []aval
	at   ssa.Instruction
}

type driver struct {
	p     *Prog
	o     *outcome
	ids   int
	seq   int // in the task being followed
	cons  map[string]*asym
	steps int
	depth int
	// the task being followed, if any
	cur      *task
	runs     []*oneRun
	dones    int
	tasks    []*task
	adds     int64
	open     int // tasks started and not waited for
	blocked  bool
	inter    map[*ssa.Function]bool
	globals  map[*ssa.Global]*aobj
	run      *ssa.Function
	runDones bool
	saves    []*saving
	started  int64
	added    map[string]int64
	direct   []*oneRun
	journal  map[*aobj]map[string]aval
	waiting  bool
	// failures of operations
	faults    map[string]bool // those met, by place
	fail      string          // the one that happens
	choices   []bool
	chosen    int
	hit       bool // it has happened
	panicking bool
	files     map[*asym]*fileUse
	order     []string
	// some goroutine or channel operation other than the group is there
	blockedAny bool
}

// saving: a call that is given the results.
type saving struct {
	fn   *ssa.Function
	args []aval
	at   ssa.Instruction
}

type giveUp struct {
	why    string
	failed bool // the program ends with a failure
	panics bool // which a deferred function may take back
	over   bool // the program ends, successfully
}

func (d *driver) quit(format string, args ...interface{}) {
	panic(giveUp{why: fmt.Sprintf(format, args...)})
}

func (d *driver) at(i ssa.Instruction) string {
	return shortName(i.Parent()) + " (" + d.p.posOf(i.Pos()) + ")"
}

func (d *driver) fresh(op string, t types.Type) *asym {
	d.ids++
	s := &asym{id: d.ids, op: op, typ: t}
	if d.cur != nil {
		d.seq++
		s.in, s.seq = true, d.seq
	}
	return s
}

// expr: the value of an operation on values, the same for the same.
func (d *driver) expr(op string, t types.Type, args ...aval) aval {
	k := op
	for _, x := range args {
		k += "|" + akey(x)
	}
	if s := d.cons[k]; s != nil {
		return s
	}
	s := d.fresh(op, t)
	s.args = args
	if s.in {
		s.seq = 0
		d.seq--
	}
	d.cons[k] = s
	return s
}

// again is the key of a value by how a task came by it, the same whenever the
// task does the same.
func again(v aval) string {
	switch x := v.(type) {
	case *asym:
		if !x.in {
			return akey(x)
		}
		k := fmt.Sprintf("%s#%d(", x.op, x.seq)
		for _, y := range x.args {
			k += again(y) + ","
		}
		return k + ")"
	case aagg:
		var ks []string
		for k := range x.f {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + "=" + again(x.f[k]) + ";"
		}
		return s + "}"
	case aptr:
		if x.o.seq > 0 {
			return fmt.Sprintf("P%d%s", x.o.seq, x.path)
		}
	case aslice:
		if x.o.seq > 0 {
			return fmt.Sprintf("L%d:%d:%d", x.o.seq, x.lo, x.hi)
		}
	case afn:
		s := "f" + x.fn.String()
		for _, b := range x.binds {
			s += "," + again(b)
		}
		return s
	}
	return akey(v)
}

func akey(v aval) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *asym:
		return fmt.Sprintf("s%d", x.id)
	case aptr:
		return fmt.Sprintf("p%d%s", x.o.id, x.path)
	case aslice:
		return fmt.Sprintf("l%d:%d:%d", x.o.id, x.lo, x.hi)
	case afn:
		s := "f" + x.fn.String()
		for _, b := range x.binds {
			s += "," + akey(b)
		}
		return s
	case aagg:
		var ks []string
		for k := range x.f {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + "=" + akey(x.f[k]) + ";"
		}
		return s + "}"
	case atuple:
		s := "("
		for _, y := range x {
			s += akey(y) + ","
		}
		return s + ")"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func (d *driver) object(t types.Type) *aobj {
	d.ids++
	o := &aobj{id: d.ids, typ: t, cells: map[string]aval{}, ln: -1}
	if d.cur != nil {
		d.seq++
		o.seq = d.seq
	}
	return o
}

// zero of a type.
func (d *driver) zero(t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return nil
	case *types.Struct, *types.Array:
		return aagg{map[string]aval{}}
	}
	return nil
}

func (d *driver) load(o *aobj, path string, t types.Type) aval {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		a := aagg{map[string]aval{}}
		for k, v := range o.cells {
			if strings.HasPrefix(k, path) && (len(k) == len(path) || k[len(path)] == '.' || k[len(path)] == '[') {
				a.f[k[len(path):]] = v
			}
		}
		return a
	}
	if v, ok := o.cells[path]; ok {
		return v
	}
	if o.runs || o.ln < 0 && o.list {
		return d.fresh("read", t)
	}
	if v, ok := o.cells["?"]; ok && v != nil {
		return d.expr("part", t, v, path)
	}
	return d.zero(t)
}

func (d *driver) store(o *aobj, path string, v aval) {
	for k := range o.cells {
		if strings.HasPrefix(k, path) && len(k) > len(path) && (k[len(path)] == '.' || k[len(path)] == '[') {
			delete(o.cells, k)
		}
	}
	if a, ok := v.(aagg); ok {
		delete(o.cells, path)
		for k, x := range a.f {
			o.cells[path+k] = x
		}
		return
	}
	o.cells[path] = v
}

// lose: something unknown may have changed what v refers to.
func (d *driver) lose(v aval, seen map[*aobj]bool) {
	var o *aobj
	switch x := v.(type) {
	case aptr:
		o = x.o
	case aslice:
		o = x.o
	case afn:
		for _, b := range x.binds {
			d.lose(b, seen)
		}
		return
	case aagg:
		for _, y := range x.f {
			d.lose(y, seen)
		}
		return
	}
	if o == nil || seen[o] {
		return
	}
	seen[o] = true
	for _, y := range o.cells {
		d.lose(y, seen)
	}
	if !o.runs {
		o.cells = map[string]aval{"?": d.fresh("changed", o.typ)}
	}
}

// holds: whether the results can be reached from v.
func (d *driver) holds(v aval, seen map[*aobj]bool) bool {
	var o *aobj
	switch x := v.(type) {
	case aptr:
		o = x.o
	case aslice:
		o = x.o
	case afn:
		for _, b := range x.binds {
			if d.holds(b, seen) {
				return true
			}
		}
		return false
	case aagg:
		for _, y := range x.f {
			if d.holds(y, seen) {
				return true
			}
		}
		return false
	}
	if o == nil || seen[o] {
		return false
	}
	seen[o] = true
	if o.runs {
		return true
	}
	for _, y := range o.cells {
		if d.holds(y, seen) {
			return true
		}
	}
	return false
}

// interesting: functions of the program that start or wait for runs.
func (d *driver) interesting(fn *ssa.Function) bool {
	if r, ok := d.inter[fn]; ok {
		return r
	}
	d.inter[fn] = false
	if d.faults != nil && d.canFail(fn) {
		d.inter[fn] = true
		return true
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Go); ok {
				d.inter[fn] = true
				return true
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				f := c.Common().StaticCallee()
				if f == nil {
					continue
				}
				if groupOp(f) != "" || f == d.run || isMaker(f) {
					d.inter[fn] = true
					return true
				}
				if pkgOf(f) == modPath && f.Blocks != nil && d.interesting(f) {
					d.inter[fn] = true
					return true
				}
			}
			if m, ok := i.(*ssa.MakeClosure); ok && d.interesting(m.Fn.(*ssa.Function)) {
				d.inter[fn] = true
				return true
			}
		}
	}
	return d.inter[fn]
}

func groupOp(f *ssa.Function) string {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Signature.Recv() == nil {
		return ""
	}
	n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Name() != "WaitGroup" {
		return ""
	}
	return f.Name()
}

func isMaker(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk == modPath+"/lib/executor" && f.Name() == "CreateExecution" || pk == modPath+"/lib/strategy" && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "New")
}

type dframe struct {
	fn    *ssa.Function
	v     map[ssa.Value]aval
	defs  []*ssa.Defer
	dargs [][]aval
	dfn   []aval
}

func (d *driver) val(fr *dframe, v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return d.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return constant.BoolVal(x.Value)
		case constant.String:
			return constant.StringVal(x.Value)
		case constant.Int:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if n, ok := constant.Int64Val(x.Value); ok {
					return n
				}
			}
		case constant.Float:
		}
		return d.expr("const "+x.Value.ExactString()+" "+x.Type().String(), x.Type())
	case *ssa.Function:
		return afn{fn: x}
	case *ssa.Global:
		o := d.globals[x]
		if o == nil {
			o = d.object(deref(x.Type()))
			o.cells["?"] = d.expr("variable "+x.String(), x.Type())
			if !isRepoPkg(x.Pkg) {
				o.cells["?"] = d.fresh("variable", x.Type())
			}
			d.globals[x] = o
		}
		return aptr{o, ""}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.v[v]
	if !ok {
		d.quit("%s is not known", v.Name())
	}
	return r
}

// sized cuts a number to its type.
func sized(t types.Type, n int64) (aval, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return n, true
	case types.Int32:
		return int64(int32(n)), true
	case types.Int16:
		return int64(int16(n)), true
	case types.Int8:
		return int64(int8(n)), true
	case types.Uint8:
		return int64(uint8(n)), true
	case types.Uint16:
		return int64(uint16(n)), true
	case types.Uint32:
		return int64(uint32(n)), true
	case types.Uint, types.Uint64, types.Uintptr:
		return n, n >= 0
	}
	return nil, false
}

func (d *driver) binop(x *ssa.BinOp, a, b aval) aval {
	if p, ok := a.(int64); ok {
		if q, ok := b.(int64); ok {
			var r int64
			switch x.Op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				if q == 0 {
					d.quit("division by zero")
				}
				r = p / q
			case token.REM:
				if q == 0 {
					d.quit("division by zero")
				}
				r = p % q
			case token.SHL:
				r = p << uint(q)
			case token.SHR:
				r = p >> uint(q)
			case token.AND:
				r = p & q
			case token.OR:
				r = p | q
			case token.XOR:
				r = p ^ q
			case token.AND_NOT:
				r = p &^ q
			case token.EQL:
				return p == q
			case token.NEQ:
				return p != q
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			}
			if v, ok := sized(x.Type(), r); ok {
				return v
			}
			return d.expr(x.Op.String(), x.Type(), a, b)
		}
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		eq := x.Op == token.EQL
		if p, ok := a.(bool); ok {
			if q, ok := b.(bool); ok {
				return (p == q) == eq
			}
		}
		if p, ok := a.(string); ok {
			if q, ok := b.(string); ok {
				return (p == q) == eq
			}
		}
		ya, sa := a.(*asym)
		yb, sb := b.(*asym)
		if sa && ya.some && b == nil || sb && yb.some && a == nil {
			return !eq
		}
		if !sa && !sb && (a == nil || b == nil) {
			return ((a == nil) == (b == nil)) == eq
		}
	}
	if x.Op == token.ADD {
		if p, ok := a.(string); ok {
			if q, ok := b.(string); ok {
				return p + q
			}
		}
	}
	return d.expr(x.Op.String(), x.Type(), a, b)
}

// function follows fn; its results.
func (d *driver) function(fn *ssa.Function, args, binds []aval) (res []aval) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 60 || fn.Blocks == nil {
		d.quit("%s goes too deep", shortName(fn))
	}
	fr := &dframe{fn: fn, v: map[ssa.Value]aval{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.v[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		fr.v[f] = binds[i]
	}
	depth := d.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		g, is := r.(giveUp)
		if !is || !g.panics || len(fr.defs) == 0 {
			panic(r)
		}
		d.depth = depth
		was := d.panicking
		d.panicking = true
		d.deferred(fr)
		if d.panicking {
			d.panicking = was
			panic(r)
		}
		d.panicking = was
		res = nil
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, d.fresh("left", rs.At(i).Type()))
		}
	}()
	var prev *ssa.BasicBlock
	var met map[*ssa.Phi]aval
	b := fn.Blocks[0]
	for {
		// all phis at once
		var phis []aval
		var names []*ssa.Phi
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var v aval
			for i, p := range b.Preds {
				if met == nil && p == prev {
					v = d.val(fr, phi.Edges[i])
				}
			}
			if met != nil {
				v = met[phi]
			}
			phis = append(phis, v)
			names = append(names, phi)
		}
		for i, n := range names {
			fr.v[n] = phis[i]
		}
		met = nil
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			d.steps++
			if d.steps > 60_000_000 {
				d.quit("too many steps")
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				switch c := d.val(fr, x.Cond).(type) {
				case bool:
					if c {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				default:
					if d.faults != nil && d.deps(c, map[*aobj]bool{}) {
						if d.choose() {
							next = b.Succs[0]
						} else {
							next = b.Succs[1]
						}
						break
					}
					if d.faults == nil {
						next, met = d.either(fr, x)
						break
					}
					func() {
						defer func() {
							if r := recover(); r != nil {
								if g, is := r.(giveUp); !is || g.failed || g.over {
									panic(r)
								}
								next, met = nil, nil
							}
						}()
						next, met = d.either(fr, x)
					}()
					if next == nil {
						next = b.Succs[1]
						if d.choose() {
							next = b.Succs[0]
						}
					}
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				for _, r := range x.Results {
					res = append(res, d.val(fr, r))
				}
				if len(fr.defs) > 0 { // without recover, deferred calls come before
					d.deferred(fr)
				}
				return res
			case *ssa.Panic:
				panic(giveUp{why: "stops at " + d.p.posOf(x.Pos()), failed: true, panics: true})
			case *ssa.RunDefers:
				d.deferred(fr)
			default:
				d.step(fr, ins)
			}
			if next != nil {
				break
			}
		}
		prev, b = b, next
		if b == nil {
			d.quit("lost the way in %s", shortName(fn))
		}
	}
}

func (d *driver) deferred(fr *dframe) {
	for len(fr.defs) > 0 {
		n := len(fr.defs) - 1
		x, as, f := fr.defs[n], fr.dargs[n], fr.dfn[n]
		fr.defs, fr.dargs, fr.dfn = fr.defs[:n], fr.dargs[:n], fr.dfn[:n]
		d.invoke(fr, x, x.Common(), f, as)
	}
}

// fails: the block ends the program.
func fails(b *ssa.BasicBlock) bool {
	for n := 0; n < 6; n++ {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Panic); ok {
				return true
			}
			if c, ok := ins.(ssa.CallInstruction); ok && stops(c.Common()) {
				return true
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

func stops(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "os":
		return f.Name() == "Exit"
	case "log":
		return strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic")
	}
	return false
}

// either: a condition that is not known. One way ends the program, or both do
// nothing that matters here.
func (d *driver) either(fr *dframe, x *ssa.If) (*ssa.BasicBlock, map[*ssa.Phi]aval) {
	b := x.Block()
	f0, f1 := fails(b.Succs[0]), fails(b.Succs[1])
	arrive := func(to *ssa.BasicBlock, from map[*ssa.BasicBlock]bool) map[*ssa.Phi]aval {
		met := map[*ssa.Phi]aval{}
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var same aval
			first := true
			for i, p := range to.Preds {
				if !from[p] {
					continue
				}
				v := d.val(fr, phi.Edges[i])
				if !first && akey(v) != akey(same) {
					same = d.fresh("either", phi.Type())
					break
				}
				same, first = v, false
			}
			met[phi] = same
		}
		return met
	}
	if f0 != f1 {
		to := b.Succs[0]
		if f0 {
			to = b.Succs[1]
		}
		return to, arrive(to, map[*ssa.BasicBlock]bool{b: true})
	}
	join := d.postdom(b)
	if join == nil {
		d.quit("what happens after %s is not known", d.p.posOf(x.Cond.Pos()))
	}
	region := map[*ssa.BasicBlock]bool{b: true}
	again := false
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		again = again || q == b
		if q == join || region[q] {
			continue
		}
		region[q] = true
		work = append(work, q.Succs...)
	}
	for _, q := range b.Parent().Blocks {
		if !region[q] || q == b && !again {
			continue
		}
		for _, ins := range q.Instrs {
			switch y := ins.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Return, *ssa.Select, *ssa.Send:
				d.quit("whether %s is reached is not known", d.p.posOf(ins.Pos()))
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && (groupOp(f) != "" || f == d.run || isMaker(f) || pkgOf(f) == modPath && d.interesting(f)) {
					d.quit("whether %s is reached is not known", d.p.posOf(ins.Pos()))
				}
				for _, a := range y.Call.Args {
					if v, ok := fr.v[within(a)]; ok {
						if d.holds(v, map[*aobj]bool{}) {
							d.reads(ins)
						}
						d.lose(v, map[*aobj]bool{})
					}
				}
			case *ssa.Store:
				w := within(y.Addr)
				if g, ok := w.(*ssa.Global); ok {
					d.lose(d.val(fr, g), map[*aobj]bool{})
				} else if v, ok := fr.v[w]; ok {
					d.lose(v, map[*aobj]bool{})
				}
			}
		}
	}
	for _, q := range b.Parent().Blocks {
		if !region[q] || q == b && !again {
			continue
		}
		for _, ins := range q.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				fr.v[v] = d.fresh("either", v.Type())
			}
		}
	}
	return join, arrive(join, region)
}

// postdom: where every way on from b meets again.
func (d *driver) postdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	// blocks from which the program just fails do not count
	reach := func(from *ssa.BasicBlock, avoid *ssa.BasicBlock) bool { // can leave fn without avoid
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{from}
		for len(work) > 0 {
			q := work[0]
			work = work[1:]
			if q == avoid || seen[q] {
				continue
			}
			seen[q] = true
			if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok {
				return true
			}
			work = append(work, q.Succs...)
		}
		return false
	}
	var best *ssa.BasicBlock
	for _, q := range fn.Blocks {
		if q == b {
			continue
		}
		ok := true
		for _, s := range b.Succs {
			if reach(s, q) {
				ok = false
			}
		}
		if !ok || len(q.Preds) == 0 || !from(b, q) {
			continue
		}
		// the first of them: the others come after it
		if best == nil || reachWithout(b, q, best) && !reachWithout(b, best, q) {
			best = q
		}
	}
	return best
}

func from(b, q *ssa.BasicBlock) bool { return reachWithout(b, q, nil) }

// reachWithout: q can be reached from b's successors without passing through avoid.
func reachWithout(b, q, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == avoid || seen[x] {
			continue
		}
		if x == q {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// step does one instruction.
func (d *driver) step(fr *dframe, ins ssa.Instruction) {
	set := func(v aval) { fr.v[ins.(ssa.Value)] = v }
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := d.object(deref(x.Type()))
		if at, ok := o.typ.Underlying().(*types.Array); ok {
			// a list of constant length
			if t, ok := at.Elem().(*types.Named); ok && t.Obj().Name() == "RunResult" {
				o.runs, o.ln = true, at.Len()
			}
		}
		set(aptr{o, ""})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		o := d.object(el)
		o.list = true
		n := int64(-1)
		if k, ok := d.val(fr, x.Len).(int64); ok {
			n = k
		}
		o.ln = n
		if t, ok := el.(*types.Named); ok && t.Obj().Name() == "RunResult" {
			o.runs = true
		}
		set(aslice{o, 0, n})
	case *ssa.MakeClosure:
		f := afn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, d.val(fr, b))
		}
		set(f)
	case *ssa.MakeMap, *ssa.MakeChan:
		set(d.fresh("made", x.(ssa.Value).Type()))
	case *ssa.MakeInterface:
		set(d.val(fr, x.X))
	case *ssa.ChangeInterface:
		set(d.val(fr, x.X))
	case *ssa.ChangeType:
		set(d.val(fr, x.X))
	case *ssa.TypeAssert:
		v := d.val(fr, x.X)
		if x.CommaOk {
			set(atuple{v, d.fresh("is", types.Typ[types.Bool])})
		} else {
			set(v)
		}
	case *ssa.Convert:
		v := d.val(fr, x.X)
		if n, ok := v.(int64); ok {
			if r, ok := sized(x.Type(), n); ok {
				set(r)
				return
			}
		}
		set(d.expr("convert "+x.Type().String(), x.Type(), v))
	case *ssa.BinOp:
		set(d.binop(x, d.val(fr, x.X), d.val(fr, x.Y)))
	case *ssa.UnOp:
		v := d.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			set(d.deref(v, x.Type(), ins))
		case token.SUB:
			if n, ok := v.(int64); ok {
				set(-n)
				return
			}
			set(d.expr("-", x.Type(), v))
		case token.NOT:
			if c, ok := v.(bool); ok {
				set(!c)
				return
			}
			set(d.expr("!", x.Type(), v))
		case token.ARROW:
			if d.cur == nil {
				d.blocked = true
			}
			set(d.fresh("received", x.Type()))
		default:
			set(d.expr(x.Op.String(), x.Type(), v))
		}
	case *ssa.FieldAddr:
		v := d.val(fr, x.X)
		if p, ok := v.(aptr); ok {
			set(aptr{p.o, fmt.Sprintf("%s.%d", p.path, x.Field)})
			return
		}
		set(d.expr(fmt.Sprintf("field %d", x.Field), x.Type(), v))
	case *ssa.Field:
		v := d.val(fr, x.X)
		if a, ok := v.(aagg); ok {
			o := d.object(x.X.Type())
			for k, y := range a.f {
				o.cells[k] = y
			}
			set(d.load(o, fmt.Sprintf(".%d", x.Field), x.Type()))
			return
		}
		if s, ok := v.(*asym); ok && s.op == "load" {
			set(d.expr("load", x.Type(), d.expr(fmt.Sprintf("field %d", x.Field), types.NewPointer(x.Type()), s.args[0])))
			return
		}
		set(d.expr(fmt.Sprintf("part %d", x.Field), x.Type(), v))
	case *ssa.IndexAddr:
		v, i := d.val(fr, x.X), d.val(fr, x.Index)
		switch p := v.(type) {
		case aslice:
			if n, ok := i.(int64); ok && p.lo >= 0 {
				if p.hi >= 0 && (n < 0 || n >= p.hi-p.lo) {
					d.quit("index out of range at %s", d.p.posOf(x.Pos()))
				}
				set(aptr{p.o, fmt.Sprintf("[%d]", p.lo+n)})
				return
			}
			set(aptr{p.o, "[?]"})
			return
		case aptr:
			if n, ok := i.(int64); ok {
				set(aptr{p.o, fmt.Sprintf("%s[%d]", p.path, n)})
				return
			}
			set(aptr{p.o, p.path + "[?]"})
			return
		}
		set(d.expr("index", x.Type(), v, i))
	case *ssa.Index, *ssa.Lookup, *ssa.Next, *ssa.Range:
		var as []aval
		for _, op := range ins.Operands(nil) {
			as = append(as, d.val(fr, *op))
		}
		v := d.fresh("found", x.(ssa.Value).Type())
		set(v)
		if t, ok := v.typ.(*types.Tuple); ok {
			var tp atuple
			for i := 0; i < t.Len(); i++ {
				tp = append(tp, d.fresh("found", t.At(i).Type()))
			}
			set(tp)
		}
	case *ssa.Slice:
		v := d.val(fr, x.X)
		lo, hi := int64(0), int64(-1)
		if x.Low != nil {
			if n, ok := d.val(fr, x.Low).(int64); ok {
				lo = n
			} else {
				lo = -1
			}
		}
		if x.High != nil {
			if n, ok := d.val(fr, x.High).(int64); ok {
				hi = n
			}
		}
		switch p := v.(type) {
		case aslice:
			if p.lo < 0 || lo < 0 {
				set(aslice{p.o, -1, -1})
				return
			}
			if hi < 0 && x.High == nil {
				set(aslice{p.o, p.lo + lo, p.hi})
				return
			}
			if hi >= 0 {
				hi += p.lo
			}
			set(aslice{p.o, p.lo + lo, hi})
			return
		case aptr:
			if p.path == "" {
				if at, ok := p.o.typ.Underlying().(*types.Array); ok {
					if hi < 0 && x.High == nil {
						hi = at.Len()
					}
					if lo < 0 {
						hi = -1
					}
					set(aslice{p.o, lo, hi})
					return
				}
			}
		}
		set(d.expr("slice", x.Type(), v, lo, hi))
	case *ssa.Extract:
		v := d.val(fr, x.Tuple)
		if t, ok := v.(atuple); ok && x.Index < len(t) {
			set(t[x.Index])
			return
		}
		set(d.expr(fmt.Sprintf("result %d", x.Index), x.Type(), v))
	case *ssa.Store:
		d.assign(d.val(fr, x.Addr), d.val(fr, x.Val), ins)
	case *ssa.MapUpdate:
		if d.holds(d.val(fr, x.Value), map[*aobj]bool{}) {
			d.quit("results kept in a map")
		}
	case *ssa.Send:
		d.blocked = d.blocked || d.cur == nil
	case *ssa.Select:
		d.blocked = d.blocked || d.cur == nil
		t := x.Type().(*types.Tuple)
		var tp atuple
		for i := 0; i < t.Len(); i++ {
			tp = append(tp, d.fresh("selected", t.At(i).Type()))
		}
		set(tp)
	case *ssa.Defer:
		f, as := d.operands(fr, x.Common())
		fr.defs, fr.dfn, fr.dargs = append(fr.defs, x), append(fr.dfn, f), append(fr.dargs, as)
	case *ssa.Go:
		f, as := d.operands(fr, x.Common())
		d.spawn(&task{f: f, args: as, site: x})
	case *ssa.Call:
		f, as := d.operands(fr, x.Common())
		v := d.invoke(fr, x, x.Common(), f, as)
		set(v)
	default:
		d.quit("%T at %s", ins, d.p.posOf(ins.Pos()))
	}
}

func (d *driver) operands(fr *dframe, c *ssa.CallCommon) (aval, []aval) {
	var as []aval
	for _, x := range c.Args {
		as = append(as, d.val(fr, x))
	}
	return d.val(fr, c.Value), as
}

func (d *driver) deref(v aval, t types.Type, at ssa.Instruction) aval {
	p, ok := v.(aptr)
	if !ok {
		return d.expr("load", t, v)
	}
	if p.o.runs {
		d.reads(at)
		return d.fresh("result", t)
	}
	if strings.Contains(p.path, "[?]") {
		return d.fresh("element", t)
	}
	return d.load(p.o, p.path, t)
}

func (d *driver) assign(addr, v aval, at ssa.Instruction) {
	p, ok := addr.(aptr)
	if !ok {
		if d.holds(v, map[*aobj]bool{}) {
			d.quit("results are kept at %s", d.p.posOf(at.Pos()))
		}
		return
	}
	if p.o.runs {
		d.quit("results are written at %s", d.p.posOf(at.Pos()))
	}
	d.keep(p.o)
	if strings.Contains(p.path, "[?]") {
		p.o.cells = map[string]aval{"?": d.fresh("changed", p.o.typ)}
		return
	}
	d.store(p.o, p.path, v)
}

// keep remembers an object before a task changes it.
func (d *driver) keep(o *aobj) {
	if d.cur == nil || d.journal == nil {
		return
	}
	if _, ok := d.journal[o]; ok {
		return
	}
	c := map[string]aval{}
	for k, v := range o.cells {
		c[k] = v
	}
	d.journal[o] = c
}

// reads: the results are used here.
func (d *driver) reads(at ssa.Instruction) {
	if d.cur != nil {
		d.quit("results are read during a run")
	}
	if d.open > 0 {
		if d.blocked {
			d.quit("how runs are waited for is not known")
		}
		d.o.violate(d.at(at), "uses the results while runs may not have completed: no wait comes between starting them and this")
		d.open = 0
	}
}

// opaque results of a call.
func (d *driver) answer(c *ssa.CallCommon, f *ssa.Function, args []aval) aval {
	name := "call"
	if f != nil {
		name = "call " + f.String()
	}
	rs := c.Signature().Results()
	if rs.Len() == 1 {
		s := d.fresh(name, rs.At(0).Type())
		s.call, s.args = f, args
		return s
	}
	var t atuple
	for i := 0; i < rs.Len(); i++ {
		s := d.fresh(name, rs.At(i).Type())
		s.call, s.args = f, args
		t = append(t, s)
	}
	return t
}

func (d *driver) invoke(fr *dframe, ins ssa.Instruction, c *ssa.CallCommon, fv aval, args []aval) aval {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return d.builtin(ins, b.Name(), c, args)
	}
	f, ok := fv.(afn)
	if !ok || c.IsInvoke() {
		if d.faults != nil {
			if v, ok := d.operation(ins, c, nil, append([]aval{fv}, args...)); ok {
				return v
			}
		}
		for _, x := range append(args, fv) {
			if d.holds(x, map[*aobj]bool{}) {
				d.used(ins, nil, args)
			}
			d.lose(x, map[*aobj]bool{})
		}
		return d.answer(c, nil, args)
	}
	fn := f.fn
	if op := groupOp(fn); op != "" {
		d.group(ins, op, args)
		return atuple{}
	}
	if fn == d.run {
		d.ran(ins, args)
		return atuple{}
	}
	if isMaker(fn) {
		return d.answer(c, fn, args)
	}
	if d.faults != nil {
		if v, ok := d.operation(ins, c, fn, args); ok {
			return v
		}
	}
	if pkgOf(fn) == modPath && fn.Blocks != nil {
		if d.interesting(fn) || len(f.binds) > 0 && d.faults != nil {
			return single(d.function(fn, args, f.binds))
		}
		plain := len(f.binds) == 0
		for _, x := range args {
			switch x.(type) {
			case int64, bool, string:
			default:
				plain = false
			}
		}
		if plain {
			if v, ok := d.try(fn, args); ok {
				return v
			}
		}
	}
	if stops(c) {
		g := giveUp{why: "stops at " + d.p.posOf(ins.Pos()), failed: true}
		if fn.Name() == "Exit" {
			if n, ok := args[0].(int64); ok && n == 0 {
				g.failed, g.over = false, true
			}
		}
		g.panics = strings.HasPrefix(fn.Name(), "Panic")
		panic(g)
	}
	printing := fn.Pkg != nil && fn.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(fn.Name(), "Print")
	for _, x := range append(append([]aval(nil), args...), f.binds...) {
		if d.holds(x, map[*aobj]bool{}) {
			d.used(ins, fn, args)
			break
		}
	}
	if !printing {
		for _, x := range append(append([]aval(nil), args...), f.binds...) {
			d.lose(x, map[*aobj]bool{})
		}
	}
	return d.answer(c, fn, args)
}

func single(vs []aval) aval {
	if len(vs) == 1 {
		return vs[0]
	}
	return atuple(vs)
}

// try follows a function that only computes; if that fails its result is a name.
func (d *driver) try(fn *ssa.Function, args []aval) (v aval, ok bool) {
	depth := d.depth
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(giveUp); !is {
				panic(r)
			}
			d.depth = depth
			v, ok = nil, false
		}
	}()
	return single(d.function(fn, args, nil)), true
}

func (d *driver) used(ins ssa.Instruction, fn *ssa.Function, args []aval) {
	d.reads(ins)
	d.saves = append(d.saves, &saving{fn, args, ins})
}

func (d *driver) builtin(ins ssa.Instruction, name string, c *ssa.CallCommon, args []aval) aval {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case aslice:
			if x.hi >= 0 && x.lo >= 0 && (name == "len" || x.hi == x.o.ln) {
				return x.hi - x.lo
			}
			return d.fresh(name, types.Typ[types.Int])
		case string:
			return int64(len(x))
		case nil:
			return int64(0)
		}
		return d.expr(name, types.Typ[types.Int], args[0])
	case "append":
		for _, x := range args {
			if d.holds(x, map[*aobj]bool{}) {
				d.quit("results are put together by append")
			}
		}
		o := d.object(c.Signature().Results().At(0).Type().Underlying().(*types.Slice).Elem())
		o.list = true
		if t, ok := o.typ.(*types.Named); ok && t.Obj().Name() == "RunResult" {
			d.quit("results are put together by append")
		}
		o.cells["?"] = d.fresh("list", o.typ)
		return aslice{o, -1, -1}
	case "copy":
		d.lose(args[0], map[*aobj]bool{})
		return d.fresh(name, types.Typ[types.Int])
	case "recover":
		if d.panicking {
			d.panicking = false
			s := d.fresh("recovered", types.Typ[types.Int])
			s.some = true
			return s
		}
		return nil
	case "panic":
		panic(giveUp{why: "stops", failed: true, panics: true})
	case "min", "max":
		a, ok1 := args[0].(int64)
		b, ok2 := args[len(args)-1].(int64)
		if ok1 && ok2 && len(args) == 2 {
			if (a < b) == (name == "min") {
				return a
			}
			return b
		}
	}
	if rs := c.Signature().Results(); rs.Len() == 1 {
		return d.fresh(name, rs.At(0).Type())
	}
	return atuple{}
}

// group: an operation on a group of runs that are waited for together.
func (d *driver) group(ins ssa.Instruction, op string, args []aval) {
	switch op {
	case "Add":
		n, ok := args[1].(int64)
		if !ok {
			d.quit("how many runs are registered at %s is not known", d.p.posOf(ins.Pos()))
		}
		if d.cur != nil {
			if !d.waiting {
				d.o.violate(d.at(ins), "a run registers itself after it was started: the wait may be over before")
			}
			return
		}
		d.adds += n
		d.added[akey(args[0])] += n
	case "Done":
		if d.cur != nil {
			if !d.waiting && d.added[akey(args[0])] <= 0 {
				d.o.violate(d.at(ins), "a run announces its completion to a group it is not registered with")
			}
			d.dones++
		} else {
			d.adds--
		}
	case "Wait":
		if d.faults != nil {
			return
		}
		if d.cur != nil {
			d.quit("a run waits")
		}
		k := akey(args[0])
		if len(d.added) > 0 && d.added[k] == 0 {
			return // nothing is registered with this one
		}
		d.added[k] = 0
		for q, n := range d.added {
			if q != k && n != 0 {
				d.quit("runs of several groups at once")
			}
		}
		d.join(ins)
	case "Go":
		if d.cur != nil {
			d.quit("a run starts others")
		}
		d.added[akey(args[0])]++
		d.adds++
		d.started++
		d.spawn(&task{f: args[1], site: ins, auto: true})
	}
}

// spawn starts a task.
func (d *driver) spawn(t *task) {
	if d.cur != nil {
		d.quit("a run starts others")
	}
	if d.faults != nil {
		return
	}
	t.first, t.dones = d.follow(t)
	d.tasks = append(d.tasks, t)
	if !t.auto && t.dones > 0 {
		d.started += int64(t.dones)
		if d.adds < d.started {
			d.o.violate(d.at(t.site), "a run is started before it is registered with the group that is waited for")
			d.adds = d.started
		}
	}
	if len(t.first) > 0 {
		d.open++
		if t.dones == 0 && !t.auto {
			if !d.blockedAny {
				d.o.violate(d.at(t.site), "a run is started that never announces its completion")
			}
		}
	}
}

// follow a task now; what it runs.
func (d *driver) follow(t *task) (runs []*oneRun, dones int) {
	d.cur, d.runs, d.dones, d.journal, d.seq = t, nil, 0, map[*aobj]map[string]aval{}, 0
	defer func() {
		for o, c := range d.journal {
			o.cells = c
		}
		d.cur, d.journal = nil, nil
	}()
	f, ok := t.f.(afn)
	if !ok {
		d.quit("what %s starts is not known", d.p.posOf(t.site.Pos()))
	}
	if f.fn == d.run {
		d.ran(t.site, t.args)
	} else if d.interesting(f.fn) {
		d.function(f.fn, t.args, f.binds)
	}
	return d.runs, d.dones
}

// ran: one simulation with these arguments.
func (d *driver) ran(at ssa.Instruction, args []aval) {
	if d.cur != nil {
		if d.dones > 0 {
			d.o.violate(d.at(at), "a run announces its completion before it runs")
		}
		d.runs = append(d.runs, &oneRun{args, at})
		if d.runDones && !d.waiting && d.added[akey(args[0])] <= 0 && len(d.added) > 0 {
			d.o.violate(d.at(at), "a run announces its completion to a group it is not registered with")
		}
		if d.runDones {
			d.dones++
		}
		return
	}
	d.direct = append(d.direct, &oneRun{args, at})
	if d.runDones {
		d.adds--
	}
}

// join: all registered runs have completed.
func (d *driver) join(at ssa.Instruction) {
	if d.adds > d.started {
		d.o.violate(d.at(at), "waits for %d runs and only %d announce their completion", d.adds, d.started)
		d.adds = d.started
	}
	d.adds, d.started, d.open = 0, 0, 0
	d.waiting = true
	for _, t := range d.tasks {
		if t.joined {
			continue
		}
		t.joined = true
		later, _ := d.follow(t)
		d.same(t, later)
	}
	d.waiting = false
}

// same: what a task does must not depend on when it gets to run.
func (d *driver) same(t *task, later []*oneRun) {
	if len(later) != len(t.first) {
		d.o.violate(d.at(t.site), "how many simulations a started function runs depends on when it gets to run")
		return
	}
	for i, r := range t.first {
		for j := range r.args {
			if j < len(later[i].args) && again(r.args[j]) != again(later[i].args[j]) {
				name := ""
				if j < len(d.run.Params) {
					name = d.run.Params[j].Name()
				}
				d.o.violate(d.at(t.site), "argument %s of %s depends on when the run gets to run: it is read from a variable that changes meanwhile", name, shortName(d.run))
				return
			}
		}
	}
}

// everyRun: the sweep of the main program.
func everyRun() rule {
	return &effect{"every parameter is run once, in its own slot, and waited for", func(a *pta, o *outcome) {
		d := newDriver(a.p, o)
		if d == nil {
			return
		}
		if !d.drive() {
			return
		}
		d.sweep()
	}}
}

func newDriver(p *Prog, o *outcome) *driver {
	main, run := p.funcs["main.main"], p.funcs["main.runAndAppend"]
	if main == nil || run == nil {
		o.status, o.note = "undecided", "no function main.main or main.runAndAppend"
		return nil
	}
	spec := p.funcs["main.zzSpec_runAndAppend"]
	if spec == nil || !types.Identical(spec.Signature, run.Signature) {
		o.status, o.note = "undecided", "main.runAndAppend takes other arguments"
		return nil
	}
	d := &driver{p: p, o: o, added: map[string]int64{}, cons: map[string]*asym{}, inter: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*aobj{}, run: run}
	var scan func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	scan = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && (groupOp(f) == "Done" || pkgOf(f) == modPath && scan(f, seen)) {
						return true
					}
				case *ssa.MakeClosure:
					if scan(x.Fn.(*ssa.Function), seen) {
						return true
					}
				}
			}
		}
		return false
	}
	d.runDones = scan(run, map[*ssa.Function]bool{})
	for _, f := range p.funcs {
		if pkgOf(f) != modPath || p.isSpecFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MakeChan, *ssa.Select:
					d.blockedAny = true
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && groupOp(g) == "" {
						d.blockedAny = true
					}
				}
			}
		}
	}
	return d
}

// drive follows the main program to its end.
func (d *driver) drive() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			g, is := r.(giveUp)
			if !is {
				panic(r)
			}
			ok = false
			if d.o.status == "ok" {
				d.o.status, d.o.note = "undecided", g.why
			}
		}
	}()
	d.function(d.p.funcs["main.main"], nil, nil)
	d.o.nobs += d.steps
	if d.open > 0 && !d.blocked && !d.blockedAny {
		d.o.violate("main.main", "ends while runs may not have completed")
	}
	return true
}

// sweep judges the runs that were started.
func (d *driver) sweep() {
	o := d.o
	var runs []*oneRun
	for _, t := range d.tasks {
		runs = append(runs, t.first...)
	}
	runs = append(runs, d.direct...)
	if len(runs) == 0 {
		o.status, o.note = "undecided", "no runs found"
		return
	}
	give := func(format string, args ...interface{}) {
		if o.status == "ok" {
			o.status, o.note = "undecided", fmt.Sprintf(format, args...)
		}
	}
	o.nobs += len(runs)
	var list *aobj
	slots, params := map[int64]*oneRun{}, map[int64]*oneRun{}
	strategies, executions := map[string]*oneRun{}, map[string]*oneRun{}
	var common []string
	for _, r := range runs {
		if len(r.args) != 7 {
			give("runs take other arguments")
			return
		}
		l, ok := r.args[6].(aslice)
		if !ok || !l.o.runs || l.lo != 0 {
			give("the list of results is not known")
			return
		}
		if list != nil && l.o != list {
			give("several lists of results")
			return
		}
		list = l.o
		i, ok1 := r.args[2].(int64)
		mul, ok2 := r.args[3].(int64)
		if !ok1 || !ok2 {
			give("the slot or parameter of a run is not known")
			return
		}
		if q := slots[i]; q != nil {
			o.violate(d.at(r.at), "two runs store their results in slot %d", i)
			return
		}
		slots[i] = r
		if q := params[mul]; q != nil {
			o.violate(d.at(r.at), "parameter %d is run twice", mul)
			return
		}
		params[mul] = r
		ex, ok := r.args[1].(*asym)
		if !ok || ex.call == nil || !strings.HasSuffix(ex.call.String(), ".CreateExecution") || len(ex.args) != 7 {
			give("where the execution of a run comes from is not known")
			return
		}
		if executions[akey(ex)] != nil {
			o.violate(d.at(r.at), "two runs share an execution (parameters %d and %d)", executions[akey(ex)].args[3], mul)
			return
		}
		executions[akey(ex)] = r
		st, ok := ex.args[0].(*asym)
		if !ok || st.call == nil || pkgOf(st.call) != modPath+"/lib/strategy" {
			give("where the strategy of a run comes from is not known")
			return
		}
		if strategies[akey(st)] != nil {
			o.violate(d.at(r.at), "two runs share a strategy (parameters %d and %d)", strategies[akey(st)].args[3], mul)
			return
		}
		strategies[akey(st)] = r
		has := false
		for j, x := range st.args {
			if n, ok := x.(int64); ok && n == mul && swept(st.call, j) {
				has = true
			}
			if _, ok := x.(*asym); ok && swept(st.call, j) {
				give("the parameter of a strategy is not known")
				return
			}
		}
		if !has {
			o.violate(d.at(r.at), "the run reported as parameter %d simulates a strategy that does not have it", mul)
			return
		}
		var c []string
		for _, x := range ex.args[1:] {
			c = append(c, akey(x))
		}
		c = append(c, akey(r.args[4]), akey(r.args[5]))
		for j, x := range st.args {
			if !swept(st.call, j) {
				c = append(c, akey(x))
			}
		}
		if common != nil && strings.Join(c, " ") != strings.Join(common, " ") {
			o.violate(d.at(r.at), "runs differ in more than their parameter")
			return
		}
		common = c
		if akey(r.args[5]) != akey(ex.args[3]) {
			o.violate(d.at(r.at), "the update interval reported is not the one simulated")
			return
		}
	}
	n := list.ln
	if n < 0 {
		give("the length of the list of results is not known")
		return
	}
	for i := int64(0); i < n; i++ {
		if slots[i] == nil {
			o.violate("main.main", "no run stores its result in slot %d of %d", i, n)
			return
		}
		if params[i+1] == nil {
			o.violate("main.main", "parameter %d of 1 to %d is not run", i+1, n)
			return
		}
	}
	if int64(len(runs)) != n {
		o.violate("main.main", "%d runs for %d results", len(runs), n)
		return
	}
	saved := false
	for _, s := range d.saves {
		_ = s
		saved = true
	}
	if !saved {
		o.violate("main.main", "the results are not used")
	}
}

// swept: the argument of a strategy that the sweep varies.
func swept(f *ssa.Function, j int) bool {
	n := len(f.Params)
	switch f.Name() {
	case "NewBollingerBandsStrategy", "NewBollingerBandsFillUpStrategy", "NewVolatilitySizedIntervalStrategy":
		return j == n-1
	case "NewTwoIntervalAroundPriceStrategy", "NewIntervalAroundAverageStrategy":
		return j == n-1 || j == n-2
	}
	b, ok := f.Params[j].Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// doneLast: a run stores nothing after it has announced its completion.
func doneLast() rule {
	return &effect{"a run stores nothing after announcing its completion", func(a *pta, o *outcome) {
		announces := map[*pinst]bool{}
		for grown := true; grown; {
			grown = false
			for _, in := range a.insts {
				if announces[in] || in.boot {
					continue
				}
				hit := false
				for _, b := range in.fn.Blocks {
					for _, i := range b.Instrs {
						if c, ok := i.(ssa.CallInstruction); ok && isDone(c.Common()) {
							if _, isGo := i.(*ssa.Go); !isGo {
								hit = true
							}
						}
					}
				}
				for c := range a.calls[in] {
					if _, isGo := c.site.(*ssa.Go); announces[c] && !isGo {
						hit = true
					}
				}
				if hit {
					announces[in] = true
					grown = true
				}
			}
		}
		// what calls announce
		marks := func(in *pinst, i ssa.Instruction) bool {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if isDone(c.Common()) {
				return true
			}
			for cal := range a.calls[in] {
				if cal.site == i && announces[cal] {
					return true
				}
			}
			return false
		}
		for _, in := range a.insts {
			if !announces[in] || pkgOf(in.fn) != modPath || isSpecFile(a.p.fset.Position(in.fn.Pos()).Filename) {
				continue
			}
			for _, b := range in.fn.Blocks {
				for k, i := range b.Instrs {
					if _, isGo := i.(*ssa.Go); isGo || !marks(in, i) {
						continue
					}
					o.nobs++
					if d, ok := i.(*ssa.Defer); ok {
						// deferred before it: done after it
						for _, q := range in.fn.Blocks {
							for _, e := range q.Instrs {
								if x, ok := e.(*ssa.Defer); ok && x != d && comesBefore(x, d) {
									a.after(in, x, o)
								}
							}
						}
						continue
					}
					seen := map[*ssa.BasicBlock]bool{}
					var walk func(q *ssa.BasicBlock, from int)
					walk = func(q *ssa.BasicBlock, from int) {
						for _, e := range q.Instrs[from:] {
							a.after(in, e, o)
							if _, ok := e.(*ssa.RunDefers); ok {
								for _, q := range in.fn.Blocks {
									for _, e := range q.Instrs {
										if x, ok := e.(*ssa.Defer); ok && !marks(in, x) {
											a.after(in, x, o)
										}
									}
								}
							}
						}
						for _, s := range q.Succs {
							if !seen[s] {
								seen[s] = true
								walk(s, 0)
							}
						}
					}
					walk(b, k+1)
				}
			}
		}
	}}
}

func isDone(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && groupOp(f) == "Done"
}

// comesBefore: x may be executed before y.
func comesBefore(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		for _, i := range x.Block().Instrs {
			if i == x {
				return true
			}
			if i == y {
				return from(x.Block(), x.Block())
			}
		}
	}
	return from(x.Block(), y.Block())
}

// after: an instruction executed after the announcement.
func (a *pta) after(in *pinst, i ssa.Instruction, o *outcome) {
	at := shortName(in.fn) + " (" + a.p.posOf(i.Pos()) + ")"
	switch x := i.(type) {
	case *ssa.Store:
		if _, ok := within(x.Addr).(*ssa.Alloc); !ok {
			o.violate(at, "stores something after the run has announced its completion")
		}
	case *ssa.MapUpdate:
		o.violate(at, "stores something after the run has announced its completion")
	case ssa.CallInstruction:
		seen := map[*pinst]bool{}
		var work []*pinst
		for cal := range a.calls[in] {
			if cal.site == i {
				seen[cal] = true
				work = append(work, cal)
			}
		}
		for len(work) > 0 {
			q := work[0]
			work = work[1:]
			for cal := range a.calls[q] {
				if !seen[cal] {
					seen[cal] = true
					work = append(work, cal)
				}
			}
		}
		fresh := map[*pobj]bool{}
		for k, ob := range a.objs {
			if k.in != nil && seen[k.in] {
				fresh[ob] = true
			}
		}
		for _, w := range a.writes {
			if !seen[w.in] {
				continue
			}
			for l := range w.addr.pts {
				if !fresh[l.o] {
					o.violate(at, "may change %s after the run has announced its completion", l.o.what)
					return
				}
			}
		}
	}
}
