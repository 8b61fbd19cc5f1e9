package main

// What becomes of errors: the main program is followed once for every operation
// on a file that may fail, with the error this operation then returns.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fileUse struct {
	what   string
	at     ssa.Instruction
	closed bool
	dirty  bool
	buffer bool
}

// mustSucceed: operations whose error must end the program.
func mustSucceed(f *ssa.Function) bool {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	}
	n := f.Name()
	switch pk {
	case "os":
		if r := f.Signature.Recv(); r != nil {
			t, ok := deref(r.Type()).(*types.Named)
			return ok && t.Obj().Name() == "File" && (strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Write") || n == "Close" || n == "Sync" || n == "Truncate" || n == "Seek")
		}
		switch n {
		case "Open", "Create", "OpenFile", "ReadFile", "WriteFile", "CreateTemp", "Rename":
			return true
		}
	case "io":
		return strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Copy") || strings.HasPrefix(n, "Write")
	case "io/ioutil":
		return strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Write") || n == "TempFile"
	case "encoding/json":
		return true
	case "bufio":
		return true
	case "fmt":
		return strings.HasPrefix(n, "Fprint")
	}
	return false
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// canFail: functions of the program that handle errors.
func (d *driver) canFail(fn *ssa.Function) bool {
	s := fn.Signature
	for i := 0; i < s.Params().Len(); i++ {
		if isError(s.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		if isError(s.Results().At(i).Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && (mustSucceed(f) || f.Pkg.Pkg.Path() == "os") {
					return true
				}
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// deps: the error that happens decides v.
func (d *driver) deps(v aval, seen map[*aobj]bool) bool {
	var o *aobj
	switch x := v.(type) {
	case *asym:
		if x.bad {
			return true
		}
		for _, y := range x.args {
			if d.deps(y, seen) {
				return true
			}
		}
		return false
	case aagg:
		for _, y := range x.f {
			if d.deps(y, seen) {
				return true
			}
		}
		return false
	case aptr:
		o = x.o
	case aslice:
		o = x.o
	}
	if o == nil || seen[o] {
		return false
	}
	seen[o] = true
	for _, y := range o.cells {
		if d.deps(y, seen) {
			return true
		}
	}
	return false
}

func (d *driver) choose() bool {
	if d.chosen == len(d.choices) {
		if len(d.choices) > 6 {
			d.quit("too many ways an error may go")
		}
		d.choices = append(d.choices, true)
	}
	d.chosen++
	return d.choices[d.chosen-1]
}

// users: the files and buffers a value writes to.
func (d *driver) users(v aval, out map[*fileUse]bool, depth int) {
	s, ok := v.(*asym)
	if !ok || depth > 6 {
		return
	}
	if u := d.files[s]; u != nil {
		out[u] = true
	}
	for _, x := range s.args {
		d.users(x, out, depth+1)
	}
}

// operation: a call that may fail, or that makes an error.
func (d *driver) operation(ins ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args []aval) (aval, bool) {
	rs := c.Signature().Results()
	must := false
	name := ""
	if fn != nil {
		if fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "errors" && fn.Name() == "New" || fn.Pkg.Pkg.Path() == "fmt" && fn.Name() == "Errorf") {
			s := d.fresh("error", rs.At(0).Type())
			s.some, s.args = true, args
			return s, true
		}
		if fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "os" && strings.HasPrefix(fn.Name(), "Is") || fn.Pkg.Pkg.Path() == "errors") && len(args) > 0 && args[0] == nil && rs.Len() == 1 {
			if b, ok := rs.At(0).Type().(*types.Basic); ok && b.Kind() == types.Bool {
				return false, true
			}
			return nil, true
		}
		must = mustSucceed(fn)
		name = shortName(fn)
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "fmt" && must && rs.Len() > 0 {
			// messages
			if s, ok := args[0].(*asym); ok && s.op == "load" || !d.toFile(args[0]) {
				must = false
			}
		}
	} else if c.IsInvoke() {
		name = c.Method.Name()
		if pk := c.Method.Pkg(); pk != nil && pk.Path() == "io" {
			must = true
		}
	}
	if fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "bufio" && strings.HasPrefix(fn.Name(), "NewWriter") {
		s := d.answer(c, fn, args).(*asym)
		d.files[s] = &fileUse{what: "buffer", at: ins, buffer: true}
		return s, true
	}
	if !must {
		return nil, false
	}
	// what is written
	for _, x := range args {
		if a, ok := x.(aptr); ok && a.path == "" {
			if n, is := a.o.typ.(*types.Named); is && n.Obj().Name() == "Save" {
				x = d.load(a.o, "", a.o.typ)
			}
		}
		if a, ok := x.(aagg); ok {
			d.content(ins, a)
		}
		if d.holds(x, map[*aobj]bool{}) {
			d.saves = append(d.saves, &saving{fn, args, ins})
		}
	}
	us := map[*fileUse]bool{}
	for _, x := range args {
		d.users(x, us, 0)
	}
	fails := rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type())
	if fn != nil && fn.Name() == "Close" && len(us) == 0 {
		fails = false // of a file that was only read
	}
	for u := range us {
		switch {
		case strings.HasSuffix(name, "Close"):
			u.closed = true
		case strings.HasSuffix(name, "Flush"):
			if u.buffer {
				u.dirty = false
			}
		case fails && (u.buffer || !strings.HasSuffix(name, "NewEncoder")):
			u.dirty = true
		}
	}
	if !fails {
		v := d.answer(c, fn, args)
		return v, true
	}
	place := name + " (" + d.p.posOf(ins.Pos()) + ")"
	if !d.faults[place] {
		d.faults[place] = true
		d.order = append(d.order, place)
	}
	bad := d.fail == place
	var t atuple
	for i := 0; i < rs.Len(); i++ {
		s := d.fresh("call "+name, rs.At(i).Type())
		s.call, s.args = fn, args
		if i == rs.Len()-1 {
			if bad {
				d.hit = true
				s.some, s.bad = true, true
				t = append(t, s)
			} else {
				t = append(t, nil)
			}
			continue
		}
		if p, ok := rs.At(i).Type().(*types.Pointer); ok && fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" && p.Elem().String() == "os.File" && !bad {
			switch fn.Name() {
			case "Create", "CreateTemp":
				d.files[s] = &fileUse{what: "file", at: ins}
			case "OpenFile":
				fl, ok := args[1].(int64)
				if !ok || fl&int64(os.O_WRONLY|os.O_RDWR) != 0 {
					d.files[s] = &fileUse{what: "file", at: ins}
				}
				if ok && fl&int64(os.O_WRONLY|os.O_RDWR) != 0 && fl&int64(os.O_TRUNC|os.O_EXCL) == 0 {
					d.o.violate(d.at(ins), "a file is written over without being emptied: the end of a longer old file stays")
				}
			}
		}
		t = append(t, s)
	}
	for _, x := range args {
		d.lose(x, map[*aobj]bool{})
	}
	if len(t) == 1 {
		return t[0], true
	}
	return t, true
}

func (d *driver) toFile(v aval) bool {
	us := map[*fileUse]bool{}
	d.users(v, us, 0)
	return len(us) > 0
}

// content: the saved record.
func (d *driver) content(at ssa.Instruction, a aagg) {
	rs := d.p.funcs["main.zzSave"]
	if rs == nil {
		return
	}
	t := rs.Signature.Results().At(0).Type()
	st := t.Underlying().(*types.Struct)
	get := func(name string) (aval, bool) {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				v, ok := a.f[fmt.Sprintf(".%d", i)]
				return v, ok
			}
		}
		return nil, false
	}
	l, ok := get("Results")
	if !ok {
		return
	}
	if r, ok := l.(aslice); ok && r.o.runs {
		if r.lo != 0 || r.hi >= 0 && r.hi != r.o.ln {
			d.o.violate(d.at(at), "only part of the results is saved")
		}
	} else {
		return
	}
	amount, _ := get("StartAmount")
	for g, o := range d.globals {
		if g.Name() == "startAmount" && g.Pkg.Pkg.Path() == modPath {
			if want, ok := o.cells[""]; ok {
				if s, isS := amount.(string); (isS || amount == nil) && akey(s) != akey(want) {
					d.o.violate(d.at(at), "the start amount saved is %q, the start amount is %q", s, want)
				}
			}
		}
	}
	from, ok1 := get("StartTime")
	to, ok2 := get("EndTime")
	if !ok1 || !ok2 {
		d.o.violate(d.at(at), "the time range is not saved")
		return
	}
	for i, v := range []aval{from, to} {
		if s, ok := v.(*asym); ok && (s.op == "+" || s.op == "-") && len(s.args) == 2 {
			for k := range s.args {
				_, _, isT := timeOf(s.args[k])
				if n, ok := s.args[1-k].(int64); ok && n != 0 && isT {
					d.o.violate(d.at(at), "the %s time saved is %d seconds off the time of a transaction", []string{"start", "end"}[i], n)
				}
			}
		}
	}
	l0, i0, f0 := timeOf(from)
	l1, i1, f1 := timeOf(to)
	if l0 == nil || l1 == nil || akey(l0) != akey(l1) {
		return
	}
	if n, ok := i0.(int64); !f0 || ok && n != 0 || !ok && akey(i0) == akey(i1) {
		d.o.violate(d.at(at), "the start time saved is not the time of the first transaction")
	}
	if !f1 || lastOf(l1, i1) == -1 {
		d.o.violate(d.at(at), "the end time saved is not the time of the last transaction")
	}
}

// timeOf: the list, index and whether it is the time of a transaction.
func timeOf(v aval) (list, index aval, isTime bool) {
	s, ok := v.(*asym)
	if !ok || s.op != "load" {
		return nil, nil, false
	}
	f, ok := s.args[0].(*asym)
	if !ok || !strings.HasPrefix(f.op, "field ") {
		return nil, nil, false
	}
	x, ok := f.args[0].(*asym)
	if !ok || x.op != "index" {
		return nil, nil, false
	}
	p, ok := x.typ.(*types.Pointer)
	if !ok {
		return nil, nil, false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	var k int
	fmt.Sscanf(f.op, "field %d", &k)
	return x.args[0], x.args[1], st.Field(k).Name() == "Timestamp"
}

// lastOf: 1 if i is the last index of l, -1 if it is not, 0 if unknown.
func lastOf(l, i aval) int {
	if n, ok := i.(int64); ok && n >= 0 {
		return -1
	}
	s, ok := i.(*asym)
	if !ok || s.op != "-" || len(s.args) != 2 {
		return 0
	}
	n, ok := s.args[0].(*asym)
	if !ok || n.op != "len" || akey(n.args[0]) != akey(l) {
		return 0
	}
	if k, ok := s.args[1].(int64); ok && k != 1 {
		return -1
	}
	return 1
}

// failures: the rule.
func failures() rule {
	return &effect{"every failing file operation ends the program with a failure, and what is saved is complete", func(a *pta, o *outcome) {
		if newDriver(a.p, o) == nil {
			return
		}
		follow := func(fail string, choices []bool) (*driver, giveUp, *outcome) {
			scratch := &outcome{status: "ok"}
			d := newDriver(a.p, scratch)
			d.faults, d.fail, d.choices, d.files = map[string]bool{}, fail, append([]bool(nil), choices...), map[*asym]*fileUse{}
			end := d.end()
			o.nobs += d.steps
			return d, end, scratch
		}
		// each way the program may go, until one is found
		each := func(fail string, f func(d *driver, end giveUp, found *outcome) bool) {
			work := [][]bool{nil}
			for n := 0; len(work) > 0 && n < 40; n++ {
				ch := work[0]
				work = work[1:]
				d, end, found := follow(fail, ch)
				for i := len(ch); i < len(d.choices); i++ {
					alt := append([]bool(nil), d.choices[:i+1]...)
					alt[i] = false
					work = append(work, alt)
				}
				if f(d, end, found) {
					return
				}
			}
		}
		var base *driver
		var last giveUp
		chosen := false
		each("", func(d *driver, end giveUp, found *outcome) bool {
			last = end
			chosen = chosen || len(d.choices) > 0
			if end.over && (base == nil || len(base.saves) == 0) {
				base = d
			}
			if len(d.saves) > 0 || !chosen {
				for _, x := range found.diffs {
					o.violate(x.where, "%s", x.msg)
				}
			}
			return base != nil && len(base.saves) > 0
		})
		if base == nil && last.failed && !chosen {
			o.violate("main.main", "the program fails although no operation does: it %s", last.why)
			return
		}
		if base == nil || chosen && len(base.saves) == 0 {
			o.status, o.note = "undecided", "no way through the program found: "+last.why
			return
		}
		var uses []*fileUse
		for _, u := range base.files {
			uses = append(uses, u)
		}
		sort.Slice(uses, func(i, j int) bool { return uses[i].at.Pos() < uses[j].at.Pos() })
		wrote := false
		for _, u := range uses {
			wrote = wrote || u.dirty
			if u.buffer && u.dirty {
				o.violate(base.at(u.at), "what is written to this buffer is not flushed")
			}
			if !u.buffer && !u.closed {
				o.violate(base.at(u.at), "the file is not closed: an error of the last write stays unseen")
			}
		}
		if len(base.order) == 0 {
			o.status, o.note = "undecided", "no file operations found"
			return
		}
		if len(base.saves) == 0 {
			o.violate("main.main", "the results are not saved")
		}
		o.fns = append([]string(nil), base.order...)
		for _, place := range base.order {
			each(place, func(d *driver, end giveUp, found *outcome) bool {
				switch {
				case end.failed, !d.hit && end.over:
				case end.over:
					o.violate(place, "an error here does not end the program with a failure")
					return true
				default:
					if o.status == "ok" {
						o.status, o.note = "undecided", end.why
					}
				}
				return false
			})
		}
	}}
}

// end follows the program; how it ends.
func (d *driver) end() (g giveUp) {
	defer func() {
		if r := recover(); r != nil {
			q, is := r.(giveUp)
			if !is {
				panic(r)
			}
			g = q
		}
	}()
	d.function(d.p.funcs["main.main"], nil, nil)
	return giveUp{over: true}
}
