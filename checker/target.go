package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// target: a function of the repository and the specification it must equal.
type target struct {
	fn       string
	spec     string
	cfg      func() *Cfg
	noResult []int
	own      []string // functions analysed by their bodies although they have a model
	args     map[int]func(m *Mach, st *State) Val
	limits   map[int][2]int64 // ranges of parameters
	alias    map[int]int      // parameters that are the same object as another
	note     string           // distinguishes instances of one function
	assume   func(m *Mach, st *State, args []Val) *Node
	ticks    bool          // may be looked at in lists of a few elements
	tiny     int64         // the length of ordered lists + 1, when it is known
	retry    []func() *Cfg // configurations tried when the first finds a difference
}

func specFiles(repo, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = b
		return nil
	})
	return ov, err
}

func debugMain(args []string) {
	repo := os.Getenv("VREPO")
	if repo == "" {
		repo = "/repo"
	}
	ov, err := specFiles(repo, "/verif/checker/specs")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t0 := time.Now()
	p, err := loadProg(repo, ov)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("loaded", len(p.funcs), "functions", time.Since(t0), p.badSpecs)
	for _, a := range args {
		if a == "boot" {
			m := newMach(NewEng(), p, nil)
			h := m.bootHeap()
			for _, k := range sortedKeys(h) {
				fmt.Println(k, "=", showVal(h[k]))
			}
			fmt.Println(m.notes, time.Since(t0))
			continue
		}
		ps := strings.Split(a, "=")
		t := &target{fn: ps[0]}
		if len(ps) > 1 {
			t.spec = ps[1]
		}
		for _, pr := range properties() {
			for _, r := range pr.rules {
				if y, ok := r.(*either); ok {
					r = y.a
				}
				if x, ok := r.(*sweep); ok && x.t.fn == t.fn && t.spec == "" {
					for _, o := range x.run(p, time.Now().Add(10*time.Minute)) {
						fmt.Println(o.target, o.status, o.note, o.nobs, o.wall, o.fns)
						for _, d := range o.diffs {
							fmt.Println("   ", d.where, ":", d.msg)
						}
					}
					t.spec = "-"
				}
				if x, ok := r.(*target); ok && x.fn == t.fn && (t.spec == "" || x.spec == t.spec) {
					t = x
				}
			}
		}
		if t.spec != "-" {
			debugCompare(p, t)
		}
	}
}

func showVal(v Val) string {
	switch x := v.(type) {
	case *Node:
		return clip(x.String())
	case *Agg:
		s := "{"
		for _, f := range x.f {
			s += showVal(f) + "; "
		}
		return s + "}"
	case *SliceV:
		return fmt.Sprintf("slice(%s,%s,%s)", x.base, x.off, x.ln)
	}
	return fmt.Sprint(v)
}

func debugCompare(p *Prog, t *target) {
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				fmt.Println(t.fn, "UNDECIDED", u.msg)
				return
			}
			panic(r)
		}
	}()
	var cfg *Cfg
	if t.cfg != nil {
		cfg = t.cfg()
	}
	m := newMach(NewEng(), p, cfg)
	m.bootHeap()
	f, g := p.funcs[t.fn], p.funcs[t.spec]
	if g == nil {
		g = p.funcs[strings.Replace(t.spec, ".zzSpec_", ".ZZSpec_", 1)]
	}
	if f == nil || g == nil {
		fmt.Println("missing", t.fn, f != nil, t.spec, g != nil)
		return
	}
	c := m.compareFns(f, g, t)
	fmt.Printf("%s: %d observations, %d slow, %d diffs, %v, %d terms\n", t.fn, c.nobs, c.nslow, len(c.diffs), time.Since(t0), m.e.nextT)
	for _, d := range c.diffs {
		fmt.Println("   ", d.where, ":", d.msg)
	}
}
