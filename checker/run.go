package main

// One run of the checker: the rules of one property are decided on the current
// source and the evidence is written.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"maps"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// outcome of one rule instance.
type outcome struct {
	rule   string
	target string
	status string // ok, violated, undecided
	nobs   int
	diffs  []Diff
	note   string
	fns    []string
	seps   []string
	wall   time.Duration
}

type rule interface {
	name() string
	run(p *Prog, deadline time.Time) []*outcome
}

func (p *Prog) copy() *Prog {
	q := *p
	q.infos = map[*ssa.Function]*fnInfo{}
	q.ifaceTypes = map[string]types.Type{}
	for k, v := range p.ifaceTypes {
		q.ifaceTypes[k] = v
	}
	return &q
}

func (t *target) name() string { return t.fn }

func (t *target) run(p *Prog, deadline time.Time) []*outcome {
	o := &outcome{rule: "equals its specification " + t.spec, target: t.fn, status: "undecided"}
	if t.note != "" {
		o.rule += " for " + t.note
	}
	t0 := time.Now()
	defer func() { o.wall = time.Since(t0) }()
	f, g := p.funcs[t.fn], p.funcs[t.spec]
	if g == nil {
		g = p.funcs[strings.Replace(t.spec, ".zzSpec_", ".ZZSpec_", 1)]
	}
	if f == nil {
		o.note = "function not found"
		return []*outcome{o}
	}
	if g == nil {
		o.note = "the specification does not type-check against this tree"
		return []*outcome{o}
	}
	cfgs := append([]func() *Cfg{t.cfg}, t.retry...)
	for i, cf := range cfgs {
		c, m, err := compareSafely(p.copy(), f, g, t, cf, 0, deadline)
		if err != "" {
			if o.status != "violated" {
				o.note = err
			}
			continue
		}
		if len(c.diffs) == 0 && c.doubts > 0 {
			if o.status != "violated" {
				o.note = "the two sides look different, but no instance shows a difference"
			}
			continue
		}
		if len(c.diffs) == 0 {
			o.status, o.note, o.nobs, o.diffs, o.fns = "ok", "", c.nobs, nil, followed(m)
			for k := range m.keySeps {
				o.seps = append(o.seps, k)
			}
			break
		}
		if o.status == "violated" {
			continue
		}
		if why := untrusted(m, c); why != "" {
			o.note = why
			continue
		}
		if o.note = restructured(p, f, g, t, cf, m, deadline); o.note != "" {
			continue
		}
		o.status, o.note, o.nobs, o.diffs, o.fns = "violated", "", c.nobs, c.diffs, followed(m)
		_ = i
	}
	if (o.status == "undecided" || os.Getenv("VDEBUG") == "small") && t.ticks {
		t.inSmall(p, f, g, o, deadline)
	}
	return []*outcome{o}
}

// inSmall looks for a difference on lists of a few elements, their content open,
// when the loops of a function could not be described for lists of every length.
func (t *target) inSmall(p *Prog, f, g *ssa.Function, o *outcome, deadline time.Time) {
	for n := int64(0); n <= 3; n++ {
		s := *t
		s.tiny = n + 1
		for _, cf := range append([]func() *Cfg{t.cfg}, t.retry...) {
			c, m, err := compareSafely(p.copy(), f, g, &s, cf, int(n)+2, deadline)
			if os.Getenv("VDEBUG") == "small" {
				fmt.Println("lists of", n, t.fn, err, c != nil && len(c.diffs) > 0)
			}
			if err != "" || len(c.diffs) == 0 {
				continue
			}
			if untrusted(m, c) != "" {
				continue
			}
			o.status, o.nobs, o.diffs, o.fns = "violated", c.nobs, c.diffs, followed(m)
			o.note = ""
			o.rule += fmt.Sprintf(" in lists of %d elements", n)
			return
		}
	}
}

func compareSafely(p *Prog, f, g *ssa.Function, t *target, cf func() *Cfg, cutK int, deadline time.Time) (c *cmp, m *Mach, msg string) {
	defer func() {
		if r := recover(); r != nil {
			c = nil
			if u, ok := r.(Undecided); ok {
				msg = u.msg
				return
			}
			msg = fmt.Sprintf("internal error: %v", r)
			if os.Getenv("VDEBUG") == "panic" {
				debug.PrintStack()
			}
		}
	}()
	var cfg *Cfg
	if cf != nil {
		cfg = cf()
	}
	e := NewEng()
	e.deadline = deadline
	m = newMach(e, p, cfg)
	m.bootHeap()
	if m.cutK = cutK; cutK > 0 {
		m.cut = e.F
	}
	if t.tiny > 0 {
		m.tinyN, e.tiny = t.tiny-1, true
	}
	c = m.compareFns(f, g, t)
	return
}

// restructured: the loops of the two sides carry other variables, so that the
// names of their values say nothing; when the first iterations agree, the
// difference is not believed.
func restructured(p *Prog, f, g *ssa.Function, t *target, cf func() *Cfg, m *Mach, deadline time.Time) string {
	if maps.Equal(m.named[1], m.named[2]) {
		return ""
	}
	done, none := 0, false
	for _, k := range []int{1, 2, 4} {
		limit := time.Now().Add(60 * time.Second)
		if k == 1 {
			limit = limit.Add(140 * time.Second)
		}
		if deadline.Before(limit) && !deadline.IsZero() {
			limit = deadline
		}
		c, _, err := compareSafely(p.copy(), f, g, t, cf, k, limit)
		if os.Getenv("VDEBUG") == "cut" {
			fmt.Printf("cut at %d iterations: %q %s\n", k, err, time.Since(limit))
			if err == "" {
				for _, d := range c.diffs {
					fmt.Println("  ", d.where, clip(d.msg))
				}
			}
		}
		if err != "" {
			break
		}
		if len(c.diffs) > 0 {
			return ""
		}
		if none = c.R == c.e.F; !none {
			done = k
		}
	}
	if done == 0 && none {
		return ""
	}
	if done > 0 {
		return fmt.Sprintf("its loops carry other variables than those of the specification; no difference in the first %d iterations", done)
	}
	return "its loops carry other variables than those of the specification, and the first iterations could not be compared"
}

// followed lists the repository functions whose bodies were analysed.
func followed(m *Mach) (fns []string) {
	for k := range m.fnsRun {
		if !strings.Contains(k, "zzSpec") && !strings.Contains(k, "ZZ") && !strings.Contains(k, ".zz") {
			fns = append(fns, k)
		}
	}
	sort.Strings(fns)
	return
}

// untrusted: reasons why a difference may come from the analysis.
func untrusted(m *Mach, c *cmp) string {
	for _, d := range c.diffs {
		if strings.Contains(d.msg, "early") {
			return "which of several loop exits is taken is not known"
		}
	}
	if m.touched != "" {
		return "the code works on the inside of " + m.touched + ", which is taken as a whole here"
	}
	if (m.texts[1] == 0) != (m.texts[2] == 0) {
		return "only one side looks characters up in constant text"
	}
	for _, k := range slices.Sorted(maps.Keys(m.extUsed)) {
		if m.extUsed[k] == 2 {
			return "the code uses " + k + ", whose effects are not known here"
		}
	}
	return ""
}

type property struct {
	id    string
	level string
	rules []rule
	quick int // number of rules run in the quick tier (0: all)
}

type known struct{ prop, target, text string }

func loadKnown(path string) []known {
	var ks []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k known
		for _, w := range strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "target="):
				k.target = w[7:]
			default:
				k.text = w
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func runProperty(pr *property, repo, verif, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": pr.id, "tier": tier, "seed": seed, "level": pr.level}
	var outs []*outcome
	ov, err := specFiles(repo, filepath.Join(verif, "checker", "specs"))
	var p *Prog
	if err == nil {
		p, err = loadProg(repo, ov)
	}
	nf := 0
	loadNote := ""
	if err != nil {
		loadNote = "the source could not be loaded: " + err.Error()
	} else {
		nf = p.nFuncs
		deadline := time.Now().Add(400 * time.Second)
		if tier == "thorough" {
			deadline = time.Now().Add(1500 * time.Second)
		}
		res := make([][]*outcome, len(pr.rules))
		sem := make(chan bool, 4)
		var wg sync.WaitGroup
		for i, r := range pr.rules {
			if tier != "thorough" && pr.quick > 0 && i >= pr.quick {
				break
			}
			wg.Add(1)
			go func(i int, r rule) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				defer func() {
					if x := recover(); x != nil {
						msg := fmt.Sprint(x)
						if u, ok := x.(Undecided); ok {
							msg = u.msg
						} else if os.Getenv("VDEBUG") == "panic" {
							debug.PrintStack()
						}
						res[i] = []*outcome{{rule: r.name(), target: r.name(), status: "undecided", note: msg}}
					}
				}()
				res[i] = r.run(p, deadline)
			}(i, r)
		}
		wg.Wait()
		for _, r := range res {
			outs = append(outs, r...)
		}
	}
	ks := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"))
	nv, nok, nobs := 0, 0, 0
	samples, undec := []string{}, []string{}
	fns := map[string]bool{}
	replay := filepath.Join(verif, "evidence", pr.id+".json")
	code := 0
	for _, o := range outs {
		nobs += o.nobs
		for _, f := range o.fns {
			fns[f] = true
		}
		switch o.status {
		case "ok":
			nok++
			if len(samples) < 40 {
				samples = append(samples, fmt.Sprintf("%s: %s (%d observations, %d functions followed): holds", o.target, o.rule, o.nobs, len(o.fns)))
			}
		case "undecided":
			undec = append(undec, o.target+": "+o.note)
		case "violated":
			isKnown := false
			for _, k := range ks {
				if k.prop == pr.id && k.target == o.target {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", pr.id, o.target, k.text)
				}
			}
			if isKnown {
				continue
			}
			nv++
			code = 1
			for _, d := range o.diffs {
				s := fmt.Sprintf("%s: %s: %s: %s", o.target, o.rule, d.where, d.msg)
				samples = append(samples, "VIOLATED "+s)
				fmt.Println("violation:", s)
			}
		}
	}
	if loadNote != "" {
		undec = append(undec, loadNote)
	}
	if len(samples) == 0 {
		samples = append(samples, "nothing could be decided on this tree")
	}
	cov := map[string]interface{}{
		"programs": nok + nv, "disagreements_checked": nobs, "samples": samples,
		"functions_in_program": nf, "functions_followed": len(fns), "rules_decided": nok + nv, "undecided": undec,
		"rule": "each listed function and its specification are reduced to a gated value graph over the same symbolic entry state; every result, every memory cell either of them may change, and the condition of rejecting must reduce to the same graph",
	}
	if pr.level == "other" {
		cov["explanation"] = "static analysis of the type-checked program and its SSA form; see samples for the rule instances decided on this run"
	}
	ev["coverage"] = cov
	ev["violations"] = nv
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["assumptions"] = []string{"Go's SSA form as built by golang.org/x/tools is faithful", "slices and maps of a struct belong to it alone (decided under C12, C13)", "pointer parameters are distinct objects (aliasing is C32)"}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	if pr.id != "" {
		if err := os.WriteFile(replay, append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
		}
	}
	if nv > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, replay)
	}
	fmt.Printf("%s: %d rule instances hold, %d violated, %d undecided, %d observations, %.1fs\n", pr.id, nok, nv, len(undec), nobs, time.Since(t0).Seconds())
	for _, u := range undec {
		fmt.Println("  undecided:", clip(u))
	}
	return code
}
