package main

// The keys under which the fields of a record are written and read as JSON.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"time"
)

// tagRule: a record type and the key of each of its fields.
type tagRule struct {
	typ  string
	keys [][2]string // field, key
	omit bool        // empty fields may be left out
}

func (r *tagRule) name() string { return r.typ }

func (r *tagRule) run(p *Prog, deadline time.Time) []*outcome {
	o := &outcome{rule: "every field has its own key in the file", target: r.typ, status: "undecided"}
	i := strings.Index(r.typ, ".")
	var obj types.Object
	for _, q := range p.pkgs {
		if q.Types.Name() == r.typ[:i] {
			if x := q.Types.Scope().Lookup(r.typ[i+1:]); x != nil {
				obj = x
			}
		}
	}
	if obj == nil {
		o.note = "type not found"
		return []*outcome{o}
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		o.note = "not a struct"
		return []*outcome{o}
	}
	if ms := types.NewMethodSet(types.NewPointer(obj.Type())); ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "UnmarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
		o.note = "the type encodes itself"
		return []*outcome{o}
	}
	want := map[string]string{}
	for _, k := range r.keys {
		want[k[0]] = k[1]
	}
	seen := map[string]string{}
	bad := func(f, format string, a ...interface{}) {
		o.diffs = append(o.diffs, Diff{where: "field " + f, msg: fmt.Sprintf(format, a...)})
	}
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		if !f.Exported() {
			if want[f.Name()] != "" {
				bad(f.Name(), "is not exported and so never written")
			}
			continue
		}
		o.nobs++
		tag := reflect.StructTag(st.Tag(k)).Get("json")
		parts := strings.Split(tag, ",")
		key := parts[0]
		if key == "" {
			key = f.Name()
		}
		if tag == "-" {
			bad(f.Name(), "is left out of the file")
			continue
		}
		for _, opt := range parts[1:] {
			if (opt == "omitempty" || opt == "omitzero") && !r.omit {
				bad(f.Name(), "is left out of the file when it is zero")
			}
			if opt == "string" {
				bad(f.Name(), "is written as text")
			}
		}
		if g := seen[strings.ToLower(key)]; g != "" {
			bad(f.Name(), "has the same key %q as field %s", key, g)
		}
		seen[strings.ToLower(key)] = f.Name()
		if w, ok := want[f.Name()]; ok && w != key {
			bad(f.Name(), "is written under the key %q, not %q", key, w)
		}
		delete(want, f.Name())
	}
	if len(want) > 0 {
		o.note = "fields are missing or renamed"
	}
	if len(o.diffs) > 0 {
		o.status = "violated"
	} else if len(want) == 0 {
		o.status = "ok"
	}
	return []*outcome{o}
}

func reportTags() []rule {
	return []rule{
		&tagRule{typ: "result.RunResult", keys: [][2]string{{"UpdateInterval", "update_interval"}, {"MultiplierX10", "multiplierX10"}, {"HistoryWindow", "history_window"},
			{"Return", "return_on_investment"}, {"EndAmount", "end_amount"}, {"MaxDrawdown", "max_draw_down"},
			{"StandardDeviationHourly", "standard_deviation_hourly"}, {"StandardDeviationDaily", "standard_deviation_daily"}, {"StandardDeviationWeekly", "standard_deviation_weekly"},
			{"DownwardDeviationHourly", "downward_deviation_hourly"}, {"DownwardDeviationDaily", "downward_deviation_daily"}, {"DownwardDeviationWeekly", "downward_deviation_weekly"},
			{"VaR95Hourly", "VaR95_hourly"}, {"VaR95Daily", "VaR95_daily"}, {"VaR95Weekly", "VaR95_weekly"}}},
		&tagRule{typ: "result.Save", keys: [][2]string{{"StartAmount", "start_amount"}, {"StartTime", "start_time"}, {"EndTime", "end_time"}, {"Results", "results"}}},
	}
}

func inputTags() []rule {
	return []rule{&tagRule{typ: "transaction.TransactionInput", omit: true, keys: [][2]string{{"Type", "type"}, {"ID", "id"}, {"Timestamp", "timestamp"}, {"Amount0", "amount0"}, {"Amount1", "amount1"},
		{"Amount", "amount"}, {"SqrtPriceX96", "sqrtPriceX96"}, {"Tick", "tick"}, {"TickLower", "tickLower"}, {"TickUpper", "tickUpper"}, {"UseX96", "useX96"}}}}
}
