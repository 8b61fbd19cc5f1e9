package main

// Every operation with its result and its operands being the same object or not.

// partitions of n parameters: for each the parameter whose object another one is.
func partitions(n int) (out []map[int]int) {
	var rec func(i int, m map[int]int)
	rec = func(i int, m map[int]int) {
		if i == n {
			c := map[int]int{}
			for k, v := range m {
				c[k] = v
			}
			out = append(out, c)
			return
		}
		rec(i+1, m) // an object of its own
		for j := 0; j < i; j++ {
			if _, same := m[j]; !same {
				m[i] = j
				rec(i+1, m)
				delete(m, i)
			}
		}
	}
	rec(0, map[int]int{})
	return
}

// shared: the rules for each way n parameters can be the same objects.
func shared(n int, rs []rule) (out []rule) {
	for _, r := range rs {
		for _, al := range partitions(n) {
			note := ""
			for i := 1; i < n; i++ {
				if j, ok := al[i]; ok {
					note += " " + string(rune('0'+i)) + "=" + string(rune('0'+j))
				}
			}
			if note != "" {
				note = "parameters" + note
			}
			switch x := r.(type) {
			case *target:
				t := *x
				t.alias, t.note = al, note
				out = append(out, &t)
			case *sweep:
				s := *x
				t := *x.t
				t.alias, t.note = al, note
				s.t = &t
				out = append(out, &s)
			}
		}
	}
	return
}

func sharing() []rule {
	return cat(shared(2, words("Neg", "Abs", "Not", "Set", "AddUint64", "SubUint64")),
		shared(3, words("Add", "Sub", "AddOverflow", "SubOverflow", "And", "Or", "Xor", "Mul", "MulOverflow")),
		shared(3, at(divCfg, numbers("Div", "Mod", "SDiv", "SMod"))), shared(2, at(divCfg, numbers("Sqrt"))),
		shared(4, at(divCfg, numbers("MulMod", "AddMod"))), shared(4, at(divCfg, numbers("MulModWithReciprocal"))),
		shared(3, at(powCfg, numbers("Exp"))), shared(2, shifts("Lsh", "Rsh", "SRsh")), shared(2, positions(1, "Byte")), shared(3, positions(2, "ExtendSign")))
}
