package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
)

func main() {
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "directory of specifications and evidence")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		for _, p := range properties() {
			fmt.Println(p.id, p.level, len(p.rules))
		}
		return
	}
	if *prop == "" {
		debugMain(flag.Args())
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	v, err := filepath.Abs(*verif)
	if err == nil {
		*verif = v
	}
	if strings.Contains(*prop, ",") {
		// development aid: the rules of several properties, each once
		all := &property{id: "", level: "other"}
		seen := map[string]bool{}
		for _, p := range properties() {
			if !strings.Contains(*prop, p.id) && !strings.Contains(*prop, "all") {
				continue
			}
			for _, r := range p.rules {
				if t, ok := r.(*target); ok {
					k := t.fn + "|" + t.spec + "|" + t.note
					if seen[k] {
						continue
					}
					seen[k] = true
				}
				all.rules = append(all.rules, r)
			}
		}
		if c := runProperty(all, *repo, *verif, tier); c != 0 {
			os.Exit(c)
		}
		return
	}
	for _, p := range properties() {
		if p.id == *prop {
			c := runProperty(p, *repo, *verif, tier)
			if c != 0 {
				pprof.StopCPUProfile()
				os.Exit(c)
			}
			return
		}
	}
	fmt.Println("no such property:", *prop)
	os.Exit(2)
}
