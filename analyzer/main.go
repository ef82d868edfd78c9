package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: nlverify <property>|all|list")
		os.Exit(2)
	}
	repo := os.Getenv("NL_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("NL_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	ids := []string{}
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	switch os.Args[1] {
	case "list":
		fmt.Println(strings.Join(ids, " "))
		return
	case "baseline":
		if err := printBaseline(repo); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	case "dump":
		w, err := loadWorld(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, f := range w.Funcs {
			if strings.Contains(f.String(), os.Args[2]) {
				f.WriteTo(os.Stdout)
				if w.eff == nil {
					w.effects()
				}
				fmt.Println("EFFECTS:", w.eff.describe(f))
			}
		}
		return
	case "all":
	default:
		ids = os.Args[1:]
	}
	rc := 0
	t0 := time.Now()
	w, err := loadWorld(repo)
	if err != nil {
		// the tree does not load: nothing can be certified, every property is reported as broken
		for _, id := range ids {
			rp := filepath.Join(verif, "evidence", id+".replay.json")
			os.MkdirAll(filepath.Dir(rp), 0755)
			os.WriteFile(rp, []byte(fmt.Sprintf("{\"error\":%q}\n", err.Error())), 0644)
			fmt.Printf("cannot load and type-check %s: %s\nVIOLATION property=%s replay=%s\n", repo, err, id, rp)
		}
		os.Exit(1)
	}
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if c := runOne(w, ck, verif, t0); c > rc {
			rc = c
		}
	}
	os.Exit(rc)
}

func runOne(w *World, ck *Check, verif string, t0 time.Time) (rc int) {
	r := newReport(ck.ID, w)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.bad("analysis", "panic", "-", "the analysis could not be completed: %v\n%s", e, debug.Stack())
			}
		}()
		ck.Run(w, r)
	}()
	return r.finish(verif, t0, ck)
}
