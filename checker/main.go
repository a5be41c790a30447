package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

type propFn func(r *Run)

var props = map[string]propFn{}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "/verif"
}

func main() {
	var ids []string
	for _, a := range os.Args[1:] {
		if a == "all" {
			for id := range props {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		} else {
			ids = append(ids, a)
		}
	}
	if len(ids) == 0 {
		fmt.Println("usage: idmverify <property>... | all")
		os.Exit(2)
	}
	root := verifRoot()
	p, err := loadProgram("")
	code := 0
	for _, id := range ids {
		f, ok := props[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		started := time.Now()
		if err != nil {
			fmt.Printf("cannot load the program: %v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(root, "evidence", id+".json"))
			os.Exit(1)
		}
		r := newRun(id, p)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						r.fail("decidable", "", "", id, u.msg)
						return
					}
					r.fail("decidable", "", "", id, fmt.Sprintf("analyser failure: %v", e))
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(e)
					}
				}
			}()
			f(r)
		}()
		if c := r.finish(root, started); c > code {
			code = c
		}
	}
	os.Exit(code)
}
