package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh run FILE | vh check ID quick|thorough | vh one ID TIER INDEX | vh show ID TIER INDEX | vh list")
		os.Exit(2)
	}
	a := os.Args
	switch a[1] {
	case "run":
		runFile(a[2], len(a) > 3)
	case "list":
		var ids []string
		for id := range families {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, families[id].Technique)
		}
	case "rules":
		json.NewEncoder(os.Stdout).Encode(families)
	case "worker":
		sh, _ := strconv.Atoi(a[4])
		n, _ := strconv.Atoi(a[5])
		from, _ := strconv.Atoi(a[6])
		dl, _ := strconv.Atoi(a[8])
		workerMain(a[2], a[3], sh, n, from, a[7], time.Duration(dl)*time.Second)
	case "check":
		os.Exit(checkMain(a[2], a[3]))
	case "one":
		at, _ := strconv.Atoi(a[4])
		os.Exit(oneMain(a[2], a[3], at))
	case "show":
		at, _ := strconv.Atoi(a[4])
		k, s, fs := describe(families[a[2]], a[3], at)
		fmt.Printf("== %s\n%s\n", k, s)
		for n, f := range fs {
			fmt.Printf("-- %s\n%s\n", n, f)
		}
	}
}

func runFile(name string, text bool) {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	os.Chdir(filepath.Dir(name))
	c := compileSrc(string(b), opts{dir: "."})
	if c.Stage != StOK {
		fmt.Println(c.why())
		return
	}
	if text {
		fmt.Println(c.Text)
	}
	r := RunModule(c.Mod, 10_000_000)
	fmt.Printf("interp: out=%q exit=%d trap=%s %s unsupported=%s steps=%d leaked=%d\n", r.Output, r.Exit, r.Trap, r.TrapMsg, r.Unsupported, r.Steps, r.Leaked)
	ok, msg := verifyLLVM(c.Text)
	fmt.Println("llvm-as:", ok, msg)
	l := runLLI(c.Text, 20*time.Second)
	fmt.Printf("lli:    out=%q exit=%d err=%s %s\n", l.out, l.exit, l.err, firstLines(l.stderr, 3))
}
