package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// C29: the project tool builds and runs what the configuration says.

func init() {
	register(&Family{
		ID:        "C29",
		Technique: "exhaustive enumeration of configurations, command lines and programs, each executed with the real tool in a directory of its own and compared with a model of its outcome",
		Rule: "The product of run and build, release or not, both kinds, executables and objects, 3 outputs, 2 entry points, 4 paths of the project and 2 lists of flags for a program, and of 18 programs - right ones, with modules, input, flags of their own (in their order, repeated ones too) and a status of their own, and refused by the parser, the analysis and the linker - with the modes, kinds and binaries (thorough: the product of everything); " +
			"21 configurations that are wrong or incomplete, every command line of at most 3 of 9 words, init in 4 places followed by run and build, the tree of 6 files. " +
			"Compared are the status, the output, the calls of the compiler of the platform, and all files before and after.",
		Note: "Runs the binaries of cmd/build and cmd/compiler with the installed clang behind a script that records its arguments.",
		Gen:  genBuild,
	})
}

type bprog struct {
	name   string
	src    string // of the entry point
	files  map[string]string
	in     string
	want   string
	werr   string
	status int      // of the program itself
	bad    bool     // refused by candice
	nolink bool     // refused by the linker
	lib    bool     // has no main, and a function for C
	flags  []string // that the program adds
	any    []string // flags of other functions and modules
}

func buildProgs() []bprog {
	mod := map[string]string{
		"m.cd":      "import d, \"./deep/d.cd\";\nfunc two() i32 { return 2 * d.one(); }\n",
		"deep/d.cd": "func one() i32 { return 21; }\n",
		"g.cd":      "type T\nfunc id(t T) T { return t; }\n",
	}
	return []bprog{
		{name: "hello", src: "func main() { @print(\"Hello\", 4); }\n", want: "Hello 4"},
		{name: "modules", src: "import m, \"./m.cd\";\nimport g, i64, \"./g.cd\";\nfunc main() { @print(m.two(), g.id(7 as i64)); }\n", files: mod, want: "42 7"},
		{name: "stdin", src: "extern func getchar() i32;\nfunc main() { c := getchar(); for c > 0 { @print(c); c = getchar(); } }\n", in: "AB", want: "6566"},
		{name: "lib", src: "pub func lib(a i32) i32 { return a * 5 + 1; }\n", lib: true},
		{name: "parse", src: "func main() { @print(1 + ; }\n", bad: true},
		{name: "types", src: "func main() { x : i32 = 1.5; }\n", bad: true},
		{name: "link", src: "extern func zz_no_such_function(i32) i32;\nfunc main() { @print(zz_no_such_function(1)); }\n", nolink: true},
		{name: "exit", src: "extern func exit(i32);\nfunc main() { @print(3); exit(3); }\n", want: "3", status: 3},
		{name: "flag", src: "func main() { @add_compiler_flag(\"-lm\"); @print(2); }\n", want: "2", flags: []string{"-lm"}},
		{name: "twice", src: "func main() { @add_compiler_flag(\"-D\"); @add_compiler_flag(\"AA=1\"); @add_compiler_flag(\"-D\"); @add_compiler_flag(\"BB=2\"); @print(6); @add_compiler_flag(\"-D\"); @add_compiler_flag(\"FIRST=1\"); }\n", want: "6", flags: strings.Fields("-D AA=1 -D BB=2 -D FIRST=1")},
		{name: "ofmodules", src: "import m, \"./m.cd\";\nfunc g() { @add_compiler_flag(\"-DG\"); }\nfunc main() { @add_compiler_flag(\"-I\"); @add_compiler_flag(\"main\"); m.f(); }\n", files: map[string]string{"m.cd": "func f() { @add_compiler_flag(\"-I\"); @add_compiler_flag(\"m\"); @print(7); }\n"}, want: "7", any: strings.Fields("-DG -I main -I m")},
		{name: "empty", src: "func main() { }\n"},
		{name: "badmodule", src: "import m, \"./m.cd\";\nfunc main() { }\n", files: map[string]string{"m.cd": "func f() i32 { return \"s\"; }\n"}, bad: true},
		{name: "nomodule", src: "import m, \"./none.cd\";\nfunc main() { }\n", bad: true},
		{name: "lines", src: "extern func putchar(i32) i32;\nfunc main() { for i := 0; i < 3; i = i + 1 { @print(i); putchar(10); } }\n", want: "0\n1\n2\n"},
		{name: "lexical", src: "func main() { s := \"abc; }\n", bad: true},
		{name: "float", src: "func main() { a := 0.5; for i := 0; i < 4; i = i + 1 { a = a * 2.0; } @print(a, a as i32); }\n", want: "8.000 8"},
		{name: "bad-brace", src: "func main() { @print(1); } }\n", bad: true},
		{name: "bad-open", src: "func main() { @print(1);\n", bad: true},
		{name: "bad-else", src: "func main() { if 1 == 1 { @print(1); } else }\n", bad: true},
		{name: "bad-params", src: "func main() { @print(1); } func f(a i32 { }\n", bad: true},
		{name: "bad-literal", src: "func main() { @print(99999999999999999999999999); }\n", bad: true},
		{name: "bad-binary", src: "func main() { @print(0b2); }\n", bad: true},
		{name: "bad-paren", src: "func main() { @print(1)); }\n", bad: true},
		{name: "bad-dollar", src: "func main() { $ @print(1); }\n", bad: true},
		{name: "bad-condition", src: "func main() { @print(1); } #if x { }\n", bad: true},
		{name: "bad-variable", src: "func main() { @print(x); }\n", bad: true},
		{name: "bad-type", src: "func f(a Unknown) { }\nfunc main() { @print(1); }\n", bad: true},
		{name: "bad-noreturn", src: "func f() i32 { }\nfunc main() { @print(1); }\n", bad: true},
		{name: "bad-arguments", src: "func f(a i32) { }\nfunc main() { f(); @print(1); }\n", bad: true},
		{name: "bad-constant", src: "const c := 1;\nfunc main() { c = 2; @print(1); }\n", bad: true},
		{name: "bad-global", src: "@print(1);\nfunc main() { @print(1); }\n", bad: true},
		{name: "bad-last", src: "func main() { @print(1); }\nfunc f() { x := 1 + \"s\"; }\n", bad: true},
		{name: "stderr", src: "extern func write(i32, *i8, i64) i64;\nfunc main() { write(1, \"out\", 3 as i64); write(2, \"err\", 3 as i64); }\n", want: "out", werr: "err"},
		{name: "failing", src: "extern func write(i32, *i8, i64) i64;\nextern func exit(i32);\nfunc main() { write(2, \"bad\", 3 as i64); @print(1); exit(1); }\n", want: "1", werr: "bad", status: 1},
		{name: "echo", src: "extern func read(i32, *i8, i64) i64;\nextern func write(i32, *i8, i64) i64;\nfunc main() { b := @alloc(i8, 4); n := read(0, b, 4 as i64); for n > 0 as i64 { write(1, b, n); write(2, b, n); n = read(0, b, 4 as i64); } @free(b); }\n", in: "some words\nof the input\n", want: "some words\nof the input\n", werr: "some words\nof the input\n"},
		{name: "nomain", src: "func f() i32 { return 2; }\n", nolink: true},
	}
}

// inOrder tells that all the words are among the others, in this order.
func inOrder(ws, of []string) bool {
	for _, o := range of {
		if len(ws) > 0 && ws[0] == o {
			ws = ws[1:]
		}
	}
	return len(ws) == 0
}

type bconf struct {
	mode, kind, binary, output, entry, at string
	release, flags                        bool
}

func (c bconf) json() string {
	s := `{ "name": "p", "entrypoint": "` + c.entry + `", "cxx": "` + filepath.Join(scratch(), "cxx") + `", "kind": "` + c.kind + `", "output": "` + c.output + `"`
	if c.binary != "" {
		s += `, "binary": "` + c.binary + `"`
	}
	if c.flags {
		s += `, "flags": ["-DFIRST=1", "-D", "CONF", "-g"]`
	} else {
		s += `, "flags": []`
	}
	return s + " }\n"
}

// files lists a directory with its contents.
func filesOf(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			n, _ := filepath.Rel(dir, p)
			r[n] = string(b)
		}
		return nil
	})
	return r
}

type ran struct {
	status int
	out    string
	err    string
}

func runIn(dir, in string, name string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	r := ran{out: out.String(), err: errs.String()}
	if cmd.ProcessState != nil {
		r.status = cmd.ProcessState.ExitCode()
	} else if err != nil {
		r.status, r.err = -2, err.Error()
	}
	if ctx.Err() != nil {
		r.status, r.err = -3, "it does not end"
	}
	return r
}

// cxxReady writes the script that records the calls of the compiler.
func cxxReady() {
	p := filepath.Join(scratch(), "cxx")
	if _, err := os.Stat(p); err == nil {
		return
	}
	os.WriteFile(p, []byte("#!/bin/sh\n{ for a in \"$@\"; do printf '%s\\n' \"$a\"; done; echo --; } >> \"$CXXLOG\"\nexec clang \"$@\"\n"), 0o755)
}

func put(dir string, fs map[string]string) {
	for n, s := range fs {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(s), 0o644)
	}
}

func workDir() (string, func()) {
	d, err := os.MkdirTemp(scratch(), "w")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func names(m map[string]string) string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// buildCheck executes one configuration and tells what is wrong.
func buildCheck(c bconf, p bprog) string {
	cxxReady()
	root, done := workDir()
	defer done()
	cwd := filepath.Join(root, "cwd")
	proj, arg := cwd, "."
	switch c.at {
	case "sub":
		proj, arg = filepath.Join(cwd, "pr"), "pr"
	case "up":
		proj, arg = filepath.Join(root, "other"), "../other"
	case "abs":
		proj = filepath.Join(root, "other")
		arg = proj
	}
	os.MkdirAll(cwd, 0o755)
	os.MkdirAll(proj, 0o755)
	os.MkdirAll(filepath.Join(proj, filepath.Dir(c.output)), 0o755)
	put(proj, map[string]string{"candice.json": c.json(), c.entry: p.src})
	put(filepath.Join(proj, filepath.Dir(c.entry)), p.files)
	log := filepath.Join(root, "log")
	os.Setenv("CXXLOG", log)
	before := filesOf(proj)
	args := []string{c.mode, arg}
	if c.release {
		args = append(args, "--release")
	}
	r := runIn(cwd, p.in, builtTool("candice"), args...)
	calls, _ := os.ReadFile(log)
	after := filesOf(proj)
	what := func(f string, a ...any) string {
		return fmt.Sprintf(f, a...) + fmt.Sprintf("\ncommand: candice %s\nstatus %d\noutput %s%s\ncompiler: %s\nfiles: %s", strings.Join(args, " "), r.status, clip(r.out, 600), clip(r.err, 300), strings.ReplaceAll(string(calls), "\n", " "), names(after))
	}
	// the files of the project stay, others than the outputs do not appear
	for n, s := range before {
		if after[n] != s {
			return what("the file %s changed", n)
		}
	}
	obj := c.binary == "obj"
	product := c.output
	if obj {
		product += ".o"
	}
	for n := range after {
		if _, ok := before[n]; !ok && n != product && !strings.HasSuffix(n, ".ll") {
			return what("the file %s appeared", n)
		}
	}
	if proj != cwd {
		for n := range filesOf(cwd) {
			if !strings.HasPrefix(n, "pr/") {
				return what("the file %s appeared outside of the project", n)
			}
		}
	}
	_, made := after[product]
	refused := p.bad || !obj && (p.nolink || p.lib)
	runObj := obj && c.mode == "run"
	if refused || runObj {
		if r.status == 0 {
			return what("it has to fail")
		}
		if made && refused {
			return what("the program is refused and %s was made", product)
		}
		if strings.Contains(r.out, "SUCCESSFUL") || r.out == "" {
			return what("no diagnostic")
		}
		if p.bad && len(calls) > 0 {
			return what("the compiler of the platform was called with a refused program")
		}
		if strings.Contains(r.err, "goroutine ") {
			return what("it crashed")
		}
		return ""
	}
	if !made {
		return what("%s was not made", product)
	}
	// the call of the compiler
	words := strings.Split(strings.TrimSpace(string(calls)), "\n")
	has := func(w string) bool {
		for _, x := range words {
			if x == w {
				return true
			}
		}
		return false
	}
	if strings.Count(string(calls), "--\n") != 1 {
		return what("the compiler has to be called once")
	}
	switch {
	case has("-O3") != c.release:
		return what("-O3 belongs to the release, and only to it")
	case has("-c") != obj:
		return what("-c belongs to an object, and only to it")
	case has("-DFIRST=1") != c.flags || has("-g") != c.flags:
		return what("the flags of the configuration")
	case !inOrder(p.flags, words):
		return what("the flags of the program")
	case c.flags && !inOrder(append(strings.Fields("-DFIRST=1 -D CONF -g"), p.flags...), words):
		return what("the flags of the configuration, and those of the program after them")
	case !c.flags && has("-D") != inOrder([]string{"-D"}, p.flags), has("-lm") != inOrder([]string{"-lm"}, p.flags):
		return what("flags of nobody")
	case !has("-o") || !has(product):
		return what("the output")
	}
	for i, w := range p.any {
		if !has(w) || w == "-I" && !inOrder(p.any[i:i+2], words) {
			return what("the flag %s of a function", w)
		}
	}
	exe := filepath.Join(proj, product)
	if obj {
		if r.status != 0 || !strings.Contains(r.out, "SUCCESSFUL") {
			return what("the object has to be built")
		}
		if p.nolink {
			return ""
		}
		link := []string{exe, "-o", filepath.Join(root, "linked")}
		want := p.want
		if p.lib {
			put(root, map[string]string{"d.c": "#include <stdio.h>\nint lib(int);\nint main(void) { printf(\"%d\", lib(4)); return 0; }\n"})
			link = append(link, filepath.Join(root, "d.c"))
			want = "21"
		}
		if l := runIn(root, "", "clang", link...); l.status != 0 {
			return what("the object does not link: %s", l.err)
		}
		x := runIn(root, p.in, filepath.Join(root, "linked"))
		if x.out != want || x.status != p.status {
			return what("the object prints %q with status %d, and has to print %q with %d", x.out, x.status, want, p.status)
		}
		return ""
	}
	if c.mode == "build" {
		if r.status != 0 || !strings.Contains(r.out, "SUCCESSFUL") {
			return what("it has to be built")
		}
		x := runIn(root, p.in, exe)
		if x.out != p.want || x.status != p.status {
			return what("the program prints %q with status %d, and has to print %q with %d", x.out, x.status, p.want, p.status)
		}
		return ""
	}
	if (r.status == 0) != (p.status == 0) {
		return what("the status of the program is %d", p.status)
	}
	out := r.out
	if p.status != 0 {
		// the message about the status follows
		out = strings.TrimSuffix(out, fmt.Sprintf("exit status %d\n", p.status))
	}
	if c.kind == "cxx" && out != p.want || !strings.HasSuffix(out, p.want) {
		return what("it prints %q, and has to print %q", out, p.want)
	}
	if !strings.HasSuffix(r.err, p.werr) {
		return what("it writes %q to the standard error, and has to write %q", r.err, p.werr)
	}
	return ""
}

func genBuild(x *Enum) {
	ps := buildProgs()
	one := func(c bconf, p bprog) {
		x.Case(fmt.Sprintf("%s:%+v", p.name, c), func() Case {
			return Case{Kind: KCustom, Src: p.src, Files: p.files, Fn: func() Outcome { return Outcome{Bad: buildCheck(c, p), Trans: 1, Traces: 1} }}
		})
	}
	modes, kinds, bins := []string{"run", "build"}, []string{"cxx", "llvm"}, []string{"", "exe", "obj"}
	outs, entries, ats := []string{"program", "out/the-prog", "a b"}, []string{"main.cd", "src/app.cd"}, []string{"here", "sub", "up", "abs"}
	bools := []bool{false, true}
	all := func(p bprog, bins, outs, entries, ats []string, rel, flags []bool) {
		for _, m := range modes {
			for _, k := range kinds {
				for _, b := range bins {
					for _, o := range outs {
						for _, e := range entries {
							for _, a := range ats {
								for _, r := range rel {
									for _, f := range flags {
										one(bconf{m, k, b, o, e, a, r, f}, p)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	if x.Thorough() {
		for _, p := range ps {
			all(p, bins, outs, entries, ats, bools, bools)
		}
	} else {
		all(ps[0], bins, outs[:2], entries, []string{"here", "sub"}, bools, bools)
		all(ps[0], []string{"exe"}, outs[2:], entries[:1], ats, bools[:1], bools[:1])
		for _, p := range ps[1:] {
			all(p, []string{"exe", "obj"}, outs[:1], entries[1:], []string{"abs"}, bools[:1], bools[:1])
			all(p, []string{"exe", "obj"}, outs[:1], entries[:1], []string{"here"}, bools[1:], bools[1:])
			if len(p.flags)+len(p.any) > 0 {
				all(p, []string{"exe"}, outs[:1], entries[:1], []string{"here"}, bools, bools)
			}
		}
	}
	// wrong configurations
	cxx := func() string { return filepath.Join(scratch(), "cxx") }
	good := func() string { return bconf{kind: "cxx", output: "program", entry: "main.cd"}.json() }
	wrong := []struct {
		name string
		mk   func() string
		none bool
	}{
		{"missing", nil, true},
		{"empty", func() string { return "" }, false},
		{"notjson", func() string { return "kind = cxx" }, false},
		{"list", func() string { return "[]" }, false},
		{"number", func() string { return "4" }, false},
		{"open", func() string { g := good(); return g[:len(g)-4] }, false},
		{"nothing", func() string { return "{}" }, false},
		{"entrynumber", func() string { return strings.Replace(good(), `"main.cd"`, "4", 1) }, false},
		{"flagsstring", func() string { return strings.Replace(good(), `[]`, `"-g"`, 1) }, false},
		{"flagsnumbers", func() string { return strings.Replace(good(), `[]`, `[1]`, 1) }, false},
		{"entrymissing", func() string { return strings.Replace(good(), `main.cd`, `other.cd`, 1) }, false},
		{"entrydir", func() string { return strings.Replace(good(), `main.cd`, `.`, 1) }, false},
		{"kind", func() string { return strings.Replace(good(), `"kind": "cxx"`, `"kind": "gcc"`, 1) }, false},
		{"nokind", func() string { return strings.Replace(good(), `"kind": "cxx"`, `"other": "cxx"`, 1) }, false},
		{"cxxmissing", func() string { return strings.Replace(good(), cxx(), `/none/zz-no-such-compiler`, 1) }, false},
		{"badflag", func() string { return strings.Replace(good(), `[]`, `["--zz-no-such-flag"]`, 1) }, false},
		{"nooutput", func() string { return strings.Replace(good(), `"output": "program"`, `"output": ""`, 1) }, false},
		{"outdir", func() string { return strings.Replace(good(), `"program"`, `"no/such/program"`, 1) }, false},
		{"quotes", func() string { return strings.ReplaceAll(good(), `"`, `'`) }, false},
		{"comma", func() string { return strings.Replace(good(), ` }`, `, }`, 1) }, false},
		{"kindnumber", func() string { return strings.Replace(good(), `"kind": "cxx"`, `"kind": 3`, 1) }, false},
	}
	for _, w := range wrong {
		for _, m := range modes {
			w, m := w, m
			x.Case("config:"+w.name+":"+m, func() Case {
				return Case{Kind: KCustom, Src: w.name, Fn: func() Outcome {
					cxxReady()
					d, done := workDir()
					defer done()
					os.Setenv("CXXLOG", filepath.Join(scratch(), "log"))
					put(d, map[string]string{"main.cd": "func main() { @print(1); }\n"})
					if !w.none {
						put(d, map[string]string{"candice.json": w.mk()})
					}
					r := runIn(d, "", builtTool("candice"), m, ".")
					bad := ""
					if r.status == 0 || r.out == "" || strings.Contains(r.out, "SUCCESSFUL") || strings.Contains(r.err, "goroutine ") {
						bad = fmt.Sprintf("the configuration %s has to be refused: status %d, %s %s", w.name, r.status, r.out, clip(r.err, 400))
					} else if _, err := os.Stat(filepath.Join(d, "program")); err == nil {
						bad = "the program was built"
					}
					return Outcome{Bad: bad, Trans: 1, Traces: 1}
				}}
			})
		}
	}
	// command lines
	words := []string{"run", "build", "init", "tree", "pr", "none", "--release", "pr/main.cd", "new"}
	line := func(l []string) {
		l = append([]string{}, l...)
		x.Case("line:"+strings.Join(l, " "), func() Case {
			return Case{Kind: KCustom, Src: strings.Join(l, " "), Fn: func() Outcome { return Outcome{Bad: lineCheck(l), Trans: 1, Traces: 1} }}
		})
	}
	line(nil)
	for _, a := range words {
		line([]string{a})
		for _, b := range words {
			line([]string{a, b})
			for _, c := range words {
				if x.Thorough() || c == "--release" || b == "--release" {
					line([]string{a, b, c})
				}
			}
		}
	}
	// a new project
	for _, at := range ats {
		for _, m := range modes {
			for _, rel := range bools {
				at, m, rel := at, m, rel
				x.Case(fmt.Sprint("init:", at, m, rel), func() Case {
					return Case{Kind: KCustom, Src: at, Fn: func() Outcome { return Outcome{Bad: initCheck(at, m, rel), Trans: 2, Traces: 2} }}
				})
			}
		}
	}
	// the tree of every program
	for _, p := range ps {
		p := p
		x.Case("tree:"+p.name, func() Case {
			return Case{Kind: KCustom, Src: p.src, Fn: func() Outcome {
				d, done := workDir()
				defer done()
				put(d, map[string]string{"main.cd": p.src})
				put(d, p.files)
				before := names(filesOf(d))
				r := runIn(d, "", builtTool("candice"), "tree", "main.cd")
				tree, perr, _ := printTree(p.src)
				refused := perr != ""
				bad := ""
				switch {
				case refused && (r.status == 0 || r.err == "" && !strings.Contains(r.out, "AST")):
					bad = fmt.Sprintf("the parser refuses it, and the status is %d: %s", r.status, clip(r.out, 300))
				case !refused && r.status != 0:
					bad = fmt.Sprintf("the status is %d: %s", r.status, clip(r.out, 300))
				case names(filesOf(d)) != before:
					bad = "a tree makes no file"
				}
				if bad == "" && !refused && r.out != tree {
					bad = "it prints another tree: " + clip(r.out, 300)
				}
				return Outcome{Bad: bad, Trans: 1, Traces: 1}
			}}
		})
	}
	// the compiler of a single file
	for _, p := range ps {
		for _, nm := range []string{"", "other"} {
			p, nm := p, nm
			x.Case("single:"+p.name+":"+nm, func() Case {
				return Case{Kind: KCustom, Src: p.src, Fn: func() Outcome {
					d, done := workDir()
					defer done()
					put(d, map[string]string{"main.cd": p.src})
					put(d, p.files)
					args, exe := []string{"main.cd"}, "program"
					if nm != "" {
						args, exe = []string{"-name", nm, "main.cd"}, nm
					}
					r := runIn(d, "", builtTool("compiler"), args...)
					fails := p.bad || p.nolink || p.lib
					_, err := os.Stat(filepath.Join(d, exe))
					bad := ""
					switch {
					case (r.status != 0) != fails || (err != nil) != fails:
						bad = fmt.Sprintf("status %d, made %v: %s%s", r.status, err == nil, r.out, clip(r.err, 400))
					case !fails:
						if y := runIn(d, p.in, filepath.Join(d, exe)); y.out != p.want || y.status != p.status {
							bad = fmt.Sprintf("it prints %q with status %d, and has to print %q with %d", y.out, y.status, p.want, p.status)
						}
					}
					return Outcome{Bad: bad, Trans: 1, Traces: 1}
				}}
			})
		}
	}
}

// lineCheck runs a command line with a project in pr and none in the rest.
func lineCheck(l []string) string {
	cxxReady()
	d, done := workDir()
	defer done()
	os.Setenv("CXXLOG", filepath.Join(scratch(), "log"))
	put(d, map[string]string{"pr/main.cd": "func main() { @print(\"run\"); }\n", "pr/candice.json": bconf{kind: "cxx", output: "program", entry: "main.cd"}.json(), "new/x": ""})
	before := filesOf(d)
	r := runIn(d, "", builtTool("candice"), l...)
	after := filesOf(d)
	what := func(s string) string {
		return fmt.Sprintf("%s: status %d, %s%s files %s", s, r.status, r.out, clip(r.err, 300), names(after))
	}
	if strings.Contains(r.err, "goroutine ") {
		return what("it crashed")
	}
	_, made := after["pr/program"]
	if len(l) < 2 {
		if r.status == 0 || !strings.Contains(r.out, "Usage") || len(after) != len(before) {
			return what("the usage has to be shown")
		}
		return ""
	}
	switch l[0] {
	case "run", "build":
		if l[1] == "pr" {
			if !made || r.status != 0 || l[0] == "run" && r.out != "run" || l[0] == "build" && strings.HasPrefix(r.out, "run") {
				return what("the project has to be executed, or built")
			}
			return ""
		}
		if made || r.status == 0 || len(after) != len(before) {
			return what("there is no project")
		}
	case "tree":
		if made || len(after) != len(before) {
			return what("a tree makes no file")
		}
		if l[1] == "pr/main.cd" {
			t, _, _ := printTree(before["pr/main.cd"])
			if r.status != 0 || r.out != t {
				return what("the tree")
			}
		} else if r.status == 0 {
			return what("there is no file")
		}
	case "init":
		if l[1] == "new" || l[1] == "pr" {
			if r.status != 0 || !strings.Contains(after[l[1]+"/main.cd"], "Hello world!") || after[l[1]+"/candice.json"] == "" {
				return what("the project has to be created")
			}
			return ""
		}
		if r.status == 0 || len(after) != len(before) {
			return what("there is no directory")
		}
	}
	return ""
}

func initCheck(at, mode string, release bool) string {
	root, done := workDir()
	defer done()
	cwd := filepath.Join(root, "cwd")
	proj, arg := cwd, "."
	switch at {
	case "sub":
		proj, arg = filepath.Join(cwd, "pr"), "pr"
	case "up":
		proj, arg = filepath.Join(root, "other"), "../other"
	case "abs":
		proj = filepath.Join(root, "other")
		arg = proj
	}
	os.MkdirAll(cwd, 0o755)
	os.MkdirAll(proj, 0o755)
	r := runIn(cwd, "", builtTool("candice"), "init", arg)
	if got := names(filesOf(proj)); r.status != 0 || got != "candice.json main.cd" {
		return fmt.Sprintf("init: status %d, %s%s files %s", r.status, r.out, r.err, got)
	}
	args := []string{mode, arg}
	if release {
		args = append(args, "--release")
	}
	r = runIn(cwd, "", builtTool("candice"), args...)
	out := r.out
	if mode == "build" {
		if r.status != 0 {
			return fmt.Sprintf("build: status %d, %s%s", r.status, r.out, r.err)
		}
		r = runIn(root, "", filepath.Join(proj, "program"))
		out = r.out
	}
	if r.status != 0 || out != "Hello world!" {
		return fmt.Sprintf("%s: status %d, prints %q %s", mode, r.status, out, r.err)
	}
	return ""
}
