package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/gabivlj/candice/internals/semantic"
)

// C22: what was compiled before in the same process makes no difference.

func init() {
	register(&Family{
		ID:        "C22",
		Technique: "explicit-state exploration of all histories of compilations up to a length, each compilation compared with the known meaning of its program",
		Rule: "Every sequence of 2 of 86 programs (accepted ones of every kind of declaration and statement, refused ones by the lexer, the parser and the analysis in every construct, and programs over modules and generic modules, some of them broken), and every sequence of 3 of 30 (4 of 14, and 3 of 86, in the thorough tier), compiled one after the other in one process, with the memory of imported modules reset in between, and without; " +
			"each of them has to be accepted and print its output, or be refused with a diagnostic on its line, whatever came before; every one is also compiled 12 times in a row, and the diagnostics have to be the same words each time.",
		Note: "Modules are the same files during a history. Bounded by the length of the histories.",
		Gen:  genHistory,
	})
}

type hprog struct {
	name, src, want string
	line            int // refused on this line
}

var histFiles = map[string]string{
	"hm.cd":    "struct S { v i32 }\nfunc mk(n i32) S { return @S{v: n}; }\nfunc get(s S) i32 { return s.v; }\ng : i32 = 4;\nconst K := 6;\nfunc bump() i32 { g = g + 1; return g; }\n",
	"hgen.cd":  "type T\nstruct Box { v T }\nfunc put(t T) Box { return @Box{v: t}; }\nfunc get(b Box) T { return b.v; }\n",
	"hbad.cd":  "func f() i32 { return 1.5; }\n",
	"hbad2.cd": "func f( {\n",
	"hcyc.cd":  "import b, \"./hcyc2.cd\";\nfunc f() {}\n",
	"hcyc2.cd": "import a, \"./hcyc.cd\";\nfunc f() {}\n",
	"hbad3.cd": "import m, \"./hm.cd\";\nfunc f() i32 { return \"s\"; }\n",
	"hbad4.cd": "import m, \"./hbad.cd\";\nimport n, \"./hm.cd\";\nfunc f() i32 { return 1; }\n",
	"hbad5.cd": "type T\nimport m, \"./hm.cd\";\nstruct B { v T }\nfunc f(b B) T { return \"s\"; }\n",
	"hbad6.cd": "import m, \"./hsub.cd\";\nimport n, i64, \"./hgen.cd\";\nfunc f() i32 { return n.put(1.5); }\n",
	"hsub.cd":  "import m, \"./hm.cd\";\nimport n, i32, \"./hgen.cd\";\nfunc two(a i32) i32 { return m.mk(a).get() + n.get(n.put(m.K)); }\n",
}

func histProgs() []hprog {
	var r []hprog
	bad := func(name, src string, line int) { r = append(r, hprog{name, src, "", line}) }
	ok := func(name, src, want string) { r = append(r, hprog{name, src, want, 0}) }
	ok("plain", "func main() { a := 3; @print(a + 4); }\n", "7")
	ok("closure", "func main() { a := 3; f := func(n i32) i32 { return n + a; }; a = 9; @print(f(1), a); }\n", "4 9")
	ok("consts", "const A := 2;\nconst B := A * 3;\nfunc main() { const C := B + 1; switch 7 { case C { @print(C); } default { @print(0); } } }\n", "7")
	ok("module", "import m, \"./hm.cd\";\nfunc main() { s := m.mk(3); @print(s.get(), m.bump(), m.g, m.K); }\n", "3 5 5 6")
	ok("module2", "import q, \"./hm.cd\";\nfunc mk() i32 { return 8; }\nfunc main() { s : q.S = q.mk(2); q.g = 1; @print(q.get(s), mk(), q.bump()); }\n", "2 8 2")
	ok("generic", "import b, i32, \"./hgen.cd\";\nfunc main() { @print(b.put(5).get()); }\n", "5")
	ok("generic2", "import b, *i8, \"./hgen.cd\";\nimport c, i64, \"./hgen.cd\";\nfunc main() { @print(b.get(b.put(\"x\")), c.put(6 as i64).get()); }\n", "x 6")
	ok("generic3", "struct S { v i32 }\nimport b, S, \"./hgen.cd\";\nfunc main() { @print(b.put(@S{v: 8}).get().v); }\n", "8")
	ok("submodule", "import s, \"./hsub.cd\";\nimport m, \"./hm.cd\";\nfunc main() { @print(s.two(4), m.g); }\n", "10 4")
	bad("modbad", "import m, \"./hbad.cd\";\nfunc main() { }\n", 1)
	bad("modbad2", "func f() {}\nimport m, \"./hbad2.cd\";\nfunc main() { }\n", 2)
	bad("modcycle", "func f() {}\nimport m, \"./hcyc.cd\";\nfunc main() { }\n", 2)
	bad("modbad3", "func f() {}\n\nimport m, \"./hbad3.cd\";\nfunc main() { }\n", 3)
	bad("modbad4", "func f() {}\n\nimport m, \"./hbad4.cd\";\nfunc main() { }\n", 3)
	bad("modbad5", "func f() {}\n\nimport m, i32, \"./hbad5.cd\";\nfunc main() { }\n", 3)
	bad("modbad6", "func f() {}\nimport m, \"./hbad6.cd\";\nfunc main() { }\n", 2)
	bad("modbad7", "import m, \"./hm.cd\";\nimport q, \"./hbad3.cd\";\nfunc main() { }\n", 2)
	bad("modmissing", "\nimport m, \"./hnone.cd\";\nfunc main() { }\n", 2)
	bad("modmember", "import m, \"./hm.cd\";\nfunc main() {\n@print(m.nothing);\n}\n", 3)
	bad("modmember2", "import m, \"./hm.cd\";\nfunc main() {\n x : m.N = 3;\n}\n", 3)
	bad("genbad", "import b, Missing, \"./hgen.cd\";\nfunc main() { }\n", 1)
	bad("genmismatch", "import b, i32, \"./hgen.cd\";\nfunc main() {\n b.put(1.5);\n}\n", 3)
	bad("badinconst", "const A := 1 +\n\"s\";\nfunc main() { }\n", 0)
	bad("badconst", "func f() i32 { return 1; }\nconst A := f();\nfunc main() { }\n", 2)
	bad("badconst2", "func main() {\nconst A := &A;\n}\n", 2)
	bad("assignconst", "const A := 1;\nfunc main() {\nA = 2;\n}\n", 3)
	bad("undefined", "func main() {\n x := y;\n}\n", 2)
	bad("inlambda", "func main() {\n f := func() i32 {\n return z;\n };\n}\n", 3)
	bad("inlambda2", "func f() i64 { g := func() i32 {\n return 1.5;\n }; return 1 as i64; }\nfunc main() { }\n", 2)
	bad("inblock", "func main() {\n x := :i32 {\n y := :i64 {\n return 1;\n }; return 1; };\n}\n", 4)
	bad("inloop", "func main() {\n for i := 0; i < 3; i = i + 1 {\n break; continue; x := q; }\n}\n", 3)
	bad("inswitch", "func main() {\n switch 1 {\n case 1 {\n w = 3;\n } default { } }\n}\n", 4)
	bad("noreturn", "func main() { }\nfunc f() i32 { }\n", 2)
	bad("noreturn2", "func f() i32 {\n if 1 { return 1; }\n}\nfunc main() { }\n", 0)
	bad("breakout", "func main() {\n for 1 { f := func() { break; }; }\n}\n", 2)
	bad("selfstruct", "struct A { a A }\nfunc main() { }\n", 1)
	bad("badfield", "struct A { b Missing }\nfunc main() { }\n", 0)
	bad("manytypes", "struct A { v i32 }\nstruct B { v i32 }\nstruct C { v i32 }\nunion D { v i32 }\ntype E = A;\nfunc f() {\n x : Missing = 3;\n}\nfunc main() { }\n", 7)
	bad("manytypes2", "struct A { v i32 }\nstruct B { v i32 }\nstruct C { v i32 }\nfunc f(a Missing) {\n}\nfunc main() { }\n", 4)
	bad("manyfields", "struct A { a i32\n b i8\n c i64\n d *i8 }\nfunc main() {\n a := @A{a: 1}; a.q = 3;\n}\n", 6)
	bad("manyunion", "union A { a i32\n b i8\n c i64\n d *i8 }\nfunc main() {\n a : A = 1.5;\n}\n", 6)
	bad("twice", "func f() {}\nfunc f() {}\nfunc main() { }\n", 2)
	bad("args", "func f(a i32) {}\nfunc main() {\n f(1, 2);\n}\n", 3)
	bad("multi", "func f() (i32, i32) { return 1, 2; }\nfunc main() {\n a, b, c := f();\n}\n", 3)
	bad("assigntype", "func main() {\n a := 1;\n a = \"s\";\n}\n", 3)
	bad("cast", "struct A { v i32 }\nfunc main() {\n a := @A{v: 1}; b := a as i32;\n}\n", 3)
	bad("structlit", "struct A { v i32 }\nfunc main() {\n a := @A{w: 1};\n}\n", 3)
	bad("parse1", "func main() {\n a := (1 + ;\n}\n", 2)
	bad("parse2", "func main( {\n}\n", 1)
	bad("parse3", "struct {\n", 0)
	bad("parse4", "func main() {\n x := 1\n", 0)
	bad("lex1", "func main() {\n s := \"abc;\n}\n", 0)
	bad("lex2", "func main() {\n x := 1 $ 2;\n}\n", 2)
	bad("lex3", "func main() {\n x := 99999999999999999999999;\n}\n", 2)
	bad("macro", "#if NOPE { }\nfunc main() { }\n", 1)
	bad("macro2", "func main() {\n #if 1 { x := k; }\n}\n", 2)
	for _, s := range declPrograms {
		ok("decl-"+s.name, strings.Join(s.first, "")+strings.Join(s.decls, ""), s.want)
	}
	ok("blockexpr", "func main() { x := :i32 { for i := 0; i < 9; i = i + 1 { if i == 4 { return i; } } return 0; }; @print(x); }\n", "4")
	ok("strings", "func main() { s := \"a\" + \"b\"; if s == \"ab\" { @print(s, s < \"b\", s[1]); } }\n", "ab 1 98")
	ok("shadow", "a := 1;\nfunc f() i32 { return a; }\nfunc main() { a := 5; { a := 6; @print(a); } @print(a, f()); }\n", "65 1")
	ok("flags", "func main() { #if LINUX { @print(1); } #if WINDOWS { @print(2); } }\n", "1")
	ok("union", "union U { a i32\n b i8 }\nfunc main() { u : U = 258; v := u; v.b = 1 as i8; @print(u.b, v.a); }\n", "2 257")
	ok("recursion", "func f(n i32) i32 { if n < 2 { return n; } return f(n - 1) + f(n - 2); }\nfunc main() { @print(f(10)); }\n", "55")
	return r
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// histCheck compiles p and tells what is wrong, and the diagnostics.
func histCheck(p hprog, reset bool, run bool) (bad, diag string, steps int) {
	c := compileSrc(p.src, opts{noText: true, keepPaths: !reset})
	if p.want == "" {
		if c.Stage != StParse && c.Stage != StSemantic {
			return "it has to be refused: " + c.why(), "", 0
		}
		ok := p.line == 0
		for _, e := range c.Errs {
			ok = ok || strings.Contains(e, fmt.Sprintf("[%d:", p.line)) || strings.Contains(e, fmt.Sprintf("on %d:", p.line))
		}
		if !ok {
			return fmt.Sprintf("no diagnostic names line %d: %s", p.line, c.why()), "", 0
		}
		return "", c.Stage + strings.Join(c.Errs, "\n"), 0
	}
	if c.Stage != StOK {
		return "it has to be accepted: " + c.why(), "", 0
	}
	if m := fastVerify(c.Mod); m != "" {
		if ok, msg := verifyLLVM(c.Mod.String()); !ok && !constExprIssue(msg) {
			return "LLVM refuses the module: " + msg, "", 0
		}
	}
	if run {
		res := RunModule(c.Mod, 1_000_000)
		steps = res.Steps
		if res.Unsupported == "" && (res.Trap != "" || res.Output != p.want) {
			return fmt.Sprintf("it has to print %q, it prints %q %s", p.want, res.Output, res.Trap), "", steps
		}
	}
	return "", fmt.Sprint("accepted ", len(c.Flags)), steps
}

func genHistory(x *Enum) {
	ps := histProgs()
	files := histFiles
	seq := func(key string, l []int, reset bool) {
		l = append([]int{}, l...)
		x.Case(key, func() Case {
			var b strings.Builder
			for _, i := range l {
				b.WriteString("// " + ps[i].name + "\n" + ps[i].src)
			}
			return Case{Kind: KCustom, Src: b.String(), Files: files, Fn: func() Outcome {
				writeFiles(files)
				semantic.ResetPaths()
				var o Outcome
				for n, i := range l {
					bad, _, steps := histCheck(ps[i], reset, n > 0 || len(l) == 1)
					o.Trans += steps + 1
					if bad != "" {
						var before []string
						for _, j := range l[:n] {
							before = append(before, ps[j].name)
						}
						return Outcome{Bad: fmt.Sprintf("program %q compiled after %v: %s", ps[i].name, before, bad)}
					}
				}
				o.States, o.Traces = len(l), 1
				return o
			}}
		})
	}
	n := len(ps)
	for a := 0; a < n; a++ {
		seq(k("one:%d", a), []int{a}, true)
		a := a
		x.Case(k("again:%s", ps[a].name), func() Case {
			return Case{Kind: KCustom, Src: ps[a].src, Files: files, Fn: func() Outcome {
				writeFiles(files)
				var seen []string
				for i := 0; i < 12; i++ {
					bad, diag, _ := histCheck(ps[a], i%3 != 1, i < 2)
					if bad != "" {
						return Outcome{Bad: bad}
					}
					seen = append(seen, ansi.ReplaceAllString(diag, ""))
				}
				sort.Strings(seen)
				if seen[0] != seen[11] {
					return Outcome{Bad: fmt.Sprintf("the diagnostics change from one compilation to the next: %q and %q", seen[0], seen[11])}
				}
				return Outcome{States: 12, Trans: 12, Traces: 1}
			}}
		})
	}
	for _, reset := range []bool{true, false} {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				seq(k("two:%v:%d:%d", reset, a, b), []int{a, b}, reset)
			}
		}
		m := x.Pick(30, n)
		// the programs over modules and the refused ones come first
		for a := 0; a < m; a++ {
			for b := 0; b < m; b++ {
				for c := 0; c < m; c++ {
					if reset && !x.Thorough() && (a > 20 || b > 20) {
						continue
					}
					seq(k("three:%v:%d:%d:%d", reset, a, b, c), []int{a, b, c}, reset)
				}
			}
		}
		if x.Thorough() {
			for i := 0; i < 14*14*14*14; i++ {
				seq(k("four:%v:%d", reset, i), []int{2 + i%14, 2 + i/14%14, 2 + i/196%14, 2 + i/2744}, reset)
			}
		}
	}
}
