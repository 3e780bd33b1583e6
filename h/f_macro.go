package main

import (
	"fmt"
	"sort"
	"strings"
)

// C23: conditional compilation and compiler flags.

func init() {
	register(&Family{
		ID:        "C23",
		Technique: "exhaustive enumeration of placements of #if blocks in programs, each decided by the meaning of the program with the blocks written out",
		Rule: "Every list of at most 3 nodes (4 in the thorough tier) of true and false #if blocks, conditionals, loops, blocks, block expressions, function literals, jumps and prints, run on 6 inputs and compared step by step with the program that has the true blocks written out; " +
			"24 programs of declarations with every choice of the declarations and of 6 ways to wrap each of them, alone and all together, with false blocks that declare the same names; 26 conditions in pairs and 29 that are refused; " +
			"37 contents of a false block that would not be accepted; every pair of 14 places of a compiler flag inside and outside of #if blocks.",
		Note: "Bounded by the number of blocks. What the platform is, is fixed: Linux on amd64.",
		Gen:  func(x *Enum) { genMacro(x); genWide(x, "C23") },
	})
}

func genMacro(x *Enum) {
	tree := func(pre string, l []*ft) { x.Prog(pre+ftString(l), func() *Pg { return flowProg(l) }) }
	has := func(l []*ft) bool { return hasKind(l, "mac1") || hasKind(l, "mac0") }
	all := &flowGen{kinds: []string{"mac1", "mac0", "blk", "lam", "if", "ifelse", "elseif", "switch1d", "for", "while", "block", "break", "continue", "return", "p"}, memo: map[string][][]*ft{}}
	for n := 1; n <= 3; n++ {
		for _, l := range all.lists(n, false, 3) {
			if has(l) {
				tree("tree:", l)
			}
		}
	}
	small := &flowGen{kinds: []string{"mac1", "mac0", "blk", "if", "ifelse", "switch1d", "for", "break", "continue", "return"}, memo: map[string][][]*ft{}}
	for n := 2; n <= x.Pick(3, 4); n++ {
		for _, l := range small.lists(n, true, 4) {
			if has(l) {
				tree("loop:", []*ft{{k: "for", kids: [][]*ft{l}}})
			}
		}
	}
	if x.Thorough() {
		for _, l := range all.lists(4, false, 4) {
			if has(l) {
				tree("tree:", l)
			}
		}
	}
	genMacroDecls(x)
	genMacroConds(x)
	genMacroReturns(x)
	genFlags(x)
}

// genMacroDecls wraps declarations.
func genMacroDecls(x *Enum) {
	wraps := []struct {
		name string
		f    func(d string) string
	}{
		{"plain", func(d string) string { return d }},
		{"true", func(d string) string { return "#if LINUX {\n" + d + "}\n" }},
		{"nested", func(d string) string { return "#if X64 { #if 1 {\n" + d + "} #if WINDOWS {\n" + d + "} }\n" }},
		{"decoybefore", func(d string) string { return "#if WINDOWS {\n" + d + "}\n#if LINUX {\n" + d + "}\n" }},
		{"decoyafter", func(d string) string { return d + "#if MACOS {\n" + d + d + "}\n#if 0 { }\n" }},
		{"innerfalse", func(d string) string { return "#if ARM64 { #if LINUX {\n" + d + "} }\n" + d }},
	}
	for _, s := range declPrograms {
		s := s
		ds := append(append([]string{}, s.first...), s.decls...)
		n := len(ds)
		for wi, w := range wraps {
			if wi == 0 {
				continue
			}
			for mask := 1; mask < 1<<n; mask++ {
				w, mask := w, mask
				x.Case(k("decl:%s:%s:%b", s.name, w.name, mask), func() Case {
					src := ""
					for i, d := range ds {
						if mask>>i&1 == 1 {
							d = w.f(d)
						}
						src += d
					}
					return Case{Kind: KRun, Src: src, Want: s.want}
				})
			}
			// contiguous declarations in one block
			for i := 0; i < n; i++ {
				for j := i + 2; j <= n; j++ {
					i, j, w := i, j, w
					x.Case(k("group:%s:%s:%d-%d", s.name, w.name, i, j), func() Case {
						return Case{Kind: KRun, Src: strings.Join(ds[:i], "") + w.f(strings.Join(ds[i:j], "")) + strings.Join(ds[j:], ""), Want: s.want}
					})
				}
			}
		}
		// any mixture
		total := 1
		for i := 0; i < n; i++ {
			total *= len(wraps)
		}
		if total > x.Pick(1300, 10000) {
			continue
		}
		for c := 0; c < total; c++ {
			c := c
			x.Case(k("mix:%s:%d", s.name, c), func() Case {
				src, c := "", c
				for _, d := range ds {
					src += wraps[c%len(wraps)].f(d)
					c /= len(wraps)
				}
				return Case{Kind: KRun, Src: src, Want: s.want}
			})
		}
	}
	// imports
	files := map[string]string{"m.cd": "#if LINUX { func f() i32 { return 1; } }\n#if WINDOWS { func f() i32 { return 2; } }\n#if X64 { g : i32 = 5;\nstruct S { v i32 } }\n", "n.cd": "func f() i32 { return 3; }\ng : i32 = 6;\nstruct S { w i64 }\n"}
	for i, p := range []struct{ src, want string }{
		{"import m, \"./m.cd\";\n", "1 5 4"},
		{"#if LINUX { import m, \"./m.cd\"; }\n", "1 5 4"},
		{"#if WINDOWS { import m, \"./n.cd\"; }\n#if LINUX { import m, \"./m.cd\"; }\n", "1 5 4"},
		{"#if LINUX { import m, \"./n.cd\"; }\n#if WINDOWS { import m, \"./m.cd\"; }\n", "3 6 8"},
		{"#if 0 { import m, \"./missing.cd\"; }\nimport m, \"./n.cd\";\n", "3 6 8"},
		{"#if X64 { #if 1 { import m, \"./m.cd\"; } #if 0 { import m, \"./n.cd\"; } }\n", "1 5 4"},
	} {
		p := p
		x.Case(k("import:%d", i), func() Case {
			return Case{Kind: KRun, Src: p.src + "func main() { @print(m.f(), m.g, @sizeof(m.S)); }\n", Want: p.want, Files: files}
		})
		x.Case(k("importlast:%d", i), func() Case {
			return Case{Kind: KRun, Src: "func main() { @print(m.f(), m.g, @sizeof(m.S)); }\n" + p.src, Want: p.want, Files: files}
		})
		x.Case(k("importmiddle:%d", i), func() Case {
			return Case{Kind: KRun, Src: "#if LINUX { func h() i32 { f := func() i32 { return m.f(); }; return f(); } }\n" + p.src + "func main() { @print(h(), m.g, @sizeof(m.S)); }\n", Want: p.want, Files: files}
		})
		x.Case(k("importif:%d", i), func() Case {
			return Case{Kind: KRun, Src: p.src + "#if LINUX { func h(s m.S) i32 { m.g = m.g + m.f(); return m.g; } }\nfunc main() { #if X64 { s := @alloc(m.S, 1); } @print(h(*s) - m.f(), m.g - m.f(), @sizeof(m.S)); }\n",
				Want: strings.Replace(p.want, p.want[:2], p.want[2:4], 1), Files: files}
		})
	}
	// what a false block contains is not looked at
	for i, s := range []string{
		"x := undefined;", "x : Undefined = 3;", "f();", "import q, \"./nowhere.cd\";", "func g() i32 { }", "func g() i32 { if 1 { return 1; } }", "x := 1 + \"s\";", "struct S { a Missing\n }", "struct S { s S\n }",
		"type A = B;", "func main() { }", "func twice() {} func twice() {}", "const K := main();", "break;", "continue;", "return 1;", "return;", "a.b.c = 3;", "*3 = 4;", "1 = 2;", "const K := 1; K = 2;", "x := 1 as *i8 as f32;",
		"@print(undefined.field);", "switch 1.5 { case 2 { } }", "@free(3);", "x, y := 1;", "x := @Missing{};", "x := [2]i32{1, 2, 3};", "@unreachable();", "@add_compiler_flag(3);", "@add_compiler_flag(s);", "++3;", "x := :i32 { };",
		"f := func() i32 { };", "for x := 1; x < \"s\"; x = x + 1 { }", "if \"s\" { }", "extern func main() i32;",
	} {
		s := s
		for ci, c := range []string{"0", "WINDOWS", "MACOS", "ARM64"} {
			x.Case(k("falsetop:%d:%d", i, ci), func() Case {
				return Case{Kind: KRun, Src: "#if " + c + " { " + s + " }\nfunc main() { @print(1); }\n#if " + c + " { " + s + " }\n", Want: "1"}
			})
			x.Case(k("falsein:%d:%d", i, ci), func() Case {
				return Case{Kind: KRun, Src: "func f() i32 { #if " + c + " { " + s + " } return 2; }\nfunc main() { #if " + c + " { " + s + " }\nfor i := 0; i < 2; i = i + 1 { #if " + c + " { " + s + " } @print(f()); #if 1 { #if " + c + " { " + s + " } } } }\n", Want: "22"}
			})
		}
	}
}

// genMacroConds enumerates conditions.
func genMacroConds(x *Enum) {
	conds := map[string]int{"LINUX": 1, "X64": 1, "WINDOWS": 0, "MACOS": 0, "ARM64": 0, "ARM": 0, "ARM64BE": 0, "ARMBE": 0,
		"0": 0, "1": 1, "2": 1, "00": 0, "10": 1, "0x0": 0, "0x10": 1, "0b0": 0, "0b1": 1, "0b10": 1, "256": 1, "65536": 1, "4294967296": 1, "9223372036854775807": 1, "9223372036854775808": 1, "18446744073709551615": 1, "0xffffffffffffffff": 1, "0x8000000000000000": 1, "2147483648": 1, "0x80000000": 1, "4294967295": 1, "(1)": 1, "(0)": 0, "((LINUX))": 1, "(WINDOWS)": 0}
	var names []string
	for c := range conds {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		v := conds[c]
		for _, c2 := range names {
			c, c2, v2 := c, c2, conds[c2]
			x.Case(k("cond:%s:%s", c, c2), func() Case {
				w := ""
				if v == 1 {
					w += "1"
					if v2 == 1 {
						w += "2"
					}
				}
				return Case{Kind: KRun, Src: "func main() { #if " + c + " { @print(1); #if " + c2 + " { @print(2); } } @print(3); #if " + c2 + "{ @print(4); } }\n", Want: w + "3" + strings.Repeat("4", v2)}
			})
			x.Case(k("condtop:%s:%s", c, c2), func() Case {
				src := "#if " + c + " { func a() i32 { return 1; }\n#if " + c2 + " { func b() i32 { return 2; } } }\n"
				w := "func main() { @print(3"
				if v == 1 {
					w += ", a()"
					if v2 == 1 {
						w += ", b()"
					}
				}
				want := "3"
				if v == 1 {
					want += " 1"
					if v2 == 1 {
						want += " 2"
					}
				}
				return Case{Kind: KRun, Src: src + w + "); }\n", Want: want}
			})
		}
	}
	// variables of the program are something else
	for _, n := range []string{"LINUX", "WINDOWS", "X64", "MACOS"} {
		n, v := n, conds[n]
		x.Case("name:"+n, func() Case {
			return Case{Kind: KRun, Src: "func main() { " + n + " := 7; #if " + n + " { @print(1); } @print(" + n + "); }\n", Want: strings.Repeat("1", v) + "7"}
		})
		x.Case("namefn:"+n, func() Case {
			return Case{Kind: KRun, Src: "const " + n + " := 9;\nfunc f(" + n + " i32) i32 { #if " + n + " { return " + n + "; } return 5; }\nfunc main() { @print(f(3), " + n + "); }\n", Want: fmt.Sprint(3*v+5*(1-v), " 9")}
		})
	}
	for i, c := range []string{"FOO", "linux", "Linux", "LINUX64", "LINUX_", "x", "a", "true", "1.5", "\"s\"", "1 + 1", "LINUX + 1", "LINUX && X64", "LINUX == 1", "!LINUX", "- 1", "f()", "a.b", "a[0]", "@sizeof(i32)", "& LINUX", "* LINUX", "1 as i64", "LINUX , X64", ":i32", "func() {}", "[1]i32", "x = 1", ""} {
		c := c
		for pi, p := range []string{"#if %s { }\nfunc main() { a := 1; x := 1; }\n", "func main() { a := 1; x := 1;\n#if %s { @print(1); }\n}\n", "func main() { }\n#if 1 { #if %s { } }\n"} {
			p := p
			x.Case(k("badcond:%d:%d", i, pi), func() Case { return Case{Kind: KReject, Src: strings.Replace(p, "%s", c, 1)} })
		}
	}
	for i, s := range []string{"#if", "#if 1 {", "#if { }", "#if 1 { } }", "#if 1 ; { }", "# if 1 { }", "#ifx 1 { }", "#else { }", "#", "#endif"} {
		s := s
		x.Case(k("badform:%d", i), func() Case { return Case{Kind: KReject, Src: "func f() { }\n" + s + "\nfunc main() { }\n"} })
		x.Case(k("badformin:%d", i), func() Case { return Case{Kind: KReject, Src: "func main() { x := 1;\n" + s + "\nx = 2; }\n"} })
	}
}

// genMacroReturns: a return in a true block returns, one in a false block does not.
func genMacroReturns(x *Enum) {
	g := &flowGen{kinds: []string{"mac1", "mac0", "ifelse", "if", "switch1d", "block", "return"}, memo: map[string][][]*ft{}}
	var flat func(l []*ft) []*ft
	flat = func(l []*ft) []*ft {
		var r []*ft
		for _, t := range l {
			switch t.k {
			case "mac1":
				r = append(r, flat(t.kids[0])...)
			case "mac0":
			default:
				c := &ft{k: t.k}
				for _, b := range t.kids {
					c.kids = append(c.kids, flat(b))
				}
				r = append(r, c)
			}
		}
		return r
	}
	for n := 1; n <= x.Pick(3, 4); n++ {
		for _, l := range g.lists(n, false, 4) {
			if !hasKind(l, "mac1") && !hasKind(l, "mac0") {
				continue
			}
			for _, ctx := range []string{"func", "lambda", "block"} {
				l, ctx := l, ctx
				x.Case(k("ret:%s:%s", ctx, ftString(l)), func() Case {
					p := returnProg(l, ctx)
					if !treeReturns(flat(l)) {
						return Case{Kind: KReject, Src: p.Src()}
					}
					return progCase(p)
				})
			}
		}
	}
}

// genFlags: the flags a program adds are those of the code that is there.
func genFlags(x *Enum) {
	type place struct {
		name, src string // with «F» where the flag is
		n         int
		top       bool
	}
	ps := []place{
		{"main", "«F»", 1, false}, {"block", "{ «F» }", 1, false}, {"if0", "if 1 == 2 { «F» }", 1, false}, {"else", "if 1 == 1 { } else { «F» }", 1, false}, {"loop", "for j := 0; j < 3; j = j + 1 { «F» }", 1, false},
		{"true", "#if LINUX { «F» }", 1, false}, {"false", "#if WINDOWS { «F» }", 0, false}, {"nested", "#if X64 { #if 0 { «F» } #if 1 { «F» } }", 1, false}, {"switch", "switch 3 { case 4 { «F» } default { } }", 1, false},
		{"blockvalue", "z := :i32 { «F» return 1; };", 1, false}, {"lambda", "l := func() { «F» };", 1, false},
		{"func", "func other() { «F» }", 1, true}, {"truefunc", "#if LINUX { func other() { «F» } }", 1, true}, {"falsefunc", "#if MACOS { func other() { «F» } }", 0, true},
	}
	forms := []struct {
		s string
		w []string
	}{{"@add_compiler_flag(\"-a%d\");", []string{"-a%d"}}, {"@add_compiler_flag(\"-a%d\", \"-b%d x\", \"\");", []string{"-a%d", "-b%d x", ""}}, {"@add_compiler_flag();", nil}, {"@add_compiler_flag(KF);", []string{"-k"}},
		{"@add_compiler_flag(\"-a\\\\%d\\n\"); @add_compiler_flag(\"=%d\");", []string{"-a\\%d\n", "=%d"}}}
	check := func(key, src string, want []string, files map[string]string) {
		x.Case(key, func() Case {
			return Case{Kind: KCustom, Src: src, Files: files, Fn: func() Outcome {
				defer writeFiles(files)()
				c := compileSrc(src, opts{})
				if c.Stage != StOK {
					return Outcome{Bad: "the program has to be accepted: " + c.why()}
				}
				a, b := append([]string{}, c.Flags...), append([]string{}, want...)
				sort.Strings(a)
				sort.Strings(b)
				if strings.Join(a, "\x00") != strings.Join(b, "\x00") || len(a) != len(b) {
					return Outcome{Bad: fmt.Sprintf("the program adds the flags %q, not %q", c.Flags, want)}
				}
				return Outcome{States: 1, Trans: 1}
			}}
		})
	}
	// what a flag can be
	argHead := "import m, \"./m.cd\";\nstruct S { f *i8 }\nconst KF := \"-k\";\nconst KG := KF;\ngs := \"-g\";\nfunc fs() *i8 { return \"-f\"; }\n"
	argFiles := map[string]string{"m.cd": "const K := \"-m\";\nv := \"-v\";\n"}
	for _, pl := range ps {
		if pl.n == 0 || pl.name == "nested" {
			continue
		}
		prog := func(args string) string {
			s := strings.ReplaceAll(pl.src, "«F»", "ls := \"-l\"; p := &ls; st := @S{f: \"-s\"}; ar := [1]*i8{\"-a\"}; const KL := \"-L\"; @add_compiler_flag("+args+");")
			if pl.top {
				return argHead + s + "\nfunc main() { }\n"
			}
			return argHead + "func main() {\n" + s + "\n}\n"
		}
		for i, a := range []struct{ args, want string }{{"KF", "-k"}, {"KG", "-k"}, {"KL", "-L"}, {"(KF)", "-k"}, {"\"-a\", KF", "-a -k"}, {"KL, KG, \"-b\"", "-L -k -b"}, {"m.K", "-m"}, {"m.K, m.K", "-m -m"}} {
			check(k("flagarg:%s:%d", pl.name, i), prog(a.args), strings.Fields(a.want), argFiles)
		}
		for i, a := range []string{"gs", "fs()", "ls", "*p", "st.f", "ar[0]", "1", "1.5", "'c'", "\"a\" + \"b\"", "KF + \"b\"", "m.v", ":*i8 { return \"-b\"; }", "KF, gs", "gs, KF", "\"-a\", 1", "1, \"-a\"", "func() { }", "fs", "\"a\" == \"b\"", "undefinedname", "m.undefinedname", "@sizeof(S)", "i32", "&KF", "*KF", "KF[0]", "3 as *i8"} {
			src := prog(a)
			x.Case(k("flagbad:%s:%d", pl.name, i), func() Case { return Case{Kind: KReject, Src: src, Files: argFiles} })
		}
	}
	for fi, f := range forms {
		for _, a := range ps {
			for _, b := range ps {
				var want []string
				top, body := "", ""
				add := func(p place, n int) {
					s := strings.ReplaceAll(p.src, "«F»", f.s)
					s = strings.ReplaceAll(s, "%d", fmt.Sprint(n))
					if n == 2 {
						s = strings.NewReplacer("other", "other2", "z :=", "z2 :=", "l :=", "l2 :=").Replace(s)
					}
					if p.top {
						top += s + "\n"
					} else {
						body += s + "\n"
					}
					for i := 0; i < p.n; i++ {
						for _, w := range f.w {
							want = append(want, strings.ReplaceAll(w, "%d", fmt.Sprint(n)))
						}
					}
				}
				add(a, 1)
				add(b, 2)
				check(k("flags:%d:%s:%s", fi, a.name, b.name), "const KF := \"-k\";\n"+top+"func main() {\n"+body+"}\n", want, nil)
			}
		}
	}
	files := map[string]string{
		"m.cd": "func f() { @add_compiler_flag(\"-m\"); #if LINUX { @add_compiler_flag(\"-linux\"); } #if WINDOWS { @add_compiler_flag(\"-windows\"); } }\n",
		"n.cd": "import m, \"./m.cd\";\nfunc g() { @add_compiler_flag(\"-n\"); m.f(); }\n",
	}
	for i, p := range []struct {
		imports string
		want    []string
	}{
		{"import m, \"./m.cd\";\n", []string{"-m", "-linux"}},
		{"import n, \"./n.cd\";\n", []string{"-n", "-m", "-linux"}},
		{"import m, \"./m.cd\";\nimport n, \"./n.cd\";\n", []string{"-n", "-m", "-linux"}},
		{"import n, \"./n.cd\";\nimport m, \"./m.cd\";\nimport q, \"./m.cd\";\n", []string{"-n", "-m", "-linux"}},
		{"#if LINUX { import n, \"./n.cd\"; }\n", []string{"-n", "-m", "-linux"}},
		{"#if WINDOWS { import n, \"./n.cd\"; }\nimport m, \"./m.cd\";\n", []string{"-m", "-linux"}},
	} {
		for _, own := range []bool{false, true} {
			w, b := append([]string{}, p.want...), ""
			if own {
				w, b = append(w, "-main"), "@add_compiler_flag(\"-main\");"
			}
			check(k("modflags:%d:%v", i, own), p.imports+"func main() { "+b+" }\n", w, files)
		}
	}
	for i, s := range []string{"@add_compiler_flag(3);", "s := \"-a\"; @add_compiler_flag(s);", "@add_compiler_flag(\"a\", 1);", "@add_compiler_flag(f());", "x := @add_compiler_flag(\"a\");", "@add_compiler_flag(nothing);", "@add_compiler_flag(1.5, \"a\");", "@add_compiler_flag(\"a\", p);"} {
		s := s
		x.Case(k("badflag:%d", i), func() Case {
			return Case{Kind: KReject, Src: "func f() *i8 { return \"-f\"; }\nfunc main() { q := 1; p := &q;\n" + s + "\n}\n"}
		})
	}
}
