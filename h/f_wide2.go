package main

import "strings"

// A function literal inside of a loop, with loops and block expressions of its
// own: the break, continue and return that follow it are those of the loop.
func genLambdaLoops(x *Enum) {
	bodies := []struct {
		src string
		val func(i int) int
	}{
		{"return a + 3;", func(i int) int { return i + 3 }},
		{"s := 0; for j := 0; j < 5; j = j + 1 { if j == 3 { break; } if j == 1 { continue; } s = s + j; } return s + a;", func(i int) int { return 2 + i }},
		{"s := 0; for s < 4 { s = s + 1; } return s + a;", func(i int) int { return 4 + i }},
		{"v := :i32 { if a == 2 { return 10; } return 20; }; return v + a;", func(i int) int {
			if i == 2 {
				return 12
			}
			return 20 + i
		}},
		{"g := func(b i32) i32 { s := 0; for j := 0; j < b; j = j + 1 { if j == 2 { break; } s = s + 10; } return s; }; return g(a) + a;", func(i int) int {
			if i > 2 {
				return 20 + i
			}
			return i * 11
		}},
		{"switch a { case 1 { return 50; } default { a = a + 1; } } return a;", func(i int) int {
			if i == 1 {
				return 50
			}
			return i + 1
		}},
	}
	places := []struct{ name, def, use string }{
		{"local", "f := func(a i32) i32 { BODY };", "f(i)"},
		{"argument", "r := app(func(a i32) i32 { BODY }, i);", "r"},
		{"element", "l := [2]func(i32) i32{add, func(a i32) i32 { BODY }};", "l[1](i)"},
		{"block", "r := :i32 { f := func(a i32) i32 { BODY }; return f(i); };", "r"},
		{"assigned", "f := add; f = func(a i32) i32 { BODY };", "f(i)"},
		{"nested", "f := func(a i32) i32 { g := func(a i32) i32 { BODY }; return g(a); };", "f(i)"},
	}
	loops := []struct{ name, open, close string }{
		{"for", "for i := 0; i < 6; i = i + 1 {", "}"},
		{"while", "i := 0 - 1; for i < 5 { i = i + 1;", "}"},
		{"inner", "for k := 0; k < 1; k = k + 1 { for i := 0; i < 6; i = i + 1 {", "} @print(\"o\"); }"},
		{"ifin", "for i := 0; i < 6; i = i + 1 { if i >= 0 {", "} }"},
		{"switchin", "for i := 0; i < 6; i = i + 1 { switch i { case 100 { } default {", "} } }"},
	}
	leaves := []string{"none", "break", "continue", "return", "continuebreak"}
	for bi, b := range bodies {
		for _, p := range places {
			for _, l := range loops {
				for _, how := range leaves {
					b, p, l, how := b, p, l, how
					x.Case(k("lambdaloop:%d:%s:%s:%s", bi, p.name, l.name, how), func() Case {
						leave := map[string]string{
							"none": "", "break": "if i == 2 { break; }", "continue": "if i == 2 { continue; }",
							"return": "if i == 2 { @print(\"r\"); return; }", "continuebreak": "if i < 2 { continue; } if i == 4 { break; }",
						}[how]
						src := "func add(a i32) i32 { return a + 1000; }\nfunc app(f func(i32) i32, a i32) i32 { return f(a); }\nfunc run() {\n  " + l.open + "\n    " +
							strings.Replace(p.def, "BODY", b.src, 1) + "\n    " + leave + "\n    @print(" + p.use + ", \";\");\n  " + l.close + "\n  @print(\"e\");\n}\nfunc main() { run(); }\n"
						want, left := "", false
						for i := 0; i < 6; i++ {
							if how == "return" && i == 2 {
								want += "r"
								left = true
								break
							}
							if how == "break" && i == 2 || how == "continuebreak" && i == 4 {
								break
							}
							if how == "continue" && i == 2 || how == "continuebreak" && i < 2 {
								continue
							}
							want += k("%d ;", b.val(i))
						}
						if !left {
							if l.name == "inner" {
								want += "o"
							}
							want += "e"
						}
						return Case{Kind: KRun, Src: src, Want: want}
					})
				}
			}
		}
	}
}

// Generic modules that import themselves, directly or through others, with
// types that grow or change: nothing may be instantiated without an end.
func genSelfImports(x *Enum) {
	args := []string{"T", "i32", "*T", "**T", "[2]T", "S", "*S", "[3]S", "func(T) T", "func() S", "func(T) (T, T)", "*func(*T) i32", "k.S", "m.S"}
	for _, a := range args {
		for _, b := range args[:10] {
			for chain := 1; chain <= 4; chain++ {
				for place := 0; place < 3; place++ {
					a, b, chain, place := a, b, chain, place
					x.Case(k("selfimport:%s:%s:%d:%d", a, b, chain, place), func() Case {
						files := map[string]string{}
						for i := 0; i < chain; i++ {
							arg := a
							if i > 0 {
								arg = b
							}
							imp := k("import m, %s, \"./g%d.cd\";\n", arg, (i+1)%chain)
							body := "struct S { v T }\n"
							f := "func f(x T) T { return x; }\n"
							files[k("g%d.cd", i)] = "type T\n" + []string{imp + body + f, body + imp + f, body + f + imp}[place]
						}
						return Case{Kind: KReject, Src: "import k, i32, \"./g0.cd\";\nfunc main() { @print(k.f(3)); }\n", Files: files}
					})
				}
			}
		}
	}
}

// Long arrays of the standard library, filled and emptied in loops.
func genStdLong(x *Enum) {
	for _, t := range []string{"i8", "i16", "i32", "i64", "u16", "f64", "Pt"} {
		for _, cp := range []int{0, 1, 2, 7, 16, 100} {
			for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 700} {
				t, cp, n := t, cp, n
				x.Case(k("long:%s:%d:%d", t, cp, n), func() Case {
					mk, get := "(i % 120) as "+t, "v as i32"
					if t == "Pt" {
						mk, get = "@Pt{a: (i % 100) as i8, b: i as i64}", "v.a as i32 + v.b as i32"
					}
					val := func(i int) int {
						if t == "Pt" {
							return i%100 + i
						}
						return i % 120
					}
					src := "struct Pt { a i8\n b i64 }\n" + k("import ar, %s, \"./std/array.cd\";\nimport mp, %s, i32, \"./std/map.cd\";\nimport res, i32, \"./std/array.cd\";\n", t, t) +
						k("func num(v %s) i32 { return %s; }\nfunc ref(p *%s) i32 { return num(*p) + 1; }\nfunc main() {\n", t, get, t) +
						k("  a := ar.with_capacity(%d);\n  for i := 0; i < %d; i = i + 1 { ar.push(&a, %s); }\n  @print(a.length, a.capacity >= a.length, \"\");\n", cp, n, mk) +
						k("  bad := 0; for i := 0; i < %d; i = i + 1 { w := %s; if num(ar.get(a, i)) != num(w) { bad = bad + 1; } p := ar.get_ref(a, i); if num(*p) != num(w) { bad = bad + 1; } }\n", n, mk) +
						"  r := mp.map(a, ref);\n  s := 0; for i := 0; i < r.length; i = i + 1 { s = s + res.get(r, i); }\n  @print(bad, r.length, s, \"\");\n" +
						"  t := 0; c := 0; for a.length > 3 { t = t * 3 % 10007 + num(ar.pop(&a)); c = c + 1; }\n  @print(t, c, a.length);\n  @free(a.ptr); @free(r.ptr);\n}\n"
					sum, tt := 0, 0
					for i := 0; i < n; i++ {
						sum += val(i) + 1
					}
					for i := n - 1; i >= 3; i-- {
						tt = tt*3%10007 + val(i)
					}
					return Case{Kind: KRun, Src: src, Want: k("%d 1 0 %d %d %d %d 3", n, n, sum, tt, n-3), Files: stdFiles()}
				})
			}
		}
	}
}
