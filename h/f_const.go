package main

import (
	"fmt"
	"strings"
)

// C13: constants.

func init() {
	register(&Family{
		ID:        "C13",
		Technique: "exhaustive enumeration of constant expressions against the reference arithmetic of variables, and of all mutations and all uses of a constant in all scopes",
		Rule: "Every pair of the 10 operators in both groupings over 10 numeric types, 5 assignments of literals and constants to the leaves, boundary operands, declared locally, globally and in another module, each compared with the model of the same expression over variables; all casts between scalar types of boundary constants; chains of constants; " +
			"40 ways to mutate a constant x 9 places of its declaration x 4 scopes that shadowed it before, all refused, and the same statements on a variable that shadows it, accepted; constants of 6 forms of declaration in every chain of up to 2 of 13 scopes, mutated in every one of them; 24 initial values that are not constant x 8 expressions around them x 5 kinds of declarations, refused; 30 uses of a constant in every place, executed.",
		Note: "Whether the address of a constant can be taken, and a second declaration of one name in one scope, are not specified.",
		Gen:  func(x *Enum) { genConst(x); genWide(x, "C13") },
	})
}

func genConst(x *Enum) {
	genConstValues(x)
	genConstCasts(x)
	genConstMutation(x)
	genConstScopes(x)
	genConstInit(x)
	genConstPlaces(x)
	genConstUses(x)
	genConstStrings(x)
}

// constTriples: operands of a numeric type.
func constTriples(t *Ty) (r [][3]*E) {
	vs := lits(t)
	n := len(vs)
	for i := 0; i < n; i++ {
		r = append(r, [3]*E{vs[i], vs[(i*3+1)%n], vs[(i*5+2)%n]}, [3]*E{vs[i], vs[(i+2)%n], vs[(i*2+3)%n]})
	}
	return
}

func genConstValues(x *Enum) {
	shift := func(o string) bool { return o == "<<" || o == ">>" }
	for _, t := range numTypes {
		ops := arithOps
		if t.K == KFloat {
			ops = []string{"+", "-", "*", "/"}
		}
		// the amount of a shift is small and signed
		fit := func(o string, e *E, n int) *E {
			if !shift(o) {
				return e
			}
			return N32(int64((n*5 + 1) % 8))
		}
		for _, o1 := range ops {
			for _, o2 := range ops {
				for leaf := 0; leaf < 5; leaf++ {
					for _, place := range []string{"local", "global", "module", "neg"} {
						if place == "neg" && (leaf != 1 || t.K == KUint) {
							continue
						}
						x.Case(k("value:%s:%s:%s:%d:%s", t, o1, o2, leaf, place), func() Case {
							g := &Pg{}
							var decls, shows []*St
							var names []*E
							for n, tr := range constTriples(t) {
								for shape := 0; shape < 2; shape++ {
									// shape 0: (a o1 b) o2 c, shape 1: a o1 (b o2 c)
									a, b, c := tr[0], tr[1], tr[2]
									var mk func(a, b, c *E) *E
									if shape == 0 {
										b, c = fit(o1, b, n), fit(o2, c, n+1)
										mk = func(a, b, c *E) *E { return Bin(o2, Par(Bin(o1, a, b)), c) }
									} else {
										if shift(o1) {
											continue // the amount would be of another type
										}
										c = fit(o2, c, n)
										mk = func(a, b, c *E) *E { return Bin(o1, a, Par(Bin(o2, b, c))) }
									}
									if place == "neg" {
										m := mk
										mk = func(a, b, c *E) *E { return Neg(Par(m(Neg(Par(a)), b, c))) }
									}
									if !isOK(mk(a, b, c)) {
										continue
									}
									es := []*E{a, b, c}
									for i := range es {
										if leaf == 4 || leaf == i+1 {
											nm := k("k%d", len(names))
											decls = append(decls, ConstD(nm, es[i]))
											es[i] = Vr(nm, es[i].T)
											names = append(names, es[i])
										}
									}
									nm := k("k%d", len(names))
									v := Vr(nm, t)
									decls = append(decls, ConstD(nm, mk(es[0], es[1], es[2])))
									names = append(names, v)
									shows = append(shows, Print(v, Str(";")))
								}
							}
							if len(shows) == 0 {
								shows = append(shows, nl())
							}
							if place == "local" {
								g.Fns = []*Fn{mainFn(append(decls, shows...)...)}
								return progCase(g)
							}
							g.Globals = decls
							g.Fns = []*Fn{mainFn(shows...)}
							cs := progCase(g)
							if place == "module" && cs.Skip == "" {
								var mod strings.Builder
								for _, d := range decls {
									mod.WriteString(d.simple() + ";\n")
								}
								src := "import m, \"./m.cd\";\nfunc main() {\n"
								for i, s := range shows {
									if s.E[0].Op != "var" {
										src += "  " + s.simple() + ";\n"
										continue
									}
									if i%2 == 0 {
										src += fmt.Sprintf("  @print(m.%s, \";\");\n", s.E[0].S)
									} else {
										src += fmt.Sprintf("  const l%d := m.%s;\n  @print(l%d, \";\");\n", i, s.E[0].S, i)
									}
								}
								cs.Src = src + "}\n"
								cs.Files = map[string]string{"m.cd": mod.String()}
							}
							return cs
						})
					}
				}
			}
		}
	}
}

func genConstCasts(x *Enum) {
	all := append(append([]*Ty{}, numTypes...), TI1)
	for _, a := range all {
		for _, b := range all {
			for _, c := range all {
				for _, place := range []string{"local", "global"} {
					if c != a && c != TI64 && c != TF64 && c != TU8 && !x.Thorough() {
						continue
					}
					x.Prog(k("cast:%s:%s:%s:%s", a, b, c, place), func() *Pg {
						var ds, sh []*St
						ls := lits(a)
						if a.K == KFloat {
							// values that f32 does not have
							for _, v := range []string{"1.0", "-2.0", "100.0", "16777216.0"} {
								ls = append(ls, Bin("/", Fl(a, v), Fl(a, "3.0")))
							}
						}
						for i, l := range ls {
							e := Cast(c, Par(Cast(b, Par(l))))
							if !isOK(e) {
								continue
							}
							n, n2 := k("a%d", i), k("b%d", i)
							ds = append(ds, ConstD(n, Cast(b, Par(l))), ConstD(n2, Cast(c, Vr(n, b))))
							sh = append(sh, Print(Vr(n, b), Vr(n2, c), Str(";")))
							for _, v := range []*E{Vr(n, b), Vr(n2, c)} {
								if v.T.K == KFloat {
									f := Decl(v.S+"f", v)
									sh = append(sh, f, Print(Bin("*", Cast(TF64, Vr(v.S+"f", v.T)), Fl(TF64, "1000000000.0")), Str(";")))
								}
							}
						}
						sh = append(sh, nl())
						if place == "local" {
							return pg(mainFn(append(ds, sh...)...))
						}
						return &Pg{Globals: ds, Fns: []*Fn{mainFn(sh...)}}
					})
				}
			}
		}
	}
	// chains: every constant is computed from the ones before it
	for _, t := range numTypes {
		for n := 1; n <= 12; n++ {
			for s := 0; s < 4; s++ {
				x.Prog(k("chain:%s:%d:%d", t, n, s), func() *Pg {
					g := &Pg{}
					var ds []*St
					var vs []*E
					op := []string{"+", "-", "*", "+"}
					for i := 0; i < n; i++ {
						e := fewLits(t)[i%len(fewLits(t))]
						if i > 0 {
							e = Bin(op[(i+s)%4], vs[(i*7+s)%i], e)
						}
						if i > 1 {
							e = Bin(op[(i*3+s)%4], Par(e), vs[i-2])
						}
						ds = append(ds, ConstD(k("c%d", i), e))
						vs = append(vs, Vr(k("c%d", i), t))
					}
					switch s {
					case 0:
						g.Globals = ds
						g.Fns = []*Fn{mainFn(Line(vs...))}
					case 1:
						g.Fns = []*Fn{mainFn(append(ds, Line(vs...))...)}
					case 2:
						g.Globals = ds[:n/2]
						g.Fns = []*Fn{mainFn(append(append([]*St{}, ds[n/2:]...), Line(vs...))...)}
					case 3:
						g.Globals = ds[:n/2]
						l := Vr("l", FuncT(nil))
						g.Fns = []*Fn{mainFn(Decl("l", Lam(fnOf("", nil, nil, append(append([]*St{}, ds[n/2:]...), Line(vs...))...))), Ex(Call(l)), Ex(Call(l)))}
					}
					return g
				})
			}
		}
	}
}

// $ is the constant, v, w, arr, s, p are variables, f a function
var mutations = []string{
	"$ = 1;", "$, v = 1, 2;", "v, $ = 1, 2;", "v, w, $ = 1, 2, 3;", "++$;", "--$;", "v = ++$;", "v = 1 + --$;", "@print(++$);", "f(++$);", "arr[++$] = 1;", "v = arr[--$];", "v = :i32 { $ = 1; return 2; };", "v = :i32 { return ++$; };",
	"for $ = 0; v < 1; v = v + 1 { }", "for v = 0; v < 1; $ = $ + 1 { }", "for v = 0; v < 1; ++$ { }", "for ++$ < 3 { }", "if ++$ > 1 { }", "if v > 1 { } else if --$ > 1 { }", "switch ++$ { case 1 { } default { } }", "{ $ = 1; }", "if v > 1 { $ = 1; }", "if v > 1 { } else { $ = 1; }", "for v = 0; v < 1; v = v + 1 { $ = 1; }",
	"switch v { case 1 { $ = 1; } default { } }", "switch v { case 1 { } default { ++$; } }", "g := func() { $ = 1; };", "g := func() { h := func() { $ = 1; }; };", "g := func() i32 { return ++$; };", "v = -++$;", "v = (++$);", "w = 1 - (2 * --$);", "x64 := ++$ as i64;", "ar := [2]i32{1, ++$};", "st := @S{x: ++$};", "d := --$;", "d, e := 1, ++$;", "v = v + ++$;", "@print(1, --$, 2);", "v, w = ++$, 2;", "p[++$] = 1;", "s.x = ++$;", "f(f(--$));",
}

func genConstMutation(x *Enum) {
	const head = "struct S { x i32 }\nfunc f(v i32) i32 { return v; }\n"
	const vars = "  v := 1;\n  w := 2;\n  arr := [8]i32{0, 0, 0, 0, 0, 0, 0, 0};\n  s := @S{x: 4};\n  p := @alloc(i32, 9);\n"
	places := []struct {
		name, src string // § is where the statements are
		in        string
	}{
		{"global", "const c := 3;\nfunc main() {\n" + vars + "§\n}\n", "c"},
		{"typed", "const c : i32 = 3;\nfunc main() {\n" + vars + "§\n}\n", "c"},
		{"local", "func main() {\n  const c := 3;\n" + vars + "§\n}\n", "c"},
		{"localtyped", "func other(c i32) i32 { c = 4; return c; }\nfunc main() {\n  const c : i32 = 3;\n" + vars + "§\n}\n", "c"},
		{"outer", "func main() {\n  const c := 3;\n  if 1 == 1 {\n" + vars + "    {\n§\n    }\n  }\n}\n", "c"},
		{"lambda", "func main() {\n  const c := 3;\n  lam := func() {\n" + vars + "§\n  };\n}\n", "c"},
		{"inlambda", "func main() {\n  c := 3;\n  lam := func() {\n    const c := 3;\n" + vars + "§\n  };\n}\n", "c"},
		{"shadowvar", "c : i32 = 3;\nfunc main() {\n  c := 4;\n  c = 5;\n  {\n    const c := 6;\n" + vars + "§\n  }\n}\n", "c"},
		{"module", "import m, \"./m.cd\";\nfunc main() {\n  c := 4;\n  c = 5;\n" + vars + "§\n}\n", "m.c"},
	}
	before := []string{"", "  { c := 4; c = 5; ++c; }\n", "  lm := func(c i32) i32 { c = 5; return c; };\n", "  for c := 0; c < 2; c = c + 1 { --c; c = c + 1; }\n", "  bl := :i32 { c := 3; c = 5; return c; };\n"}
	for _, p := range places {
		for bi, b := range before {
			for _, mu := range mutations {
				files := map[string]string(nil)
				if p.name == "module" {
					files = map[string]string{"m.cd": "const c := 3;\nfunc get() i32 { return c; }\n"}
				}
				st := strings.ReplaceAll(mu, "$", p.in)
				src := head + strings.Replace(p.src, "§", b+st, 1)
				x.Case(k("mutate:%s:%d:%s", p.name, bi, mu), func() Case {
					return Case{Kind: KReject, Src: src, Files: files}
				})
				// a variable of the same name can be changed
				ok := head + strings.Replace(p.src, "§", "  { c := 7;\n"+b+"  "+strings.ReplaceAll(mu, "$", "c")+" }", 1)
				x.Case(k("shadow:%s:%d:%s", p.name, bi, mu), func() Case {
					return Case{Kind: KAccept, Src: ok, Files: files}
				})
			}
		}
	}
	// a parameter, a field and a variable of another function can share the name
	for _, mu := range mutations {
		for _, ns := range [][2]string{
			{"param", head + "const c := 3;\nfunc h(c i32) {\n" + vars + "§\n}\nfunc main() { h(1); }\n"},
			{"lamparam", head + "const c := 3;\nfunc main() {\n  h := func(c i32) {\n" + vars + "§\n  };\n}\n"},
			{"other", head + "func h() i32 { const c := 3; return c; }\nfunc main() {\n  c := 3;\n" + vars + "§\n}\n"},
			{"after", head + "func main() {\n  { const c := 3; @print(c); }\n  c := 3;\n" + vars + "§\n}\n"},
			{"field", head + "struct T { c i32 }\nconst c := 3;\nfunc main() {\n  t := @T{c: 1};\n" + vars + "§\n}\n"},
		} {
			name, src := ns[0], ns[1]
			in := "c"
			if name == "field" {
				in = "t.c"
			}
			s := strings.Replace(src, "§", strings.ReplaceAll(mu, "$", in), 1)
			if name == "field" && (strings.Contains(mu, "func()")) {
				continue // captures t
			}
			x.Case(k("samename:%s:%s", name, mu), func() Case { return Case{Kind: KAccept, Src: s} })
		}
	}
	// other types
	for _, t := range append(append([]*Ty{}, numTypes...), TI1, TStr) {
		l := "\"k\""
		if t != TStr {
			l = fewLits(t)[0].String()
		}
		for pi, src := range []string{"const c := %s;\nfunc main() {\n  v := %s;\n§\n}\n", "const c : " + t.String() + " = %s;\nfunc main() {\n  v := %s;\n§\n}\n", "func main() {\n  const c := %s;\n  v := %s;\n  {\n§\n  }\n}\n"} {
			for _, mu := range []string{"c = v;", "v, c = v, v;", "c, v = v, v;", "++c;", "v = --c;", "c = c;"} {
				if t == TStr && strings.ContainsAny(mu, "+-") {
					continue
				}
				s := strings.Replace(fmt.Sprintf(src, l, l), "§", mu, 1)
				x.Case(k("type:%s:%d:%s", t, pi, mu), func() Case { return Case{Kind: KReject, Src: s} })
			}
		}
	}
}

// genConstPlaces: what is stored through a constant, and functions, cannot be changed.
func genConstPlaces(x *Enum) {
	stores := []string{"*$ = 'x';", "$[0] = 'x';", "$[v] = 'x';", "++$[0];", "*($) = 'x';", "v, $[0] = 2, 'x';", "*$, v = 'x', 2;", "{ *$ = 'x'; }", "if v == 1 { $[1] = 'x'; }", "for i := 0; i < 1; i = i + 1 { $[i] = 'x'; }", "g := func() { $[0] = 'x'; };", "w := :i32 { *$ = 'x'; return 1; };", "--*$;", "w := ++$[0];"}
	for _, st := range stores {
		for pi, p := range []string{"const c := \"abc\";\nfunc main() {\n  v := 1;\n§\n}\n", "func main() {\n  const c := \"abc\";\n  v := 1;\n§\n}\n", "func main() {\n  const c : *i8 = \"abc\";\n  v := 1;\n  {\n§\n  }\n}\n", "import m, \"./m.cd\";\nfunc main() {\n  v := 1;\n§\n}\n"} {
			in := "c"
			files := map[string]string(nil)
			if pi == 3 {
				in, files = "m.c", map[string]string{"m.cd": "const c := \"abc\";\n"}
			}
			src := strings.Replace(p, "§", strings.ReplaceAll(st, "$", in), 1)
			x.Case(k("store:%d:%s", pi, st), func() Case { return Case{Kind: KReject, Src: src, Files: files} })
			ok := strings.Replace(p, "§", "  { t := \"a\" + \"b\"; "+strings.ReplaceAll(st, "$", "t")+" }", 1)
			x.Case(k("storevar:%d:%s", pi, st), func() Case { return Case{Kind: KAccept, Src: ok, Files: files} })
		}
	}
	// functions of the program, of a module, of C, the own one and those of every scope
	fs := []string{"$ = g;", "$ = $;", "$, v = g, 2;", "v, $ = 2, g;", "{ $ = g; }", "if v == 1 { $ = g; } else { }", "w := func() { $ = g; };", "w := :i32 { $ = g; return 1; };", "for i := 0; i < 1; i = i + 1 { $ = g; }", "switch v { case 1 { $ = g; } }", "for $ = g; v < 1; v = v + 1 { }", "for v = 1; v < 1; $ = g { }"}
	for _, st := range fs {
		for _, in := range []string{"f", "h", "main", "m.f", "m.z", "abs", "q.f"} {
			g := "func g(n i32) i32 { return n; }\n"
			if in == "main" {
				g = "func g() { }\n"
			}
			src := "import m, \"./m.cd\";\nimport q, i32, \"./q.cd\";\nextern func abs(i32) i32;\nfunc f(n i32) i32 { return n + 1; }\n" + g + "func h(n i32) i32 { v := 1; " + strings.ReplaceAll(st, "$", in) + " return n; }\nfunc main() { @print(h(1)); }\n"
			x.Case(k("function:%s:%s", in, st), func() Case {
				return Case{Kind: KReject, Src: src, Files: map[string]string{"m.cd": "import q, i32, \"./q.cd\";\nfunc f(n i32) i32 { return n; }\nfunc z(n i32) i32 { return f(n); }\n", "q.cd": "type T\nfunc f(n T) T { return n; }\n"}}
			})
		}
		src := "import m, \"./m.cd\";\nfunc f(n i32) i32 { return n + 1; }\nfunc g(n i32) i32 { return n; }\nfunc h(n i32) i32 { v := 1; k := f; " + strings.ReplaceAll(st, "$", "k") + " return n; }\nfunc main() { @print(h(1)); }\n"
		x.Case(k("functionvar:%s", st), func() Case {
			if strings.Contains(st, "func()") {
				return Case{Skip: "assignment to a captured variable"}
			}
			return Case{Kind: KAccept, Src: src, Files: map[string]string{"m.cd": "func f(n i32) i32 { return n; }\n"}}
		})
	}
}

// genConstInit: what is not known at compile time cannot initialise a constant or be a label.
func genConstInit(x *Enum) {
	head := "struct S { x i32 }\ngv : i32 = 3;\nconst k := 5;\nfunc f() i32 { return 1; }\nfunc id(v i32) i32 { return v; }\n"
	vars := "  v := 1;\n  arr := [2]i32{1, 2};\n  s := @S{x: 4};\n  p := @alloc(i32, 1);\n  l := func() i32 { return 3; };\n"
	bad := []string{"v", "par", "gv", "f()", "id(3)", "k.id()", "arr[0]", "s.x", "*p", "p[0]", "l()", ":i32 { return 1; }", "(++v)", "(--gv)", "((1 < 2) as i32)", "((k == 5) as i32)", "((1 == 1 && 2 == 2) as i32)", "((1 as i1 || 0 as i1) as i32)", "(!1 as i32)", "(!k as i32)", "@alloc(i32, 1)[0]", "*&v", "[2]i32{1, 2}[0]", "@S{x: 1}.x", "(p as i64 as i32)", "\"abc\"[0] as i32"}
	wraps := []string{"$", "$ + 1", "1 + $", "-$", "$ as i64 as i32", "(1 - $) * 2", "(k + $) - k", "2 * (3 + -$)", "($ & 3) << 1", "@cast(i32, $)"}
	good := []string{"3", "k", "k + 1", "-k", "(k as i64 * 3 as i64) as i32", "@sizeof(i64)", "@sizeof(S) * k", "'a' as i32", "1.5 as i32"}
	global := map[string]bool{"gv": true, "f()": true, "id(3)": true, "k.id()": true, "(--gv)": true}
	// constants of any type
	anyBad := []string{"@alloc(i32, 1)", "@alloc(i32, 1) as i64", "@realloc(8 as *i32, 1 as i64)", "8 as *i32", "8 as *i32 as i64", "k as *S", "\"a\" + \"b\"", "\"a\" == \"b\"", "func() { }", "f", "[2]i32{1, 2}", "@S{x: 1}", "&gv", "&gv as i64", "&k",
		"\"s\" as *i32", "\"s\" as i64", "@S{x: 1}.x", "@print(1)", "@free(8 as *i32)", "\"s\"[0]", "*\"s\"", "*(8 as *i32)", "[2]i32{1, 2} as *i32", "[2]i32{1, 2}[1]", ":*i32 { return 8 as *i32; }", "1.5 < 2.5", "!1.5", "1.5 && 2.5", "k == k", "f() as f64", "id(1) as i8", "-gv", "m.v", "m.f()", "m.k == 1", "&m.k", "m.f"}
	anyGood := []string{"3", "k", "\"s\"", "1.5", "'c'", "1.5 + 2.5", "-1.5", "@sizeof(S)", "1 as i1", "k as f64", "(\"s\")", "-k as i64", "m.k", "m.k + k", "m.t", "-m.k", "m.k as i8 + 1 as i8", "gt", "3 as u64 / 2 as u64", "@sizeof(*S) * @sizeof([3]S)"}
	spots := []string{"const c := $;\nfunc main() { }\n", "func main() { const c := $; }\n", "func main() { l := func() { const c := $; }; l(); }\n", "func main() { r := :i32 { const c := $; return 1; }; }\n", "func main() { if 1 { for i := 0; i < 1; i = i + 1 { const c := $; } } }\n",
		"#if LINUX { const c := $; }\nfunc main() { }\n", "const b := 1;\nconst c := $;\nconst d := b;\nfunc main() { }\n", "func main() { switch 1 { case 1 { const c := $; } } }\n"}
	anyFiles := map[string]string{"m.cd": "v := 2;\nconst k := 3;\nconst t := \"t\";\nfunc f() i32 { return 1; }\n"}
	for si, spot := range spots {
		for _, e := range anyBad {
			src := "import m, \"./m.cd\";\n" + head + strings.ReplaceAll(spot, "$", e)
			x.Case(k("any:%d:%s", si, e), func() Case { return Case{Kind: KReject, Src: src, Files: anyFiles} })
		}
		for _, e := range anyGood {
			src := "import m, \"./m.cd\";\n" + head + "const gt := \"t\";\n" + strings.ReplaceAll(spot, "$", e)
			x.Case(k("anygood:%d:%s", si, e), func() Case { return Case{Kind: KAccept, Src: src, Files: anyFiles} })
		}
	}
	for _, form := range []string{"local", "localtyped", "global", "globaltyped", "case", "onlycase", "secondcase", "lambdacase", "lambda", "block"} {
		mk := func(e string) string {
			switch form {
			case "local":
				return head + "func h(par i32) {\n" + vars + "  const c := " + e + ";\n  @print(c);\n}\nfunc main() { h(2); }\n"
			case "localtyped":
				return head + "func h(par i32) {\n" + vars + "  const c : i32 = " + e + ";\n  @print(c);\n}\nfunc main() { h(2); }\n"
			case "global":
				return head + "const c := " + e + ";\nfunc main() { @print(c); }\n"
			case "globaltyped":
				return head + "const c : i32 = " + e + ";\nfunc main() { @print(c); }\n"
			case "case":
				return head + "func h(par i32) {\n" + vars + "  switch par {\n  case " + e + " { @print(1); }\n  default { @print(2); }\n  }\n}\nfunc main() { h(2); }\n"
			case "onlycase":
				return head + "func h(par i32) {\n" + vars + "  switch par {\n  case " + e + " { @print(1); }\n  }\n}\nfunc main() { h(2); }\n"
			case "secondcase":
				return head + "func h(par i32) {\n" + vars + "  switch par {\n  case 1000 { v = 2; }\n  case " + e + " { @print(1); }\n  }\n}\nfunc main() { h(2); }\n"
			case "lambdacase":
				return head + "func h(par i32) {\n" + vars + "  l2 := func() { switch par {\n  case " + e + " { @print(1); }\n  } };\n}\nfunc main() { h(2); }\n"
			case "lambda":
				return head + "func main() {\n  q := func(par i32) {\n" + vars + "    const c := " + e + ";\n    @print(c);\n  };\n  q(1);\n}\n"
			}
			return head + "func h(par i32) i32 {\n" + vars + "  r := :i32 { const c := " + e + "; return c; };\n  return r;\n}\nfunc main() { @print(h(1)); }\n"
		}
		for _, w := range wraps {
			for _, b := range bad {
				if strings.HasPrefix(form, "global") && !global[b] && strings.ContainsAny(b, "vpsl") && !strings.HasPrefix(b, "(") && !strings.HasPrefix(b, "@") && !strings.HasPrefix(b, ":") {
					continue
				}
				if w != "$" && strings.HasPrefix(b, ":") {
					continue
				}
				e := strings.ReplaceAll(w, "$", b)
				x.Case(k("init:%s:%s", form, e), func() Case { return Case{Kind: KReject, Src: mk(e)} })
				if form == "local" {
					s := strings.Replace(mk(e), "const c :=", "c :=", 1)
					x.Case(k("initvar:%s", e), func() Case { return Case{Kind: KAccept, Src: s} })
				}
			}
			for _, b := range good {
				e := strings.ReplaceAll(w, "$", "("+b+")")
				x.Case(k("initgood:%s:%s", form, e), func() Case { return Case{Kind: KAccept, Src: mk(e)} })
			}
		}
	}
}

func genConstUses(x *Enum) {
	// c is 2; every use with what it prints
	uses := []struct{ code, want string }{
		{"@print($);", "2"}, {"v = $; @print(v);", "2"}, {"v, w = $, $ + 1; @print(v, w);", "2 3"}, {"arr[$] = 9; @print(arr[2], arr[1]);", "9 11"}, {"arr[arr[$] - 10] = 9; @print(arr[2], arr[1]);", "9 11"}, {"@print(arr[$], arr[$ - 1]);", "12 11"}, {"*(p + $) = 8; @print(p[2]);", "8"}, {"p[$] = 7; @print(*(p + $));", "7"},
		{"s.q[$] = 6; @print(s.q[2]);", "6"}, {"@print(id($), id(-$), $.id());", "2 -2 2"}, {"for v = $; v < $ + 2; v = v + 1 { @print(v); }", "23"}, {"if $ == 2 { @print(\"y\"); } else { @print(\"n\"); }", "y"}, {"switch $ { case $ { @print(\"y\"); } default { @print(\"n\"); } }", "y"}, {"switch v { case $ - 1 { @print(\"y\"); } default { @print(\"n\"); } }", "y"},
		{"h := @alloc(i32, $); h[1] = 4; @print(h[1]);", "4"}, {"g := func() i32 { return $ * 3; }; @print(g());", "6"}, {"g := func(d i32) i32 { h := func() i32 { return $ * 3; }; return h() + d; }; @print(g($));", "8"}, {"b := :i32 { return $ + 5; }; @print(b);", "7"}, {"a2 := [3]i32{$, 1, $}; @print(a2[0], a2[2]);", "2 2"}, {"t := @T{a: $, b: $ as i64}; @print(t.a, t.b);", "2 2"},
		{"@print($ as i64, $ as f32, $ as u8);", "2 2.000 2"}, {"const d := $ * $ - 1; @print(d, $);", "3 2"}, {"d := $; d = d + 5; @print(d, $);", "7 2"}, {"d := $; q := &d; *q = 9; @print(d, $);", "9 2"}, {"mut($); @print($);", "2"}, {"@print($ < 3, $ > 3, $ == 2 && $ != 3);", "1 0 1"}, {"@print(-$, !$, $ << $, $ % 2);", "-2 0 8 0"}, {"a, b := two($); @print(a, b);", "2 3"}, {"@print(($), (($)) + 1);", "2 3"},
		{"z := @realloc(@alloc(i32, 1), $); z[1] = 3; @print(z[1]);", "3"}, {"{ const d := $; { const e := d + $; @print(e); } }", "4"}, {"v = v + $; v = $ - v; @print(v);", "-1"}, {"for i := 0; i < $; i = i + 1 { const e := $ + 1; @print(e); }", "33"},
		{"*:*i32 { d := $; return p + d; } = 8; @print(p[2], $);", "8 2"}, {"arr[:i32 { d := $; return d; }] = 9; @print(arr[2]);", "9"}, {"*:*i32 { g := id; d := g($); return &arr[d - 1]; } = 9; @print(arr[1]);", "9"}, {"(*:*S { d := $; s.q[0] = d; return &s; }).q[$] = 4; @print(s.q[0], s.q[2]);", "2 4"}, {"++*:*i32 { const d := $ - 1; f := d; return &arr[f]; }; @print(arr[1]);", "12"},
	}
	const head = "struct S { q [3]i32 }\nstruct T { a i32\n b i64 }\nfunc id(v i32) i32 { return v; }\nfunc mut(v i32) { v = v + 1; ++v; }\nfunc two(v i32) (i32, i32) { return v, v + 1; }\n"
	const vars = "  v := 1;\n  w := 2;\n  arr := [3]i32{10, 11, 12};\n  s := @S{q: [3]i32{1, 1, 1}};\n  p := @alloc(i32, 9);\n"
	places := []struct{ name, src, in string }{
		{"global", "const c := 2;\nfunc main() {\n" + vars + "§\n}\n", "c"},
		{"globalexpr", "const b := 5;\nconst c : i32 = (b - 1) / 2;\nconst d := c + 1;\nfunc main() {\n" + vars + "§\n}\n", "c"},
		{"local", "const c := 7;\nfunc main() {\n  const c := 2;\n" + vars + "§\n}\n", "c"},
		{"outer", "func main() {\n  const c := 2;\n  if c == 2 {\n" + vars + "    {\n§\n    }\n  }\n}\n", "c"},
		{"lambda", "func main() {\n  const c := 2;\n  lam := func() {\n" + vars + "§\n  };\n  lam();\n}\n", "c"},
		{"lambda2", "func main() {\n  const c := 2;\n  lam := func() {\n    lam2 := func() {\n" + vars + "§\n    };\n    lam2();\n  };\n  lam();\n}\n", "c"},
		{"inner", "c : i32 = 9;\nfunc main() {\n  c := 8;\n  {\n    const c := 2;\n" + vars + "§\n  }\n}\n", "c"},
		{"afterinner", "const c := 2;\nfunc main() {\n  { c := 8; c = 9; }\n  { const c := 7; }\n  k := func(c i32) i32 { return c; };\n" + vars + "§\n}\n", "c"},
		{"block", "const c := 3;\nfunc main() {\n  r := :i32 {\n    const c := 2;\n" + vars + "§\n    return c;\n  };\n}\n", "c"},
		{"loop", "func main() {\n  for i := 0; i < 1; i = i + 1 {\n    const c := 2;\n" + vars + "§\n  }\n}\n", "c"},
		{"function", "const c := 2;\nfunc work() {\n" + vars + "§\n}\nfunc main() { work(); }\n", "c"},
		{"othername", "const c := 2;\nfunc other() i32 { c := 5; c = 6; return c; }\nfunc main() {\n  other();\n" + vars + "§\n}\n", "c"},
		{"module", "import m, \"./m.cd\";\nconst c := 7;\nfunc main() {\n" + vars + "§\n}\n", "m.c"},
		{"modulechain", "import m, \"./m.cd\";\nconst c := m.c;\nfunc main() {\n" + vars + "§\n}\n", "c"},
	}
	for _, p := range places {
		files := map[string]string(nil)
		if strings.HasPrefix(p.name, "module") {
			files = map[string]string{"m.cd": "const b := 1;\nconst c := b * 2;\n"}
		}
		for _, u := range uses {
			if p.in == "m.c" && strings.Contains(u.code, "$.id()") {
				continue
			}
			x.Case(k("use:%s:%s", p.name, u.code), func() Case {
				return Case{Kind: KRun, Src: head + strings.Replace(p.src, "§", "    "+strings.ReplaceAll(u.code, "$", p.in), 1), Want: u.want, Files: files}
			})
			for _, u2 := range uses {
				if !x.Thorough() && (len(u.code)+len(u2.code))%4 != 0 {
					continue
				}
				if p.in == "m.c" && strings.Contains(u2.code, "$.id()") {
					continue
				}
				x.Case(k("uses:%s:%s:%s", p.name, u.code, u2.code), func() Case {
					return Case{Kind: KRun, Src: head + strings.Replace(p.src, "§", "    { "+strings.ReplaceAll(u.code, "$", p.in)+" }\n    { v := 1; arr := [3]i32{10, 11, 12}; "+strings.ReplaceAll(u2.code, "$", p.in)+" }", 1), Want: u.want + u2.want, Files: files}
				})
			}
		}
	}
}

// genConstScopes: a constant of every form of declaration in every chain of two
// scopes cannot be changed in any scope below, a variable can.
func genConstScopes(x *Enum) {
	scopes := []string{"§", "{ § }", "if k == k { § }", "if k != k { } else { § }", "if k != k { } else if k == k { § }", "for i := 0; i < 1; i = i + 1 { § }", "for k < 3 { § k = 3; }", "for { § break; }", "switch k { case 1 { § } }", "switch k { case 2 { k = 2; } default { § } }", "l := func(q i32) i32 { § return q; };", "b := :i32 { § return 1; };", "#if 1 { § }"}
	decls := []struct{ src, name, t string }{
		{"c := 1;", "c", "i32"}, {"c : i32 = 1;", "c", "i32"}, {"c : i64 = 1 as i64;", "c", "i64"}, {"c, d := 1, 2;", "c", "i32"}, {"c, d := 1, 2;", "d", "i32"}, {"d : f32 = 1.5;", "d", "f32"},
	}
	mutate := []string{"$ = v;", "++$;", "v, $ = v, v;", "$, v = v, v;", "v = --$;", "w := ++$;", "$ = $;"}
	n := 0
	for ai, a := range scopes {
		for bi, b := range scopes {
			if ai == 0 && bi != 0 {
				continue
			}
			for ci, c := range scopes {
				for di, d := range decls {
					for o := 0; o < x.Pick(1, len(mutate)); o++ {
						n++
						m := strings.ReplaceAll(mutate[(n+o)%len(mutate)], "$", d.name)
						lambda := strings.Contains(c, "func(")
						mk := func(kw string) string {
							put := func(scope, s string) string { return strings.Replace(scope, "§", s, 1) }
							use := "v : " + d.t + " = 2 as " + d.t + "; " + m
							return "func main() {\n  k := 1;\n  " + put(a, put(b, kw+" "+d.src+" "+put(c, use)+" @print("+d.name+");")) + "\n}\n"
						}
						x.Case(k("scopes:%d:%d:%d:%d:%d", ai, bi, ci, di, o), func() Case { return Case{Kind: KReject, Src: mk("const")} })
						if !lambda {
							x.Case(k("scopesvar:%d:%d:%d:%d:%d", ai, bi, ci, di, o), func() Case { return Case{Kind: KAccept, Src: mk("")} })
						}
					}
				}
			}
		}
	}
}

// genConstStrings: string constants and global strings have exactly the bytes of their literal.
func genConstStrings(x *Enum) {
	texts := []struct{ src, val string }{{"", ""}, {"a", "a"}, {"ab", "ab"}, {"a b c", "a b c"}, {"\\n", "\n"}, {"x\\n", "x\n"}, {"\\\\", "\\"}, {"a\\\\n", "a\\n"}, {"%d %s", "%d %s"}, {"0", "0"}, {"é", "é"}, {"abcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyz0123456789"}}
	spots := []struct{ name, top, local, use string }{
		{"local", "", "const c := «»; ", "c"},
		{"typed", "", "const c : *i8 = «»; ", "c"},
		{"chain", "", "const b := «»; const c := b; ", "c"},
		{"global", "const c := «»;\n", "", "c"},
		{"globaltyped", "const c : *i8 = «»;\n", "", "c"},
		{"globalchain", "const b := «»;\nconst c := b;\n", "", "c"},
		{"mixed", "const b := «»;\n", "const c := b; ", "c"},
		{"variable", "c := «»;\n", "", "c"},
		{"variabletyped", "c : *i8 = «»;\n", "", "c"},
		{"ofconstant", "const b := «»;\nc := b;\n", "", "c"},
		{"paren", "const c := («»);\n", "", "c"},
		{"module", "import m, \"./m.cd\";\n", "", "m.k"},
		{"modulechain", "import m, \"./m.cd\";\nconst c := m.k;\n", "", "c"},
		{"modulelocal", "import m, \"./m.cd\";\n", "const c := m.k; ", "c"},
		{"modulevariable", "import m, \"./m.cd\";\n", "", "m.v"},
	}
	uses := []struct {
		src  string
		want func(v string) string
	}{
		{"@print($);", func(v string) string { return v }},
		{"@print($, $);", func(v string) string { return v + " " + v }},
		{"n := 0; for $[n] != 0 as i8 { n = n + 1; } @print(n);", func(v string) string { return k("%d", len(v)) }},
		{"@print($ + \"|\" + $);", func(v string) string { return v + "|" + v }},
		{"@print($ == «», $ == \"zz\", $ < \"zz\");", func(v string) string {
			r := "1 0 0"
			if v < "zz" {
				r = "1 0 1"
			}
			return r
		}},
		{"s := $; t := s + \"\"; @print(t, s == t);", func(v string) string { return v + " 1" }},
		{"show($);", func(v string) string { return v + ";" }},
		{"if 1 { @print($); } l := func(i i32) { @print(\";\"); }; l(1); { @print($); }", func(v string) string { return v + ";" + v }},
		{"a := [2]*i8{$, \"q\"}; h := @H{t: $}; @print(a[0], a[1], h.t);", func(v string) string { return v + " q " + v }},
	}
	for _, t := range texts {
		for _, sp := range spots {
			for ui, u := range uses {
				t, sp, u := t, sp, u
				x.Case(k("string:%s:%s:%d", t.src, sp.name, ui), func() Case {
					lit := "\"" + t.src + "\""
					src := strings.ReplaceAll("struct H { t *i8 }\n"+sp.top+"func show(s *i8) { @print(s); @print(\";\"); }\nfunc main() { "+sp.local+strings.ReplaceAll(u.src, "$", sp.use)+" }\n", "«»", lit)
					if strings.HasPrefix(sp.top, "import") {
						// imports come first
						i := strings.Index(src, "import m, \"./m.cd\";\n")
						imp := "import m, \"./m.cd\";\n"
						src = imp + src[:i] + src[i+len(imp):]
					}
					return Case{Kind: KRun, Src: src, Want: u.want(t.val), Files: map[string]string{"m.cd": "const k := " + lit + ";\nv := " + lit + ";\n"}}
				})
			}
		}
	}
}
