package main

import "strings"

// C07: a function that returns a value is accepted exactly when all of its
// paths return one.

// treeReturns is the specification: what certainly returns.
func treeReturns(l []*ft) bool {
	for _, t := range l {
		if stReturns(t) {
			return true
		}
	}
	return false
}

func stReturns(t *ft) bool {
	switch t.k {
	case "return", "unreach":
		return true
	case "block", "ifelse", "chain", "switch1d", "switch2d", "onlydefault":
		for _, b := range t.kids {
			if !treeReturns(b) {
				return false
			}
		}
		return true
	}
	return false
}

func hasKind(l []*ft, kd string) bool {
	for _, t := range l {
		if t.k == kd {
			return true
		}
		for _, b := range t.kids {
			if hasKind(b, kd) {
				return true
			}
		}
	}
	return false
}

// cutDead removes what follows a certain return, as the marks between
// statements would otherwise be there.
func returnProg(l []*ft, ctx string) *Pg {
	b := &flowBuild{}
	body := b.body(l)
	f := fnOf("f", R(TI32), P("a", TI32, "b", TI32), body...)
	switch ctx {
	case "lambda":
		inner := fnOf("", R(TI32), P("a", TI32, "b", TI32), body...)
		f = fnOf("f", R(TI32), P("a", TI32, "b", TI32), Decl("g", Lam(inner)), Ret(Call(Vr("g", inner.ty()), V32("a"), V32("b"))))
	case "block":
		f = fnOf("f", R(TI32), P("a", TI32, "b", TI32), Decl("v", BlkE(TI32, body...)), Ret(Bin("+", V32("v"), N32(50000))))
	case "voidlambda":
		// the return of a lambda is not the return of the function
		inner := fnOf("", R(TI32), nil, Ret(N32(5)))
		f = fnOf("f", R(TI32), P("a", TI32, "b", TI32), append(SS(Decl("g", Lam(inner))), body...)...)
	case "afterblock":
		f = fnOf("f", R(TI32), P("a", TI32, "b", TI32), append(SS(Decl("v", BlkE(TI32, Ret(N32(5))))), body...)...)
	}
	var m []*St
	for _, a := range []int64{0, 1, 2} {
		for _, c := range []int64{0, 1} {
			m = append(m, Line(CallF(f, N32(a), N32(c))))
		}
	}
	return pg(f, mainFn(m...))
}

func returnCase(l []*ft, ctx string) Case {
	ok := treeReturns(l)
	g := returnProg(l, ctx)
	if !ok {
		return Case{Kind: KReject, Src: g.Src()}
	}
	return progCase(g)
}

func init() {
	register(&Family{
		ID:        "C07",
		Technique: "exhaustive enumeration of function bodies against a specification of which paths return",
		Rule: "Every function body that is a tree of at most 3 nodes (4 over a smaller alphabet, 4/5 in the thorough tier) of return, print, if, if/else, if/else if with and without else, switch with and without a default, for, condition-only for and blocks; " +
			"each one as a function, an anonymous function and a block expression, and after an anonymous function or a block expression that returns itself; else-if chains and switches of up to 6 arms with every subset of returning arms. " +
			"The body is refused when some path does not return, and otherwise accepted and run on 6 inputs with the expected trace.",
		Note: "Bounded by the size of the trees. A loop never counts as returning, as documented by the behaviour of the analyser on its own tests.",
		Gen:  genReturn,
	})
}

func genReturn(x *Enum) {
	all := []string{"if", "ifelse", "elseif", "chain", "switch1d", "switch2", "switch2d", "for", "while", "block", "return", "p"}
	g := &flowGen{kinds: all, memo: map[string][][]*ft{}}
	for n := 0; n <= 3; n++ {
		for _, l := range g.lists(n, false, 3) {
			for _, ctx := range []string{"func", "lambda", "block", "voidlambda", "afterblock"} {
				if n == 3 && (ctx == "voidlambda" || ctx == "afterblock") && !x.Thorough() {
					continue
				}
				l, ctx := l, ctx
				x.Case(k("ret:%s:%s", ctx, ftString(l)), func() Case { return returnCase(l, ctx) })
			}
		}
	}
	small := &flowGen{kinds: []string{"if", "ifelse", "switch1d", "return", "for"}, memo: map[string][][]*ft{}}
	for n := 4; n <= x.Pick(4, 5); n++ {
		for _, l := range small.lists(n, false, 4) {
			l := l
			x.Case(k("ret4:%s", ftString(l)), func() Case { return returnCase(l, "func") })
		}
	}
	if x.Thorough() {
		mid := &flowGen{kinds: []string{"if", "ifelse", "elseif", "chain", "switch2d", "switch2", "return", "for", "block"}, memo: map[string][][]*ft{}}
		for _, l := range mid.lists(4, false, 4) {
			for _, ctx := range []string{"func", "lambda", "block"} {
				l, ctx := l, ctx
				x.Case(k("ret4m:%s:%s", ctx, ftString(l)), func() Case { return returnCase(l, ctx) })
			}
		}
	}
	// every subset of returning arms
	for arms := 1; arms <= 6; arms++ {
		for _, last := range []bool{false, true} {
			for mask := 0; mask < 1<<(arms+1); mask++ {
				if !last && mask>>arms != 0 {
					continue
				}
				for _, form := range []string{"if", "switch", "nestedif", "nestedswitch"} {
					arms, last, mask, form := arms, last, mask, form
					x.Case(k("arms:%s:%d:%v:%b", form, arms, last, mask), func() Case { return armsCase(form, arms, last, mask) })
				}
			}
		}
	}
	// break, continue and returns inside of loops do not make the function return
	for i, s := range []string{
		"for 1 { return 1; }", "for i := 0; i < 3; i = i + 1 { return 1; }", "for 1 { break; } ",
		"for 1 { if a { return 1; } else { return 2; } }", "x := func() i32 { return 1; };", "for 1 { x := func() i32 { return 1; }; break; }",
		"x := :i32 { return 1; };", "if a { x := :i32 { return 1; }; }", "if a { return 1; } for 1 { return 2; }",
		"@print(func() i32 { return 3; }());", "if a { return 1; } else if b { return 2; }", "switch a { case 1 { return 1; } case 2 { return 2; } }",
		"if a { } else { return 1; }", "if a { return 1; } else { }", "{ } ", "{ { } if a { return 1; } }", "y := a; y = 3;",
	} {
		s := s
		x.Case(k("loop:%d", i), func() Case {
			return Case{Kind: KReject, Src: "func f(a i32, b i32) i32 {\n" + s + "\n}\nfunc main() { @print(f(1, 2)); }\n"}
		})
		x.Case(k("loop:ok:%d", i), func() Case {
			return Case{Kind: KAccept, Src: "func f(a i32, b i32) i32 {\n" + s + "\nreturn 9;\n}\nfunc main() { @print(f(1, 2)); }\n"}
		})
		x.Case(k("loop:void:%d", i), func() Case {
			if i >= 0 && containsReturn(s) {
				return Case{Skip: "returns a value"}
			}
			return Case{Kind: KAccept, Src: "func f(a i32, b i32) {\n" + s + "\n}\nfunc main() { f(1, 2); }\n"}
		})
	}
	// what follows a return does not change that it returns, wherever it is
	for oi, o := range []string{"%s", "{ %s }", "if a == 1 { %s } else { %s }", "if a == 5 { return 5; } else if a == 1 { %s } else { %s }", "switch a { case 1 { %s } default { %s } }", "#if 1 { %s }", "#if LINUX { { %s } }", "#if 1 { #if 1 { %s } }", "#if 1 { if a == 1 { %s } else { %s } }", "z := func() i32 { %s }; return z();", "z := :i32 { %s }; return z;", "return :i32 { %s };"} {
		for ri, r := range []string{"return 7;", "{ return 7; }", "if b == 2 { return 7; } else { return 8; }", "switch b { case 2 { return 7; } default { return 8; } }", "#if 1 { return 7; }"} {
			for di, dead := range []string{"if a == 1 { }", "if a == 1 { } else { @print(1); }", "for i := 0; i < 2; i = i + 1 { }", "for a == 3 { a = 4; }", "switch a { case 1 { } }", "{ }", "a = 4;", "return 9;", "return 9; if a == 1 { }", "q := 4; if q == a { return 9; }", "#if 1 { }", "#if 0 { }", "#if 1 { if a == 1 { } }", "q := func() i32 { return 3; };", "q := :i32 { return 3; };", "@print(a);", "@unreachable();"} {
				for p, pre := range []string{"", "w := 1; "} {
					if !x.Thorough() && p == 1 && (oi+ri+di)%3 != 0 {
						continue
					}
					in := pre + r + " " + dead
					x.Case(k("dead:%d:%d:%d:%d", oi, ri, di, p), func() Case {
						return Case{Kind: KRun, Src: "func f(a i32, b i32) i32 {\n" + strings.ReplaceAll(o, "%s", in) + "\n}\nfunc main() { @print(f(1, 2), f(2, 2)); }\n", Want: "7 7"}
					})
				}
			}
		}
	}
	// every type of result
	for _, t := range append(append([]*Ty{}, numTypes...), TI1, TStr) {
		t := t
		lit := Str("s")
		if t != TStr {
			lit = fewLits(t)[1]
		}
		for _, full := range []bool{false, true} {
			full := full
			x.Case(k("type:%s:%v", t, full), func() Case {
				body := SS(If(V32("a"), SS(Ret(lit))))
				if full {
					body = append(body, Ret(lit))
				}
				f := fnOf("f", R(t), P("a", TI32), body...)
				g := pg(f, mainFn(Line(CallF(f, N32(0)), CallF(f, N32(1)))))
				if !full {
					return Case{Kind: KReject, Src: g.Src()}
				}
				return progCase(g)
			})
		}
	}
}

func containsReturn(s string) bool {
	for i := 0; i+6 <= len(s); i++ {
		if s[i:i+6] == "return" {
			return true
		}
	}
	return false
}

func armsCase(form string, arms int, last bool, mask int) Case {
	arm := func(i int) []*St {
		s := SS(Print(N32(int64(i)), Str(",")))
		if mask>>i&1 == 1 {
			if form == "nestedif" {
				s = append(s, If(V32("b"), SS(Ret(N32(int64(100+i)))), SS(Ret(N32(int64(200+i))))))
			} else if form == "nestedswitch" {
				s = append(s, Switch(V32("b"), []*E{N32(0)}, SS(Ret(N32(int64(100+i)))), SS(Blk(Ret(N32(int64(200+i)))))))
			} else {
				s = append(s, Ret(N32(int64(100+i))))
			}
		} else if form == "nestedif" {
			s = append(s, If(V32("b"), SS(Ret(N32(int64(100+i))))))
		}
		return s
	}
	all := last
	for i := 0; i < arms; i++ {
		all = all && mask>>i&1 == 1
	}
	all = all && mask>>arms&1 == 1
	var st *St
	if form == "switch" || form == "nestedswitch" {
		var cs []*E
		var bs [][]*St
		for i := 0; i < arms; i++ {
			cs = append(cs, N32(int64(i)))
			bs = append(bs, arm(i))
		}
		if last {
			bs = append(bs, arm(arms))
		}
		st = Switch(V32("a"), cs, bs...)
	} else {
		var rest []any
		for i := 1; i < arms; i++ {
			rest = append(rest, Bin("==", V32("a"), N32(int64(i))), arm(i))
		}
		if last {
			rest = append(rest, arm(arms))
		}
		st = If(Bin("==", V32("a"), N32(0)), arm(0), rest...)
	}
	f := fnOf("f", R(TI32), P("a", TI32, "b", TI32), st)
	var m []*St
	for i := 0; i <= arms; i++ {
		m = append(m, Line(CallF(f, N32(int64(i)), N32(0)), CallF(f, N32(int64(i)), N32(1))))
	}
	g := pg(f, mainFn(m...))
	if !all {
		return Case{Kind: KReject, Src: g.Src()}
	}
	return progCase(g)
}
