package main

import "strings"

// C04: every use of a name means the innermost declaration that is visible.

// scopeOps is the alphabet: each letter is an action.
//
//	A,B declare a/b with a fresh i32   S declares a as a string
//	X,Y assign a/b                     P prints a and b (those in scope have to be)
//	p,q print a/b                      D declares a from the outer a plus one
//	{ } block   F for with its own a   I if    W switch case
//	L lambda called in place           E block expression
type scopeState struct {
	w      strings.Builder
	scopes []map[string]string // name -> type
	kinds  []byte
	ok     bool
	n      int
	funcs  int
}

func init() {
	register(&Family{
		ID:        "C04",
		Technique: "exhaustive enumeration of sequences of scope operations against a reference model",
		Rule: "Every well-nested sequence of at most 5 operations (6 over a smaller alphabet, 6/7 in the thorough tier) among declaring, redeclaring with another type, declaring from the shadowed variable, assigning and printing two names, opening and closing a block, an if, a for with its own variable, a switch case, a lambda and a block expression, and leaving them with a return; " +
			"run with and without parameters and globals of the same names. A program that uses a name out of its scope is refused, the others print the values of the innermost visible declarations.",
		Note: "Bounded: two names, sequences of at most 5 to 7 operations, nesting as deep as the sequence allows. Assignments to captured variables inside of lambdas are left out of this family.",
		Gen:  func(x *Enum) { genScope(x); genWide(x, "C04") },
	})
}

func genScope(x *Enum) {
	genAlikeLocals(x)
	run := func(alpha string, n int, ctx string) {
		var rec func(seq string, open string)
		rec = func(seq, open string) {
			if len(seq) == n {
				if open == "" && strings.ContainsAny(seq, "pqP") {
					s := seq
					x.Case(k("scope:%s:%s", ctx, s), func() Case { return scopeCase(s, ctx) })
				}
				return
			}
			left := n - len(seq)
			for i := 0; i < len(alpha); i++ {
				c := alpha[i]
				switch c {
				case '{', 'F', 'I', 'W', 'L', 'E':
					if len(open)+1 > left-1 {
						continue
					}
					rec(seq+string(c), open+string(c))
				case 'R':
					// the last statement of a scope that does not always return
					if open == "" || strings.IndexByte("FIWL", open[len(open)-1]) < 0 || left < 2 {
						continue
					}
					rec(seq+"R}", open[:len(open)-1])
				case '}':
					if open == "" || seq[len(seq)-1] == open[len(open)-1] && strings.IndexByte("{FIWLE", seq[len(seq)-1]) >= 0 {
						continue
					}
					rec(seq+"}", open[:len(open)-1])
				default:
					if len(open) > left-1 {
						continue
					}
					rec(seq+string(c), open)
				}
			}
		}
		rec("", "")
	}
	ctxs := []string{"plain", "param", "global", "both"}
	full := "ABSDXYpq{FIWLE}"
	for n := 1; n <= x.Pick(4, 5); n++ {
		for _, c := range ctxs {
			run(full, n, c)
		}
	}
	run("ADXp{FL}", x.Pick(6, 7), "plain")
	run("ASp{FEI}", x.Pick(6, 7), "param")
	run("ABXpq{W}", x.Pick(6, 7), "global")
	if !x.Thorough() {
		run("ABSXp{FLE}", 5, "plain")
		run("ADXpq{IWL}", 5, "both")
	}
	// scopes that are left by a return; the conditions are a parameter of the function
	for n := 2; n <= x.Pick(5, 6); n++ {
		run("ADXpR{FIWLE}", n, "ret")
	}
	run("ApR{FIL}", x.Pick(6, 7), "ret")
	run("ApR{FWE}", x.Pick(6, 7), "ret")
	genScopeForms(x)
}

func scopeCase(seq, ctx string) Case {
	return scopeProg(seq, ctx)
}

// scopeProg builds the program and decides whether it has to be accepted.
func scopeProg(seq, ctx string) Case {
	type env map[string]*Ty
	var scopes []env
	var fnDepth []int // number of functions around each scope
	ok := true
	nf := 0
	look := func(n string) (*Ty, int) {
		for i := len(scopes) - 1; i >= 0; i-- {
			if t, f := scopes[i][n]; f {
				return t, i
			}
		}
		return nil, -1
	}
	num := int64(0)
	fresh := func() *E { num++; return N32(num * 10) }
	g := &Pg{}
	glob := env{}
	if ctx == "global" || ctx == "both" {
		g.Globals = []*St{Decl("a", N32(1)), Decl("b", N32(2))}
		glob["a"], glob["b"] = TI32, TI32
	}
	scopes = append(scopes, glob)
	fnDepth = append(fnDepth, 0)
	par := env{}
	var ps []Fld
	if ctx == "param" || ctx == "both" {
		ps = P("a", TI32)
		par["a"] = TI32
	}
	one, three := N32(1), N32(3)
	loops := N32(2)
	if ctx == "ret" {
		ps = P("z", TI32)
		par["z"] = TI32
		one, three, loops = V32("z"), Bin("+", V32("z"), N32(2)), V32("z")
	}
	scopes = append(scopes, par)
	fnDepth = append(fnDepth, 1)
	nf = 1
	skip := false
	pos := 0
	inE := 0
	use := func(n string) *E {
		t, _ := look(n)
		if t == nil {
			ok = false
			t = TI32
		}
		return Vr(n, t)
	}
	var list func() []*St
	list = func() []*St {
		var b []*St
		for pos < len(seq) && seq[pos] != '}' {
			c := seq[pos]
			pos++
			top := func() env { return scopes[len(scopes)-1] }
			switch c {
			case 'A', 'B':
				n := strings.ToLower(string(c))
				b = append(b, Decl(n, fresh()))
				top()[n] = TI32
			case 'S':
				num++
				b = append(b, Decl("a", Str(k("s%d", num))))
				top()["a"] = TStr
			case 'D':
				v := use("a")
				if v.T == TStr {
					b = append(b, Decl("a", Bin("+", v, Str("x"))))
				} else {
					b = append(b, Decl("a", Bin("+", v, N32(1))))
				}
				top()["a"] = v.T
			case 'X', 'Y':
				n := map[byte]string{'X': "a", 'Y': "b"}[c]
				v := use(n)
				_, lvl := look(n)
				if lvl > 0 && fnDepth[lvl] < nf {
					skip = true // assignment to a captured variable
				}
				if v.T == TStr {
					num++
					b = append(b, Set(v, Str(k("t%d", num))))
				} else {
					b = append(b, Set(v, fresh()))
				}
			case 'p', 'q':
				n := map[byte]string{'p': "a", 'q': "b"}[c]
				b = append(b, Print(use(n), Str(",")))
			case 'R':
				if inE > 0 {
					b = append(b, Ret(N32(77)))
				} else {
					b = append(b, Ret())
				}
			default:
				scopes = append(scopes, env{})
				saved := inE
				if c == 'L' {
					inE = 0
					nf++
				}
				fnDepth = append(fnDepth, nf)
				var s []*St
				switch c {
				case '{':
					s = SS(Blk(list()...))
				case 'F':
					num++
					scopes[len(scopes)-1]["a"] = TI32
					scopes = append(scopes, env{})
					fnDepth = append(fnDepth, nf)
					i := V32("a")
					init := Decl("a", N32(num*10))
					cnt := k("c%d", num)
					body := append(SS(Set(V32(cnt), Bin("+", V32(cnt), N32(1)))), list()...)
					s = SS(Decl(cnt, N32(0)), ForI(init, Bin("<", V32(cnt), loops), Set(i, Bin("+", i, N32(1))), body...))
					scopes = scopes[:len(scopes)-1]
					fnDepth = fnDepth[:len(fnDepth)-1]
				case 'I':
					s = SS(If(one, list(), SS(Print(Str("no")))))
				case 'W':
					s = SS(Switch(three, []*E{N32(3), N32(4)}, list(), SS(Print(Str("no")))))
				case 'L':
					num++
					n := k("l%d", num)
					fn := fnOf("", nil, nil, list()...)
					s = SS(Decl(n, Lam(fn)), Ex(Call(Vr(n, fn.ty()))))
					nf--
				case 'E':
					num++
					inE++
					n := k("e%d", num)
					s = SS(Decl(n, BlkE(TI32, append(list(), Ret(N32(num)))...)), Print(V32(n), Str(",")))
				}
				pos++ // }
				inE = saved
				scopes = scopes[:len(scopes)-1]
				fnDepth = fnDepth[:len(fnDepth)-1]
				b = append(b, s...)
			}
		}
		return b
	}
	body := list()
	f := fnOf("f", nil, ps, body...)
	var m []*St
	if ctx == "ret" {
		m = SS(Ex(CallF(f, N32(0))), nl(), Ex(CallF(f, N32(1))))
	} else if ps != nil {
		m = SS(Ex(CallF(f, N32(5))), nl(), Ex(CallF(f, N32(6))))
	} else {
		m = SS(Ex(CallF(f)), nl(), Ex(CallF(f)))
	}
	if ctx == "global" || ctx == "both" {
		m = append(m, nl(), Print(V32("a"), V32("b")))
	}
	g.Fns = []*Fn{f, mainFn(m...)}
	if skip {
		return Case{Skip: "assignment to a captured variable", Src: g.Src()}
	}
	if !ok {
		return Case{Kind: KReject, Src: g.Src()}
	}
	return progCase(g)
}

// genScopeForms: each construct that opens a scope, with a name declared inside
// used after it, and with the outer one intact after it.
func genScopeForms(x *Enum) {
	opens := []struct{ n, pre, post string }{
		{"block", "{", "}"}, {"if", "if 1 {", "}"}, {"else", "if 0 { } else {", "}"}, {"elseif", "if 0 { } else if 1 {", "}"},
		{"for", "for c := 0; c < 1; c = c + 1 {", "}"}, {"while", "w := 0; for w < 1 { w = w + 1;", "}"},
		{"case", "switch 1 { case 1 {", "} }"}, {"default", "switch 9 { case 1 { } default {", "} }"},
		{"lambda", "l := func() {", "}; l();"}, {"blockexpr", "e := :i32 {", "return 1; };"}, {"ifexpr", "e := :i32 if 1 {", "return 1; } else { return 2; };"},
		{"nested", "{ { if 1 {", "} } }"}, {"lambda2", "l := func() { m := func() {", "}; m(); }; l();"},
	}
	for _, o := range opens {
		for _, o2 := range append(opens, struct{ n, pre, post string }{"none", "", ""}) {
			// Names of the constructs clash when they are nested
			pre2 := strings.NewReplacer("c :=", "cc :=", "c <", "cc <", "c = c", "cc = cc", "w ", "ww ", "w;", "ww;", "l :=", "ll :=", "e :=", "ee :=", "m :=", "mm :=").Replace(o2.pre)
			post2 := strings.NewReplacer("l();", "ll();", "m();", "mm();").Replace(o2.post)
			wrap := func(in string) string { return o.pre + pre2 + "\n" + in + "\n" + post2 + o.post }
			key := o.n + ":" + o2.n
			x.Case("form:leak:"+key, func() Case {
				return Case{Kind: KReject, Src: "func main() {\n" + wrap("v := 1; @print(v);") + "\n@print(v);\n}\n"}
			})
			x.Case("form:leakassign:"+key, func() Case {
				return Case{Kind: KReject, Src: "func main() {\n" + wrap("v := 1;") + "\nv = 2;\n}\n"}
			})
			x.Case("form:before:"+key, func() Case {
				return Case{Kind: KReject, Src: "func main() {\n" + wrap("@print(v); v := 1;") + "\n}\n"}
			})
			x.Case("form:shadow:"+key, func() Case {
				return Case{Kind: KRun, Src: "func main() {\nv := 1;\n" + wrap("@print(v); v := \"in\"; @print(v);") + "\n@print(v); v = 3; @print(v);\n}\n", Want: "1in13"}
			})
			x.Case("form:type:"+key, func() Case {
				return Case{Kind: KReject, Src: "func main() {\nv := 1;\n" + wrap("v := \"in\"; @print(v + 1 == 2);") + "\nv = \"s\";\n}\n"}
			})
			x.Case("form:again:"+key, func() Case {
				s := strings.NewReplacer("l ", "l2 ", "l(", "l2(", "e ", "e2 ").Replace(wrap("v := 7; @print(v);"))
				_ = s
				return Case{Kind: KRun, Src: "func main() {\n{" + wrap("v := 1; @print(v);") + "}\n{" + wrap("v := \"z\"; @print(v);") + "}\n v := 2 as i64; @print(v);\n}\n", Want: "1z2"}
			})
		}
	}
	// a scope is left as well when what is inside of it leaves the function or the loop
	kind := func(n string) string {
		switch n {
		case "blockexpr", "ifexpr":
			return "value"
		case "lambda", "lambda2":
			return "func"
		case "for", "while":
			return "loop"
		}
		return ""
	}
	for _, o := range opens {
		for _, o2 := range append(opens, struct{ n, pre, post string }{"none", "", ""}) {
			pre2 := strings.NewReplacer("c :=", "cc :=", "c <", "cc <", "c = c", "cc = cc", "w ", "ww ", "w;", "ww;", "l :=", "ll :=", "e :=", "ee :=", "m :=", "mm :=").Replace(o2.pre)
			post2 := strings.NewReplacer("l();", "ll();", "m();", "mm();").Replace(o2.post)
			wrap := func(in string) string { return o.pre + pre2 + "\n" + in + "\n" + post2 + o.post }
			leaves := []string{"return;"}
			if kind(o2.n) == "value" || kind(o2.n) != "func" && kind(o.n) == "value" {
				leaves = []string{"return 1;"}
			}
			if kind(o2.n) == "loop" || kind(o2.n) == "" && kind(o.n) == "loop" {
				leaves = append(leaves, "break;", "continue;")
			}
			for _, leave := range leaves {
				for _, param := range []string{"", "p i32"} {
					leave, head := leave, "func g("+param+") {\nv := 1;\n"
					call := "g(" + map[bool]string{true: "4"}[param != ""] + ");"
					key := k("leave:%s:%s:%s:%v", o.n, o2.n, leave, param != "")
					x.Case(key+":leak", func() Case {
						return Case{Kind: KReject, Src: head + wrap("u := 2; "+leave) + "\n}\nfunc main() { " + call + " @print(v); }\n"}
					})
					x.Case(key+":inner", func() Case {
						return Case{Kind: KReject, Src: head + wrap("u := 2; "+leave) + "\n}\nfunc main() { " + call + " @print(u); }\n"}
					})
					// what follows a return is not looked at
					if o.n != "block" || o2.n != "block" && o2.n != "none" {
						x.Case(key+":after", func() Case {
							return Case{Kind: KReject, Src: head + wrap("u := 2; "+leave) + "\n@print(u);\n}\nfunc main() { " + call + " }\n"}
						})
					}
					x.Case(key+":global", func() Case {
						return Case{Kind: KRun, Src: "v := 7;\nu := \"u\";\n" + head + "u := 3;" + wrap("u := 2; @print(u, \"\"); "+leave) + "\n}\nfunc main() { " + call + " @print(v, u); v := \"w\"; @print(v); }\n", Want: "2 7 uw"}
					})
					if param != "" {
						x.Case(key+":param", func() Case {
							return Case{Kind: KReject, Src: head + wrap("u := 2; "+leave) + "\n}\nfunc main() { " + call + " @print(p); }\n"}
						})
					}
				}
			}
		}
	}
	// the parameters of a function have different names
	for n := 2; n <= 4; n++ {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				for ti, ts := range [][]string{{"i32", "i32", "i32", "i32"}, {"i32", "i64", "*i8", "f32"}} {
					for fi, form := range []string{"func f(%p) i32 { return 1; }\nfunc main() { @print(f(%a)); }\n", "func main() { f := func(%p) i32 { return 1; }; @print(f(%a)); }\n", "pub func f(%p) i32 { return 1; }\nfunc main() { @print(f(%a)); }\n", "func main() { f := func(%p) i32 { g := func(%p) i32 { return 1; }; return g(%a); }; @print(f(%a)); }\n", "import m, \"./m.cd\";\nfunc main() { @print(m.f(%a)); }\n", "func f(%p) i32 { return @sizeof(i8); }\nfunc main() { @print(:i32 { return f(%a); }); }\n"} {
						var ps, as []string
						for q := 0; q < n; q++ {
							name := k("p%d", q)
							if q == j {
								name = k("p%d", i)
							}
							ps = append(ps, name+" "+ts[q])
							as = append(as, map[string]string{"i32": "1", "i64": "2 as i64", "*i8": "\"s\"", "f32": "1.5"}[ts[q]])
						}
						fill := strings.NewReplacer("%p", strings.Join(ps, ", "), "%a", strings.Join(as, ", "))
						src, files := fill.Replace(form), map[string]string{"m.cd": fill.Replace("func f(%p) i32 { return 1; }\n")}
						x.Case(k("params:%d:%d:%d:%d:%d", n, i, j, ti, fi), func() Case {
							if i == j {
								return Case{Kind: KRun, Src: src, Files: files, Want: "1"}
							}
							return Case{Kind: KReject, Src: src, Files: files}
						})
					}
				}
			}
		}
	}
	// functions do not see each other's variables; a parameter shadows a global and a function
	for i, c := range []struct {
		src, want string
		rej       bool
	}{
		{"func g() { x := 1; } func main() { g(); @print(x); }", "", true},
		{"func g() { @print(x); } func main() { x := 1; g(); }", "", true},
		{"func g(x i32) { } func main() { g(1); @print(x); }", "", true},
		{"func g(x i32) { @print(x); } func main() { g(1); x := 2; @print(x); g(3); }", "123", false},
		{"x := 5; func g(x i32) { @print(x); x = 9; @print(x); } func main() { g(1); @print(x); }", "195", false},
		{"x := 5; func g() { x = x + 1; } func main() { g(); x := 1; g(); @print(x); h(); } func h() { @print(x); }", "17", false},
		{"func g() i32 { return 4; } func main() { g := 3; @print(g); }", "3", false},
		{"func g() i32 { return 4; } func main() { { g := 3; @print(g); } @print(g()); }", "34", false},
		{"func g(g i32) i32 { return g + 1; } func main() { @print(g(1)); }", "2", false},
		{"func main() { x := x; }", "", true},
		{"func main() { x := 1; { x := x + 1; { x := x + 1; @print(x); } @print(x); } @print(x); }", "321", false},
		{"func main() { for i := 0; i < 2; i = i + 1 { } @print(i); }", "", true},
		{"func main() { i := 7; for i := 0; i < 2; i = i + 1 { @print(i); } @print(i); }", "017", false},
		{"func main() { for i := 0; i < 2; i = i + 1 { i := 5; @print(i); } }", "55", false},
		{"func main() { a := 1; f := func(a i32) { @print(a); }; f(2); @print(a); }", "21", false},
		{"func main() { a := 1; f := func() { a := 2; @print(a); }; f(); @print(a); }", "21", false},
		{"func main() { a := 1; f := func() { @print(a); a := 2; @print(a); }; f(); @print(a); f(); }", "12112", false},
		{"struct S { a i32 } func main() { a := 1; s := @S{a: 2}; @print(a, s.a); s.a = a; a = 3; @print(a, s.a); }", "1 23 1", false},
		{"struct S { f i32 } func f(s S) i32 { return s.f + 1; } func main() { s := @S{f: 2}; @print(f(s)); }", "3", false},
		{"const x := 1; func main() { x := 2; x = 3; @print(x); } ", "3", false},
		{"x := 1; func main() { const x := 2; @print(x); } ", "2", false},
		{"x := 1; func main() { const x := 2; x = 3; } ", "", true},
	} {
		c := c
		x.Case(k("fixed:%d", i), func() Case {
			if c.rej {
				return Case{Kind: KReject, Src: c.src}
			}
			return Case{Kind: KRun, Src: c.src, Want: c.want}
		})
	}
}
