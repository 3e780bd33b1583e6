package main

import (
	"fmt"
	"strings"
)

// C27: printing and type aliases.

func init() {
	register(&Family{
		ID:        "C27",
		Technique: "exhaustive enumeration of printed values, forms and argument lists against a reference model, and of all placements of type aliases in a program that uses every type position",
		Rule: "Every boundary value of every scalar type through 15 places; every list of at most 3 arguments over 14 types (4 over 6 types in the thorough tier), lists of 0 to 12 arguments, 24 forms of expressions; struct and union values print their name (also one that looks like a format, next to values of 13 types), pointers to 17 types their address; " +
			"one program with 22 type positions (declarations, parameters, results, fields, elements, pointers, casts, @alloc, @sizeof, function types, block expressions, multiple declarations ...) for 19 types: every choice of at most 2 positions (and all but at most 1) that name the type by an alias or by an alias of an alias, with the aliases before all their uses, or after the functions that use them.",
		Note: "What @print writes for an array, a function or a pointer to u8 is not specified. NaN is left out.",
		Gen:  func(x *Enum) { genPrint(x); genWide(x, "C27") },
	})
}

func genPrint(x *Enum) {
	all := append(append([]*Ty{}, numTypes...), TI1, TStr)
	vals := func(t *Ty) []*E {
		if t == TStr {
			return []*E{Str("s"), Str(""), Str("%d%s%%n"), Str("a b\n")}
		}
		return lits(t)
	}
	for _, t := range all {
		for _, d := range deliveries {
			t, d := t, d
			x.Prog(k("value:%s:%s", t, d), func() *Pg {
				var ps [][2]*E
				vs := vals(t)
				for i := range vs {
					ps = append(ps, [2]*E{vs[i], vs[(i+1)%len(vs)]})
				}
				return delivered(d, t, t, ps, func(a, b *E) *E { return a })
			})
		}
	}
	// lists of arguments
	st := StructT("PS", P("x", TI8, "y", TI64)...)
	noUnion := append(append([]*Ty{}, all...), st)
	val := func(t *Ty, n int) *E {
		if t.K == KStruct || t == TStr || t == TI1 {
			return mkval(t, n)
		}
		if t.K == KFloat {
			return Fl(t, k("-%d.25", n))
		}
		if t.K == KUint {
			return Uv(t, maskTo(^uint64(0), t)-uint64(n))
		}
		return Iv(t, int64(-n))
	}
	list := func(ts []*Ty) *Pg {
		g := &Pg{Types: []*Ty{st}}
		var ps []Fld
		var as, vs, ls []*E
		for i, t := range ts {
			n := k("v%d", i)
			ps = append(ps, Fld{n, t})
			vs = append(vs, Vr(n, t))
			ls = append(ls, val(t, i+1))
			as = append(as, val(t, i+1))
		}
		f := fnOf("f", nil, ps, Line(vs...))
		g.Fns = []*Fn{f, mainFn(Ex(CallF(f, as...)), Line(ls...))}
		return g
	}
	for _, a := range noUnion {
		for _, b := range noUnion {
			ts := []*Ty{a, b}
			x.Prog(k("list:%s,%s", a, b), func() *Pg { return list(ts) })
			for _, c := range noUnion {
				ts := []*Ty{a, b, c}
				x.Prog(k("list:%s,%s,%s", a, b, c), func() *Pg { return list(ts) })
			}
		}
	}
	if x.Thorough() {
		few := []*Ty{TI1, TU8, TI64, TF32, TStr, st}
		for _, a := range few {
			for _, b := range few {
				for _, c := range few {
					for _, d := range few {
						for _, e := range few {
							ts := []*Ty{a, b, c, d, e}
							x.Prog(k("list:%s,%s,%s,%s,%s", a, b, c, d, e), func() *Pg { return list(ts) })
						}
					}
				}
			}
		}
	}
	for n := 1; n <= 12; n++ {
		for s := range noUnion {
			n, s := n, s
			x.Prog(k("many:%d:%d", n, s), func() *Pg {
				var ts []*Ty
				for i := 0; i < n; i++ {
					ts = append(ts, noUnion[(s+i*3)%len(noUnion)])
				}
				return list(ts)
			})
		}
	}
	genPrintForms(x)
	genPrintNames(x)
	genAliases(x)
}

// genPrintForms: what is printed does not depend on the form of the expression.
func genPrintForms(x *Enum) {
	all := append(append([]*Ty{}, numTypes...), TI1, TStr)
	for _, t := range all {
		for _, form := range []string{"par", "call", "method", "lambda", "block", "ifexpr", "cast", "inc", "dec", "sum", "neg", "not", "cmp", "index", "field", "ptrfield", "nested", "fnfield", "deref", "derefcall", "const", "globalconst", "assignfirst", "multi"} {
			t, form := t, form
			num := t.K != KBool && t != TStr
			if !num && (form == "inc" || form == "dec" || form == "neg" || form == "cast" && t == TStr || form == "sum" && t != TStr) {
				continue
			}
			if t.K == KUint && form == "neg" {
				continue
			}
			x.Prog(k("form:%s:%s", t, form), func() *Pg {
				st := StructT("FS", P("q", TI8, "v", t)...)
				id := fnOf("id", R(t), P("v", t), Ret(Vr("v", t)))
				pid := fnOf("pid", R(Ptr(t)), P("v", Ptr(t)), Ret(Vr("v", Ptr(t))))
				g := &Pg{Types: []*Ty{st}, Fns: []*Fn{id, pid}}
				v, w := Vr("v", t), Vr("w", t)
				var in []*St
				var e *E
				switch form {
				case "par":
					e = Par(Par(v))
				case "call":
					e = CallF(id, v)
				case "method":
					e = MCall(id, v)
				case "lambda":
					in = SS(Decl("l", Lam(fnOf("", R(t), P("z", t), Ret(Vr("z", t))))))
					e = Call(Vr("l", id.ty()), v)
				case "block":
					in = SS(Decl("b", BlkE(t, Ret(v))))
					e = Vr("b", t)
				case "ifexpr":
					in = SS(Decl("b", IfE(t, If(Bin("==", v, w), SS(Ret(v)), SS(Ret(w))))))
					e = Vr("b", t)
				case "cast":
					e = Cast(t, Cast(t, v))
				case "inc":
					e = PreInc("++", v)
				case "dec":
					e = PreInc("--", v)
				case "sum":
					e = Bin("+", v, w)
				case "neg":
					e = Neg(v)
				case "not":
					e = Not(v)
				case "cmp":
					e = Bin("==", v, w)
				case "index":
					in = SS(Decl("a", ArrL(Arr(2, t), w, v)))
					e = Idx(Vr("a", Arr(2, t)), N32(1))
				case "field":
					in = SS(Decl("s", StructL(st, []string{"q", "v"}, Iv(TI8, 3), v)))
					e = Field(Vr("s", st), "v")
				case "ptrfield":
					in = SS(Decl("s", StructL(st, []string{"q", "v"}, Iv(TI8, 3), v)), Decl("p", Addr(Vr("s", st))))
					e = Field(Vr("p", Ptr(st)), "v")
				case "nested":
					in = SS(Decl("a", ArrL(Arr(1, Arr(2, st)), ArrL(Arr(2, st), StructL(st, []string{"q", "v"}, Iv(TI8, 3), w), StructL(st, []string{"q", "v"}, Iv(TI8, 3), v)))))
					e = Field(Idx(Idx(Vr("a", Arr(1, Arr(2, st))), N32(0)), N32(1)), "v")
				case "fnfield":
					fs := StructT("FF", P("f", id.ty())...)
					g.Types = append(g.Types, fs)
					in = SS(Decl("s", StructL(fs, []string{"f"}, Vr("id", id.ty()))))
					e = Call(Field(Vr("s", fs), "f"), v)
				case "deref":
					in = SS(Decl("p", Addr(v)))
					e = Deref(Vr("p", Ptr(t)))
				case "derefcall":
					e = Deref(CallF(pid, Addr(v)))
				case "const", "globalconst":
					var vs []*E
					if t == TStr {
						vs = []*E{Str("k")}
					} else {
						vs = fewLits(t)[1:2]
					}
					if form == "const" {
						in = SS(ConstD("c", vs[0]))
					} else {
						g.Globals = SS(ConstD("c", vs[0]))
					}
					e = Vr("c", t)
				case "assignfirst":
					in = SS(Decl("z", w), Set(Vr("z", t), v))
					e = Vr("z", t)
				case "multi":
					in = SS(DeclM([]string{"m", "n"}, w, v))
					e = Vr("n", t)
				}
				f := fnOf("f", nil, P("v", t, "w", t), append(in, Print(Str("<"), e, Str(">"), e, e), nl())...)
				g.Fns = append(g.Fns, f)
				var m []*St
				var vs []*E
				if t == TStr {
					vs = []*E{Str("x"), Str(""), Str("%")}
				} else {
					vs = fewLits(t)
				}
				for i := range vs {
					if form == "neg" && t.K == KInt && signed(vs[i].U, t.Bits) == -1<<uint(t.Bits-1) {
						continue
					}
					m = append(m, Ex(CallF(f, vs[i], vs[(i+1)%len(vs)])))
				}
				g.Fns = append(g.Fns, mainFn(m...))
				return g
			})
		}
	}
}

// genPrintNames: a struct or a union is printed as its name.
func genPrintNames(x *Enum) {
	for _, kind := range []string{"struct", "union"} {
		for _, n := range []string{"A", "Abc", "print", "main", "_x", "T1", "i33"} {
			for _, use := range []string{"var", "elem", "field", "deref", "param", "call", "heap"} {
				kind, n, use := kind, n, use
				if n == "print" {
					if use != "var" {
						continue
					}
				}
				x.Case(k("name:%s:%s:%s", kind, n, use), func() Case {
					src := fmt.Sprintf("%s %s {\n  x i32\n  y i64\n}\nstruct Holder {\n  q i8\n  v %s\n}\n", kind, n, n)
					body := fmt.Sprintf("  h := @alloc(%s, 2);\n  h[0].x = 3;\n  h[1].x = 4;\n  v := h[0];\n", n)
					e := map[string]string{"var": "v", "elem": "h[1]", "deref": "*p", "call": "mk(v)", "heap": "h[0]"}[use]
					switch use {
					case "deref":
						body += "  p := &v;\n"
					case "call":
						src += fmt.Sprintf("func mk(v %s) %s { return v; }\n", n, n)
					case "param":
						src += fmt.Sprintf("func show(v %s) { @print(1, v, \"end\"); }\n", n)
						return Case{Kind: KRun, Src: src + "func main() {\n" + body + "  show(v);\n}\n", Want: "1 " + n + " end"}
					case "field":
						body += "  a := @alloc(Holder, 1);\n  a[0].v = v;\n"
						e = "a[0].v"
					}
					return Case{Kind: KRun, Src: src + "func main() {\n" + body + "  @print(1, " + e + ", \"end\");\n  @print(v);\n}\n", Want: "1 " + n + " end" + n}
				})
			}
		}
	}
	// a name that looks like a format, next to values of every type
	fm := []struct{ t, v, w string }{{"i8", "-8 as i8", "-8"}, {"i16", "-9 as i16", "-9"}, {"i32", "-10", "-10"}, {"i64", "-11 as i64", "-11"}, {"u8", "250 as u8", "250"}, {"u16", "65000 as u16", "65000"}, {"u32", "12 as u32", "12"}, {"u64", "13 as u64", "13"},
		{"f32", "1.5", "1.500"}, {"f64", "2.5 as f64", "2.500"}, {"i1", "1 as i1", "1"}, {"*i8", "\"st\"", "st"}, {"*i16", "(4096 as i64) as *i16", "0x1000"}}
	for _, kind := range []string{"struct", "union"} {
		for _, n := range []string{"d", "s", "u", "p", "c", "f", "hhd", "hd", "lld", "hhu", "hu", "llu", "ld", "lf", "i", "x", "n", "string", "format", "printf", "hhd2"} {
			for vi, v := range fm {
				kind, n, v, vi := kind, n, v, vi
				x.Case(k("formatname:%s:%s:%s", kind, n, v.t), func() Case {
					src := fmt.Sprintf("%s %s {\n  x i32\n  y i64\n}\nfunc before(n %s, e %s) { @print(n, e, n); }\nfunc after(n %s, e %s) { @print(e, n, e); }\nfunc main() {\n  h := @alloc(%s, 1);\n  h[0].x = 3;\n  e := h[0];\n  n := %s;\n§", kind, n, v.t, n, v.t, n, n, v.v)
					// each printed alone, in both orders
					alone, wa := "  @print(n);\n  @print(e);\n", v.w+n
					if vi%2 == 1 {
						alone, wa = "  @print(e);\n  @print(n);\n  @print(e);\n", n+v.w+n
					}
					src = strings.Replace(src, "§", alone, 1)
					src += "  before(n, e);\n  after(n, e);\n  @print(\"" + n + "\", n, \"%" + n + "\", e);\n}\n"
					return Case{Kind: KRun, Src: src, Want: wa + fmt.Sprintf("%s %s %s%s %s %s%s %s %%%s %s", v.w, n, v.w, n, v.w, n, n, v.w, n, n)}
				})
			}
		}
	}
	// the address of a pointer to anything but a character
	for _, t := range []string{"i1", "i16", "i32", "i64", "u16", "u32", "u64", "f32", "f64", "PA", "PB", "*i8", "**i8", "*PA", "[2]i8", "[3]i32", "func() i32"} {
		for _, form := range []string{"cast", "var", "param", "call", "field", "elem", "heap", "deref"} {
			t, form := t, form
			x.Case(k("pointer:%s:%s", t, form), func() Case {
				src := "struct PA {\n  x i32\n}\nunion PB {\n  x i8\n}\ntype PT = *" + t + ";\nstruct PH {\n  q i8\n  v PT\n}\nfunc id(v PT) PT { return v; }\nfunc show(v PT) { @print(1, v, \"end\"); }\nfunc main() {\n"
				v := "((4096 as i64) as *" + t + ")"
				switch form {
				case "var":
					src += "  v := " + v + ";\n"
					v = "v"
				case "param":
					return Case{Kind: KRun, Src: src + "  show(" + v + ");\n}\n", Want: "1 0x1000 end"}
				case "call":
					v = "id(" + v + ")"
				case "field":
					src += "  v := @PH{q: 1 as i8, v: " + v + "};\n"
					v = "v.v"
				case "elem":
					src += "  v := [2]PT{" + v + ", " + v + "};\n"
					v = "v[1]"
				case "heap":
					src += "  v := @alloc(PT, 2);\n  v[1] = " + v + ";\n"
					v = "v[1]"
				case "deref":
					src += "  w := " + v + ";\n  v := &w;\n"
					v = "*v"
				}
				return Case{Kind: KRun, Src: src + "  @print(1, " + v + ", \"end\");\n}\n", Want: "1 0x1000 end"}
			})
		}
	}
	x.Case("noargs", func() Case { return Case{Kind: KRun, Src: "func main() { @print(); @print(1); @print(); }", Want: "1"} })
}

type aliasTy struct {
	t, a, b string // the type and two values
	show    string // what prints a value
	pa, pb  string // and what it prints
	size    int
	num     bool
}

const aliasDecls = `struct AS {
  x i32
  y i64
}
union AU {
  x i64
  y i8
}
func inc(v i32) i32 { return v + 1; }
func dec(v i32) i32 { return v - 1; }
func mkas(n i32) AS { return @AS{x: n, y: 5 as i64}; }
func mkau(n i64) AU { h := @alloc(AU, 1); h[0].x = n; return h[0]; }
func cell(n i32) *i32 { h := @alloc(i32, 1); h[0] = n; return h; }
func pas(n i32) *AS { h := @alloc(AS, 1); h[0].x = n; return h; }
`

// Every «» is a type position.
const aliasProg = `struct H {
  q i8
  v «»
  p *«»
}
union U {
  v «»
  z i8
}
func id(p «») «» { return p; }
func two(a «», b «») («», «») { return b, a; }
func ptr(p *«») *«» { return p; }
g : func(«») «» = id;
func main() {
  x : «» = %A;
  y := %B;
  arr := [2]«»{x, y};
  s := @H{q: 1 as i8, v: id(y), p: &x};
  h := @alloc(«», 2);
  h[1] = g(y);
  h[0] = *s.p;
  q : *«» = &y;
  f := func(a «») «» { b : «» = a; return b; };
  e := :«» { return f(*q); };
  m, n : («», «») = two(x, e);
  u := @alloc(U, 1);
  u[0].v = m;
  x = *ptr(&y);
  y = arr[0];
  @print(%x, %y, "|");
  @print(%arr[0], %arr[1], "|");
  @print(%s.v, %h[0], %h[1], "|");
  @print(%e, %m, %n, "|");
  w := u[0].v;
  @print(%w, @sizeof(«»));
}
`

func genAliases(x *Enum) {
	types := []aliasTy{
		{"i8", "(7 as i8)", "(-3 as i8)", "$", "7", "-3", 1, true}, {"i16", "(7 as i16)", "(-3 as i16)", "$", "7", "-3", 2, true}, {"i32", "7", "(-3)", "$", "7", "-3", 4, true},
		{"i64", "(7 as i64)", "(-3 as i64)", "$", "7", "-3", 8, true}, {"u8", "(7 as u8)", "(250 as u8)", "$", "7", "250", 1, true}, {"u16", "(7 as u16)", "(65000 as u16)", "$", "7", "65000", 2, true},
		{"u32", "(7 as u32)", "(3000000000 as u32)", "$", "7", "3000000000", 4, true}, {"u64", "(7 as u64)", "(3000000000 as u64)", "$", "7", "3000000000", 8, true},
		{"f32", "1.5", "(-2.25)", "$", "1.500", "-2.250", 4, true}, {"f64", "(1.5 as f64)", "(-2.25 as f64)", "$", "1.500", "-2.250", 8, true}, {"i1", "(1 as i1)", "(0 as i1)", "$", "1", "0", 1, true},
		{"*i8", "\"one\"", "\"two\"", "$", "one", "two", 8, false}, {"*i32", "cell(4)", "cell(5)", "$[0]", "4", "5", 8, false},
		{"AS", "mkas(8)", "mkas(9)", "$.x", "8", "9", 16, false}, {"*AS", "pas(8)", "pas(9)", "$.x", "8", "9", 8, false}, {"AU", "mkau(8 as i64)", "mkau(9 as i64)", "$.x", "8", "9", 8, false},
		{"[3]i16", "[3]i16{1 as i16, 2 as i16, 3 as i16}", "[3]i16{4 as i16, 5 as i16, 6 as i16}", "$[2]", "3", "6", 6, false},
		{"[2]AS", "[2]AS{mkas(1), mkas(2)}", "[2]AS{mkas(3), mkas(4)}", "$[1].x", "2", "4", 32, false},
		{"func(i32) i32", "inc", "dec", "$(10)", "11", "9", 8, false},
	}
	npos := strings.Count(aliasProg, "«»")
	// the types of fields have to be known when the type is declared
	nfields := strings.Count(aliasProg[:strings.Index(aliasProg, "func id")], "«»")
	for _, t := range types {
		prog := func(names []string, after bool) Case {
			var b strings.Builder
			if after {
				for i := 0; i < nfields; i++ {
					names[i] = t.t
				}
			}
			parts := strings.Split(aliasProg, "«»")
			for i, p := range parts {
				b.WriteString(p)
				if i < len(names) {
					b.WriteString(names[i])
				}
			}
			src := b.String()
			for _, n := range []string{"x", "y", "arr[0]", "arr[1]", "s.v", "h[0]", "h[1]", "e", "m", "n", "w"} {
				src = strings.ReplaceAll(src, "%"+n, strings.ReplaceAll(t.show, "$", n))
			}
			src = strings.ReplaceAll(strings.ReplaceAll(src, "%A", t.a), "%B", t.b)
			decl := "type Al1 = " + t.t + ";\ntype Al2 = Al1;\n"
			if after {
				src = aliasDecls + src + decl
			} else {
				src = aliasDecls + decl + src
			}
			A, B := t.pa, t.pb
			// x = B, y = A, arr = A B, s.v = B, h = A B, e = B, m, n = two(A, B) = B, A, w = B
			want := fmt.Sprintf("%s %s |%s %s |%s %s %s |%s %s %s |%s %d", B, A, A, B, B, A, B, B, B, A, B, t.size)
			return Case{Kind: KRun, Src: src, Want: want}
		}
		names := func() []string {
			var r []string
			for i := 0; i < npos; i++ {
				r = append(r, t.t)
			}
			return r
		}
		t := t
		x.Case(k("alias:%s:none", t.t), func() Case { return prog(names(), false) })
		for _, after := range []bool{false, true} {
			after, first := after, 0
			if after {
				first = nfields
			}
			for _, al := range []string{"Al1", "Al2"} {
				al := al
				x.Case(k("alias:%s:all:%s:%v", t.t, al, after), func() Case {
					n := names()
					for i := range n {
						n[i] = al
					}
					return prog(n, after)
				})
				for i := first; i < npos; i++ {
					i := i
					x.Case(k("alias:%s:one:%d:%s:%v", t.t, i, al, after), func() Case {
						n := names()
						n[i] = al
						return prog(n, after)
					})
					x.Case(k("alias:%s:allbut:%d:%s:%v", t.t, i, al, after), func() Case {
						n := names()
						for j := range n {
							n[j] = al
						}
						n[i] = t.t
						return prog(n, after)
					})
				}
			}
			for i := first; i < npos; i++ {
				for j := first; j < npos; j++ {
					if i == j {
						continue
					}
					i, j := i, j
					x.Case(k("alias:%s:two:%d:%d:%v", t.t, i, j, after), func() Case {
						n := names()
						n[i], n[j] = "Al1", "Al2"
						return prog(n, after)
					})
				}
			}
		}
	}
}
