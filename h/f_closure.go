package main

// C17: function values and anonymous functions.

func init() {
	register(&Family{
		ID:        "C17",
		Technique: "exhaustive enumeration of captures, homes of function values, method calls and sequences of operations on function variables, against a reference interpreter",
		Rule: "Every anonymous function that captures 1 to 6 variables of 14 types, from locals, parameters, loop variables, inner blocks and outer captures, nested up to depth 4, called before and after the captured variables change; every home of a function value (variable, parameter, result, field, element, heap, pointer, global, another capture) x 6 origins x 10 signatures; " +
			"every receiver form x 16 receiver types x 0 to 6 more arguments for method calls and chains of up to 4; every sequence of 3 (4 in the thorough tier) of 14 operations on function variables, fields and elements.",
		Note: "Assignments to captured variables and creating the same anonymous function twice are not specified and are left out.",
		Gen:  func(x *Enum) { genClosure(x); genLambdaLoops(x); genWide(x, "C17") },
	})
}

func genClosure(x *Enum) {
	genCapture(x)
	genHomes(x)
	genMethods(x)
	genFnOps(x)
	genHigher(x)
}

func genCapture(x *Enum) {
	types := multiTypes()
	for ti, t := range types {
		for n := 1; n <= 6; n++ {
			for depth := 1; depth <= 4; depth++ {
				for _, from := range []string{"local", "param", "loop", "block", "mixed", "if"} {
					if n > 3 && depth > 2 && from != "local" {
						continue
					}
					ti, t, n, depth, from := ti, t, n, depth, from
					x.Prog(k("capture:%s:%d:%d:%s", t, n, depth, from), func() *Pg {
						ty := func(i int) *Ty {
							if from == "mixed" {
								return types[(ti+i*3)%len(types)]
							}
							return t
						}
						var show []*St
						for i := 0; i < n; i++ {
							show = append(show, linesOf(leaves(Vr(k("v%d", i), ty(i))))...)
						}
						// the innermost function shows what it captured; every level has a variable of its own
						var body []*St
						body = append(body, show...)
						for d := 1; d < depth; d++ {
							body = append(body, Print(V32(k("own%d", d)), Str(";")))
						}
						body = append(body, Ret(N32(int64(100+n))))
						lam := Lam(&Fn{Rs: R(TI32), Body: body})
						for d := depth - 1; d >= 1; d-- {
							lam = Lam(&Fn{Rs: R(TI32), Body: SS(Decl(k("own%d", d), N32(int64(d*10))), Decl(k("in%d", d), lam), Ret(Bin("+", Call(Vr(k("in%d", d), lam.T)), N32(1000))))})
						}
						var change []*St
						for i := 0; i < n; i++ {
							change = append(change, Set(Vr(k("v%d", i), ty(i)), mkval(ty(i), 80+i)))
						}
						use := SS(Decl("f", lam), Line(Call(Vr("f", lam.T))))
						use = append(use, change...)
						use = append(use, Line(Call(Vr("f", lam.T))))
						use = append(use, show...)
						g := &Pg{Types: []*Ty{callSt, callBig}}
						var decls []*St
						var ps []Fld
						var args []*E
						for i := 0; i < n; i++ {
							decls = append(decls, Decl(k("v%d", i), mkval(ty(i), 7*i+1)))
							ps = append(ps, Fld{k("v%d", i), ty(i)})
							args = append(args, mkval(ty(i), 7*i+1))
						}
						switch from {
						case "param":
							f := fnOf("outer", nil, ps, use...)
							g.Fns = []*Fn{f, mainFn(Ex(CallF(f, args...)))}
						case "loop":
							// the loop runs once: an anonymous function is created once
							in := append(append([]*St{}, decls...), use...)
							g.Fns = []*Fn{mainFn(ForI(Decl("i", N32(0)), Bin("<", V32("i"), N32(1)), Set(V32("i"), Bin("+", V32("i"), N32(1))), in...))}
						case "block":
							g.Fns = []*Fn{mainFn(append(decls, Blk(use...))...)}
						case "if":
							g.Fns = []*Fn{mainFn(append(decls, Decl("w", N32(3)), If(Bin("==", V32("w"), N32(3)), SS(Blk(use...))))...)}
						default:
							g.Fns = []*Fn{mainFn(append(decls, use...)...)}
						}
						return g
					})
				}
			}
		}
	}
}

type fnSig struct {
	n  string
	ps []*Ty
	r  *Ty
}

func sigs() []fnSig {
	return []fnSig{
		{"v", nil, nil},
		{"i", nil, TI32},
		{"ii", []*Ty{TI32}, TI32},
		{"i8", []*Ty{TI8, TI64}, TI8},
		{"s", []*Ty{TStr}, TStr},
		{"st", []*Ty{callSt}, callSt},
		{"f", []*Ty{TF32, TF64}, TF64},
		{"a", []*Ty{Arr(3, TI16), TI32}, Arr(3, TI16)},
		{"big", []*Ty{TI32, callBig, TU8}, callBig},
		{"four", []*Ty{TI32, TI8, TStr, TU64}, TU64},
	}
}

// fnBody prints the parameters and returns one of them (or 42).
func (s fnSig) fn(name, tag string, extra *E) *Fn {
	f := &Fn{Name: name}
	b := SS(Print(Str(tag)))
	var ret *E
	for i, p := range s.ps {
		n := k("p%d", i)
		f.Ps = append(f.Ps, Fld{n, p})
		b = append(b, linesOf(leaves(Vr(n, p)))...)
		if s.r != nil && sameTy(p, s.r) {
			ret = Vr(n, p)
		}
	}
	if extra != nil {
		b = append(b, Print(extra, Str("!")))
	}
	if s.r != nil {
		f.Rs = R(s.r)
		if ret == nil {
			ret = mkval(s.r, 42)
		}
		b = append(b, Ret(ret))
	}
	f.Body = b
	return f
}

func (s fnSig) args(n int) (r []*E) {
	for i, p := range s.ps {
		r = append(r, mkval(p, n+i*3))
	}
	return
}

// useOf calls and prints.
func (s fnSig) useOf(f *E, n int, tmp string) []*St {
	c := Call(f, s.args(n)...)
	if s.r == nil {
		return SS(Ex(c), nl())
	}
	return append(SS(Decl(tmp, c)), linesOf(leaves(Vr(tmp, s.r)))...)
}

func genHomes(x *Enum) {
	origins := []string{"named", "lambda", "capture", "capture2", "viavar", "declared"}
	homes := []string{"var", "typed", "param", "result", "field", "ptrfield", "elem", "elemvar", "heap", "ptr", "global", "captured", "nestedfield", "direct", "block", "swap", "paramcall"}
	for _, s := range sigs() {
		for _, o := range origins {
			for _, h := range homes {
				s, o, h := s, o, h
				if h == "direct" && s.r == nil && (o == "lambda" || o == "capture" || o == "capture2") {
					continue // a statement that starts with func is a declaration
				}
				x.Prog(k("home:%s:%s:%s", s.n, o, h), func() *Pg {
					named := s.fn("named", "n", nil)
					other := s.fn("other", "o", nil)
					ft := named.ty()
					g := &Pg{Types: []*Ty{callSt, callBig}, Fns: []*Fn{named, other}}
					var b []*St
					var src *E
					switch o {
					case "named":
						src = Vr("named", ft)
					case "lambda":
						src = Lam(s.fn("", "l", nil))
					case "capture":
						b = append(b, Decl("cap", N32(77)))
						src = Lam(s.fn("", "c", V32("cap")))
					case "capture2":
						b = append(b, Decl("cs", Str("cap")), Decl("cn", Iv(TI64, 9)))
						src = Lam(s.fn("", "d", Vr("cs", TStr)))
					case "viavar":
						b = append(b, Decl("via", Vr("named", ft)))
						src = Vr("via", ft)
					case "declared":
						b = append(b, DeclT("via", ft, Vr("other", ft)), Set(Vr("via", ft), Vr("named", ft)))
						src = Vr("via", ft)
					}
					use := func(f *E, n int, tmp string) { b = append(b, s.useOf(f, n, tmp)...) }
					hs := StructT("HS", P("q", TI8, "fn", ft, "z", TI8)...)
					hh := StructT("HH", P("q", TI8, "in", hs)...)
					mk := func(e *E) *E {
						return StructL(hs, []string{"q", "fn", "z"}, Iv(TI8, 1), e, Iv(TI8, 2))
					}
					switch h {
					case "var":
						b = append(b, Decl("f", src))
						use(Vr("f", ft), 1, "r")
						use(Vr("f", ft), 20, "r2")
					case "typed":
						b = append(b, DeclT("f", ft, src))
						use(Vr("f", ft), 1, "r")
					case "param":
						ap := fnOf("ap", nil, P("f", ft), s.useOf(Vr("f", ft), 5, "r")...)
						g.Fns = append(g.Fns, ap)
						b = append(b, Ex(CallF(ap, src)), Ex(CallF(ap, Vr("other", ft))))
					case "paramcall":
						fw := fnOf("fw", R(ft), P("f", ft), Ret(Vr("f", ft)))
						g.Fns = append(g.Fns, fw)
						use(CallF(fw, src), 5, "r")
					case "result":
						mkf := fnOf("mkf", R(ft), nil, append(b, Ret(src))...)
						g.Fns = append(g.Fns, mkf)
						b = SS(Decl("f", CallF(mkf)))
						use(Vr("f", ft), 3, "r")
					case "field":
						g.Types = append(g.Types, hs)
						b = append(b, Decl("s", mk(src)))
						use(Field(Vr("s", hs), "fn"), 2, "r")
						b = append(b, Set(Field(Vr("s", hs), "fn"), Vr("other", ft)))
						use(Field(Vr("s", hs), "fn"), 6, "r2")
					case "ptrfield":
						g.Types = append(g.Types, hs)
						b = append(b, Decl("s", mk(src)), Decl("p", Addr(Vr("s", hs))))
						use(Field(Vr("p", Ptr(hs)), "fn"), 2, "r")
						b = append(b, Set(Field(Vr("p", Ptr(hs)), "fn"), Vr("other", ft)))
						use(Field(Vr("s", hs), "fn"), 6, "r2")
					case "nestedfield":
						g.Types = append(g.Types, hs, hh)
						b = append(b, Decl("s", StructL(hh, []string{"q", "in"}, Iv(TI8, 1), mk(src))))
						use(Field(Field(Vr("s", hh), "in"), "fn"), 2, "r")
					case "elem":
						at := Arr(3, ft)
						b = append(b, Decl("a", ArrL(at, Vr("other", ft), src, Vr("named", ft))))
						for i := 0; i < 3; i++ {
							use(Idx(Vr("a", at), N32(int64(i))), i*4, k("r%d", i))
						}
					case "elemvar":
						at := Arr(2, ft)
						b = append(b, Decl("a", ArrL(at, src, Vr("other", ft))))
						b = append(b, ForI(Decl("i", N32(0)), Bin("<", V32("i"), N32(2)), Set(V32("i"), Bin("+", V32("i"), N32(1))), s.useOf(Idx(Vr("a", at), V32("i")), 4, "r")...))
					case "heap":
						b = append(b, Decl("p", Alloc(ft, N32(2))), Set(Idx(Vr("p", Ptr(ft)), N32(0)), Vr("other", ft)), Set(Idx(Vr("p", Ptr(ft)), N32(1)), src))
						use(Idx(Vr("p", Ptr(ft)), N32(1)), 2, "r")
						use(Idx(Vr("p", Ptr(ft)), N32(0)), 2, "r2")
					case "ptr":
						b = append(b, Decl("f", src), Decl("p", Addr(Vr("f", ft))))
						use(Par(Deref(Vr("p", Ptr(ft)))), 2, "r")
						b = append(b, Set(Deref(Vr("p", Ptr(ft))), Vr("other", ft)))
						use(Vr("f", ft), 4, "r2")
					case "global":
						g.Globals = SS(Decl("gf", Vr("other", ft)))
						b = append(b, Set(Vr("gf", ft), src))
						caller := fnOf("caller", nil, nil, s.useOf(Vr("gf", ft), 8, "r")...)
						g.Fns = append(g.Fns, caller)
						b = append(b, Ex(CallF(caller)))
					case "captured":
						b = append(b, Decl("f", src))
						outer := Lam(&Fn{Body: s.useOf(Vr("f", ft), 3, "r")})
						b = append(b, Decl("g", outer), Set(Vr("f", ft), Vr("other", ft)), Ex(Call(Vr("g", outer.T))))
						use(Vr("f", ft), 3, "r2")
					case "direct":
						if src.Op == "var" {
							src = Par(src)
						}
						use(src, 3, "r")
					case "block":
						b = append(b, Decl("f", BlkE(ft, Ret(src))))
						use(Vr("f", ft), 3, "r")
					case "swap":
						b = append(b, Decl("f", src), Decl("h", Vr("other", ft)), SetM([]*E{Vr("f", ft), Vr("h", ft)}, Vr("h", ft), Vr("f", ft)))
						use(Vr("f", ft), 3, "r")
						use(Vr("h", ft), 3, "r2")
					}
					g.Fns = append(g.Fns, mainFn(b...))
					return g
				})
			}
		}
	}
}

func genMethods(x *Enum) {
	types := append(multiTypes(), Ptr(callSt), Ptr(TI32))
	extra := []*Ty{TI32, TStr, callSt, TF64, TI8, Arr(3, TI16)}
	w := func(t *Ty) *Ty { return StructT("H", P("q", TI8, "m", t)...) }
	show := func(e *E) []*E {
		if e.T.K == KPtr && e.T.El.K == KStruct {
			return leaves(Deref(e))
		}
		return callShow(e)
	}
	valOf := func(t *Ty, n int) *E {
		if t.K == KPtr && t.El.K == KStruct {
			return Addr(Vr("scell", callSt))
		}
		return callVal(t, n)
	}
	recvs := []string{"var", "field", "elem", "deref", "call", "par", "ptrfield", "callfield", "chain2", "chain3", "chain4", "heap", "fnvar"}
	for _, t := range types {
		for n := 0; n <= 6; n++ {
			for _, rv := range recvs {
				t, n, rv := t, n, rv
				x.Prog(k("method:%s:%d:%s", t, n, rv), func() *Pg {
					ps := []Fld{{"self", t}}
					b := SS()
					var args []*E
					b = append(b, linesOf(show(Vr("self", t)))...)
					for i := 0; i < n; i++ {
						e := extra[i%len(extra)]
						ps = append(ps, Fld{k("p%d", i), e})
						b = append(b, linesOf(leaves(Vr(k("p%d", i), e)))...)
						args = append(args, mkval(e, i*5))
					}
					f := fnOf("meth", R(t), ps, append(b, Ret(Vr("self", t)))...)
					mk := fnOf("mk", R(t), P("n", t), Ret(Vr("n", t)))
					h := w(t)
					mkh := fnOf("mkh", R(h), P("n", t), Ret(StructL(h, []string{"q", "m"}, Iv(TI8, 1), Vr("n", t))))
					g := &Pg{Types: []*Ty{callSt, callBig, h}, Fns: []*Fn{f, mk, mkh}}
					mb := SS(Decl("cell", N32(5)), Decl("scell", mkval(callSt, 4)), Decl("v", valOf(t, 3)))
					v := Vr("v", t)
					call := func(e *E) *E { return MCall(f, append([]*E{e}, args...)...) }
					var c *E
					switch rv {
					case "var":
						c = call(v)
					case "field":
						mb = append(mb, Decl("s", StructL(h, []string{"q", "m"}, Iv(TI8, 1), v)))
						c = call(Field(Vr("s", h), "m"))
					case "ptrfield":
						mb = append(mb, Decl("s", StructL(h, []string{"q", "m"}, Iv(TI8, 1), v)), Decl("p", Addr(Vr("s", h))))
						c = call(Field(Vr("p", Ptr(h)), "m"))
					case "elem":
						mb = append(mb, Decl("a", ArrL(Arr(2, t), v, v)))
						c = call(Idx(Vr("a", Arr(2, t)), N32(1)))
					case "deref":
						mb = append(mb, Decl("p", Addr(v)))
						c = call(Deref(Vr("p", Ptr(t))))
					case "heap":
						mb = append(mb, Decl("p", Alloc(t, N32(2))), Set(Idx(Vr("p", Ptr(t)), N32(1)), v))
						c = call(Idx(Vr("p", Ptr(t)), N32(1)))
					case "call":
						c = call(CallF(mk, v))
					case "callfield":
						c = call(Field(CallF(mkh, v), "m"))
					case "par":
						c = call(Par(v))
					case "chain2":
						c = call(call(v))
					case "chain3":
						c = call(call(call(v)))
					case "chain4":
						c = call(MCall(mk, call(MCall(mk, v))))
					case "fnvar":
						// a variable with the name of a field function stays a field
						hf := StructT("HF", P("q", TI8, "meth", f.ty())...)
						g.Types = append(g.Types, hf)
						mb = append(mb, Decl("s", StructL(hf, []string{"q", "meth"}, Iv(TI8, 1), Vr("meth", f.ty()))))
						c = Call(Field(Vr("s", hf), "meth"), append([]*E{v}, args...)...)
					}
					mb = append(mb, Decl("r", c))
					mb = append(mb, linesOf(show(Vr("r", t)))...)
					g.Fns = append(g.Fns, mainFn(mb...))
					return g
				})
			}
		}
	}
}

func genFnOps(x *Enum) {
	ft := FuncT(TI32, TI32)
	f, h := Vr("f", ft), Vr("h", ft)
	at := Arr(2, ft)
	a := Vr("a", at)
	hs := StructT("FS", P("q", TI32, "fn", ft)...)
	s := Vr("s", hs)
	xv := V32("x")
	one := fnOf("one", R(TI32), P("n", TI32), Ret(Bin("+", V32("n"), N32(1))))
	dbl := fnOf("dbl", R(TI32), P("n", TI32), Ret(Bin("*", V32("n"), N32(2))))
	pick := fnOf("pick", R(ft), P("c", TI32, "l", ft, "r", ft), If(Bin(">", V32("c"), N32(10)), SS(Ret(Vr("l", ft)))), Ret(Vr("r", ft)))
	n := V32("n")
	lam := func(e func() *E) *E { return Lam(&Fn{Ps: P("n", TI32), Rs: R(TI32), Body: SS(Ret(e()))}) }
	ops := []func() *St{
		func() *St { return Set(f, Vr("dbl", ft)) },
		func() *St { return Set(f, lam(func() *E { return Bin("+", n, xv) })) },
		func() *St { return Set(xv, Bin("+", xv, N32(7))) },
		func() *St { return Set(h, f) },
		func() *St { return Set(h, lam(func() *E { return Bin("-", Call(f, n), N32(3)) })) },
		func() *St { return SetM([]*E{f, h}, h, f) },
		func() *St { return Set(Idx(a, N32(1)), f) },
		func() *St { return Set(f, Idx(a, N32(0))) },
		func() *St { return Set(Field(s, "fn"), h) },
		func() *St { return Set(f, Field(s, "fn")) },
		func() *St { return Set(xv, Call(f, xv)) },
		func() *St {
			return Set(Idx(a, N32(0)), lam(func() *E { return Bin("*", Call(Field(s, "fn"), n), xv) }))
		},
		func() *St { return Set(h, CallF(pick, xv, f, Vr("one", ft))) },
		func() *St { return Set(xv, Call(Idx(a, N32(1)), Field(s, "q"))) },
	}
	state := func() *St {
		return Line(xv, Call(f, N32(3)), Call(h, N32(4)), Call(Idx(a, N32(0)), N32(5)), Call(Idx(a, N32(1)), N32(6)), Call(Field(s, "fn"), N32(7)))
	}
	depth := x.Pick(3, 4)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for c := 0; c < total; c++ {
		c := c
		x.Prog(k("fnops:%d", c), func() *Pg {
			b := SS(Decl("x", N32(2)), Decl("f", Vr("one", ft)), Decl("h", Vr("dbl", ft)), Decl("a", ArrL(at, Vr("dbl", ft), Vr("one", ft))),
				Decl("s", StructL(hs, []string{"q", "fn"}, N32(9), Vr("one", ft))))
			for i, v := 0, c; i < depth; i++ {
				b = append(b, ops[v%len(ops)](), state())
				v /= len(ops)
			}
			return &Pg{Types: []*Ty{hs}, Fns: []*Fn{one, dbl, pick, mainFn(b...)}}
		})
	}
}

// genHigher: map, filter and fold written in the language.
func genHigher(x *Enum) {
	ft := FuncT(TI32, TI32)
	ft2 := FuncT(TI32, TI32, TI32)
	fb := FuncT(TI1, TI32)
	for n := 1; n <= 6; n++ {
		for c := 0; c <= 3; c++ {
			n, c := n, c
			x.Prog(k("higher:%d:%d", n, c), func() *Pg {
				pt := Ptr(TI32)
				p, i, ln := Vr("p", pt), V32("i"), V32("n")
				loop := func(b ...*St) *St {
					return ForI(Decl("i", N32(0)), Bin("<", i, ln), Set(i, Bin("+", i, N32(1))), b...)
				}
				mp := fnOf("map", R(pt), P("p", pt, "n", TI32, "f", ft), Decl("r", Alloc(TI32, ln)), loop(Set(Idx(Vr("r", pt), i), Call(Vr("f", ft), Idx(p, i)))), Ret(Vr("r", pt)))
				fold := fnOf("fold", R(TI32), P("p", pt, "n", TI32, "z", TI32, "f", ft2), loop(Set(V32("z"), Call(Vr("f", ft2), V32("z"), Idx(p, i)))), Ret(V32("z")))
				filter := fnOf("filter", R(TI32), P("p", pt, "n", TI32, "f", fb), Decl("k", N32(0)), loop(If(Call(Vr("f", fb), Idx(p, i)), SS(Set(V32("k"), Bin("+", V32("k"), Idx(p, i)))))), Ret(V32("k")))
				at := Arr(n, TI32)
				var es []*E
				for j := 0; j < n; j++ {
					es = append(es, N32(int64(j*j+c)))
				}
				y := V32("y")
				b := SS(Decl("a", ArrL(at, es...)), Decl("c", N32(int64(c))), Decl("p", Cast(pt, Vr("a", at))),
					Decl("q", CallF(mp, p, N32(int64(n)), Lam(&Fn{Ps: P("y", TI32), Rs: R(TI32), Body: SS(Ret(Bin("+", Bin("*", y, V32("c")), N32(1))))}))),
					Line(CallF(fold, Vr("q", pt), N32(int64(n)), N32(c2(c)), Lam(&Fn{Ps: P("s", TI32, "y", TI32), Rs: R(TI32), Body: SS(Ret(Bin("+", Bin("*", V32("s"), N32(3)), y)))}))),
					Line(CallF(filter, p, N32(int64(n)), Lam(&Fn{Ps: P("y", TI32), Rs: R(TI1), Body: SS(Ret(Bin(">", y, V32("c"))))}))),
				)
				if n > 1 {
					b = append(b, Line(MCall(fold, MCall(mp, p, N32(int64(n)), Lam(&Fn{Ps: P("y", TI32), Rs: R(TI32), Body: SS(Ret(Neg(y)))})), N32(2), N32(0), Lam(&Fn{Ps: P("s", TI32, "y", TI32), Rs: R(TI32), Body: SS(Ret(Bin("-", V32("s"), y)))}))))
				}
				return pg(mp, fold, filter, mainFn(b...))
			})
		}
	}
}

func c2(c int) int64 { return int64(c * 2) }
