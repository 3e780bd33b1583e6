package main

// C26: a call passes every argument to its parameter by value and gives the
// result of the function.

func init() {
	register(&Family{
		ID:        "C26",
		Technique: "exhaustive enumeration of signatures, call shapes and recursion patterns against a reference interpreter",
		Rule: "Every signature of at most 2 parameters over 13 types with every result type, of 3 over 7 (3 over 13 and 4 over 7 in the thorough tier), and rotations of up to 9 parameters: the function prints its parameters, changes all of them and returns one, the caller prints the result and its unchanged variables; " +
			"arguments come from literals, variables, fields, elements, dereferenced pointers, other calls and expressions; results are used as values, operands, arguments, fields, elements, conditions and discarded; " +
			"every recursion scheme of depth at most 6 on one or two functions with 1 to 3 self calls, locals that live across the calls, and structs and arrays as parameters; all call graphs of 3 functions.",
		Note: "Bounded by the number of parameters and the depth of the recursion.",
		Gen:  func(x *Enum) { genCalls(x); genWide(x, "C26") },
	})
}

var callSt = StructT("T", P("x", TI8, "y", TI64, "z", TF32)...)
var callBig = StructT("G", P("a", TI64, "b", Arr(3, TI32), "c", callSt)...)
var callUn = UnionT("N", P("i", TI64, "b", TI8)...)

func callTypes() []*Ty {
	return []*Ty{TI32, TF32, TI8, callSt, TStr, TI64, Arr(3, TI16), TF64, TU8, TU64, Ptr(TI32), callBig, TI1}
}

// callVal is a value of a parameter; pointers point to the global-like local "cell".
func callVal(t *Ty, n int) *E {
	if t.K == KPtr && t.El.K == KInt && t.El.Bits == 32 {
		return Addr(Vr("cell", TI32))
	}
	return mkval(t, n)
}

func callShow(e *E) []*E {
	if e.T.K == KPtr && e.T.El.Bits == 32 {
		return []*E{Deref(e)}
	}
	return leaves(e)
}

func changed(t *Ty, place *E) *St {
	if t.K == KPtr && t.El.Bits == 32 {
		return Set(place, Cast(t, Iv(TI64, 0)))
	}
	return Set(place, mkval(t, 90))
}

func sigProg(ts []*Ty, ret int) *Pg {
	var ps []Fld
	var b []*St
	for i, t := range ts {
		ps = append(ps, Fld{k("p%d", i), t})
	}
	for i, t := range ts {
		b = append(b, linesOf(callShow(Vr(k("p%d", i), t)))...)
	}
	var rs []*Ty
	if ret >= 0 {
		rs = R(ts[ret])
		b = append(b, Decl("res", Vr(k("p%d", ret), ts[ret])))
	}
	for i, t := range ts {
		b = append(b, changed(t, Vr(k("p%d", i), t)))
	}
	if ret >= 0 {
		b = append(b, Ret(Vr("res", ts[ret])))
	}
	f := fnOf("f", rs, ps, b...)
	mb := SS(Decl("cell", N32(5)))
	var args, lit []*E
	for i, t := range ts {
		mb = append(mb, Decl(k("v%d", i), callVal(t, 10*i+1)))
		args = append(args, Vr(k("v%d", i), t))
		lit = append(lit, callVal(t, 10*i+4))
	}
	if ret >= 0 {
		mb = append(mb, Decl("r", CallF(f, args...)), Decl("s", CallF(f, lit...)))
		mb = append(mb, linesOf(callShow(Vr("r", ts[ret])))...)
		mb = append(mb, linesOf(callShow(Vr("s", ts[ret])))...)
	} else {
		mb = append(mb, Ex(CallF(f, args...)), Ex(CallF(f, lit...)))
	}
	for i, t := range ts {
		mb = append(mb, linesOf(callShow(Vr(k("v%d", i), t)))...)
	}
	mb = append(mb, Line(Vr("cell", TI32)))
	return &Pg{Types: []*Ty{callSt, callBig, callUn}, Fns: []*Fn{f, mainFn(mb...)}}
}

func genCalls(x *Enum) {
	all := callTypes()
	var rec func(sel []int, n, m int)
	rec = func(sel []int, n, m int) {
		if n == 0 {
			sel := append([]int{}, sel...)
			for ret := -1; ret < len(sel); ret++ {
				ret := ret
				x.Prog(k("sig:%s:%d", keyOf(sel), ret), func() *Pg {
					var ts []*Ty
					for _, s := range sel {
						ts = append(ts, all[s])
					}
					return sigProg(ts, ret)
				})
			}
			return
		}
		for i := 0; i < m; i++ {
			rec(append(sel, i), n-1, m)
		}
	}
	for n := 0; n <= 2; n++ {
		rec(nil, n, len(all))
	}
	rec(nil, 3, x.Pick(7, len(all)))
	for n := 4; n <= 9; n++ {
		for r := 0; r < len(all); r++ {
			for st := 0; st < 4; st++ {
				for ret := -1; ret < n; ret++ {
					n, r, st, ret := n, r, st, ret
					x.Prog(k("long:%d:%d:%d:%d", n, r, st, ret), func() *Pg {
						var ts []*Ty
						for i := 0; i < n; i++ {
							ts = append(ts, all[(r+i*st)%len(all)])
						}
						return sigProg(ts, ret)
					})
				}
			}
		}
	}
	genCallPlaces(x)
	genRecursion(x)
	genGraphs(x)
	if x.Thorough() {
		rec(nil, 4, 7)
	}
}

// genCallPlaces: where arguments come from and where results go.
func genCallPlaces(x *Enum) {
	type src struct {
		n   string
		pre func(t *Ty) []*St
		e   func(t *Ty) *E
	}
	w := func(t *Ty) *Ty { return StructT("H", P("q", TI8, "m", t)...) }
	srcs := []src{
		{"lit", nil, func(t *Ty) *E { return mkval(t, 3) }},
		{"var", func(t *Ty) []*St { return SS(Decl("v", mkval(t, 3))) }, func(t *Ty) *E { return Vr("v", t) }},
		{"field", func(t *Ty) []*St {
			return SS(Decl("v", StructL(w(t), []string{"q", "m"}, Iv(TI8, 1), mkval(t, 3))))
		}, func(t *Ty) *E { return Field(Vr("v", w(t)), "m") }},
		{"elem", func(t *Ty) []*St { return SS(Decl("v", ArrL(Arr(2, t), mkval(t, 1), mkval(t, 3))), Decl("i", N32(1))) }, func(t *Ty) *E { return Idx(Vr("v", Arr(2, t)), V32("i")) }},
		{"deref", func(t *Ty) []*St { return SS(Decl("v", mkval(t, 3)), Decl("p", Addr(Vr("v", t)))) }, func(t *Ty) *E { return Deref(Vr("p", Ptr(t))) }},
		{"ptrfield", func(t *Ty) []*St {
			return SS(Decl("v", StructL(w(t), []string{"q", "m"}, Iv(TI8, 1), mkval(t, 3))), Decl("p", Addr(Vr("v", w(t)))))
		}, func(t *Ty) *E { return Field(Vr("p", Ptr(w(t))), "m") }},
		{"call", nil, func(t *Ty) *E { return CallF(fnOf("mk", R(t), P("n", t)), mkval(t, 3)) }},
		{"callfield", nil, func(t *Ty) *E {
			return Field(CallF(fnOf("mkh", R(w(t)), P("n", t)), mkval(t, 3)), "m")
		}},
		{"par", func(t *Ty) []*St { return SS(Decl("v", mkval(t, 3))) }, func(t *Ty) *E { return Par(Vr("v", t)) }},
		{"block", func(t *Ty) []*St { return SS(Decl("v", mkval(t, 3))) }, func(t *Ty) *E { return BlkE(t, Ret(Vr("v", t))) }},
		{"heap", func(t *Ty) []*St {
			return SS(Decl("p", Alloc(t, N32(2))), Set(Idx(Vr("p", Ptr(t)), N32(1)), mkval(t, 3)))
		}, func(t *Ty) *E { return Idx(Vr("p", Ptr(t)), N32(1)) }},
	}
	types := []*Ty{TI32, TI8, TU16, TI64, TF32, TF64, TStr, callSt, Arr(3, TI16), callBig, TI1}
	for _, t := range types {
		for _, s1 := range srcs {
			for _, use := range []string{"decl", "set", "arg", "field", "elem", "ret", "nested", "discard", "method", "print", "loop"} {
				t, s1, use := t, s1, use
				x.Prog(k("place:%s:%s:%s", t, s1.n, use), func() *Pg {
					h := w(t)
					mk := fnOf("mk", R(t), P("n", t), Ret(Vr("n", t)))
					mkh := fnOf("mkh", R(h), P("n", t), Ret(StructL(h, []string{"q", "m"}, Iv(TI8, 2), Vr("n", t))))
					show := fnOf("show", nil, P("n", t), linesOf(leaves(Vr("n", t)))...)
					two := fnOf("two", R(t), P("k", TI16, "n", t, "m", t), append(append(linesOf(leaves(Vr("n", t))), Line(Vr("k", TI16))), Ret(Vr("m", t)))...)
					arg := func() *E { return s1.e(t) }
					var pre []*St
					if s1.pre != nil {
						pre = s1.pre(t)
					}
					fns := []*Fn{mk, mkh, show, two}
					call := func() *E { return CallF(two, Iv(TI16, 4), mkval(t, 8), arg()) }
					b := pre
					r := Vr("r", t)
					switch use {
					case "decl":
						b = append(b, Decl("r", call()), Ex(CallF(show, r)))
					case "set":
						b = append(b, Decl("r", mkval(t, 60)), Set(r, call()), Ex(CallF(show, r)))
					case "arg":
						b = append(b, Ex(CallF(show, call())))
					case "field":
						b = append(b, Decl("w", StructL(h, []string{"q", "m"}, Iv(TI8, 3), call())), Ex(CallF(show, Field(Vr("w", h), "m"))), Line(Field(Vr("w", h), "q")))
					case "elem":
						b = append(b, Decl("w", ArrL(Arr(3, t), mkval(t, 1), call(), mkval(t, 2))))
						for i := 0; i < 3; i++ {
							b = append(b, Ex(CallF(show, Idx(Vr("w", Arr(3, t)), N32(int64(i))))))
						}
					case "ret":
						g := fnOf("g", R(t), nil, append(append([]*St{}, b...), Ret(call()))...)
						fns = append(fns, g)
						b = SS(Ex(CallF(show, CallF(g))))
					case "nested":
						b = append(b, Ex(CallF(show, CallF(two, Iv(TI16, 1), call(), CallF(two, Iv(TI16, 2), arg(), call())))))
					case "discard":
						b = append(b, Ex(call()), Ex(CallF(show, arg())))
					case "method":
						if s1.n == "block" || s1.n == "lit" {
							b = append(b, Decl("w", arg()), Ex(MCall(show, Vr("w", t))))
						} else {
							b = append(b, Ex(MCall(show, arg())))
						}
					case "print":
						if t.isScalar() {
							b = append(b, Line(call(), arg()))
						} else {
							b = append(b, Line(leaves(call())[0]))
						}
					case "loop":
						b = append(b, ForI(Decl("j", N32(0)), Bin("<", V32("j"), N32(3)), Set(V32("j"), Bin("+", V32("j"), N32(1))), Ex(CallF(show, call()))))
					}
					ty := []*Ty{callSt, callBig, h}
					return &Pg{Types: ty, Fns: append(fns, mainFn(b...))}
				})
			}
		}
	}
}

func genRecursion(x *Enum) {
	// f(n) calls itself with n-1 at every subset of 3 positions, g in between
	for mask := 1; mask < 8; mask++ {
		for depth := 0; depth <= x.Pick(4, 6); depth++ {
			for kind := 0; kind < 6; kind++ {
				mask, depth, kind := mask, depth, kind
				x.Prog(k("rec:%d:%d:%d", mask, depth, kind), func() *Pg {
					n := V32("n")
					t := []*Ty{TI32, TI64, TF64, callSt, Arr(3, TI16), TStr}[kind]
					a := Vr("a", t)
					first := func(e *E) *E { return leaves(e)[0] }
					body := SS(
						Print(Str("("), n, first(a)),
						If(Bin("<=", n, N32(0)), SS(Print(Str(")")), Ret(a))),
						Decl("l", mkval(t, 7)),
						Decl("m", Bin("*", n, N32(10))),
					)
					f := fnOf("f", R(t), P("n", TI32, "a", t))
					g := fnOf("g", R(t), P("a", t, "n", TI32), If(Bin(">", n, N32(1)), SS(Ret(CallF(f, Bin("-", n, N32(2)), a)))), Ret(a))
					l := Vr("l", t)
					for p := 0; p < 3; p++ {
						if mask>>p&1 == 1 {
							if p == 1 {
								body = append(body, Decl("r", CallF(g, l, n)), Print(first(Vr("r", t)), V32("m")))
							} else {
								body = append(body, Set(l, CallF(f, Bin("-", n, N32(1)), a)), Print(first(l), n, V32("m")))
							}
						}
					}
					body = append(body, Set(a, mkval(t, 20)), Print(n, V32("m"), Str(")")), Ret(l))
					f.Body = body
					return &Pg{Types: []*Ty{callSt, callBig}, Fns: []*Fn{f, g, mainFn(append(SS(Decl("r", CallF(f, N32(int64(depth)), mkval(t, 3)))), printAll(Vr("r", t))...)...)}}
				})
			}
		}
	}
	// classics on all small inputs
	n, m := V32("n"), V32("m")
	fib := fnOf("fib", R(TI32), P("n", TI32))
	fib.Body = SS(If(Bin("<", n, N32(2)), SS(Ret(n))), Ret(Bin("+", CallF(fib, Bin("-", n, N32(1))), CallF(fib, Bin("-", n, N32(2))))))
	gcd := fnOf("gcd", R(TI32), P("n", TI32, "m", TI32))
	gcd.Body = SS(If(Bin("==", m, N32(0)), SS(Ret(n))), Ret(CallF(gcd, m, Bin("%", n, m))))
	ack := fnOf("ack", R(TI32), P("m", TI32, "n", TI32))
	ack.Body = SS(If(Bin("==", m, N32(0)), SS(Ret(Bin("+", n, N32(1)))), Bin("==", n, N32(0)), SS(Ret(CallF(ack, Bin("-", m, N32(1)), N32(1))))),
		Ret(CallF(ack, Bin("-", m, N32(1)), CallF(ack, m, Bin("-", n, N32(1))))))
	even := fnOf("even", R(TI1), P("n", TI32))
	odd := fnOf("odd", R(TI1), P("n", TI32))
	even.Body = SS(If(Bin("==", n, N32(0)), SS(Ret(Uv(TI1, 1)))), Ret(CallF(odd, Bin("-", n, N32(1)))))
	odd.Body = SS(If(Bin("==", n, N32(0)), SS(Ret(Uv(TI1, 0)))), Ret(CallF(even, Bin("-", n, N32(1)))))
	hanoi := fnOf("hanoi", nil, P("n", TI32, "a", TStr, "b", TStr, "c", TStr))
	sv := func(s string) *E { return Vr(s, TStr) }
	hanoi.Body = SS(If(Bin(">", n, N32(0)), SS(Ex(CallF(hanoi, Bin("-", n, N32(1)), sv("a"), sv("c"), sv("b"))), Print(sv("a"), sv("b"), Str(",")), Ex(CallF(hanoi, Bin("-", n, N32(1)), sv("c"), sv("b"), sv("a"))))))
	for i := 0; i <= 12; i++ {
		i := i
		x.Prog(k("classic:%d", i), func() *Pg {
			b := SS(Line(CallF(fib, N32(int64(i))), CallF(even, N32(int64(i))), CallF(odd, N32(int64(i)))))
			for j := 0; j <= 12; j++ {
				b = append(b, Line(CallF(gcd, N32(int64(i*6)), N32(int64(j*4+1)))))
			}
			if i <= 5 {
				b = append(b, Ex(CallF(hanoi, N32(int64(i)), Str("A"), Str("B"), Str("C"))), nl())
			}
			if i <= 2 {
				for j := 0; j <= 4; j++ {
					b = append(b, Line(CallF(ack, N32(int64(i)), N32(int64(j)))))
				}
			}
			return pg(fib, gcd, ack, even, odd, hanoi, mainFn(b...))
		})
	}
	// quick sort of all permutations of 5 by recursion on a pointer
	for _, perm := range permutations(x.Pick(4, 6)) {
		perm := perm
		x.Prog("sort:"+keyOf(perm), func() *Pg {
			pt := Ptr(TI64)
			a := Vr("a", pt)
			lo, hi, i, j := V32("lo"), V32("hi"), V32("i"), V32("j")
			swap := fnOf("swap", nil, P("x", pt, "y", pt), Decl("t", Deref(Vr("x", pt))), Set(Deref(Vr("x", pt)), Deref(Vr("y", pt))), Set(Deref(Vr("y", pt)), Vr("t", TI64)))
			qs := fnOf("qs", nil, P("a", pt, "lo", TI32, "hi", TI32))
			qs.Body = SS(
				If(Bin(">=", lo, hi), SS(Ret())),
				Decl("pivot", Idx(a, hi)), Decl("i", lo),
				ForI(Decl("j", lo), Bin("<", j, hi), Set(j, Bin("+", j, N32(1))),
					If(Bin("<", Idx(a, j), Vr("pivot", TI64)), SS(Ex(CallF(swap, Addr(Idx(a, i)), Addr(Idx(a, j)))), Set(i, Bin("+", i, N32(1)))))),
				Ex(CallF(swap, Addr(Idx(a, i)), Addr(Idx(a, hi)))),
				Ex(CallF(qs, a, lo, Bin("-", i, N32(1)))),
				Ex(CallF(qs, a, Bin("+", i, N32(1)), hi)))
			var es []*E
			for _, v := range perm {
				es = append(es, Iv(TI64, int64(v)))
			}
			at := Arr(len(perm), TI64)
			b := SS(Decl("v", ArrL(at, es...)), Ex(CallF(qs, Cast(pt, Vr("v", at)), N32(0), N32(int64(len(perm)-1)))))
			return pg(swap, qs, mainFn(append(b, printAll(Vr("v", at))...)...))
		})
	}
}

// genGraphs: three functions, every subset of the nine call edges, depth bounded by a counter.
func genGraphs(x *Enum) {
	for mask := 0; mask < 512; mask++ {
		mask := mask
		x.Prog(k("graph:%d", mask), func() *Pg {
			names := []string{"f", "g", "h"}
			var fs []*Fn
			for i := range names {
				fs = append(fs, fnOf(names[i], R(TI32), P("n", TI32, "s", TI32)))
				_ = i
			}
			for i, f := range fs {
				b := SS(Print(Str(names[i]), V32("n"), V32("s"), Str(",")), Decl("r", Bin("+", V32("s"), N32(int64(i)))))
				var in []*St
				for j, g := range fs {
					if mask>>(3*i+j)&1 == 1 {
						in = append(in, Set(V32("r"), Bin("+", V32("r"), CallF(g, Bin("-", V32("n"), N32(1)), V32("r")))))
					}
				}
				if len(in) > 0 {
					b = append(b, If(Bin(">", V32("n"), N32(0)), in))
				}
				f.Body = append(b, Ret(V32("r")))
			}
			return pg(append(fs, mainFn(Line(CallF(fs[0], N32(2), N32(1))), Line(CallF(fs[1], N32(2), N32(2))), Line(CallF(fs[2], N32(1), N32(3)))))...)
		})
	}
}
