package main

// C18: multiple values keep their order, and all sources are read before any
// target is written.

func init() {
	register(&Family{
		ID:        "C18",
		Technique: "exhaustive enumeration of multiple declarations, assignments and returns against a reference interpreter",
		Rule: "Every assignment of n variables from n variables (all n^n selections for n up to 4, 5 in the thorough tier), every sequence of 3 among 12 simultaneous assignments on 3 variables, every pair of 14 value types and triples of 7 declared, returned, forwarded and assigned through 6 kinds of targets and 5 kinds of callees, up to 9 values; every list of 2 or 3 out of 13 values (6 for three of the four types in the quick tier), some of which change what others read, declared, assigned and returned from functions and lambdas; " +
			"simultaneous updates in for headers; and every declaration, assignment and return whose number or types of values do not match, which has to be refused.",
		Note: "Bounded by the number of values. Targets whose place depends on another target of the same assignment are not specified.",
		Gen:  func(x *Enum) { genMulti(x); genWide(x, "C18") },
	})
}

var multiUn = UnionT("MU", P("i", TI64, "b", TI8)...)

func multiTypes() []*Ty {
	return []*Ty{TI32, TF32, TI8, callSt, TStr, TI64, Arr(3, TI16), TF64, TU8, TU64, TI1, callBig, TI16, TU16}
}

// target makes a place of type t called by index i, with the statements that set it up.
func multiTarget(kind string, i int, t *Ty) ([]*St, *E) {
	n := k("t%d", i)
	switch kind {
	case "var":
		return SS(Decl(n, mkval(t, 70))), Vr(n, t)
	case "field":
		h := StructT("H"+k("%d", i), P("q", TI8, "m", t)...)
		return SS(Decl(n, StructL(h, []string{"q", "m"}, Iv(TI8, 1), mkval(t, 70)))), Field(Vr(n, h), "m")
	case "ptrfield":
		h := StructT("H"+k("%d", i), P("q", TI8, "m", t)...)
		return SS(Decl(n+"v", StructL(h, []string{"q", "m"}, Iv(TI8, 1), mkval(t, 70))), Decl(n, Addr(Vr(n+"v", h)))), Field(Vr(n, Ptr(h)), "m")
	case "elem":
		return SS(Decl(n, ArrL(Arr(2, t), mkval(t, 70), mkval(t, 71)))), Idx(Vr(n, Arr(2, t)), N32(1))
	case "deref":
		return SS(Decl(n+"v", mkval(t, 70)), Decl(n, Addr(Vr(n+"v", t)))), Deref(Vr(n, Ptr(t)))
	}
	return SS(Decl(n, Alloc(t, N32(2)))), Idx(Vr(n, Ptr(t)), N32(1))
}

var multiTargets = []string{"var", "field", "ptrfield", "elem", "deref", "heap"}

// multiCallee: a function that returns its parameters.
var multiCallees = []string{"func", "value", "lambda", "method", "forward", "fieldfn"}

func multiProg(ts []*Ty, targets []string, callee string) *Pg {
	var ps []Fld
	var vs, ls []*E
	for i, t := range ts {
		ps = append(ps, Fld{k("p%d", i), t})
		vs = append(vs, Vr(k("p%d", i), t))
		ls = append(ls, mkval(t, 10*i+3))
	}
	f := fnOf("f", ts, ps, Ret(vs...))
	g := &Pg{Types: []*Ty{callSt, callBig}, Fns: []*Fn{f}}
	b := SS()
	call := func() *E { return CallF(f, ls...) }
	switch callee {
	case "value":
		b = append(b, Decl("fv", Vr("f", f.ty())))
		call = func() *E { return Call(Vr("fv", f.ty()), ls...) }
	case "lambda":
		l := &Fn{Ps: ps, Rs: ts, Body: SS(Ret(vs...))}
		b = append(b, Decl("fv", Lam(l)))
		call = func() *E { return Call(Vr("fv", l.ty()), ls...) }
	case "method":
		b = append(b, Decl("first", ls[0]))
		call = func() *E { return MCall(f, append([]*E{Vr("first", ts[0])}, ls[1:]...)...) }
	case "forward":
		fw := fnOf("fw", ts, ps, Ret(CallF(f, vs...)))
		g.Fns = append(g.Fns, fw)
		call = func() *E { return CallF(fw, ls...) }
	case "fieldfn":
		ft := f.ty()
		h := StructT("FH", P("q", TI8, "fn", ft)...)
		g.Types = append(g.Types, h)
		b = append(b, Decl("fh", StructL(h, []string{"q", "fn"}, Iv(TI8, 1), Vr("f", ft))))
		call = func() *E { return Call(Field(Vr("fh", h), "fn"), ls...) }
	}
	var names []string
	for i := range ts {
		names = append(names, k("d%d", i))
	}
	b = append(b, DeclM(names, call()))
	for i, t := range ts {
		b = append(b, linesOf(leaves(Vr(names[i], t)))...)
	}
	// literals
	var names2 []string
	for i := range ts {
		names2 = append(names2, k("e%d", i))
	}
	b = append(b, DeclM(names2, ls...))
	for i, t := range ts {
		b = append(b, linesOf(leaves(Vr(names2[i], t)))...)
		b = append(b, Set(Vr(names2[i], t), mkval(t, 55+i)))
	}
	var places, lit2, vars []*E
	for i, t := range ts {
		pre, e := multiTarget(targets[i%len(targets)], i, t)
		for _, s := range pre {
			for _, x := range s.E {
				if x.T.K == KStruct && x.T.Nm == k("H%d", i) {
					g.Types = append(g.Types, x.T)
				}
			}
		}
		b = append(b, pre...)
		places = append(places, e)
		lit2 = append(lit2, mkval(t, 40+i))
		vars = append(vars, Vr(names2[i], t))
	}
	show := func() {
		for _, p := range places {
			b = append(b, linesOf(leaves(p))...)
		}
	}
	b = append(b, SetM(places, call()))
	show()
	b = append(b, SetM(places, lit2...))
	show()
	b = append(b, SetM(places, vars...))
	show()
	b = append(b, SetM(vars, places...))
	for _, v := range vars {
		b = append(b, linesOf(leaves(v))...)
	}
	g.Fns = append(g.Fns, mainFn(b...))
	return g
}

func genMulti(x *Enum) {
	// all selections
	for n := 2; n <= x.Pick(4, 5); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= n
		}
		for c := 0; c < total; c++ {
			var sel []int
			for i, v := 0, c; i < n; i++ {
				sel = append(sel, v%n)
				v /= n
			}
			for _, t := range []*Ty{TI32, TF64, callSt, Arr(3, TI16), TStr} {
				t := t
				if n > 3 && t != TI32 && t != callSt {
					continue
				}
				x.Prog(k("select:%s:%s", t, keyOf(sel)), func() *Pg {
					b := SS()
					var vs, src, ns = []*E{}, []*E{}, []string{}
					for i := range sel {
						ns = append(ns, k("v%d", i))
						vs = append(vs, Vr(ns[i], t))
					}
					var init []*E
					for i, s := range sel {
						src = append(src, vs[s])
						init = append(init, mkval(t, 10*i))
					}
					b = append(b, DeclM(ns, init...), SetM(vs, src...))
					for _, v := range vs {
						b = append(b, linesOf(leaves(v))...)
					}
					// the same through pointers and elements
					at := Arr(len(sel), t)
					b = append(b, Decl("a", ArrL(at, init...)))
					var l, r []*E
					for i, s := range sel {
						l = append(l, Idx(Vr("a", at), N32(int64(i))))
						r = append(r, Idx(Vr("a", at), N32(int64(s))))
					}
					b = append(b, SetM(l, r...))
					b = append(b, printAll(Vr("a", at))...)
					return &Pg{Types: []*Ty{callSt}, Fns: []*Fn{mainFn(b...)}}
				})
			}
		}
	}
	genMultiEffects(x)
	// sequences
	v := []*E{V32("a"), V32("b"), V32("c")}
	rot := fnOf("rot", R(TI32, TI32, TI32), P("x", TI32, "y", TI32, "z", TI32), Ret(V32("y"), V32("z"), V32("x")))
	two := fnOf("two", R(TI32, TI32), P("x", TI32), Ret(Bin("+", V32("x"), N32(1)), Bin("*", V32("x"), N32(2))))
	ops := []func() *St{
		func() *St { return SetM([]*E{v[0], v[1]}, v[1], v[0]) },
		func() *St { return SetM([]*E{v[1], v[2]}, v[2], v[1]) },
		func() *St { return SetM([]*E{v[0], v[1], v[2]}, v[1], v[2], v[0]) },
		func() *St { return SetM([]*E{v[0], v[1]}, v[1], Bin("+", v[0], v[1])) },
		func() *St { return SetM([]*E{v[0], v[1], v[2]}, CallF(rot, v[0], v[1], v[2])) },
		func() *St { return SetM([]*E{v[2], v[0]}, CallF(two, v[2])) },
		func() *St { return DeclM([]string{"a", "b"}, v[1], v[0]) },
		func() *St { return DeclM([]string{"a", "b", "c"}, CallF(rot, v[2], v[1], v[0])) },
		func() *St { return SetM([]*E{v[2], v[1]}, N32(50), v[2]) },
		func() *St { return SetM([]*E{v[0], v[0]}, N32(60), N32(61)) },
		func() *St { return Blk(DeclM([]string{"a", "c"}, v[2], v[0]), Line(v...)) },
		func() *St { return SetM([]*E{v[0], v[1]}, Bin("*", v[0], N32(3)), Bin("-", v[0], v[1])) },
	}
	for d := 0; d < len(ops)*len(ops)*len(ops); d++ {
		d := d
		x.Prog(k("ops:%d", d), func() *Pg {
			b := SS(DeclM([]string{"a", "b", "c"}, N32(1), N32(2), N32(3)))
			for i, c := 0, d; i < 3; i++ {
				b = append(b, ops[c%len(ops)](), Line(v...))
				c /= len(ops)
			}
			return pg(rot, two, mainFn(b...))
		})
	}
	// types, targets and callees
	all := multiTypes()
	for i, a := range all {
		for j, b := range all {
			for c, cl := range multiCallees {
				a, b, cl, tg := a, b, cl, []string{multiTargets[(i+j+c)%6], multiTargets[(i*3+j+c*2+1)%6]}
				x.Prog(k("pair:%s:%s:%s", a, b, cl), func() *Pg { return multiProg([]*Ty{a, b}, tg, cl) })
			}
		}
	}
	for i, a := range multiTargets {
		for _, b := range multiTargets {
			for _, c := range multiTargets {
				a, b, c, t := a, b, c, all[i]
				x.Prog(k("targets:%s:%s:%s", a, b, c), func() *Pg { return multiProg([]*Ty{TI32, TI64, t}, []string{a, b, c}, "func") })
			}
		}
	}
	m := x.Pick(7, 14)
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			for l := 0; l < m; l++ {
				ts := []*Ty{all[i], all[j], all[l]}
				cl := multiCallees[(i+j+l)%6]
				tg := []string{multiTargets[(i+l)%6], multiTargets[(j+2*l)%6], multiTargets[(i+j+3)%6]}
				x.Prog(k("triple:%d:%d:%d", i, j, l), func() *Pg { return multiProg(ts, tg, cl) })
			}
		}
	}
	for n := 4; n <= 9; n++ {
		for r := 0; r < len(all); r++ {
			for c, cl := range multiCallees {
				n, r, c, cl := n, r, c, cl
				x.Prog(k("many:%d:%d:%s", n, r, cl), func() *Pg {
					var ts []*Ty
					var tg []string
					for i := 0; i < n; i++ {
						ts = append(ts, all[(r+i*(1+c%3))%len(all)])
						tg = append(tg, multiTargets[(r+i+c)%6])
					}
					return multiProg(ts, tg, cl)
				})
			}
		}
	}
	// loops with several variables
	for n := 0; n <= 5; n++ {
		for m := 0; m <= 5; m++ {
			n, m := n, m
			x.Prog(k("for:%d:%d", n, m), func() *Pg {
				i, j := V32("i"), V32("j")
				return pg(mainFn(
					Decl("a", N32(0)), Decl("b", N32(1)), Decl("i", N32(5)), Decl("j", N32(5)),
					ForI(SetM([]*E{i, j}, N32(0), N32(int64(n))), Bin("<", i, Bin("+", j, N32(int64(m)))), SetM([]*E{i, j}, Bin("+", i, N32(1)), Bin("-", j, N32(1))),
						Print(i, j, Str(";")), SetM([]*E{V32("a"), V32("b")}, V32("b"), Bin("+", V32("a"), V32("b")))),
					Line(V32("a"), V32("b"))))
			})
		}
	}
	// refused: numbers and types
	list := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += k("%d", i)
		}
		return s
	}
	names := func(p string, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += k("%s%d", p, i)
		}
		return s
	}
	rets := func(n int) string {
		s := "i32"
		for i := 1; i < n; i++ {
			s += ", i32"
		}
		if n > 1 {
			return "(" + s + ")"
		}
		return s
	}
	rej := func(key, src string) { x.Case(key, func() Case { return Case{Kind: KReject, Src: src} }) }
	for n := 1; n <= 5; n++ {
		for m := 1; m <= 5; m++ {
			if n == m {
				continue
			}
			rej(k("rej:decl:%d:%d", n, m), k("func main() {\n  %s := %s;\n}\n", names("v", n), list(m)))
			rej(k("rej:ret:%d:%d", n, m), k("func f() %s {\n  return %s;\n}\nfunc main() {\n}\n", rets(n), list(m)))
			rej(k("rej:call:%d:%d", n, m), k("func f() %s {\n  return %s;\n}\nfunc main() {\n  %s := f();\n}\n", rets(n), list(n), names("v", m)))
			if m > 1 && n > 1 {
				rej(k("rej:set:%d:%d", n, m), k("func main() {\n  %s := %s;\n  %s = %s;\n}\n", names("v", n), list(n), names("v", n), list(m)))
				rej(k("rej:setcall:%d:%d", n, m), k("func f() %s {\n  return %s;\n}\nfunc main() {\n  %s := %s;\n  %s = f();\n}\n", rets(n), list(n), names("v", m), list(m), names("v", m)))
			}
		}
	}
	for n := 2; n <= 5; n++ {
		for at := 0; at < n; at++ {
			for _, bad := range []string{"1.5", "(1 as i64)", `"s"`, "(1 as u32)", "(1 as i8)"} {
				l, ts := "", ""
				for i := 0; i < n; i++ {
					if i > 0 {
						l += ", "
						ts += ", "
					}
					if i == at {
						l += bad
					} else {
						l += "1"
					}
					ts += "i32"
				}
				rej(k("rej:type:ret:%d:%d:%s", n, at, bad), k("func f() (%s) {\n  return %s;\n}\nfunc main() {\n}\n", ts, l))
				rej(k("rej:type:set:%d:%d:%s", n, at, bad), k("func main() {\n  %s := %s;\n  %s = %s;\n}\n", names("v", n), list(n), names("v", n), l))
				rej(k("rej:type:decl:%d:%d:%s", n, at, bad), k("func main() {\n  %s : (%s) = %s;\n}\n", names("v", n), ts, l))
			}
		}
	}
}

// genMultiEffects: the values of a list are computed from left to right, each
// one before the next.
func genMultiEffects(x *Enum) {
	for _, t := range []*Ty{TI32, TU8, TI64, TF64} {
		one := Iv(t, 1)
		ten := Iv(t, 10)
		if t.K == KFloat {
			one, ten = Fl(t, "1.0"), Fl(t, "10.0")
		}
		pt := Ptr(t)
		st := StructT("ES", P("q", TI8, "v", t)...)
		// bump adds one to a place and gives the new value, zap sets it to 10 and gives the old one
		bump := fnOf("bump", R(t), P("p", pt), Set(Deref(Vr("p", pt)), Bin("+", Deref(Vr("p", pt)), one)), Ret(Deref(Vr("p", pt))))
		zap := fnOf("zap", R(t), P("p", pt), Decl("o", Deref(Vr("p", pt))), Set(Deref(Vr("p", pt)), ten), Ret(Vr("o", t)))
		a, s, arr, p, g := Vr("a", t), Vr("s", st), Vr("r", Arr(2, t)), Vr("p", pt), Vr("g", t)
		vals := []func() *E{
			func() *E { return a },
			func() *E { return CallF(bump, Addr(a)) },
			func() *E { return Deref(p) },
			func() *E { return Bin("+", a, one) },
			func() *E { return Field(s, "v") },
			func() *E { return CallF(zap, Addr(a)) },
			func() *E { return CallF(bump, Addr(Field(s, "v"))) },
			func() *E { return Idx(arr, N32(1)) },
			func() *E { return CallF(zap, Addr(Idx(arr, N32(1)))) },
			func() *E { return g },
			func() *E { return CallF(bump, Addr(g)) },
			func() *E { return PreInc("++", a) },
			func() *E { return Bin("+", CallF(bump, Addr(a)), a) },
		}
		n := len(vals)
		if t != TI32 && !x.Thorough() {
			n = 6
		}
		prog := func(ids []int) *Pg {
			var ns []string
			var ts []*Ty
			var ds, outs []*E
			list := func() []*E {
				var es []*E
				for _, i := range ids {
					es = append(es, vals[i]())
				}
				return es
			}
			for i := range ids {
				ns = append(ns, k("d%d", i))
				ts = append(ts, t)
				ds = append(ds, Vr(ns[i], t))
				outs = append(outs, Vr(k("o%d", i), t))
			}
			init := SS(Decl("a", one), Decl("s", StructL(st, []string{"q", "v"}, Iv(TI8, 1), one)), Decl("r", ArrL(Arr(2, t), one, one)), Decl("p", Addr(a)), Set(g, one))
			state := Line(a, Field(s, "v"), Idx(arr, N32(1)), Deref(p), g)
			var on []string
			for i := range ids {
				on = append(on, k("o%d", i))
			}
			cp := func(b ...*St) []*St { return append(append([]*St{}, init...), b...) }
			decl := fnOf("fdecl", nil, nil, cp(DeclM(ns, list()...), Line(ds...), state)...)
			var zero []*E
			for range ids {
				zero = append(zero, one)
			}
			set := fnOf("fset", nil, nil, cp(DeclM(on, zero...), SetM(outs, list()...), Line(outs...), state)...)
			ret := fnOf("fret", ts, nil, cp(Ret(list()...))...)
			show := fnOf("fshow", nil, nil, DeclM(on, CallF(ret)), Line(outs...))
			lam := &Fn{Rs: ts, Body: cp(Ret(list()...))}
			viaLam := fnOf("flam", nil, nil, Decl("l", Lam(lam)), DeclM(on, Call(Vr("l", lam.ty()))), Line(outs...))
			pg := &Pg{Types: []*Ty{st}, Globals: SS(DeclT("g", t, one)), Fns: []*Fn{bump, zap, decl, set, ret, show, viaLam,
				mainFn(Ex(CallF(decl)), Ex(CallF(set)), Ex(CallF(show)), Ex(CallF(viaLam)))}}
			return pg
		}
		t := t
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				i, j := i, j
				x.Prog(k("effects:%s:%d,%d", t, i, j), func() *Pg { return prog([]int{i, j}) })
				for l := 0; l < n; l++ {
					l := l
					x.Prog(k("effects:%s:%d,%d,%d", t, i, j, l), func() *Pg { return prog([]int{i, j, l}) })
				}
			}
		}
	}
}
