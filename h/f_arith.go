package main

import "strings"

var arithOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}

// deliveries: the ways an operand reaches an operation
var deliveries = []string{"var", "param", "field", "elem", "ptr", "lit", "litL", "litR", "global", "call", "heap", "block", "nested", "alias"}

// delivered builds a program that prints op(a, b) for all the pairs, where the
// operands come from the given kind of place.
func delivered(kind string, ta, tb *Ty, pairs [][2]*E, op func(a, b *E) *E) *Pg {
	g := &Pg{}
	out := func(e *E) *St { return Print(e, Str(";")) }
	var body []*St
	if kind == "alias" {
		ta, tb = alias(ta, "Ta"), alias(tb, "Tb")
		g.Pre = aliasSrc(ta) + aliasSrc(tb)
	}
	switch kind {
	case "param":
		g.Fns = append(g.Fns, fnOf("f", nil, P("a", ta, "b", tb), out(op(Vr("a", ta), Vr("b", tb)))))
		for _, p := range pairs {
			body = append(body, Ex(CallF(g.Fns[0], p[0], p[1])))
		}
	case "field":
		st := StructT("S", Fld{"p", TI8}, Fld{"a", ta}, Fld{"q", TI16}, Fld{"b", tb})
		g.Types = []*Ty{st}
		for i, p := range pairs {
			n := k("s%d", i)
			body = append(body, Decl(n, StructL(st, []string{"p", "a", "q", "b"}, Iv(TI8, 1), p[0], Iv(TI16, -1), p[1])),
				out(op(Field(Vr(n, st), "a"), Field(Vr(n, st), "b"))))
		}
	case "alias":
		st := StructT("S", Fld{"a", ta}, Fld{"b", tb})
		g.Types = []*Ty{st}
		f := fnOf("f", nil, P("a", ta, "b", tb), out(op(Vr("a", ta), Vr("b", tb))))
		ia := fnOf("ia", R(ta), P("a", ta), Ret(Vr("a", ta)))
		g.Fns = append(g.Fns, f, ia)
		at := Arr(2, ta)
		body = append(body, Decl("s", StructL(st, []string{"a", "b"}, pairs[0][0], pairs[0][1])), Decl("x", ArrL(at, pairs[0][0], pairs[0][0])),
			DeclT("l", tb, pairs[0][1]), Decl("p", Addr(Idx(Vr("x", at), N32(1)))))
		for _, p := range pairs {
			body = append(body, Ex(CallF(f, p[0], p[1])), Set(Field(Vr("s", st), "a"), p[0]), Set(Vr("l", tb), p[1]), Set(Idx(Vr("x", at), N32(1)), p[0]),
				out(op(Field(Vr("s", st), "a"), Vr("l", tb))), out(op(Idx(Vr("x", at), N32(1)), Vr("l", tb))),
				out(op(CallF(ia, p[0]), Vr("l", tb))), out(op(Deref(Vr("p", Ptr(ta))), Vr("l", tb))))
		}
	case "elem":
		body = append(body, Decl("x", ArrL(Arr(2, ta), pairs[0][0], pairs[0][0])), Decl("y", ArrL(Arr(3, tb), pairs[0][1], pairs[0][1], pairs[0][1])))
		for _, p := range pairs {
			x, y := Idx(Vr("x", Arr(2, ta)), N32(1)), Idx(Vr("y", Arr(3, tb)), N32(2))
			body = append(body, Set(x, p[0]), Set(y, p[1]), out(op(x, y)))
		}
	case "ptr":
		body = append(body, Decl("a", pairs[0][0]), Decl("b", pairs[0][1]), Decl("p", Addr(Vr("a", ta))), Decl("q", Addr(Vr("b", tb))))
		for _, p := range pairs {
			x, y := Deref(Vr("p", Ptr(ta))), Deref(Vr("q", Ptr(tb)))
			body = append(body, Set(x, p[0]), Set(y, p[1]), out(op(x, y)))
		}
	case "lit":
		for _, p := range pairs {
			body = append(body, out(op(p[0], p[1])))
		}
	case "litL":
		body = append(body, Decl("b", pairs[0][1]))
		for _, p := range pairs {
			body = append(body, Set(Vr("b", tb), p[1]), out(op(p[0], Vr("b", tb))))
		}
	case "litR":
		body = append(body, Decl("a", pairs[0][0]))
		for _, p := range pairs {
			body = append(body, Set(Vr("a", ta), p[0]), out(op(Vr("a", ta), p[1])))
		}
	case "global":
		g.Globals = []*St{DeclT("ga", ta, pairs[0][0]), DeclT("gb", tb, pairs[0][1])}
		for _, p := range pairs {
			body = append(body, Set(Vr("ga", ta), p[0]), Set(Vr("gb", tb), p[1]), out(op(Vr("ga", ta), Vr("gb", tb))))
		}
	case "call":
		g.Fns = append(g.Fns, fnOf("ia", R(ta), P("v", ta), Ret(Vr("v", ta))), fnOf("ib", R(tb), P("v", tb), Ret(Vr("v", tb))))
		for _, p := range pairs {
			body = append(body, out(op(CallF(g.Fns[0], p[0]), CallF(g.Fns[1], p[1]))))
		}
	case "heap":
		body = append(body, Decl("x", Alloc(ta, N32(4))), Decl("y", Alloc(tb, N32(4))))
		for _, p := range pairs {
			x, y := Idx(Vr("x", Ptr(ta)), N32(3)), Idx(Vr("y", Ptr(tb)), N32(2))
			body = append(body, Set(x, p[0]), Set(y, p[1]), out(op(x, y)))
		}
		body = append(body, Free(Vr("x", Ptr(ta))), Free(Vr("y", Ptr(tb))))
	case "block":
		for i, p := range pairs {
			n := k("r%d", i)
			body = append(body, Decl(n, BlkE(op(p[0], p[1]).T, Decl("a", p[0]), Decl("b", p[1]), Ret(op(Vr("a", ta), Vr("b", tb))))), out(Vr(n, op(p[0], p[1]).T)))
		}
	case "nested":
		// as an operand of an equality and as an argument
		rt := op(pairs[0][0], pairs[0][1]).T
		f := fnOf("show", R(rt), P("x", TI32, "v", rt, "y", TI8), Ret(Vr("v", rt)))
		g.Fns = append(g.Fns, f)
		body = append(body, Decl("a", pairs[0][0]), Decl("b", pairs[0][1]))
		for _, p := range pairs {
			body = append(body, Set(Vr("a", ta), p[0]), Set(Vr("b", tb), p[1]),
				out(CallF(f, N32(4), op(Vr("a", ta), Vr("b", tb)), Iv(TI8, 9))),
				out(Bin("==", op(Vr("a", ta), Vr("b", tb)), op(Vr("a", ta), Vr("b", tb)))))
		}
	default: // var
		body = append(body, Decl("a", pairs[0][0]), Decl("b", pairs[0][1]))
		for _, p := range pairs {
			body = append(body, Set(Vr("a", ta), p[0]), Set(Vr("b", tb), p[1]), out(op(Vr("a", ta), Vr("b", tb))))
		}
	}
	g.Fns = append(g.Fns, mainFn(body...))
	return g
}

// okPairs are the pairs for which the operation is specified.
func okPairs(as, bs []*E, op func(a, b *E) *E) [][2]*E {
	var r [][2]*E
	for _, a := range as {
		for _, b := range bs {
			if isOK(op(a, b)) {
				r = append(r, [2]*E{a, b})
			}
		}
	}
	return r
}

func shiftBy(t *Ty, n int) []*E {
	var es []*E
	for _, v := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
		if v < n && v < 128 {
			es = append(es, Iv(t, int64(v)))
		}
	}
	return es
}

// literalVals are the constants an operation could be specialised for.
func literalVals(t *Ty) []*E {
	var es []*E
	add := func(v int64) {
		if e := Iv(t, v); t.K == KInt && signed(e.U, t.Bits) == v || t.K == KUint && v >= 0 && int64(e.U) == v {
			es = append(es, e)
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 60, 64, 100, 127, 128, 255, 256, 1000, 1024, 65535, 65536, 1 << 30, 1 << 31, 1 << 32, 1 << 62} {
		add(v)
		if v > 0 {
			add(-v)
		}
	}
	return es
}

// signedVals are small and large values of both signs.
func signedVals(t *Ty) []*E {
	es := fewLits(t)
	for _, v := range []int64{3, 7, 9, 77} {
		es = append(es, Iv(t, v))
		if t.K == KInt {
			es = append(es, Iv(t, -v))
		}
	}
	return es
}

func genArith(x *Enum) {
	for _, t := range numTypes {
		for _, op := range arithOps {
			if t.K == KFloat && !strings.Contains("+-*/", op) {
				continue
			}
			t, op := t, op
			f := func(a, b *E) *E { return Bin(op, a, b) }
			rts := []*Ty{t}
			if op == "<<" || op == ">>" {
				rts = []*Ty{TI8, TI16, TI32, TI64}
			}
			for _, rt := range rts {
				rt := rt
				for _, d := range deliveries {
					d := d
					x.Prog(k("binary %s %s %s by %s", t, op, rt, d), func() *Pg {
						as, bs := lits(t), lits(rt)
						if d != "var" && d != "param" {
							as, bs = fewLits(t), fewLits(rt)
						}
						if t != rt || op == "<<" || op == ">>" {
							bs = shiftBy(rt, t.Bits)
						}
						return delivered(d, t, rt, okPairs(as, bs, f), f)
					})
				}
			}
		}
	}
	// a literal operand, on either side, with variables of every sign
	for _, t := range intTypes {
		for _, op := range arithOps {
			for _, side := range []string{"litL", "litR"} {
				t, op, side := t, op, side
				x.Prog(k("literal %s %s %s", t, op, side), func() *Pg {
					f := func(a, b *E) *E { return Bin(op, a, b) }
					as, bs := signedVals(t), literalVals(t)
					if op == "<<" || op == ">>" {
						bs = nil
						for i := 0; i < t.Bits; i++ {
							bs = append(bs, Iv(TI32, int64(i)))
						}
					}
					if side == "litL" && op != "<<" && op != ">>" {
						as, bs = bs, as
					}
					return delivered(side, as[0].T, bs[0].T, okPairs(as, bs, f), f)
				})
			}
		}
	}
	// every pair of 8 bit values
	for _, t := range []*Ty{TI8, TU8} {
		for _, op := range arithOps {
			t, op := t, op
			for part := 0; part < 8; part++ {
				part := part
				x.Prog(k("all pairs of %s %s part %d", t, op, part), func() *Pg { return allPairs8(t, op, part) })
			}
		}
	}
	// unary operators and increments
	for _, t := range numTypes {
		for _, u := range []string{"neg", "pre++", "pre--", "negneg"} {
			t, u := t, u
			for _, d := range []string{"var", "field", "elem", "ptr", "global", "param"} {
				d := d
				x.Prog(k("unary %s %s by %s", u, t, d), func() *Pg {
					var ps [][2]*E
					for _, e := range lits(t) {
						ps = append(ps, [2]*E{e, e})
					}
					return delivered(d, t, t, ps, func(a, b *E) *E {
						switch u {
						case "neg":
							return Neg(a)
						case "negneg":
							return Neg(Neg(a))
						case "pre++":
							return Bin("-", PreInc("++", a), b)
						}
						return Bin("-", PreInc("--", a), b)
					})
				})
			}
		}
	}
	// chains of two and three operators over all types
	for _, t := range numTypes {
		for _, o1 := range arithOps {
			for _, o2 := range arithOps {
				if t.K == KFloat && (!strings.Contains("+-*/", o1) || !strings.Contains("+-*/", o2)) {
					continue
				}
				t, o1, o2 := t, o1, o2
				x.Prog(k("chain %s %s %s", t, o1, o2), func() *Pg { return chain(t, o1, o2) })
			}
		}
	}
	// accumulation in loops
	for _, t := range numTypes {
		for _, op := range arithOps[:8] {
			if t.K == KFloat && !strings.Contains("+-*/", op) {
				continue
			}
			t, op := t, op
			x.Prog(k("loop %s %s", t, op), func() *Pg { return accumulate(t, op) })
		}
	}
}

func rhsFor(t *Ty, op string) []*E {
	if op == "<<" || op == ">>" {
		if t.K != KInt {
			return shiftBy(TI32, t.Bits)
		}
		return shiftBy(t, t.Bits)
	}
	return fewLits(t)
}

func chain(t *Ty, o1, o2 string) *Pg {
	var fns []*Fn
	var body []*St
	n := 0
	b1, b2 := rhsFor(t, o1), rhsFor(t, o2)
	l := fnOf("l", nil, P("a", t, "b", b1[0].T, "c", b2[0].T), Print(Bin(o2, Bin(o1, Vr("a", t), Vr("b", b1[0].T)), Vr("c", b2[0].T)), Str(";")))
	fns = append(fns, l)
	var r *Fn
	if sameTy(b1[0].T, t) && o1 != "<<" && o1 != ">>" {
		r = fnOf("r", nil, P("a", t, "b", t, "c", b2[0].T), Print(Bin(o1, Vr("a", t), Bin(o2, Vr("b", t), Vr("c", b2[0].T))), Str(";")))
		fns = append(fns, r)
	}
	for _, a := range fewLits(t) {
		for _, b := range b1 {
			for _, c := range b2 {
				n++
				if n%3 != 0 {
					continue
				}
				if isOK(Bin(o2, Bin(o1, a, b), c)) {
					body = append(body, Ex(CallF(l, a, b, c)))
				}
				if r != nil && isOK(Bin(o1, a, Bin(o2, b, c))) {
					body = append(body, Ex(CallF(r, a, b, c)))
				}
			}
		}
	}
	return pg(append(fns, mainFn(body...))...)
}

func accumulate(t *Ty, op string) *Pg {
	var seed, step *E
	if t.K == KFloat {
		seed, step = Fl(t, "3.0"), Fl(t, "1.5")
	} else {
		seed, step = Uv(t, 77), Uv(t, 3)
	}
	acc, s := Vr("acc", t), Vr("s", t)
	return pg(mainFn(
		Decl("acc", seed), Decl("s", step),
		ForI(Decl("i", N32(0)), Bin("<", V32("i"), N32(12)), Set(V32("i"), Bin("+", V32("i"), N32(1))),
			Set(acc, Bin(op, acc, s)),
			If(Bin("==", Bin("%", V32("i"), N32(3)), N32(2)), SS(Set(s, Bin("+", s, step)))),
			Print(acc, s, Str(";"))),
		nl()))
}

// allPairs8 prints a rolling hash of a op b for the pairs of a slice of the
// first operand with every second operand.
func allPairs8(t *Ty, op string, part int) *Pg {
	i, j, h := V32("i"), V32("j"), Vr("h", TU32)
	a, b := Vr("a", t), Vr("b", t)
	var res *E
	guard := Bin("==", N32(0), N32(0))
	switch op {
	case "<<", ">>":
		guard = Bin("<", j, N32(8))
		res = Bin(op, a, Cast(TI8, j))
	case "/", "%":
		guard = Bin("!=", b, Uv(t, 0))
		if t.K == KInt {
			guard = Bin("&&", guard, Bin("||", Bin("!=", b, Iv(t, -1)), Bin("!=", a, Iv(t, -128))))
		}
		res = Bin(op, a, b)
	default:
		res = Bin(op, a, b)
	}
	upd := Set(h, Bin("+", Bin("*", h, Uv(TU32, 31)), Cast(TU32, res)))
	inner := ForI(Decl("j", N32(0)), Bin("<", j, N32(256)), Set(j, Bin("+", j, N32(1))),
		Decl("b", Cast(t, j)),
		If(guard, SS(upd)))
	return pg(mainFn(
		Decl("h", Uv(TU32, 7)),
		ForI(Decl("i", N32(int64(part*32))), Bin("<", i, N32(int64(part*32+32))), Set(i, Bin("+", i, N32(1))),
			Decl("a", Cast(t, i)), inner, Line(i, h))))
}

func init() {
	register(&Family{
		ID: "C08", Technique: "bounded exhaustive enumeration of operations x types x boundary operands x operand places, executed on an explicit-state IR machine against a reference model",
		Rule: "one program per operator, type and place of the operands; each evaluates the operator on the whole boundary set (on every pair for the 8 bit types); a program is distinct by its source",
		Note: "10 integer and 4 float operators, 10 numeric types, 13 places, boundary sets of 15-27 values, chains of two operators, all 65536 pairs of 8 bit operands, 57 literal operands on either side",
		Gen:  genArith,
	})
}
