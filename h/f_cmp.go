package main

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}

// uses of a condition: each prints something that depends on it only
var condUses = []string{"print", "if", "ifelse", "for", "elseif", "var", "arg", "field", "and", "or", "not", "cast", "elem", "ret", "notif", "switch", "while"}

// useCond is a function that receives a and b, and uses cond(a, b).
func useCond(use string, ta, tb *Ty, cond func(a, b *E) *E) (*Fn, []*Fn, []*Ty) {
	a, b := Vr("a", ta), Vr("b", tb)
	c := cond(a, b)
	y, n := SS(Print(Str("y"))), SS(Print(Str("n")))
	tt, ff := Bin("==", N32(1), N32(1)), Bin("==", N32(1), N32(2))
	if c.T.K != KBool {
		tt, ff = c, c // the operands of && and || have the same type
	}
	var body []*St
	var more []*Fn
	var tys []*Ty
	switch use {
	case "if":
		body = SS(If(c, y), Print(Str(".")))
	case "ifelse":
		body = SS(If(c, y, n))
	case "notif":
		body = SS(If(Not(c), n, y))
	case "for":
		body = SS(ForI(Decl("i", N32(0)), Bin("&&", c, Bin("<", V32("i"), N32(2))), Set(V32("i"), Bin("+", V32("i"), N32(1))), y...), Print(Str(".")))
	case "while":
		body = SS(Decl("z", N32(0)), For(c, Print(Str("w")), Set(V32("z"), Bin("+", V32("z"), N32(1))), If(Bin(">", V32("z"), N32(1)), SS(Break()))), Print(Str("!")))
	case "elseif":
		body = SS(If(Bin("==", N32(1), N32(2)), SS(Print(Str("?"))), c, y, Bin("==", N32(1), N32(3)), SS(Print(Str("?"))), n))
	case "var":
		body = SS(Decl("v", c), If(Vr("v", TI1), y, n), Print(Vr("v", c.T)))
	case "arg":
		f := fnOf("k", nil, P("x", TI32, "v", TI1, "z", TI8), Print(Vr("v", TI1)))
		more = append(more, f)
		body = SS(Ex(CallF(f, N32(7), c, Iv(TI8, 1))))
	case "field":
		st := StructT("B", Fld{"p", TI1}, Fld{"v", TI1}, Fld{"q", TI32})
		tys = append(tys, st)
		body = SS(Decl("s", StructL(st, []string{"p", "v", "q"}, Uv(TI1, 1), c, N32(3))), Print(Field(Vr("s", st), "v"), Field(Vr("s", st), "p")))
	case "elem":
		body = SS(Decl("s", ArrL(Arr(3, TI1), Uv(TI1, 1), c, Uv(TI1, 0))), Print(Idx(Vr("s", Arr(3, TI1)), N32(1)), Idx(Vr("s", Arr(3, TI1)), N32(0)), Idx(Vr("s", Arr(3, TI1)), N32(2))))
	case "and":
		body = SS(Print(Bin("&&", Par(c), tt)), If(Bin("&&", tt, c), y, n))
	case "or":
		body = SS(Print(Bin("||", Par(c), ff)), If(Bin("||", ff, c), y, n))
	case "not":
		body = SS(Print(Not(Par(c)), Not(Not(Par(c)))))
	case "cast":
		body = SS(Print(Cast(TI32, Par(c)), Cast(TU8, Par(c)), Cast(TI64, Par(c)), Cast(TF32, Par(c))))
	case "ret":
		f := fnOf("k", R(TI1), P("a", ta, "b", tb), Ret(c))
		more = append(more, f)
		body = SS(If(CallF(f, a, b), y, n), Print(CallF(f, a, b)))
	case "switch":
		body = SS(Switch(Par(c), []*E{Uv(TI1, 1), Uv(TI1, 0)}, y, n))
	default:
		body = SS(Print(c))
	}
	return fnOf("f", nil, P("a", ta, "b", tb), append(body, Print(Str(";")))...), more, tys
}

func usePg(use string, t *Ty, pairs [][2]*E, cond func(a, b *E) *E) *Pg {
	f, more, tys := useCond(use, t, t, cond)
	g := pg(append(more, f)...)
	g.Types = tys
	var body []*St
	for _, p := range pairs {
		body = append(body, Ex(CallF(f, p[0], p[1])))
	}
	g.Fns = append(g.Fns, mainFn(body...))
	return g
}

func genCompare(x *Enum) {
	ts := append([]*Ty{TI1}, numTypes...)
	for _, t := range ts {
		for _, op := range cmpOps {
			t, op := t, op
			f := func(a, b *E) *E { return Bin(op, a, b) }
			for _, d := range deliveries {
				d := d
				x.Prog(k("compare %s %s by %s", t, op, d), func() *Pg {
					as := lits(t)
					return delivered(d, t, t, okPairs(as, as, f), f)
				})
			}
			for _, u := range condUses {
				u := u
				x.Prog(k("compare %s %s used in %s", t, op, u), func() *Pg {
					as := fewLits(t)
					return usePg(u, t, okPairs(as, as, f), f)
				})
			}
		}
	}
	// any scalar as a condition
	for _, t := range append(append([]*Ty{TI1}, numTypes...), Ptr(TI32), Ptr(TF64)) {
		for _, u := range []string{"if", "ifelse", "notif", "elseif", "and", "or", "not", "while"} {
			t, u := t, u
			if t.K == KPtr && (u == "if" || u == "ifelse" || u == "elseif" || u == "while") {
				continue // conditions are numbers
			}
			x.Prog(k("condition of type %s in %s", t, u), func() *Pg {
				var as []*E
				if t.K == KPtr {
					as = farPointers(t)
				} else {
					as = lits(t)
				}
				var ps [][2]*E
				for _, a := range as {
					ps = append(ps, [2]*E{a, a})
				}
				return usePg(u, t, ps, func(a, b *E) *E { return a })
			})
		}
	}
	// && and || of any scalars, both sides take every boundary value
	for _, t := range append(append([]*Ty{TI1}, numTypes...), Ptr(TI32), TStr) {
		for _, op := range []string{"&&", "||"} {
			t, op := t, op
			f := func(a, b *E) *E { return Bin(op, a, b) }
			var as []*E
			switch {
			case t == TStr:
				as = []*E{Str(""), Str("x"), Cast(t, Iv(TI64, 0))}
			case t.K == KPtr:
				as = farPointers(t)
			default:
				as = lits(t)
				for _, d := range deliveries {
					d := d
					x.Prog(k("logic %s %s by %s", t, op, d), func() *Pg { return delivered(d, t, t, okPairs(as, as, f), f) })
				}
			}
			for _, u := range condUses {
				u := u
				x.Prog(k("logic %s %s used in %s", t, op, u), func() *Pg { return usePg(u, t, okPairs(as, as, f), f) })
			}
		}
		if t == TStr || t.K == KPtr {
			continue
		}
		t := t
		f := func(a, b *E) *E { return Bin("==", Not(a), Not(b)) }
		for _, d := range deliveries {
			d := d
			x.Prog(k("not %s by %s", t, d), func() *Pg { return delivered(d, t, t, okPairs(lits(t), fewLits(t), f), f) })
		}
	}
	// boolean algebra: every tree up to three connectives over all valuations
	var trees []func(a, b, c *E) *E
	leaf := []func(a, b, c *E) *E{
		func(a, b, c *E) *E { return a }, func(a, b, c *E) *E { return b }, func(a, b, c *E) *E { return c },
		func(a, b, c *E) *E { return Not(a) }, func(a, b, c *E) *E { return Not(Par(Bin("&&", b, c))) },
		func(a, b, c *E) *E { return Bin("==", a, b) }, func(a, b, c *E) *E { return Bin("!=", b, c) },
		func(a, b, c *E) *E { return Bin("<", a, c) },
	}
	con := []string{"&&", "||"}
	for _, o1 := range con {
		for _, o2 := range con {
			for i := range leaf {
				for j := range leaf {
					for l := range leaf {
						o1, o2, i, j, l := o1, o2, i, j, l
						trees = append(trees,
							func(a, b, c *E) *E {
								return Bin(o2, Par(Bin(o1, leaf[i](a, b, c), leaf[j](a, b, c))), leaf[l](a, b, c))
							},
							func(a, b, c *E) *E {
								return Bin(o1, leaf[i](a, b, c), Par(Bin(o2, leaf[j](a, b, c), leaf[l](a, b, c))))
							})
					}
				}
			}
		}
	}
	for i := 0; i < len(trees); i += 8 {
		i := i
		for _, shape := range []string{"print", "if", "not", "local"} {
			shape := shape
			x.Prog(k("boolean trees from %d in %s", i, shape), func() *Pg {
				a, b, c := Vr("a", TI1), Vr("b", TI1), Vr("c", TI1)
				var body []*St
				for j := i; j < i+8; j++ {
					e := trees[j](a, b, c)
					switch shape {
					case "print":
						body = append(body, Print(e))
					case "if":
						body = append(body, If(e, SS(Print(Str("y"))), SS(Print(Str("n")))))
					case "not":
						body = append(body, If(Not(Par(e)), SS(Print(Str("y"))), SS(Print(Str("n")))))
					case "local":
						n := k("v%d", j)
						body = append(body, Decl(n, e), Print(Vr(n, TI1)))
					}
				}
				f := fnOf("f", nil, P("a", TI1, "b", TI1, "c", TI1), append(body, nl())...)
				var calls []*St
				for v := 0; v < 8; v++ {
					calls = append(calls, Ex(CallF(f, Uv(TI1, uint64(v&1)), Uv(TI1, uint64(v>>1&1)), Uv(TI1, uint64(v>>2&1)))))
				}
				return pg(f, mainFn(calls...))
			})
		}
	}
	// infinities, what is not a number, and zeros of both signs
	for _, t := range []*Ty{TF32, TF64} {
		as := []*E{Fl(t, "0.0"), Neg(Fl(t, "0.0")), Fl(t, "1.0"), Fl(t, "-1.0"),
			Bin("/", Fl(t, "1.0"), Fl(t, "0.0")), Bin("/", Fl(t, "-1.0"), Fl(t, "0.0")), Bin("/", Fl(t, "0.0"), Fl(t, "0.0"))}
		for _, op := range cmpOps {
			t, op := t, op
			f := func(a, b *E) *E { return Bin(op, a, b) }
			for _, u := range condUses {
				u := u
				x.Prog(k("compare special %s %s used in %s", t, op, u), func() *Pg { return usePg(u, t, okPairs(as, as, f), f) })
			}
			for _, d := range deliveries {
				d := d
				x.Prog(k("compare special %s %s by %s", t, op, d), func() *Pg { return delivered(d, t, t, okPairs(as, as, f), f) })
			}
		}
		for _, u := range []string{"if", "ifelse", "notif", "elseif", "and", "or", "not", "while"} {
			t, u := t, u
			var ps [][2]*E
			for _, a := range as {
				ps = append(ps, [2]*E{a, a})
			}
			x.Prog(k("special %s used in %s", t, u), func() *Pg { return usePg(u, t, ps, func(a, b *E) *E { return a }) })
		}
	}
	// pointers of any value
	for _, t := range []*Ty{Ptr(TI32), Ptr(TU8), Ptr(TF64), Ptr(Ptr(TI32))} {
		for _, op := range cmpOps {
			t, op := t, op
			f := func(a, b *E) *E { return Bin(op, a, b) }
			for _, u := range condUses {
				u := u
				x.Prog(k("compare far pointers %s %s used in %s", t, op, u), func() *Pg {
					as := farPointers(t)
					return usePg(u, t, okPairs(as, as, f), f)
				})
			}
		}
	}
	// pointers into one array
	for _, t := range []*Ty{TI16, TI32, TI64, TU8, TF64} {
		for _, op := range cmpOps {
			t, op := t, op
			x.Prog(k("compare pointers to %s %s", t, op), func() *Pg {
				at := Arr(4, t)
				v := Uv(t, 5)
				if t.K == KFloat {
					v = Fl(t, "5.0")
				}
				body := SS(Decl("a", ArrL(at, v, v, v, v)))
				for i := 0; i < 4; i++ {
					for j := 0; j < 4; j++ {
						l, r := Addr(Idx(Vr("a", at), N32(int64(i)))), Addr(Idx(Vr("a", at), N32(int64(j))))
						pn, qn := k("p%d%d", i, j), k("q%d%d", i, j)
						body = append(body, Decl(pn, l), Decl(qn, r), Print(Bin(op, Vr(pn, Ptr(t)), Vr(qn, Ptr(t)))))
						body = append(body, If(Bin(op, Par(l), Par(r)), SS(Print(Str("y"))), SS(Print(Str("n")))))
					}
				}
				return pg(mainFn(body...))
			})
		}
	}
}

// farPointers are made from integers
func farPointers(t *Ty) (r []*E) {
	for _, v := range []int64{0, 8, 1 << 40, -1, -8, -1 << 62} {
		r = append(r, Cast(t, Iv(TI64, v)))
	}
	return r
}

func init() {
	register(&Family{
		ID: "C09", Technique: "bounded exhaustive enumeration of comparisons, boolean formulas and conditions, executed on an explicit-state IR machine against a reference model",
		Rule: "one program per (type, operator, place of the operands) and per (type, operator, use of the result); boolean formulas are enumerated up to three connectives and evaluated on all valuations",
		Note: "6 comparisons, 11 scalar types and pointers, 13 operand places, 17 uses of a condition, 4096 boolean formulas on 8 valuations each",
		Gen:  genCompare,
	})
}
