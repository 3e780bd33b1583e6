package main

var castTypes = append([]*Ty{TI1}, numTypes...)

// castVals are the values of t that every cast of the chain is defined on.
func castVals(t *Ty, chain ...*Ty) []*E {
	var r []*E
	for _, v := range lits(t) {
		e := v
		for _, c := range chain {
			e = Cast(c, e)
		}
		if isOK(e) {
			r = append(r, v)
		}
	}
	return r
}

func castable(from, to *Ty) bool { return !(from.K == KFloat && to.K == KBool) }

func genCast(x *Enum) {
	for _, f := range castTypes {
		for _, t := range castTypes {
			if !castable(f, t) {
				continue
			}
			f, t := f, t
			for _, d := range deliveries {
				if d == "litL" || d == "litR" {
					continue
				}
				d := d
				x.Prog(k("cast %s to %s by %s", f, t, d), func() *Pg {
					var ps [][2]*E
					for _, v := range castVals(f, t) {
						ps = append(ps, [2]*E{v, v})
					}
					return delivered(d, f, f, ps, func(a, b *E) *E { return Cast(t, a) })
				})
			}
			// the result in an operation of the target type
			x.Prog(k("cast %s to %s operand", f, t), func() *Pg {
				var ps [][2]*E
				for _, v := range castVals(f, t) {
					ps = append(ps, [2]*E{v, v})
				}
				return delivered("param", f, f, ps, func(a, b *E) *E { return Bin("==", Par(Cast(t, a)), Par(Cast(t, b))) })
			})
			for _, m := range castTypes {
				if !castable(f, m) || !castable(m, t) {
					continue
				}
				m := m
				x.Prog(k("cast %s to %s to %s", f, m, t), func() *Pg {
					var ps [][2]*E
					for _, v := range castVals(f, m, t) {
						ps = append(ps, [2]*E{v, v})
					}
					g := delivered("param", f, f, ps, func(a, b *E) *E { return Cast(t, Cast(m, a)) })
					h := delivered("lit", f, f, ps, func(a, b *E) *E { return Cast(t, Cast(m, a)) })
					main := g.Fns[len(g.Fns)-1]
					main.Body = append(main.Body, h.Fns[len(h.Fns)-1].Body...)
					return g
				})
			}
		}
	}
	if x.Thorough() {
		for _, a := range castTypes {
			for _, b := range castTypes {
				for _, c := range castTypes {
					for _, d := range castTypes {
						if !castable(a, b) || !castable(b, c) || !castable(c, d) {
							continue
						}
						a, b, c, d := a, b, c, d
						x.Prog(k("cast %s to %s to %s to %s", a, b, c, d), func() *Pg {
							var ps [][2]*E
							for _, v := range castVals(a, b, c, d) {
								ps = append(ps, [2]*E{v, v})
							}
							return delivered("param", a, a, ps, func(e, _ *E) *E { return Cast(d, Cast(c, Cast(b, e))) })
						})
					}
				}
			}
		}
	}
	// casts of results of operations
	for _, f := range numTypes {
		for _, t := range castTypes {
			for _, op := range []string{"+", "-", "*"} {
				if !castable(f, t) {
					continue
				}
				f, t, op := f, t, op
				x.Prog(k("cast of %s %s %s to %s", f, op, f, t), func() *Pg {
					c := func(a, b *E) *E { return Cast(t, Par(Bin(op, a, b))) }
					vs := fewLits(f)
					return delivered("param", f, f, okPairs(vs, vs, c), c)
				})
			}
		}
	}
	// pointers: integers and back, other element types, arrays
	for _, t := range numTypes {
		for _, it := range []*Ty{TI64, TU64} {
			if t == TI8 {
				continue // pointers to i8 are compared as strings
			}
			t, it := t, it
			x.Prog(k("pointer to %s through %s", t, it), func() *Pg {
				v, w := fewLits(t)[1], fewLits(t)[2]
				at := Arr(3, t)
				p := Vr("p", Ptr(t))
				return pg(mainFn(
					Decl("a", ArrL(at, v, w, v)),
					Decl("n", Cast(it, Addr(Idx(Vr("a", at), N32(1))))),
					Decl("p", Cast(Ptr(t), Vr("n", it))),
					Print(Deref(p), Str(";")),
					Set(Deref(p), v),
					Print(Idx(Vr("a", at), N32(1)), Str(";")),
					Decl("q", Cast(Ptr(t), Bin("+", Vr("n", it), Uv(it, uint64(t.size()))))),
					Print(Bin("==", Vr("q", Ptr(t)), Addr(Idx(Vr("a", at), N32(2)))), Bin("==", p, Addr(Idx(Vr("a", at), N32(1)))), Bin("==", p, Vr("q", Ptr(t)))),
					Print(Bin("==", Cast(it, Vr("q", Ptr(t))), Bin("+", Cast(it, p), Uv(it, uint64(t.size())))))))
			})
		}
		for _, u := range numTypes {
			t, u := t, u
			x.Prog(k("array of %s as pointer to %s", t, u), func() *Pg {
				n := 16 / t.size()
				at := Arr(n, t)
				var es []*E
				for i := 0; i < n; i++ {
					if t.K == KFloat {
						es = append(es, Fl(t, []string{"1.0", "0.5", "-2.0", "3.25"}[i%4]))
					} else {
						es = append(es, Uv(t, uint64(0x0101010101010101)*uint64(i+1)))
					}
				}
				body := SS(Decl("a", ArrL(at, es...)), Decl("p", Cast(Ptr(u), Vr("a", at))))
				if u.K != KFloat && t.K != KFloat || t == u {
					for i := 0; i < 16/u.size(); i++ {
						body = append(body, Print(Idx(Vr("p", Ptr(u)), N32(int64(i))), Str(";")))
					}
				}
				if u.K == KFloat {
					body = append(body, Set(Idx(Vr("p", Ptr(u)), N32(0)), Fl(u, "1.5")))
				} else {
					body = append(body, Set(Idx(Vr("p", Ptr(u)), N32(1)), Uv(u, 0x7f)))
				}
				for i := 0; i < n; i++ {
					if t.K != KFloat {
						body = append(body, Print(Idx(Vr("a", at), N32(int64(i))), Str(";")))
					}
				}
				body = append(body, Decl("q", Cast(Ptr(t), Vr("p", Ptr(u)))), Print(Bin("==", Idx(Vr("q", Ptr(t)), N32(0)), Idx(Vr("a", at), N32(0)))))
				return pg(mainFn(body...))
			})
		}
	}
	for _, it := range []*Ty{TI8, TI16, TI32, TI64, TU8, TU16, TU32, TU64} {
		it := it
		x.Prog(k("%s to pointer and back", it), func() *Pg {
			var ps [][2]*E
			for _, v := range lits(it) {
				if signed(v.U, it.Bits) >= 0 || it.K == KUint {
					ps = append(ps, [2]*E{v, v})
				}
			}
			return delivered("param", it, it, ps, func(a, b *E) *E { return Cast(TU64, Cast(Ptr(TI32), a)) })
		})
	}
}

func init() {
	register(&Family{
		ID: "C10", Technique: "bounded exhaustive enumeration of cast chains x boundary values x operand places, executed on an explicit-state IR machine against a reference model",
		Rule: "one program per cast (or chain of two casts) and place of the operand, evaluated on every boundary value on which the chain is specified",
		Note: "11 x 11 scalar types, all chains of two casts, pointers to and from integers, arrays as pointers to every numeric type",
		Gen:  genCast,
	})
}
