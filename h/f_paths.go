package main

// Part of C15: every path of indices, fields and dereferences into every
// shape of type, from every kind of expression that gives such a value.

type memPath struct {
	at    func(e *E) *E
	cross bool // goes through a pointer
	plain bool // only indices, and fields of structs
}

func pathTypes(depth int) []*Ty {
	level := []*Ty{TI32}
	var all []*Ty
	n := 0
	for d := 0; d < depth; d++ {
		var next []*Ty
		for _, t := range level {
			n++
			next = append(next, Ptr(t), Arr(2, t), StructT(k("T%d", n), Fld{"p", TI8}, Fld{"f", t}))
		}
		all = append(all, next...)
		level = next
	}
	return all
}

func structsIn(t *Ty) []*Ty {
	switch t.K {
	case KPtr, KArr:
		return structsIn(t.El)
	case KStruct:
		return append(structsIn(t.Fs[1].T), t)
	}
	return nil
}

func memPaths(t *Ty) []memPath {
	then := func(step func(e *E) *E, t *Ty, cross, plain bool) (r []memPath) {
		for _, p := range memPaths(t) {
			p := p
			r = append(r, memPath{func(e *E) *E { return p.at(step(e)) }, p.cross || cross, p.plain && plain})
		}
		return r
	}
	switch t.K {
	case KPtr:
		r := then(func(e *E) *E { return Idx(e, N32(0)) }, t.El, true, true)
		r = append(r, then(func(e *E) *E { return Idx(e, V32("one")) }, t.El, true, true)...)
		r = append(r, then(func(e *E) *E { return Deref(e) }, t.El, true, false)...)
		r = append(r, then(func(e *E) *E { return Deref(Bin("+", e, V32("one"))) }, t.El, true, false)...)
		if t.El.K == KStruct {
			r = append(r, then(func(e *E) *E { return Field(e, "f") }, t.El.Fs[1].T, true, false)...)
			r = append(r, then(func(e *E) *E { return Field(e, "p") }, TI8, true, false)...)
		}
		return r
	case KArr:
		return append(then(func(e *E) *E { return Idx(e, V32("zero")) }, t.El, false, true), then(func(e *E) *E { return Idx(e, N32(1)) }, t.El, false, true)...)
	case KStruct:
		return append(then(func(e *E) *E { return Field(e, "p") }, TI8, false, true), then(func(e *E) *E { return Field(e, "f") }, t.Fs[1].T, false, true)...)
	}
	return []memPath{{func(e *E) *E { return e }, false, true}}
}

// buildValue gives the statements that build a value with different leaves, and the value.
func buildValue(t *Ty, n *int) ([]*St, *E) {
	switch t.K {
	case KPtr:
		*n++
		p := k("p%d", *n)
		ss := SS(Decl(p, Alloc(t.El, N32(2))))
		for i := 0; i < 2; i++ {
			s, e := buildValue(t.El, n)
			ss = append(append(ss, s...), Set(Idx(Vr(p, t), N32(int64(i))), e))
		}
		return ss, Vr(p, t)
	case KArr:
		a, x := buildValue(t.El, n)
		b, y := buildValue(t.El, n)
		return append(a, b...), ArrL(t, x, y)
	case KStruct:
		*n++
		p := Iv(TI8, int64(*n))
		s, e := buildValue(t.Fs[1].T, n)
		return s, StructL(t, []string{"p", "f"}, p, e)
	}
	*n++
	return nil, Iv(t, int64(*n))
}

type pathOrigin struct {
	name  string
	place bool // it can be written to
	make  func(t *Ty, v *E) (g *Pg, pre []*St, e *E)
}

func pathOrigins() []pathOrigin {
	holder := func(t *Ty) *Ty { return StructT("H", Fld{"a", TI8}, Fld{"h", t}, Fld{"z", TI8}) }
	hold := func(t *Ty, v *E) *E {
		return StructL(holder(t), []string{"a", "h", "z"}, Iv(TI8, 1), v, Iv(TI8, 2))
	}
	none := func() *Pg { return &Pg{} }
	fns := func(fs ...*Fn) *Pg { return &Pg{Fns: fs} }
	id := func(t *Ty) *Fn { return fnOf("id", R(t), P("x", t), Ret(Vr("x", t))) }
	return []pathOrigin{
		{"variable", true, func(t *Ty, v *E) (*Pg, []*St, *E) { return none(), nil, v }},
		{"copy", true, func(t *Ty, v *E) (*Pg, []*St, *E) { return none(), SS(Decl("c", v)), Vr("c", t) }},
		{"field", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			return &Pg{Types: []*Ty{holder(t)}}, SS(Decl("c", hold(t, v))), Field(Vr("c", holder(t)), "h")
		}},
		{"pfield", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			h := holder(t)
			return &Pg{Types: []*Ty{h}}, SS(Decl("c", Alloc(h, N32(1))), Set(Idx(Vr("c", Ptr(h)), N32(0)), hold(t, v))), Field(Vr("c", Ptr(h)), "h")
		}},
		{"element", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			return none(), SS(Decl("c", ArrL(Arr(2, t), v, v))), Idx(Vr("c", Arr(2, t)), V32("one"))
		}},
		{"heap", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			return none(), SS(Decl("c", Alloc(t, N32(2))), Set(Idx(Vr("c", Ptr(t)), N32(1)), v)), Idx(Vr("c", Ptr(t)), N32(1))
		}},
		{"pointer", true, func(t *Ty, v *E) (*Pg, []*St, *E) { return none(), SS(Decl("c", Addr(v))), Deref(Vr("c", Ptr(t))) }},
		{"multi", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			return none(), SS(DeclM([]string{"c", "d"}, v, N32(3))), Vr("c", t)
		}},
		{"call", false, func(t *Ty, v *E) (*Pg, []*St, *E) { f := id(t); return fns(f), nil, CallF(f, v) }},
		{"method", false, func(t *Ty, v *E) (*Pg, []*St, *E) { f := id(t); return fns(f), nil, MCall(f, v) }},
		{"callcall", false, func(t *Ty, v *E) (*Pg, []*St, *E) { f := id(t); return fns(f), nil, CallF(f, CallF(f, v)) }},
		{"lambda", false, func(t *Ty, v *E) (*Pg, []*St, *E) {
			return none(), SS(Decl("c", Lam(fnOf("", R(t), nil, Ret(v))))), Call(Vr("c", FuncT(t)))
		}},
		{"value", false, func(t *Ty, v *E) (*Pg, []*St, *E) {
			f := id(t)
			return fns(f), SS(Decl("c", Vr("id", f.ty()))), Call(Vr("c", f.ty()), v)
		}},
		{"fieldfn", false, func(t *Ty, v *E) (*Pg, []*St, *E) {
			f := id(t)
			h := StructT("HF", Fld{"fn", f.ty()})
			return &Pg{Types: []*Ty{h}, Fns: []*Fn{f}}, SS(Decl("c", StructL(h, []string{"fn"}, Vr("id", f.ty())))), Call(Field(Vr("c", h), "fn"), v)
		}},
		{"block", false, func(t *Ty, v *E) (*Pg, []*St, *E) { return none(), nil, Par(BlkE(t, Ret(v))) }},
		{"callfield", false, func(t *Ty, v *E) (*Pg, []*St, *E) {
			h := holder(t)
			f := fnOf("wrap", R(h), P("x", t), Ret(hold(t, Vr("x", t))))
			return &Pg{Types: []*Ty{h}, Fns: []*Fn{f}}, nil, Field(CallF(f, v), "h")
		}},
		{"callpfield", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			h := holder(t)
			f := fnOf("at", R(Ptr(h)), P("x", Ptr(h)), Ret(Vr("x", Ptr(h))))
			return &Pg{Types: []*Ty{h}, Fns: []*Fn{f}}, SS(Decl("c", hold(t, v))), Field(CallF(f, Addr(Vr("c", h))), "h")
		}},
		{"calldeep", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			f := fnOf("at", R(Ptr(t)), P("x", Ptr(t)), Ret(Vr("x", Ptr(t))))
			return fns(f), SS(Decl("c", v)), Idx(CallF(f, Addr(Vr("c", t))), V32("zero"))
		}},
		{"callderef", true, func(t *Ty, v *E) (*Pg, []*St, *E) {
			f := fnOf("at", R(Ptr(t)), P("x", Ptr(t)), Ret(Vr("x", Ptr(t))))
			return fns(f), SS(Decl("c", v)), Deref(CallF(f, Addr(Vr("c", t))))
		}},
	}
}

func pathProg(t *Ty, o pathOrigin, what int) *Pg {
	n := 0
	v := Vr("v", t)
	body := SS(Decl("zero", N32(0)), Decl("one", N32(1)))
	s, e := buildValue(t, &n)
	body = append(append(body, s...), Decl("v", e))
	g, pre, e := o.make(t, v)
	body = append(body, pre...)
	g.Types = append(structsIn(t), g.Types...)
	ps := memPaths(t)
	whole := func(e *E) []*St {
		var es []*E
		for _, p := range ps {
			if p.plain {
				es = append(es, p.at(e))
			}
		}
		return linesOf(es)
	}
	switch what {
	case 0:
		var es []*E
		for _, p := range ps {
			es = append(es, p.at(e))
		}
		body = append(body, linesOf(es)...)
		// pointers to the places, and what they name
		es = nil
		for _, p := range ps {
			if o.place || p.cross {
				es = append(es, Deref(Addr(p.at(e))))
			}
		}
		body = append(body, linesOf(es)...)
	case 1:
		for i, p := range ps {
			if !o.place && !p.cross {
				continue
			}
			l := p.at(e)
			body = append(body, Set(l, Iv(l.T, int64(60+i%60))))
			if o.place {
				body = append(body, whole(e)...)
			}
			if o.name != "variable" && (i%2 == 0 || !o.place) {
				body = append(body, whole(v)...)
			}
		}
	case 2:
		// the inner values as a whole: copied out, copied in, compared with what is left
		in := t.El
		if t.K == KStruct {
			in = t.Fs[1].T
		}
		if in != TI32 {
			step := []func(e *E) *E{func(e *E) *E { return Idx(e, N32(0)) }, func(e *E) *E { return Idx(e, V32("one")) }}
			if t.K == KStruct {
				step = []func(e *E) *E{func(e *E) *E { return Field(e, "f") }}
			} else if t.K == KPtr {
				step = append(step, func(e *E) *E { return Deref(e) })
			}
			for i, st := range step {
				nm := k("in%d", i)
				s, fresh := buildValue(in, &n)
				body = append(body, Decl(nm, st(e)))
				for _, p := range memPaths(in) {
					if p.plain {
						body = append(body, Line(p.at(Vr(nm, in)), p.at(st(e))))
					}
				}
				if o.place || t.K == KPtr {
					body = append(append(body, s...), Set(st(e), fresh))
					body = append(body, whole(e)...)
					body = append(body, whole(v)...)
					for _, p := range memPaths(in) {
						if p.plain {
							body = append(body, Line(p.at(Vr(nm, in))))
						}
					}
					body = append(body, Set(st(e), Vr(nm, in)))
					body = append(body, whole(e)...)
				}
			}
		}
	}
	g.Fns = append(g.Fns, mainFn(body...))
	return g
}

func genMemPaths(x *Enum) {
	for i, t := range pathTypes(x.Pick(3, 4)) {
		for _, o := range pathOrigins() {
			for what := 0; what < 3; what++ {
				t, o, what := t, o, what
				if what == 2 && (t.K == KStruct && t.Fs[1].T == TI32 || t.El == TI32) {
					continue
				}
				x.Prog(k("path:%d:%s:%s:%d", i, t, o.name, what), func() *Pg { return pathProg(t, o, what) })
			}
		}
	}
}
