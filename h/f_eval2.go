package main

// C12, second part: an operand that is read before a later operand changes it
// keeps the value that it had.

func genReadOrder(x *Enum) {
	big := StructT("RB", P("x", TI8, "y", TI64, "z", TI32)...)
	types := []*Ty{TI32, TI8, TU64, TF32, TF64, TStr, big, Arr(2, TI32)}
	places := []string{"local", "global", "field", "elem", "ptr", "ptrelem", "ptrfield", "param"}
	ctxs := []string{"bin", "binr", "cmp", "print", "args", "method", "lambdaargs", "elems", "fields", "multi", "multiset", "ret", "index"}
	var seqs []string
	for _, a := range []string{"r", "w", "i"} {
		for _, b := range []string{"r", "w", "i"} {
			seqs = append(seqs, a+b)
			for _, c := range []string{"r", "w", "i"} {
				seqs = append(seqs, a+b+c)
				if x.Thorough() {
					for _, d := range []string{"r", "w", "i"} {
						seqs = append(seqs, a+b+c+d)
					}
				}
			}
		}
	}
	for _, t := range types {
		num := t != TStr && t.K != KStruct && t.K != KArr
		for _, pl := range places {
			for _, c := range ctxs {
				if !num && (c == "bin" && t != TStr || c == "binr" || c == "index") {
					continue
				}
				if c == "cmp" && !num && t != TStr || c == "index" && t != TI32 {
					continue
				}
				for _, s := range seqs {
					if c == "cmp" && len(s) != 2 {
						continue
					}
					if !num && containsByte(s, 'i') {
						continue
					}
					t, pl, c, s := t, pl, c, s
					x.Prog(k("readorder:%s:%s:%s:%s", t, pl, c, s), func() *Pg { return readOrder(big, t, pl, c, s) })
				}
			}
		}
	}
}

func containsByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

func readOrder(big, t *Ty, pl, c, s string) *Pg {
	hs := StructT("RH", P("q", TI8, "v", t)...)
	g := &Pg{Types: []*Ty{big, hs}}
	mk := func(n int) *E {
		switch {
		case t == TStr:
			return Str(k("s%d", n))
		case t == big:
			return StructL(big, []string{"x", "y", "z"}, Iv(TI8, int64(n)), Iv(TI64, int64(n*10)), N32(int64(n*100)))
		case t.K == KArr:
			return ArrL(t, N32(int64(n)), N32(int64(n+50)))
		case t == TF32 || t == TF64:
			return Fl(t, k("%d.5", n))
		}
		return Iv(t, int64(n))
	}
	// w changes what p points to and returns its new value
	pv := Vr("p", Ptr(t))
	var upd []*St
	switch {
	case t == TStr:
		upd = SS(Set(Deref(pv), Bin("+", Deref(pv), Str("w"))))
	case t == big:
		upd = SS(Set(Field(pv, "y"), Bin("+", Field(pv, "y"), Iv(TI64, 1))), Set(Field(pv, "z"), Bin("+", Field(pv, "z"), N32(3))))
	case t.K == KArr:
		upd = SS(Set(Idx(Par(Deref(pv)), N32(1)), Bin("+", Idx(Par(Deref(pv)), N32(1)), N32(1))))
	default:
		upd = SS(Set(Deref(pv), Bin("+", Deref(pv), mk(1))))
	}
	w := fnOf("w", R(t), P("p", Ptr(t)), append(upd, Ret(Deref(pv)))...)
	g.Fns = append(g.Fns, w)
	var pre []*St
	var ps []Fld
	var as []*E
	var place *E
	init := mk(1)
	switch pl {
	case "local":
		pre, place = SS(Decl("v", init)), Vr("v", t)
	case "param":
		ps, as, place = P("v", t), []*E{init}, Vr("v", t)
	case "global":
		if t.K == KStruct || t.K == KArr {
			pre, place = SS(Decl("v", init)), Vr("v", t)
			break
		}
		g.Globals = SS(Decl("gv", init))
		place = Vr("gv", t)
	case "field":
		pre, place = SS(Decl("h", StructL(hs, []string{"q", "v"}, Iv(TI8, 1), init))), Field(Vr("h", hs), "v")
	case "elem":
		pre, place = SS(Decl("a", ArrL(Arr(3, t), mk(7), init, mk(8)))), Idx(Vr("a", Arr(3, t)), N32(1))
	case "ptr":
		pre, place = SS(Decl("v", init), Decl("pp", Addr(Vr("v", t)))), Deref(Vr("pp", Ptr(t)))
	case "ptrelem":
		pre, place = SS(Decl("hp", Alloc(t, N32(2))), Set(Idx(Vr("hp", Ptr(t)), N32(1)), init)), Idx(Vr("hp", Ptr(t)), N32(1))
	case "ptrfield":
		pre, place = SS(Decl("h", StructL(hs, []string{"q", "v"}, Iv(TI8, 1), init)), Decl("pp", Addr(Vr("h", hs)))), Field(Vr("pp", Ptr(hs)), "v")
	}
	leaf := func(i int) *E {
		switch s[i] {
		case 'w':
			if pl == "ptr" {
				return CallF(w, Vr("pp", Ptr(t)))
			}
			return CallF(w, Addr(place))
		case 'i':
			if place.Op == "deref" {
				return PreInc("++", Par(place))
			}
			return PreInc("++", place)
		}
		return place
	}
	var es []*E
	for i := range s {
		es = append(es, leaf(i))
	}
	show := func(e *E) []*St { return linesOf(leaves(e)) }
	var b []*St
	n := len(es)
	var qs []Fld
	var showPs []*St
	for i := 0; i < n; i++ {
		qs = append(qs, Fld{k("q%d", i), t})
		showPs = append(showPs, show(Vr(k("q%d", i), t))...)
	}
	f := fnOf("f", nil, qs, showPs...)
	switch c {
	case "bin":
		e := es[0]
		for _, o := range es[1:] {
			e = Bin("+", e, o)
		}
		b = append(SS(Decl("r", e)), show(Vr("r", t))...)
	case "binr":
		e := es[n-1]
		for i := n - 2; i >= 0; i-- {
			e = Bin("-", es[i], Par(e))
		}
		b = append(SS(Decl("r", e)), show(Vr("r", t))...)
	case "cmp":
		b = SS(Line(Bin("==", es[0], es[1])), Line(Bin("<", leaf(0), leaf(1))))
	case "print":
		if t.K == KStruct || t.K == KArr {
			var fl []*E
			for _, e := range es {
				if e.Op == "call" {
					break
				}
				fl = append(fl, leaves(e)...)
			}
			fl = append(fl, leaves(place)...)
			b = linesOf(fl)
			break
		}
		b = SS(Line(es...))
	case "args":
		g.Fns = append(g.Fns, f)
		b = SS(Ex(CallF(f, es...)))
	case "method":
		g.Fns = append(g.Fns, f)
		b = SS(Ex(MCall(f, es...)))
		if s[0] == 'i' || place.Op == "deref" && s[0] == 'r' {
			b = SS(Ex(CallF(f, es...)))
		}
	case "lambdaargs":
		b = SS(Decl("l", Lam(fnOf("", nil, qs, showPs...))), Ex(Call(Vr("l", f.ty()), es...)))
	case "elems":
		at := Arr(n, t)
		b = SS(Decl("r", ArrL(at, es...)))
		for i := 0; i < n; i++ {
			b = append(b, show(Idx(Vr("r", at), N32(int64(i))))...)
		}
	case "fields":
		st := StructT("RF", qs...)
		g.Types = append(g.Types, st)
		var ns []string
		for _, q := range qs {
			ns = append(ns, q.N)
		}
		b = SS(Decl("r", StructL(st, ns, es...)))
		for _, q := range qs {
			b = append(b, show(Field(Vr("r", st), q.N))...)
		}
	case "multi":
		var ns []string
		for _, q := range qs {
			ns = append(ns, q.N)
		}
		b = append(SS(DeclM(ns, es...)), showPs...)
	case "multiset":
		var ts []*E
		for i, q := range qs {
			b = append(b, Decl(q.N, mk(60+i)))
			ts = append(ts, Vr(q.N, t))
		}
		b = append(b, SetM(ts, es...))
		b = append(b, showPs...)
	case "ret":
		var ts []*Ty
		var ns []string
		for _, q := range qs {
			ts = append(ts, t)
			ns = append(ns, q.N)
		}
		if pl == "global" || pl == "param" {
			mf := fnOf("mf", R(ts...), ps, append(append([]*St{}, pre...), Ret(es...))...)
			g.Fns = append(g.Fns, mf)
			pre = nil
			var vs []*E
			for _, p := range ps {
				vs = append(vs, Vr(p.N, p.T))
			}
			b = append(SS(DeclM(ns, CallF(mf, vs...))), showPs...)
			break
		}
		mf := fnOf("mf", R(ts...), nil, append(append([]*St{}, pre...), Ret(es...))...)
		g.Fns = append(g.Fns, mf)
		b = append(SS(DeclM(ns, CallF(mf))), showPs...)
	case "index":
		at := Arr(40, TI32)
		e := Idx(Vr("tab", at), es[0])
		for _, o := range es[1:] {
			e = Bin("+", Bin("*", e, N32(3)), Idx(Vr("tab", at), o))
		}
		var vs []*E
		for i := 0; i < 40; i++ {
			vs = append(vs, N32(int64(i*i)))
		}
		b = SS(Decl("tab", ArrL(at, vs...)), Line(e))
	}
	body := append(append([]*St{}, pre...), b...)
	body = append(body, show(place)...)
	if c == "ret" && len(ps) == 0 && pl != "global" {
		body = append(append([]*St{}, pre...), b...)
	}
	run := fnOf("run", nil, ps, body...)
	g.Fns = append(g.Fns, run, mainFn(Ex(CallF(run, as...))))
	return g
}
