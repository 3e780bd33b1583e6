package main

// C14: sizes, offsets and blocks of memory agree with each other.

func init() {
	register(&Family{
		ID:        "C14",
		Technique: "exhaustive enumeration of type shapes, their sizes, offsets, strides and heap blocks against a layout model, executed on a bounds-checked explicit-state machine",
		Rule: "Every struct of at most 3 fields over 12 field types and of 4 fields over 8 (4 over 12 and 5 over 6 in the thorough tier), and every union of at most 3 fields, and 80 arrays, arrays of arrays and structs of them in 13 structs and unions: @sizeof of it, of arrays and of structs and unions that contain it, the offset of every field, the stride of arrays and pointers, " +
			"then locals, arrays and heap blocks of it where every field of every element is written with its own value and read back before and after @realloc grows and shrinks the block. Every @alloc and @realloc of 1 to 17 elements of 13 element types with lengths of every integer type.",
		Note: "Sizes and offsets are those of the C layout of a 64 bit platform, which is what the emitted module uses. The machine refuses every access out of the bounds of its object.",
		Gen:  func(x *Enum) { genLayout(x); genWide(x, "C14") },
	})
}

func layoutFieldTypes() (ts []*Ty, decls []*Ty) {
	in := StructT("In", P("x", TI8, "y", TI32)...)
	un := UnionT("Un", P("x", TI8, "y", TI16)...)
	return []*Ty{TI8, TI64, TI16, TI32, TF64, Ptr(TI32), TU8, TF32, TI1, Arr(3, TI16), in, un}, []*Ty{in, un}
}

// plainVal is a literal of t, or of the first field of a union.
func fieldVal(t *Ty, n int) *E {
	switch t.K {
	case KUnion:
		return mkval(t.Fs[len(t.Fs)-1].T, n)
	case KPtr:
		return Cast(t, Iv(TI64, int64(n)))
	}
	return mkval(t, n)
}

// layoutLeaves lists scalars that can be printed.
func layoutLeaves(e *E) []*E {
	switch e.T.K {
	case KStruct:
		var r []*E
		for _, f := range e.T.Fs {
			r = append(r, layoutLeaves(Field(e, f.N))...)
		}
		return r
	case KUnion:
		return []*E{Field(e, e.T.Fs[len(e.T.Fs)-1].N)}
	case KArr:
		var r []*E
		for i := 0; i < e.T.N; i++ {
			r = append(r, layoutLeaves(Idx(e, N32(int64(i))))...)
		}
		return r
	case KPtr:
		return []*E{Cast(TI64, e)}
	}
	return []*E{e}
}

func linesOf(es []*E) []*St {
	var r []*St
	for len(es) > 8 {
		r = append(r, Line(es[:8]...))
		es = es[8:]
	}
	if len(es) > 0 {
		r = append(r, Line(es...))
	}
	return r
}

func distinctFields(t *Ty) {
	for i := range t.Fs {
		t.Fs[i].N = string(rune('a' + i))
	}
}

// layoutFns are the functions that examine one struct or union.
func layoutFns(t *Ty, pre string) []*Fn {
	off := func(base, f *E) *E { return Bin("-", Cast(TI64, Addr(f)), Cast(TI64, Addr(base))) }
	v := Vr("v", t)
	wrap := StructT("W"+pre, P("h", TI8, "m", t, "t", TI8)...)
	uw := UnionT("X"+pre, P("h", TI8, "m", t)...)
	body := SS(Line(SizeOf(t), SizeOf(Arr(3, t)), SizeOf(Arr(2, Arr(3, t))), SizeOf(Ptr(t)), SizeOf(wrap), SizeOf(uw), SizeOf(Arr(2, wrap))))
	body = append(body, Decl("p", Alloc(t, N32(3))))
	p := Vr("p", Ptr(t))
	body = append(body, Decl("v", Deref(p)))
	var offs []*E
	for _, f := range t.Fs {
		offs = append(offs, off(v, Field(v, f.N)))
	}
	body = append(body, linesOf(offs)...)
	body = append(body, Line(Bin("-", Cast(TI64, Bin("+", p, N32(1))), Cast(TI64, p)), Bin("-", Cast(TI64, Addr(Idx(p, N32(2)))), Cast(TI64, p))))
	pw := Vr("w", Ptr(wrap))
	body = append(body, Decl("w", Alloc(wrap, N32(2))))
	body = append(body, Line(off(Deref(pw), Field(pw, "m")), off(Deref(pw), Field(pw, "t")), Bin("-", Cast(TI64, Addr(Idx(pw, N32(1)))), Cast(TI64, pw))))
	a := fnOf("a"+pre, nil, nil, body...)

	if t.K == KUnion {
		// writing the widest field and reading every field of the same bytes
		var b []*St
		b = append(b, Decl("p", Alloc(t, N32(3))))
		for i := 0; i < 3; i++ {
			for _, f := range t.Fs {
				b = append(b, Set(Field(Idx(p, N32(int64(i))), f.N), fieldVal(f.T, 10*i)))
				b = append(b, linesOf(layoutLeaves(Field(Idx(p, N32(int64(i))), f.N)))...)
				for _, g := range t.Fs {
					if g.T.isInt() && f.T.isInt() && g.T.Bits <= f.T.Bits {
						b = append(b, Line(Field(Idx(p, N32(int64(i))), g.N)))
					}
				}
			}
		}
		for i := 0; i < 3; i++ {
			b = append(b, linesOf(layoutLeaves(Field(Idx(p, N32(int64(i))), t.Fs[len(t.Fs)-1].N)))...)
		}
		b = append(b, Free(p))
		// a union that starts as the value of one field has room for all of them
		var c []*St
		for i, f := range t.Fs {
			if f.T.K == KUnion {
				continue
			}
			for form := 0; form < 4; form++ {
				n := k("u%d%d", i, form)
				u, bf, af := Vr(n, t), Vr("b"+n, TI64), Vr("a"+n, TI64)
				c = append(c, Decl("b"+n, Iv(TI64, 77)))
				switch form {
				case 0:
					c = append(c, DeclT(n, t, fieldVal(f.T, 3)))
				case 1:
					c = append(c, Decl("v"+n, fieldVal(f.T, 3)), DeclT(n, t, Vr("v"+n, f.T)))
				case 2:
					c = append(c, Decl(n, Deref(Alloc(t, N32(1)))), Set(u, fieldVal(f.T, 3)))
				case 3:
					c = append(c, Decl("w"+n, StructL(wrap, []string{"h", "t", "m"}, Iv(TI8, 5), Iv(TI8, 6), fieldVal(f.T, 3))))
					u = Field(Vr("w"+n, wrap), "m")
				}
				c = append(c, Decl("a"+n, Iv(TI64, 88)))
				c = append(c, linesOf(layoutLeaves(Field(u, f.N)))...)
				for j, g := range t.Fs {
					c = append(c, Set(Field(u, g.N), fieldVal(g.T, 20+j)))
					c = append(c, linesOf(layoutLeaves(Field(u, g.N)))...)
				}
				c = append(c, Line(bf, af))
				if form == 3 {
					c = append(c, Line(Field(Vr("w"+n, wrap), "h"), Field(Vr("w"+n, wrap), "t")))
				}
				c = append(c, Decl("c"+n, u))
				c = append(c, linesOf(layoutLeaves(Field(Vr("c"+n, t), t.Fs[len(t.Fs)-1].N)))...)
			}
		}
		return []*Fn{a, fnOf("b"+pre, nil, nil, b...), fnOf("c"+pre, nil, nil, c...)}
	}

	fill := func(e *E, n int) (r []*St) {
		for i, f := range t.Fs {
			r = append(r, Set(Field(e, f.N), fieldVal(f.T, n+7*i)))
		}
		return r
	}
	var b []*St
	b = append(b, Decl("p", Alloc(t, N32(2))))
	at := func(i int) *E { return Idx(p, N32(int64(i))) }
	b = append(b, fill(at(1), 10)...)
	b = append(b, fill(at(0), 40)...)
	b = append(b, linesOf(layoutLeaves(at(1)))...)
	b = append(b, Set(p, Realloc(p, N32(4))))
	b = append(b, fill(at(3), 20)...)
	b = append(b, fill(at(2), 30)...)
	for i := 0; i < 4; i++ {
		b = append(b, linesOf(layoutLeaves(at(i)))...)
	}
	b = append(b, Decl("v", at(3)), Decl("arr", ArrL(Arr(2, t), at(0), at(1))))
	arr := Vr("arr", Arr(2, t))
	// one field changed at a time
	for i, f := range t.Fs {
		b = append(b, Set(Field(v, f.N), fieldVal(f.T, 60+i)))
		b = append(b, linesOf(layoutLeaves(v))...)
		b = append(b, Set(Field(Idx(arr, N32(1)), f.N), fieldVal(f.T, 70+i)))
	}
	b = append(b, linesOf(layoutLeaves(Idx(arr, N32(0))))...)
	b = append(b, linesOf(layoutLeaves(Idx(arr, N32(1))))...)
	b = append(b, Free(p))
	// inside of unions that lie next to each other
	au := Arr(2, uw)
	xs := Vr("xs", au)
	ux := Field(Idx(xs, N32(1)), "m")
	uy := Field(Idx(xs, N32(0)), "m")
	d := SS(Decl("x", Deref(Alloc(uw, N32(1)))), Decl("xs", ArrL(au, Vr("x", uw), Vr("x", uw))))
	for i, f := range t.Fs {
		d = append(d, Set(Field(ux, f.N), fieldVal(f.T, 20+i)), Set(Field(uy, f.N), fieldVal(f.T, 30+i)))
	}
	d = append(d, linesOf(layoutLeaves(ux))...)
	d = append(d, linesOf(layoutLeaves(uy))...)
	for i, f := range t.Fs {
		d = append(d, Set(Field(uy, f.N), fieldVal(f.T, 40+i)))
	}
	d = append(d, linesOf(layoutLeaves(ux))...)
	d = append(d, linesOf(layoutLeaves(uy))...)
	d = append(d, Set(Vr("x", uw), ux))
	d = append(d, linesOf(layoutLeaves(Field(Vr("x", uw), "m")))...)
	return []*Fn{a, fnOf("b"+pre, nil, nil, b...), fnOf("d"+pre, nil, nil, d...)}
}

// nestedTypes are arrays of everything, of every small length, also of arrays
// and inside of structs, and unions of structs.
func nestedTypes() (ts, decls []*Ty) {
	base, d := layoutFieldTypes()
	sc := []*Ty{TI8, TI16, TI32, TI64, TF64, TI1, TF32, base[10]}
	for _, e := range sc {
		for n := 1; n <= 4; n++ {
			ts = append(ts, Arr(n, e))
			for m := 1; m <= 3 && n <= 3; m++ {
				ts = append(ts, Arr(n, Arr(m, e)))
			}
		}
	}
	ts = append(ts, Arr(2, Arr(1, Arr(2, TI64))), Arr(1, Arr(2, Arr(1, TI16))), Arr(1, Arr(1, Arr(3, TI32))))
	for i, e := range []*Ty{Arr(2, Arr(1, TI32)), Arr(1, TI64), Arr(3, base[10]), Arr(1, Arr(1, TI16)), base[10]} {
		n := StructT(k("Ns%d", i), P("x", TI8, "y", e)...)
		d = append(d, n)
		ts = append(ts, n, Arr(2, n))
	}
	return ts, d
}

func layoutProg(ts, base []*Ty) *Pg {
	g := &Pg{Types: append([]*Ty{}, base...)}
	var mb []*St
	for i, t := range ts {
		pre := k("%d", i)
		t.Nm = "S" + pre
		distinctFields(t)
		g.Types = append(g.Types, t, StructT("W"+pre, P("h", TI8, "m", t, "t", TI8)...), UnionT("X"+pre, P("h", TI8, "m", t)...))
		for _, f := range layoutFns(t, pre) {
			g.Fns = append(g.Fns, f)
			mb = append(mb, Ex(CallF(f)))
		}
	}
	g.Fns = append(g.Fns, mainFn(mb...))
	return g
}

func genLayout(x *Enum) {
	fts, _ := layoutFieldTypes()
	var batch [][]int
	kind := KStruct
	emit := func() {
		if len(batch) == 0 {
			return
		}
		b, kd := batch, kind
		batch = nil
		name := "struct"
		if kd == KUnion {
			name = "union"
		}
		x.Prog(k("%s:%s..%s", name, keyOf(b[0]), keyOf(b[len(b)-1])), func() *Pg {
			fts, base := layoutFieldTypes()
			var ts []*Ty
			for _, sel := range b {
				t := &Ty{K: kd}
				for _, s := range sel {
					t.Fs = append(t.Fs, Fld{"", fts[s]})
				}
				ts = append(ts, t)
			}
			return layoutProg(ts, base)
		})
	}
	add := func(sel []int) {
		batch = append(batch, append([]int{}, sel...))
		if len(batch) == 6 {
			emit()
		}
	}
	var rec func(sel []int, n, m int)
	rec = func(sel []int, n, m int) {
		if n == 0 {
			add(sel)
			return
		}
		for i := 0; i < m; i++ {
			rec(append(sel, i), n-1, m)
		}
	}
	all := len(fts)
	for n := 1; n <= 3; n++ {
		rec(nil, n, all)
		emit()
	}
	rec(nil, 4, x.Pick(8, all))
	emit()
	// longer ones: every rotation and stride over the field types
	for n := 5; n <= 8; n++ {
		for r := 0; r < all; r++ {
			for st := 1; st < 6; st++ {
				var sel []int
				for i := 0; i < n; i++ {
					sel = append(sel, (r+i*st)%all)
				}
				add(sel)
			}
		}
		emit()
	}
	kind = KUnion
	// arrays are the last field of no union: its bytes are compared through scalars
	for n := 1; n <= 3; n++ {
		var rec func(sel []int, n int)
		rec = func(sel []int, n int) {
			if n == 0 {
				add(sel)
				return
			}
			for i := 0; i < all; i++ {
				if fts[i].K == KUnion || fts[i].K == KPtr {
					continue
				}
				rec(append(sel, i), n-1)
			}
		}
		rec(nil, n)
		emit()
	}
	kind = KStruct
	if x.Thorough() {
		rec(nil, 5, 6)
		emit()
	}
	nts, _ := nestedTypes()
	for i := range nts {
		for form := 0; form < 3; form++ {
			i, form := i, form
			x.Prog(k("nested:%d:%d", i, form), func() *Pg {
				nts, base := nestedTypes()
				n := nts[i]
				var ts []*Ty
				mk := func(kd TK, l ...*Ty) {
					t := &Ty{K: kd}
					for _, f := range l {
						t.Fs = append(t.Fs, Fld{"", f})
					}
					ts = append(ts, t)
				}
				switch form {
				case 0:
					for _, f := range []*Ty{TI8, TI16, TI64} {
						mk(KStruct, f, n)
						mk(KStruct, n, f)
					}
				case 1:
					mk(KStruct, n)
					mk(KStruct, TI8, n, TI8)
					mk(KStruct, TI16, n, TI64)
					mk(KStruct, n, TI8, n)
				case 2:
					for _, f := range []*Ty{TI8, TI16, TI64} {
						mk(KUnion, n, f)
					}
				}
				return layoutProg(ts, base)
			})
		}
	}
	// blocks
	in := StructT("In", P("x", TI8, "y", TI32)...)
	for _, el := range []*Ty{TI1, TI8, TI16, TI32, TI64, TU8, TU16, TU32, TU64, TF32, TF64, in, Arr(3, TI16)} {
		for _, lt := range intTypes {
			for n := 1; n <= 17; n++ {
				if n > 5 && n != 8 && n != 17 && lt != TI32 {
					continue
				}
				el, lt, n := el, lt, n
				x.Prog(k("block:%s:%s:%d", el, lt, n), func() *Pg {
					p := Vr("p", Ptr(el))
					at := func(i int) *E { return Idx(p, N32(int64(i))) }
					length := func(e *E) *E { // @realloc takes a signed length
						if lt.K == KUint {
							return Cast(TI64, e)
						}
						return e
					}
					b := SS(Decl("n", Iv(lt, int64(n))), Decl("p", Alloc(el, Vr("n", lt))), Decl("q", Alloc(el, Vr("n", lt))))
					for i := 0; i < n; i++ {
						b = append(b, Set(at(i), fieldVal(el, i)), Set(Idx(Vr("q", Ptr(el)), N32(int64(i))), fieldVal(el, 50+i)))
					}
					for i := 0; i < n; i++ {
						b = append(b, linesOf(layoutLeaves(at(i)))...)
					}
					b = append(b, Set(p, Realloc(p, length(Bin("+", Vr("n", lt), Iv(lt, 3))))))
					for i := 0; i < 3; i++ {
						b = append(b, Set(at(n+i), fieldVal(el, 30+i)))
					}
					for i := 0; i < n+3; i++ {
						b = append(b, linesOf(layoutLeaves(at(i)))...)
					}
					b = append(b, Free(Vr("q", Ptr(el))))
					b = append(b, Set(p, Realloc(p, length(Iv(lt, 1)))))
					b = append(b, linesOf(layoutLeaves(at(0)))...)
					b = append(b, Free(p))
					g := pg(mainFn(b...))
					if el.K == KStruct {
						g.Types = []*Ty{el}
					}
					return g
				})
			}
		}
	}
}
