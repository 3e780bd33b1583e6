package main

// C15: stores reach exactly the location they name, copies are independent.

func init() {
	register(&Family{
		ID:        "C15",
		Technique: "explicit-state exploration of all bounded sequences of memory operations against a byte-accurate reference memory",
		Rule: "Every sequence of 2 operations of 46 and of 3 operations of 26 (3 of 46, and 4 of 26 in the thorough tier) over two structs with nested struct, array and pointer fields, two arrays, an array of structs, heap blocks and pointers into all of them: " +
			"whole and partial copies, stores through pointers, fields, indices and pointers to pointers, calls by value and by pointer, retargeting of pointers; the whole state is printed after every operation. " +
			"Then every element of arrays of 1 to 9 elements of 9 element types, of nested arrays up to 3 dimensions and of nested structs up to depth 5 is written alone and everything is read back, in locals, parameters, the heap and behind pointers. A pointer to each of 15 types is moved by every boundary offset of the 8 integer types, given in 5 forms, and the distance compared.",
		Note: "Bounded by the number of operations. The memory of the model is byte accurate, with C layout.",
		Gen:  func(x *Enum) { genMemory(x); genWide(x, "C15") },
	})
}

type memWorld struct {
	q, p, u  *Ty
	set      *Fn // set(x P) P: by value
	mut      *Fn // mut(x *P)
	pick     *Fn // pick(x *P, y *P, n i32) *P
	mk       *Fn
	show     *Fn
	fillArr  *Fn
	types    []*Ty
	init     []*St
	showCall *St
}

func newMemWorld() *memWorld {
	w := &memWorld{}
	w.q = StructT("Q", P("x", TI16, "y", TI64)...)
	w.p = StructT("P", P("a", TI32, "b", TI8, "in", w.q, "arr", Arr(3, TI16), "c", TI64)...)
	w.p.Fs = append(w.p.Fs, Fld{"next", Ptr(w.p)})
	p, q := w.p, w.q
	pv := func(n string) *E { return Vr(n, p) }
	pf := func(e *E) []*E {
		return []*E{Field(e, "a"), Field(e, "b"), Field(Field(e, "in"), "x"), Field(Field(e, "in"), "y"),
			Idx(Field(e, "arr"), N32(0)), Idx(Field(e, "arr"), N32(1)), Idx(Field(e, "arr"), N32(2)), Field(e, "c")}
	}
	w.mk = fnOf("mk", R(p), P("n", TI32, "nx", Ptr(p)),
		Ret(StructL(p, []string{"a", "b", "in", "arr", "c", "next"},
			V32("n"), Cast(TI8, Bin("+", V32("n"), N32(1))),
			StructL(q, []string{"x", "y"}, Cast(TI16, Bin("+", V32("n"), N32(2))), Cast(TI64, Bin("+", V32("n"), N32(3)))),
			ArrL(Arr(3, TI16), Cast(TI16, Bin("+", V32("n"), N32(4))), Cast(TI16, Bin("+", V32("n"), N32(5))), Cast(TI16, Bin("+", V32("n"), N32(6)))),
			Cast(TI64, Bin("+", V32("n"), N32(7))), Vr("nx", Ptr(p)))))
	w.set = fnOf("set", R(p), P("x", p),
		Set(Field(pv("x"), "a"), N32(61)), Set(Idx(Field(pv("x"), "arr"), N32(2)), Iv(TI16, 62)), Set(Field(Field(pv("x"), "in"), "y"), Iv(TI64, 63)), Ret(pv("x")))
	px := Vr("x", Ptr(p))
	w.mut = fnOf("mut", nil, P("x", Ptr(p), "n", TI32),
		Set(Field(px, "a"), Bin("+", Field(px, "a"), V32("n"))), Set(Idx(Field(px, "arr"), N32(0)), Cast(TI16, V32("n"))), Set(Field(Field(px, "in"), "x"), Cast(TI16, V32("n"))))
	w.pick = fnOf("pick", R(Ptr(p)), P("x", Ptr(p), "y", Ptr(p), "n", TI1),
		If(Vr("n", TI1), SS(Ret(Vr("x", Ptr(p))))), Ret(Vr("y", Ptr(p))))
	w.fillArr = fnOf("fill", R(Arr(3, TI32)), P("x", Arr(3, TI32), "n", TI32),
		Set(Idx(Vr("x", Arr(3, TI32)), N32(1)), V32("n")), Ret(Vr("x", Arr(3, TI32))))
	// show prints everything
	a3 := Arr(3, TI32)
	ps2 := Arr(2, p)
	var sh []*St
	for _, n := range []string{"p", "q"} {
		sh = append(sh, Print(append(pf(Vr(n, Ptr(p))), Str("|"))...))
	}
	for i := 0; i < 2; i++ {
		sh = append(sh, Print(append(pf(Idx(Vr("ps", Ptr(p)), N32(int64(i)))), Str("|"))...))
		sh = append(sh, Print(append(pf(Idx(Vr("hp", Ptr(p)), N32(int64(i)))), Str("|"))...))
	}
	sh = append(sh, Print(Field(Vr("pp", Ptr(p)), "a"), Field(Field(Vr("pp", Ptr(p)), "next"), "a"), Str("|")))
	var ar []*E
	for i := 0; i < 3; i++ {
		ar = append(ar, Idx(Vr("A", Ptr(TI32)), N32(int64(i))), Idx(Vr("B", Ptr(TI32)), N32(int64(i))), Idx(Vr("h", Ptr(TI32)), N32(int64(i))))
	}
	ar = append(ar, Deref(Vr("pa", Ptr(TI32))), Str("\n"))
	sh = append(sh, Print(ar...))
	w.show = fnOf("show", nil, P("p", Ptr(p), "q", Ptr(p), "ps", Ptr(p), "hp", Ptr(p), "pp", Ptr(p), "A", Ptr(TI32), "B", Ptr(TI32), "h", Ptr(TI32), "pa", Ptr(TI32)), sh...)
	w.showCall = Ex(CallF(w.show, Addr(pv("p")), Addr(pv("q")), Cast(Ptr(p), Vr("ps", ps2)), Vr("hp", Ptr(p)), Vr("pp", Ptr(p)), Cast(Ptr(TI32), Vr("A", a3)), Cast(Ptr(TI32), Vr("B", a3)), Vr("h", Ptr(TI32)), Vr("pa", Ptr(TI32))))
	w.types = []*Ty{q, p}
	null := Cast(Ptr(p), Iv(TI64, 0))
	w.init = []*St{
		Decl("p", CallF(w.mk, N32(1), null)),
		Decl("q", CallF(w.mk, N32(11), Addr(pv("p")))),
		Set(Field(pv("p"), "next"), Addr(pv("q"))),
		Decl("ps", ArrL(ps2, CallF(w.mk, N32(21), Addr(pv("p"))), CallF(w.mk, N32(31), Addr(pv("q"))))),
		Decl("hp", Alloc(p, N32(2))),
		Set(Idx(Vr("hp", Ptr(p)), N32(0)), CallF(w.mk, N32(41), Addr(pv("q")))),
		Set(Idx(Vr("hp", Ptr(p)), N32(1)), CallF(w.mk, N32(51), Addr(pv("p")))),
		Decl("pp", Addr(pv("p"))),
		Decl("ppp", Addr(Vr("pp", Ptr(p)))),
		Decl("A", ArrL(a3, N32(71), N32(72), N32(73))),
		Decl("B", ArrL(a3, N32(81), N32(82), N32(83))),
		Decl("h", Alloc(TI32, N32(3))),
		Set(Idx(Vr("h", Ptr(TI32)), N32(0)), N32(91)),
		Set(Idx(Vr("h", Ptr(TI32)), N32(1)), N32(92)),
		Set(Idx(Vr("h", Ptr(TI32)), N32(2)), N32(93)),
		Decl("pa", Addr(Idx(Vr("A", a3), N32(1)))),
		Decl("pA", Addr(Vr("A", a3))),
	}
	return w
}

// ops are the operations; the first `small` of them are the reduced alphabet.
func (w *memWorld) ops() [][]*St {
	p := w.p
	a3 := Arr(3, TI32)
	pv, qv := Vr("p", p), Vr("q", p)
	pp, hp := Vr("pp", Ptr(p)), Vr("hp", Ptr(p))
	ppp := Vr("ppp", Ptr(Ptr(p)))
	ps := Vr("ps", Arr(2, p))
	A, B, h, pa := Vr("A", a3), Vr("B", a3), Vr("h", Ptr(TI32)), Vr("pa", Ptr(TI32))
	pA := Vr("pA", Ptr(a3))
	i := func(n int64) *E { return N32(n) }
	return [][]*St{
		SS(Set(qv, pv)),
		SS(Set(Deref(pp), qv)),
		SS(Set(pv, Deref(pp))),
		SS(Set(pp, Addr(qv))),
		SS(Set(pp, Addr(Idx(ps, i(1))))),
		SS(Set(pp, Field(pp, "next"))),
		SS(Set(Field(pp, "a"), i(101))),
		SS(Set(Idx(Field(pp, "arr"), i(1)), Iv(TI16, 102))),
		SS(Set(Field(Field(pp, "in"), "y"), Iv(TI64, 103))),
		SS(Set(Field(pv, "in"), Field(qv, "in"))),
		SS(Set(Idx(ps, i(0)), pv)),
		SS(Set(pv, Idx(ps, i(1)))),
		SS(Set(Idx(hp, i(1)), Deref(pp))),
		SS(Set(qv, Idx(hp, i(0)))),
		SS(Decl("t", pv), Set(pv, qv), Set(qv, Vr("t", p))),
		SS(Set(Field(qv, "arr"), Field(pv, "arr"))),
		SS(Set(pv, CallF(w.set, qv))),
		SS(Ex(CallF(w.mut, pp, i(5)))),
		SS(Set(A, B)),
		SS(Set(Idx(A, i(1)), Idx(B, i(2)))),
		SS(Set(Deref(pa), i(104))),
		SS(Set(pa, Addr(Idx(B, i(2))))),
		SS(Set(B, CallF(w.fillArr, A, i(105)))),
		SS(Set(Idx(h, i(1)), Deref(pa))),
		SS(Set(Field(Deref(ppp), "a"), i(106))),
		SS(Set(Field(qv, "next"), pp)),
		// the larger alphabet
		SS(Set(Deref(ppp), Addr(Idx(ps, i(0))))),
		SS(Set(Field(Idx(ps, i(1)), "a"), i(107))),
		SS(Set(Field(Field(Idx(ps, i(0)), "in"), "x"), Iv(TI16, 108))),
		SS(Set(Idx(ps, i(0)), Idx(ps, i(1)))),
		SS(Set(Idx(Field(Idx(hp, i(0)), "arr"), i(2)), Iv(TI16, 109))),
		SS(Set(Field(hp, "c"), Iv(TI64, 110))),
		SS(Set(pp, Bin("+", hp, i(1)))),
		SS(Set(Deref(Bin("+", hp, i(1))), pv)),
		SS(Decl("f", Addr(Field(pv, "a"))), Set(Deref(Vr("f", Ptr(TI32))), i(111))),
		SS(Decl("g", Addr(Idx(Field(qv, "arr"), i(2)))), Set(Deref(Vr("g", Ptr(TI16))), Iv(TI16, 112))),
		SS(Decl("in", Addr(Field(pp, "in"))), Set(Field(Vr("in", Ptr(w.q)), "x"), Iv(TI16, 113))),
		SS(Set(Idx(Deref(pA), i(0)), i(114))),
		SS(Set(Deref(pA), B)),
		SS(Set(B, Deref(pA))),
		SS(Set(pa, Bin("+", Cast(Ptr(TI32), A), i(2)))),
		SS(Set(pa, Bin("+", h, i(1)))),
		SS(Ex(PreInc("++", Field(pp, "a"))), Ex(PreInc("--", Idx(A, i(0))))),
		SS(Set(pp, CallF(w.pick, pp, hp, Bin("<", Field(pp, "a"), i(40))))),
		SS(Set(Field(Field(pp, "next"), "b"), Iv(TI8, 115))),
		SS(Set(Idx(Field(Field(pp, "next"), "arr"), i(0)), Cast(TI16, Idx(A, i(2))))),
	}
}

const memSmall = 26

func genMemory(x *Enum) {
	genAlikeFields(x)
	n := len(newMemWorld().ops())
	seq := func(ids ...int) {
		ids = append([]int{}, ids...)
		key := "seq:" + keyOf(ids)
		x.Prog(key, func() *Pg {
			w := newMemWorld()
			ops := w.ops()
			body := append([]*St{}, w.init...)
			body = append(body, w.showCall)
			for _, id := range ids {
				b := ops[id]
				if len(b) > 1 {
					body = append(body, Blk(b...))
				} else {
					body = append(body, b...)
				}
				body = append(body, w.showCall)
			}
			return &Pg{Types: w.types, Fns: []*Fn{w.mk, w.set, w.mut, w.pick, w.fillArr, w.show, mainFn(body...)}}
		})
	}
	for a := 0; a < n; a++ {
		seq(a)
		for b := 0; b < n; b++ {
			seq(a, b)
		}
	}
	genMemOffsets(x)
	genMemPaths(x)
	genMemArrays(x)
	genMemNested(x)
	m3 := x.Pick(memSmall, n)
	for a := 0; a < m3; a++ {
		for b := 0; b < m3; b++ {
			for c := 0; c < m3; c++ {
				seq(a, b, c)
			}
		}
	}
	if x.Thorough() {
		for a := 0; a < memSmall; a++ {
			for b := 0; b < memSmall; b++ {
				for c := 0; c < memSmall; c++ {
					for d := 0; d < memSmall; d++ {
						seq(a, b, c, d)
					}
				}
			}
		}
	}
}

func keyOf(ids []int) string {
	s := ""
	for i, d := range ids {
		if i > 0 {
			s += ","
		}
		s += k("%d", d)
	}
	return s
}

// val is a distinct value of type t.
func mkval(t *Ty, n int) *E {
	switch t.K {
	case KFloat:
		return Fl(t, k("%d.5", n%1000))
	case KPtr:
		return Str(k("s%d", n))
	case KBool:
		return Uv(t, uint64(n&1))
	case KStruct:
		var ns []string
		var es []*E
		for i, f := range t.Fs {
			ns = append(ns, f.N)
			es = append(es, mkval(f.T, n+i))
		}
		return StructL(t, ns, es...)
	case KArr:
		var es []*E
		for i := 0; i < t.N; i++ {
			es = append(es, mkval(t.El, n+i))
		}
		return ArrL(t, es...)
	}
	return Iv(t, int64(n%100)+1)
}

// leaves are the scalar places inside of e.
func leaves(e *E) []*E {
	switch e.T.K {
	case KStruct:
		var r []*E
		for _, f := range e.T.Fs {
			r = append(r, leaves(Field(e, f.N))...)
		}
		return r
	case KArr:
		var r []*E
		for i := 0; i < e.T.N; i++ {
			r = append(r, leaves(Idx(e, N32(int64(i))))...)
		}
		return r
	}
	return []*E{e}
}

func printAll(e *E) []*St {
	var r []*St
	ls := leaves(e)
	for len(ls) > 8 {
		r = append(r, Line(ls[:8]...))
		ls = ls[8:]
	}
	return append(r, Line(ls...))
}

// storages declares v of type t with an initial value in several places;
// every one gives the place to use and the statements before.
func storages(t *Ty, init *E) map[string]func() ([]*St, *E) {
	return map[string]func() ([]*St, *E){
		"local": func() ([]*St, *E) { return SS(Decl("v", init)), Vr("v", t) },
		"ptr":   func() ([]*St, *E) { return SS(Decl("v0", init), Decl("v", Addr(Vr("v0", t)))), Deref(Vr("v", Ptr(t))) },
		"heap": func() ([]*St, *E) {
			return SS(Decl("v", Alloc(t, N32(2))), Set(Idx(Vr("v", Ptr(t)), N32(1)), init), Set(Idx(Vr("v", Ptr(t)), N32(0)), init)), Idx(Vr("v", Ptr(t)), N32(1))
		},
	}
}

var storageNames = []string{"local", "ptr", "heap"}

func genMemArrays(x *Enum) {
	st := StructT("E", P("k", TI8, "v", TI64)...)
	els := []*Ty{TI8, TI16, TI32, TI64, TU8, TU64, TF32, TF64, TI1, TStr, st}
	for _, el := range els {
		for n := 1; n <= 9; n++ {
			for _, sn := range storageNames {
				el, n, sn := el, n, sn
				x.Prog(k("array:%s:%d:%s", el, n, sn), func() *Pg {
					t := Arr(n, el)
					var fns []*Fn
					for i := 0; i < n; i++ {
						pre, v := storages(t, mkval(t, 10))[sn]()
						body := append([]*St{}, pre...)
						body = append(body, Set(Idx(v, N32(int64(i))), mkval(el, 77)))
						body = append(body, printAll(v)...)
						fns = append(fns, fnOf(k("f%d", i), nil, nil, body...))
					}
					var mb []*St
					for _, f := range fns {
						mb = append(mb, Ex(CallF(f)))
					}
					g := &Pg{Fns: append(fns, mainFn(mb...))}
					if el.K == KStruct {
						g.Types = []*Ty{el}
					}
					return g
				})
			}
		}
	}
	// nested arrays, indexed with variables of every integer type
	for _, dims := range [][]int{{1, 1}, {2, 3}, {3, 2}, {4, 4}, {2, 2, 2}, {1, 3, 2}, {3, 1, 4}} {
		for _, it := range intTypes {
			for _, sn := range storageNames {
				dims, it, sn := dims, it, sn
				x.Prog(k("dims:%s:%s:%s", keyOf(dims), it, sn), func() *Pg {
					t := TI16
					for i := len(dims) - 1; i >= 0; i-- {
						t = Arr(dims[i], t)
					}
					pre, v := storages(t, mkval(t, 1))[sn]()
					body := append([]*St{}, pre...)
					inner := SS()
					place := v
					n := Vr("n", TI16)
					for d := range dims {
						place = Idx(place, Vr(k("i%d", d), it))
					}
					inner = append(inner, Set(place, n), Set(n, Bin("+", n, Iv(TI16, 1))))
					for d := len(dims) - 1; d >= 0; d-- {
						in := k("i%d", d)
						iv := Vr(in, it)
						inner = SS(ForI(Decl(in, Iv(it, 0)), Bin("<", iv, Iv(it, int64(dims[d]))), Set(iv, Bin("+", iv, Iv(it, 1))), inner...))
					}
					body = append(body, Decl("n", Iv(TI16, 500)))
					body = append(body, inner...)
					body = append(body, printAll(v)...)
					return pg(mainFn(body...))
				})
			}
		}
	}
}

// genMemOffsets: a pointer moved by n elements is n times the size of the
// element away, whatever the type and the size of n.
func genMemOffsets(x *Enum) {
	els := []struct {
		t    string
		size int64
	}{{"i8", 1}, {"i1", 1}, {"i16", 2}, {"u16", 2}, {"i32", 4}, {"f32", 4}, {"i64", 8}, {"f64", 8}, {"*i8", 8}, {"**i16", 8}, {"OS", 24}, {"OU", 8}, {"[3]i16", 6}, {"[2]OS", 48}, {"func(i32) i32", 8}}
	for _, el := range els {
		for _, it := range intTypes {
			for _, form := range []string{"var", "param", "lit", "call", "field"} {
				el, it, form := el, it, form
				x.Case(k("offset:%s:%s:%s", el.t, it, form), func() Case {
					src := "struct OS {\n  a i8\n  b i64\n  c i16\n}\nunion OU {\n  a i8\n  b i64\n}\nstruct OH {\n  q i8\n  n " + it.String() + "\n}\ntype EL = " + el.t + ";\n"
					src += k("func same(n %s) %s { return n; }\n", it, it)
					src += k("func show(p *EL, n %s) {\n  a := p + n;\n  b := p - n;\n  c := &p[n];\n  d := a - n;\n  @print(a as i64 - p as i64, p as i64 - b as i64, c as i64 - p as i64, d as i64 == p as i64, \"\\n\");\n}\n", it)
					src += "func main() {\n  p := @alloc(EL, 2);\n  o := @OH{q: 1 as i8, n: 0 as " + it.String() + "};\n"
					want := ""
					for i, e := range lits(it) {
						v := int64(e.U)
						if it.K == KInt {
							v = signed(e.U, it.Bits)
						}
						if h, l := v*el.size, v; h/el.size != l || h > 1<<55 || h < -1<<55 {
							continue
						}
						n := k("(%s)", litSrc(it, e.U))
						switch form {
						case "var":
							src += k("  v%d := %s;\n", i, n)
							n = k("v%d", i)
						case "call":
							n = "same(" + n + ")"
						case "field":
							src += k("  o.n = %s;\n", n)
							n = "o.n"
						}
						if form == "param" {
							src += "  show(p, " + n + ");\n"
						} else {
							src += k("  @print((p + %s) as i64 - p as i64, p as i64 - (p - %s) as i64, &p[%s] as i64 - p as i64, (p + %s - %s) as i64 == p as i64, \"\\n\");\n", n, n, n, n, n)
						}
						want += k("%d %d %d 1 \n", v*el.size, v*el.size, v*el.size)
					}
					return Case{Kind: KRun, Src: src + "}\n", Want: want}
				})
			}
		}
	}
}

func genMemNested(x *Enum) {
	// a chain of structs, each with a field before and after the inner one
	for depth := 1; depth <= 5; depth++ {
		for _, sn := range storageNames {
			for variant := 0; variant < 4; variant++ {
				depth, sn, variant := depth, sn, variant
				x.Prog(k("nested:%d:%s:%d", depth, sn, variant), func() *Pg {
					sc := []*Ty{TI8, TI64, TI16, TF64, TI32, TU8, TStr}
					var types []*Ty
					var t *Ty
					for d := 0; d < depth; d++ {
						fs := P("a", sc[(d+variant)%len(sc)])
						if t != nil {
							if variant&1 == 1 {
								fs = append(fs, Fld{"in", Arr(2, t)})
							} else {
								fs = append(fs, Fld{"in", t})
							}
						}
						fs = append(fs, Fld{"z", sc[(d+variant+2)%len(sc)]})
						if variant&2 == 2 {
							fs[0], fs[len(fs)-1] = fs[len(fs)-1], fs[0]
						}
						t = StructT(k("S%d", d), fs...)
						types = append(types, t)
					}
					n := 0
					{
						_, v := storages(t, mkval(t, 1))[sn]()
						n = len(leaves(v))
					}
					step := 1
					if n > 24 {
						step = n / 24
					}
					var fns []*Fn
					for i := 0; i < n; i += step {
						pre, v := storages(t, mkval(t, 1))[sn]()
						body := append([]*St{}, pre...)
						l := leaves(v)[i]
						body = append(body, Decl("old", v), Set(l, mkval(l.T, 88)))
						body = append(body, printAll(v)...)
						body = append(body, Print(leaves(Vr("old", t))[i], Str("\n")))
						fns = append(fns, fnOf(k("f%d", i), nil, nil, body...))
					}
					var mb []*St
					for _, f := range fns {
						mb = append(mb, Ex(CallF(f)))
					}
					return &Pg{Types: types, Fns: append(fns, mainFn(mb...))}
				})
			}
		}
	}
	// linked lists of 1 to 6 nodes: build, reverse, remove the k-th
	for n := 1; n <= 6; n++ {
		for rm := 0; rm <= n; rm++ {
			n, rm := n, rm
			x.Prog(k("list:%d:%d", n, rm), func() *Pg {
				nd := StructT("Node", Fld{"v", TI16})
				pn := Ptr(nd)
				nd.Fs = append(nd.Fs, Fld{"next", pn}, Fld{"w", TI64})
				null := Cast(pn, Iv(TI64, 0))
				push := fnOf("push", R(pn), P("l", pn, "v", TI32),
					Decl("m", Alloc(nd, N32(1))),
					Set(Field(Vr("m", pn), "v"), Cast(TI16, V32("v"))),
					Set(Field(Vr("m", pn), "w"), Cast(TI64, Bin("*", V32("v"), N32(10)))),
					Set(Field(Vr("m", pn), "next"), Vr("l", pn)),
					Ret(Vr("m", pn)))
				c := Vr("c", pn)
				notNull := func(e *E) *E { return Bin("!=", e, null) }
				show := fnOf("show", nil, P("l", pn),
					Decl("c", Vr("l", pn)),
					For(notNull(c), Print(Field(c, "v"), Field(c, "w"), Str(",")), Set(c, Field(c, "next"))), nl())
				r := Vr("r", pn)
				rev := fnOf("rev", R(pn), P("l", pn),
					Decl("c", Vr("l", pn)), Decl("r", null),
					For(notNull(c), Decl("nx", Field(c, "next")), Set(Field(c, "next"), r), Set(r, c), Set(c, Vr("nx", pn))),
					Ret(r))
				pl := Vr("pl", Ptr(pn))
				remove := fnOf("remove", nil, P("l", Ptr(pn), "v", TI32),
					Decl("pl", Vr("l", Ptr(pn))),
					For(notNull(Deref(pl)),
						Decl("c", Deref(pl)),
						If(Bin("==", Field(c, "v"), Cast(TI16, V32("v"))), SS(Set(Deref(pl), Field(c, "next")), Free(c), Ret())),
						Set(pl, Addr(Field(c, "next")))))
				body := SS(Decl("l", null))
				for i := 0; i < n; i++ {
					body = append(body, Set(Vr("l", pn), CallF(push, Vr("l", pn), N32(int64(i)))))
				}
				body = append(body, Ex(CallF(show, Vr("l", pn))), Set(Vr("l", pn), CallF(rev, Vr("l", pn))), Ex(CallF(show, Vr("l", pn))),
					Ex(CallF(remove, Addr(Vr("l", pn)), N32(int64(rm)))), Ex(CallF(show, Vr("l", pn))))
				return &Pg{Types: []*Ty{nd}, Fns: []*Fn{push, show, rev, remove, mainFn(body...)}}
			})
		}
	}
}
