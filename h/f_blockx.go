package main

// C19: a block expression gives the value of the first return executed in it.

func init() {
	register(&Family{
		ID:        "C19",
		Technique: "exhaustive enumeration of statement trees around and inside of block expressions, against a reference interpreter",
		Rule: "Every list of at most 3 nodes (4 in the thorough tier) over block expressions (as a declaration, an operand on each side, a condition, a returned value and in the form of an if chain), anonymous functions, if, if/else, switch, loops, blocks, break, continue and return, inside and outside of loops, each run on 6 inputs and compared step by step; " +
			"every stack of up to 4 (6) of them with each jump at the bottom; block expressions of 16 types in 24 positions with 6 kinds of bodies; every tree of && and || and of operators with 3 (4) leaves that are block expressions; shadowing of the names of the function and of enclosing block expressions up to depth 4.",
		Note: "Bounded by the size of the trees. break and continue in the header of a loop are not explored.",
		Gen:  func(x *Enum) { genBlockX(x); genWide(x, "C19") },
	})
}

func genBlockX(x *Enum) {
	tree := func(pre string, l []*ft) { x.Prog(pre+ftString(l), func() *Pg { return flowProg(l) }) }
	hasBlk := func(l []*ft) bool {
		return hasKind(l, "blk") || hasKind(l, "blkcond") || hasKind(l, "blkarg") || hasKind(l, "blkret") || hasKind(l, "blkif")
	}
	all := &flowGen{kinds: []string{"blk", "blkcond", "blkarg", "blkret", "blkif", "lam", "if", "ifelse", "elseif", "switch1d", "for", "while", "block", "break", "continue", "return", "p"}, memo: map[string][][]*ft{}}
	for n := 1; n <= 3; n++ {
		for _, l := range all.lists(n, false, 3) {
			if hasBlk(l) {
				tree("tree:", l)
			}
		}
	}
	small := &flowGen{kinds: []string{"blk", "blkcond", "blkif", "if", "ifelse", "switch1d", "for", "break", "continue", "return"}, memo: map[string][][]*ft{}}
	for n := 2; n <= x.Pick(3, 4); n++ {
		for _, l := range small.lists(n, true, 4) {
			if hasBlk(l) {
				for _, outer := range []string{"for", "while"} {
					if outer == "while" && n == 3 && !x.Thorough() {
						continue
					}
					tree("loop:", []*ft{{k: outer, kids: [][]*ft{l}}})
				}
			}
		}
	}
	if x.Thorough() {
		mid := &flowGen{kinds: []string{"blk", "blkarg", "blkcond", "blkif", "lam", "if", "ifelse", "for", "switch1d", "break", "continue", "return"}, memo: map[string][][]*ft{}}
		for _, l := range mid.lists(4, false, 4) {
			if hasBlk(l) {
				tree("tree:", l)
			}
		}
	}
	// stacks
	kinds := []string{"blk", "blkcond", "blkarg", "blkif", "lam", "ifelse", "switch1d", "for", "block"}
	var rec func(st []string, loop, blk bool)
	rec = func(st []string, loop, blk bool) {
		if len(st) > 3 && blk {
			jumps := []string{"return", "p"}
			if loop {
				jumps = append(jumps, "break", "continue")
			}
			for _, j := range jumps {
				t := &ft{k: j}
				for i := len(st) - 1; i >= 0; i-- {
					kids := [][]*ft{{t}}
					switch st[i] {
					case "ifelse", "switch1d", "blkif":
						kids = [][]*ft{nil, {t}}
					}
					t = &ft{k: st[i], kids: kids}
				}
				tree("stack:", []*ft{t})
			}
		}
		if len(st) == x.Pick(4, 6) {
			return
		}
		for _, s := range kinds {
			if len(st) >= x.Pick(3, 4) && (s == "blkarg" || s == "block" || s == "switch1d" || s == "blkcond") {
				continue
			}
			rec(append(append([]string{}, st...), s), s != "lam" && (loop || s == "for"), blk || s[0] == 'b' && s != "block")
		}
	}
	rec(nil, false, false)
	genBlockTypes(x)
	genBlockTrees(x)
	genBlockShadow(x)
}

var blkSt = StructT("B", P("x", TI8, "y", TI64, "z", TF32)...)

// genBlockTypes: block expressions of every type in every position.
func genBlockTypes(x *Enum) {
	ft := FuncT(TI32, TI32)
	types := []*Ty{TI32, TI8, TI16, TI64, TU8, TU16, TU32, TU64, TI1, TF32, TF64, TStr, blkSt, Arr(3, TI16), Ptr(TI32), Ptr(blkSt), ft, callBig}
	inc := fnOf("inc", R(TI32), P("n", TI32), Ret(Bin("+", V32("n"), N32(1))))
	dec := fnOf("dec", R(TI32), P("n", TI32), Ret(Bin("-", V32("n"), N32(1))))
	val := func(t *Ty, n int) *E {
		switch {
		case t.K == KFunc && n%2 == 0:
			return Vr("inc", ft)
		case t.K == KFunc:
			return Vr("dec", ft)
		case t.K == KPtr && t.El == TI32:
			return Addr(V32(k("cell%d", n%2)))
		case t.K == KPtr && t.El == blkSt:
			return Addr(Vr(k("st%d", n%2), blkSt))
		}
		return mkval(t, n)
	}
	var show func(e *E) []*E
	show = func(e *E) []*E {
		t := e.T
		switch {
		case t.K == KFunc:
			return []*E{Call(e, N32(7))}
		case t.K == KPtr && t.El == TI32:
			return []*E{Deref(e)}
		case t.K == KPtr && t.El == blkSt:
			return []*E{Field(e, "x"), Field(e, "y")}
		}
		return leaves(e)
	}
	bodies := []string{"plain", "if", "switch", "loop", "local", "nested", "param"}
	uses := []string{"decl", "declT", "set", "setfield", "setelem", "setptr", "arg", "arg2", "method", "field", "elem", "ret", "lambdaret", "blockret", "print", "member", "eq", "multi", "multiset", "discard", "loop", "cond", "alloc", "cast"}
	for _, t := range types {
		for _, bd := range bodies {
			for _, use := range uses {
				t, bd, use := t, bd, use
				scalarNum := t.isInt() || t.K == KFloat
				if (use == "eq" || use == "cond") && !scalarNum && t != TI1 || use == "cast" && !scalarNum || use == "member" && t.isScalar() || use == "alloc" && t != TI32 && t != TI64 {
					continue
				}
				x.Prog(k("type:%s:%s:%s", t, bd, use), func() *Pg {
					cells := SS(Decl("cell0", N32(40)), Decl("cell1", N32(41)), Decl("st0", mkval(blkSt, 50)), Decl("st1", mkval(blkSt, 53)))
					blk := func() *E {
						switch bd {
						case "if":
							return BlkE(t, If(Bin("==", V32("c"), N32(1)), SS(Print(Str("T")), Ret(val(t, 2))), SS(Print(Str("F")), Ret(val(t, 3)))))
						case "switch":
							return BlkE(t, Switch(V32("c"), []*E{N32(0)}, SS(Ret(val(t, 2))), SS(Decl("q", val(t, 3)), Ret(Vr("q", t)))))
						case "loop":
							return BlkE(t, ForI(Decl("j", N32(0)), Bin("<", V32("j"), N32(5)), Set(V32("j"), Bin("+", V32("j"), N32(1))),
								Print(V32("j"), Str(";")), If(Bin("==", V32("j"), Bin("+", V32("c"), N32(1))), SS(Ret(val(t, 2))))), Ret(val(t, 3)))
						case "local":
							return BlkE(t, Decl("q", val(t, 2)), Decl("w", val(t, 3)), If(V32("c"), SS(Set(Vr("q", t), Vr("w", t)))), Ret(Vr("q", t)))
						case "nested":
							return BlkE(t, Decl("q", BlkE(t, If(V32("c"), SS(Ret(val(t, 2)))), Ret(val(t, 3)))), Print(Str("n")), Ret(Vr("q", t)))
						case "param":
							return BlkE(t, If(V32("c"), SS(Ret(Vr("pv", t)))), Ret(val(t, 3)))
						}
						return BlkE(t, Ret(val(t, 2)))
					}
					r := Vr("r", t)
					h := StructT("H", P("q", TI8, "m", t)...)
					sh := fnOf("show", nil, P("n", t), linesOf(show(Vr("n", t)))...)
					g := &Pg{Types: []*Ty{blkSt, callSt, callBig}, Fns: []*Fn{inc, dec, sh}}
					S := func(e *E) *St { return Ex(CallF(sh, e)) }
					b := cells
					switch use {
					case "decl":
						b = append(b, Decl("r", blk()), S(r))
					case "declT":
						b = append(b, DeclT("r", t, blk()), S(r))
					case "set":
						b = append(b, Decl("r", val(t, 1)), Set(r, blk()), S(r))
					case "setfield":
						g.Types = append(g.Types, h)
						b = append(b, Decl("w", StructL(h, []string{"q", "m"}, Iv(TI8, 3), val(t, 1))), Set(Field(Vr("w", h), "m"), blk()), S(Field(Vr("w", h), "m")), Line(Field(Vr("w", h), "q")))
					case "setelem":
						a := Vr("w", Arr(3, t))
						b = append(b, Decl("w", ArrL(Arr(3, t), val(t, 0), val(t, 1), val(t, 4))), Set(Idx(a, V32("c")), blk()), S(Idx(a, N32(0))), S(Idx(a, N32(1))), S(Idx(a, N32(2))))
					case "setptr":
						b = append(b, Decl("r", val(t, 1)), Decl("p", Addr(r)), Set(Deref(Vr("p", Ptr(t))), blk()), S(r))
					case "arg":
						b = append(b, S(blk()))
					case "arg2":
						two := fnOf("two", nil, P("a", TI8, "x", t, "y", t, "b", TI32), append(linesOf(show(Vr("x", t))), append(linesOf(show(Vr("y", t))), Line(Vr("a", TI8), V32("b")))...)...)
						g.Fns = append(g.Fns, two)
						b = append(b, Ex(CallF(two, Iv(TI8, 1), blk(), blk(), BlkE(TI32, Ret(V32("c"))))))
					case "method":
						b = append(b, Ex(MCall(sh, blk())))
					case "field":
						g.Types = append(g.Types, h)
						b = append(b, Decl("w", StructL(h, []string{"q", "m"}, BlkE(TI8, Ret(Iv(TI8, 3))), blk())), S(Field(Vr("w", h), "m")), Line(Field(Vr("w", h), "q")))
					case "elem":
						a := Vr("w", Arr(3, t))
						b = append(b, Decl("w", ArrL(Arr(3, t), blk(), val(t, 1), blk())), S(Idx(a, N32(0))), S(Idx(a, N32(1))), S(Idx(a, N32(2))))
					case "ret":
						if t.K == KPtr && t != TStr {
							b = append(b, S(blk()))
							break
						}
						mk := fnOf("mk", R(t), P("c", TI32, "pv", t), append(cells, Ret(blk()))...)
						g.Fns = append(g.Fns, mk)
						b = append(b, S(CallF(mk, V32("c"), Vr("pv", t))))
					case "lambdaret":
						if t.K == KPtr && t != TStr {
							b = append(b, S(blk()))
							break
						}
						mk := fnOf("", R(t), P("c", TI32, "pv", t), append(cells, Ret(blk()))...)
						b = SS(Decl("mk", Lam(mk)), S(Call(Vr("mk", mk.ty()), V32("c"), Vr("pv", t))))
					case "blockret":
						b = append(b, Decl("r", BlkE(t, Print(Str("<")), Ret(blk()))), S(r))
					case "print":
						if t.isScalar() && t.K != KFunc && (t.K != KPtr || t == TStr) {
							b = append(b, Line(blk(), Str("|"), blk()))
						} else {
							b = append(b, Line(show(blk())...))
						}
					case "member":
						var e *E
						switch {
						case t == blkSt:
							e = Field(Par(blk()), "y")
						case t == callBig:
							e = Field(Field(Par(blk()), "c"), "x")
						default:
							e = Idx(Par(blk()), N32(2))
						}
						b = append(b, Line(e))
					case "eq":
						b = append(b, Line(Bin("==", blk(), val(t, 2)), Bin("<", val(t, 3), blk()), Bin("!=", blk(), blk())))
					case "multi":
						b = append(b, DeclM([]string{"i", "r", "s"}, BlkE(TI32, Ret(N32(4))), blk(), blk()), S(r), S(Vr("s", t)), Line(V32("i")))
					case "multiset":
						b = append(b, DeclM([]string{"r", "s"}, val(t, 0), val(t, 1)), SetM([]*E{r, Vr("s", t)}, blk(), r), S(r), S(Vr("s", t)))
					case "discard":
						b = append(b, Ex(blk()), Line(V32("c")))
					case "loop":
						b = append(b, ForI(Decl("z", N32(0)), Bin("<", V32("z"), N32(3)), Set(V32("z"), Bin("+", V32("z"), N32(1))), Decl("r", blk()), S(r), Set(V32("c"), V32("z"))))
					case "cond":
						b = append(b, If(Bin("==", blk(), val(t, 2)), SS(Print(Str("1"))), Bin("==", blk(), val(t, 3)), SS(Print(Str("2"))), SS(Print(Str("3")))),
							Decl("z", N32(0)), For(Bin("&&", Bin("<", V32("z"), N32(2)), Bin("!=", blk(), val(t, 9))), Set(V32("z"), Bin("+", V32("z"), N32(1)))), Line(V32("z")))
					case "alloc":
						b = append(b, Decl("p", Alloc(TI32, blk())), Set(Idx(Vr("p", Ptr(TI32)), N32(1)), N32(6)), Line(Idx(Vr("p", Ptr(TI32)), N32(1))), Free(Vr("p", Ptr(TI32))))
					case "cast":
						b = append(b, Line(Cast(TI64, Par(blk())), Cast(TF64, Par(blk()))))
					}
					b = append(b, Line(V32("cell0"), V32("cell1")))
					if use == "lambdaret" && (t.K != KPtr || t == TStr) {
						b = b[:len(b)-1]
					}
					f := fnOf("f", nil, P("c", TI32, "pv", t), b...)
					g.Fns = append(g.Fns, f)
					m := SS(Decl("cell0", N32(30)), Decl("cell1", N32(31)), Decl("st0", mkval(blkSt, 60)), Decl("st1", mkval(blkSt, 63)))
					for c := int64(0); c < 2; c++ {
						m = append(m, Ex(CallF(f, N32(c), val(t, 5))))
					}
					g.Fns = append(g.Fns, mainFn(m...))
					return g
				})
			}
		}
	}
}

// genBlockTrees: the operands of operators are block expressions.
func genBlockTrees(x *Enum) {
	mkLeaf := func(form int, n int) *E {
		v := V32(k("v%d", n))
		switch form {
		case 0:
			return BlkE(TI32, Print(N32(int64(n))), Ret(v))
		case 1:
			return IfE(TI32, If(Bin("==", v, N32(1)), SS(Print(Str("t")), Ret(v)), SS(Print(Str("f")), Ret(N32(0)))))
		}
		return BlkE(TI32, Decl("v", BlkE(TI32, Print(N32(int64(n))), If(v, SS(Ret(N32(1)))), Ret(N32(0)))), Print(Str("i")), Ret(V32("v")))
	}
	run := func(key string, leaves int, t *bt, form int, logic bool) {
		x.Prog(key, func() *Pg {
			n := 0
			var mk func(t *bt) *E
			mk = func(t *bt) *E {
				if t.op == "leaf" {
					n++
					l := mkLeaf(form, n-1)
					if logic {
						return Bin("==", Par(l), N32(1))
					}
					return Par(l)
				}
				a := mk(t.l)
				return Bin(t.op, a, mk(t.r))
			}
			e := mk(t)
			var ps []Fld
			for i := 0; i < leaves; i++ {
				ps = append(ps, Fld{k("v%d", i), TI32})
			}
			b := SS(Decl("r", e), Line(Vr("r", e.T)))
			if logic {
				n = 0
				b = append(b, If(mk(t), SS(Print(Str("T"))), SS(Print(Str("F")))))
			}
			f := fnOf("f", nil, ps, b...)
			var m []*St
			for v := 0; v < 1<<leaves; v++ {
				var as []*E
				for i := 0; i < leaves; i++ {
					as = append(as, N32(int64(v>>i&1)))
				}
				m = append(m, Ex(CallF(f, as...)))
			}
			return pg(f, mainFn(m...))
		})
	}
	for n := 2; n <= x.Pick(3, 4); n++ {
		for form := 0; form < 3; form++ {
			for _, t := range logicTrees(n, []string{"&&", "||"}, false) {
				run(k("logic:%d:%s", form, t), n, t, form, true)
			}
			for _, t := range logicTrees(n, []string{"+", "-", "*", "<", "=="}, false) {
				if typedTree(t) {
					run(k("ops:%d:%s", form, t), n, t, form, false)
				}
			}
		}
	}
}

// typedTree tells whether the operands of all operators are numbers.
func typedTree(t *bt) bool {
	if t.op == "leaf" {
		return true
	}
	cmp := func(t *bt) bool { return t.op == "<" || t.op == "==" }
	return typedTree(t.l) && typedTree(t.r) && !cmp(t.l) && !cmp(t.r)
}

// genBlockShadow: what a name means inside of and after nested block expressions.
func genBlockShadow(x *Enum) {
	depth := x.Pick(4, 5)
	acts := []string{"none", "decl", "set", "param", "inc"}
	var rec func(st []string)
	rec = func(st []string) {
		if len(st) > 0 {
			st := append([]string{}, st...)
			for _, after := range []bool{false, true} {
				after := after
				x.Prog(k("shadow:%v:%v", st, after), func() *Pg {
					var mk func(i int) *E
					mk = func(i int) *E {
						var b []*St
						b = append(b, Print(V32("n"), Str(",")))
						switch st[i] {
						case "decl":
							b = append(b, Decl("n", Bin("+", V32("n"), N32(int64(10*i+10)))))
						case "set":
							b = append(b, Set(V32("n"), Bin("+", V32("n"), N32(1))))
						case "param":
							b = append(b, Set(V32("p"), Bin("+", V32("p"), V32("n"))))
						case "inc":
							b = append(b, Ex(PreInc("++", V32("n"))))
						}
						v := Bin("+", V32("n"), V32("p"))
						if i+1 < len(st) {
							in := mk(i + 1)
							if after {
								b = append(b, Decl("y", in), Print(V32("n"), V32("y"), Str(",")))
								v = Bin("+", V32("n"), V32("y"))
							} else {
								v = Bin("-", in, V32("n"))
							}
						}
						return BlkE(TI32, append(b, Ret(v))...)
					}
					f := fnOf("f", R(TI32), P("p", TI32), Decl("n", N32(1)), Decl("z", mk(0)), Print(V32("n"), V32("p"), Str(",")), Ret(V32("z")))
					return pg(f, mainFn(Line(CallF(f, N32(1000))), Line(CallF(f, N32(2000)))))
				})
			}
		}
		if len(st) == depth {
			return
		}
		for _, a := range acts {
			rec(append(append([]string{}, st...), a))
		}
	}
	rec(nil)
	for i, s := range []string{
		"x := :i32 { y := 1; return y; }; @print(y);", "x := :i32 { return x; };", "x := :i32 { return z; };",
		"x := :i32 { };", "x := :i32 { return; };", "x := :i32 { return 1.5; };", "x := :i64 { return 1; };", "x : i64 = :i32 { return 1; };",
		"x := :i32 { if a == 1 { return 1; } };", "x := :i32 if a == 1 { return 1; };", "x := :i32 { for a == 1 { return 1; } };",
		"x := :i32 { break; return 1; };", "x := :i32 { continue; };", "x := :i32 { f := func() i32 { return 1; }; };",
		"x := :i32 { y := :i32 { return 1; }; };", "x := :i32 { return 1, 2; };", "for a == 1 { x := :i32 { f := func() { break; }; return 1; }; }",
	} {
		s := s
		x.Case(k("wrong:%d", i), func() Case { return Case{Kind: KReject, Src: "func main() {\na := 1;\n" + s + "\n}\n"} })
	}
}
