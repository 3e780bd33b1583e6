package main

// C11 control flow and C07 return paths: all the statement trees up to a size.

// flow trees
type ft struct {
	k    string
	kids [][]*ft
}

// flowBodies enumerates the lists of statements with exactly n nodes.
type flowGen struct {
	kinds []string
	memo  map[string][][]*ft
}

func (g *flowGen) lists(n int, loop bool, depth int) [][]*ft {
	key := k("%d/%v/%d", n, loop, depth)
	if r, ok := g.memo[key]; ok {
		return r
	}
	var r [][]*ft
	if n == 0 {
		r = [][]*ft{nil}
	}
	for first := 1; first <= n; first++ {
		for _, s := range g.stmts(first, loop, depth) {
			for _, rest := range g.lists(n-first, loop, depth) {
				r = append(r, append([]*ft{s}, rest...))
			}
		}
	}
	g.memo[key] = r
	return r
}

func (g *flowGen) stmts(n int, loop bool, depth int) []*ft {
	var r []*ft
	for _, kd := range g.kinds {
		bodies, l := 0, loop
		switch kd {
		case "break", "continue":
			if n == 1 && loop {
				r = append(r, &ft{k: kd})
			}
			continue
		case "return", "p":
			if n == 1 {
				r = append(r, &ft{k: kd})
			}
			continue
		case "if", "block", "mac1", "mac0", "blk", "blkcond", "blkarg", "blkret":
			bodies = 1
		case "blkif":
			bodies = 2
		case "lam":
			bodies, l = 1, false
		case "ifelse", "switch1d":
			bodies = 2
		case "elseif", "switch2":
			bodies = 2
		case "chain", "switch2d":
			bodies = 3
		case "for", "while":
			bodies, l = 1, true
		}
		if depth == 0 {
			continue
		}
		for _, ks := range g.split(n-1, bodies, l, depth-1) {
			r = append(r, &ft{k: kd, kids: ks})
		}
	}
	return r
}

func (g *flowGen) split(n, bodies int, loop bool, depth int) [][][]*ft {
	if bodies == 1 {
		var r [][][]*ft
		for _, l := range g.lists(n, loop, depth) {
			r = append(r, [][]*ft{l})
		}
		return r
	}
	var r [][][]*ft
	for a := 0; a <= n; a++ {
		for _, l := range g.lists(a, loop, depth) {
			for _, rest := range g.split(n-a, bodies-1, loop, depth) {
				r = append(r, append([][]*ft{l}, rest...))
			}
		}
	}
	return r
}

func ftString(l []*ft) string {
	s := ""
	for i, t := range l {
		if i > 0 {
			s += ","
		}
		s += t.k
		if t.kids != nil {
			s += "("
			for j, b := range t.kids {
				if j > 0 {
					s += "|"
				}
				s += ftString(b)
			}
			s += ")"
		}
	}
	return s
}

// flowBuild turns a tree into statements that trace what is executed.
type flowBuild struct {
	id    int
	loops []string
	conds int
}

func (b *flowBuild) mark() *St {
	b.id++
	return Print(N32(int64(b.id)), Str(","))
}

// cond alternates over conditions of what changes: parameters and loop counters.
func (b *flowBuild) cond() *E {
	b.conds++
	vars := []*E{V32("a"), V32("b")}
	if n := len(b.loops); n > 0 {
		vars = append([]*E{V32(b.loops[n-1])}, vars...)
	}
	v := vars[b.conds%len(vars)]
	switch b.conds % 4 {
	case 0:
		return Bin("==", v, N32(1))
	case 1:
		return v
	case 2:
		return Bin("<", v, N32(1))
	}
	return Bin("!=", v, N32(1))
}

func (b *flowBuild) sel() *E {
	if n := len(b.loops); n > 0 {
		return V32(b.loops[n-1])
	}
	b.conds++
	if b.conds%2 == 0 {
		return V32("a")
	}
	return V32("b")
}

func (b *flowBuild) body(l []*ft) []*St {
	ss := []*St{b.mark()}
	for _, t := range l {
		ss = append(ss, b.st(t)...)
		if t.k != "p" {
			ss = append(ss, b.mark())
		}
	}
	return ss
}

func (b *flowBuild) st(t *ft) []*St {
	switch t.k {
	case "p":
		return SS(b.mark())
	case "break":
		return SS(Break())
	case "continue":
		return SS(Cont())
	case "return":
		b.id++
		return SS(Ret(N32(int64(1000 + b.id))))
	case "block":
		return SS(Blk(b.body(t.kids[0])...))
	case "mac1", "mac0":
		b.id++
		n, c := k("m%d", b.id), "0"
		pre, post := SS(), SS()
		if t.k == "mac1" {
			c = "LINUX"
			post = SS(Print(V32(n), Str(",")))
		} else {
			pre, post = SS(Decl(n, N32(1))), SS(Print(V32(n), Str(",")))
		}
		body := append(SS(Decl(n, N32(int64(b.id)))), b.body(t.kids[0])...)
		return append(append(pre, Macro(c, body...)), post...)
	case "blk", "blkcond", "blkarg", "blkret":
		b.id++
		v := int64(2000 + b.id)
		e := BlkE(TI32, append(b.body(t.kids[0]), Ret(N32(v)))...)
		switch t.k {
		case "blkcond":
			return SS(If(Bin("==", e, N32(v)), SS(b.mark()), SS(b.mark())))
		case "blkarg":
			return SS(Print(Bin("+", Bin("*", V32("a"), N32(10000)), e), Bin("-", e, V32("b")), Str(",")))
		case "blkret":
			return SS(Ret(Bin("+", e, N32(30000))))
		}
		n := k("v%d", v)
		return SS(Decl(n, e), Print(V32(n), Str(",")))
	case "blkif":
		b.id++
		n, c := k("v%d", b.id), b.cond()
		return SS(Decl(n, IfE(TI32, If(c, append(b.body(t.kids[0]), Ret(N32(int64(3000+b.id)))), append(b.body(t.kids[1]), Ret(N32(int64(4000+b.id))))))), Print(V32(n), Str(",")))
	case "lam":
		b.id++
		n, v := k("l%d", b.id), int64(5000+b.id)
		fn := fnOf("", R(TI32), nil, append(b.body(t.kids[0]), Ret(N32(v)))...)
		return SS(Decl(n, Lam(fn)), Print(Call(Vr(n, fn.ty())), Str(",")))
	case "if":
		c := b.cond()
		return SS(If(c, b.body(t.kids[0])))
	case "ifelse":
		c := b.cond()
		return SS(If(c, b.body(t.kids[0]), b.body(t.kids[1])))
	case "elseif":
		c, d := b.cond(), b.cond()
		return SS(If(c, b.body(t.kids[0]), d, b.body(t.kids[1])))
	case "chain":
		c, d := b.cond(), b.cond()
		return SS(If(c, b.body(t.kids[0]), d, b.body(t.kids[1]), b.body(t.kids[2])))
	case "switch1d":
		return SS(Switch(b.sel(), []*E{N32(1)}, b.body(t.kids[0]), b.body(t.kids[1])))
	case "switch2":
		return SS(Switch(b.sel(), []*E{N32(0), N32(2)}, b.body(t.kids[0]), b.body(t.kids[1])))
	case "switch2d":
		return SS(Switch(b.sel(), []*E{N32(1), N32(0)}, b.body(t.kids[0]), b.body(t.kids[1]), b.body(t.kids[2])))
	case "for":
		v := k("i%d", b.id)
		b.loops = append(b.loops, v)
		s := ForI(Decl(v, N32(0)), Bin("<", V32(v), N32(3)), Set(V32(v), Bin("+", V32(v), N32(1))), b.body(t.kids[0])...)
		b.loops = b.loops[:len(b.loops)-1]
		return SS(s)
	case "while":
		v := k("w%d", b.id)
		b.loops = append(b.loops, v)
		body := append(SS(Set(V32(v), Bin("+", V32(v), N32(1)))), b.body(t.kids[0])...)
		b.loops = b.loops[:len(b.loops)-1]
		return SS(Decl(v, Iv(TI32, -1)), For(Bin("<", V32(v), N32(2)), body...))
	}
	panic(t.k)
}

func flowProg(l []*ft) *Pg {
	b := &flowBuild{}
	body := append(b.body(l), Ret(N32(7)))
	f := fnOf("f", R(TI32), P("a", TI32, "b", TI32), body...)
	var m []*St
	for _, a := range []int64{0, 1, 2} {
		for _, c := range []int64{0, 1} {
			m = append(m, Line(CallF(f, N32(a), N32(c))))
		}
	}
	return pg(f, mainFn(m...))
}

func init() {
	register(&Family{
		ID:        "C11",
		Technique: "exhaustive enumeration of statement trees, executed and compared with a reference interpreter",
		Rule: "Every list of statements with at most 3 nodes (4 in the thorough tier) built from if, if/else, if/else if, if/else if/else, switch with one or two cases with and without a default, counting for, " +
			"condition-only for, block, break, continue, return and print, nested at most 3 deep, each run on 6 inputs and compared step by step (every block and every gap between statements prints its own mark); " +
			"then every shape of nesting up to depth 4 around break, continue and return, every selection of else-if chains of up to 7 arms (and of 8 where any of the conditions hold) and of switches of up to 9 cases over all integer types, and every kind of numeric condition in every conditional statement; " +
			"then 64 bodies in 10 kinds of loops in 5 places: 64 iterations take no slot of the stack twice, and where they do, and for a fixed sixteenth of them, the machine runs 4000000 iterations.",
		Note: "Bounded: statement trees of at most 3/4 nodes plus parametrised deeper shapes; loops run at most 4 times, the bodies of long loops 64 times. Executions are explored on the module that the real compiler emits, by an explicit-state interpreter of LLVM IR, and a fixed part of them on the real LLVM.",
		Gen:  func(x *Enum) { genFlow(x); genWide(x, "C11") },
	})
}

func genFlow(x *Enum) {
	genLong(x)
	all := []string{"if", "ifelse", "elseif", "chain", "switch1d", "switch2", "switch2d", "for", "while", "block", "break", "continue", "return", "p"}
	g := &flowGen{kinds: all, memo: map[string][][]*ft{}}
	for n := 0; n <= 3; n++ {
		for _, l := range g.lists(n, false, 3) {
			l := l
			x.Prog("tree:"+ftString(l), func() *Pg { return flowProg(l) })
		}
	}
	// inside of a loop already: one node deeper
	small := &flowGen{kinds: []string{"if", "ifelse", "switch1d", "for", "while", "break", "continue", "return"}, memo: map[string][][]*ft{}}
	for n := 2; n <= x.Pick(3, 4); n++ {
		for _, l := range small.lists(n, true, 3) {
			for _, outer := range []string{"for", "while"} {
				t := []*ft{{k: outer, kids: [][]*ft{l}}}
				x.Prog("loop:"+ftString(t), func() *Pg { return flowProg(t) })
			}
		}
	}
	if x.Thorough() {
		mid := &flowGen{kinds: []string{"if", "ifelse", "chain", "switch2d", "switch1d", "for", "while", "block", "break", "continue", "return"}, memo: map[string][][]*ft{}}
		for _, l := range mid.lists(4, false, 3) {
			l := l
			x.Prog("tree:"+ftString(l), func() *Pg { return flowProg(l) })
		}
	}
	genNests(x)
	genChains(x)
	genConds(x)
	genForParts(x)
}

// genNests: all the stacks of up to 4 (5) constructs with a jump at the bottom.
func genNests(x *Enum) {
	outer := []string{"if", "ifelse", "elseif2", "switch1d", "switch2", "for", "while", "block"}
	var rec func(stack []string, loop bool)
	depth := x.Pick(4, 5)
	rec = func(stack []string, loop bool) {
		if len(stack) > 0 {
			jumps := []string{"return", "p"}
			if loop {
				jumps = append(jumps, "break", "continue")
			}
			for _, j := range jumps {
				if len(stack) == depth && j == "p" {
					continue
				}
				st := append([]string{}, stack...)
				x.Prog(k("nest:%v:%s", st, j), func() *Pg {
					t := &ft{k: j}
					for i := len(st) - 1; i >= 0; i-- {
						var kids [][]*ft
						kd := st[i]
						switch kd {
						case "elseif2":
							kd, kids = "elseif", [][]*ft{nil, {t}}
						case "ifelse":
							kids = [][]*ft{nil, {t}}
						case "switch1d":
							kids = [][]*ft{nil, {t}}
						case "switch2":
							kids = [][]*ft{nil, {t}}
						default:
							kids = [][]*ft{{t}}
						}
						t = &ft{k: kd, kids: kids}
					}
					return flowProg([]*ft{t})
				})
			}
		}
		if len(stack) == depth {
			return
		}
		for _, o := range outer {
			if len(stack) >= 3 && !x.Thorough() && (o == "elseif2" || o == "switch2" || o == "block") {
				continue
			}
			rec(append(append([]string{}, stack...), o), loop || o == "for" || o == "while")
		}
	}
	rec(nil, false)
}

// genChains: long else-if chains and switches, every selection.
func genChains(x *Enum) {
	// several conditions of one chain hold: the first one counts, and those
	// behind it are not even computed
	for arms := 1; arms <= x.Pick(8, 10); arms++ {
		for _, els := range []bool{false, true} {
			arms, els := arms, els
			x.Prog(k("masks:%d:%v", arms, els), func() *Pg {
				t := fnOf("t", R(TI32), []Fld{{"i", TI32}, {"a", TI32}}, Print(Vr("i", TI32), Str("?")), Ret(Bin("&", Vr("a", TI32), Vr("i", TI32))))
				end := func(n int64) []*St { return SS(Print(N32(n), Str("x"))) }
				var rest []any
				for i := 1; i < arms; i++ {
					rest = append(rest, CallF(t, N32(1<<i), V32("a")), end(int64(i)))
				}
				if els {
					rest = append(rest, end(50))
				}
				f := fnOf("f", nil, P("a", TI32), If(CallF(t, N32(1), V32("a")), end(0), rest...), Print(Str("]")))
				var m []*St
				for v := 0; v < 1<<arms; v++ {
					m = append(m, Ex(CallF(f, N32(int64(v)))))
				}
				return pg(t, f, mainFn(m...))
			})
		}
	}
	for arms := 1; arms <= 7; arms++ {
		for _, els := range []bool{false, true} {
			for ret := 0; ret < 3; ret++ {
				arms, els, ret := arms, els, ret
				x.Prog(k("chain:%d:%v:%d", arms, els, ret), func() *Pg {
					end := func(n int64) []*St {
						b := SS(Print(N32(n), Str("x")))
						if ret == 1 || ret == 2 && n%2 == 0 {
							b = append(b, Ret(N32(100+n)))
						}
						return b
					}
					var rest []any
					for i := 1; i < arms; i++ {
						rest = append(rest, Bin("==", V32("a"), N32(int64(i))), end(int64(i)))
					}
					if els {
						rest = append(rest, end(50))
					}
					f := fnOf("f", R(TI32), P("a", TI32), Print(Str("[")), If(Bin("==", V32("a"), N32(0)), end(0), rest...), Print(Str("]")), Ret(N32(1)))
					var m []*St
					for i := 0; i <= arms; i++ {
						m = append(m, Line(CallF(f, N32(int64(i)))))
					}
					return pg(f, mainFn(m...))
				})
			}
		}
	}
	for _, t := range intTypes {
		for _, cases := range []int{0, 1, 2, 3, 5, 9} {
			for _, def := range []bool{false, true} {
				if cases == 0 && !def {
					continue
				}
				for ret := 0; ret < 2; ret++ {
					t, cases, def, ret := t, cases, def, ret
					x.Prog(k("switch:%s:%d:%v:%d", t, cases, def, ret), func() *Pg {
						vals := bounds(t)
						var cs []*E
						var bs [][]*St
						for i := 0; i < cases && i < len(vals); i++ {
							// literals of the case have to be constants of the type
							v := vals[(i*3)%len(vals)]
							dup := false
							for _, c := range cs {
								dup = dup || c.U == v
							}
							if dup || t.Bits == 64 && t.K == KInt && v == 1<<63 {
								continue
							}
							cs = append(cs, Uv(t, v))
							b := SS(Print(N32(int64(i)), Str("x")))
							if ret == 1 {
								b = append(b, Ret(N32(int64(i)+100)))
							}
							bs = append(bs, b)
						}
						if def {
							bs = append(bs, SS(Print(Str("d"))))
						}
						f := fnOf("f", R(TI32), P("a", t), Print(Str("[")), Switch(Vr("a", t), cs, bs...), Print(Str("]")), Ret(N32(1)))
						var m []*St
						for _, v := range vals {
							m = append(m, Line(CallF(f, Uv(t, v))))
						}
						return pg(f, mainFn(m...))
					})
				}
			}
		}
	}
}

// genConds: every numeric type and kind of expression as a condition.
func genConds(x *Enum) {
	types := append(append([]*Ty{}, numTypes...), TI1)
	forms := []string{"var", "not", "notnot", "call", "field", "elem", "deref", "and", "or", "cmp", "neg", "block", "lit", "const"}
	for _, t := range types {
		for _, form := range forms {
			for _, stm := range []string{"if", "elseif", "elseif3", "for", "while", "nested"} {
				if !x.Thorough() && stm == "elseif3" && form != "var" && form != "cmp" {
					continue
				}
				t, form, stm := t, form, stm
				x.Prog(k("cond:%s:%s:%s", t, form, stm), func() *Pg {
					g := &Pg{}
					id := fnOf("id", R(t), P("v", t), Ret(Vr("v", t)))
					st := StructT("S", Fld{"x", TI8}, Fld{"v", t})
					g.Types = []*Ty{st}
					g.Fns = []*Fn{id}
					v := Vr("v", t)
					zero, one := fewLits(t)[0], fewLits(t)[1]
					if t == TF64 {
						one = Cast(TF64, Fl(TF32, "0.25"))
					} else if t == TF32 {
						one = Fl(TF32, "0.25")
					}
					var pre []*St
					var c *E
					switch form {
					case "var":
						c = v
					case "not":
						c = Not(v)
					case "notnot":
						c = Not(Not(v))
					case "call":
						c = CallF(id, v)
					case "field":
						pre = SS(Decl("s", StructL(st, []string{"x", "v"}, Iv(TI8, 1), v)))
						c = Field(Vr("s", st), "v")
					case "elem":
						pre = SS(Decl("e", ArrL(Arr(2, t), one, v)))
						c = Idx(Vr("e", Arr(2, t)), N32(1))
					case "deref":
						pre = SS(Decl("q", Addr(v)))
						c = Deref(Vr("q", Ptr(t)))
					case "and":
						c = Bin("&&", v, one)
					case "or":
						c = Bin("||", zero, v)
					case "cmp":
						c = Bin("!=", v, zero)
					case "neg":
						if t == TI1 {
							c = v
						} else {
							c = Neg(v)
						}
					case "block":
						c = BlkE(t, Ret(v))
					case "lit":
						c = one
					case "const":
						if t == TI1 {
							c = one
							break
						}
						pre = SS(ConstD("K", one))
						c = Vr("K", t)
					}
					out := func(s string) *St { return Print(Str(s)) }
					var b []*St
					switch stm {
					case "if":
						b = SS(If(c, SS(out("T")), SS(out("F"))))
					case "elseif":
						b = SS(If(Bin("==", V32("z"), N32(9)), SS(out("9")), c, SS(out("T")), SS(out("F"))))
					case "elseif3":
						b = SS(If(Bin("==", V32("z"), N32(9)), SS(out("9")), c, SS(out("T")), c, SS(out("U")), Not(c), SS(out("V")), SS(out("F"))))
					case "for":
						b = SS(ForI(Decl("i", N32(0)), Bin("&&", Bin("<", V32("i"), N32(2)), Not(Not(c))), Set(V32("i"), Bin("+", V32("i"), N32(1))), out("L")))
					case "while":
						b = SS(For(c, out("L"), Set(V32("z"), Bin("+", V32("z"), N32(1))), If(Bin("==", V32("z"), N32(3)), SS(Break()))))
					case "nested":
						b = SS(If(c, SS(If(Not(c), SS(out("A")), SS(out("B")))), SS(If(c, SS(out("C")), SS(out("D"))))))
					}
					f := fnOf("f", nil, P("v", t), append(append(append(pre, Decl("z", N32(0))), b...), nl())...)
					g.Fns = append(g.Fns, f)
					var m []*St
					for _, l := range append(fewLits(t), one) {
						m = append(m, Ex(CallF(f, l)))
					}
					g.Fns = append(g.Fns, mainFn(m...))
					return g
				})
			}
		}
	}
}

// genForParts: every presence of initialisation, condition, update, with every
// kind of update statement and loop variable type.
func genForParts(x *Enum) {
	for _, t := range intTypes {
		for _, step := range []string{"assign", "preinc", "predec", "call", "ptr", "elem", "field", "multi", "outer"} {
			for _, body := range []string{"plain", "continue", "breakmid", "nested", "ifcont"} {
				t, step, body := t, step, body
				x.Prog(k("for:%s:%s:%s", t, step, body), func() *Pg {
					g := &Pg{}
					one := Iv(t, 1)
					st := StructT("S", Fld{"x", t}, Fld{"y", TI8})
					g.Types = []*Ty{st}
					ad := fnOf("add", R(t), P("v", t, "w", t), Ret(Bin("+", Vr("v", t), Vr("w", t))))
					g.Fns = []*Fn{ad}
					i := Vr("i", t)
					init, upd, cond := Decl("i", Iv(t, 0)), Set(i, Bin("+", i, one)), Bin("<", i, Iv(t, 5))
					pre := SS(Decl("o", N32(0)))
					show := i
					switch step {
					case "preinc":
						upd = Ex(PreInc("++", i))
					case "predec":
						init, upd, cond = Decl("i", Iv(t, 5)), Ex(PreInc("--", i)), Bin(">", i, Iv(t, 0))
					case "call":
						upd = Set(i, CallF(ad, i, one))
					case "ptr":
						pre = append(pre, Decl("i", Iv(t, 0)), Decl("p", Addr(i)))
						d := Deref(Vr("p", Ptr(t)))
						init, upd = Set(d, Iv(t, 1)), Set(d, Bin("+", d, one))
					case "elem":
						pre = append(pre, Decl("r", ArrL(Arr(2, t), Iv(t, 0), Iv(t, 0))))
						show = Idx(Vr("r", Arr(2, t)), N32(1))
						init, upd, cond = Set(show, Iv(t, 0)), Set(show, Bin("+", show, one)), Bin("<", show, Iv(t, 5))
					case "field":
						pre = append(pre, Decl("s", StructL(st, []string{"x", "y"}, Iv(t, 0), Iv(TI8, 3))))
						show = Field(Vr("s", st), "x")
						init, upd, cond = Set(show, Iv(t, 1)), Set(show, Bin("+", show, one)), Bin("<=", show, Iv(t, 5))
					case "multi":
						j := Vr("j", t)
						pre = append(pre, Decl("j", Iv(t, 9)))
						upd = SetM([]*E{i, j}, Bin("+", i, one), Bin("-", j, one))
						show = Bin("+", i, j)
					case "outer":
						pre = append(pre, Decl("i", Iv(t, 2)))
						init = Set(i, Iv(t, 1))
					}
					var b []*St
					switch body {
					case "plain":
						b = SS(Print(show, Str(" ")))
					case "continue":
						b = SS(Print(show), If(Bin("==", Bin("%", show, Iv(t, 2)), Iv(t, 0)), SS(Print(Str("c")), Cont())), Print(Str("e")))
					case "breakmid":
						b = SS(Print(show), If(Bin("==", show, Iv(t, 3)), SS(Break())), Print(Str("e")))
					case "nested":
						b = SS(ForI(Decl("q", N32(0)), Bin("<", V32("q"), N32(3)), Set(V32("q"), Bin("+", V32("q"), N32(1))),
							If(Bin("==", V32("q"), N32(1)), SS(Cont())), Print(show, V32("q"), Str("/"))))
					case "ifcont":
						b = SS(Switch(show, []*E{Iv(t, 1), Iv(t, 3)}, SS(Print(Str("one")), Cont()), SS(Print(Str("three")))), Print(show))
					}
					f := fnOf("f", nil, nil, append(append(pre, ForI(init, cond, upd, b...)), nl())...)
					g.Fns = append(g.Fns, f, mainFn(Ex(CallF(f)), Ex(CallF(f))))
					return g
				})
			}
		}
	}
}
