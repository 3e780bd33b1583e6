package main

import "strings"

// C12: operands are evaluated once, from left to right, and && and || only
// evaluate their right side when it matters.

func init() {
	register(&Family{
		ID:        "C12",
		Technique: "exhaustive enumeration of expression trees whose leaves trace their evaluation, against a reference interpreter",
		Rule: "Every tree with at most 4 leaves over &&, ||, !, ==, <, + and parentheses, with every assignment of 0 and 1 to its leaves (each leaf is a call that prints its own mark), as a condition of if, else if and for, in a declaration, a print, an argument, a return and an index; " +
			"every arrangement of traced calls as arguments (1 to 8), array elements, struct fields in every order of naming, nested calls, method calls and mixed operators, with the trace compared; operands of every numeric type, pointers and strings in && and ||.",
		Note: "Bounded: 4 (5 thorough) leaves per logical tree. The order of evaluation of the two sides of an assignment is not specified and is not checked.",
		Gen:  func(x *Enum) { genEval(x); genWide(x, "C12") },
	})
}

type bt struct {
	op string
	l  *bt
	r  *bt
}

func logicTrees(leaves int, ops []string, nots bool) []*bt {
	if leaves == 1 {
		r := []*bt{{op: "leaf"}}
		if nots {
			r = append(r, &bt{op: "!", l: &bt{op: "leaf"}})
		}
		return r
	}
	var r []*bt
	for l := 1; l < leaves; l++ {
		for _, a := range logicTrees(l, ops, nots) {
			for _, b := range logicTrees(leaves-l, ops, nots) {
				for _, o := range ops {
					r = append(r, &bt{op: o, l: a, r: b})
					if nots && leaves == 2 {
						r = append(r, &bt{op: "!", l: &bt{op: o, l: a, r: b}})
					}
				}
			}
		}
	}
	return r
}

func (t *bt) String() string {
	switch t.op {
	case "leaf":
		return "v"
	case "!":
		return "!" + t.l.String()
	}
	return "(" + t.l.String() + t.op + t.r.String() + ")"
}

// tracer is func t(n i32, v T) T, which prints n and returns v.
func tracer(name string, t *Ty) *Fn {
	return fnOf(name, R(t), P("n", TI32, "v", t), Print(V32("n"), Str(" ")), Ret(Vr("v", t)))
}

func genEval(x *Enum) {
	type job struct {
		leaves int
		ops    []string
		nots   bool
		vals   bool
	}
	// Leaves are booleans; every valuation is executed by the same program.
	build := func(t *bt, leaves int, ctx string) *Pg {
		tb, ti := tracer("tb", TI1), tracer("ti", TI32)
		g := &Pg{Fns: []*Fn{tb, ti}}
		var ps []Fld
		for i := 0; i < leaves; i++ {
			ps = append(ps, Fld{k("v%d", i), TI1})
		}
		n := 0
		var mk func(t *bt) *E
		mk = func(t *bt) *E {
			switch t.op {
			case "leaf":
				n++
				return CallF(tb, N32(int64(n-1)), Vr(k("v%d", n-1), TI1))
			case "!":
				return Not(mk(t.l))
			}
			l := mk(t.l)
			return Bin(t.op, l, mk(t.r))
		}
		e := mk(t)
		e2 := e
		var b []*St
		T, F := SS(Print(Str("T"))), SS(Print(Str("F")))
		switch ctx {
		case "if":
			b = SS(If(e, T, F))
		case "elseif":
			b = SS(If(CallF(tb, N32(90), Iv(TI1, 0)), SS(Print(Str("bad"))), e, T, CallF(tb, N32(91), Iv(TI1, 1)), F))
		case "for":
			b = SS(Decl("z", N32(0)), For(Bin("&&", Bin("<", V32("z"), N32(2)), e), Set(V32("z"), Bin("+", V32("z"), N32(1))), Print(Str("L"))))
		case "decl":
			b = SS(Decl("r", e), Print(Vr("r", TI1)))
		case "print":
			b = SS(Print(CallF(ti, N32(80), N32(1)), e, CallF(ti, N32(81), N32(2))))
		case "arg":
			f := fnOf("three", nil, P("a", TI32, "b", TI1, "c", TI32), Print(V32("a"), Vr("b", TI1), V32("c")))
			g.Fns = append(g.Fns, f)
			b = SS(Ex(CallF(f, CallF(ti, N32(80), N32(1)), e, CallF(ti, N32(81), N32(2)))))
		case "return":
			f := fnOf("ret", R(TI1), ps, Ret(e))
			g.Fns = append(g.Fns, f)
			var as []*E
			for _, p := range ps {
				as = append(as, Vr(p.N, TI1))
			}
			b = SS(Print(CallF(f, as...)))
		case "index":
			b = SS(Decl("r", ArrL(Arr(2, TI32), N32(70), N32(71))), Print(Idx(Vr("r", Arr(2, TI32)), Cast(TI32, e2))))
		case "cmp":
			b = SS(Print(Bin("==", e, CallF(tb, N32(80), Iv(TI1, 1)))))
		case "store":
			st := StructT("S", Fld{"a", TI32}, Fld{"b", TI1})
			g.Types = []*Ty{st}
			b = SS(Decl("s", StructL(st, []string{"a", "b"}, N32(1), Iv(TI1, 0))), Set(Field(Vr("s", st), "b"), e), Print(Field(Vr("s", st), "b")))
		case "block":
			b = SS(Decl("r", BlkE(TI32, If(e, SS(Ret(N32(5))), SS(Ret(N32(6)))))), Print(V32("r")))
		case "lambda":
			f := fnOf("", R(TI1), ps, Ret(e))
			var as []*E
			for _, p := range ps {
				as = append(as, Vr(p.N, TI1))
			}
			b = SS(Decl("l", Lam(f)), Print(Call(Vr("l", f.ty()), as...)))
		}
		f := fnOf("f", nil, ps, append(b, nl())...)
		g.Fns = append(g.Fns, f)
		var m []*St
		for v := 0; v < 1<<leaves; v++ {
			var as []*E
			for i := 0; i < leaves; i++ {
				as = append(as, Iv(TI1, int64(v>>i&1)))
			}
			m = append(m, Ex(CallF(f, as...)))
		}
		g.Fns = append(g.Fns, mainFn(m...))
		return g
	}
	ctxs := []string{"if", "elseif", "for", "decl", "print", "arg", "return", "index", "cmp", "store", "block", "lambda"}
	for leaves := 2; leaves <= 3; leaves++ {
		for _, t := range logicTrees(leaves, []string{"&&", "||", "==", "<"}, true) {
			for _, c := range ctxs {
				if leaves == 3 && !x.Thorough() && (c == "store" || c == "lambda" || c == "cmp") {
					continue
				}
				t, c, leaves := t, c, leaves
				x.Prog(k("logic:%d:%s:%s", leaves, t, c), func() *Pg { return build(t, leaves, c) })
			}
		}
	}
	for _, t := range logicTrees(4, []string{"&&", "||"}, false) {
		for _, c := range ctxs {
			t, c := t, c
			x.Prog(k("logic:4:%s:%s", t, c), func() *Pg { return build(t, 4, c) })
		}
	}
	if x.Thorough() {
		for _, t := range logicTrees(4, []string{"&&", "||"}, true) {
			for _, c := range []string{"if", "decl", "for", "arg"} {
				t, c := t, c
				x.Prog(k("logic:4n:%s:%s", t, c), func() *Pg { return build(t, 4, c) })
			}
		}
		for _, t := range logicTrees(5, []string{"&&", "||"}, false) {
			for _, c := range []string{"if", "decl"} {
				t, c := t, c
				x.Prog(k("logic:5:%s:%s", t, c), func() *Pg { return build(t, 5, c) })
			}
		}
	}
	genOrder(x)
	genOperandKinds(x)
	genReadOrder(x)
}

func permutations(n int) [][]int {
	var r [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			r = append(r, append([]int{}, p...))
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, q := range p {
				if q == i {
					continue next
				}
			}
			rec(append(p, i))
		}
	}
	rec(nil)
	return r
}

func genOrder(x *Enum) {
	for _, t := range append(append([]*Ty{}, numTypes...), TI1, TStr) {
		t := t
		val := func(i int) *E {
			switch t {
			case TStr:
				return Str(k("s%d", i))
			case TI1:
				return Iv(TI1, int64(i%2))
			case TF32, TF64:
				return Fl(t, k("%d.5", i))
			}
			return Iv(t, int64(i+1))
		}
		// arguments, elements, nested
		for n := 1; n <= 8; n++ {
			n := n
			x.Prog(k("args:%s:%d", t, n), func() *Pg {
				tr := tracer("tr", t)
				var ps []Fld
				var as, prints []*E
				for i := 0; i < n; i++ {
					ps = append(ps, Fld{k("p%d", i), t})
					as = append(as, CallF(tr, N32(int64(i)), val(i)))
					prints = append(prints, Vr(k("p%d", i), t))
				}
				f := fnOf("f", nil, ps, Line(prints...))
				return pg(tr, f, mainFn(Ex(CallF(f, as...)), Line(as...), Ex(MCall(f, as...))))
			})
			x.Prog(k("elems:%s:%d", t, n), func() *Pg {
				tr := tracer("tr", t)
				at := Arr(n, t)
				var as, prints []*E
				for i := 0; i < n; i++ {
					as = append(as, CallF(tr, N32(int64(i)), val(i)))
					prints = append(prints, Idx(Vr("r", at), N32(int64(i))))
				}
				return pg(tr, mainFn(Decl("r", ArrL(at, as...)), Line(prints...)))
			})
		}
		for _, perm := range permutations(3) {
			perm := perm
			x.Prog(k("fields:%s:%v", t, perm), func() *Pg {
				tr := tracer("tr", t)
				st := StructT("S", Fld{"a", t}, Fld{"b", TI8}, Fld{"c", t})
				t8 := tracer("t8", TI8)
				names := []string{"a", "b", "c"}
				var ns []string
				var es []*E
				for i, p := range perm {
					ns = append(ns, names[p])
					if p == 1 {
						es = append(es, CallF(t8, N32(int64(i)), Iv(TI8, 9)))
					} else {
						es = append(es, CallF(tr, N32(int64(i)), val(p)))
					}
				}
				s := Vr("s", st)
				g := pg(tr, t8, mainFn(Decl("s", StructL(st, ns, es...)), Line(Field(s, "a"), Field(s, "b"), Field(s, "c"))))
				g.Types = []*Ty{st}
				return g
			})
		}
	}
	// all the shapes of nested calls with 4 traced leaves: f(a, g(b, c), d) ...
	for _, t := range logicTrees(4, []string{"f", "+", "-", "*"}, false) {
		t := t
		x.Prog("calls:"+t.String(), func() *Pg {
			tr := tracer("tr", TI32)
			f := fnOf("f", R(TI32), P("a", TI32, "b", TI32), Print(Str("f")), Ret(Bin("-", Bin("*", V32("a"), N32(3)), V32("b"))))
			n := 0
			var mk func(t *bt) *E
			mk = func(t *bt) *E {
				if t.op == "leaf" {
					n++
					return CallF(tr, N32(int64(n)), N32(int64(n*n)))
				}
				l := mk(t.l)
				r := mk(t.r)
				if t.op == "f" {
					return CallF(f, l, r)
				}
				return Bin(t.op, l, r)
			}
			return pg(tr, f, mainFn(Line(mk(t))))
		})
	}
	// places whose subexpressions have effects are evaluated once
	places := []string{"index", "ptrindex", "matrix", "callptr", "field", "derefcall", "sizecast", "prefix", "cond", "switch", "allocsize", "neg"}
	for _, p := range places {
		for _, use := range []string{"read", "write", "inc", "readwrite"} {
			p, use := p, use
			x.Prog("once:"+p+":"+use, func() *Pg { return oncePlace(p, use) })
		}
	}
}

func oncePlace(p, use string) *Pg {
	tr := tracer("tr", TI32)
	st := StructT("S", Fld{"a", TI32}, Fld{"b", TI32})
	g := &Pg{Types: []*Ty{st}, Fns: []*Fn{tr}}
	at := Arr(3, TI32)
	a := Vr("r", at)
	pre := SS(Decl("r", ArrL(at, N32(10), N32(20), N32(30))), Decl("m", ArrL(Arr(2, Arr(2, TI32)), ArrL(Arr(2, TI32), N32(1), N32(2)), ArrL(Arr(2, TI32), N32(3), N32(4)))),
		Decl("s", StructL(st, []string{"a", "b"}, N32(5), N32(6))), Decl("v", N32(8)), Decl("p", Addr(V32("v"))), Decl("h", Alloc(TI32, N32(3))),
		Set(Idx(Vr("h", Ptr(TI32)), N32(0)), N32(7)), Set(Idx(Vr("h", Ptr(TI32)), N32(1)), N32(8)), Set(Idx(Vr("h", Ptr(TI32)), N32(2)), N32(9)))
	t := func(n int64, v int64) *E { return CallF(tr, N32(n), N32(v)) }
	pp := fnOf("pp", R(Ptr(TI32)), P("n", TI32, "p", Ptr(TI32)), Print(V32("n"), Str("pp ")), Ret(Vr("p", Ptr(TI32))))
	ps := fnOf("ps", R(Ptr(st)), P("n", TI32, "p", Ptr(st)), Print(V32("n"), Str("ps ")), Ret(Vr("p", Ptr(st))))
	g.Fns = append(g.Fns, pp, ps)
	var pl *E
	lval := true
	switch p {
	case "index":
		pl = Idx(a, t(1, 2))
	case "ptrindex":
		pl = Idx(Vr("h", Ptr(TI32)), t(1, 1))
	case "matrix":
		pl = Idx(Idx(Vr("m", Arr(2, Arr(2, TI32))), t(1, 1)), t(2, 0))
	case "callptr":
		pl = Idx(CallF(pp, N32(1), Vr("h", Ptr(TI32))), t(2, 1))
	case "field":
		pl = Field(CallF(ps, N32(1), Addr(Vr("s", st))), "b")
	case "derefcall":
		pl = Deref(CallF(pp, N32(1), Vr("p", Ptr(TI32))))
	case "sizecast":
		pl, lval = Cast(TI32, Cast(TI64, t(1, 4))), false
	case "prefix":
		pl, lval = Neg(Neg(t(1, 4))), false
	case "cond":
		pl, lval = BlkE(TI32, If(t(1, 1), SS(Ret(t(2, 3))), SS(Ret(t(3, 4))))), false
	case "switch":
		pl, lval = BlkE(TI32, Switch(t(1, 2), []*E{N32(1), N32(2)}, SS(Ret(t(2, 3))), SS(Ret(t(4, 4))), SS(Ret(t(5, 5))))), false
	case "allocsize":
		pre = append(pre, Decl("q", Alloc(TI32, t(9, 2))), Set(Idx(Vr("q", Ptr(TI32)), N32(1)), N32(3)))
		pl = Idx(Vr("q", Ptr(TI32)), t(1, 1))
	case "neg":
		pl, lval = Bin("-", Neg(t(1, 4)), Par(t(2, 5))), false
	}
	b := pre
	switch {
	case use == "read" || !lval:
		b = append(b, Line(pl))
	case use == "write":
		b = append(b, Set(pl, N32(77)), nl())
	case use == "inc":
		b = append(b, Ex(PreInc("++", pl)), nl(), Line(PreInc("--", pl)))
	case use == "readwrite":
		b = append(b, Set(pl, N32(77)), nl(), Line(pl))
	}
	b = append(b, Line(Idx(a, N32(0)), Idx(a, N32(1)), Idx(a, N32(2)), Field(Vr("s", st), "a"), Field(Vr("s", st), "b"), V32("v"),
		Idx(Vr("h", Ptr(TI32)), N32(0)), Idx(Vr("h", Ptr(TI32)), N32(1)), Idx(Vr("h", Ptr(TI32)), N32(2))))
	g.Fns = append(g.Fns, mainFn(b...))
	return g
}

// genOperandKinds: operands of && and || of every type.
func genOperandKinds(x *Enum) {
	types := append(append([]*Ty{}, numTypes...), TI1, Ptr(TI32), TStr)
	for _, t := range types {
		for _, op := range []string{"&&", "||"} {
			for _, form := range []string{"call", "var", "field", "elem", "deref", "chain", "notl", "notr"} {
				t, op, form := t, op, form
				x.Prog(k("operands:%s:%s:%s", strings.ReplaceAll(t.String(), "*", "ptr-"), op, form), func() *Pg {
					tr := tracer("tr", t)
					st := StructT("S", Fld{"x", TI8}, Fld{"v", t})
					g := &Pg{Types: []*Ty{st}, Fns: []*Fn{tr}}
					var vals []*E
					var pre []*St
					switch {
					case t == TStr:
						vals = []*E{Str(""), Str("x"), Cast(TStr, Iv(TI64, 0))}
					case t.K == KPtr:
						pre = SS(Decl("o", N32(1)))
						vals = []*E{Addr(V32("o")), Cast(t, Iv(TI64, 0))}
					default:
						vals = fewLits(t)
					}
					a, b := Vr("a", t), Vr("b", t)
					var e *E
					var in []*St
					switch form {
					case "call":
						e = Bin(op, CallF(tr, N32(1), a), CallF(tr, N32(2), b))
					case "var":
						e = Bin(op, a, b)
					case "field":
						in = SS(Decl("s", StructL(st, []string{"x", "v"}, Iv(TI8, 1), a)))
						e = Bin(op, Field(Vr("s", st), "v"), CallF(tr, N32(2), b))
					case "elem":
						in = SS(Decl("r", ArrL(Arr(2, t), a, b)))
						e = Bin(op, Idx(Vr("r", Arr(2, t)), N32(0)), Idx(Vr("r", Arr(2, t)), N32(1)))
					case "deref":
						in = SS(Decl("p", Addr(a)))
						e = Bin(op, Deref(Vr("p", Ptr(t))), CallF(tr, N32(2), b))
					case "chain":
						e = Bin(op, Bin(op, CallF(tr, N32(1), a), CallF(tr, N32(2), b)), Not(Not(CallF(tr, N32(3), a))))
					case "notl":
						e = Bin(op, Not(CallF(tr, N32(1), a)), Not(CallF(tr, N32(2), b)))
					case "notr":
						e = Not(Bin(op, CallF(tr, N32(1), a), CallF(tr, N32(2), b)))
					}
					f := fnOf("f", nil, P("a", t, "b", t), append(in, Decl("w", e), Print(Vr("w", TI1)), If(e, SS(Line(Str("T"))), SS(Line(Str("F")))))...)
					g.Fns = append(g.Fns, f)
					m := pre
					for _, u := range vals {
						for _, v := range vals {
							m = append(m, Ex(CallF(f, u, v)))
						}
					}
					g.Fns = append(g.Fns, mainFn(m...))
					return g
				})
			}
		}
	}
}
