package main

import (
	"fmt"
	"strings"
)

// C05: the type checker accepts a program exactly when its types fit.

func init() {
	register(&Family{
		ID:        "C05",
		Technique: "exhaustive enumeration of type pairs over the positions, operators and forms of the language, the real checker and compiler decided by the typing rules, with the accepted modules verified by LLVM",
		Rule: "42 x 42 types in 30 positions where a value meets an expected type, with 4 of 12 forms of the value and rotating contexts (14) (thorough: every form, 5 contexts), and every form in every context for near pairs; 18 binary operators x 42 x 42 types and the type of each accepted result; 7 prefix operators, casts, indices, fields, calls with 0 to 3 arguments, conditions, labels, builtins and void in every type; " +
			"undefined names and types in every position; counts of values in returns, declarations, assignments and calls; statements outside of functions; 17 pairs of similar types below every type of up to 2 (thorough: 3) of 9 layers of pointers, arrays and functions, in rotating positions.",
		Note: "Not specified: pointers to fields where a pointer to a union is expected, casts of function types and of a struct to itself, operators on i1 other than comparisons.",
		Gen:  genCheck,
	})
}

var (
	ckS  = StructT("S", Fld{"a", TI32}, Fld{"b", TI64})
	ckT  = StructT("T", Fld{"a", TI32}, Fld{"b", TI64})
	ckU  = UnionT("U", Fld{"x", TI32}, Fld{"y", TF32}, Fld{"z", TStr})
	ckW  = UnionT("W", Fld{"x", TI32}, Fld{"y", TF32}, Fld{"z", TStr})
	ckF1 = FuncT(TI32, TI32)
)

var ckTypes = []*Ty{
	TI1, TI8, TI16, TI32, TI64, TU8, TU16, TU32, TU64, TF32, TF64,
	TStr, Ptr(TI32), Ptr(TU8), Ptr(Ptr(TI32)), Ptr(ckS), Ptr(ckT), Ptr(ckU), Ptr(Arr(2, TI32)), Ptr(ckF1),
	Arr(2, TI32), Arr(3, TI32), Arr(2, TI64), Arr(2, Arr(2, TI32)), Arr(2, ckS), Arr(2, ckU),
	ckS, ckT, ckU, ckW,
	ckF1, FuncT(TI32, TI64), FuncT(TI64, TI32), FuncT(TI32, TI32, TI32), FuncT(TI32), FuncT(nil), FuncT(nil, TI32), FuncT(ckS, ckS), FuncT(TI32, Ptr(TI32)), FuncT(ckF1, TI32), FuncT(ckU), FuncT(TI32, ckU),
}

const ckPre = "struct S { a i32\n b i64 }\nstruct T { a i32\n b i64 }\nunion U { x i32\n y f32\n z *i8 }\nunion W { x i32\n y f32\n z *i8 }\nfunc vd() {}\n"

// fits: may a value of type v be stored into a place of type t?  ok is false when it is not specified.
func fits(t, v *Ty) (yes, ok bool) {
	if sameTy(t, v) {
		return true, true
	}
	if t.K == KUnion {
		for _, f := range t.Fs {
			if sameTy(f.T, v) {
				return true, true
			}
		}
	}
	if t.K == KPtr && v.K == KPtr {
		if y, _ := fits(t.El, v.El); y {
			return false, false
		}
	}
	return false, true
}

// ckVal is an expression of a type, with what it needs.
type ckVal struct {
	decl, stmt, expr string
}

func num(t *Ty) bool { return t.isInt() || t.K == KFloat || t.K == KBool }

const ckForms = 12

func ckForm(v *Ty, form int, n string) ckVal {
	vt := v.String()
	mk := fmt.Sprintf("func mk%s() %s { p := @alloc(%s, 1); return p[0]; }\n", n, vt, vt)
	h := fmt.Sprintf("struct H%s { pad i8\n f %s }\n", n, vt)
	switch form {
	case 0:
		return ckVal{mk, fmt.Sprintf("v%s := mk%s(); ", n, n), "v" + n}
	case 1:
		return ckVal{mk, "", "mk" + n + "()"}
	case 2:
		return ckVal{mk, fmt.Sprintf("v%s : %s = mk%s(); ", n, vt, n), "(v" + n + ")"}
	case 3:
		return ckVal{h, fmt.Sprintf("h%s := @alloc(H%s, 1)[0]; ", n, n), "h" + n + ".f"}
	case 4:
		return ckVal{h, fmt.Sprintf("h%s := @alloc(H%s, 1); ", n, n), "h" + n + ".f"}
	case 5:
		return ckVal{"", fmt.Sprintf("p%s := @alloc(%s, 1); ", n, vt), "*p" + n}
	case 6:
		return ckVal{"", fmt.Sprintf("p%s : *%s = @alloc(%s, 1); ", n, vt, vt), "p" + n + "[0]"}
	case 7:
		return ckVal{"", fmt.Sprintf("r%s := @alloc([2]%s, 1)[0]; ", n, vt), "r" + n + "[1]"}
	case 8:
		return ckVal{mk, "", fmt.Sprintf("(:%s { return mk%s(); })", vt, n)}
	case 9:
		return ckVal{mk, fmt.Sprintf("g%s := func() %s { return mk%s(); }; ", n, vt, n), "g" + n + "()"}
	case 10:
		return ckVal{fmt.Sprintf("func id%s(q %s) %s { w := q; return w; }\n", n, vt, vt) + mk, "", fmt.Sprintf("id%s(mk%s())", n, n)}
	}
	return ckLiteral(v, n)
}

// ckLiteral is the most literal expression of the type.
func ckLiteral(v *Ty, n string) ckVal {
	vt := v.String()
	switch {
	case v == TI32:
		return ckVal{"", "", "5"}
	case v == TF32:
		return ckVal{"", "", "1.5"}
	case v == TI64:
		return ckVal{"", "", "3000000000"}
	case v == TI8:
		return ckVal{"", "", "'c'"}
	case v == TI1:
		return ckVal{"", "", "(1 < 2)"}
	case v == TStr:
		return ckVal{"", "", "\"s\""}
	case num(v):
		return ckVal{"", "", "(5 as " + vt + ")"}
	case v.K == KPtr:
		return ckVal{"", fmt.Sprintf("o%s := @alloc(%s, 1)[0]; ", n, v.El), "&o" + n}
	case v.K == KArr:
		return ckVal{"", fmt.Sprintf("o%s := @alloc(%s, 1)[0]; ", n, v.El), fmt.Sprintf("%s{o%s, o%s}", vt, n, n)}
	case v.K == KStruct:
		return ckVal{"", "", "@" + vt + "{a: 1, b: 2 as i64}"}
	case v.K == KUnion:
		return ckVal{"", fmt.Sprintf("o%s : %s = 4; ", n, vt), "o" + n}
	}
	var ps []string
	for i, p := range v.Ps {
		ps = append(ps, fmt.Sprintf("a%d %s", i, p))
	}
	if len(v.Rs) == 0 {
		return ckVal{fmt.Sprintf("func fn%s(%s) {}\n", n, strings.Join(ps, ", ")), "", "fn" + n}
	}
	return ckVal{fmt.Sprintf("func fn%s(%s) %s { return @alloc(%s, 1)[0]; }\n", n, strings.Join(ps, ", "), v.Rs[0], v.Rs[0]), "", "fn" + n}
}

var ckContexts = []func(s string) string{
	func(s string) string { return "func main() { " + s + "}\n" },
	func(s string) string { return "func ctx(k i32) { " + s + "}\nfunc main() { ctx(1); }\n" },
	func(s string) string { return "func main() { k := 1; if k == 1 { " + s + "} }\n" },
	func(s string) string { return "func main() { k := 1; if k == 2 { k = 3; } else { " + s + "} }\n" },
	func(s string) string {
		return "func main() { k := 1; if k == 2 { k = 3; } else if k == 1 { " + s + "} }\n"
	},
	func(s string) string { return "func main() { for i := 0; i < 1; i = i + 1 { " + s + "} }\n" },
	func(s string) string {
		return "func main() { k := 1; switch k { case 1 { " + s + "} default { k = 2; } } }\n"
	},
	func(s string) string {
		return "func main() { k := 1; switch k { case 2 { k = 2; } default { " + s + "} } }\n"
	},
	func(s string) string { return "func main() { { " + s + "} }\n" },
	func(s string) string { return "func main() { lam := func(k i32) { " + s + "}; lam(1); }\n" },
	func(s string) string { return "func main() { blk := :i32 { " + s + " return 1; }; }\n" },
	func(s string) string {
		return "func ctx(k i32) i64 { if k == 2 { return 1 as i64; } " + s + " return 2 as i64; }\nfunc main() { ctx(1); }\n"
	},
	func(s string) string {
		return "func ctx(k S) S { " + s + " return k; }\nfunc main() { s := @S{a: 1, b: 2 as i64}; s.ctx(); }\n"
	},
	func(s string) string {
		return "func main() { lam := func(k i32) func(i32) i32 { return func(k i32) i32 { " + s + " return k; }; }; f := lam(1); f(2); }\n"
	},
}

// ckPos is a position where a value meets an expected type.
type ckPos struct {
	name  string
	exact bool // no coercion into a union
	gen   func(t, v *Ty, val ckVal) (decl, stmt string)
}

func tdecl(t *Ty) string { return ckForm(t, 0, "T").decl }

func ckPositions() []ckPos {
	s := fmt.Sprintf
	return []ckPos{
		{"declaration", false, func(t, v *Ty, e ckVal) (string, string) { return "", s("%sx : %s = %s; ", e.stmt, t, e.expr) }},
		{"declaration2", false, func(t, v *Ty, e ckVal) (string, string) { return "", s("%sy := %s; x : %s = y; ", e.stmt, e.expr, t) }},
		{"assign", false, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t), s("%sx := mkT(); x = %s; ", e.stmt, e.expr)
		}},
		{"assignparam", false, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t) + s("func pos(x %s) { %sx = %s; }\n", t, e.stmt, e.expr), "pos(mkT()); "
		}},
		{"deref", false, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := @alloc(%s, 1); *x = %s; ", e.stmt, t, e.expr)
		}},
		{"index", false, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := @alloc(%s, 2); x[1] = %s; ", e.stmt, t, e.expr)
		}},
		{"element", false, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := @alloc([3]%s, 1)[0]; x[2] = %s; ", e.stmt, t, e.expr)
		}},
		{"elementelement", false, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := @alloc([3][2]%s, 1)[0]; x[2][1] = %s; ", e.stmt, t, e.expr)
		}},
		{"field", false, func(t, v *Ty, e ckVal) (string, string) {
			return s("struct G { p i8\n g %s\n q i16 }\n", t), s("%sx := @alloc(G, 1)[0]; x.g = %s; ", e.stmt, e.expr)
		}},
		{"ptrfield", false, func(t, v *Ty, e ckVal) (string, string) {
			return s("struct G { p i8\n g %s\n q i16 }\nstruct K { g G\n p *G }\n", t), s("%sx := @alloc(K, 1); x.p = &x.g; x.p.g = %s; ", e.stmt, e.expr)
		}},
		{"unionfield", false, func(t, v *Ty, e ckVal) (string, string) {
			return s("union G { p i8\n g %s }\n", t), s("%sx := @alloc(G, 1); x.g = %s; ", e.stmt, e.expr)
		}},
		{"literal", false, func(t, v *Ty, e ckVal) (string, string) {
			return s("struct G { p i8\n g %s\n q i16 }\n", t), s("%sx := @G{p: 1 as i8, g: %s, q: 2 as i16}; ", e.stmt, e.expr)
		}},
		{"literalinner", false, func(t, v *Ty, e ckVal) (string, string) {
			return s("struct G { p i8\n g %s\n q i16 }\nstruct K { a i32\n g G }\n", t), s("%sx := @K{a: 1, g: @G{q: 2 as i16, g: %s}}; ", e.stmt, e.expr)
		}},
		{"array", true, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := [1]%s{%s}; ", e.stmt, t, e.expr)
		}},
		{"arraylast", true, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t), s("%sx := [3]%s{mkT(), mkT(), %s}; ", e.stmt, t, e.expr)
		}},
		{"return", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos() %s { %sreturn %s; }\n", t, e.stmt, e.expr), "x := pos(); "
		}},
		{"returnlater", true, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t) + s("func pos(k i32) %s { for k > 0 { if k == 1 { return mkT(); } else { %sreturn %s; } } return mkT(); }\n", t, e.stmt, e.expr), "x := pos(2); "
		}},
		{"returnlambda", true, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("x := func() %s { %sreturn %s; }; y := x(); ", t, e.stmt, e.expr)
		}},
		{"returnmany", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos() (i32, %s) { %sreturn 1, %s; }\n", t, e.stmt, e.expr), "x, y := pos(); "
		}},
		{"block", true, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("x := :%s { %sreturn %s; }; ", t, e.stmt, e.expr)
		}},
		{"blockif", true, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t), s("k9 := 1; x := :%s { if k9 == 1 { return mkT(); } %sreturn %s; }; ", t, e.stmt, e.expr)
		}},
		{"argument", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos(x %s) {}\n", t), s("%spos(%s); ", e.stmt, e.expr)
		}},
		{"argument2", true, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t) + s("func pos(w i8, x %s, y %s) i32 { return 1; }\n", t, t), s("%sx := pos(1 as i8, %s, mkT()); ", e.stmt, e.expr)
		}},
		{"argumentlambda", true, func(t, v *Ty, e ckVal) (string, string) {
			return "", s("%sx := func(a i32, b %s) i32 { return a; }; y := x(1, %s); ", e.stmt, t, e.expr)
		}},
		{"argumentparam", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos(x %s) {}\nfunc call(cb func(%s) void) { %scb(%s); }\n", t, t, e.stmt, e.expr), "call(pos); "
		}},
		{"argumentfield", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("struct G { cb func(i32, %s) i32 }\n", t), s("%sx := @alloc(G, 1); y := x.cb(1, %s); ", e.stmt, e.expr)
		}},
		{"methodargument", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos(m T, x %s) i32 { return m.a; }\n", t), s("%sm := @T{a: 1, b: 2 as i64}; y := m.pos(%s); ", e.stmt, e.expr)
		}},
		{"receiver", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos(x %s, k i32) i32 { return k; }\n", t), s("%srcv := %s; y := rcv.pos(3); ", e.stmt, e.expr)
		}},
		{"manyassign", true, func(t, v *Ty, e ckVal) (string, string) {
			return tdecl(t), s("%sx := 1; y := mkT(); x, y = 2, %s; ", e.stmt, e.expr)
		}},
		{"recursion", true, func(t, v *Ty, e ckVal) (string, string) {
			return s("func pos(k i32, x %s) i32 { if k == 0 { return 1; } %sreturn pos(k - 1, %s); }\n", t, e.stmt, e.expr), ""
		}},
	}
}

func ckCase(yes bool, src string) Case {
	if yes {
		return Case{Kind: KAccept, Src: src}
	}
	return Case{Kind: KReject, Src: src}
}

// typed is the case of an expression of type r where a t is expected.
func ckTyped(x *Enum, key string, decl, stmt, expr string, r, t *Ty, n int) {
	if r == nil {
		// refused whatever is expected
		x.Case(key, func() Case {
			return ckCase(false, ckPre+decl+ckContexts[n%len(ckContexts)](stmt+"x := "+expr+"; "))
		})
		return
	}
	yes, ok := fits(t, r)
	if !ok {
		return
	}
	x.Case(key, func() Case {
		return ckCase(yes, ckPre+decl+ckContexts[n%len(ckContexts)](fmt.Sprintf("%sx : %s = %s; ", stmt, t, expr)))
	})
}

func genCheck(x *Enum) {
	ckMatrix(x)
	ckNear(x)
	ckBinary(x)
	ckPrefix(x)
	ckCasts(x)
	ckAccess(x)
	ckCalls(x)
	ckConditions(x)
	ckBuiltins(x)
	ckVoid(x)
	ckCounts(x)
	ckUndefined(x)
	ckOutside(x)
	ckDeep(x)
	ckTargets(x)
	ckBuiltinArgs(x)
}

func ckMatrix(x *Enum) {
	for pi, p := range ckPositions() {
		for ti, t := range ckTypes {
			for vi, v := range ckTypes {
				yes, ok := fits(t, v)
				if p.exact {
					yes, ok = sameTy(t, v), true
				}
				if !ok {
					continue
				}
				p, t, v := p, t, v
				for f := 0; f < ckForms; f++ {
					if !x.Thorough() && (f+pi*5+ti*7+vi*3)%3 != 0 {
						continue
					}
					for o := 0; o < x.Pick(1, 5); o++ {
						f, c := f, (pi*3+ti+vi*5+f+o*3)%len(ckContexts)
						x.Case(k("pos:%s:%s:%s:%d:%d", p.name, t, v, f, o), func() Case {
							e := ckForm(v, f, "V")
							d, st := p.gen(t, v, e)
							return ckCase(yes, ckPre+e.decl+d+ckContexts[c](st))
						})
					}
				}
			}
		}
	}
}

// ckNear is every form in every context and position, for types that are easy to mix up.
func ckNear(x *Enum) {
	pairs := [][2]*Ty{{TI32, TI32}, {TI32, TU32}, {TI64, TI32}, {ckS, ckT}, {Ptr(ckS), ckS}, {ckF1, FuncT(TI32, TI64)}, {ckU, TF32}, {Arr(2, TI32), Arr(2, TI32)}, {TF32, TF64}}
	for _, p := range ckPositions() {
		for _, tv := range pairs {
			t, v := tv[0], tv[1]
			yes, _ := fits(t, v)
			if p.exact {
				yes = sameTy(t, v)
			}
			for f := 0; f < ckForms; f++ {
				for c := range ckContexts {
					if !x.Thorough() && (f+c)%3 != 0 {
						continue
					}
					p, t, v, f, c, yes := p, t, v, f, c, yes
					x.Case(k("near:%s:%s:%s:%d:%d", p.name, t, v, f, c), func() Case {
						e := ckForm(v, f, "V")
						d, st := p.gen(t, v, e)
						return ckCase(yes, ckPre+e.decl+d+ckContexts[c](st))
					})
				}
			}
		}
	}
}

// opType is the type of a binary operation; ok is false when it is not specified, nil when it is refused.
func opType(op string, a, b *Ty) (r *Ty, ok bool) {
	i1 := a.K == KBool || b.K == KBool
	switch op {
	case "<<", ">>":
		if i1 {
			return nil, false
		}
		if a.isInt() && b.K == KInt {
			return a, true
		}
		return nil, true
	case "==", "!=", "<", ">", "<=", ">=":
		if sameTy(a, b) && (num(a) || a.K == KPtr) {
			return TI1, true
		}
		return nil, true
	case "&&", "||":
		if sameTy(a, b) && num(a) {
			return TI1, true
		}
		return nil, a.K != KPtr || b.K != KPtr
	}
	if (op == "+" || op == "-") && a.K == KPtr && (b.isInt() || b.K == KBool) {
		return a, b.K != KBool
	}
	if !sameTy(a, b) {
		return nil, true
	}
	if i1 {
		return nil, false
	}
	switch op {
	case "&", "|", "^":
		if a.isInt() {
			return a, true
		}
		return nil, true
	}
	if num(a) {
		return a, true
	}
	if op == "+" && sameTy(a, TStr) {
		return a, true
	}
	return nil, true
}

var ckOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}

func ckBinary(x *Enum) {
	for oi, op := range ckOps {
		for ai, a := range ckTypes {
			for bi, b := range ckTypes {
				r, ok := opType(op, a, b)
				if !ok {
					continue
				}
				a, b, op := a, b, op
				n := oi*7 + ai*3 + bi
				mk := func(n int) (string, string, string) {
					fa, fb := n%ckForms, (n/3)%ckForms
					if a.K == KArr && fa == 11 || a.K == KUnion && fa == 11 {
						fa = 0
					}
					va, vb := ckForm(a, fa, "A"), ckForm(b, fb, "B")
					return va.decl + vb.decl, va.stmt + vb.stmt, va.expr + " " + op + " " + vb.expr
				}
				if r == nil {
					d, s, e := mk(n)
					ckTyped(x, k("binary:%s:%s:%s", op, a, b), d, s, e, nil, nil, n)
					continue
				}
				for ti, t := range ckTypes {
					if !sameTy(a, b) && !sameTy(t, r) && !sameTy(t, b) && !x.Thorough() && (ti+n)%5 != 0 {
						continue
					}
					d, s, e := mk(n + ti)
					ckTyped(x, k("binary:%s:%s:%s->%s", op, a, b, t), d, s, e, r, t, n+ti)
				}
			}
		}
	}
}

func ckPrefix(x *Enum) {
	for oi, op := range []string{"-", "+", "!", "*", "&", "++", "--"} {
		for ai, a := range ckTypes {
			var r *Ty
			switch op {
			case "-", "+", "++", "--":
				if a.K == KBool {
					continue
				}
				if num(a) {
					r = a
				}
			case "!":
				if num(a) || a.K == KPtr {
					r = TI1
				}
			case "*":
				if a.K == KPtr {
					r = a.El
				}
			case "&":
				r = Ptr(a)
			}
			// every form of the operand that can be written to, where that is needed
			for _, f := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11} {
				stored := f == 0 || f >= 2 && f <= 7
				if (op == "&" || op == "++" || op == "--") && !stored {
					if op == "&" {
						continue
					}
					op, a, f := op, a, f
					x.Case(k("prefix:%s:%s:%d", op, a, f), func() Case {
						e := ckForm(a, f, "A")
						return ckCase(false, ckPre+e.decl+ckContexts[(oi+ai+f)%len(ckContexts)](e.stmt+op+" "+e.expr+"; "))
					})
					continue
				}
				e := ckForm(a, f, "A")
				expr := op + e.expr
				if r == nil {
					ckTyped(x, k("prefix:%s:%s:%d", op, a, f), e.decl, e.stmt, expr, nil, nil, oi+ai+f)
					continue
				}
				for ti, t := range append([]*Ty{r}, ckTypes...) {
					ckTyped(x, k("prefix:%s:%s:%d->%s:%d", op, a, f, t, ti), e.decl, e.stmt, expr, r, t, oi+ai+f+ti)
				}
			}
		}
	}
}

func ckCasts(x *Enum) {
	for ai, a := range ckTypes {
		for ti, t := range ckTypes {
			yes := t.K == KPtr && (a.K == KPtr || a.K == KArr || num(a)) || num(t) && (a.K == KPtr || num(a))
			if a.K == KFunc || t.K == KFunc || t.K == KPtr && a.K == KFloat || a.K == KPtr && t.K == KFloat || a.K == KStruct && sameTy(a, t) || a.K == KArr && sameTy(a, t) {
				continue
			}
			for f := 0; f < ckForms; f++ {
				if !x.Thorough() && (f+ai+ti)%3 != 0 {
					continue
				}
				e := ckForm(a, f, "A")
				expr := e.expr + " as " + t.String()
				if !yes {
					ckTyped(x, k("cast:%s:%s:%d", a, t, f), e.decl, e.stmt, expr, nil, nil, ai+ti+f)
					continue
				}
				ckTyped(x, k("cast:%s:%s:%d", a, t, f), e.decl, e.stmt, expr, t, t, ai+ti+f)
				// the type of a cast is the type it names
				o := ckTypes[(ti+ai+f)%len(ckTypes)]
				ckTyped(x, k("cast:%s:%s:%d->%s", a, t, f, o), e.decl, e.stmt, expr, t, o, ai+ti+f)
				ckTyped(x, k("cast:%s:%s:%d->from", a, t, f), e.decl, e.stmt, expr, t, a, ai+ti+f)
			}
		}
	}
}

func ckAccess(x *Enum) {
	// indices
	for ai, a := range ckTypes {
		for ii, i := range ckTypes {
			if i.K == KBool {
				continue
			}
			n := ai + ii*3
			f, g := n%ckForms, (n/5)%ckForms
			if f == 11 && a.K != KPtr {
				f = 0
			}
			if f == 5 {
				f = 6
			}
			e, ie := ckForm(a, f, "A"), ckForm(i, g, "I")
			expr := e.expr + "[" + ie.expr + "]"
			if f == 11 {
				expr = "(" + e.expr + ")[" + ie.expr + "]"
			}
			if a.K != KPtr && a.K != KArr || !i.isInt() {
				ckTyped(x, k("index:%s:%s", a, i), e.decl+ie.decl, e.stmt+ie.stmt, expr, nil, nil, n)
				continue
			}
			ckTyped(x, k("index:%s:%s", a, i), e.decl+ie.decl, e.stmt+ie.stmt, expr, a.El, a.El, n)
			if i == TI32 {
				for ti, t := range ckTypes {
					ckTyped(x, k("index:%s:%s->%s", a, i, t), e.decl+ie.decl, e.stmt+ie.stmt, expr, a.El, t, n+ti)
				}
			}
		}
	}
	// fields
	for ai, a := range ckTypes {
		for _, name := range []string{"a", "b", "x", "y", "z", "c"} {
			st := a
			if a.K == KPtr {
				st = a.El
			}
			var r *Ty
			if st.K == KStruct || st.K == KUnion {
				for _, f := range st.Fs {
					if f.N == name {
						r = f.T
					}
				}
			}
			for f := 0; f < ckForms; f++ {
				g := f
				if f == 11 || f == 5 {
					continue
				}
				e := ckForm(a, g, "A")
				expr := e.expr + "." + name
				if r == nil {
					ckTyped(x, k("field:%s:%s:%d", a, name, f), e.decl, e.stmt, expr, nil, nil, ai+f)
					continue
				}
				for ti, t := range ckTypes {
					ckTyped(x, k("field:%s:%s:%d->%s", a, name, f, t), e.decl, e.stmt, expr, r, t, ai+f+ti)
				}
			}
		}
	}
	// fields of a type that is there, through other fields
	chain := "struct A1 { b B1\n p *B1 }\nstruct B1 { c C1\n arr [2]C1 }\nstruct C1 { v i16\n u U }\n"
	for ei, e := range []struct {
		expr string
		r    *Ty
	}{{"r.b.c.v", TI16}, {"r.p.c.v", TI16}, {"r.p.arr[1].v", TI16}, {"r.b.arr[0].u.x", TI32}, {"r.p.c.u.y", TF32}, {"r.b.c.u.z", TStr}, {"r.b.c.u.z[0]", TI8}, {"r.b.c.u", ckU}, {"*r.b.c.u.z", TI8}, {"&r.p.c.v", Ptr(TI16)}, {"&r.b.arr", Ptr(Arr(2, StructT("C1")))},
		{"r.c", nil}, {"r.b.v", nil}, {"r.b.c.c", nil}, {"r.p.p", nil}, {"r.arr", nil}, {"r.b.arr.v", nil}, {"r.b.c.u.w", nil}, {"r.b.c.v.x", nil}, {"r.p.c[0]", nil}, {"r.b[0]", nil}, {"*r.b", nil}, {"r.b.c.u.x.x", nil}} {
		for ri, root := range []string{"r := @alloc(A1, 1); ", "r := @alloc(A1, 1)[0]; "} {
			if e.r == nil {
				ckTyped(x, k("chain:%s:%d", e.expr, ri), chain, root, e.expr, nil, nil, ei)
				continue
			}
			for ti, t := range append([]*Ty{e.r}, ckTypes...) {
				ckTyped(x, k("chain:%s:%d->%s:%d", e.expr, ri, t, ti), chain, root, e.expr, e.r, t, ei+ti)
			}
		}
	}
}

func ckCalls(x *Enum) {
	// calling a value of every type, with any number of arguments
	for ai, a := range ckTypes {
		for n := 0; n <= 3; n++ {
			for f := 0; f < ckForms; f++ {
				if f == 5 || f == 8 || f == 2 || f == 11 && a.K != KFunc {
					continue
				}
				var args []string
				yes := a.K == KFunc && len(a.Ps) == n
				decl, stmt := "", ""
				for i := 0; i < n; i++ {
					t := TI32
					if a.K == KFunc && i < len(a.Ps) {
						t = a.Ps[i]
					}
					v := ckForm(t, (f+i)%ckForms, fmt.Sprint("P", i))
					decl, stmt = decl+v.decl, stmt+v.stmt
					args = append(args, v.expr)
				}
				e := ckForm(a, f, "A")
				call := e.expr + "(" + strings.Join(args, ", ") + ")"
				decl, stmt = decl+e.decl, stmt+e.stmt
				c := ckContexts[(ai+n+f)%len(ckContexts)]
				x.Case(k("call:%s:%d:%d", a, n, f), func() Case { return ckCase(yes, ckPre+decl+c(stmt+call+"; ")) })
				if yes && len(a.Rs) == 1 {
					for ti, t := range ckTypes {
						ckTyped(x, k("call:%s:%d:%d->%s", a, n, f, t), decl, stmt, call, a.Rs[0], t, ai+n+f+ti)
					}
				}
			}
		}
	}
	// methods with any number of arguments
	for np := 0; np <= 3; np++ {
		for n := 0; n <= 3; n++ {
			for ri, recv := range []*Ty{ckS, Ptr(ckS), TI32, TStr, ckU, Arr(2, TI32)} {
				np, n, recv := np, n, recv
				x.Case(k("method:%d:%d:%s", np, n, recv), func() Case {
					ps, as := "", []string{}
					for i := 0; i < np; i++ {
						ps += fmt.Sprintf(", p%d i32", i)
					}
					for i := 0; i < n; i++ {
						as = append(as, fmt.Sprint(i))
					}
					v := ckForm(recv, 0, "R")
					return ckCase(n == np, ckPre+v.decl+fmt.Sprintf("func mth(r %s%s) i32 { return 1; }\n", recv, ps)+ckContexts[(np*4+n+ri)%len(ckContexts)](v.stmt+"x : i32 = vR.mth("+strings.Join(as, ", ")+"); "))
				})
			}
		}
	}
}

func ckConditions(x *Enum) {
	s := fmt.Sprintf
	conds := []struct {
		name string
		gen  func(e ckVal) string
	}{
		{"if", func(e ckVal) string { return s("%sif %s { vd(); } ", e.stmt, e.expr) }},
		{"ifelse", func(e ckVal) string { return s("%sif %s { vd(); } else { vd(); } ", e.stmt, e.expr) }},
		{"elseif", func(e ckVal) string { return s("%sif 1 == 2 { vd(); } else if %s { vd(); } ", e.stmt, e.expr) }},
		{"elseif2", func(e ckVal) string {
			return s("%sif 1 == 2 { vd(); } else if 1 == 3 { vd(); } else if %s { vd(); } else { vd(); } ", e.stmt, e.expr)
		}},
		{"for", func(e ckVal) string { return s("%sfor %s { break; } ", e.stmt, e.expr) }},
		{"forfull", func(e ckVal) string { return s("%sfor i9 := 0; %s; i9 = i9 + 1 { break; } ", e.stmt, e.expr) }},
	}
	for ai, a := range ckTypes {
		for ci, c := range conds {
			for f := 0; f < ckForms; f++ {
				if (f == 8 || f == 11 && a.K != KFunc) && !num(a) {
					continue
				}
				a, c, f := a, c, f
				x.Case(k("condition:%s:%s:%d", c.name, a, f), func() Case {
					e := ckForm(a, f, "A")
					return ckCase(num(a), ckPre+e.decl+ckContexts[(ai+ci+f)%len(ckContexts)](c.gen(e)))
				})
			}
		}
		// switches
		for li, l := range ckTypes {
			if !num(l) && l.K != KPtr || l == TI1 || a == TI1 {
				continue
			}
			a, l := a, l
			lab := "(5 as " + l.String() + ")"
			switch l {
			case TI32:
				lab = "5"
			case TF32:
				lab = "1.5"
			case TStr:
				lab = "\"s\""
			case TI8:
				lab = "'c'"
			default:
				if l.K == KPtr {
					continue
				}
			}
			for w := 0; w < 3; w++ {
				w := w
				x.Case(k("switch:%s:%s:%d", a, l, w), func() Case {
					e := ckForm(a, []int{0, 1, 3, 4, 6, 7, 9}[(ai+li+w)%7], "A")
					body := "case " + lab + " { vd(); } "
					switch {
					case w == 1 && a.isInt():
						body = s("case (3 as %s) { vd(); } ", a) + body
					case w == 1:
						body = "case 4 { vd(); } " + body
					case w == 2:
						body += "default { vd(); } "
					}
					return ckCase(a.isInt() && sameTy(a, l), ckPre+e.decl+ckContexts[(ai+li+w)%len(ckContexts)](s("%sswitch %s { %s} ", e.stmt, e.expr, body)))
				})
			}
		}
	}
}

func ckBuiltins(x *Enum) {
	s := fmt.Sprintf
	for ai, a := range ckTypes {
		for f := 0; f < ckForms; f++ {
			e := ckForm(a, f, "A")
			n := ai + f
			a := a
			if a != TI1 {
				if a.isInt() {
					ckTyped(x, k("alloc:%s:%d", a, f), e.decl, e.stmt, s("@alloc(i64, %s)", e.expr), Ptr(TI64), Ptr(TI64), n)
				} else {
					ckTyped(x, k("alloc:%s:%d", a, f), e.decl, e.stmt, s("@alloc(i64, %s)", e.expr), nil, nil, n)
				}
				if a.K == KInt {
					ckTyped(x, k("realloc:%s:%d", a, f), e.decl, "q9 := @alloc(S, 1); "+e.stmt, s("@realloc(q9, %s)", e.expr), Ptr(ckS), Ptr(ckS), n)
				} else if !a.isInt() {
					ckTyped(x, k("realloc:%s:%d", a, f), e.decl, "q9 := @alloc(S, 1); "+e.stmt, s("@realloc(q9, %s)", e.expr), nil, nil, n)
				}
			}
			if a.K == KPtr {
				ckTyped(x, k("reallocbase:%s:%d", a, f), e.decl, e.stmt, s("@realloc(%s, 3)", e.expr), a, a, n)
				ckTyped(x, k("reallocbase:%s:%d->", a, f), e.decl, e.stmt, s("@realloc(%s, 3)", e.expr), a, ckTypes[n%len(ckTypes)], n)
			} else {
				ckTyped(x, k("reallocbase:%s:%d", a, f), e.decl, e.stmt, s("@realloc(%s, 3)", e.expr), nil, nil, n)
			}
			x.Case(k("free:%s:%d", a, f), func() Case {
				return ckCase(a.K == KPtr, ckPre+e.decl+ckContexts[n%len(ckContexts)](e.stmt+"@free("+e.expr+"); "))
			})
			x.Case(k("print:%s:%d", a, f), func() Case {
				return ckCase(true, ckPre+e.decl+ckContexts[n%len(ckContexts)](e.stmt+"@print("+e.expr+", 1); "))
			})
		}
		for ti, t := range ckTypes {
			ckTyped(x, k("sizeof:%s->%s", a, t), "", "", "@sizeof("+a.String()+")", TI32, t, ai+ti)
			ckTyped(x, k("alloctype:%s->%s", a, t), "", "", "@alloc("+a.String()+", 2)", Ptr(a), t, ai+ti)
		}
		ckTyped(x, k("alloctype:%s->*", a), "", "", "@alloc("+a.String()+", 2)", Ptr(a), Ptr(a), ai)
	}
	for _, l := range []struct {
		e string
		t *Ty
	}{{"0", TI32}, {"2147483647", TI32}, {"2147483648", TI64}, {"9223372036854775807", TI64}, {"9223372036854775808", TU64}, {"18446744073709551615", TU64}, {"0x7fffffff", TI32}, {"1.0", TF32}, {"0.5", TF32}, {"'a'", TI8}, {"\"\"", TStr}, {"\"ab\"", TStr}, {"-5", TI32}, {"-1.5", TF32}, {"-3000000000", TI64}} {
		for ti, t := range ckTypes {
			ckTyped(x, k("constant:%s->%s", l.e, t), "", "", l.e, l.t, t, ti)
			l, t := l, t
			if yes, ok := fits(t, l.t); ok && t.K != KUnion {
				x.Case(k("globalconstant:%s->%s", l.e, t), func() Case {
					return ckCase(yes, ckPre+fmt.Sprintf("gl : %s = %s;\nfunc main() { x := gl; }\n", t, l.e))
				})
				x.Case(k("globalconst:%s->%s", l.e, t), func() Case {
					return ckCase(yes, ckPre+fmt.Sprintf("const gl : %s = %s;\nfunc main() { x := gl; }\n", t, l.e))
				})
			}
		}
	}
}

// ckVoid puts the call of a function that returns nothing where a value is needed.
func ckVoid(x *Enum) {
	calls := []struct{ decl, stmt, expr string }{
		{"", "", "vd()"}, {"", "", "(vd())"}, {"", "w := func() {}; ", "w()"}, {"struct C9 { f func() void }\n", "w := @alloc(C9, 1); ", "w.f()"}, {"func mv(s S) {}\n", "w := @alloc(S, 1)[0]; ", "w.mv()"},
	}
	uses := []string{"x := %s; ", "x : i32 = %s; ", "const x := %s; ", "x := 1; x = %s; ", "x := [1]i32{%s}; ", "x := @S{a: %s}; ", "x := :i32 { return %s; }; ", "take(%s); ", "x := -%s; ", "x := !%s; ", "x := *%s; ", "x := %s + 1; ", "x := 1 + %s; ", "x := %s == %s; ", "x := %s && %s; ", "x := %s as i32; ", "x := %s as *i8; ", "x := r[%s]; ", "x := %s[0]; ", "x := %s.a; ", "x := %s(); ", "if %s { vd(); } ", "for %s { break; } ", "switch %s { case 1 { vd(); } } ", "@free(%s); ", "x := @alloc(i32, %s); ", "x := @realloc(r, %s); ", "x, y := 1, %s; ", "x := 1; y := 2; x, y = 1, %s; ", "x := func() i32 { return %s; }; ", "++%s; ", "@print(%s); ", "@print(1, %s); ", "@print(%s, 1); ", "@print(1, 2, %s, 3); ", "@add_compiler_flag(%s); ", "@free(r, %s); ", "%s, k2 := 1, 2; "}
	for ci, c := range calls {
		for ui, u := range uses {
			c, u := c, u
			n := strings.Count(u, "%s")
			x.Case(k("void:%s:%s", c.expr, u), func() Case {
				args := []any{c.expr, c.expr}[:n]
				return ckCase(false, ckPre+"func take(a i32) {}\n"+c.decl+ckContexts[(ci+ui)%len(ckContexts)](c.stmt+"r := @alloc(i32, 2); "+fmt.Sprintf(u, args...)))
			})
		}
		for xi := range ckContexts {
			c, xi := c, xi
			x.Case(k("voidcall:%s:%d", c.expr, xi), func() Case {
				return ckCase(true, ckPre+c.decl+ckContexts[xi](c.stmt+c.expr+"; "))
			})
		}
	}
	// what a function has to return
	for _, r := range []string{"i32", "S", "*S", "f64", "func(i32) i32"} {
		for i, c := range []struct {
			yes bool
			src string
		}{
			{false, "func f() %s { return; }\n"}, {false, "func f() %s { return vd(); }\n"}, {false, "func f() { p := @alloc(%s, 1); return p[0]; }\n"}, {true, "func f() { return; }\n"}, {false, "func f() %s { if 1 == 1 { return; } p := @alloc(%[1]s, 1); return p[0]; }\n"},
			{false, "func f() { g := func() %s { return; }; }\n"}, {false, "func f() { g := func() { p := @alloc(%s, 1); return p[0]; }; }\n"}, {false, "func f() { x := :%s { return; }; }\n"}, {false, "func f() (%s, i32) { return; }\n"},
		} {
			r, c := r, c
			x.Case(k("returns:%s:%d", r, i), func() Case {
				src := c.src
				if strings.Contains(src, "%") {
					src = fmt.Sprintf(src, r)
				}
				return ckCase(c.yes, ckPre+src+"func main() { }\n")
			})
		}
	}
}

// ckCounts counts values.
func ckCounts(x *Enum) {
	s := fmt.Sprintf
	list := func(p string, n int) string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, strings.ReplaceAll(p, "#", fmt.Sprint(i)))
		}
		return strings.Join(r, ", ")
	}
	rets := func(n int) string {
		if n == 1 {
			return "i32"
		}
		return "(" + list("i32", n) + ")"
	}
	for n := 1; n <= 4; n++ {
		for m := 1; m <= 4; m++ {
			n, m := n, m
			yes := n == m
			src := s("func f() %s { return %s; }\n", rets(n), list("#", n))
			c := ckContexts[(n*4+m)%len(ckContexts)]
			x.Case(k("count:return:%d:%d", n, m), func() Case {
				return ckCase(yes, s("%sfunc f() %s { return %s; }\nfunc main() { }\n", ckPre, rets(n), list("#", m)))
			})
			x.Case(k("count:returncall:%d:%d", n, m), func() Case {
				return ckCase(yes, s("%s%sfunc g() %s { return f(); }\nfunc main() { }\n", ckPre, src, rets(m)))
			})
			x.Case(k("count:declarecall:%d:%d", n, m), func() Case {
				return ckCase(yes, ckPre+src+c(s("%s := f(); ", list("x#", m))))
			})
			x.Case(k("count:declare:%d:%d", n, m), func() Case {
				return ckCase(yes, ckPre+c(s("%s := %s; ", list("x#", m), list("#", n))))
			})
			init := ""
			for i := 0; i < m; i++ {
				init += s("x%d := 0; ", i)
			}
			x.Case(k("count:assigncall:%d:%d", n, m), func() Case {
				return ckCase(yes, ckPre+src+c(init+s("%s = f(); ", list("x#", m))))
			})
			x.Case(k("count:assign:%d:%d", n, m), func() Case {
				return ckCase(yes, ckPre+c(init+s("%s = %s; ", list("x#", m), list("#", n))))
			})
			x.Case(k("count:array:%d:%d", n, m), func() Case {
				return ckCase(m <= n, ckPre+c(s("x := [%d]i32{%s}; ", n, list("#", m))))
			})
			if n > 1 {
				x.Case(k("count:argument:%d:%d", n, m), func() Case {
					return ckCase(false, ckPre+src+s("func g(%s) {}\n", list("a# i32", m))+c("g(f()); "))
				})
				x.Case(k("count:operand:%d:%d", n, m), func() Case {
					return ckCase(false, ckPre+src+c([]string{"x := f() + 1; ", "x := -f(); ", "if f() { vd(); } ", "x := [4]i32{f()}; "}[m-1]))
				})
				x.Case(k("count:value:%d:%d", n, m), func() Case {
					return ckCase(false, ckPre+src+c([]string{"x := @S{a: f()}; ", "x := :i32 { return f(); }; ", "x := 0; x = f(); ", "x : i32 = f(); "}[m-1]))
				})
			}
		}
	}
}

// ckUndefined uses names that do not exist.
func ckUndefined(x *Enum) {
	exprs := []string{"%s", "%s + 1", "1 + %s", "-%s", "*%s", "&%s", "!%s", "++%s", "%s as i64", "%s()", "%s(1)", "take(%s)", "%s.a", "%s.a()", "s.m(%s)", "r[%s]", "%s[0]", "[1]i32{%s}", "@S{a: %s}", "@%s{a: 1}", "s.%s", "s.%s()", "u.%s", ":i32 { return %s; }", "@alloc(i32, %s)", "@alloc(%s, 1)", "@sizeof(%s)", "1 as %s", "1 as *%s", "[1]%s{1}", "@realloc(%s, 2)", "(func(a %s) i32 { return 1; })", "(func() %s { return 1; })", "func() i32 { return %s; }", "1, %s"}
	for i, e := range exprs {
		for ci, c := range ckContexts {
			e, c := e, c
			x.Case(k("undefined:expr:%d:%d", i, ci), func() Case {
				lhs := "x := "
				if e == "1, %s" {
					lhs = "x, y := "
				}
				return ckCase(false, ckPre+"func take(a i32) i32 { return a; }\nfunc m(s S, a i32) i32 { return a; }\n"+c("s := @S{a: 1}; u : U = 1; r := @alloc(i32, 1); "+lhs+fmt.Sprintf(e, "nope")+"; "))
			})
		}
	}
	stmts := []string{"%s; ", "%s = 1; ", "*%s = 1; ", "%s[0] = 1; ", "%s.a = 1; ", "s.%s = 1; ", "s.a, %s = 1 , 2; ", "x : %s = 1; ", "x : *%s = 0 as *i8; ", "x : [2]%s = 1; ", "x : func(%s) void = vd; ", "x : func() %s = vd; ", "if %s { vd(); } ", "if 1 == 1 { vd(); } else if %s { vd(); } ", "for %s { break; } ", "for i := %s; i < 1; i = i + 1 { vd(); } ", "for i := 0; i < 1; i = %s { vd(); } ", "for i := 0; i < 1; %s = 1 { vd(); } ", "switch %s { case 1 { vd(); } } ", "switch 1 { case %s { vd(); } } ", "switch 1 { case 1 { %s; } } ", "switch 1 { default { %s; } } ", "@free(%s); ", "@print(%s); ", "@print(1, %s); ", "{ %s; } ", "{ nope : i32 = 1; } %s = 2; ", "for nope := 0; nope < 1; nope = nope + 1 { vd(); } %s = 2; ", "l := func(nope i32) i32 { return nope; }; %s = 2; ", "%s = 1; nope := 3; "}
	for i, st := range stmts {
		for ci, c := range ckContexts {
			st, c := st, c
			x.Case(k("undefined:stmt:%d:%d", i, ci), func() Case {
				return ckCase(false, ckPre+c("s := @S{a: 1}; "+fmt.Sprintf(st, "nope")))
			})
		}
	}
	for i, d := range []string{"x : %s = 1;\n", "x := %s;\n", "const x := %s;\n", "func f(a %s) {}\n", "func f() %s { return 1; }\n", "func f(a *%s) {}\n", "func f(a [2]%s) {}\n", "func f() (i32, %s) { return 1, 2; }\n", "func f(a func(%s) void) {}\n", "func f(a func() %s) {}\n", "struct Q { a %s }\n", "struct Q { a *%s }\n", "struct Q { a [2]%s }\n", "struct Q { a func(%s) void }\n", "union Q { a %s }\n", "union Q { a *%s\n b i32 }\n", "type Q = %s;\nfunc f(a Q) {}\n", "type Q = *%s;\nfunc f(a Q) {}\n", "type Q = [2]%s;\nfunc f(a Q) {}\n", "extern func puts(%s) i32;\nfunc f() { puts(1); }\n"} {
		for o := 0; o < 2; o++ {
			d, o := d, o
			x.Case(k("undefined:decl:%d:%d", i, o), func() Case {
				src := fmt.Sprintf(d, "nope")
				if o == 0 {
					return ckCase(false, ckPre+src+"func main() { vd(); }\n")
				}
				return ckCase(false, "func main() { vd(); }\n"+ckPre+src)
			})
		}
	}
}

// ckTargets assigns to what is not a variable, and to what is one.
func ckTargets(x *Enum) {
	wrong := []string{"1", "kk + 1", "1 + kk", "-kk", "!kk", "kk == 1", "kk && 1", "(kk + 1)", "kk as i32", "fi()", "\"s\"", "'c'", "1.5", "&kk", "@alloc(i32, 1)", "@S{a: 1, b: 2 as i64}", "[1]i32{1}",
		"func() { }", ":i32 { return 1; }", "++kk", "--kk", "fi", "kk * 2", "*p + 1", "ss.a + 1", "&ss", "p + 1", "@cast(i32, kk)", "@sizeof(i32)", "kk | 1", "kk << 1", "&*p", "ss.a as i32",
		"KC", "*KC", "r[0] + r[1]", "(:i32 { return 1; })", "kk < r[0]", "(kk as i64)", "r[0] - *p", "ss.fss() + 1", "vd()", "(kk == 1) + kk", "(1)", "(*p + ss.a) * 2", "p[0] / 3", "kk % 2 - 1"}
	right := []string{"kk", "*p", "ss.a", "r[0]", "p[0]", "(kk)", "(*p)", "(&ss).a", "ps.a", "(*ps).a", "r[kk - kk]", "sr[1].a", "(&sr[1]).a", "*&kk", "*(p + 0)", "gl", "(r)[1]", "fp()[0]", "*fp()", "fsp().a"}
	forms := []string{"§ = %s; ", "§, k2 = %s, 1; ", "k2, § = 1, %s; ", "k2, §, r[1] = 1, %s, 2; ", "for § = %s; k2 < 1; k2 = k2 + 1 { vd(); } ", "for k2 = 0; k2 < 1; § = %s { break; } ", "#if 1 { § = %s; } ", "{ k2 = 3; § = %s; } ", "§ = %s + 1; ", "if kk == 1 { vd(); } else { § = (%s); } "}
	values := []string{"1", "kk", "5"}
	decl := "const KC := 3;\ngl := 1;\nfunc fi() i32 { return 1; }\nfunc fp() *i32 { return @alloc(i32, 1); }\nfunc fsp() *S { return @alloc(S, 1); }\nfunc fss(s S) i32 { return s.a; }\n"
	vars := "kk := 1; k2 := 2; p := &kk; ss := @S{a: 1, b: 2 as i64}; ps := &ss; r := [2]i32{1, 2}; sr := [2]S{ss, ss}; "
	for ti, t := range append(append([]string{}, wrong...), right...) {
		for fi, f := range forms {
			for ci, c := range ckContexts {
				// its own value, where it has one that may be read
				for vi, v := range append(values, t) {
					if (ti+fi+ci+vi)%3 != 0 && !x.Thorough() {
						continue
					}
					if ti >= len(wrong) && vi == len(values) && f[len(f)-5:] == "+ 1; " {
						continue
					}
					yes := ti >= len(wrong)
					if strings.Contains(f, "for ") && yes && strings.Contains(c(""), "for ") {
						continue
					}
					t, f, c, v := t, f, c, v
					x.Case(k("target:%d:%d:%d:%d", ti, fi, ci, vi), func() Case {
						return ckCase(yes, ckPre+decl+c(vars+fmt.Sprintf(strings.ReplaceAll(f, "§", t), v)))
					})
				}
			}
		}
	}
}

// ckOutside puts statements where they do not belong.
func ckOutside(x *Enum) {
	for i, st := range []string{"gl = 2;\n", "if 1 == 1 { vd(); }\n", "for 1 == 1 { vd(); }\n", "switch 1 { case 1 { vd(); } }\n", "a, b := 1, 2;\n", "{ vd(); }\n", "return;\n", "return 1;\n", "break;\n", "continue;\n"} {
		for o := 0; o < 2; o++ {
			st, o := st, o
			x.Case(k("outside:%d:%d", i, o), func() Case {
				src := ckPre + "gl := 1;\n"
				if o == 0 {
					return ckCase(false, src+st+"func main() { vd(); }\n")
				}
				return ckCase(false, src+"func main() { vd(); }\n"+st)
			})
		}
	}
	for ci, c := range ckContexts {
		for i, st := range []string{"break; ", "continue; ", "if 1 == 1 { break; } ", "switch 1 { case 1 { continue; } } ", "{ { break; } } ", "for 1 == 1 { break; } continue; ", "for 1 == 1 { l9 := func() { break; }; break; } "} {
			if ci == 5 && i != 6 {
				continue
			}
			c, st := c, st
			x.Case(k("loop:%d:%d", ci, i), func() Case { return ckCase(false, ckPre+c(st)) })
		}
	}
}

// ckDeep puts types that are easy to mix up at every place of every type of up to three layers.
func ckDeep(x *Enum) {
	leaves := [][2]*Ty{
		{TI32, TI32}, {TI32, TU32}, {TI32, TI64}, {TI8, TU8}, {TF32, TF64}, {TF32, TI32}, {ckS, ckS}, {ckS, ckT}, {ckU, ckU}, {ckU, ckW}, {Ptr(ckS), ckS}, {Ptr(ckS), Ptr(ckT)},
		{Ptr(TI32), Ptr(TU8)}, {Arr(2, TI32), Arr(3, TI32)}, {Arr(2, TI32), Ptr(TI32)}, {ckF1, FuncT(TI32)}, {FuncT(nil), FuncT(TI32)},
	}
	layers := []func(t *Ty) *Ty{
		Ptr,
		func(t *Ty) *Ty { return Arr(2, t) },
		func(t *Ty) *Ty { return FuncT(t) },
		func(t *Ty) *Ty { return FuncT(t, TI32) },
		func(t *Ty) *Ty { return FuncT(TI32, t) },
		func(t *Ty) *Ty { return FuncT(nil, TI32, t) },
		func(t *Ty) *Ty { return FuncT(TI8, t, TI32, t) },
		func(t *Ty) *Ty { return &Ty{K: KFunc, Rs: []*Ty{TI32, t}} },
		func(t *Ty) *Ty { return &Ty{K: KFunc, Rs: []*Ty{t, TI8, t}, Ps: []*Ty{TI32}} },
	}
	positions := ckPositions()
	n := 0
	var walk func(a, b *Ty, chain string, depth int)
	walk = func(a, b *Ty, chain string, depth int) {
		for pi := 0; pi < x.Pick(3, len(positions)); pi++ {
			n++
			p, c := positions[n*7%len(positions)], n%len(ckContexts)
			for o := 0; o < 2; o++ {
				t, v := a, b
				if o == 1 {
					t, v = b, a
				}
				yes, ok := fits(t, v)
				if p.exact {
					yes, ok = sameTy(t, v), true
				}
				if !ok || o == 1 && a == b {
					continue
				}
				x.Case(k("deep:%s:%s:%s:%s:%d", chain, t, v, p.name, pi), func() Case {
					e := ckForm(v, 0, "V")
					d, st := p.gen(t, v, e)
					return ckCase(yes, ckPre+e.decl+d+ckContexts[c](st))
				})
			}
		}
		if depth == x.Pick(2, 3) {
			return
		}
		for i, l := range layers {
			walk(l(a), l(b), fmt.Sprintf("%s%d", chain, i), depth+1)
		}
	}
	for i, p := range leaves {
		walk(p[0], p[1], fmt.Sprintf("%d-", i), 0)
	}
}

// ckBuiltinArgs: the builtins take exactly their own numbers and kinds of arguments.
func ckBuiltinArgs(x *Enum) {
	bad := []string{"@free()", "@free(p, p)", "@free(i32, p)", "@free(i32)", "@free(1)", "@alloc(i32)", "@alloc(i32, 1, 2)", "@alloc(1)", "@alloc(i32, i64, 1)", "@alloc()", "@alloc(p, 1)", "@alloc(1, i32)", "@alloc(i32, p)", "@alloc(i32, 1.5)",
		"@realloc(p)", "@realloc(p, 1 as i64, 2)", "@realloc()", "@realloc(i32, p, 3)", "@realloc(1, p)", "@realloc(1, 1)", "@cast(i32)", "@cast(i32, 1, 2)", "@cast(1)", "@cast(i32, i64, 1)", "@cast()", "@cast(1, i32)", "@cast(p, 1)",
		"@sizeof()", "@sizeof(i32, i32)", "@sizeof(1)", "@sizeof(p)", "@sizeof(i32, 1)", "@sizeof(nosuchtype)", "@unreachable(1)", "@unreachable(i32)", "@print(i32)", "@print(i32, 1)", "@print(1, i32)", "@print(nosuchname)", "@print(1, nosuchname)",
		"@add_compiler_flag(i32)", "@add_compiler_flag(1)", "@nosuchbuiltin()", "@nosuchbuiltin(1)", "@nosuchbuiltin(p)", "@", "@free", "@sizeof", "@print", "@free p", "@print 1", "@p(1)", "@vd()", "@i32(1)", "@S(1)", "@print(1", "@free(p", "@alloc(i32, 1",
		"@asm()", "@asm(i32)", "@asm(i32, 1)", "@asm(i32, p)", "@asm(\"nop\")", "@asm(i32, \"mov $1, $0\", nosuchname)", "@asm(i32, \"mov $1, $0\", vd())", "@asm(i32, \"mov $1, $0\", 1, vd())", "@asm(i32, \"mov $1, $0\", 1 + 1.5)", "@asm(nosuchtype, \"nop\")"}
	good := []string{"@free(p)", "@alloc(i32, 1)", "@realloc(p, 2)", "@cast(i64, 1)", "@sizeof(i32)", "@sizeof(S)", "@sizeof([3]*S)", "@print()", "@print(1)", "@print(1, 2, 3)", "@add_compiler_flag()", "@add_compiler_flag(\"a\", \"b\")", "@unreachable()", "@asm(void, \"nop\")", "@asm(i32, \"mov $1, $0\", *p)", "@asm(i32, \"mov $1, $0\", func() i32 { return *p; }())", "@asm(i32, \"mov $1, $0\", 1 + 2 as i32)"}
	void := map[string]bool{"@free(p)": true, "@print()": true, "@print(1)": true, "@print(1, 2, 3)": true, "@add_compiler_flag()": true, "@add_compiler_flag(\"a\", \"b\")": true, "@unreachable()": true, "@asm(void, \"nop\")": true}
	uses := []struct {
		s     string
		value bool
	}{{"§; ", false}, {"q := §; ", true}, {"if 1 == 1 { §; } ", false}, {"l := func() { §; }; ", false}, {"{ vd(); §; vd(); } ", false}, {"q, w := 1, §; ", true}, {"@print(§); ", true}, {"(§); ", false}, {"for i := 0; i < 1; i = i + 1 { §; } ", false}}
	for ui, u := range uses {
		for i, e := range bad {
			src := ckPre + "func main() { p := @alloc(i32, 1); " + strings.ReplaceAll(u.s, "§", e) + "}\n"
			x.Case(k("builtinbad:%d:%d", ui, i), func() Case { return ckCase(false, src) })
		}
		for i, e := range good {
			src := ckPre + "func main() { p := @alloc(i32, 1); " + strings.ReplaceAll(u.s, "§", e) + "}\n"
			ok := !u.value || !void[e]
			x.Case(k("builtin:%d:%d", ui, i), func() Case { return ckCase(ok, src) })
		}
	}
}
