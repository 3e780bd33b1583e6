package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
)

// C02: how expressions group.

func init() {
	register(&Family{
		ID:        "C02",
		Technique: "exhaustive enumeration of operator sequences: the tree of the real parser is compared with the tree of the fully parenthesised expression that a reference grammar gives, and typed sequences are executed against a reference evaluator",
		Rule: "Every sequence of at most 3 (5 thorough, over one or two operators of each level) of the 18 binary operators; every pair of 37 operands with prefixes, postfixes and casts under every operator, and one of them in every position of every pair of operators; all trees of 3 (4) operators written with only the necessary, with all and with doubled parentheses; all of it in 26 contexts; " +
			"every typed sequence of 3 (4) operators, every pair of 30 decorated operands and 26 targets of assignments executed on operands chosen to tell the groupings apart.",
		Note: "A grouping is compared through the trees that the parser builds for the plain and for the fully parenthesised text; whether parentheses are honoured is decided by execution.",
		Gen:  func(x *Enum) { genParse(x); genWide(x, "C02") },
	})
}

var binOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}

// opLevel: how tight a binary operator binds.
func opLevel(op string) int {
	switch op {
	case "&&", "||":
		return 1
	case "==", "!=", "<", "<=", ">", ">=":
		return 2
	case "+", "-":
		return 3
	case "&", "|", "^", "<<", ">>":
		return 4
	}
	return 5
}

// group gives the tree of a sequence: the operator that binds least is the
// root, among equal ones the last.
func group[T any](args []T, ops []string, mk func(op string, a, b T) T) T {
	if len(ops) == 0 {
		return args[0]
	}
	r := 0
	for i, o := range ops {
		if opLevel(o) <= opLevel(ops[r]) {
			r = i
		}
	}
	return mk(ops[r], group(args[:r+1], ops[:r], mk), group(args[r+1:], ops[r+1:], mk))
}

func paren(op string, a, b string) string { return "(" + a + " " + op + " " + b + ")" }

func plain(args []string, ops []string) string {
	var b strings.Builder
	b.WriteString(args[0])
	for i, o := range ops {
		b.WriteString(" " + o + " " + args[i+1])
	}
	return b.String()
}

// parseTree is a dump of what the parser builds, without positions; err is the first error.
func parseTree(src string) (tree, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint("panic: ", r)
		}
	}()
	p := parser.New(lexer.New(src))
	root := p.Parse()
	if len(p.Errors) > 0 {
		return "", firstLines(p.Errors[0].Error(), 2)
	}
	var b strings.Builder
	dumpTree(&b, reflect.ValueOf(root.Statements), 0)
	return strings.ReplaceAll(b.String(), "-"+p.ID, ""), ""
}

func dumpTree(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTree(b, v.Elem(), depth+1)
	case reflect.Slice:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTree(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name())
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			// tokens and nodes hold positions
			if strings.HasSuffix(ft.String(), "token.Token") || strings.HasSuffix(ft.String(), "node.Node") {
				continue
			}
			b.WriteString(f.Name + ":")
			dumpTree(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.String:
		b.WriteString(v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}

// sameTree compares pairs of texts that have to be the same program.
type textPair struct{ a, b string }

func sameTrees(ps []textPair) Outcome {
	o := Outcome{States: len(ps), Trans: 2 * len(ps), Traces: len(ps)}
	ref := func(e string) string { t, _ := parseTree("func main() { x = " + e + "; }"); return t }
	transparent := ref("a") == ref("(a)")
	for _, p := range ps {
		ta, ea := parseTree(p.a)
		tb, eb := parseTree(p.b)
		switch {
		case ea != "" && eb != "":
			o.Bad = fmt.Sprintf("refused: %s: %s", p.a, ea)
		case ea != "" || eb != "":
			o.Bad = fmt.Sprintf("one of two texts of the same program is refused: %s and %s: %s%s", p.a, p.b, ea, eb)
		case ta != tb && transparent:
			o.Bad = fmt.Sprintf("%s has to mean %s", p.a, p.b)
		}
		if o.Bad != "" {
			return o
		}
	}
	return o
}

func genParse(x *Enum) {
	ctx0 := func(e string) string { return "func main() { x = " + e + "; }" }
	names := []string{"a", "b", "c", "d", "e", "f"}
	pair := func(ctx func(string) string, args, ops []string) textPair {
		return textPair{ctx(plain(args, ops)), ctx(group(args, ops, paren))}
	}
	trees := func(key string, mk func() []textPair) {
		x.Case(key, func() Case {
			ps := mk()
			return Case{Kind: KCustom, Src: ps[0].a, Fn: func() Outcome { return sameTrees(ps) }}
		})
	}
	// sequences
	seqs(binOps, 2, func(pre []string) {
		trees(k("seq:%s", strings.Join(pre, "")), func() []textPair {
			ps := []textPair{pair(ctx0, names[:3], pre)}
			for _, o := range binOps {
				ps = append(ps, pair(ctx0, names[:4], append(append([]string{}, pre...), o)))
			}
			return ps
		})
	})
	lv := []string{"&&", "||", "==", "<", "+", "-", "&", "<<", "*", "%"}
	if x.Thorough() {
		seqs(binOps, 3, func(pre []string) {
			trees(k("seq4:%s", strings.Join(pre, " ")), func() []textPair {
				var ps []textPair
				for _, o := range binOps {
					ps = append(ps, pair(ctx0, names[:5], append(append([]string{}, pre...), o)))
				}
				return ps
			})
		})
		seqs(lv, 4, func(pre []string) {
			trees(k("seq5:%s", strings.Join(pre, " ")), func() []textPair {
				var ps []textPair
				for _, o := range lv {
					ps = append(ps, pair(ctx0, names[:6], append(append([]string{}, pre...), o)))
				}
				return ps
			})
		})
	} else {
		seqs(lv, 3, func(pre []string) {
			trees(k("seq4:%s", strings.Join(pre, " ")), func() []textPair {
				var ps []textPair
				for _, o := range lv {
					ps = append(ps, pair(ctx0, names[:5], append(append([]string{}, pre...), o)))
				}
				return ps
			})
		})
	}
	// operands: the text and what it means
	opnds := []textPair{
		{"-a", "(-a)"}, {"!a", "(!a)"}, {"*a", "(*a)"}, {"&a", "(&a)"}, {"++a", "(++a)"}, {"--a", "(--a)"}, {"- -a", "(-(-a))"}, {"-!a", "(-(!a))"}, {"!*a", "(!(*a))"}, {"**a", "(*(*a))"}, {"*&a", "(*(&a))"},
		{"a[b]", "(a[b])"}, {"a.b", "(a.b)"}, {"a(b)", "(a(b))"}, {"-a[b]", "(-(a[b]))"}, {"-a.b", "(-(a.b))"}, {"-a(b)", "(-(a(b)))"}, {"*a.b", "(*(a.b))"}, {"&a[b]", "(&(a[b]))"}, {"++a.b", "(++(a.b))"}, {"!a.b(c)", "(!((a.b)(c)))"},
		{"a.b.c", "((a.b).c)"}, {"a[b][c]", "((a[b])[c])"}, {"a.b[c]", "((a.b)[c])"}, {"a[b].c", "((a[b]).c)"}, {"a(b).c", "((a(b)).c)"}, {"a(b)[c]", "((a(b))[c])"}, {"a[b](c)", "((a[b])(c))"}, {"a.b(c, d)", "((a.b)(c, d))"}, {"a(b)(c)", "((a(b))(c))"}, {"a.b.c(d).e[f]", "((((((a.b).c)(d)).e))[f])"},
		{"a as i32", "(a as i32)"}, {"-a as i32", "((-a) as i32)"}, {"a as i64 as i32", "((a as i64) as i32)"}, {"a.b as *i32", "((a.b) as *i32)"}, {"*a[b] as i8 as u8", "(((*(a[b])) as i8) as u8)"}, {"&a as *i8", "((&a) as *i8)"},
	}
	for i := range opnds {
		for j := range opnds {
			trees(k("opnd:%s:%s", opnds[i].a, opnds[j].a), func() []textPair {
				var ps []textPair
				for _, o := range binOps {
					ps = append(ps, textPair{ctx0(opnds[i].a + " " + o + " " + opnds[j].a), ctx0(paren(o, opnds[i].b, opnds[j].b))})
				}
				return ps
			})
		}
		for pos := 0; pos < 3; pos++ {
			for _, o1 := range binOps {
				trees(k("opnd3:%s:%d:%s", opnds[i].a, pos, o1), func() []textPair {
					var ps []textPair
					for _, o2 := range binOps {
						pa, pb := []string{"x", "y", "z"}, []string{"x", "y", "z"}
						pa[pos], pb[pos] = opnds[i].a, opnds[i].b
						ps = append(ps, textPair{ctx0(plain(pa, []string{o1, o2})), ctx0(group(pb, []string{o1, o2}, paren))})
					}
					return ps
				})
			}
		}
	}
	// trees with the necessary, all, and redundant parentheses
	type tr struct {
		op   string
		l, r *tr
	}
	var text func(t *tr, style int, n *int) string
	text = func(t *tr, style int, n *int) string {
		if t.op == "" {
			*n++
			return names[*n-1]
		}
		l, r := text(t.l, style, n), text(t.r, style, n)
		if style == 0 { // only where they are needed
			if t.l.op != "" && opLevel(t.l.op) < opLevel(t.op) {
				l = "(" + l + ")"
			}
			if t.r.op != "" && opLevel(t.r.op) <= opLevel(t.op) {
				r = "(" + r + ")"
			}
			return l + " " + t.op + " " + r
		}
		if style == 1 {
			return "(" + l + " " + t.op + " " + r + ")"
		}
		return "((" + l + ") " + t.op + " ((" + r + ")))"
	}
	few := []string{"||", "==", "<", "-", "&", "<<", "/", "*"}
	var build func(n int, f func(*tr))
	build = func(n int, f func(*tr)) {
		if n == 0 {
			f(&tr{})
			return
		}
		for i := 0; i < n; i++ {
			build(i, func(l *tr) {
				build(n-1-i, func(r *tr) {
					for _, o := range few {
						f(&tr{o, l, r})
					}
				})
			})
		}
	}
	for n := 1; n <= x.Pick(3, 4); n++ {
		build(n, func(t *tr) {
			a, b, c := 0, 0, 0
			s0, s1, s2 := text(t, 0, &a), text(t, 1, &b), text(t, 2, &c)
			trees("tree:"+s0, func() []textPair { return []textPair{{ctx0(s0), ctx0(s1)}, {ctx0(s2), ctx0(s1)}} })
		})
	}
	// contexts
	ctxs := []string{
		"func main() { x : i32 = $; }", "func main() { x := $; }", "func main() { const x : i32 = $; }", "x : i32 = $;", "func main() { x = $; }", "func main() { x[$] = 1; }", "func main() { *x = $; }", "func main() { x.y = $; }",
		"func main() { f($); }", "func main() { f(p, $, q); }", "func main() { @print($, $); }", "func main() { x = [2]i32{$, $}; }", "func main() { x = @S{a: $, b: $}; }", "func main() { x = y[$]; }", "func main() { return $; }",
		"func main() { if $ { } else if $ { } }", "func main() { for $ { } }", "func main() { for i := $; $; i = $ { } }", "func main() { switch $ { case $ { } default { } } }", "func main() { x = @alloc(i32, $); }", "func main() { x = @realloc(y, $); }", "func main() { x = @cast(i32, $); }",
		"func main() { x = :i32 { return $; }; }", "func main() { x, y = $, $; }", "func main() { x, y : (i32, i32) = $, $; }", "func main() { return $, $; }", "func main() { ($); }",
	}
	for ci, c := range ctxs {
		fill := func(e string) string { return strings.ReplaceAll(c, "$", e) }
		for _, o1 := range binOps {
			trees(k("ctx:%d:%s", ci, o1), func() []textPair {
				var ps []textPair
				for _, o2 := range binOps {
					ps = append(ps, pair(fill, names[:3], []string{o1, o2}))
				}
				for _, d := range opnds {
					ps = append(ps, textPair{fill(d.a), fill(d.b)}, textPair{fill("x " + o1 + " " + d.a), fill("(x " + o1 + " " + d.b + ")")}, textPair{fill(d.a + " " + o1 + " x"), fill("(" + d.b + " " + o1 + " x)")})
				}
				return ps
			})
		}
	}
	genParseRun(x)
	genParseTargets(x)
}

// seqs enumerates the sequences of n elements.
func seqs(set []string, n int, f func([]string)) {
	idx := make([]int, n)
	for {
		s := make([]string, n)
		for i := range s {
			s[i] = set[idx[i]]
		}
		f(s)
		i := n - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(set) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// typedBin is a op b in the language, nil if it is ill typed.
func typedBin(op string, a, b *E) *E {
	if a == nil || b == nil || !sameTy(a.T, b.T) {
		return nil
	}
	switch opLevel(op) {
	case 1, 2:
	default:
		if a.T.K == KBool {
			return nil
		}
	}
	return Bin(op, Par(a), Par(b))
}

func genParseRun(x *Enum) {
	// a line of arguments tells two groupings apart when their values differ
	tuples := [][]int64{{7, 2, 3, 5, 4}, {1, 1, 1, 1, 1}, {-9, 4, -2, 3, 6}, {0, 3, 1, 2, 2}, {100, 7, 5, 1, 3}, {2, 9, 2, 9, 1}}
	n := x.Pick(3, 4)
	for m := 1; m <= n; m++ {
		ps := P()
		for i := 0; i <= m; i++ {
			ps = append(ps, Fld{string(rune('a' + i)), TI32})
		}
		seqs(binOps, m-1, func(pre []string) {
			x.Prog(k("run:%d:%s", m, strings.Join(pre, " ")), func() *Pg {
				g := &Pg{}
				var body []*St
				for _, last := range binOps {
					ops := append(append([]string{}, pre...), last)
					var args []*E
					var ns []string
					for _, p := range ps {
						args = append(args, Vr(p.N, p.T))
						ns = append(ns, p.N)
					}
					e := group(args, ops, typedBin)
					if e == nil {
						continue
					}
					nm := k("f%d", len(g.Fns))
					f := fnOf(nm, R(e.T), ps, Ret(Raw(plain(ns, ops), e)))
					g.Fns = append(g.Fns, f)
					for _, t := range tuples {
						var ls []*E
						for i := range ps {
							ls = append(ls, N32(t[i]))
						}
						// only where the value is specified
						if isOK(group(ls, ops, typedBin)) {
							body = append(body, Print(CallF(f, ls...), Str(";")))
						}
					}
				}
				if len(body) == 0 {
					body = append(body, nl())
				}
				g.Fns = append(g.Fns, mainFn(body...))
				return g
			})
		})
	}
	// decorated operands
	in := StructT("In", P("u", TI32, "w", TI32)...)
	gn := fnOf("g", R(TI32), P("v", TI32), Ret(Bin("-", V32("v"), N32(11))))
	st := StructT("S", P("x", TI32, "q", Arr(2, TI32), "p", Ptr(TI32), "f", gn.ty(), "n", in)...)
	mk := fnOf("mk", R(in), P("v", TI32), Ret(StructL(in, []string{"u", "w"}, V32("v"), Bin("+", V32("v"), N32(1)))))
	hp := fnOf("hp", R(Ptr(TI32)), P("v", TI32), SS(Decl("h", Alloc(TI32, N32(2))), Set(Idx(Vr("h", Ptr(TI32)), N32(0)), V32("v")), Set(Idx(Vr("h", Ptr(TI32)), N32(1)), Bin("*", V32("v"), N32(3))), Ret(Vr("h", Ptr(TI32))))...)
	s, t, ps := Vr("s", st), Vr("t", Arr(2, in)), Vr("ps", Ptr(st))
	p, pp, arr, fa := Vr("p", Ptr(TI32)), Vr("pp", Ptr(Ptr(TI32))), Vr("arr", Arr(2, TI32)), Vr("fa", Arr(2, gn.ty()))
	a := V32("a")
	type dec struct {
		s string
		e *E
	}
	decs := []dec{
		{"a", a}, {"-a", Neg(a)}, {"- -a", Neg(Neg(a))}, {"(a)", a}, {"-(a)", Neg(a)}, {"*p", Deref(p)}, {"-*p", Neg(Deref(p))}, {"**pp", Deref(Deref(pp))}, {"*&a", Deref(Addr(a))}, {"*&arr[1]", Deref(Addr(Idx(arr, N32(1))))},
		{"arr[1]", Idx(arr, N32(1))}, {"-arr[1]", Neg(Idx(arr, N32(1)))}, {"arr[a - a]", Idx(arr, Bin("-", a, a))}, {"s.x", Field(s, "x")}, {"-s.x", Neg(Field(s, "x"))}, {"s.q[1]", Idx(Field(s, "q"), N32(1))}, {"-s.q[0]", Neg(Idx(Field(s, "q"), N32(0)))},
		{"*s.p", Deref(Field(s, "p"))}, {"-*s.p", Neg(Deref(Field(s, "p")))}, {"s.n.w", Field(Field(s, "n"), "w")}, {"t[1].u", Field(Idx(t, N32(1)), "u")}, {"-t[1].w", Neg(Field(Idx(t, N32(1)), "w"))}, {"ps.x", Field(ps, "x")}, {"ps.n.u", Field(Field(ps, "n"), "u")}, {"*ps.p", Deref(Field(ps, "p"))},
		{"g(a)", CallF(gn, a)}, {"-g(a)", Neg(CallF(gn, a))}, {"s.f(a)", Call(Field(s, "f"), a)}, {"-s.f(a)", Neg(Call(Field(s, "f"), a))}, {"fa[1](a)", Call(Idx(fa, N32(1)), a)}, {"mk(a).w", Field(CallF(mk, a), "w")}, {"hp(a)[1]", Idx(CallF(hp, a), N32(1))}, {"*hp(a)", Deref(CallF(hp, a))}, {"a.g()", MCall(gn, a)}, {"a.g().g()", MCall(gn, MCall(gn, a))},
		{"a as i8 as i32", Cast(TI32, Cast(TI8, a))}, {"-a as i8 as i32", Cast(TI32, Cast(TI8, Neg(a)))}, {"-arr[1] as u8 as i32", Cast(TI32, Cast(TU8, Neg(Idx(arr, N32(1)))))}, {"*p as i8 as i32", Cast(TI32, Cast(TI8, Deref(p)))}, {"!a as i32", Cast(TI32, Not(a))}, {"!!a as i32", Cast(TI32, Not(Not(a)))},
	}
	setup := SS(
		Decl("a", N32(300)), Decl("b", N32(7)), Decl("p", Addr(V32("b"))), Decl("pp", Addr(p)), Decl("arr", ArrL(Arr(2, TI32), N32(130), N32(5))),
		Decl("s", StructL(st, []string{"x", "q", "p", "f", "n"}, N32(9), ArrL(Arr(2, TI32), N32(4), N32(6)), Addr(V32("b")), Vr("g", gn.ty()), CallF(mk, N32(20)))),
		Decl("t", ArrL(Arr(2, in), CallF(mk, N32(30)), CallF(mk, N32(40)))), Decl("ps", Addr(s)), Decl("fa", ArrL(Arr(2, gn.ty()), Vr("g", gn.ty()), Vr("g", gn.ty()))))
	prog := func(body []*St) *Pg {
		return &Pg{Types: []*Ty{in, st}, Fns: []*Fn{gn, mk, hp, mainFn(append(append([]*St{}, setup...), body...)...)}}
	}
	for _, d := range decs {
		for _, e := range decs {
			x.Prog(k("decor:%s:%s", d.s, e.s), func() *Pg {
				var b []*St
				for _, o := range binOps {
					if o == "<<" || o == ">>" || o == "/" || o == "%" {
						if !isSafe(prog, o, d.e, e.e) {
							continue
						}
					}
					w := Raw(d.s+" "+o+" "+e.s, Bin(o, Par(d.e), Par(e.e)))
					b = append(b, Print(w, Str(";")))
				}
				return prog(b)
			})
		}
	}
	if x.Thorough() {
		for _, d := range decs {
			for _, e := range decs {
				for _, h := range decs {
					x.Prog(k("decor3:%s:%s:%s", d.s, e.s, h.s), func() *Pg {
						var b []*St
						for _, o := range [][2]string{{"-", "*"}, {"*", "-"}, {"-", "-"}, {"&", "+"}, {"<", "-"}, {"-", "<"}} {
							w := Raw(d.s+" "+o[0]+" "+e.s+" "+o[1]+" "+h.s, group([]*E{Par(d.e), Par(e.e), Par(h.e)}, o[:], typedBin))
							b = append(b, Print(w, Str(";")))
						}
						return prog(b)
					})
				}
			}
		}
	}
}

func isSafe(prog func([]*St) *Pg, o string, a, b *E) bool {
	return prog(SS(Print(Bin(o, Par(a), Par(b))))).Run(100000).Err == ""
}

// genParseTargets: what an assignment stores in.
func genParseTargets(x *Enum) {
	in := StructT("In", P("u", TI32, "w", TI32, "p", Ptr(TI32), "a", Arr(2, TI32))...)
	st := StructT("S", P("x", TI32, "q", Arr(2, TI32), "p", Ptr(TI32), "n", in, "pn", Ptr(in), "ar", Arr(2, in), "hp", Ptr(in))...)
	s, ps := Vr("s", st), Vr("ps", Ptr(st))
	a, p, pp, arr, t, m := V32("a"), Vr("p", Ptr(TI32)), Vr("pp", Ptr(Ptr(TI32))), Vr("arr", Arr(3, TI32)), Vr("t", Arr(2, in)), Vr("m", Arr(2, Arr(2, TI32)))
	same := fnOf("same", R(Ptr(TI32)), P("v", Ptr(TI32)), Ret(Vr("v", Ptr(TI32))))
	sames := fnOf("sames", R(Ptr(st)), P("v", Ptr(st)), Ret(Vr("v", Ptr(st))))
	type tgt struct {
		s string
		e *E
	}
	n0, n1 := N32(0), N32(1)
	tg := []tgt{
		{"a", a}, {"(a)", a}, {"*p", Deref(p)}, {"**pp", Deref(Deref(pp))}, {"*(p)", Deref(p)}, {"(*p)", Deref(p)}, {"arr[1]", Idx(arr, n1)}, {"arr[1 + 1]", Idx(arr, N32(2))}, {"(arr)[1]", Idx(arr, n1)}, {"p[0]", Idx(p, n0)}, {"*&a", Deref(Addr(a))},
		{"m[1][0]", Idx(Idx(m, n1), n0)}, {"(m[1])[0]", Idx(Idx(m, n1), n0)}, {"s.x", Field(s, "x")}, {"s.q[1]", Idx(Field(s, "q"), n1)}, {"*s.p", Deref(Field(s, "p"))}, {"s.p[0]", Idx(Field(s, "p"), n0)}, {"s.n.u", Field(Field(s, "n"), "u")}, {"s.n.a[1]", Idx(Field(Field(s, "n"), "a"), n1)}, {"*s.n.p", Deref(Field(Field(s, "n"), "p"))},
		{"s.pn.w", Field(Field(s, "pn"), "w")}, {"s.ar[1].w", Field(Idx(Field(s, "ar"), n1), "w")}, {"*s.ar[1].p", Deref(Field(Idx(Field(s, "ar"), n1), "p"))}, {"s.ar[0].a[1]", Idx(Field(Idx(Field(s, "ar"), n0), "a"), n1)}, {"s.hp[1].u", Field(Idx(Field(s, "hp"), n1), "u")},
		{"t[1].u", Field(Idx(t, n1), "u")}, {"*t[1].p", Deref(Field(Idx(t, n1), "p"))}, {"t[0].a[1]", Idx(Field(Idx(t, n0), "a"), n1)}, {"ps.x", Field(ps, "x")}, {"(*ps).x", Field(Deref(ps), "x")}, {"*ps.p", Deref(Field(ps, "p"))}, {"ps.n.w", Field(Field(ps, "n"), "w")}, {"ps.pn.a[0]", Idx(Field(Field(ps, "pn"), "a"), n0)}, {"ps.q[0]", Idx(Field(ps, "q"), n0)},
		{"*same(p)", Deref(CallF(same, p))}, {"same(p)[0]", Idx(CallF(same, p), n0)}, {"sames(ps).x", Field(CallF(sames, ps), "x")}, {"sames(ps).q[1]", Idx(Field(CallF(sames, ps), "q"), n1)}, {"*sames(ps).p", Deref(Field(CallF(sames, ps), "p"))}, {"ps.sames().n.u", Field(Field(MCall(sames, ps), "n"), "u")},
	}
	inL := func(i int64) *E {
		return StructL(in, []string{"u", "w", "p", "a"}, N32(i), N32(i+1), Addr(V32(k("c%d", i/10))), ArrL(Arr(2, TI32), N32(i+2), N32(i+3)))
	}
	var setup []*St
	for i := 0; i < 10; i++ {
		setup = append(setup, Decl(k("c%d", i), N32(int64(500+i))))
	}
	setup = append(setup, Decl("a", N32(1)), Decl("b", N32(2)), Decl("p", Addr(V32("b"))), Decl("pp", Addr(p)), Decl("arr", ArrL(Arr(3, TI32), N32(3), N32(4), N32(5))), Decl("m", ArrL(Arr(2, Arr(2, TI32)), ArrL(Arr(2, TI32), N32(6), N32(7)), ArrL(Arr(2, TI32), N32(8), N32(9)))),
		Decl("t", ArrL(Arr(2, in), inL(10), inL(20))), Decl("o", inL(30)), Decl("h", Alloc(in, N32(2))), Set(Idx(Vr("h", Ptr(in)), n0), inL(40)), Set(Idx(Vr("h", Ptr(in)), n1), inL(50)),
		Decl("s", StructL(st, []string{"x", "q", "p", "n", "pn", "ar", "hp"}, N32(200), ArrL(Arr(2, TI32), N32(201), N32(202)), Addr(V32("c0")), inL(60), Addr(Vr("o", in)), ArrL(Arr(2, in), inL(70), inL(80)), Vr("h", Ptr(in)))), Decl("ps", Addr(s)))
	var show []*St
	one := func(e *E) {
		show = append(show, Line(Field(e, "u"), Field(e, "w"), Idx(Field(e, "a"), n0), Idx(Field(e, "a"), n1)))
	}
	var cs []*E
	for i := 0; i < 10; i++ {
		cs = append(cs, V32(k("c%d", i)))
	}
	show = append(show, Line(cs...), Line(a, V32("b"), Idx(arr, n0), Idx(arr, n1), Idx(arr, N32(2)), Idx(Idx(m, n0), n0), Idx(Idx(m, n0), n1), Idx(Idx(m, n1), n0), Idx(Idx(m, n1), n1)), Line(Field(s, "x"), Idx(Field(s, "q"), n0), Idx(Field(s, "q"), n1)))
	h := Vr("h", Ptr(in))
	for _, e := range []*E{Idx(t, n0), Idx(t, n1), Vr("o", in), Idx(h, n0), Idx(h, n1), Field(s, "n"), Idx(Field(s, "ar"), n0), Idx(Field(s, "ar"), n1)} {
		one(e)
	}
	prog := func(b ...*St) *Pg {
		return &Pg{Types: []*Ty{in, st}, Fns: []*Fn{same, sames, mainFn(append(append(append([]*St{}, setup...), b...), show...)...)}}
	}
	for _, d := range tg {
		for ri, r := range []*E{N32(777), Raw("b + 3 * a", Bin("+", V32("b"), Par(Bin("*", N32(3), a)))), Raw("-"+d.s+" - 1", Bin("-", Neg(Par(d.e)), n1))} {
			x.Prog(k("target:%s:%d", d.s, ri), func() *Pg { return prog(Set(Raw(d.s, d.e), r)) })
		}
		for _, e := range tg {
			x.Prog(k("target:%s=%s", d.s, e.s), func() *Pg { return prog(Set(Raw(d.s, d.e), Raw(e.s, e.e))) })
			x.Prog(k("targets:%s:%s", d.s, e.s), func() *Pg {
				return prog(SetM([]*E{Raw(d.s, d.e), Raw(e.s, e.e)}, Raw("b - a - 1", Bin("-", Par(Bin("-", V32("b"), a)), n1)), N32(778)))
			})
		}
		if d.s != "(a)" && d.s[0] != '(' {
			x.Prog(k("inc:%s", d.s), func() *Pg {
				return prog(Decl("z", Raw("++"+d.s, PreInc("++", d.e))), Ex(Raw("--"+d.s, PreInc("--", d.e))), Ex(Raw("--"+d.s, PreInc("--", d.e))), Line(V32("z")))
			})
		}
	}
}
