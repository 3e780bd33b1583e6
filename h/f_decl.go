package main

import (
	"fmt"
	"strings"
)

// C20: the order of declarations, and global variables.

func init() {
	register(&Family{
		ID:        "C20",
		Technique: "exhaustive enumeration of orders of declarations over all dependency graphs of three types and three functions, and explicit-state exploration of bounded operation sequences on global variables against a reference model",
		Rule: "All orders of the declarations of 24 programs and of the pairs of 11 declarations of one name, every list of at most 4 (5) fields or parameters of 4 names; all dependency graphs of 3 types with at most 2 (3 thorough) fields of 5 kinds, one of them a union or not, in 12 orders, a type that contains itself refused in each of them; all call graphs of 3 functions in all 24 orders, with direct calls, calls through variables and method calls; " +
			"every sequence of 3 (4) of 16 operations on two global variables, from functions, function literals, pointers, shadowing blocks and recursion; every boundary value of every type as the initial value.",
		Note: "Global variables and constants have to be declared before the functions that use them.",
		Gen:  func(x *Enum) { genDecl(x); genWide(x, "C20") },
	})
}

type skeleton struct {
	name  string
	decls []string
	first []string // globals, which stay in front
	want  string
}

func genDecl(x *Enum) {
	genAlikeTops(x)
	sk := declPrograms
	for _, s := range sk {
		for pi, p := range permutations(len(s.decls)) {
			s, p := s, p
			x.Case(k("order:%s:%d", s.name, pi), func() Case {
				src := strings.Join(s.first, "")
				for _, i := range p {
					src += s.decls[i]
				}
				return Case{Kind: KRun, Src: src, Want: s.want}
			})
		}
	}
	genClashes(x)
	genNameLists(x)
	genSelf(x)
	genTypeGraphs(x)
	genFnGraphs(x)
	genGlobals(x)
}

var declPrograms = []skeleton{
	{"mutual", []string{"func even(n i32) i32 { if n == 0 { return 1; } return odd(n - 1); }\n", "func odd(n i32) i32 { if n == 0 { return 0; } return even(n - 1); }\n", "func main() { @print(even(4), odd(4), even(7), odd(7)); }\n"}, nil, "1 0 0 1"},
	{"chain", []string{"func a(n i32) i32 { return b(n) + 1; }\n", "func b(n i32) i32 { return c(n) * 2; }\n", "func c(n i32) i32 { return d(n) - 3; }\n", "func d(n i32) i32 { return n; }\n", "func main() { @print(a(10)); }\n"}, nil, "15"},
	{"nestedstructs", []string{"struct A { b B\n x i32 }\n", "struct B { c C\n y i64 }\n", "struct C { z i8\n w i32 }\n", "func mk(n i32) A { return @A{b: @B{c: @C{z: 1 as i8, w: n}, y: 2 as i64}, x: 3}; }\n", "func main() { a := mk(7); @print(a.b.c.w, a.b.y, a.x, @sizeof(A), @sizeof(B), @sizeof(C)); }\n"}, nil, "7 2 3 24 16 8"},
	{"arraystructs", []string{"struct A { b [3]B }\n", "struct B { c [2]C }\n", "struct C { v i16 }\n", "func get(a *A, i i32) i16 { return a.b[i].c[1].v; }\n", "func main() { a := @alloc(A, 1); a[0].b[2].c[1].v = 9 as i16; @print(get(a, 2), @sizeof(A)); }\n"}, nil, "9 12"},
	{"list", []string{"struct Node { v i32\n next *Node }\n", "func push(l *Node, v i32) *Node { n := @alloc(Node, 1); n.v = v; n.next = l; return n; }\n", "func sum(l *Node) i32 { s := 0; for l != 0 as *Node { s = s + l.v; l = l.next; } return s; }\n", "func main() { l := 0 as *Node; for i := 1; i < 5; i = i + 1 { l = push(l, i); } @print(sum(l), l.v, l.next.v); }\n"}, nil, "10 4 3"},
	{"twopointers", []string{"struct A { b *B\n v i32 }\n", "struct B { a *A\n w i64 }\n", "func link(a *A, b *B) { a.b = b; b.a = a; }\n", "func main() { a := @alloc(A, 1); b := @alloc(B, 1); a.v = 3; b.w = 4 as i64; link(a, b); @print(a.b.w, b.a.v, a.b.a.b.w); }\n"}, nil, "4 3 4"},
	{"union", []string{"union U { s S\n n i64 }\n", "struct S { lo i32\n hi i32 }\n", "struct H { tag i8\n u U }\n", "func mk(n i64) H { h := @alloc(H, 1); h.tag = 7 as i8; h.u.n = n; return h[0]; }\n", "func main() { h := mk(4294967298 as i64); @print(h.u.s.lo, h.u.s.hi, h.tag, @sizeof(H)); }\n"}, nil, "2 1 7 16"},
	{"unionofarrays", []string{"union U { a [2]S\n b [4]i16 }\n", "struct S { x i16\n y i16 }\n", "func main() { u := @alloc(U, 1); u[0].a[1].y = 5 as i16; @print(u[0].b[3], @sizeof(U)); }\n"}, nil, "5 8"},
	{"fnfield", []string{"struct Op { f func(i32, i32) i32\n n i32 }\n", "func add(a i32, b i32) i32 { return a + b; }\n", "func sub(a i32, b i32) i32 { return a - b; }\n", "func pick(k i32) Op { if k == 0 { return @Op{f: add, n: 1}; } return @Op{f: sub, n: 2}; }\n", "func main() { @print(pick(0).f(7, 2), pick(1).f(7, 2), pick(1).n); }\n"}, nil, "9 5 2"},
	{"fnstruct", []string{"struct V { cb func(V, i32) i32\n k i32 }\n", "func run(v V, n i32) i32 { return v.k * n; }\n", "func twice(v V) i32 { return v.cb(v, 2); }\n", "func main() { v := @V{cb: run, k: 21}; @print(twice(v)); }\n"}, nil, "42"},
	{"method", []string{"struct P { x i32\n y i32 }\n", "func add(p P, q P) P { return @P{x: p.x + q.x, y: p.y + q.y}; }\n", "func dot(p P, q P) i32 { return p.x * q.x + p.y * q.y; }\n", "func main() { a := @P{x: 1, y: 2}; b := @P{x: 3, y: 4}; @print(a.add(b).dot(a), a.dot(b)); }\n"}, nil, "16 11"},
	{"higher", []string{"func apply(f func(i32) i32, n i32) i32 { return f(n); }\n", "func inc(n i32) i32 { return n + 1; }\n", "func compose(n i32) i32 { return apply(inc, apply(dbl, n)); }\n", "func dbl(n i32) i32 { return n * 2; }\n", "func main() { @print(compose(5)); }\n"}, nil, "11"},
	{"returnsfn", []string{"func sel(k i32) func(i32) i32 { if k == 0 { return inc; } return dec; }\n", "func inc(n i32) i32 { return n + 1; }\n", "func dec(n i32) i32 { return n - 1; }\n", "func main() { f := sel(0); g := sel(1); @print(f(5), g(5)); }\n"}, nil, "6 4"},
	{"multi", []string{"func dm(a i32, b i32) (i32, i32) { return a / b, md(a, b); }\n", "func md(a i32, b i32) i32 { q, r := both(a, b); return r; }\n", "func both(a i32, b i32) (i32, i32) { return a / b, a % b; }\n", "func main() { q, r := dm(17, 5); @print(q, r); }\n"}, nil, "3 2"},
	{"lambda", []string{"func mk(n i32) i32 { f := func(m i32) i32 { return helper(m) + n; }; return f(n); }\n", "func helper(m i32) i32 { return m * 10; }\n", "func main() { @print(mk(4)); }\n"}, nil, "44"},
	{"block", []string{"func f(n i32) i32 { r := :i32 { s := @S{v: n}; return g(s); }; return r; }\n", "func g(s S) i32 { return s.v + 1; }\n", "struct S { v i32 }\n", "func main() { @print(f(4)); }\n"}, nil, "5"},
	{"casts", []string{"func f(p *i8) i32 { s := p as *S; return s.v; }\n", "struct S { v i32\n t T }\n", "struct T { w i32 }\n", "func main() { s := @S{v: 8, t: @T{w: 9}}; @print(f(&s as *i8), s.t.w); }\n"}, nil, "8 9"},
	{"sizeof", []string{"func sz() i32 { return @sizeof(S) as i32; }\n", "struct S { v i32\n t [3]T }\n", "struct T { w i64\n f func() }\n", "func main() { @print(sz(), @sizeof(T)); }\n"}, nil, "56 16"},
	{"globals", []string{"func inc() i32 { g = g + 1; return g; }\n", "func set(n i32) { g = n; }\n", "func get() i32 { return g; }\n", "func main() { set(5); inc(); @print(get(), inc(), g); }\n"}, []string{"g : i32 = 1;\n"}, "6 7 7"},
	{"globalconst", []string{"func f(n i32) i32 { return n * K; }\n", "func h() i32 { return f(J); }\n", "struct S { v i32 }\n", "func main() { @print(h(), f(2)); }\n"}, []string{"const K := 3;\n", "const J := K + 1;\n"}, "12 6"},
	{"aliasfirst", []string{"struct P { a Num\n b Cb }\n", "func f(n Num) Num { return n + 1; }\n", "func mk() P { return @P{a: 4, b: f}; }\n", "func main() { p := mk(); @print(p.b(p.a)); }\n"}, []string{"type Num = i32;\n", "type Cb = func(Num) Num;\n"}, "5"},
	{"extern", []string{"extern func puts(*i8) i32;\n", "func say(s *i8) { t := s; @print(t); }\n", "func main() { say(\"x\"); @print(len(\"abc\")); }\n", "func len(s *i8) i32 { n := 0; for s[n] != 0 as i8 { n = n + 1; } return n; }\n"}, nil, "x3"},
	{"samefields", []string{"struct A { v i32\n w i64 }\n", "struct B { w i64\n v i32 }\n", "func fa(a A) i64 { return a.w; }\n", "func fb(b B) i32 { return b.v; }\n", "func main() { @print(fa(@A{v: 1, w: 2 as i64}), fb(@B{w: 3 as i64, v: 4})); }\n"}, nil, "2 4"},
	{"shadow", []string{"func f(n i32) i32 { g := n; return g; }\n", "func g(n i32) i32 { return n * 2; }\n", "func h(f i32) i32 { return g(f) + f; }\n", "func main() { @print(f(3), g(3), h(3)); }\n"}, nil, "3 6 9"},
}

// genClashes enumerates the pairs of declarations that share a name, in all orders.
func genClashes(x *Enum) {
	type d struct{ kind, text string }
	ds := []d{
		{"func", "func n() {}\n"}, {"func", "func n(a i32) i32 { return a; }\n"}, {"func", "extern func n(*i8) i32;\n"}, {"type", "struct n { v i32 }\n"}, {"type", "struct n { w *i8\n x i64 }\n"}, {"type", "union n { v i32 }\n"}, {"type", "type n = i32;\n"}, {"type", "type n = *i8;\n"}, {"type", "type n = func(i32) i32;\n"},
		{"global", "n := 3;\n"}, {"global", "n : i64 = 3 as i64;\n"}, {"global", "n := \"s\";\n"}, {"global", "const n := 3;\n"}, {"global", "n := other;\n"},
	}
	rest := []string{"func other() i32 { return 1; }\n", "func main() { @print(other()); }\n"}
	for i, a := range ds {
		for j, b := range ds {
			if a.kind == "global" && b.kind == "global" || strings.Contains(a.text+b.text, "extern") && i == j {
				continue
			}
			clash := a.kind == b.kind || a.kind != "type" && b.kind != "type"
			for pi, p := range permutations(4) {
				x.Case(k("clash:%d:%d:%d", i, j, pi), func() Case {
					all := []string{a.text, b.text, rest[0], rest[1]}
					src := ""
					for _, n := range p {
						src += all[n]
					}
					if clash {
						return Case{Kind: KReject, Src: src}
					}
					return Case{Kind: KRun, Src: src, Want: "1"}
				})
			}
		}
	}
}

// genSelf enumerates the fields of a type: one that holds the type itself by
// value, however deep and wherever in the list, is refused.
func genSelf(x *Enum) {
	fields := []struct {
		t    string
		self bool
	}{
		{"i32", false}, {"B", false}, {"[2]B", false}, {"*A", false}, {"[2]*A", false}, {"*[2]A", false}, {"func(A) A", false}, {"V", false},
		{"A", true}, {"[2]A", true}, {"[2][2]A", true}, {"[2][3][2]A", true}, {"C", true}, {"[2]C", true}, {"W", true}, {"[2][2]W", true},
	}
	heads := []string{"struct", "union"}
	for hi, h := range heads {
		for n := 1; n <= 3; n++ {
			count := 1
			for i := 0; i < n; i++ {
				count *= len(fields)
			}
			for c := 0; c < count; c++ {
				h, hi, n, c := h, hi, n, c
				x.Case(k("self:%s:%d:%d", h, n, c), func() Case {
					src := "type C = A;\n"
					parts := []string{"struct B { v i32\n w *A }\n", heads[(hi+c)%2] + " W { x i32\n a A }\n", "struct V { b B\n b2 B\n a *A }\n"}
					self := false
					body := ""
					for i, v := 0, c; i < n; i, v = i+1, v/len(fields) {
						f := fields[v%len(fields)]
						self = self || f.self
						body += k("f%d %s\n ", i, f.t)
					}
					decl := h + " A { " + body + "}\n"
					switch c % 5 {
					case 3:
						decl = "#if LINUX { " + decl + "}\n"
					case 4:
						decl = "#if 1 { #if X64 { " + decl + "} }\n"
					}
					if c%2 == 0 {
						src += decl + parts[c%3] + parts[(c+1)%3] + parts[(c+2)%3]
					} else {
						src += parts[(c+2)%3] + parts[c%3] + decl + parts[(c+1)%3]
					}
					src += "func main() { a := @alloc(A, 2); b := &a[1]; @print(7); }\n"
					if self {
						return Case{Kind: KReject, Src: src}
					}
					return Case{Kind: KRun, Src: src, Want: "7"}
				})
			}
		}
	}
}

// genNameLists enumerates the names of the fields and parameters of a
// declaration: two of the same name are refused.
func genNameLists(x *Enum) {
	types := []string{"i32", "i64", "*i8", "[2]i32", "func(i32) i32", "E"}
	forms := []struct{ name, pre, sep, post string }{
		{"struct", "struct S { ", "\n ", " }\n"},
		{"union", "union S { ", "\n ", " }\n"},
		{"func", "func f(", ", ", ") { }\n"},
		{"result", "func f(", ", ", ") i32 { return 1; }\n"},
		{"literal", "func f() { g := func(", ", ", ") { }; }\n"},
	}
	for _, f := range forms {
		for n := 1; n <= x.Pick(4, 5); n++ {
			count := 1
			for i := 0; i < n; i++ {
				count *= 4
			}
			for c := 0; c < count; c++ {
				for shift := range types {
					f, n, c, shift := f, n, c, shift
					x.Case(k("names:%s:%d:%d:%d", f.name, n, c, shift), func() Case {
						var l []string
						seen := map[int]bool{}
						twice := false
						for i, v := 0, c; i < n; i, v = i+1, v/4 {
							twice = twice || seen[v%4]
							seen[v%4] = true
							l = append(l, []string{"a", "b", "ab", "S"}[v%4]+" "+types[(i*(1+shift/3)+shift)%len(types)])
						}
						src := "struct E { a i32 }\n" + f.pre + strings.Join(l, f.sep) + f.post + "func main() { a := 4; @print(a); }\n"
						if twice {
							return Case{Kind: KReject, Src: src}
						}
						return Case{Kind: KRun, Src: src, Want: "4"}
					})
				}
			}
		}
	}
}

func genTypeGraphs(x *Enum) {
	type edge struct{ i, j, kind int }
	kinds := []string{"value", "pointer", "array", "func", "ptrarray"}
	perms := permutations(3)
	var union bool
	emit1 := func(es []edge) {
		// does a type contain itself?
		var reach [3][3]bool
		for _, e := range es {
			if e.kind == 0 || e.kind == 2 {
				reach[e.i][e.j] = true
			}
		}
		for m := 0; m < 3; m++ {
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					reach[i][j] = reach[i][j] || reach[i][m] && reach[m][j]
				}
			}
		}
		cyclic := reach[0][0] || reach[1][1] || reach[2][2]
		var key []string
		if union {
			key = append(key, "union")
		}
		for _, e := range es {
			key = append(key, fmt.Sprintf("%d%d%s", e.i, e.j, kinds[e.kind]))
		}
		for pi, p := range perms {
			for _, mainFirst := range []bool{false, true} {
				ts := []*Ty{StructT("T0"), StructT("T1"), StructT("T2")}
				if union {
					ts[2] = UnionT("T2")
				}
				for i := range ts {
					ts[i].Fs = append(ts[i].Fs, Fld{"v", []*Ty{TI32, TI8, TI64}[i]})
				}
				if union {
					ts[2].Fs = append(ts[2].Fs, Fld{"w", TI32})
				}
				get := make([]*Fn, 3)
				for i, t := range ts {
					get[i] = fnOf(k("get%d", i), R(TI32), P("x", t), Ret(Cast(TI32, Par(Field(Vr("x", t), "v")))))
				}
				for n, e := range es {
					t := ts[e.j]
					switch e.kind {
					case 1:
						t = Ptr(t)
					case 2:
						t = Arr(2, t)
					case 3:
						t = FuncT(TI32, t)
					case 4:
						t = Arr(2, Ptr(t))
					}
					ts[e.i].Fs = append(ts[e.i].Fs, Fld{k("e%d", n), t})
				}
				x.Case(k("types:%s:%d:%v", strings.Join(key, ","), pi, mainFirst), func() Case {
					g := &Pg{Types: ts, Fns: append([]*Fn{}, get...)}
					mainAt := 3 + len(get)
					g.Order = []int{p[0], p[1], p[2], 3, 4, 5, mainAt}
					if mainFirst {
						g.Order = []int{mainAt, 3, p[0], 4, p[1], 5, p[2]}
					}
					if cyclic {
						g.Fns = append(g.Fns, mainFn(nl()))
						return Case{Kind: KReject, Src: g.Src()}
					}
					var b []*St
					hp := func(i int) *E { return Vr(k("p%d", i), Ptr(ts[i])) }
					val := func(i, n int) *E { return Cast(ts[i].Fs[0].T, N32(int64(n))) }
					for i := range ts {
						b = append(b, Decl(k("p%d", i), Alloc(ts[i], N32(1))), Set(Field(Idx(hp(i), N32(0)), "v"), val(i, i+3)))
					}
					var show []*E
					for n, e := range es {
						f := Field(hp(e.i), k("e%d", n))
						switch e.kind {
						case 0:
							b = append(b, Set(Field(f, "v"), val(e.j, 10+n)))
							show = append(show, Field(f, "v"), CallF(get[e.j], f))
						case 1:
							b = append(b, Set(f, hp(e.j)))
							show = append(show, Field(f, "v"), CallF(get[e.j], Deref(f)))
						case 2:
							b = append(b, Set(Field(Idx(f, N32(0)), "v"), val(e.j, 20+n)), Set(Field(Idx(f, N32(1)), "v"), val(e.j, 30+n)))
							show = append(show, Field(Idx(f, N32(0)), "v"), CallF(get[e.j], Idx(f, N32(1))))
						case 3:
							b = append(b, Set(f, Vr(get[e.j].Name, get[e.j].ty())))
							show = append(show, Call(f, Idx(hp(e.j), N32(0))))
						case 4:
							b = append(b, Set(Idx(f, N32(1)), hp(e.j)))
							show = append(show, Field(Idx(f, N32(1)), "v"))
						}
					}
					for i := range ts {
						show = append(show, Field(hp(i), "v"), CallF(get[i], Idx(hp(i), N32(0))), SizeOf(ts[i]))
					}
					// a copy of the whole value
					b = append(b, Decl("cp", Idx(hp(0), N32(0))), Set(Field(hp(0), "v"), val(0, 99)))
					show = append(show, Field(Vr("cp", ts[0]), "v"))
					g.Fns = append(g.Fns, mainFn(append(b, linesOf(show)...)...))
					return progCase(g)
				})
			}
		}
	}
	emit := func(es []edge) {
		union = false
		emit1(es)
		for _, e := range es {
			if e.i == 2 {
				return
			}
		}
		union = true
		emit1(es)
	}
	var all []edge
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for kd := range kinds {
				all = append(all, edge{i, j, kd})
			}
		}
	}
	emit(nil)
	for a := range all {
		emit([]edge{all[a]})
		for b := a + 1; b < len(all); b++ {
			emit([]edge{all[a], all[b]})
			if x.Thorough() {
				for c := b + 1; c < len(all); c++ {
					if (a+b+c)%3 == 0 || all[c].kind == 0 {
						emit([]edge{all[a], all[b], all[c]})
					}
				}
			} else {
				// cycles of three
				for c := b + 1; c < len(all); c++ {
					if all[a].i == 0 && all[a].j == 1 && all[b].i == 1 && all[b].j == 2 && all[c].i == 2 && all[c].j == 0 || all[a].i == 0 && all[a].j == 2 && all[b].i == 1 && all[b].j == 0 && all[c].i == 2 && all[c].j == 1 {
						emit([]edge{all[a], all[b], all[c]})
					}
				}
			}
		}
	}
}

func genFnGraphs(x *Enum) {
	perms := permutations(4)
	ty := FuncT(TI32, TI32)
	for graph := 0; graph < 512; graph++ {
		for pi, p := range perms {
			for _, style := range []string{"call", "var", "method"} {
				if !x.Thorough() && style != []string{"call", "var", "method"}[(graph+pi)%3] {
					continue
				}
				x.Prog(k("calls:%d:%d:%s", graph, pi, style), func() *Pg {
					g := &Pg{}
					fs := make([]*Fn, 3)
					for i := range fs {
						fs[i] = fnOf(k("f%d", i), R(TI32), P("n", TI32))
					}
					n, r := V32("n"), V32("r")
					for i, f := range fs {
						b := SS(Decl("r", Bin("+", n, N32(int64(i)))))
						var in []*St
						for j := range fs {
							if graph>>(i*3+j)&1 == 0 {
								continue
							}
							a := Bin("-", n, N32(1))
							var e *E
							switch style {
							case "call":
								e = CallF(fs[j], a)
							case "var":
								v := k("g%d", j)
								in = append(in, Decl(v, Vr(fs[j].Name, ty)))
								e = Call(Vr(v, ty), a)
							default:
								e = MCall(fs[j], Par(a))
							}
							in = append(in, Set(r, Bin("+", Par(Bin("*", r, N32(3))), e)))
						}
						if len(in) > 0 {
							b = append(b, If(Bin(">", n, N32(0)), in))
						}
						f.Body = append(b, Ret(r))
					}
					g.Fns = append(append(g.Fns, fs...), mainFn(Line(CallF(fs[0], N32(3)), CallF(fs[1], N32(2)), CallF(fs[2], N32(3)))))
					g.Order = p
					return g
				})
			}
		}
	}
}

func genGlobals(x *Enum) {
	// initial values
	for _, t := range append(append([]*Ty{}, numTypes...), TI1, TStr) {
		vs := []*E{Str("abc"), Str(""), Str("%d")}
		if t != TStr {
			vs = lits(t)
		}
		for _, typed := range []bool{false, true} {
			x.Prog(k("init:%s:%v", t, typed), func() *Pg {
				g := &Pg{}
				var show, again []*St
				for i, v := range vs {
					n := k("g%d", i)
					d := Decl(n, v)
					if typed {
						d = DeclT(n, t, v)
					}
					g.Globals = append(g.Globals, d)
					show = append(show, Print(Vr(n, t), Str(";")))
				}
				for i := range vs {
					again = append(again, Set(Vr(k("g%d", i), t), Vr(k("g%d", (i+1)%len(vs)), t)))
				}
				f := fnOf("show", nil, nil, show...)
				g.Fns = []*Fn{f, mainFn(append(append(SS(Ex(CallF(f))), again...), Ex(CallF(f)))...)}
				return g
			})
		}
	}
	for _, t := range []*Ty{TI32, TI8, TU64, TF64, TStr} {
		a, b := Vr("ga", t), Vr("gb", t)
		one := func(n int) *E { return mkval(t, n) }
		mix := func(l, r *E) *E { return Bin("+", l, r) }
		seta := fnOf("seta", nil, P("v", t), Set(a, Vr("v", t)))
		rotate := fnOf("rotate", R(t), nil, Decl("o", a), Set(a, b), Set(b, Vr("o", t)), Ret(b))
		rec := fnOf("rec", nil, P("n", TI32), If(Bin(">", V32("n"), N32(0)), SS(Set(a, mix(a, b)), Ex(Call(Vr("rec", FuncT(nil, TI32)), Bin("-", V32("n"), N32(1)))), Set(b, a))))
		sum := fnOf("sum", R(t), nil, Ret(mix(a, b)))
		param := fnOf("param", nil, P("ga", t), Set(Vr("ga", t), one(7)), Set(b, Vr("ga", t)))
		pa := Vr("pa", Ptr(t))
		ops := []struct {
			n string
			s []*St
		}{
			{"a=b", SS(Set(a, b))}, {"b=a+b", SS(Set(b, mix(a, b)))}, {"swap", SS(SetM([]*E{a, b}, b, a))}, {"seta", SS(Ex(CallF(seta, one(5))))}, {"rotate", SS(Set(b, CallF(rotate)))}, {"rec", SS(Ex(CallF(rec, N32(3))))}, {"param", SS(Ex(CallF(param, a)))},
			{"ptr", SS(Set(Deref(pa), mix(Deref(pa), b)))}, {"shadow", SS(Blk(Decl("ga", one(9)), Set(a, mix(a, b)), Set(b, a)))}, {"lam", SS(Blk(Decl("l", Lam(fnOf("", nil, nil, Set(a, mix(b, a))))), Set(b, one(4)), Ex(Call(Vr("l", FuncT(nil))))))}, {"lam2", SS(Blk(Decl("l", Lam(fnOf("", R(t), nil, Ret(mix(a, b))))), Set(b, Call(Vr("l", FuncT(t)))), Set(a, Call(Vr("l", FuncT(t))))))},
			{"blk", SS(Blk(Decl("q", BlkE(t, Set(a, mix(a, b)), Ret(a))), Set(b, Vr("q", t))))}, {"sum", SS(Set(a, CallF(sum)))}, {"loop", SS(ForI(Decl("i", N32(0)), Bin("<", V32("i"), N32(2)), Set(V32("i"), Bin("+", V32("i"), N32(1))), Set(a, mix(a, b))))}, {"alias", SS(Blk(Decl("pb", Addr(b)), Set(b, one(3)), Set(a, Deref(Vr("pb", Ptr(t))))))}, {"localcopy", SS(Blk(Decl("c", a), Set(a, one(6)), Set(b, Vr("c", t))))},
		}
		n := x.Pick(3, 4)
		if t != TI32 {
			n = x.Pick(2, 3)
		}
		idx := make([]int, n)
		for {
			var names []string
			body := SS(Decl("pa", Addr(a)))
			for _, i := range idx {
				names = append(names, ops[i].n)
				body = append(body, ops[i].s...)
				body = append(body, Print(a, b, Str(";")))
			}
			x.Prog(k("ops:%s:%s", t, strings.Join(names, ",")), func() *Pg {
				return &Pg{Globals: SS(Decl("ga", one(1)), DeclT("gb", t, one(2))), Fns: []*Fn{seta, rotate, rec, sum, param, mainFn(append(body, Print(CallF(sum)))...)}}
			})
			i := n - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(ops) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}
