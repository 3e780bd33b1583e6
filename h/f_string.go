package main

import "strings"

// C16: strings.

func init() {
	register(&Family{
		ID:        "C16",
		Technique: "explicit-state exploration of all bounded sequences of string operations and exhaustive enumeration of string values against a byte-accurate reference memory",
		Rule: "All pairs of a set of strings (empty, prefixes, bytes on both sides of 128, spaces, escapes) under the 6 comparisons and +, through 15 places of the operands and 17 uses of the result; all pairs of strings of at most 3 letters over 2 and over bytes below and above 128; every concatenation tree of at most 4 (5 thorough) leaves with operands of every kind, operands checked unchanged; " +
			"every byte as a character literal and in a string literal; indexing of every position; every sequence of 4 (5 thorough) of 14 operations (assign, alias, concatenate in both orders, self concatenation, write a byte of a fresh string, call, field, compare) on two string variables, with the whole state printed at the end; scanning loops.",
		Note: "Strings are pointers to zero terminated bytes. Writing into a literal is not specified and is left out.",
		Gen:  func(x *Enum) { genStrings(x); genWide(x, "C16") },
	})
}

func genStrings(x *Enum) {
	set := []string{"", "a", "b", "ab", "aa", "abc", "A", " ", "a b", "z", "\x7f", "\x80", "\xff", "a\xc3\xa9", "\n", "a\n", "\"", "\\", "%d", "%s%n", "0", "10", "9", "//x", "'", "\t"}
	ss := func(l []string) (es []*E) {
		for _, s := range l {
			es = append(es, Str(s))
		}
		return
	}
	lv := []string{""}
	for n := 0; n < 3; n++ {
		cur := lv
		lv = []string{""}
		for _, s := range cur {
			for _, c := range []string{"a", "b"} {
				lv = append(lv, c+s)
			}
		}
	}
	lv2 := []string{""}
	for n := 0; n < 2; n++ {
		cur := lv2
		lv2 = []string{""}
		for _, s := range cur {
			for _, c := range []string{"A", "\x80", "\x01", "\xff"} {
				lv2 = append(lv2, c+s)
			}
		}
	}
	pairsOf := func(es []*E) (r [][2]*E) {
		for _, a := range es {
			for _, b := range es {
				r = append(r, [2]*E{a, b})
			}
		}
		return
	}
	ops := append(append([]string{}, cmpOps...), "+")
	for _, op := range ops {
		op := op
		f := func(a, b *E) *E { return Bin(op, a, b) }
		for _, d := range deliveries {
			d := d
			x.Prog(k("set:%s:%s", op, d), func() *Pg { return delivered(d, TStr, TStr, pairsOf(ss(set)), f) })
			x.Prog(k("ab:%s:%s", op, d), func() *Pg { return delivered(d, TStr, TStr, pairsOf(ss(lv)), f) })
			x.Prog(k("bytes:%s:%s", op, d), func() *Pg { return delivered(d, TStr, TStr, pairsOf(ss(lv2)), f) })
		}
		if op != "+" {
			for _, u := range condUses {
				u := u
				x.Prog(k("use:%s:%s", op, u), func() *Pg { return usePg(u, TStr, pairsOf(ss(set[:10])), f) })
			}
		}
		// constants
		for i := range set {
			for j := range set {
				if j%5 != i%5 && !x.Thorough() {
					continue
				}
				i, j := i, j
				x.Prog(k("const:%s:%d:%d", op, i, j), func() *Pg {
					g := &Pg{Globals: SS(ConstD("ca", Str(set[i])), Decl("gb", Str(set[j])))}
					a, b := Vr("ca", TStr), Vr("gb", TStr)
					g.Fns = []*Fn{fnOf("other", nil, nil, Line(Bin(op, b, a), a, b)),
						mainFn(ConstD("la", Str(set[j])), Line(Bin(op, a, b), a, b), Line(Bin(op, Vr("la", TStr), a)), Ex(Call(Vr("other", FuncT(nil)))), Line(Bin(op, a, a)))}
					return g
				})
			}
		}
	}
	genStringTrees(x)
	genStringBytes(x)
	genStringSeqs(x)
	genStringLoops(x)
}

// genStringTrees: all shapes of concatenations of leaves of every kind.
func genStringTrees(x *Enum) {
	kinds := []string{"lit", "var", "global", "const", "call", "field", "elem", "deref", "heap", "empty", "fresh"}
	shape := func(leaves int) []*bt { return logicTrees(leaves, []string{"+"}, false) }
	run := func(t *bt, leaves int, ks []string) {
		x.Prog(k("tree:%s:%s", t, strings.Join(ks, ",")), func() *Pg {
			st := StructT("SS", P("q", TI8, "v", TStr)...)
			id := fnOf("id", R(TStr), P("v", TStr), Ret(Bin("+", Vr("v", TStr), Str("'"))))
			g := &Pg{Types: []*Ty{st}, Fns: []*Fn{id}, Globals: SS(Decl("gs", Str("glob")), ConstD("cs", Str("con")))}
			b := SS(Decl("v", Str("var")), Decl("f", StructL(st, []string{"q", "v"}, Iv(TI8, 1), Str("fld"))), Decl("e", ArrL(Arr(2, TStr), Str("e0"), Str("e1"))),
				Decl("p", Addr(Vr("v", TStr))), Decl("h", Alloc(TI8, N32(3))), Set(Idx(Vr("h", TStr), N32(0)), Chr("h", 'h')), Set(Idx(Vr("h", TStr), N32(1)), Chr("p", 'p')), Set(Idx(Vr("h", TStr), N32(2)), Iv(TI8, 0)),
				Decl("fr", Bin("+", Str("f"), Str("r"))))
			n := 0
			var mk func(t *bt) *E
			mk = func(t *bt) *E {
				if t.op == "leaf" {
					n++
					switch ks[n-1] {
					case "var":
						return Vr("v", TStr)
					case "global":
						return Vr("gs", TStr)
					case "const":
						return Vr("cs", TStr)
					case "call":
						return CallF(id, Str("c"))
					case "field":
						return Field(Vr("f", st), "v")
					case "elem":
						return Idx(Vr("e", Arr(2, TStr)), N32(1))
					case "deref":
						return Deref(Vr("p", Ptr(TStr)))
					case "heap":
						return Vr("h", TStr)
					case "empty":
						return Str("")
					case "fresh":
						return Vr("fr", TStr)
					}
					return Str(k("l%d", n))
				}
				l := mk(t.l)
				return Bin("+", l, mk(t.r))
			}
			e := mk(t)
			r := Vr("r", TStr)
			b = append(b, Decl("r", e), Line(r), Set(Idx(r, N32(0)), Chr("#", '#')), Line(r),
				Line(Vr("v", TStr), Vr("gs", TStr), Field(Vr("f", st), "v"), Idx(Vr("e", Arr(2, TStr)), N32(0)), Idx(Vr("e", Arr(2, TStr)), N32(1)), Vr("h", TStr), Vr("fr", TStr)),
				Line(Bin("==", r, r)))
			g.Fns = append(g.Fns, mainFn(b...))
			return g
		})
	}
	for _, t := range shape(2) {
		for _, a := range kinds {
			for _, b := range kinds {
				run(t, 2, []string{a, b})
			}
		}
	}
	for _, t := range shape(3) {
		for _, a := range kinds {
			for _, b := range kinds {
				for _, c := range kinds {
					run(t, 3, []string{a, b, c})
				}
			}
		}
	}
	for n := 4; n <= x.Pick(4, 5); n++ {
		for _, t := range shape(n) {
			for i := range kinds {
				var ks []string
				for j := 0; j < n; j++ {
					ks = append(ks, kinds[(i+j*(i+1))%len(kinds)])
				}
				run(t, n, ks)
			}
		}
	}
}

// genStringBytes: every byte in a literal, every escape, every index.
func genStringBytes(x *Enum) {
	for c := 1; c < 256; c++ {
		c := byte(c)
		x.Case(k("byte:string:%d", c), func() Case {
			lit := string([]byte{c})
			if c == '"' || c == '\\' {
				lit = "\\" + lit
			}
			src := "func main() {\n  s := \"<" + lit + ">\";\n  @print(s);\n  @print(s[1] as i32);\n  t := s + \"" + lit + "\"; @print(t);\n  @print(\"" + lit + "\" == t, \"<" + lit + ">\" == s);\n}\n"
			one := string([]byte{c})
			return Case{Kind: KRun, Src: src, Want: "<" + one + ">" + k("%d", int8(c)) + "<" + one + ">" + one + "0 1"}
		})
		x.Case(k("byte:char:%d", c), func() Case {
			if c == '\\' || c == '\'' {
				return Case{Kind: KRun, Src: "func main() { c := '\\" + string([]byte{c}) + "'; @print(c as i32); }\n", Want: k("%d", c)}
			}
			one := string([]byte{c})
			return Case{Kind: KRun, Src: "func main() {\n  c := '" + one + "';\n  s := \"x" + func() string {
				if c == '"' {
					return "\\"
				}
				return ""
			}() + one + "\";\n  @print(c as i32, c == s[1], c == s[0], 'x' == s[0]);\n}\n", Want: k("%d %d %d 1", int8(c), 1, map[bool]int{true: 1}[c == 'x'])}
		})
		if c != 'n' && c != 't' && c != 'r' {
			x.Case(k("byte:escaped:%d", c), func() Case {
				one := string([]byte{c})
				return Case{Kind: KRun, Src: "func main() { s := \"a\\" + one + "b\"; @print(s); }\n", Want: "a" + one + "b"}
			})
		}
	}
	for i, e := range []struct{ c, v string }{{`\n`, "10"}, {`\t`, "9"}, {`\r`, "13"}, {`\\`, "92"}, {`\'`, "39"}, {`"`, "34"}} {
		e := e
		x.Case(k("escape:char:%d", i), func() Case {
			return Case{Kind: KRun, Src: "func main() { c := '" + e.c + "'; @print(c as i32); }\n", Want: e.v}
		})
	}
	for n := 0; n <= 12; n++ {
		n := n
		for _, src := range []string{"lit", "var", "concat", "global", "ptrplus"} {
			src := src
			x.Prog(k("index:%s:%d", src, n), func() *Pg {
				s := "abcdefghijkl\xff"[12-n+1-1 : 12]
				g := &Pg{}
				var b []*St
				v := Vr("s", TStr)
				switch src {
				case "concat":
					b = SS(Decl("s", Bin("+", Str(s[:n/2]), Str(s[n/2:]))))
				case "global":
					g.Globals = SS(Decl("s", Str(s)))
				case "ptrplus":
					b = SS(Decl("s", Bin("+", Str(s), Str(""))))
				default:
					b = SS(Decl("s", Str(s)))
				}
				for i := 0; i <= n; i++ {
					var c *E = Idx(v, N32(int64(i)))
					if src == "lit" {
						c = Idx(Par(Str(s)), Iv(TI8, int64(i)))
					}
					b = append(b, Line(c, Cast(TI32, c)))
					if src == "ptrplus" {
						// the rest of a string is a string
						b = append(b, Decl(k("t%d", i), Addr(Idx(v, N32(int64(i))))), Line(Vr(k("t%d", i), TStr), Bin("==", Vr(k("t%d", i), TStr), Str(s[i:]))))
					}
				}
				g.Fns = []*Fn{mainFn(b...)}
				return g
			})
		}
	}
}

// genStringSeqs: all sequences of operations on two strings.
func genStringSeqs(x *Enum) {
	st := StructT("SS", P("q", TI8, "v", TStr)...)
	s, t := Vr("s", TStr), Vr("t", TStr)
	app := fnOf("app", R(TStr), P("a", TStr, "b", TStr), Decl("r", Bin("+", Vr("a", TStr), Vr("b", TStr))), Set(Vr("a", TStr), Str("gone")), Ret(Vr("r", TStr)))
	put := fnOf("put", nil, P("p", Ptr(TStr), "v", TStr), Set(Deref(Vr("p", Ptr(TStr))), Bin("+", Vr("v", TStr), Str("!"))))
	ops := [][]*St{
		SS(Set(s, Str("ab"))),
		SS(Set(s, t)),
		SS(Set(t, s)),
		SS(Set(s, Bin("+", s, t))),
		SS(Set(s, Bin("+", t, s))),
		SS(Set(t, Bin("+", s, s))),
		SS(Set(t, Bin("+", t, Str("c")))),
		SS(Set(t, Bin("+", Str(""), s)), Set(Idx(t, N32(0)), Chr("#", '#'))),
		SS(SetM([]*E{s, t}, t, s)),
		SS(Set(t, CallF(app, s, t))),
		SS(Ex(CallF(put, Addr(s), t))),
		SS(Set(Field(Vr("h", st), "v"), s), Set(s, Str("in"))),
		SS(Set(t, Field(Vr("h", st), "v"))),
		SS(If(Bin("<", s, t), SS(Set(s, Bin("+", s, Str("<")))), SS(Set(t, Bin("+", t, Str(">")))))),
	}
	n := x.Pick(4, 5)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == n {
			sq := append([]int{}, seq...)
			x.Prog("seq:"+keyOf(sq), func() *Pg {
				b := SS(Decl("s", Bin("+", Str("s"), Str("0"))), Decl("t", Str("t")), Decl("h", StructL(st, []string{"q", "v"}, Iv(TI8, 1), Str("h"))))
				for _, o := range sq {
					b = append(b, ops[o]...)
				}
				b = append(b, Line(s, t, Field(Vr("h", st), "v")), Line(Bin("==", s, t), Bin("<", s, t), Bin(">=", s, Field(Vr("h", st), "v"))))
				return &Pg{Types: []*Ty{st}, Fns: []*Fn{app, put, mainFn(b...)}}
			})
			return
		}
		for i := range ops {
			rec(append(seq, i))
		}
	}
	rec(nil)
}

// genStringLoops: programs that scan, copy, reverse and compare strings.
func genStringLoops(x *Enum) {
	vals := []string{"", "x", "xy", "hello", "aXbXc", "\xfe\x01z", "longer than sixteen bytes, much longer"}
	for i, v := range vals {
		for j, w := range vals {
			v, w := v, w
			x.Prog(k("loop:%d:%d", i, j), func() *Pg {
				a, b := Vr("a", TStr), Vr("b", TStr)
				iv := V32("i")
				inc := func(n string) *St { return Set(V32(n), Bin("+", V32(n), N32(1))) }
				length := fnOf("len", R(TI32), P("a", TStr), Decl("i", N32(0)), For(Bin("!=", Idx(a, iv), Iv(TI8, 0)), inc("i")), Ret(iv))
				copyS := fnOf("dup", R(TStr), P("a", TStr), Decl("n", CallF(length, a)), Decl("r", Alloc(TI8, Bin("+", V32("n"), N32(1)))),
					ForI(Decl("i", N32(0)), Bin("<=", iv, V32("n")), inc("i"), Set(Idx(Vr("r", TStr), iv), Idx(a, iv))), Ret(Vr("r", TStr)))
				rev := fnOf("rev", R(TStr), P("a", TStr), Decl("n", CallF(length, a)), Decl("r", CallF(copyS, a)),
					ForI(Decl("i", N32(0)), Bin("<", iv, V32("n")), inc("i"), Set(Idx(Vr("r", TStr), iv), Idx(a, Bin("-", Bin("-", V32("n"), iv), N32(1))))), Ret(Vr("r", TStr)))
				eq := fnOf("eq", R(TI1), P("a", TStr, "b", TStr), Decl("i", N32(0)),
					For(Bin("==", N32(1), N32(1)), If(Bin("!=", Idx(a, iv), Idx(b, iv)), SS(Ret(Uv(TI1, 0)))), If(Bin("==", Idx(a, iv), Iv(TI8, 0)), SS(Ret(Uv(TI1, 1)))), inc("i")), Ret(Uv(TI1, 0)))
				rep := fnOf("rep", R(TStr), P("a", TStr, "n", TI32), Decl("r", Str("")), ForI(Decl("i", N32(0)), Bin("<", iv, V32("n")), inc("i"), Set(Vr("r", TStr), Bin("+", Vr("r", TStr), a))), Ret(Vr("r", TStr)))
				return pg(length, copyS, rev, eq, rep, mainFn(
					Decl("a", Str(v)), Decl("b", Str(w)),
					Line(CallF(length, a), CallF(length, Bin("+", a, b))),
					Decl("c", CallF(copyS, a)), Line(Bin("==", Vr("c", TStr), a), CallF(eq, Vr("c", TStr), a), CallF(eq, a, b), Bin("==", a, b)),
					Line(CallF(rev, a), CallF(rev, Bin("+", a, b))), Line(Bin("==", CallF(rev, CallF(rev, b)), b)),
					Line(CallF(rep, Bin("+", a, b), N32(4))), Line(MCall(length, a), MCall(rep, b, N32(2))),
					Line(Bin("==", CallF(rev, Bin("+", a, b)), Bin("+", CallF(rev, b), CallF(rev, a))))))
			})
		}
	}
}
