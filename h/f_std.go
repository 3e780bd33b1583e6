package main

import (
	"fmt"
	"os"
	"path/filepath"
)

// C32: the modules of the standard library.

func init() {
	register(&Family{
		ID:        "C32",
		Technique: "explicit-state exploration of bounded sequences of operations on the arrays of the standard library against a reference sequence, over all element types, on an IR machine that checks every access",
		Rule: "Every sequence of 4 (5) of 7 operations (push and pop on two arrays, writes through the references to the first and last element, for_each) from 4 initial capacities over 14 element types and in 2 forms of call, the whole content of both arrays shown after every operation; every initial capacity up to 9 (17) with every number of pushes up to 24 (70) and all pops; " +
			"map between all pairs of element types over arrays of 0 to 4 elements; arrays of 31 to 700 elements filled, read, mapped and emptied in loops; all pairs of instances in one program.",
		Note: "std/array.cd and std/map.cd are read from the tree. The IR machine checks the bounds and the lifetime of every block on the heap. Indices out of the array and pops of an empty array are not explored.",
		Gen:  func(x *Enum) { genStd(x); genStdLong(x) },
	})
}

func stdFiles() map[string]string {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	out := map[string]string{}
	for _, n := range []string{"array.cd", "map.cd"} {
		b, err := os.ReadFile(filepath.Join(repo, "std", n))
		if err != nil {
			fmt.Println("std/" + n + " can't be read: " + err.Error())
			os.Exit(2)
		}
		out["std/"+n] = string(b)
	}
	return out
}

// stdElem is a type of the elements of an array.
type stdElem struct {
	name, ty string
	pre      string             // declarations
	val      func(i int) string // an expression with the i-th value
	show     string             // what is printed of the element x
	out      func(i int) string // what it prints
}

func stdElems() []stdElem {
	num := func(ty string, f func(i int) int64) stdElem {
		return stdElem{ty, ty, "", func(i int) string { return fmt.Sprintf("(%d as %s)", f(i), ty) }, "x", func(i int) string { return fmt.Sprint(f(i)) }}
	}
	return []stdElem{
		num("i32", func(i int) int64 { return int64(i) * 7 }),
		num("i8", func(i int) int64 { return int64(i%5)*20 + 1 }),
		num("i64", func(i int) int64 { return int64(i+1) << 33 }),
		num("u16", func(i int) int64 { return 65535 - int64(i) }),
		{"i1", "i1", "", func(i int) string { return fmt.Sprintf("%d == 1", i%2) }, "x", func(i int) string { return fmt.Sprint(i % 2) }},
		{"f64", "f64", "", func(i int) string { return fmt.Sprintf("(%d.5 as f64)", i) }, "x", func(i int) string { return fmt.Sprintf("%d.500", i) }},
		{"string", "*i8", "", func(i int) string { return fmt.Sprintf("\"s%d\"", i) }, "x", func(i int) string { return fmt.Sprintf("s%d", i) }},
		{"struct", "S", "struct S { a i8\n b i64\n c i16 }\n", func(i int) string { return fmt.Sprintf("@S{a: %d as i8, b: %d as i64, c: %d as i16}", i, i*1000, i+2) }, "x.a, x.b, x.c", func(i int) string { return fmt.Sprint(i, i*1000, i+2) }},
		{"array", "[3]i16", "", func(i int) string { return fmt.Sprintf("[3]i16{%d as i16, %d as i16, %d as i16}", i, i+1, i*3) }, "x[0], x[1], x[2]", func(i int) string { return fmt.Sprint(i, i+1, i*3) }},
		{"nested", "N", "struct M { v [2]i8\n w i32 }\nstruct N { m [2]M\n t i8 }\n", func(i int) string {
			return fmt.Sprintf("@N{m: [2]M{@M{v: [2]i8{%d as i8, 2 as i8}, w: %d}, @M{v: [2]i8{3 as i8, %d as i8}, w: 4}}, t: %d as i8}", i, i*5, i+1, i+9)
		}, "x.m[0].v[0], x.m[0].w, x.m[1].v[1], x.t", func(i int) string { return fmt.Sprint(i, i*5, i+1, i+9) }},
		{"union", "U", "union U { n i64\n h [2]i32 }\nfunc mku(i i64) U { u : U = i; return u; }\n", func(i int) string { return fmt.Sprintf("mku(%d as i64)", i+1<<32) }, "x.n, x.h[0]", func(i int) string { return fmt.Sprint(int64(i+1<<32), int64(int32(i+1<<32))) }},
		{"pointer", "*P", "struct P { v i32\n w i32 }\nfunc mkp(i i32) *P { p := @alloc(P, 1); p.v = i; p.w = i + 1; return p; }\n", func(i int) string { return fmt.Sprintf("mkp(%d)", i) }, "x.v, x.w", func(i int) string { return fmt.Sprint(i, i+1) }},
		{"func", "func(i32) i32", "func inc(n i32) i32 { return n + 1; }\nfunc dbl(n i32) i32 { return n * 2; }\n", func(i int) string { return []string{"inc", "dbl"}[i%2] }, "x(10)", func(i int) string { return []string{"11", "20"}[i%2] }},
		{"lambda", "func(i32) i32", "func four(n i32) i32 { return n + 4; }\n", func(i int) string {
			return []string{"func(n i32) i32 { return n + 1; }", "func(n i32) i32 { return n * 3; }", "four"}[i%3]
		}, "x(10)", func(i int) string { return []string{"11", "30", "14"}[i%3] }},
	}
}

// stdPrelude imports an array of e as m and declares what shows it.
func stdPrelude(m string, e stdElem) string {
	return fmt.Sprintf("func show%s(a %s.Array) void { @print(\"[\"); for i := 0; i < a.length; i = i + 1 { x := %s.get(a, i); @print(%s); @print(\";\"); } for i := 0; i < a.length; i = i + 1 { r := %s.get_ref(a, i); x := *r; @print(%s); @print(\";\"); } if a.capacity < a.length { @print(\"small\"); } @print(\"]\"); }\n",
		m, m, m, e.show, m, e.show)
}

func stdShown(e stdElem, vs []int) string {
	s := ""
	for _, v := range vs {
		s += e.out(v) + ";"
	}
	return "[" + s + s + "]"
}

func stdOp(o int, a, b *[]int, next *int, e stdElem, form int) (string, string, bool) {
	call := func(f, on, args string) string {
		if form == 0 {
			if args != "" {
				on += ", "
			}
			return "ar." + f + "(" + on + args + ")"
		}
		return "(" + on + ")." + f + "(" + args + ")"
	}
	v := *next
	switch o {
	case 0, 1:
		n, p := "a", a
		if o == 1 {
			n, p = "b", b
		}
		*p = append(*p, v)
		*next++
		return call("push", "&"+n, e.val(v)) + ";", "", true
	case 2, 3:
		n, p := "a", a
		if o == 3 {
			n, p = "b", b
		}
		if len(*p) == 0 {
			return "", "", false
		}
		l := (*p)[len(*p)-1]
		*p = (*p)[:len(*p)-1]
		return fmt.Sprintf("{ x := %s; @print(%s); }", call("pop", "&"+n, ""), e.show), e.out(l), true
	case 4, 5:
		i := 0
		if o == 5 {
			i = len(*a) - 1
		}
		if len(*a) == 0 || o == 5 && i == 0 {
			return "", "", false
		}
		(*a)[i] = v
		*next++
		return fmt.Sprintf("{ r := %s; *r = %s; }", call("get_ref", "a", fmt.Sprint(i)), e.val(v)), "", true
	}
	out := ""
	for i := range *a {
		out += e.out((*a)[i]) + ","
		(*a)[i] = 1
	}
	return call("for_each", "a", "each") + ";", out, true
}

func genStd(x *Enum) {
	var files map[string]string
	load := func() map[string]string {
		if files == nil {
			files = stdFiles()
		}
		return files
	}
	es := stdElems()
	depth := x.Pick(4, 5)
	const nops = 7
	for _, e := range es {
		e := e
		// for_each shows the element and stores another
		head := fmt.Sprintf("import ar, %s, \"./std/array.cd\";\n", e.ty)
		if e.pre != "" {
			head = e.pre + head
		}
		each := fmt.Sprintf("func each(p *%s) void { x := *p; @print(%s); @print(\",\"); *p = %s; }\n", e.ty, e.show, e.val(1))
		for form := 0; form < 2; form++ {
			for _, cp := range []int{0, 1, 2, 5} {
				// one program for every prefix of depth-2 operations
				pre := 1
				for i := 0; i < depth-2; i++ {
					pre *= nops
				}
				for p := 0; p < pre; p++ {
					form, cp, p := form, cp, p
					x.Case(k("ops:%s:%d:%d:%d", e.name, form, cp, p), func() Case {
						src, want := head+stdPrelude("ar", e)+each, ""
						n := 0
						for q := 0; q < nops*nops; q++ {
							code := p*nops*nops + q
							a, b, next := []int{}, []int{}, 2
							body, w := fmt.Sprintf("a := ar.with_capacity(%d); b := ar.with_capacity(1);\n", cp), ""
							ok := true
							for d, c := 0, code; d < depth && ok; d++ {
								var s, o string
								s, o, ok = stdOp(c%nops, &a, &b, &next, e, form)
								c /= nops
								body += s + " showar(a); showar(b);\n"
								w += o + stdShown(e, a) + stdShown(e, b)
							}
							if !ok {
								continue
							}
							src += fmt.Sprintf("func q%d() void { %s }\n", n, body)
							want += w
							n++
						}
						src += "func main() { "
						for i := 0; i < n; i++ {
							src += fmt.Sprintf("q%d(); ", i)
						}
						return Case{Kind: KRun, Src: src + "}\n", Want: want, Files: load()}
					})
				}
			}
		}
		// growth: every capacity and every number of pushes
		for cp := 0; cp <= x.Pick(9, 17); cp++ {
			cp := cp
			x.Case(k("grow:%s:%d", e.name, cp), func() Case {
				max := x.Pick(24, 70)
				src := head + stdPrelude("ar", e) + "func fill(a *ar.Array, n i32) void {\n"
				for i := 0; i < max; i++ {
					src += fmt.Sprintf("if n > %d { ar.push(a, %s); }\n", i, e.val(i))
				}
				src += fmt.Sprintf("}\nfunc main() { for n := 0; n <= %d; n = n + 1 { a := ar.with_capacity(%d); fill(&a, n); @print(a.length); for a.length > 0 { x := ar.pop(&a); @print(%s); @print(\";\"); } fill(&a, 2); showar(a); @free(a.ptr); } }\n", max, cp, e.show)
				want := ""
				for n := 0; n <= max; n++ {
					want += fmt.Sprint(n)
					for i := n - 1; i >= 0; i-- {
						want += e.out(i) + ";"
					}
					want += stdShown(e, []int{0, 1})
				}
				return Case{Kind: KRun, Src: src, Want: want, Files: load()}
			})
		}
	}
	// pairs of instances, and map from one to the other
	for i, e := range es {
		for j, f := range es {
			e, f, i, j := e, f, i, j
			if e.ty == f.ty && i != j {
				continue
			}
			pre := e.pre
			if j != i {
				pre += f.pre
			}
			body := func(order int) (string, string) {
				imps := []string{
					fmt.Sprintf("import ar, %s, \"./std/array.cd\";\n", e.ty),
					fmt.Sprintf("import br, %s, \"./std/array.cd\";\n", f.ty),
					fmt.Sprintf("import mp, %s, %s, \"./std/map.cd\";\n", e.ty, f.ty),
				}
				src := pre
				for _, o := range permutations(3)[order] {
					src += imps[o]
				}
				src += stdPrelude("ar", e) + stdPrelude("br", f)
				src += fmt.Sprintf("c : i32 = 0;\nfunc tr(p *%s) %s { x := *p; @print(%s); @print(\",\"); c = c + 1;\n", e.ty, f.ty, e.show)
				for n := 0; n < 4; n++ {
					src += fmt.Sprintf("if c == %d { return %s; }\n", n+1, f.val(n+3))
				}
				src += fmt.Sprintf("return %s; }\n", f.val(7))
				want := ""
				calls := ""
				for n := 0; n <= 4; n++ {
					src += fmt.Sprintf("func t%d() void { c = 0; a := ar.with_capacity(%d); b := br.with_capacity(0);\n", n, n%3)
					calls += fmt.Sprintf("t%d(); ", n)
					va, vb := []int{}, []int{}
					for m := 0; m < n; m++ {
						src += fmt.Sprintf("ar.push(&a, %s); br.push(&b, %s);\n", e.val(m), f.val(m+1))
						va, vb = append(va, m), append(vb, m+1)
					}
					src += "m := mp.map(a, tr);"
					vm := []int{}
					for m := 0; m < n; m++ {
						want += e.out(m) + ","
						vm = append(vm, m+3)
					}
					src += fmt.Sprintf(" showar(a); showbr(b); showbr(m); br.push(&m, %s); (&m).push(%s); showbr(m); showbr(b); showar(a); }\n", f.val(8), f.val(9))
					want += stdShown(e, va) + stdShown(f, vb) + stdShown(f, vm) + stdShown(f, append(vm, 8, 9)) + stdShown(f, vb) + stdShown(e, va)
				}
				return src + "func main() { " + calls + "}\n", want
			}
			for order := 0; order < 6; order++ {
				order := order
				x.Case(k("map:%s:%s:%d", e.name, f.name, order), func() Case {
					src, want := body(order)
					return Case{Kind: KRun, Src: src, Want: want, Files: load()}
				})
			}
		}
	}
}
