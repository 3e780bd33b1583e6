package main

import (
	"fmt"
	"strings"
)

// Many of everything: the same program with 1, 2, 3, ... of something, so that
// nothing is only right for the first few.

type wideKind struct {
	name, prop string
	counts     []int
	gen        func(n int) (src, want string, files map[string]string)
}

func wideCounts(max int) []int {
	var l []int
	for n := 1; n <= max; n++ {
		if n <= 20 || n%16 <= 1 || n%16 == 15 {
			l = append(l, n)
		}
	}
	return l
}

func wideUpTo(max int) []int {
	var l []int
	for n := 1; n <= max; n++ {
		l = append(l, n)
	}
	return l
}

func genWide(x *Enum, prop string) {
	for _, w := range wideKinds {
		if w.prop != prop {
			continue
		}
		for _, n := range w.counts {
			w, n := w, n
			x.Case(k("many:%s:%d", w.name, n), func() Case {
				src, want, files := w.gen(n)
				return Case{Kind: KRun, Src: src, Want: want, Files: files}
			})
		}
	}
}

// wideRule names what a property is tried with many of.
func wideRule(prop string) string {
	var l []string
	for _, w := range wideKinds {
		if w.prop == prop {
			l = append(l, k("%s (up to %d)", w.name, w.counts[len(w.counts)-1]))
		}
	}
	return strings.Join(l, ", ")
}

type wb struct{ strings.Builder }

func (b *wb) f(format string, a ...interface{}) { fmt.Fprintf(&b.Builder, format, a...) }

var wideTypes = []struct {
	name string
	size int
}{{"i32", 4}, {"i64", 8}, {"i8", 1}, {"u16", 2}, {"u8", 1}}

func wideType(i int) string { return wideTypes[(i*3+i/5)%len(wideTypes)].name }
func wideSize(i int) int    { return wideTypes[(i*3+i/5)%len(wideTypes)].size }

func wideSum(n int, f func(i int) int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

func wideJoin(n int, sep string, f func(i int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return strings.Join(l, sep)
}

var wideKinds = []wideKind{
	{"fields", "C15", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("struct S {\n%s\n}\nfunc main() {\n", wideJoin(n, "\n", func(i int) string { return k("  f%d %s", i, wideType(i)) }))
		s.f("  s := @S{%s};\n  p := &s;\n", wideJoin(n, ", ", func(i int) string { return k("f%d: %d as %s", n-1-i, n-1-i, wideType(n-1-i)) }))
		s.f("  t := @S{%s};\n", wideJoin(n, ", ", func(i int) string { return k("f%d: %d as %s", i, i+2, wideType(i)) }))
		for i := 0; i < n; i++ {
			s.f("  @print(s.f%d, t.f%d, \";\");\n", i, i)
			w.f("%d %d ;", i, i+2)
		}
		for i := 0; i < n; i++ {
			s.f("  p.f%d = p.f%d + 1 as %s;\n", i, i, wideType(i))
		}
		s.f("  t = s;\n")
		for i := 0; i < n; i++ {
			s.f("  @print(t.f%d, \";\");\n", i)
			w.f("%d ;", i+1)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"unionfields", "C15", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("union U {\n%s\n}\nfunc main() {\n  u : U = 0 as %s;\n", wideJoin(n, "\n", func(i int) string { return k("  f%d %s", i, wideType(i)) }), wideType(0))
		for i := 0; i < n; i++ {
			s.f("  u.f%d = %d as %s;\n  @print(u.f%d, \";\");\n", i, i+1, wideType(i), i)
			w.f("%d ;", i+1)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"elements", "C15", wideCounts(300), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n  a := [%d]i32{%s};\n", n, wideJoin(n, ", ", func(i int) string { return k("%d", i*3) }))
		s.f("  for i := 0; i < %d; i = i + 1 { @print(a[i], \";\"); }\n  @print(a[%d], a[0]);\n", n, n-1)
		for i := 0; i < n; i++ {
			w.f("%d ;", i*3)
		}
		w.f("%d 0", (n-1)*3)
		s.f("  b := a;\n  for i := 0; i < %d; i = i + 1 { a[i] = a[i] + i; }\n  d := 0; e := 0;\n  for i := 0; i < %d; i = i + 1 { d = d + a[i]; e = e + b[i]; }\n  @print(\" \", d, e);\n}\n", n, n)
		w.f("  %d %d", wideSum(n, func(i int) int { return i * 4 }), wideSum(n, func(i int) int { return i * 3 }))
		return s.String(), w.String(), nil
	}},
	{"globals", "C15", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		for i := 0; i < n; i++ {
			s.f("g%d : %s = %d as %s;\n", i, wideType(i), i, wideType(i))
		}
		s.f("func change() {\n")
		for i := n - 1; i >= 0; i-- {
			s.f("  g%d = g%d + 2 as %s;\n", i, i, wideType(i))
		}
		s.f("}\nfunc main() {\n  change();\n")
		for i := 0; i < n; i++ {
			s.f("  @print(g%d, \";\");\n", i)
			w.f("%d ;", i+2)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"locals", "C15", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			s.f("  l%d := %d as %s;\n  p%d := &l%d;\n", i, i, wideType(i), i, i)
		}
		for i := n - 1; i >= 0; i-- {
			s.f("  *p%d = l%d + 2 as %s;\n", i, i, wideType(i))
		}
		for i := 0; i < n; i++ {
			s.f("  @print(l%d, \";\");\n", i)
			w.f("%d ;", i+2)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"pointers", "C15", wideUpTo(14), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func set(p %si32) { %sp = 7; }\nfunc main() {\n  p0 := 5;\n", strings.Repeat("*", n), strings.Repeat("*", n))
		for i := 1; i <= n; i++ {
			s.f("  p%d := &p%d;\n", i, i-1)
		}
		s.f("  @print(%sp%d);\n  set(p%d);\n  @print(\" \", p0, %sp%d);\n  x := 9;\n  %sp%d = &x;\n  @print(\" \", p0, %sp%d, p0);\n}\n", strings.Repeat("*", n), n, n, strings.Repeat("*", n), n, strings.Repeat("*", n-1), n, strings.Repeat("*", n), n)
		return s.String(), "5  7 7  7 9 7", nil
	}},
	{"dimensions", "C15", wideUpTo(8), func(n int) (string, string, map[string]string) {
		var s, w wb
		next := 0
		var lit func(d int) string
		lit = func(d int) string {
			if d == 0 {
				next++
				return k("%d", next-1)
			}
			a := lit(d - 1)
			return strings.Repeat("[2]", d) + "i32{" + a + ", " + lit(d-1) + "}"
		}
		s.f("func main() {\n  a := %s;\n", lit(n))
		for i := 0; i < 1<<uint(n); i += 1 + (1<<uint(n))/16 {
			idx := ""
			for d := n - 1; d >= 0; d-- {
				idx += k("[%d]", i>>uint(d)&1)
			}
			s.f("  @print(a%s, \";\");\n  a%s = %d;\n  @print(a%s, \";\");\n", idx, idx, i+1000, idx)
			w.f("%d ;%d ;", i, i+1000)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"structdepth", "C15", wideUpTo(24), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("struct S0 { v i32\n w i64 }\n")
		for i := 1; i <= n; i++ {
			s.f("struct S%d { b i8\n f S%d\n p *S%d }\n", i, i-1, i-1)
		}
		s.f("func main() {\n  s0 := @S0{v: 3, w: 4 as i64};\n")
		for i := 1; i <= n; i++ {
			s.f("  s%d := @S%d{b: %d as i8, f: s%d, p: &s%d};\n", i, i, i, i-1, i-1)
		}
		s.f("  s0.v = 5;\n  s%d%s.v = 6;\n  @print(s0.v, s%d%s.v, s%d%s.v, s%d%s.w, s%d.b);\n}\n", n, strings.Repeat(".f", n), n, strings.Repeat(".p", n), n, strings.Repeat(".f", n), n, strings.Repeat(".f", n), n)
		return s.String(), k("5 5 6 4 %d", n), nil
	}},
	{"sizes", "C14", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		off, align, big := 0, 1, 0
		for i := 0; i < n; i++ {
			z := wideSize(i)
			off = (off + z - 1) / z * z
			off += z
			if z > align {
				align = z
			}
			if z > big {
				big = z
			}
		}
		off = (off + align - 1) / align * align
		fields := wideJoin(n, "\n", func(i int) string { return k("  f%d %s", i, wideType(i)) })
		s.f("struct S {\n%s\n}\nunion U {\n%s\n  last S\n}\nstruct R { b i8\n s [3]S\n u U\n e i8 }\n", fields, fields)
		s.f("func main() {\n  @print(@sizeof(S), @sizeof(U), @sizeof([%d]S), @sizeof(R), \"\");\n", n)
		r := align + 4*off + 1
		r = (r + align - 1) / align * align
		w.f("%d %d %d %d ", off, off, n*off, r)
		s.f("  p := @alloc(S, %d);\n", n)
		for i := 0; i < n; i++ {
			s.f("  p[%d].f%d = %d as %s;\n", i, i, i, wideType(i))
			s.f("  p[%d].f0 = %d as %s;\n", n-1-i, n-i, wideType(0))
		}
		sum := 0
		s.f("  t := 0;\n")
		for i := 0; i < n; i++ {
			s.f("  t = t + p[%d].f0 as i32;\n", i)
			sum += i + 1
		}
		// a field of number 0 of element 0 is written first and then again as f0
		s.f("  @print(t);\n")
		for i := 1; i < n; i++ {
			s.f("  @print(\" \", p[%d].f%d);\n", i, i)
			w.f("")
		}
		s.f("  @free(p);\n}\n")
		// element i: f0 is i+1, except that writing p[0].f0 = 0 happens when i is 0 and p[0].f0 = 1 when i is n-1
		w.f("%d", sum)
		for i := 1; i < n; i++ {
			w.f("  %d", i)
		}
		return s.String(), w.String(), nil
	}},
	{"parameters", "C26", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func show(%s) i32 {\n", wideJoin(n, ", ", func(i int) string { return k("a%d %s", i, wideType(i)) }))
		for i := 0; i < n; i++ {
			s.f("  @print(a%d, \";\");\n  a%d = a%d + 1 as %s;\n", i, i, i, wideType(i))
			w.f("%d ;", i)
		}
		s.f("  return %s;\n}\nfunc main() {\n", wideJoin(n, " + ", func(i int) string { return k("a%d as i32", i) }))
		s.f("  @print(show(%s));\n  f := show;\n  @print(\" \", f(%s));\n}\n", wideJoin(n, ", ", func(i int) string { return k("%d as %s", i, wideType(i)) }), wideJoin(n, ", ", func(i int) string { return k("%d as %s", i, wideType(i)) }))
		t := w.String()
		sum := wideSum(n, func(i int) int { return i + 1 })
		return s.String(), k("%s%d%s  %d", t, sum, t, sum), nil
	}},
	{"calldepth", "C26", wideCounts(64), func(n int) (string, string, map[string]string) {
		return k("func f(a i32, b i32) i32 { return a * 2 %% 1000 + b; }\nfunc main() { @print(%s1%s); }\n", strings.Repeat("f(", n), strings.Repeat(", 1)", n)), k("%d", func() int {
			v := 1
			for i := 0; i < n; i++ {
				v = v*2%1000 + 1
			}
			return v
		}()), nil
	}},
	{"recursion", "C26", wideCounts(300), func(n int) (string, string, map[string]string) {
		return k("func f(n i32, s i32) i32 {\n  l := n;\n  if n == 0 { return s; }\n  r := f(n - 1, s + n);\n  return r + l - n;\n}\nfunc main() { @print(f(%d, 0)); }\n", n), k("%d", n*(n+1)/2), nil
	}},
	{"values", "C18", wideCounts(40), func(n int) (string, string, map[string]string) {
		if n == 1 {
			n = 2
		}
		var s, w wb
		names := func(p string) string { return wideJoin(n, ", ", func(i int) string { return k("%s%d", p, i) }) }
		s.f("func many(d i32) (%s) {\n  return %s;\n}\nfunc main() {\n", wideJoin(n, ", ", wideType), wideJoin(n, ", ", func(i int) string { return k("(d + %d) as %s", i, wideType(i)) }))
		s.f("  %s := many(1);\n", names("a"))
		for i := 0; i < n; i++ {
			s.f("  @print(a%d, \";\");\n", i)
			w.f("%d ;", i+1)
		}
		s.f("  %s = many(2);\n", names("a"))
		for i := 0; i < n; i++ {
			s.f("  @print(a%d, \";\");\n", i)
			w.f("%d ;", i+2)
		}
		s.f("  %s := %s;\n", names("b"), wideJoin(n, ", ", func(i int) string { return k("%d", i) }))
		s.f("  %s = %s;\n", names("b"), wideJoin(n, ", ", func(i int) string { return k("b%d", (i+1)%n) }))
		for i := 0; i < n; i++ {
			s.f("  @print(b%d, \";\");\n", i)
			w.f("%d ;", (i+1)%n)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"captured", "C17", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			s.f("  c%d := %d as %s;\n", i, i+1, wideType(i))
		}
		s.f("  f := func() i32 {\n")
		for i := n - 1; i >= 0; i-- {
			s.f("    @print(c%d, \";\");\n", i)
			w.f("%d ;", i+1)
		}
		s.f("    g := func() i32 { return %s; };\n    return g();\n  };\n", wideJoin(n, " + ", func(i int) string { return k("c%d as i32", i) }))
		for i := 0; i < n; i++ {
			s.f("  c%d = 0 as %s;\n", i, wideType(i))
		}
		s.f("  @print(f());\n}\n")
		w.f("%d", n*(n+1)/2)
		return s.String(), w.String(), nil
	}},
	{"lambdadepth", "C17", wideUpTo(16), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func main() {\n  v0 := 1;\n")
		for i := 1; i <= n; i++ {
			s.f("  f%d := func(a%d i32) i32 {\n  v%d := v%d + a%d;\n", i, i, i, i-1, i)
		}
		s.f("  return %s;\n", wideJoin(n+1, " + ", func(i int) string { return k("v%d", i) }))
		for i := n; i >= 1; i-- {
			s.f("  };\n")
			if i > 1 {
				s.f("  return f%d(%d);\n", i, i)
			}
		}
		s.f("  @print(f1(1));\n}\n")
		v, sum := 1, 1
		for i := 1; i <= n; i++ {
			v += i
			sum += v
		}
		return s.String(), k("%d", sum), nil
	}},
	{"functions", "C17", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s, w wb
		for i := 0; i < n; i++ {
			s.f("func f%d(a i32) i32 { return a + %d; }\n", i, i*i)
		}
		s.f("func main() {\n  a := [%d]func(i32) i32{%s};\n  for i := 0; i < %d; i = i + 1 { @print(a[i](i), \";\"); }\n", n, wideJoin(n, ", ", func(i int) string { return k("f%d", i) }), n)
		for i := 0; i < n; i++ {
			w.f("%d ;", i+i*i)
		}
		for i := 0; i < n; i++ {
			s.f("  l%d := func(a i32) i32 { return a - %d; };\n", i, i)
		}
		for i := n - 1; i >= 0; i-- {
			s.f("  @print(l%d(100), \";\");\n", i)
			w.f("%d ;", 100-i)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"elseifs", "C11", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func f(x i32) i32 {\n  r := 0 - 1;\n  if x == 0 { r = 0; }")
		for i := 1; i < n; i++ {
			s.f(" else if x == %d { r = %d; }", i, i*7)
		}
		s.f(" else { r = 1000; }\n  return r;\n}\nfunc main() { for i := 0; i < %d; i = i + 1 { @print(f(i), \";\"); } }\n", n+2)
		for i := 0; i < n; i++ {
			w.f("%d ;", i*7)
		}
		w.f("1000 ;1000 ;")
		return s.String(), w.String(), nil
	}},
	{"elseifend", "C11", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func f(x i32) i32 {\n  r := 0 - 1;\n  if x >= %d { r = 0; }", n*2)
		for i := 1; i < n; i++ {
			s.f(" else if x >= %d { r = %d; if x %% 2 == 1 { return r + 1; } }", (n-i)*2, i*7)
		}
		s.f("\n  return r;\n}\nfunc main() { for i := 0; i < %d; i = i + 1 { @print(f(i), \";\"); } }\n", n*2+2)
		for x := 0; x < n*2+2; x++ {
			r := -1
			if x >= n*2 {
				r = 0
			} else if x >= 2 {
				r = (n - x/2) * 7
				if x%2 == 1 {
					r++
				}
			}
			w.f("%d ;", r)
		}
		return s.String(), w.String(), nil
	}},
	{"cases", "C11", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func f(x i32) i32 {\n  r := 0 - 1;\n  switch x {\n")
		for i := 0; i < n; i++ {
			s.f("    case %d { r = %d; }\n", (i*5)%(n*5+1), i*7)
		}
		s.f("    default { r = 1000; }\n  }\n  return r;\n}\nfunc main() { for i := 0; i < %d; i = i + 1 { @print(f(i), \";\"); } }\n", n*5)
		for i := 0; i < n*5; i++ {
			if i%5 == 0 {
				w.f("%d ;", i/5*7)
			} else {
				w.f("1000 ;")
			}
		}
		return s.String(), w.String(), nil
	}},
	{"loopdepth", "C11", wideUpTo(9), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func main() {\n  t := 0;\n")
		for i := 0; i < n; i++ {
			s.f("  for i%d := 0; i%d < 3; i%d = i%d + 1 {\n    if i%d == 1 { continue; }\n", i, i, i, i, i)
		}
		s.f("  t = t + 1;\n")
		for i := n - 1; i >= 0; i-- {
			s.f("  if t > 300 { break; }\n  }\n")
		}
		s.f("  @print(t);\n}\n")
		// each loop runs its body for 0 and 2
		v := 1
		for i := 0; i < n; i++ {
			v *= 2
		}
		if v > 301 {
			v = 301
		}
		return s.String(), k("%d", v), nil
	}},
	{"ifdepth", "C11", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func f(x i32) i32 {\n")
		for i := 0; i < n; i++ {
			s.f("  if x > %d {\n", i)
		}
		s.f("  return 1000;\n")
		for i := n - 1; i >= 0; i-- {
			s.f("  } else { if x < 0 { return 0 - %d; } }\n  if x == %d { return %d; }\n", i+1, i, i*3)
		}
		s.f("  return 0 - 1000;\n}\nfunc main() { for i := 0 - 1; i < %d; i = i + 1 { @print(f(i), \";\"); } }\n", n+2)
		w.f("-1 ;")
		for i := 0; i < n; i++ {
			w.f("%d ;", i*3)
		}
		w.f("1000 ;1000 ;")
		return s.String(), w.String(), nil
	}},
	{"loops", "C11", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			s.f("  for j := 0; j < 5; j = j + 1 { if j == %d { continue; } if j == 4 { break; } @print(j + %d); }\n", i%4, i)
			for j := 0; j < 4; j++ {
				if j != i%4 {
					w.f("%d", j+i)
				}
			}
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"logic", "C12", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func t(n i32, r i32) i1 { @print(n, \";\"); return r != 0; }\nfunc main() {\n")
		for stop := 0; stop <= n; stop += 1 + n/4 {
			s.f("  @print(%s, \"|\");\n", wideJoin(n, " && ", func(i int) string {
				if i == stop {
					return k("t(%d, 0)", i)
				}
				return k("t(%d, 1)", i)
			}))
			for i := 0; i < n && i <= stop; i++ {
				w.f("%d ;", i)
			}
			if stop < n {
				w.f("0 |")
			} else {
				w.f("1 |")
			}
			s.f("  @print(%s, \"|\");\n", wideJoin(n, " || ", func(i int) string {
				if i == stop {
					return k("t(%d, 1)", i)
				}
				return k("t(%d, 0)", i)
			}))
			for i := 0; i < n && i <= stop; i++ {
				w.f("%d ;", i)
			}
			if stop < n {
				w.f("1 |")
			} else {
				w.f("0 |")
			}
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"order", "C12", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("struct S { %s }\nfunc t(n i32) i32 { @print(n, \";\"); return n; }\nfunc f(%s) i32 { return a0; }\nfunc main() {\n", wideJoin(n, "\n ", func(i int) string { return k("f%d i32", i) }), wideJoin(n, ", ", func(i int) string { return k("a%d i32", i) }))
		list := wideJoin(n, ", ", func(i int) string { return k("t(%d)", i) })
		s.f("  f(%s);\n  a := [%d]i32{%s};\n  s := @S{%s};\n  @print(%s);\n  x := %s;\n}\n", list, n, list, wideJoin(n, ", ", func(i int) string { return k("f%d: t(%d)", i, i) }), list, wideJoin(n, " + ", func(i int) string { return k("t(%d)", i) }))
		seq := wideJoin(n, "", func(i int) string { return k("%d ;", i) })
		w.f("%s%s%s%s%s%s", seq, seq, seq, seq, wideJoin(n, " ", func(i int) string { return k("%d", i) }), seq)
		return s.String(), w.String(), nil
	}},
	{"operators", "C02", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n  v := 3;\n")
		s.f("  @print(%s, \";\");\n", wideJoin(n, " - ", func(i int) string { return k("%d", i+1) }))
		w.f("%d ;", 2-n*(n+1)/2)
		s.f("  @print(%s, \";\");\n", wideJoin(n, " + ", func(i int) string { return k("v * %d - v", i) }))
		w.f("%d ;", wideSum(n, func(i int) int { return 3*i - 3 }))
		s.f("  @print(%s, \";\");\n", wideJoin(n, " + ", func(i int) string {
			if i%2 == 0 {
				return k("%d * v", i)
			}
			return k("%d", i)
		}))
		w.f("%d ;", wideSum(n, func(i int) int {
			if i%2 == 0 {
				return i * 3
			}
			return i
		}))
		s.f("  @print(%s%d%s, \";\");\n", strings.Repeat("(1 - ", n), 1, strings.Repeat(")", n))
		w.f("%d ;", 1-n%2)
		s.f("  @print(%s%d%s, \";\");\n", strings.Repeat("(", n), 2, strings.Repeat(" - 1) * 2", n))
		w.f("%d ;", 2)
		s.f("  @print(%sv, %sv == 3);\n}\n", strings.Repeat("- ", n), strings.Repeat("!", n+n%2))
		if n%2 == 0 {
			w.f("3 ")
		} else {
			w.f("-3 ")
		}
		// an even number of ! is 1, which is compared with 3 as a boolean would not fit: v == 3 is negated
		return strings.Replace(s.String(), strings.Repeat("!", n+n%2)+"v == 3", strings.Repeat("!", n+n%2)+"(v == 3)", 1), w.String() + "1", nil
	}},
	{"strings", "C16", wideCounts(300), func(n int) (string, string, map[string]string) {
		var s wb
		t := wideJoin(n, "", func(i int) string { return string(rune('a' + i%26)) })
		last := t[:n-1] + "!"
		s.f("func main() {\n  s := \"%s\";\n  t := \"%s\";\n  l := \"%s\";\n  @print(s, s == t, s == l, s + l == t + l, s > l, \";\");\n", t, t, last)
		s.f("  n := 0;\n  for n = 0; s[n] != 0 as i8; n = n + 1 { }\n  @print(n, s[%d], \";\");\n  c := s + \"-\" + l;\n  @print(c);\n  @print(\"%s\");\n}\n", n-1, t)
		return s.String(), k("%s 1 0 1 1 ;%d %d ;%s-%s%s", t, n, t[n-1], t, last, t), nil
	}},
	{"concatenations", "C16", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func main() {\n  @print(%s);\n}\n", wideJoin(n, " + ", func(i int) string { return k("\"%d,\"", i) }))
		return s.String(), wideJoin(n, "", func(i int) string { return k("%d,", i) }), nil
	}},
	{"printed", "C27", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		value := func(i, d int) (string, string) {
			switch i % 7 {
			case 0:
				return k("\"s%d\"", i+d), k("s%d", i+d)
			case 1:
				return k("%d.5 as f64", i+d), k("%d.500", i+d)
			case 2:
				return k("%d.25", i+d), k("%d.250", i+d)
			}
			return k("%d as %s", i+d, wideType(i)), k("%d", i+d)
		}
		s.f("func main() {\n")
		for d := 0; d < 3; d++ {
			s.f("  @print(%s);\n  @print(\"|\");\n", wideJoin(n, ", ", func(i int) string { a, _ := value(i, d); return a }))
			w.f("%s|", wideJoin(n, " ", func(i int) string { _, b := value(i, d); return b }))
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"shadows", "C04", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("x := 1000;\nfunc main() {\n")
		forms := []string{"{", "if 1 == 1 {", "for j := 0; j < 1; j = j + 1 {", "switch 1 { default {"}
		for i := 0; i < n; i++ {
			s.f("  %s\n  x := x + %d;\n  @print(x, \";\");\n", forms[i%4], i+1)
			w.f("%d ;", 1000+(i+1)*(i+2)/2)
		}
		for i := n - 1; i >= 0; i-- {
			s.f("  @print(x, \";\");\n  }\n")
			w.f("%d ;", 1000+(i+1)*(i+2)/2)
			if i%4 == 3 {
				s.f("  }\n")
			}
		}
		s.f("  @print(x);\n}\n")
		return strings.ReplaceAll(s.String(), "x := x +", "y := x; x := y +"), w.String() + "1000", nil
	}},
	{"names", "C04", wideCounts(120), func(n int) (string, string, map[string]string) {
		// one name of every length
		var s, w wb
		name := func(i int) string { return strings.Repeat("n", i+1) }
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			s.f("  %s := %d;\n", name(i), i)
		}
		for i := n - 1; i >= 0; i-- {
			s.f("  @print(%s, \";\");\n", name(i))
			w.f("%d ;", i)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"chain", "C20", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func main() { @print(f%d(0), @sizeof(T%d), \";\"); t := mk%d(); @print(t%s.v); }\n", n, n, n, strings.Repeat(".t", n))
		for i := n; i >= 1; i-- {
			s.f("func f%d(a i32) i32 { return f%d(a) + %d; }\nstruct T%d { t T%d }\nfunc mk%d() T%d { return @T%d{t: mk%d()}; }\n", i, i-1, i, i, i-1, i, i, i, i-1)
		}
		s.f("func f0(a i32) i32 { return a + 5; }\nfunc mk0() T0 { return @T0{v: 8, w: 1 as i64}; }\nstruct T0 { v i32\n w i64 }\n")
		return s.String(), k("%d 16 ;8", 5+n*(n+1)/2), nil
	}},
	{"aliases", "C20", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("struct S { v i32 }\ntype A0 = S;\n")
		for i := 1; i <= n; i++ {
			s.f("type A%d = A%d;\n", i, i-1)
		}
		s.f("func get(a A%d) i32 { return a.v; }\nfunc main() { s : A%d = @S{v: 4}; @print(get(s), s.get(), @sizeof(A%d)); }\n", n, n/2, n)
		return s.String(), "4 4 4", nil
	}},
	{"modulechain", "C21", wideUpTo(20), func(n int) (string, string, map[string]string) {
		files := map[string]string{}
		for i := 0; i < n; i++ {
			imp, add := "", "1"
			typ := "struct S { v i32 }\nfunc mk() S { return @S{v: 3}; }\n"
			if i+1 < n {
				imp, add = k("import m, \"./m%d.cd\";\n", i+1), "m.f(a) + m.mk().v - 3"
				if i%3 == 1 {
					typ = "func mk() m.S { return m.mk(); }\ntype S = m.S;\n"
				}
			}
			files[k("m%d.cd", i)] = imp + "g : i32 = " + k("%d", i) + ";\n" + typ + k("func f(a i32) i32 { g = g + a; return g + %s; }\n", add)
		}
		// g of every module grows by a
		return "import m, \"./m0.cd\";\nfunc main() { @print(m.f(2), m.f(1), m.g); }\n", k("%d %d 3", n*(n-1)/2+2*n+1, n*(n-1)/2+3*n+1), files
	}},
	{"modules", "C21", wideCounts(40), func(n int) (string, string, map[string]string) {
		files := map[string]string{}
		var s, w wb
		for i := 0; i < n; i++ {
			files[k("m%d.cd", i)] = k("g : i32 = %d;\nconst c := %d;\nstruct S { %sv i32 }\nfunc mk() S { return @S{v: g}; }\nfunc val(s S) i32 { return s.v + c; }\n", i, i*10, strings.Repeat("x", i))
			files[k("m%d.cd", i)] = strings.ReplaceAll(files[k("m%d.cd", i)], strings.Repeat("x", i)+"v i32", "v i32")
			s.f("import m%d, \"./m%d.cd\";\n", i, i)
		}
		s.f("func main() {\n")
		for i := n - 1; i >= 0; i-- {
			s.f("  s%d := m%d.mk();\n  m%d.g = 100;\n  @print(s%d.val(), m%d.val(s%d), m%d.g, m%d.c, \";\");\n", i, i, i, i, i, i, i, i)
			w.f("%d %d 100 %d ;", i*11, i*11, i*10)
		}
		s.f("}\n")
		return s.String(), w.String(), files
	}},
	{"instances", "C21", wideUpTo(24), func(n int) (string, string, map[string]string) {
		var s, w wb
		for i := 0; i < n; i++ {
			s.f("import b%d, %s, \"./b.cd\";\n", i, strings.Repeat("*", i/len(wideTypes))+wideTypes[i%len(wideTypes)].name)
		}
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			size := wideTypes[i%len(wideTypes)].size
			if i >= len(wideTypes) {
				size = 8
			}
			s.f("  @print(b%d.size(), b%d.next(), b%d.next(), \";\");\n", i, i, i)
			w.f("%d 1 2 ;", size)
		}
		s.f("}\n")
		return s.String(), w.String(), map[string]string{"b.cd": "type T\ncount : i32 = 0;\nstruct Box { v T }\nfunc size() i32 { return @sizeof(Box); }\nfunc next() i32 { count = count + 1; return count; }\n"}
	}},
	{"macrodepth", "C23", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			v := 0
			if i < n*2/3 {
				v = 1
				w.f("%d ;", i)
			}
			s.f("#if %d {\n  @print(%d, \";\");\n", v, i)
		}
		s.f("%s\n@print(\"end\");\n}\n", strings.Repeat("}\n", n))
		return s.String(), w.String() + "end", nil
	}},
	{"macros", "C23", wideCounts(64), func(n int) (string, string, map[string]string) {
		var s, w wb
		for i := 0; i < n; i++ {
			s.f("#if %d {\nfunc f%d() i32 { return %d; }\n}\n#if %d {\nfunc f%d() i32 { return 0 - %d; }\n}\n", i%3, i, i, (3-i%3)/3, i, i+1)
		}
		s.f("func main() {\n")
		for i := 0; i < n; i++ {
			s.f("  @print(f%d());\n#if %d {\n  @print(\"one\");\n}\n", i, i%3%2)
			if i%3 == 0 {
				w.f("%d", -(i + 1))
			} else {
				w.f("%d", i)
			}
			if i%3 == 1 {
				w.f("one")
			}
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
	{"constants", "C13", wideCounts(80), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("const c0 := 1;\n")
		for i := 1; i <= n; i++ {
			s.f("const c%d := c%d + %d;\n", i, i-1, i)
		}
		s.f("func main() {\n  @print(c%d);\n  const l0 := c%d;\n", n, n)
		for i := 1; i <= n; i++ {
			s.f("  const l%d := l%d * 3 %% 1000;\n", i, i-1)
		}
		v := 1 + n*(n+1)/2
		w.f("%d", v)
		for i := 0; i < n; i++ {
			v = v * 3 % 1000
		}
		s.f("  @print(\" \", l%d);\n", n)
		w.f("  %d", v)
		s.f("  switch %d {\n", v)
		s.f("    case l%d { @print(\" y\"); }\n    default { @print(\" n\"); }\n  }\n}\n", n)
		w.f(" y")
		return s.String(), w.String(), nil
	}},
	{"blockdepth", "C19", wideUpTo(30), func(n int) (string, string, map[string]string) {
		var s wb
		s.f("func f(x i32) i32 {\n  v0 := %s", "")
		for i := 0; i < n; i++ {
			s.f(":i32 {\n  if x == %d { return %d; }\n  w%d := ", i, i*100, i)
		}
		s.f("7;\n")
		for i := n - 1; i >= 0; i-- {
			s.f("  return w%d + %d;\n  };\n", i, 1)
		}
		s.f("  return v0;\n}\nfunc main() { for i := 0; i < %d; i = i + 1 { @print(f(i), \";\"); } }\n", n+1)
		var w wb
		for i := 0; i <= n; i++ {
			if i < n {
				w.f("%d ;", i*100+i)
			} else {
				w.f("%d ;", 7+n)
			}
		}
		return s.String(), w.String(), nil
	}},
	{"words", "C01", wideCounts(300), func(n int) (string, string, map[string]string) {
		name := "a" + wideJoin(n, "", func(i int) string {
			return string("abcdefghijklmnopqrstuvwxyz_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i%63])
		})
		digits := n
		if digits > 30 {
			digits = 30
		}
		fill := strings.Repeat("\n", n) + "//" + strings.Repeat("/ x \" '", n) + "\n" + strings.Repeat(" \t", n)
		return "func main() {" + fill + name + " := 0x" + strings.Repeat("0", digits) + "1F;" + fill + "d := 0b" + strings.Repeat("0", digits) + "101;" + fill + "f := " + "1." + strings.Repeat("5", digits) + ";" + fill + "@print(" + fill + name + fill + ", d" + fill + ", f > 1.4" + fill + ")" + fill + ";" + fill + "}" + fill, "31 5 1", nil
	}},
	{"pub", "C30", wideCounts(40), func(n int) (string, string, map[string]string) {
		var w wb
		sig := wideJoin(n, ", ", func(i int) string { return k("a%d %s", i, wideType(i)) })
		types := wideJoin(n, ", ", wideType)
		args := wideJoin(n, ", ", func(i int) string { return k("%d as %s", i+1, wideType(i)) })
		body := k("{ %s return %s; }", wideJoin(n, " ", func(i int) string { return k("@print(a%d, \";\");", i) }), wideJoin(n, " + ", func(i int) string { return k("a%d as i32", i) }))
		for i := 0; i < n; i++ {
			w.f("%d ;", i+1)
		}
		one := k("%s%d", w.String(), n*(n+1)/2)
		return k("extern func wide(%s) i32;\nimport lib, \"./lib.cd\";\npub func own(%s) i32 %s\nfunc main() {\n  @print(wide(%s));\n  @print(lib.wide(%s));\n  @print(own(%s));\n f := own;\n @print(f(%s));\n}\n", types, sig, body, args, args, args, args),
			one + one + one + one, map[string]string{"lib.cd": k("pub func wide(%s) i32 %s\n", sig, body)}
	}},
	{"pubs", "C30", wideCounts(40), func(n int) (string, string, map[string]string) {
		var s, l, w wb
		for i := 0; i < n; i++ {
			s.f("extern func p%d(%s) %s;\n", i, wideType(i), wideType(i))
			l.f("pub func p%d(a %s) %s { return a + %d as %s; }\n", i, wideType(i), wideType(i), i, wideType(i))
		}
		s.f("import lib, \"./lib.cd\";\nfunc main() {\n")
		for i := 0; i < n; i++ {
			s.f("  @print(p%d(2 as %s), lib.p%d(3 as %s), \";\");\n", i, wideType(i), i, wideType(i))
			w.f("%d %d ;", i+2, i+3)
		}
		s.f("}\n")
		return s.String(), w.String(), map[string]string{"lib.cd": l.String()}
	}},
	{"varargs", "C30", wideCounts(40), func(n int) (string, string, map[string]string) {
		var w wb
		for i := 0; i < n; i++ {
			w.f("%d,", i*3)
		}
		return k("extern func printf(*i8, ..) i32;\nfunc main() { printf(\"%s\", %s); }\n", strings.Repeat("%d,", n), wideJoin(n, ", ", func(i int) string { return k("%d", i*3) })), w.String(), nil
	}},
	{"lengths", "C14", wideCounts(300), func(n int) (string, string, map[string]string) {
		var s, w wb
		s.f("func main() {\n")
		for _, t := range []struct {
			name string
			max  int
		}{{"i8", 127}, {"u8", 255}, {"i16", 999}, {"u16", 999}, {"i32", 999}, {"u32", 999}, {"i64", 999}, {"u64", 999}} {
			if n > t.max {
				continue
			}
			s.f("  n%s := %d as %s;\n  p%s := @alloc(i64, n%s);\n  for i := 0; i < %d; i = i + 1 { p%s[i] = i as i64; }\n  @print(p%s[%d], p%s[0], \";\");\n  @free(p%s);\n",
				t.name, n, t.name, t.name, t.name, n, t.name, t.name, n-1, t.name, t.name)
			w.f("%d 0 ;", n-1)
		}
		s.f("}\n")
		return s.String(), w.String(), nil
	}},
}
