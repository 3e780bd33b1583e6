package main

import (
	"fmt"
	"sort"
	"strings"
)

// C30: functions of C that are declared with `extern` are called as they are
// declared, and `pub` functions are theirs to call.

func init() {
	register(&Family{
		ID:        "C30",
		Technique: "exhaustive enumeration of external functions, ways to pass arguments, to reach the function and to use the result against the C library's behaviour",
		Rule: "27 functions of the C library (integers, floats, strings, pointers) with every listed argument tuple: each with 10 ways to pass an argument x 12 ways to reach the function (name, variable, field, element, pointer, parameter, result, method, capture, module, before its declaration, redeclared) x 8 uses of the result for one tuple, and all tuples for the plain one; " +
			"printf, snprintf and sprintf with every list of at most 3 variadic arguments over 13 types (and lists of up to 9) reached in 6 ways; qsort, bsearch and atexit with callbacks in 5 forms over 5 element types and all permutations of at most 4 elements; " +
			"every order of import, extern and pub declarations of a function in two modules; all sets of 7 functions that the language uses by itself declared in 9 layouts of two modules; all argument lists of wrong number or types over 8 types for 9 signatures, and assignments between variables of 12 function types, are refused.",
		Note: "The C library is modelled (28 functions); samples of the executions are replayed in LLVM's own execution engine with the real library. Structs that are passed to C by value, declarations that contradict the C prototype, and inline assembly are not specified.",
		Gen:  func(x *Enum) { genExtern(x); genWide(x, "C30") },
	})
}

// an argument of an external function: its type and a literal of that type
type xa struct{ t, lit string }

type xfn struct {
	name, ret string
	ps        []string
	sets      [][]string // literals
	want      []string   // what @print shows for show(result)
	show      string     // %s is the result
}

func xlit(t, v string) string {
	switch t {
	case "i32", "*i8", "f32":
		return v
	}
	return v + " as " + t
}

func xdecl(f xfn) string {
	return "extern func " + f.name + "(" + strings.Join(f.ps, ", ") + ") " + f.ret + ";\n"
}

func xtype(f xfn) string { return "func(" + strings.Join(f.ps, ", ") + ") " + f.ret }

var xfns = []xfn{
	{"abs", "i32", []string{"i32"}, [][]string{{"-7"}, {"0"}, {"2147483647"}, {"-2147483647"}}, []string{"7", "0", "2147483647", "2147483647"}, "%s"},
	{"labs", "i64", []string{"i64"}, [][]string{{"-7"}, {"-5000000000"}, {"9000000000000000000"}}, []string{"7", "5000000000", "9000000000000000000"}, "%s"},
	{"toupper", "i32", []string{"i32"}, [][]string{{"97"}, {"65"}, {"49"}}, []string{"65", "65", "49"}, "%s"},
	{"tolower", "i32", []string{"i32"}, [][]string{{"97"}, {"65"}, {"49"}}, []string{"97", "97", "49"}, "%s"},
	{"atoi", "i32", []string{"*i8"}, [][]string{{`"42"`}, {`"-12x"`}, {`""`}}, []string{"42", "-12", "0"}, "%s"},
	{"atol", "i64", []string{"*i8"}, [][]string{{`"-6000000000"`}, {`" 7"`}}, []string{"-6000000000", "7"}, "%s"},
	{"strlen", "i64", []string{"*i8"}, [][]string{{`"abc"`}, {`""`}, {`"%d%s"`}}, []string{"3", "0", "4"}, "%s"},
	{"strnlen", "i64", []string{"*i8", "i64"}, [][]string{{`"abc"`, "2"}, {`"abc"`, "5"}}, []string{"2", "3"}, "%s"},
	{"strncmp", "i32", []string{"*i8", "*i8", "i64"}, [][]string{{`"abc"`, `"abd"`, "2"}, {`"abc"`, `"abc"`, "9"}}, []string{"0", "0"}, "%s"},
	{"strchr", "*i8", []string{"*i8", "i32"}, [][]string{{`"hello"`, "108"}, {`"hello"`, "104"}, {`"hello"`, "111"}}, []string{"llo", "hello", "o"}, "%s"},
	{"strrchr", "*i8", []string{"*i8", "i32"}, [][]string{{`"hello"`, "108"}, {`"hello"`, "104"}}, []string{"lo", "hello"}, "%s"},
	{"strstr", "*i8", []string{"*i8", "*i8"}, [][]string{{`"hello"`, `"ell"`}, {`"hello"`, `""`}}, []string{"ello", "hello"}, "%s"},
	{"memchr", "*i8", []string{"*i8", "i32", "i64"}, [][]string{{`"hello"`, "108", "5"}}, []string{"llo"}, "%s"},
	{"strdup", "*i8", []string{"*i8"}, [][]string{{`"copy"`}, {`""`}}, []string{"copy", ""}, "%s"},
	{"fabs", "f64", []string{"f64"}, [][]string{{"-2.5"}, {"2.25"}}, []string{"2.500", "2.250"}, "%s"},
	{"fabsf", "f32", []string{"f32"}, [][]string{{"-2.5"}, {"2.25"}}, []string{"2.500", "2.250"}, "%s"},
	{"sqrt", "f64", []string{"f64"}, [][]string{{"16.0"}, {"2.25"}}, []string{"4.000", "1.500"}, "%s"},
	{"sqrtf", "f32", []string{"f32"}, [][]string{{"16.0"}, {"2.25"}}, []string{"4.000", "1.500"}, "%s"},
	{"floor", "f64", []string{"f64"}, [][]string{{"-2.5"}, {"2.5"}}, []string{"-3.000", "2.000"}, "%s"},
	{"ceil", "f64", []string{"f64"}, [][]string{{"-2.5"}, {"2.5"}}, []string{"-2.000", "3.000"}, "%s"},
	{"pow", "f64", []string{"f64", "f64"}, [][]string{{"2.0", "5.0"}, {"5.0", "2.0"}}, []string{"32.000", "25.000"}, "%s"},
	{"fmod", "f64", []string{"f64", "f64"}, [][]string{{"7.5", "2.0"}, {"2.0", "7.5"}}, []string{"1.500", "2.000"}, "%s"},
	{"fmin", "f64", []string{"f64", "f64"}, [][]string{{"7.5", "2.0"}}, []string{"2.000"}, "%s"},
	{"fmaxf", "f32", []string{"f32", "f32"}, [][]string{{"7.5", "2.0"}, {"-1.5", "-0.5"}}, []string{"7.500", "-0.500"}, "%s"},
	{"ldexp", "f64", []string{"f64", "i32"}, [][]string{{"1.5", "4"}, {"1.5", "-1"}}, []string{"24.000", "0.750"}, "%s"},
	{"strtol", "i64", []string{"*i8", "**i8", "i32"}, [][]string{{`"77x"`, "0", "10"}}, []string{"77"}, "%s"},
	{"bsearch", "*i8", []string{"*i8", "*i8", "i64", "i64", "func(*i8, *i8) i32"}, [][]string{{`"c"`, `"abcd"`, "4", "1", "xcmp"}}, []string{"cd"}, "%s"},
}

// how the arguments are passed
var xpass = []string{"literal", "variable", "field", "element", "pointer", "result", "parameter", "capture", "block", "multi"}

// how the function is reached
var xreach = []string{"name", "variable", "field", "element", "pointer", "parameter", "result", "method", "capture", "module", "before", "redeclared"}

// how the result is used
var xuse = []string{"print", "declare", "return", "argument", "field", "element", "assign", "discard"}

// externProg is one call of f with the arguments lits, the way it says.
func externProg(f xfn, lits []string, want string, pass, reach, use string) Case {
	var top, before, body strings.Builder
	files := map[string]string{}
	decl := xdecl(f)
	if f.name == "bsearch" {
		top.WriteString("func xcmp(a *i8, b *i8) i32 { return (*a as i32) - (*b as i32); }\n")
	}
	var args []string
	var ps []string
	for i, l := range lits {
		t := f.ps[i]
		v := xlit(t, l)
		if strings.HasPrefix(t, "func") {
			v = l
		}
		switch pass {
		case "literal":
			args = append(args, v)
		case "variable", "capture":
			fmt.Fprintf(&body, "\ta%d : %s = %s;\n", i, t, v)
			args = append(args, k("a%d", i))
		case "field":
			args = append(args, k("s.f%d", i))
		case "element":
			fmt.Fprintf(&body, "\ta%d := [2]%s{%s, %s};\n", i, t, v, v)
			args = append(args, k("a%d[1]", i))
		case "pointer":
			fmt.Fprintf(&body, "\ta%d : %s = %s;\n\tp%d := &a%d;\n", i, t, v, i, i)
			args = append(args, k("*p%d", i))
		case "result":
			fmt.Fprintf(&top, "func g%d() %s { return %s; }\n", i, t, v)
			args = append(args, k("g%d()", i))
		case "parameter":
			ps = append(ps, k("a%d %s", i, t))
			args = append(args, k("a%d", i))
		case "block":
			args = append(args, k("(:%s { t%d : %s = %s; return t%d; })", t, i, t, v, i))
		case "multi":
			args = append(args, k("a%d", i))
		}
	}
	vals := func() []string {
		var r []string
		for i, l := range lits {
			if strings.HasPrefix(f.ps[i], "func") {
				r = append(r, l)
			} else {
				r = append(r, xlit(f.ps[i], l))
			}
		}
		return r
	}
	switch pass {
	case "field":
		top.WriteString("struct Args {\n")
		var ini []string
		for i, v := range vals() {
			fmt.Fprintf(&top, "\tf%d %s\n", i, f.ps[i])
			ini = append(ini, k("f%d: %s", i, v))
		}
		top.WriteString("}\n")
		fmt.Fprintf(&body, "\ts := @Args{%s};\n", strings.Join(ini, ", "))
	case "multi":
		if len(args) == 1 {
			fmt.Fprintf(&body, "\ta0, other := %s, 1;\n", vals()[0])
		} else {
			fmt.Fprintf(&body, "\t%s := %s;\n", strings.Join(args, ", "), strings.Join(vals(), ", "))
		}
	}
	ft := xtype(f)
	callee := f.name
	switch reach {
	case "variable":
		fmt.Fprintf(&body, "\th : %s = %s;\n", ft, f.name)
		callee = "h"
	case "field":
		fmt.Fprintf(&top, "struct Box {\n\tn i8\n\th %s\n}\n", ft)
		fmt.Fprintf(&body, "\tbox := @Box{n: 'c', h: %s};\n", f.name)
		callee = "box.h"
	case "element":
		fmt.Fprintf(&body, "\th := [2]%s{%s, %s};\n", ft, f.name, f.name)
		callee = "h[1]"
	case "pointer":
		fmt.Fprintf(&body, "\th0 : %s = %s;\n\th := &h0;\n", ft, f.name)
		callee = "(*h)"
	case "parameter":
		ps = append(ps, "h "+ft)
		callee = "h"
	case "result":
		fmt.Fprintf(&top, "func which() %s { return %s; }\n", ft, f.name)
		callee = "which()"
	case "capture":
		fmt.Fprintf(&body, "\th := %s;\n", f.name)
		callee = "h"
	case "module":
		files["lib.cd"] = decl + "func other() i32 { return 1; }\n"
		top.WriteString("import lib, \"./lib.cd\";\n")
		callee = "lib." + f.name
		decl = ""
	case "redeclared":
		files["lib.cd"] = decl + fmt.Sprintf("func same() %s { return %s; }\n", ft, f.name)
		top.WriteString("import lib, \"./lib.cd\";\n")
		decl = decl + decl
	}
	call := callee + "(" + strings.Join(args, ", ") + ")"
	if reach == "method" {
		a := args[0]
		if strings.HasPrefix(a, "*") || strings.Contains(a, " ") || strings.HasPrefix(a, "-") {
			a = "(" + a + ")"
		}
		call = a + "." + f.name + "(" + strings.Join(args[1:], ", ") + ")"
	}
	if pass == "capture" || reach == "capture" {
		// both the variables above and the function are captured
		fmt.Fprintf(&body, "\tinner := func() %s { return %s; };\n", f.ret, call)
		call = "inner()"
	}
	out := want
	switch use {
	case "print":
		fmt.Fprintf(&body, "\t@print(%s);\n", call)
	case "declare":
		fmt.Fprintf(&body, "\tr := %s;\n\t@print(r, \"end\");\n", call)
		out += " end"
	case "return":
		// the whole body is in a function of its own, see below
		fmt.Fprintf(&body, "\treturn %s;\n", call)
	case "argument":
		fmt.Fprintf(&top, "func show(x i8, r %s, y i64) { @print(x as i32, r, y); }\n", f.ret)
		fmt.Fprintf(&body, "\tshow(1 as i8, %s, 2 as i64);\n", call)
		out = "1 " + out + " 2"
	case "field":
		fmt.Fprintf(&top, "struct Res {\n\tx i8\n\tr %s\n\ty i64\n}\n", f.ret)
		fmt.Fprintf(&body, "\tres := @Res{x: 'a', r: %s, y: 2 as i64};\n\t@print(res.x as i32, res.r, res.y);\n", call)
		out = "97 " + out + " 2"
	case "element":
		fmt.Fprintf(&body, "\tres := [1]%s{%s};\n\t@print(res[0]);\n", f.ret, call)
	case "assign":
		fmt.Fprintf(&body, "\tr := %s;\n\tr = %s;\n\tpr := &r;\n\t*pr = %s;\n\t@print(r);\n", call, call, call)
	case "discard":
		fmt.Fprintf(&body, "\t%s;\n\t@print(\"done\");\n", call)
		out = "done"
	}
	ret := ""
	if use == "return" {
		ret = f.ret
	}
	var actual []string
	if pass == "parameter" {
		actual = append(actual, vals()...)
	}
	if reach == "parameter" {
		actual = append(actual, f.name)
	}
	work := fmt.Sprintf("func work(%s) %s {\n%s}\n", strings.Join(ps, ", "), ret, body.String())
	run := "work(" + strings.Join(actual, ", ") + ")"
	if use == "return" {
		run = "@print(" + run + ")"
	}
	mn := fmt.Sprintf("func main() {\n\t%s;\n}\n", run)
	src := before.String() + decl + top.String() + work + mn
	if reach == "before" {
		src = top.String() + work + mn + decl
	} else if strings.Contains(top.String(), "import ") {
		// imports come first
		src = top.String() + decl + work + mn
	}
	return Case{Kind: KRun, Src: src, Want: out, Files: files}
}

func genExtern(x *Enum) {
	for i := range xfns {
		f := xfns[i]
		if f.name == "strtol" {
			// a pointer that is null, and one that receives the end
			x.Case("strtol:end", func() Case {
				return Case{Kind: KRun, Src: xdecl(f) + "func main() {\n\tend : *i8 = \"\";\n\tn := strtol(\"77x\", &end, 10);\n\t@print(n, end);\n}\n", Want: "77 x"}
			})
			f.sets = [][]string{{`"77x"`, "0", "10"}}
		}
		for s := range f.sets {
			s := s
			x.Case(k("plain:%s:%d", f.name, s), func() Case {
				return externProg(f, f.sets[s], f.want[s], "literal", "name", "print")
			})
		}
		for pi, p := range xpass {
			for ri, r := range xreach {
				for ui, u := range xuse {
					p, r, u := p, r, u
					if r == "method" && (f.name == "fabsf" || p == "block") {
						// 1.5.f() is not an access
						continue
					}
					if !x.Thorough() && (pi+ri+ui+i)%4 != 0 && i >= 3 {
						continue
					}
					s := (pi + ri + ui) % len(f.sets)
					x.Case(k("call:%s:%s:%s:%s", f.name, p, r, u), func() Case {
						return externProg(f, f.sets[s], f.want[s], p, r, u)
					})
				}
			}
		}
	}
	genVariadic(x)
	genCallbacks(x)
	genPub(x)
	genExternShared(x)
	genExternReject(x)
}

type vty struct{ t, lit, conv, want string }

var vtys = []vty{
	{"i32", "-5", "%d", "-5"},
	{"i8", "-3 as i8", "%d", "-3"},
	{"f32", "1.5", "%.2f", "1.50"},
	{"*i8", `"str"`, "%s", "str"},
	{"i64", "-5000000000 as i64", "%ld", "-5000000000"},
	{"u8", "200 as u8", "%d", "200"},
	{"f64", "-2.25 as f64", "%.3f", "-2.250"},
	{"i16", "-300 as i16", "%d", "-300"},
	{"u16", "60000 as u16", "%d", "60000"},
	{"i1", "1 < 2", "%d", "1"},
	{"u32", "4000000000 as u32", "%u", "4000000000"},
	{"u64", "9000000000 as u64", "%lu", "9000000000"},
	{"*i32", "&cell", "%d", ""},
}

func genVariadic(x *Enum) {
	const pd = "extern func printf(*i8, ..) i32;\nextern func snprintf(*i8, i64, *i8, ..) i32;\nextern func sprintf(*i8, *i8, ..) i32;\nextern func calloc(i64, i64) *i8;\n"
	const vt = "func(*i8, ..) i32"
	prog := func(ts []vty, how string) Case {
		var f, w, a, body []string
		files := map[string]string{}
		for i, t := range ts {
			f = append(f, t.conv)
			w = append(w, t.want)
			v := t.lit
			if i%2 == 1 {
				body = append(body, k("\tv%d : %s = %s;\n", i, t.t, v))
				v = k("v%d", i)
			}
			a = append(a, v)
		}
		fs, ws := `"`+strings.Join(f, "|")+`;"`, strings.Join(w, "|")+";"
		list := func(first ...string) string { return "(" + strings.Join(append(first, a...), ", ") + ");\n" }
		top := pd
		b := strings.Join(body, "")
		n := k("%d", len(ws))
		switch how {
		case "name":
			b += "\tn := printf" + list(fs) + "\t@print(n);\n"
		case "variable":
			b += "\th : " + vt + " = printf;\n\tn := h" + list(fs) + "\t@print(n);\n"
		case "field":
			top += "struct Box {\n\th " + vt + "\n}\n"
			b += "\tbox := @Box{h: printf};\n\tn := box.h" + list(fs) + "\t@print(n);\n"
		case "method":
			b += "\tn := " + fs + ".printf" + list() + "\t@print(n);\n"
		case "module":
			files["lib.cd"] = pd
			top = "import lib, \"./lib.cd\";\n" + pd
			b += "\tn := lib.printf" + list(fs) + "\t@print(n);\n"
		case "snprintf":
			b += "\tbuf := calloc(200 as i64, 1 as i64);\n\tn := snprintf" + list("buf", "200 as i64", fs) + "\t@print(buf);\n\t@print(n);\n"
		case "sprintf":
			b += "\tbuf := calloc(200 as i64, 1 as i64);\n\tn := sprintf" + list("buf", fs) + "\t@print(buf);\n\t@print(n);\n"
		case "parameter":
			top += "func work(h " + vt + ") {\n" + b + "\tn := h" + list(fs) + "\t@print(n);\n}\n"
			b = "\twork(printf);\n"
		}
		return Case{Kind: KRun, Src: top + "func main() {\n" + b + "}\n", Want: ws + n, Files: files}
	}
	hows := []string{"name", "snprintf", "variable", "field", "method", "module", "parameter", "sprintf"}
	ts := vtys[:12]
	for _, h := range hows {
		h := h
		x.Case("variadic:none:"+h, func() Case { return prog(nil, h) })
		for _, a := range ts {
			a := a
			x.Case(k("variadic:%s:%s", h, a.t), func() Case { return prog([]vty{a}, h) })
			for _, b := range ts {
				b := b
				x.Case(k("variadic:%s:%s,%s", h, a.t, b.t), func() Case { return prog([]vty{a, b}, h) })
			}
		}
		for n := 4; n <= 9; n++ {
			for s := 0; s < 12; s++ {
				n, s := n, s
				x.Case(k("variadic:%s:%d arguments from %d", h, n, s), func() Case {
					var l []vty
					for i := 0; i < n; i++ {
						l = append(l, ts[(s+i*5)%12])
					}
					return prog(l, h)
				})
			}
		}
	}
	for i, a := range ts {
		for j, b := range ts {
			for _, c := range ts[:x.Pick(4, 12)] {
				a, b, c := a, b, c
				h := hows[(i+j)%2]
				x.Case(k("variadic:%s:%s,%s,%s", h, a.t, b.t, c.t), func() Case { return prog([]vty{a, b, c}, h) })
			}
		}
	}
}

func genCallbacks(x *Enum) {
	type el struct{ t, cmp string }
	els := []el{
		{"i32", "*a - *b"},
		{"i64", "(*a - *b) as i32"},
		{"i8", "(*a as i32) - (*b as i32)"},
		{"f64", "((*a - *b) * (10.0 as f64)) as i32"},
		{"Pair", "a.key - b.key"},
	}
	perms := func(n int) [][]int {
		var out [][]int
		var rec func(p []int, left []int)
		rec = func(p, left []int) {
			if len(left) == 0 {
				out = append(out, append([]int{}, p...))
				return
			}
			for i := range left {
				l := append(append([]int{}, left[:i]...), left[i+1:]...)
				rec(append(append([]int{}, p...), left[i]), l)
			}
		}
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, i*3-2)
		}
		rec(nil, l)
		return out
	}
	for _, e := range els {
		for _, form := range []string{"function", "lambda", "variable", "module", "public"} {
			for _, desc := range []bool{false, true} {
				for n := 1; n <= 4; n++ {
					for pi, p := range perms(n) {
						e, form, desc, p := e, form, desc, p
						if n == 4 && !x.Thorough() && form != "function" {
							continue
						}
						x.Case(k("qsort:%s:%s:%v:%d:%d", e.t, form, desc, n, pi), func() Case {
							files := map[string]string{}
							pre := k("extern func qsort(*%s, i64, i64, func(*%s, *%s) i32);\n", e.t, e.t, e.t)
							body := e.cmp
							if desc {
								body = "-(" + body + ")"
							}
							sig := k("(a *%s, b *%s) i32 { return %s; }", e.t, e.t, body)
							pair := "struct Pair {\n\ttag i8\n\tkey i32\n}\n"
							if e.t == "Pair" && form != "module" {
								pre = pair + pre
							}
							fn, in := "cmp", ""
							switch form {
							case "function":
								pre += "func cmp" + sig + "\n"
							case "public":
								pre += "pub func cmp" + sig + "\n"
							case "lambda":
								fn = "func" + sig
							case "variable":
								in = "\tcmp := func" + sig + ";\n"
							case "module":
								if e.t == "Pair" {
									files["lib.cd"] = pair + "func cmp" + sig + "\n"
									pre = strings.ReplaceAll("import lib, \"./lib.cd\";\n"+pre, "*Pair", "*lib.Pair")
								} else {
									files["lib.cd"] = "func cmp" + sig + "\n"
									pre = "import lib, \"./lib.cd\";\n" + pre
								}
								fn = "lib.cmp"
							}
							et := e.t
							if et == "Pair" && form == "module" {
								et = "lib.Pair"
							}
							var b strings.Builder
							fmt.Fprintf(&b, "\tlist : *%s = @alloc(%s, %d);\n", et, et, len(p))
							for i, v := range p {
								switch e.t {
								case "Pair":
									fmt.Fprintf(&b, "\tlist[%d].key = %d;\n\tlist[%d].tag = %d as i8;\n", i, v, i, v)
								case "f64":
									fmt.Fprintf(&b, "\tlist[%d] = (%d) as f64;\n", i, v)
								default:
									fmt.Fprintf(&b, "\tlist[%d] = (%d) as %s;\n", i, v, e.t)
								}
							}
							size := map[string]string{"i32": "4", "i64": "8", "i8": "1", "f64": "8", "Pair": "8"}[e.t]
							fmt.Fprintf(&b, "%s\tqsort(list, %d as i64, %s as i64, %s);\n", in, len(p), size, fn)
							s := append([]int{}, p...)
							sort.Ints(s)
							if desc {
								sort.Sort(sort.Reverse(sort.IntSlice(s)))
							}
							want := ""
							for i, v := range s {
								switch e.t {
								case "Pair":
									fmt.Fprintf(&b, "\t@print(list[%d].key, list[%d].tag as i32, \"\");\n", i, i)
									want += k("%d %d ", v, v)
								default:
									fmt.Fprintf(&b, "\t@print(list[%d] as i32, \"\");\n", i)
									want += k("%d ", v)
								}
							}
							return Case{Kind: KRun, Src: pre + "func main() {\n" + b.String() + "}\n", Want: want, Files: files}
						})
					}
				}
			}
		}
	}
	for n := 1; n <= 4; n++ {
		for m := 0; m < 1<<n; m++ {
			n, m := n, m
			x.Case(k("atexit:%d:%d", n, m), func() Case {
				var top, b strings.Builder
				want := "main "
				top.WriteString("extern func atexit(func()) i32;\n")
				for i := 0; i < n; i++ {
					if m>>i&1 == 0 {
						fmt.Fprintf(&top, "func f%d() { @print(\"f%d\", \"\"); }\n", i, i)
						fmt.Fprintf(&b, "\tatexit(f%d);\n", i)
					} else {
						fmt.Fprintf(&b, "\tl%d := func() { @print(\"f%d\", \"\"); };\n\tatexit(l%d);\n", i, i, i)
					}
				}
				for i := n - 1; i >= 0; i-- {
					want += k("f%d ", i)
				}
				return Case{Kind: KRun, Src: top.String() + "func main() {\n" + b.String() + "\t@print(\"main\", \"\");\n}\n", Want: want}
			})
		}
	}
	// what C gives back from a search is inside of the array
	for key := -1; key < 6; key++ {
		for n := 0; n <= 5; n++ {
			key, n := key, n
			x.Case(k("bsearch:%d:%d", key, n), func() Case {
				src := "extern func bsearch(*i64, *i64, i64, i64, func(*i64, *i64) i32) *i64;\nfunc cmp(a *i64, b *i64) i32 { return (*a - *b) as i32; }\nfunc main() {\n\tlist : *i64 = @alloc(i64, 6);\n\tfor i := 0; i < 6; i = i + 1 { list[i] = (i * 10) as i64; }\n" +
					k("\tkey := (%d) as i64;\n\tr := bsearch(&key, list, %d as i64, 8 as i64, cmp);\n", key*10, n) +
					"\tif (r as i64) == (0 as i64) { @print(\"none\"); } else { @print(*r, ((r as i64) - (list as i64)) / (8 as i64)); *r = 7 as i64; @print(\"\", list[(key / (10 as i64)) as i32]); }\n}\n"
				want := "none"
				if key >= 0 && key < n {
					want = k("%d %d 7", key*10, key)
				}
				return Case{Kind: KRun, Src: src, Want: want}
			})
		}
	}
}

// genPub: a `pub` function of a module is the function of that name for the
// external declarations of the others, in every order.
func genPub(x *Enum) {
	decls := map[string]string{
		"i": "import lib, \"./lib.cd\";\n",
		"e": "extern func scale(i32, i64) i64;\n",
		"m": "func main() {\n\tf := scale;\n\t@print(scale(3, 4 as i64), f(5, 6 as i64), lib.scale(1, 2 as i64), lib.twice(2));\n}\n",
		"f": "func other(x i32) i64 { return scale(x, 10 as i64); }\n",
		"E": "extern func scale(i32, i64) i64;\n",
	}
	libs := []string{
		"pub func scale(x i32, y i64) i64 { return (x as i64) * (100 as i64) + y; }\nfunc twice(x i32) i64 { return scale(x, 0 as i64) * (2 as i64); }\n",
		"func twice(x i32) i64 { return scale(x, 0 as i64) * (2 as i64); }\npub func scale(x i32, y i64) i64 { if x == 0 { return y; } return scale(x - 1, y + (100 as i64)); }\n",
		"func twice(x i32) i64 { f := scale; return f(x, 0 as i64) * (2 as i64); }\npub func scale(x i32, y i64) i64 { g := func() i64 { return (x as i64) * (100 as i64) + y; }; return g(); }\n",
		"import deep, \"./deep.cd\";\nextern func scale(i32, i64) i64;\nfunc twice(x i32) i64 { return deep.scale(x, 0 as i64) + scale(x, 0 as i64); }\n",
		"extern func scale(i32, i64) i64;\nimport deep, \"./deep.cd\";\nfunc twice(x i32) i64 { return scale(x, 0 as i64) + deep.scale(x, 0 as i64); }\n",
	}
	var rec func(p string, left string)
	var orders []string
	rec = func(p, left string) {
		if left == "" {
			orders = append(orders, p)
			return
		}
		for i := range left {
			rec(p+left[i:i+1], left[:i]+left[i+1:])
		}
	}
	rec("", "iemf")
	rec("", "iemE")
	for li := range libs {
		for _, o := range orders {
			li, o := li, o
			x.Case(k("pub:%d:%s", li, o), func() Case {
				src := ""
				for _, c := range o {
					src += decls[string(c)]
				}
				return Case{Kind: KRun, Src: src, Want: "304 506 102 400", Files: map[string]string{"lib.cd": libs[li],
					"deep.cd": "pub func scale(x i32, y i64) i64 { return (x as i64) * (100 as i64) + y; }\n"}}
			})
		}
	}
	// public functions of one module behave as others
	for _, t := range []string{"i8", "i16", "i32", "i64", "f32", "f64", "*i8", "Pt", "[3]i16"} {
		for _, form := range []string{"direct", "value", "method", "recursive"} {
			t, form := t, form
			x.Case(k("pub:own:%s:%s", t, form), func() Case {
				v := map[string]string{"*i8": `"s"`, "Pt": "@Pt{a: 'c', b: 7 as i64}", "[3]i16": "[3]i16{1 as i16, 2 as i16, 3 as i16}", "f32": "2.5"}[t]
				show := map[string]string{"Pt": "r.b", "[3]i16": "r[2]"}[t]
				want := map[string]string{"*i8": "s", "Pt": "7", "[3]i16": "3", "f32": "2.500", "f64": "9.000"}[t]
				if v == "" {
					v = "9 as " + t
				}
				if show == "" {
					show = "r"
				}
				if want == "" {
					want = "9"
				}
				src := "struct Pt {\n\ta i8\n\tb i64\n}\n" + k("pub func pick(n i32, x %s) %s { if n > 0 { return pick(n - 1, x); } y := x; return y; }\n", t, t)
				call := map[string]string{"direct": "pick(0, v)", "value": "f(0, v)", "method": "(0).pick(v)", "recursive": "pick(5, v)"}[form]
				return Case{Kind: KRun, Src: src + k("func main() {\n\tv := %s;\n\tf := pick;\n\tr := %s;\n\t@print(%s);\n}\n", v, call, show), Want: want}
			})
		}
	}
}

// genExternShared declares functions that the language uses by itself, too.
func genExternShared(x *Enum) {
	fns := []struct{ name, decl, use, want string }{
		{"malloc", "extern func malloc(i64) *i8;\n", "q1 := malloc(8 as i64) as *i32; q1[1] = 6; @print(q1[1], \"\");", "6 "},
		{"free", "extern func free(*i8);\n", "q2 := @alloc(i8, 3); q2[1] = 5 as i8; @print(q2[1], \"\"); free(q2);", "5 "},
		{"realloc", "extern func realloc(*i8, i64) *i8;\n", "q3 := @alloc(i8, 2); q3[1] = 4 as i8; q3 = realloc(q3, 9 as i64); q3[8] = 3 as i8; @print(q3[1], q3[8], \"\");", "4 3 "},
		{"printf", "extern func printf(*i8, ..) i32;\n", "printf(\"%d %s \", 7, \"e\");", "7 e "},
		{"memcpy", "extern func memcpy(*i8, *i8, i64) *i8;\n", "q4 := @alloc(i8, 4); r4 := memcpy(q4, \"xyz\", 4 as i64); @print(q4, r4, \"\");", "xyz xyz "},
		{"strlen", "extern func strlen(*i8) i64;\n", "@print(strlen(\"abc\"), \"\");", "3 "},
		{"strcmp", "extern func strcmp(*i8, *i8) i32;\n", "@print(strcmp(\"a\", \"b\") < 0, strcmp(\"a\", \"a\"), \"\");", "1 0 "},
	}
	const lang = "func lang() { p1 := @alloc(i32, 3); p1[2] = 5; p1 = @realloc(p1, 8); p1[7] = 2; s1 := \"ab\" + \"cd\"; t1 := s1 + s1; @print(p1[2], p1[7], s1, t1, s1 == \"abcd\", s1 == t1, \"\"); @free(p1); f1 := func() i32 { return p9; }; @print(f1(), \"\"); }\n"
	langWant := "5 2 abcd abcdabcd 1 0 9 "
	langSrc := strings.Replace(lang, "p1 := @alloc", "p9 := 9; p1 := @alloc", 1)
	for set := 0; set < 1<<len(fns); set++ {
		for layout := 0; layout < 9; layout++ {
			set, layout := set, layout
			x.Case(k("shared:%07b:%d", set, layout), func() Case {
				decls, ext, want := "", "func ext() { ", ""
				for i, f := range fns {
					if set>>i&1 == 1 {
						decls += f.decl
						ext += f.use + " "
						want += f.want
					}
				}
				ext += "}\n"
				if set == 0 {
					ext, want = "func ext() { @print(\" \"); }\n", " "
				}
				const imp = "import m, \"./m.cd\";\n"
				src, mod := "", ""
				calls := []string{"lang", "ext"}
				switch layout {
				case 0:
					src = decls + langSrc + ext
				case 1:
					src = langSrc + ext + decls
				case 2:
					src, mod, calls = imp+decls+ext, langSrc, []string{"m.lang", "ext"}
				case 3:
					src, mod, calls = decls+ext+imp, langSrc, []string{"ext", "m.lang"}
				case 4:
					src, mod, calls = imp+langSrc, decls+ext, []string{"lang", "m.ext"}
				case 5:
					src, mod, calls = langSrc+imp, ext+decls, []string{"m.ext", "lang"}
				case 6:
					src, mod, calls = imp+decls+ext+langSrc, decls+ext+langSrc, []string{"m.lang", "ext", "lang", "m.ext"}
				case 7:
					src, mod, calls = decls+imp+langSrc+ext, langSrc+ext+decls, []string{"ext", "m.lang", "m.ext", "lang"}
				case 8:
					src, mod, calls = "import l, \"./l.cd\";\n"+decls+ext, "", []string{"l.go", "ext"}
				}
				files := map[string]string{"m.cd": mod}
				if layout == 8 {
					files = map[string]string{"l.cd": imp + decls + "func go() { m.lang(); }\n", "m.cd": langSrc}
				}
				src += "func main() {"
				w := ""
				for _, c := range calls {
					src += " " + c + "();"
					if strings.HasSuffix(c, "ext") {
						w += want
					} else {
						w += langWant
					}
				}
				return Case{Kind: KRun, Src: src + " }\n", Files: files, Want: w}
			})
		}
	}
}

func genExternReject(x *Enum) {
	type sg struct {
		d    string
		fn   string
		ps   []string
		var_ bool
	}
	sigs := []sg{
		{"extern func abs(i32) i32;\n", "abs", []string{"i32"}, false},
		{"extern func labs(i64) i64;\n", "labs", []string{"i64"}, false},
		{"extern func strlen(*i8) i64;\n", "strlen", []string{"*i8"}, false},
		{"extern func fabs(f64) f64;\n", "fabs", []string{"f64"}, false},
		{"extern func fabsf(f32) f32;\n", "fabsf", []string{"f32"}, false},
		{"extern func strchr(*i8, i32) *i8;\n", "strchr", []string{"*i8", "i32"}, false},
		{"extern func ldexp(f64, i32) f64;\n", "ldexp", []string{"f64", "i32"}, false},
		{"extern func printf(*i8, ..) i32;\n", "printf", []string{"*i8"}, true},
		{"extern func dprintf(i32, *i8, ..) i32;\n", "dprintf", []string{"i32", "*i8"}, true},
	}
	lits := []struct{ t, v string }{{"i32", "1"}, {"i64", "1 as i64"}, {"*i8", `"s"`}, {"f64", "1.5 as f64"}, {"f32", "1.5"}, {"i8", "'c'"}, {"u32", "1 as u32"}, {"*i32", "&cell"}}
	for _, s := range sigs {
		for n := 0; n <= 3; n++ {
			var rec func(as, ts []string)
			rec = func(as, ts []string) {
				if len(as) == n {
					ok := n == len(s.ps) || s.var_ && n > len(s.ps)
					for i := 0; ok && i < len(s.ps); i++ {
						ok = ts[i] == s.ps[i]
					}
					if ok {
						return
					}
					s := s
					for _, form := range []string{"name", "variable"} {
						form := form
						x.Case(k("reject:%s:%s(%s)", form, s.fn, strings.Join(ts, ",")), func() Case {
							call := s.fn
							pre := ""
							if form == "variable" {
								pre = "\tf := " + s.fn + ";\n"
								call = "f"
							}
							return Case{Kind: KReject, Src: s.d + "func main() {\n\tcell := 1;\n" + pre + "\t" + call + "(" + strings.Join(as, ", ") + ");\n}\n"}
						})
					}
					return
				}
				for _, l := range lits {
					rec(append(append([]string{}, as...), l.v), append(append([]string{}, ts...), l.t))
				}
			}
			if n == 3 && !s.var_ {
				continue
			}
			rec(nil, nil)
		}
	}
	// function types
	fts := []string{"func(i32) i32", "func(i64) i64", "func(*i8) i64", "func(*i8) i32", "func(*i8, ..) i32", "func(*i8, ..)", "func(*i8, ..) i64", "func(f64) f64", "func(*i8, i32) *i8", "func(i32, *i8) *i8", "func()", "func(i32, *i8, ..) i32"}
	for i, a := range fts {
		for j, b := range fts {
			a, b, same := a, b, i == j
			ext := func(t, n string) string { return "extern func " + n + t[4:] + ";\n" }
			for _, form := range []string{"variable", "argument", "return", "element", "field", "assign"} {
				form := form
				x.Case(k("types:%s:%s <- %s", form, a, b), func() Case {
					src := ext(b, "puts") + ext(a, "abs")
					use := ""
					switch form {
					case "variable":
						use = k("\tf : %s = puts;\n", a)
					case "argument":
						src += k("func take(f %s) { }\n", a)
						use = "\ttake(puts);\n"
					case "return":
						src += k("func give() %s { return puts; }\n", a)
						use = "\tgive();\n"
					case "element":
						use = k("\tf := [2]%s{abs, puts};\n", a)
					case "field":
						src += k("struct S {\n\tf %s\n}\n", a)
						use = "\ts := @S{f: puts};\n"
					case "assign":
						use = "\tf := abs;\n\tf = puts;\n"
					}
					src += "func main() {\n" + use + "\t@print(1);\n}\n"
					if same {
						return Case{Kind: KRun, Src: src, Want: "1"}
					}
					return Case{Kind: KReject, Src: src}
				})
			}
		}
	}
	bad := map[string]string{
		"mutate":       "extern func abs(i32) i32;\nextern func atoi(*i8) i32;\nfunc main() { abs = abs; }\n",
		"void":         "extern func printf(*i8, ..) i32;\nfunc v() { }\nfunc main() { printf(\"a\", v()); }\n",
		"void extern":  "extern func printf(*i8, ..) i32;\nextern func exit(i32);\nfunc main() { printf(\"a\", 1, exit(1)); }\n",
		"void value":   "extern func exit(i32);\nfunc main() { x := exit(1); }\n",
		"print void":   "extern func exit(i32);\nfunc main() { @print(exit(1)); }\n",
		"unknown type": "extern func f(*Missing) i32;\nfunc main() { }\n",
		"unknown ret":  "extern func f(i32) *Missing;\nfunc main() { }\n",
		"not declared": "func main() { abs(1); }\n",
		"not a func":   "extern i32;\nfunc main() { }\n",
		"names":        "extern func abs(x i32) i32;\nfunc main() { }\n",
		"other module": "func main() { lib.abs(1); }\n",
		"defined":      "extern func abs(i32) i32;\nfunc abs(x i32) i32 { return x; }\nfunc main() { abs(1); }\n",
		"undeclared v": "extern func printf(*i8, ..) i32;\nfunc main() { printf(\"%d\", missing); }\n",
		"module value": "import lib, \"./lib.cd\";\nextern func printf(*i8, ..) i32;\nfunc main() { printf(\"%d\", lib); }\n",
	}
	var keys []string
	for n := range bad {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	for _, n := range keys {
		n := n
		x.Case("refused:"+n, func() Case {
			c := Case{Kind: KReject, Src: bad[n]}
			if n == "module value" {
				c.Files = map[string]string{"lib.cd": "func one() i32 { return 1; }\n"}
			}
			return c
		})
	}
}
