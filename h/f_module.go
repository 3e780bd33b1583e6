package main

import (
	"fmt"
	"regexp"
	"strings"
)

// C21: modules and generic modules.

func init() {
	register(&Family{
		ID:        "C21",
		Technique: "exhaustive enumeration of the partitions of programs into modules, of all import graphs of four modules and of all pairs of type arguments of generic modules, each decided by the output of the whole program",
		Rule: "Every partition of the declarations of 16 programs over the main file and 3 modules without an import cycle, in 4 layouts of directories and import names, with and without decoy declarations of the same names; all 512 import graphs of the main file and 3 modules in both import orders, cycles refused; " +
			"every pair of 19 type arguments of a generic module (values, state, methods, and the interchange of their types, refused unless the arguments are the same type), every pair of them for a module of two parameters, chains of generic modules; each of 47 wrong uses of a module in 4 places, 19 broken modules, and all placements of main functions; all orders of 6 declarations of a file that imports 2 modules, modules of 1 to 5 parameters with aliases, literals and functions of all of them, with the imports before the types that need them.",
		Note: "Members are reached through the name of the import in the file that imports them; what a module itself imports is not visible.",
		Gen:  func(x *Enum) { genModule(x); genWide(x, "C21") },
	})
}

type mdecl struct{ name, text, decoy string }

type mprog struct {
	name  string
	decls []mdecl
	main  string
	want  string
}

func moduleProgs() []mprog {
	return []mprog{
		{"struct", []mdecl{
			{"V", "struct V { x i32\n y i64 }\n", "struct V { x i8 }\n"},
			{"mk", "func mk(n i32) {V} { return @{V}{x: n, y: 10 as i64}; }\n", "func mk(n i32) i32 { return 0 - n; }\n"},
			{"sum", "func sum(v {V}) i64 { return (v.x as i64) + v.y; }\n", "func sum(v i8) i64 { return 99 as i64; }\n"},
			{"scale", "func scale(p *{V}, k i32) *{V} { p.x = p.x * k; p.y = p.y * (k as i64); return p; }\n", "func scale() {}\n"},
			{"twice", "func twice(v {V}) {V} { w := v; {scale}(&w, 2); return w; }\n", "func twice(a i32) i32 { return a; }\n"},
		}, "  v := {mk}(4); w : {V} = {twice}(v); z := @{V}{y: 1 as i64, x: 2}; p : *{V} = {scale}(&z, 5); a := [2]{V}{v, *p};\n  @print({sum}(v), {sum}(w), {sum}(z), p.x, a[1].y, @sizeof({V}), {sum}({twice}({mk}(1))), v);\n", "14 28 15 10 5 16 22 V"},
		{"nested", []mdecl{
			{"In", "struct In { a i8\n b i32 }\n", "struct In { b i32\n a i8 }\n"},
			{"Out", "struct Out { i {In}\n p *{In}\n arr [2]{In}\n c i8 }\n", "union Out { i i32 }\n"},
			{"mkin", "func mkin(n i32) {In} { return @{In}{a: (n + 1) as i8, b: n}; }\n", "func mkin() {}\n"},
			{"mkout", "func mkout(n i32) *{Out} { o := @alloc({Out}, 1); o.i = {mkin}(n); o.p = &o.arr[1]; o.arr[1] = {mkin}(n * 2); o.arr[0] = o.i; o.c = 3 as i8; return o; }\n", ""},
			{"tot", "func tot(o {Out}) i32 { return o.i.b + o.p.b + o.arr[0].b + (o.c as i32); }\n", "func tot(n i32) i32 { return n; }\n"},
		}, "  o := {mkout}(5); x : {In} = o.arr[1]; y := *o; o.p.b = 100; y.i = {mkin}(7);\n  @print({tot}(*o), {tot}(y), x.b, y.arr[1].b, o.i.a, @sizeof({Out}), @sizeof({In}));\n", "113 115 10 10 6 40 8"},
		{"union", []mdecl{
			{"U", "union U { n i32\n b [4]i8\n w i64 }\n", "union U { n i8 }\n"},
			{"H", "struct H { tag i32\n u {U} }\n", "struct H { u i32 }\n"},
			{"mk", "func mk(n i32) {H} { h := @alloc({H}, 1); h.tag = 1; h.u.w = 0 as i64; h.u.n = n; return *h; }\n", ""},
			{"low", "func low(u {U}) i8 { return u.b[0]; }\n", "func low(u i8) i8 { return u; }\n"},
			{"wide", "func wide(h *{H}, w i64) i32 { h.u.w = w; h.tag = 2; return h.u.n; }\n", ""},
		}, "  h := {mk}(258); g := h; n := {wide}(&g, 4294967299 as i64); u : {U} = 77;\n  @print({low}(h.u), h.u.n, n, g.tag, h.tag, {low}(u), g.u.b[0], @sizeof({U}), @sizeof({H}));\n", "2 258 3 2 1 77 3 8 16"},
		{"callback", []mdecl{
			{"Op", "struct Op { f func(i32) i32\n n i32 }\n", "struct Op { n i64 }\n"},
			{"inc", "func inc(n i32) i32 { return n + 1; }\n", "func inc(n i32) i32 { return n + 1000; }\n"},
			{"dbl", "func dbl(n i32) i32 { return {inc}(n) + n - 1; }\n", "func dbl(n i32) i32 { return n + 2000; }\n"},
			{"sel", "func sel(k i32) func(i32) i32 { if k == 0 { return {inc}; } return {dbl}; }\n", "func sel(k i32) i32 { return k; }\n"},
			{"ap", "func ap(o {Op}) i32 { return o.f(o.n); }\n", "func ap(o i32) i32 { return o; }\n"},
			{"thrice", "func thrice(f func(i32) i32, n i32) i32 { return f(f(f(n))); }\n", ""},
		}, "  f := {inc}; g := {sel}(1); o := @{Op}{f: {sel}(0), n: 20};\n  @print(f(1), g(5), {ap}(o), {thrice}({dbl}, 3), {thrice}({sel}(0), 3), o.f(9), {ap}(@{Op}{n: 2, f: g}), {thrice}(func(n i32) i32 { return {inc}(n) * 2; }, 1));\n", "2 10 21 24 6 10 4 22"},
		{"global", []mdecl{
			{"counter", "counter := 5;\n", "counter := 500;\n"},
			{"STEP", "const STEP := 3;\n", "const STEP := 333;\n"},
			{"name", "name := \"none\";\n", "name := 4;\n"},
			{"bump", "func bump() i32 { {counter} = {counter} + {STEP}; return {counter}; }\n", "func bump() i32 { return 0; }\n"},
			{"both", "func both(s *i8) (i32, *i8) { old := {name}; {name} = s; return {bump}(), old; }\n", "func both() {}\n"},
			{"addr", "func addr() *i32 { return &{counter}; }\n", "func addr(a i32) {}\n"},
		}, "  a := {bump}(); n, s := {both}(\"x\"); {counter} = {counter} * 10; b := {bump}(); *{addr}() = 7; m, t := {both}({name} + \"y\");\n  @print(a, n, s, b, m, t, {name}, {counter}, {STEP}, {addr}() == &{counter});\n", "8 11 none 113 10 x xy 10 3 1"},
		{"alias", []mdecl{
			{"S", "struct S { v i32 }\n", "struct S { w i32 }\n"},
			{"A", "type A = {S};\n", "type A = i8;\n"},
			{"PA", "type PA = *{A};\n", "type PA = i64;\n"},
			{"Cb", "type Cb = func({PA}) i32;\n", "type Cb = func(i32);\n"},
			{"f", "func f(a {A}) {S} { b : {S} = a; b.v = b.v + 1; return b; }\n", "func f(a {PA}) i32 { return 0; }\n"},
			{"g", "func g(p {PA}, cb {Cb}) i32 { p.v = p.v + 10; return cb(p); }\n", "func g() {}\n"},
		}, "  s := @{S}{v: 1}; a : {A} = {f}(s); p : {PA} = &a; c : {Cb} = func(q *{S}) i32 { return q.v * 2; };\n  @print(a.v, {g}(p, c), {g}(&s, c), a.v, s.v, {f}({f}(a)).v, @sizeof({A}));\n", "2 24 22 12 11 14 4"},
		{"lambda", []mdecl{
			{"Acc", "struct Acc { f func(i32) i32\n k i32 }\n", "struct Acc { k i8 }\n"},
			{"base", "base := 100;\n", "base := 1;\n"},
			{"adder", "func adder(k i32) func(i32) i32 { return func(n i32) i32 { return n + k + {base}; }; }\n", "func adder(k i32) i32 { return k; }\n"},
			{"mk", "func mk(k i32) {Acc} { j := k * 2; return @{Acc}{f: func(n i32) i32 { return {adder}(j)(n); }, k: k}; }\n", ""},
			{"run", "func run(a {Acc}) i32 { r := :i32 { t := a.f(a.k); return t; }; return r; }\n", "func run(a i32) i32 { return a; }\n"},
		}, "  a := {adder}(5); m := {mk}(4); x := a(1); {base} = 200;\n  @print(x, a(1), {run}(m), m.f(1), {run}(@{Acc}{f: {adder}(1), k: 2}));\n", "106 206 212 209 203"},
		{"list", []mdecl{
			{"Node", "struct Node { v i32\n next *{Node} }\n", "struct Node { next i32 }\n"},
			{"push", "func push(l *{Node}, v i32) *{Node} { n := @alloc({Node}, 1); n.v = v; n.next = l; return n; }\n", "func push(v i32) {}\n"},
			{"sum", "func sum(l *{Node}) i32 { if l == 0 as *{Node} { return 0; } return l.v + {sum}(l.next); }\n", "func sum(l i64) i32 { return 0; }\n"},
			{"rev", "func rev(l *{Node}) *{Node} { r := 0 as *{Node}; for l != 0 as *{Node} { r = {push}(r, l.v); l = l.next; } return r; }\n", ""},
			{"each", "func each(l *{Node}, f func(*{Node}) void) { for l != 0 as *{Node} { f(l); l = l.next; } }\n", "func each(a i32) {}\n"},
		}, "  l := 0 as *{Node}; for i := 1; i < 4; i = i + 1 { l = {push}(l, i); } r := {rev}(l);\n  {each}(r, func(n *{Node}) { n.v = n.v * 10; @print(n.v, \"\"); });\n  @print({sum}(l), {sum}(r), l.v, r.next.v);\n", "10 20 30 6 60 3 20"},
		{"recursion", []mdecl{
			{"mul", "func mul(a i32, b i32) i32 { r := 0; for i := 0; i < b; i = i + 1 { r = r + a; } return r; }\n", "func mul(a i32) i32 { return a; }\n"},
			{"fact", "func fact(n i32) i32 { if n < 2 { return 1; } return {mul}(n, {fact}(n - 1)); }\n", "func fact(n i8) i8 { return n; }\n"},
			{"gcd", "func gcd(a i32, b i32) i32 { if b == 0 { return a; } return {gcd}(b, a % b); }\n", "func gcd(a i32, b i32) i32 { return 1; }\n"},
			{"comb", "func comb(n i32, k i32) (i32, i32) { t := {fact}(n); u := {mul}({fact}(k), {fact}(n - k)); return t / u, {gcd}(t, u); }\n", "func comb() {}\n"},
			{"pw", "func pw(n i32, k i32) i32 { if k == 0 { return 1; } return {mul}(n, {pw}(n, k - 1)); }\n", ""},
		}, "  c, g := {comb}(5, 2); @print(c, g, {pw}(3, 4), {gcd}(84, 36), {fact}(6), {mul}({gcd}(4, 6), {pw}(2, 3)));\n", "10 12 81 12 720 16"},
		{"string", []mdecl{
			{"HELLO", "const HELLO := \"hello \";\n", "const HELLO := \"bad\";\n"},
			{"cat", "func cat(a *i8, b *i8) *i8 { return a + b; }\n", "func cat(a *i8) *i8 { return a; }\n"},
			{"greet", "func greet(s *i8) *i8 { return {cat}({HELLO}, s) + \"!\"; }\n", "func greet() {}\n"},
			{"len", "func len(s *i8) i32 { n := 0; for s[n] != 0 as i8 { n = n + 1; } return n; }\n", "func len(s *i8) i32 { return 0; }\n"},
			{"pick", "func pick(s *i8) i32 { if s == \"a\" { return 1; } if s == {HELLO} { return {len}(s); } return 0; }\n", "func pick(s i32) i32 { return s; }\n"},
		}, "  g := {greet}(\"you\"); @print(g, {len}(g), {pick}(\"a\"), {pick}({cat}(\"hel\", \"lo \")), {pick}(g), {cat}(g, {HELLO}) == {greet}(\"you\") + {HELLO}, {HELLO});\n", "hello you! 10 1 6 0 1 hello "},
		{"switch", []mdecl{
			{"LO", "const LO := 2;\n", "const LO := 20;\n"},
			{"HI", "const HI := {LO} * 3;\n", "const HI := 60;\n"},
			{"kind", "func kind(n i32) i32 { switch n { case {LO} { return 10; } case {HI} { return 20; } default { return 30; } } }\n", "func kind() {}\n"},
			{"scan", "func scan(a i32, b i32) (i32, i32) { lo := 0; hi := 0; for i := a; i < b; i = i + 1 { switch {kind}(i) { case 10 { lo = lo + i; } case 20 { hi = hi + i; continue; } default { if i > {HI} { break; } } } lo = lo + 100; } return lo, hi; }\n", ""},
			{"tot", "func tot(n i32) i32 { a, b := {scan}(0, n); a, b = b, a; return a * 1000 + b; }\n", "func tot(n i32) i32 { return n; }\n"},
		}, "  a, b := {scan}({LO}, {HI} + 1); @print(a, b, {tot}(9), {kind}({HI}), {kind}(6), {kind}(0), {LO}, {HI});\n", "402 6 6602 20 20 30 2 6"},
		{"methods", []mdecl{
			{"P", "struct P { x i32 }\nfunc add(p {P}, q {P}) {P} { return @{P}{x: p.x + q.x}; }\nfunc set(p *{P}, n i32) *{P} { p.x = n; return p; }\nfunc get(p {P}) i32 { return p.x; }\n", "struct P { y i32 }\nfunc add(p {P}, q {P}) i32 { return 0; }\n"},
			{"mk", "func mk(n i32) {P} { return @{P}{x: n}; }\n", "func mk(n i32) i32 { return n; }\n"},
			{"fold", "func fold(a *{P}, n i32) {P} { {=P}r := {mk}(0); for i := 0; i < n; i = i + 1 { r = r.add(a[i]); } return r; }\n", ""},
			{"Q", "struct Q { p {P}\n n i32 }\nfunc get(q {Q}) i32 { {=P}return q.p.get() * q.n; }\n", "struct Q { z i32 }\nfunc get(q {Q}) i32 { return 7; }\n"},
			{"mq", "func mq(p {P}) {Q} { return @{Q}{p: p, n: 3}; }\n", ""},
		}, "  {=P}{=Q}a := [3]{P}{{mk}(1), {mk}(2), {mk}(3)}; t := {fold}(&a as *{P}, 3); u := (&t).set(50); q := {mq}({mk}(4).add(*u));\n  @print(t.get(), u.x, q.get(), q.p.get(), t.add(t).add({mk}(1)).get(), {fold}(&a as *{P}, 2).get());\n", "50 50 162 54 101 3"},
		{"arrays", []mdecl{
			{"Row", "type Row = [3]i32;\n", "type Row = [2]i8;\n"},
			{"M", "struct M { rows [2]{Row}\n n i32 }\n", "struct M { rows i32 }\n"},
			{"unit", "func unit(k i32) {Row} { return [3]i32{k, k + 1, k + 2}; }\n", "func unit() {}\n"},
			{"mk", "func mk() {M} { return @{M}{rows: [2]{Row}{{unit}(1), {unit}(4)}, n: 2}; }\n", ""},
			{"dot", "func dot(a {Row}, b {Row}) i32 { s := 0; for i := 0; i < 3; i = i + 1 { s = s + a[i] * b[i]; } a[0] = 99; return s; }\n", "func dot(a i32) i32 { return a; }\n"},
			{"tr", "func tr(m *{M}) { t := m.rows[0]; m.rows[0] = m.rows[1]; m.rows[1] = t; }\n", "func tr() {}\n"},
		}, "  m := {mk}(); c := m; {tr}(&m); r : {Row} = {unit}(1);\n  @print({dot}(m.rows[0], m.rows[1]), m.rows[0][0], c.rows[0][0], {dot}(r, c.rows[1]), r[0], @sizeof({M}), {mk}().rows[1][2]);\n", "32 4 1 32 1 28 6"},
		{"extern", []mdecl{
			{"say", "extern func puts(*i8) i32;\nfunc say(s *i8) *i8 { return s; }\n", "extern func puts(*i8) i32;\n"},
			{"mem", "extern func strlen(*i8) i64;\nfunc mem(s *i8) i64 { return strlen(s); }\n", "extern func strlen(*i8) i64;\nfunc mem(s i32) i32 { return s; }\n"},
			{"two", "func two(s *i8) i64 { return {mem}({say}(s)) * (2 as i64); }\n", "func two() {}\n"},
			{"three", "func three(s *i8) i64 { return {two}(s) + {mem}(s); }\n", ""},
		}, "  @print({two}(\"abc\"), {three}(\"xy\"), {say}(\"z\"), {mem}(\"\"));\n", "6 6 z 0"},
		{"signs", []mdecl{
			{"B", "type B = u8;\n", "type B = i8;\n"},
			{"top", "func top() {B} { return 200 as {B}; }\n", "func top() {B} { return 100 as {B}; }\n"},
			{"BIG", "const BIG := 200 as u8;\n", "const BIG := 1 as i8;\n"},
			{"half", "func half(b {B}) {B} { return b / (2 as {B}); }\n", "func half(b i8) i8 { return b; }\n"},
			{"S", "struct S { b {B}\n w u64\n s i8 }\n", "struct S { b i8 }\n"},
			{"mk", "func mk(b {B}) {S} { return @{S}{b: b, w: 0 as u64 - 1 as u64, s: b as i8}; }\n", "func mk() {}\n"},
			{"gv", "gv := 250 as u8;\n", "gv := 1 as i8;\n"},
		}, "  s := {mk}({top}()); @print({top}(), {half}({top}()), s.b, s.w, s.s, {BIG}, {half}({BIG}), {half}({gv}) > {half}({BIG}), s.b > 100 as u8, {top}() as i32, {gv});\n", "200 100 200 18446744073709551615 -56 200 100 1 1 200 250"},
		{"multi", []mdecl{
			{"dm", "func dm(a i32, b i32) (i32, i32) { return a / b, a % b; }\n", "func dm(a i32, b i32) (i32, i32) { return b, a; }\n"},
			{"R", "struct R { q i32\n r i32 }\n", "struct R { r i32\n q i32 }\n"},
			{"pack", "func pack(a i32, b i32) ({R}, *i8, i64) { q, r := {dm}(a, b); return @{R}{q: q, r: r}, \"ok\", 9 as i64; }\n", "func pack() {}\n"},
			{"fwd", "func fwd(n i32) ({R}, *i8, i64) { return {pack}(n, 7); }\n", "func fwd(n i32) i32 { return n; }\n"},
			{"un", "func un(r {R}) (i32, i32) { return r.r, r.q; }\n", ""},
		}, "  r, s, n := {fwd}(38); a, b := {un}(r); a, b = {dm}(b * 10, a + 1); r, s, n = {pack}(9, 2);\n  @print(r.q, r.r, s, n, a, b);\n", "4 1 ok 9 12 2"},
	}
}

var moduleRef = regexp.MustCompile(`\{(=?)([A-Za-z]\w*)\}`)

// moduleProg lays a program out over modules: at[i] is the module of the i-th
// declaration, 0 the main file.  It returns false when the imports are cyclic.
func moduleProg(p mprog, at []int, layout int, decoys bool) (string, map[string]string, bool) {
	n := 1
	owner := map[string]int{}
	for i, d := range p.decls {
		owner[d.name] = at[i]
		if at[i]+1 > n {
			n = at[i] + 1
		}
	}
	deps := make([][]int, n) // in order of appearance
	body := make([]string, n)
	need := func(m, o int) {
		if m == o {
			return
		}
		for _, q := range deps[m] {
			if q == o {
				return
			}
		}
		deps[m] = append(deps[m], o)
	}
	scan := func(m int, text string) {
		for _, r := range moduleRef.FindAllStringSubmatch(text, -1) {
			if o, ok := owner[r[2]]; ok {
				need(m, o)
			}
		}
	}
	for i, d := range p.decls {
		scan(at[i], d.text)
	}
	scan(0, p.main)
	// two methods of one name are in different modules
	if p.name == "methods" && owner["P"] == owner["Q"] {
		return "", nil, false
	}
	// cycles
	state := make([]int, n)
	var cyclic func(m int) bool
	cyclic = func(m int) bool {
		if state[m] == 1 {
			return true
		}
		if state[m] == 2 {
			return false
		}
		state[m] = 1
		for _, o := range deps[m] {
			if cyclic(o) {
				return true
			}
		}
		state[m] = 2
		return false
	}
	for m := 0; m < n; m++ {
		if cyclic(m) {
			return "", nil, false
		}
	}
	file := func(m int) string {
		switch layout {
		case 1:
			return k("d%d/m.cd", m)
		case 2:
			return strings.Repeat("s/", m) + k("m%d.cd", m)
		}
		return k("m%d.cd", m)
	}
	path := func(from, to int) string {
		up := ""
		if from > 0 {
			up = strings.Repeat("../", strings.Count(file(from), "/"))
		}
		if up == "" {
			up = "./"
		}
		return up + file(to)
	}
	imp := func(from, to int) string {
		switch layout {
		case 0:
			return k("m%d", to)
		case 1: // the same few names mean something else in each file
			for i, o := range deps[from] {
				if o == to {
					return k("i%d", i)
				}
			}
		case 2:
			return k("from%dto%d", from, to)
		}
		// names of declarations
		return p.decls[(from+to)%len(p.decls)].name + "_"
	}
	subst := func(m int, text string, decoy bool) string {
		return moduleRef.ReplaceAllStringFunc(text, func(s string) string {
			r := moduleRef.FindStringSubmatch(s)
			o, ok := owner[r[2]]
			if r[1] == "=" {
				return ""
			}
			if !ok {
				return s
			}
			if o == m || decoy {
				return r[2]
			}
			return imp(m, o) + "." + r[2]
		})
	}
	// decoys first, so that constants stand in front of what follows
	for m := 0; m < n; m++ {
		if !decoys {
			break
		}
		names := map[string]bool{}
		for _, d := range p.decls {
			if owner[d.name] == m {
				names[d.name] = true
			}
		}
		for _, d := range p.decls {
			ok := owner[d.name] != m && d.decoy != ""
			for _, r := range moduleRef.FindAllStringSubmatch(d.decoy, -1) {
				if names[r[2]] {
					ok = false
				}
			}
			if strings.Contains(d.decoy, "get(") && (names["P"] || names["Q"]) || strings.Contains(d.decoy, "add(") && names["P"] {
				ok = false
			}
			if ok {
				body[m] += subst(m, d.decoy, true)
			}
		}
	}
	for i, d := range p.decls {
		body[at[i]] += subst(at[i], d.text, false)
	}
	body[0] += "func main() {\n" + subst(0, p.main, false) + "}\n"
	files := map[string]string{}
	var src string
	for m := 0; m < n; m++ {
		h := ""
		for i := range deps[m] {
			o := deps[m][i]
			if layout == 3 {
				o = deps[m][len(deps[m])-1-i]
			}
			h += fmt.Sprintf("import %s, %q;\n", imp(m, o), path(m, o))
		}
		if m == 0 {
			src = h + body[0]
		} else {
			files[file(m)] = h + body[m]
		}
	}
	return src, files, true
}

func genModule(x *Enum) {
	mods := 3
	for _, p := range moduleProgs() {
		n := len(p.decls)
		at := make([]int, n)
		count := 0
		var rec func(i, used int)
		rec = func(i, used int) {
			if i < n {
				for m := 0; m <= used+1 && m <= mods; m++ {
					at[i] = m
					u := used
					if m > u {
						u = m
					}
					rec(i+1, u)
				}
				return
			}
			if _, _, ok := moduleProg(p, at, 0, false); !ok {
				return
			}
			a := append([]int{}, at...)
			for layout := 0; layout < 4; layout++ {
				for _, decoys := range []bool{false, true} {
					count++
					if !x.Thorough() && (layout*2+k2(decoys)+count/8)%4 != 0 {
						continue
					}
					x.Case(k("split:%s:%v:%d:%v", p.name, a, layout, decoys), func() Case {
						src, files, _ := moduleProg(p, a, layout, decoys)
						return Case{Kind: KRun, Src: src, Files: files, Want: p.want}
					})
				}
			}
		}
		rec(0, 0)
	}
	genImportGraphs(x)
	genImportPlaces(x)
	genGenericModules(x)
	genGenericMany(x)
	genModuleMethods(x)
	genModuleErrors(x)
}

// genImportPlaces: imports may stand anywhere among the declarations that use them.
func genImportPlaces(x *Enum) {
	decls := []string{
		"import a, \"./a.cd\";\n",
		"import g, i64, \"./g.cd\";\n",
		"struct W {\n\tp a.P\n\tq g.Box\n\tr *W\n}\n",
		"type AP = a.P;\n",
		"func use(w W, p AP) i32 { return a.sum(w.p) + p.x + (g.get(w.q) as i32); }\n",
		"func main() {\n\tw := @W{p: @a.P{x: 1, y: 2}, q: g.mk(40 as i64), r: 0 as *W};\n\tw.r = &w;\n\t@print(use(w, a.two()), w.r.p.y, w.p.sum(), g.get(g.mk(7 as i64)));\n}\n",
	}
	files := map[string]string{
		"g.cd": "type T\nstruct Box {\n\tv T\n}\nfunc mk(v T) Box { return @Box{v: v}; }\nfunc get(b Box) T { return b.v; }\n",
	}
	files["a.cd"] = "func sum(p P) i32 { return p.x + p.y + bonus(); }\nimport b, \"./b.cd\";\nfunc two() P { return @P{x: b.n(), y: 0}; }\nstruct P {\n\tx i32\n\ty i32\n}\nfunc bonus() i32 { return b.n() - 5; }\n"
	files["b.cd"] = "func n() i32 { return 5; }\n"
	var rec func(o []int, left []int)
	rec = func(o, left []int) {
		if len(left) == 0 {
			o := append([]int{}, o...)
			var at [6]int
			for i, d := range o {
				at[d] = i
			}
			if at[0] > at[2] || at[1] > at[2] || at[0] > at[3] {
				// types are declared after the imports they need
				return
			}
			x.Case(k("place:%v", o), func() Case {
				src := ""
				for _, i := range o {
					src += decls[i]
				}
				return Case{Kind: KRun, Src: src, Files: files, Want: "48 2 3 7"}
			})
			return
		}
		for i := range left {
			rec(append(append([]int{}, o...), left[i]), append(append([]int{}, left[:i]...), left[i+1:]...))
		}
	}
	rec(nil, []int{0, 1, 2, 3, 4, 5})
}

func k2(b bool) int {
	if b {
		return 1
	}
	return 0
}

func genImportGraphs(x *Enum) {
	for g := 0; g < 512; g++ {
		// bits 0-2: main imports 1-3; bits 3-8: the others import one another
		var dep [4][4]bool
		bit := 0
		for i := 0; i < 4; i++ {
			for j := 1; j < 4; j++ {
				if i != j {
					dep[i][j] = g>>bit&1 == 1
					bit++
				}
			}
		}
		for variant := 0; variant < 4; variant++ {
			rev, self := variant&1 == 1, variant&2 == 2
			if self && !dep[0][1] {
				continue
			}
			d := dep
			d[1][1] = self
			x.Case(k("graph:%d:%d", g, variant), func() Case { return importGraph(d, rev) })
		}
	}
}

func importGraph(dep [4][4]bool, rev bool) Case {
	cyclic := false
	state := [4]int{}
	var visit func(i int)
	visit = func(i int) {
		state[i] = 1
		for j := 1; j < 4; j++ {
			if !dep[i][j] {
				continue
			}
			if state[j] == 1 {
				cyclic = true
			}
			if state[j] == 0 {
				visit(j)
			}
		}
		state[i] = 2
	}
	visit(0)
	text := func(i int) string {
		h, calls, sums := "", "", ""
		for jj := 1; jj < 4; jj++ {
			j := jj
			if rev {
				j = 4 - jj
			}
			if dep[i][j] {
				h += k("import m%d, \"./m%d.cd\";\n", j, j)
			}
		}
		for j := 1; j < 4; j++ {
			if dep[i][j] {
				calls += k(" + m%d.f()", j)
				sums += k(", m%d.hits, m%d.S", j, j)
			}
		}
		if i == 0 {
			return h + "func main() {\n  @print(0" + calls + sums + ");\n}\n"
		}
		return h + k("hits := 0;\nconst S := %d;\nfunc f() i32 { hits = hits + 1; return hits * %d%s; }\n", i*11, []int{0, 1, 100, 10000}[i], calls)
	}
	files := map[string]string{}
	for i := 1; i < 4; i++ {
		files[k("m%d.cd", i)] = text(i)
	}
	if cyclic {
		return Case{Kind: KReject, Src: text(0), Files: files}
	}
	hits := [4]int{}
	var f func(i int) int
	f = func(i int) int {
		hits[i]++
		v := hits[i] * []int{0, 1, 100, 10000}[i]
		for j := 1; j < 4; j++ {
			if dep[i][j] {
				v += f(j)
			}
		}
		return v
	}
	v := f(0)
	want := fmt.Sprint(v)
	for j := 1; j < 4; j++ {
		if dep[0][j] {
			want += k(" %d %d", hits[j], j*11)
		}
	}
	return Case{Kind: KRun, Src: text(0), Files: files, Want: want}
}

const genericMod = `type T
struct Box { v T
  n i32 }
count := 0;
func mk(v T) Box { count = count + 1; return @Box{v: v, n: count}; }
func get(b Box) T { return b.v; }
func set(b *Box, v T) { b.v = v; }
func swap(a *Box, b *Box) { t := a.v; a.v = b.v; b.v = t; }
func map(b Box, f func(T) T) Box { return mk(f(b.v)); }
func arr(a T, b T) [2]T { return [2]T{a, b}; }
func heap(v T) *T { p := @alloc(T, 2); p[1] = v; return &p[1]; }
func size() i32 { return @sizeof(T) as i32; }
func pick(a T, b T, c i32) T { if c == 1 { return a; } return b; }
func lam(v T) func() T { return func() T { return v; }; }
func blk(v T) T { r := :T { w := v; return w; }; return r; }
func two(v T) (T, i32) { return v, count; }
`

const genericPair = `type A
type B
struct Pair { a A
  b B }
made := 0;
func mk(a A, b B) Pair { made = made + 1; return @Pair{a: a, b: b}; }
func fst(p Pair) A { return p.a; }
func snd(p Pair) B { return p.b; }
func app(f func(A) B, p Pair) Pair { return mk(p.a, f(p.a)); }
func sizes() (i32, i32) { return @sizeof(A) as i32, @sizeof(B) as i32; }
`

// Modules that use the generic module with a type made of their own parameter.
var genericWraps = map[string]string{
	"T":     "type T\nimport b, T, \"./gm.cd\";\nstruct W { b b.Box }\nfunc mk(v T) W { return @W{b: b.mk(v)}; }\nfunc un(w W) T { return b.get(w.b); }\nfunc box(v T) b.Box { return b.mk(v); }\nfunc cnt() i32 { return b.count; }\n",
	"*T":    "type T\nimport b, *T, \"./gm.cd\";\nstruct W { b b.Box }\nfunc mk(v T) W { p := @alloc(T, 1); p[0] = v; return @W{b: b.mk(p)}; }\nfunc un(w W) T { return *b.get(w.b); }\nfunc box(v *T) b.Box { return b.mk(v); }\nfunc cnt() i32 { return b.count; }\n",
	"[2]T":  "type T\nimport b, [2]T, \"./gm.cd\";\nstruct W { b b.Box }\nfunc mk(v T) W { return @W{b: b.mk([2]T{v, v})}; }\nfunc un(w W) T { return w.b.v[1]; }\nfunc box(v [2]T) b.Box { return b.mk(v); }\nfunc cnt() i32 { return b.count; }\n",
	"own":   "type T\nstruct Own { v T }\nimport b, Own, \"./gm.cd\";\nstruct W { b b.Box }\nfunc mk(v T) W { return @W{b: b.mk(@Own{v: v})}; }\nfunc un(w W) T { return b.get(w.b).v; }\nfunc box(v T) b.Box { return b.mk(@Own{v: v}); }\nfunc cnt() i32 { return b.count; }\n",
	"boxed": "type T\nimport c, T, \"./gm.cd\";\nimport b, c.Box, \"./gm.cd\";\nstruct W { b b.Box }\nfunc mk(v T) W { return @W{b: b.mk(c.mk(v))}; }\nfunc un(w W) T { return c.get(b.get(w.b)); }\nfunc box(v T) b.Box { return b.mk(c.mk(v)); }\nfunc cnt() i32 { return b.count; }\n",
}

var genericWrapNames = []string{"T", "*T", "[2]T", "own", "boxed"}

type garg struct {
	text   string // the type
	same   string // two arguments of the same text are the same type
	v1, v2 string
	see    func(e string) string
	s1, s2 string
	size   int
}

func gargs() []garg {
	plain := func(e string) string { return e }
	suffix := func(s string) func(e string) string { return func(e string) string { return e + s } }
	return []garg{
		{"i32", "i32", "7", "8", plain, "7", "8", 4},
		{"i8", "i8", "-7 as i8", "'b'", plain, "-7", "98", 1},
		{"u8", "u8", "200 as u8", "9 as u8", plain, "200", "9", 1},
		{"i64", "i64", "5000000000", "-1 as i64", plain, "5000000000", "-1", 8},
		{"u64", "u64", "7 as u64", "0 as u64 - 1 as u64", plain, "7", "18446744073709551615", 8},
		{"f32", "f32", "1.5", "2.25", plain, "1.500", "2.250", 4},
		{"f64", "f64", "1.5 as f64", "2.25 as f64", plain, "1.500", "2.250", 8},
		{"*i8", "*i8", `"ab"`, `"c" + "d"`, plain, "ab", "cd", 8},
		{"S", "S", "s1", "@S{a: 5 as i8, b: 6 as i64}", suffix(".b"), "4", "6", 16},
		{"o.S", "o.S", "o.mk(11)", "o2", suffix(".z"), "11", "12", 4},
		{"*S", "*S", "&s1", "&s2", suffix(".b"), "4", "8", 8},
		{"*o.S", "*o.S", "&o1", "&o2", suffix(".z"), "13", "12", 8},
		{"U", "U", "u1", "u2", suffix(".w"), "3", "4", 8},
		{"[2]i32", "[2]i32", "[2]i32{1, 2}", "[2]i32{3, 4}", suffix("[1]"), "2", "4", 8},
		{"[3]i32", "[3]i32", "[3]i32{1, 5, 2}", "[3]i32{3, 6, 4}", suffix("[1]"), "5", "6", 12},
		{"[2]o.S", "[2]o.S", "[2]o.S{o1, o1}", "[2]o.S{o1, o2}", suffix("[1].z"), "13", "12", 8},
		{"func(i32) i64", "func(i32) i64", "long", "long", suffix("(20)"), "40", "40", 8},
		{"func(i32) i32", "func(i32) i32", "inc", "dec", suffix("(20)"), "21", "19", 8},
		{"func(*i8) i32", "func(*i8) i32", "first", "first", suffix("(\"7\")"), "55", "55", 8},
		{"func(*i8, ..) i32", "func(*i8, ..) i32", "printf", "printf", suffix("(\"\")"), "0", "0", 8},
		{"func(S) i32", "func(S) i32", "fs", "fs", suffix("(s1)"), "4", "4", 8},
		{"func(o.S) i32", "func(o.S) i32", "fo", "o.val", suffix("(o1)"), "1013", "13", 8},
		{"Num", "i32", "7", "8", plain, "7", "8", 4},
		{"AS", "S", "s1", "s2", suffix(".b"), "4", "8", 16},
		{"o.A", "o.S", "o1", "o2", suffix(".z"), "13", "12", 4},
		{"o.N", "i64", "70 as i64", "80 as i64", plain, "70", "80", 8},
		{"k.Box", "k.Box", "k.mk(4 as i16)", "kb", suffix(".v"), "4", "6", 8},
		{"k2.Box", "k.Box", "k2.mk(5 as i16)", "kb", suffix(".v"), "5", "6", 8},
	}
}

const genericHead = `import o, "./o.cd";
struct S { a i8
  b i64 }
union U { n i32
  w i64 }
type Num = i32;
type AS = S;
import k, i16, "./gm.cd";
import k2, o.Short, "./gm.cd";
extern func printf(*i8, ..) i32;
func first(s *i8) i32 { return s[0] as i32; }
func long(n i32) i64 { return 2 as i64 * n as i64; }
func inc(n i32) i32 { return n + 1; }
func dec(n i32) i32 { return n - 1; }
func fs(s S) i32 { return s.b as i32; }
func fo(s o.S) i32 { return s.z + 1000; }
`

const genericOther = `struct S { z i32 }
type A = S;
type N = i64;
type Short = i16;
func mk(n i32) S { return @S{z: n}; }
func val(s S) i32 { return s.z; }
`

const genericLocals = `  s1 := @S{a: 3 as i8, b: 4 as i64}; s2 := @S{a: 7 as i8, b: 8 as i64}; o1 := o.mk(13); o2 := o.mk(12);
  u1 := :U { u := @alloc(U, 1); u.w = 3 as i64; return *u; }; u2 := :U { u := @alloc(U, 1); u.w = 4 as i64; return *u; }; kb := k.mk(6 as i16);
`

// genModuleMethods: a method is the function of that name whose first parameter has the type of the value, whichever of
// the imported modules it is in, in whatever order they are imported and whichever of them imports the others.
func genModuleMethods(x *Enum) {
	types := []string{"i32", "i64", "i16", "i8"}
	modText := func(i int, imports string) string {
		t := types[i]
		s := imports + "struct S { v i32 }\n"
		s += "func mk(n i32) S { return @S{v: n}; }\n"
		s += k("func get(s S) i32 { return s.v + %d; }\n", 100*(i+1))
		s += k("func inc(n %s) %s { return n + %d as %s; }\n", t, t, i+1, t)
		s += k("func add(s *S, n i32) i32 { s.v = s.v + n * %d; return s.v; }\n", i+1)
		s += "func none() i32 { return 5; }\n"
		return s
	}
	// what the modules import: nothing, the ones after them, all of the same
	graphs := [][3]string{
		{"", "", ""}, {"", "", "import q, \"./u0.cd\";\n"}, {"import q, \"./u2.cd\";\nimport r, \"./u1.cd\";\n", "", ""}, {"", "import q, \"./u0.cd\";\n", "import q, \"./u1.cd\";\nimport r, \"./u0.cd\";\n"},
		{"import q, \"./u1.cd\";\n", "import q, \"./u2.cd\";\n", ""},
	}
	perms := [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for gi, g := range graphs {
		files := map[string]string{}
		for i := 0; i < 3; i++ {
			use := ""
			for j := 0; j < 3; j++ {
				for _, n := range []string{"q", "r"} {
					if strings.Contains(g[i], k("import %s, \"./u%d.cd\"", n, j)) {
						use += k(" + %s.mk(n).get() + (3 as %s).inc() as i32", n, types[j])
					}
				}
			}
			files[k("u%d.cd", i)] = modText(i, g[i]) + "func use(n i32) i32 { return mk(n).get() + (3 as " + types[i] + ").inc() as i32" + use + "; }\n"
		}
		used := func(i, n int) int {
			one := func(j int) int { return n + 100*(j+1) + 3 + j + 1 }
			r := one(i)
			for j := 0; j < 3; j++ {
				if strings.Contains(g[i], k("./u%d.cd", j)) {
					r += one(j)
				}
			}
			return r
		}
		for _, p := range perms {
			for _, own := range []bool{false, true} {
				for _, inFn := range []bool{false, true} {
					g, p, own, inFn := g, p, own, inFn
					x.Case(k("methods:%d:%v:%v:%v", gi, p, own, inFn), func() Case {
						_ = g
						head, body, want := "", "", ""
						for _, i := range p {
							head += k("import m%d, \"./u%d.cd\";\n", i, i)
						}
						who := append([]int{}, p...)
						if own {
							head += modText(3, "")
							who = append(who, 3)
						}
						for _, i := range who {
							m := k("m%d.", i)
							if i == 3 {
								m = ""
							}
							body += k("  x%d := %smk(%d); p%d := &x%d; n%d := 7 as %s; @print(x%d.get(), p%d.add(10), x%d.get(), n%d.inc(), %smk(5).get(), n%d.inc().inc(), \"\");\n", i, m, i, i, i, i, types[i], i, i, i, i, m, i)
							want += k("%d %d %d %d %d %d ", i+100*(i+1), i+10*(i+1), i+10*(i+1)+100*(i+1), 7+i+1, 5+100*(i+1), 7+2*(i+1))
							if i < 3 {
								body += k("  @print(%suse(%d), \"\");\n", m, i)
								want += k("%d ", used(i, i))
							}
						}
						src := head + "func main() {\n" + body + "}\n"
						if inFn {
							src = head + "func run() {\n  l := func() {\n" + body + "  };\n  l();\n}\nfunc main() { run(); }\n"
						}
						return Case{Kind: KRun, Src: src, Files: files, Want: want}
					})
					// a method of a module that is not imported, of another type, and one that takes nothing
					for i := 0; i < 3; i++ {
						imported := false
						for _, j := range p {
							imported = imported || i == j
						}
						if inFn {
							continue
						}
						head := ""
						for _, j := range p {
							head += k("import m%d, \"./u%d.cd\";\n", j, j)
						}
						if own {
							head += modText(3, "")
						}
						for _, e := range []string{"v.inc()", "v.none()", "v.get()", "v.mk()", "v.use()"} {
							ok := imported && (e == "v.inc()")
							if e == "v.mk()" || e == "v.use()" {
								ok = i == 0 && (own || len(p) > 0)
								if e == "v.use()" {
									ok = i == 0
								}
							}
							src := head + k("func main() { v := 3 as %s; w := %s; }\n", types[i], e)
							x.Case(k("nomethod:%d:%v:%v:%d:%s", gi, p, own, i, e), func() Case {
								if ok {
									return Case{Kind: KAccept, Src: src, Files: files}
								}
								return Case{Kind: KReject, Src: src, Files: files}
							})
						}
					}
				}
			}
		}
	}
}

func genGenericModules(x *Enum) {
	as := gargs()
	files := func(extra ...string) map[string]string {
		m := map[string]string{"gm.cd": genericMod, "o.cd": genericOther, "pm.cd": genericPair}
		for i := 0; i+1 < len(extra); i += 2 {
			m[extra[i]] = extra[i+1]
		}
		return m
	}
	head := func(imports ...string) string {
		s := genericHead
		for i := 0; i+2 < len(imports); i += 3 {
			s += k("import %s, %s, %q;\n", imports[i], imports[i+1], imports[i+2])
		}
		return s
	}
	for i, a := range as {
		for j, b := range as {
			i, j, a, b := i, j, a, b
			same := a.same == b.same
			// k.Box counts one call for kb and one for each value of k2 or k
			kcount := func(ts ...string) int { return 0 }
			_ = kcount
			x.Case(k("two:%s:%s", a.text, b.text), func() Case {
				src := head("p", a.text, "./gm.cd", "q", b.text, "./gm.cd") + "func main() {\n" + genericLocals
				src += k("  x := p.mk(%s); y := q.mk(%s); x2 := p.mk(%s);\n", a.v1, b.v1, a.v2)
				src += k("  @print(%s, %s, %s, %s, %s, \"\\n\");\n", a.see("x.v"), a.see("p.get(x)"), b.see("q.get(y)"), b.see("y.get()"), a.see("x2.get()"))
				src += "  @print(x.n, y.n, x2.n, p.count, q.count, p.size(), q.size(), \"\\n\");\n"
				src += k("  q.set(&y, %s); p.swap(&x, &x2); m := p.map(x, func(v %s) %s { return v; });\n", b.v2, a.text, a.text)
				src += k("  @print(%s, %s, %s, %s, m.n - p.count, \"\\n\");\n", b.see("y.v"), a.see("x.v"), a.see("x2.v"), a.see("m.v"))
				src += k("  ar := p.arr(%s, %s); h := q.heap(%s); l := p.lam(%s); t, c := q.two(%s); pp := p.pick(%s, %s, 1);\n", a.v1, a.v2, b.v2, a.v2, b.v1, a.v1, a.v2)
				src += k("  @print(%s, %s, %s, %s, %s, %s);\n}\n", a.see("ar[1]"), b.see("(*h)"), a.see("l()"), b.see("t"), a.see("pp"), b.see("q.blk(t)"))
				n := []int{1, 1, 2, 2, 1}
				if same {
					n = []int{1, 2, 3, 3, 3}
				}
				want := k("%s %s %s %s %s \n", a.s1, a.s1, b.s1, b.s1, a.s2)
				want += k("%d %d %d %d %d %d %d \n", n[0], n[1], n[2], n[3], n[4], a.size, b.size)
				want += k("%s %s %s %s 0 \n", b.s2, a.s2, a.s1, a.s2)
				want += k("%s %s %s %s %s %s", a.s2, b.s2, a.s2, b.s1, a.s1, b.s1)
				// the instance of i16 counts the values of k.Box itself
				return Case{Kind: KRun, Src: src, Files: files(), Want: want}
			})
			uses := []string{
				"  t : p.Box = q.mk(%B);\n", "  t := p.mk(%A); t = q.mk(%B);\n", "  t := p.get(q.mk(%B));\n", "  y := q.mk(%B); p.set(&y, %A);\n", "  f : func(p.Box) %T = q.get;\n", "  f : func(q.Box) void = func(b p.Box) {};\n", "  r := [1]p.Box{q.mk(%B)};\n",
				"  z := @Z{b: q.mk(%B)};\n", "  y := q.mk(%B); t : *p.Box = &y;\n", "  t := :p.Box { return q.mk(%B); };\n", "  t := give();\n", "  t, n := p.mk(%A), 3; t, n = q.mk(%B), 4;\n", "  t := p.map(p.mk(%A), func(v %W) %W { return v; });\n", "  t := p.mk(%A).v; t = q.mk(%B).v;\n",
			}
			for u, use := range uses {
				if !x.Thorough() && (i*3+j+u)%4 != 0 && !same {
					continue
				}
				// a union takes a value of the type of one of its members
				if u == len(uses)-1 && (a.text == "U" || b.text == "U") {
					continue
				}
				u, use := u, use
				x.Case(k("interchange:%s:%s:%d", a.text, b.text, u), func() Case {
					src := head("p", a.text, "./gm.cd", "q", b.text, "./gm.cd") + "struct Z { b p.Box }\n"
					if strings.Contains(use, "give") {
						src += k("func give() p.Box { %sreturn q.mk(%s); }\n", "§", b.v1)
						src = strings.Replace(src, "§", strings.ReplaceAll(genericLocals, "\n", " "), 1)
					}
					src += "func main() {\n" + genericLocals + strings.NewReplacer("%A", a.v1, "%B", b.v1, "%T", a.text, "%W", b.text).Replace(use) + "  @print(1);\n}\n"
					if same {
						return Case{Kind: KRun, Src: src, Files: files(), Want: "1"}
					}
					return Case{Kind: KReject, Src: src, Files: files()}
				})
			}
			// two parameters, and the same two the other way round
			x.Case(k("pair:%s:%s", a.text, b.text), func() Case {
				src := head("p", a.text+", "+b.text, "./pm.cd", "q", b.text+", "+a.text, "./pm.cd") + "func main() {\n" + genericLocals
				src += k("  x := p.mk(%s, %s); y := q.mk(%s, %s); z := p.mk(%s, %s); cv := %s; w := p.app(func(a %s) %s { return cv; }, x); m, n := p.sizes();\n", a.v1, b.v1, b.v2, a.v2, a.v2, b.v2, b.v2, a.text, b.text)
				src += k("  @print(%s, %s, %s, %s, %s, %s, %s, m, n, p.made, q.made);\n}\n", a.see("x.a"), b.see("p.snd(x)"), b.see("y.fst()"), a.see("q.snd(y)"), a.see("z.a"), b.see("w.b"), a.see("w.a"))
				pm, qm := 3, 1
				if same {
					pm, qm = 4, 4
				}
				return Case{Kind: KRun, Src: src, Files: files(), Want: k("%s %s %s %s %s %s %s %d %d %d %d", a.s1, b.s1, b.s2, a.s2, a.s2, b.s2, a.s1, a.size, b.size, pm, qm)}
			})
			x.Case(k("pairtypes:%s:%s", a.text, b.text), func() Case {
				src := head("p", a.text+", "+b.text, "./pm.cd", "q", b.text+", "+a.text, "./pm.cd") + "func main() {\n" + genericLocals
				src += k("  x : p.Pair = q.mk(%s, %s); @print(1);\n}\n", b.v1, a.v1)
				if same {
					return Case{Kind: KRun, Src: src, Files: files(), Want: "1"}
				}
				return Case{Kind: KReject, Src: src, Files: files()}
			})
			// a module that instantiates the generic module itself
			for wi, wn := range genericWrapNames {
				if !x.Thorough() && (i+j+wi)%5 != 0 {
					continue
				}
				arg := map[string]string{"T": b.text, "*T": "*" + b.text, "[2]T": "[2]" + b.text}[wn]
				x.Case(k("wrap:%s:%s:%s", wn, a.text, b.text), func() Case {
					imports := []string{"w", a.text, "./wrap.cd", "w2", b.text, "./wrap.cd"}
					if arg != "" {
						imports = append(imports, "p", arg, "./gm.cd")
					}
					src := head(imports...) + "func main() {\n" + genericLocals
					src += k("  x := w.mk(%s); y := w2.mk(%s); x2 := w.mk(%s);\n", a.v1, b.v1, a.v2)
					src += k("  @print(%s, %s, %s, %s", a.see("w.un(x)"), b.see("w2.un(y)"), a.see("x2.un()"), b.see("w2.un(w2.mk("+b.v2+"))"))
					want := k("%s %s %s %s", a.s1, b.s1, a.s2, b.s2)
					if arg != "" {
						src += ", w.cnt() - w2.cnt(), w2.cnt() - p.count"
						d := 0
						if !same {
							d = -999
						}
						if d == 0 {
							want += " 0 0"
						}
					}
					src += ");\n"
					if arg != "" {
						src += "  bx : p.Box = y.b; f : func(p.Box) void = func(b p.Box) {}; f(w2.mk(" + b.v1 + ").b);\n"
					}
					if arg != "" && !same {
						src = strings.Replace(src, "w.cnt() - w2.cnt(), ", "", 1)
						want += " 0"
					}
					return Case{Kind: KRun, Src: src + "}\n", Files: files("wrap.cd", genericWraps[wn]), Want: want}
				})
				x.Case(k("wraptypes:%s:%s:%s", wn, a.text, b.text), func() Case {
					src := head("w", a.text, "./wrap.cd", "w2", b.text, "./wrap.cd") + "func main() {\n" + genericLocals
					src += k("  x := w.mk(%s); x.b = w2.mk(%s).b; @print(1);\n}\n", a.v1, b.v1)
					if same {
						return Case{Kind: KRun, Src: src, Files: files("wrap.cd", genericWraps[wn]), Want: "1"}
					}
					return Case{Kind: KReject, Src: src, Files: files("wrap.cd", genericWraps[wn])}
				})
			}
		}
	}
}

// manyMod is a generic module of n parameters, with names of its own for all
// of them.
func manyMod(n int) string {
	var b strings.Builder
	list := func(f string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, strings.ReplaceAll(f, "#", fmt.Sprint(i)))
		}
		return strings.Join(l, ", ")
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "type T%d\n", i)
	}
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll("type A# = T#;\ntype P# = *A#;\ntype L# = [2]T#;\ntype F# = func(T#) A#;\n", "#", fmt.Sprint(i)))
	}
	b.WriteString("struct M { " + strings.ReplaceAll(list("m# T#"), ", ", "\n ") + " }\nstruct N { " + strings.ReplaceAll(list("n# A#"), ", ", "\n ") + "\n m M }\nuses := 0;\n")
	b.WriteString("func mk(" + list("v# T#") + ") M { uses = uses + 1; return @M{" + list("m#: v#") + "}; }\n")
	b.WriteString("func deep(" + list("v# A#") + ") N { return @N{" + list("n#: v#") + ", m: mk(" + list("v#") + ")}; }\n")
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll("func get#(m M) T# { return m.m#; }\nfunc set#(m *M, v A#) { m.m# = v; }\nfunc ap#(f F#, v T#) A# { return f(v); }\nfunc at#(a T#, b T#) L# { r : L# = [2]A#{a, b}; return r; }\nfunc ptr#(m *M) P# { return &m.m#; }\nfunc size#() i32 { return @sizeof(T#) as i32; }\n", "#", fmt.Sprint(i)))
	}
	b.WriteString("func all(m M) (" + list("T#") + ", i32) { return " + list("m.m#") + ", uses; }\n")
	return b.String()
}

// genGenericMany gives modules of one to five parameters their arguments.
func genGenericMany(x *Enum) {
	as := gargs()
	for n := 1; n <= 5; n++ {
		for i := range as {
			for stride := 0; stride < x.Pick(4, len(as)); stride++ {
				n, i, stride := n, i, stride
				args := func(rot int) []garg {
					var l []garg
					for j := 0; j < n; j++ {
						l = append(l, as[(i+(j+rot)%n*stride)%len(as)])
					}
					return l
				}
				files := map[string]string{"gm.cd": genericMod, "o.cd": genericOther, "mm.cd": manyMod(n)}
				names := func(l []garg) string {
					var r []string
					for _, a := range l {
						r = append(r, a.text)
					}
					return strings.Join(r, ", ")
				}
				vals := func(l []garg, second bool) string {
					var r []string
					for _, a := range l {
						if second {
							r = append(r, a.v2)
						} else {
							r = append(r, a.v1)
						}
					}
					return strings.Join(r, ", ")
				}
				a, q := args(0), args(1)
				same := true
				for j := range a {
					same = same && a[j].same == q[j].same
				}
				head := genericHead + k("import p, %s, \"./mm.cd\";\nimport q, %s, \"./mm.cd\";\n", names(a), names(q)) + "func main() {\n" + genericLocals
				x.Case(k("many:%d:%d:%d", n, i, stride), func() Case {
					src := head + k("  x := p.mk(%s); y := q.deep(%s); z := p.mk(%s);\n", vals(a, false), vals(q, false), vals(a, true))
					want := ""
					show := func(e, w string) {
						src += "  @print(" + e + ");\n"
						want += w
						src += "  @print(\",\");\n"
						want += ","
					}
					for j := range a {
						src += k("  g%d : %s = p.get%d(x); f%d : p.F%d = func(v %s) %s { return v; }; l%d : p.L%d = p.at%d(%s, %s);\n", j, a[j].text, j, j, j, a[j].text, a[j].text, j, j, j, a[j].v1, a[j].v2)
						show(a[j].see(k("g%d", j)), a[j].s1)
						show(a[j].see(k("z.m%d", j)), a[j].s2)
						show(a[j].see(k("p.ap%d(f%d, %s)", j, j, a[j].v2)), a[j].s2)
						show(a[j].see(k("l%d[1]", j)), a[j].s2)
						src += k("  p.set%d(&x, %s);\n", j, a[j].v2)
						show(a[j].see(k("x.m%d", j)), a[j].s2)
						show(a[j].see(k("(*p.ptr%d(&z))", j)), a[j].s2)
						show(q[j].see(k("y.n%d", j)), q[j].s1)
						show(q[j].see(k("q.get%d(y.m)", j)), q[j].s1)
						show(k("p.size%d()", j), fmt.Sprint(a[j].size))
					}
					var l []string
					for j := range a {
						l = append(l, k("r%d", j))
					}
					src += "  " + strings.Join(l, ", ") + ", us := p.all(x);\n"
					for j := range a {
						show(a[j].see(l[j]), a[j].s2)
					}
					uses := "2"
					if same {
						uses = "3"
					}
					show("us", uses)
					return Case{Kind: KRun, Src: src + "}\n", Files: files, Want: want}
				})
				x.Case(k("manytypes:%d:%d:%d", n, i, stride), func() Case {
					src := head + k("  x : p.M = q.mk(%s); @print(1);\n}\n", vals(q, false))
					if same {
						return Case{Kind: KRun, Src: src, Files: files, Want: "1"}
					}
					return Case{Kind: KReject, Src: src, Files: files}
				})
			}
		}
	}
}

func genModuleErrors(x *Enum) {
	q := `struct S { v i32 }
struct Gone { v i32 }
type A = S;
const K := 7;
g := 3;
func mk(n i32) S { return @S{v: n}; }
func get(s S) i32 { return s.v + g; }
func two() (i32, i64) { return g, 5 as i64; }
`
	r := "import q, \"./q.cd\";\nfunc one() q.S { return q.mk(1); }\n"
	head := "import q, \"./q.cd\";\nimport r, \"./r.cd\";\n"
	bad := []struct{ top, in string }{
		{"", "q.nope();"}, {"", "x := q.nope;"}, {"", "x : q.Nope = q.mk(1);"}, {"", "x := @alloc(q.Nope, 1);"}, {"", "x := @q.Nope{v: 1};"}, {"func f(a q.Nope) {}\n", ""}, {"func f() q.Nope { return q.mk(1); }\n", ""}, {"struct Z { a q.Nope }\n", "x := @alloc(Z, 1);"},
		{"", "x := q.mk(1 as i64);"}, {"", "x := q.mk();"}, {"", "x := q.mk(1, 2);"}, {"", "x := q.get(1);"}, {"", "x : i64 = q.g;"}, {"", "x : i32 = q.mk(1);"}, {"", "q.K = 1;"}, {"", "q.g = 1 as i8;"}, {"", "zz.f();"}, {"", "x := zz.g;"}, {"", "x : zz.S = q.mk(1);"},
		{"", "x := mk(1);"}, {"", "x := get(q.mk(1));"}, {"", "x : S = q.mk(1);"}, {"", "x := @S{v: 1};"}, {"", "x := K;"}, {"", "g = 1;"}, {"", "x := r.q.mk(1);"}, {"", "x := r.mk(1);"}, {"", "x : r.S = r.one();"}, {"", "x := @q.S{zz: 1};"}, {"", "x := @q.S{v: 1 as i8};"}, {"", "x := q.mk(1).zz;"}, {"", "x := q.mk(1).mk2();"},
		{"struct S { v i32 }\n", "x : S = q.mk(1);"}, {"struct S { v i32 }\n", "x := q.get(@S{v: 1});"}, {"struct S { v i32 }\nfunc f(s S) {}\n", "f(q.mk(1));"}, {"", "a, b, c := q.two();"}, {"", "a := q.two();"}, {"", "q.two().v = 1;"}, {"", "x : q.A = 3;"}, {"import n, \"./none.cd\";\n", ""}, {"import n, \"./none/q.cd\";\n", ""}, {"import n, \"./\";\n", ""},
		{"import n, i32, \"./gm2.cd\";\n", ""}, {"import n, \"./gm2.cd\";\n", ""}, {"import n, Nope, i32, \"./gm2.cd\";\n", ""}, {"import n, i32, q.Nope, \"./gm2.cd\";\n", ""}, {"import n, i32, zz.S, \"./gm2.cd\";\n", ""},
	}
	for i, b := range bad {
		b := b
		for place := 0; place < 4; place++ {
			if place > 0 && b.in == "" {
				continue
			}
			x.Case(k("wrong:%d:%d", i, place), func() Case {
				src := head + b.top
				switch place {
				case 0:
					src += "func main() { " + b.in + " }\n"
				case 1:
					src += "func h() { for i := 0; i < 2; i = i + 1 { if i == 1 { " + b.in + " } } }\nfunc main() { h(); }\n"
				case 2:
					src += "func main() { f := func() { " + b.in + " }; f(); }\n"
				default:
					src += "func main() { y := :i32 { " + b.in + " return 1; }; }\n"
				}
				return Case{Kind: KReject, Src: src, Files: map[string]string{"q.cd": q, "r.cd": r, "gm2.cd": "type T\ntype W\nstruct P { a T\n b W }\n"}}
			})
		}
	}
	// one main function, wherever it is
	shapes := [][4][]int{{{1}, {2}, {3}, {}}, {{1, 2, 3}, {}, {}, {}}, {{1, 2}, {3}, {3}, {}}, {{3, 1}, {2}, {}, {1, 2}}}
	for si, sh := range shapes {
		for set := 1; set < 16; set++ {
			x.Case(k("mains:%d:%d", si, set), func() Case {
				var texts [4]string
				n, who := 0, 0
				for m := 0; m < 4; m++ {
					for _, o := range sh[m] {
						texts[m] += k("import m%d, \"./m%d.cd\";\n", o, o)
					}
					texts[m] += k("func f() i32 { return %d; }\n", m)
					if set>>m&1 == 1 {
						texts[m] += k("func main() { @print(f() + %d); }\n", m*10)
						n++
						who = m
					}
				}
				c := Case{Kind: KReject, Src: texts[0], Files: map[string]string{"m1.cd": texts[1], "m2.cd": texts[2], "m3.cd": texts[3]}}
				if n == 1 {
					c.Kind, c.Want = KRun, fmt.Sprint(who*11)
				}
				return c
			})
		}
	}
	// a broken module refuses the whole program, however deep and unused
	broken := []string{"func f( {}\n", "func f() i32 { }\n", "func f() i32 { return 1 as i8; }\n", "func f() { x := nope; }\n", "struct S { a Nope }\n", "func f(a Nope) {}\n", "g := 1 as Nope;\n", "func f() { 3 = 4; }\n", "func f() { f(1); }\n", "func f() {}\nfunc f() {}\n", "struct S { s S }\n", "import z, \"./none.cd\";\n", "func f() { break; }\n", "x + 1;\n", "const K := f();\nfunc f() i32 { return 1; }\n", "func f() { l := func() i32 { }; }\n", "}", "func f() { @print(\"a);\n}\n", "type A = Nope;\nfunc f(a A) {}\n"}
	for i, b := range broken {
		for depth := 0; depth < 3; depth++ {
			for pos := 0; pos < 3; pos++ {
				x.Case(k("broken:%d:%d:%d", i, depth, pos), func() Case {
					imp := "import m0, \"./m0.cd\";\n"
					good := "import g, \"./g.cd\";\n"
					files := map[string]string{"g.cd": "func ok() i32 { return 1; }\n"}
					for d := 0; d < depth; d++ {
						files[k("m%d.cd", d)] = k("import m%d, \"./m%d.cd\";\nfunc ok() i32 { return 2; }\n", d+1, d+1)
					}
					files[k("m%d.cd", depth)] = []string{b, "func ok() i32 { return 3; }\n" + b, "import g, \"./g.cd\";\nfunc ok() i32 { return g.ok(); }\n" + b}[pos]
					src := []string{imp, good + imp, imp + good}[pos] + "func main() { @print(1); }\n"
					return Case{Kind: KReject, Src: src, Files: files}
				})
			}
		}
	}
}
