package main

import "strings"

// Long loops: what one iteration takes of the stack has to be given back, or
// a loop with many iterations ends the program.

// A body works on i (the number of the iteration, i32), s (the sum, i32) and
// on the declarations of longHead.
var longBodies = []struct{ name, src string }{
	{"scalar", "x := i & 1; s = s + x;"},
	{"typed", "x : i64 = @cast(i64, i); s = s + @cast(i32, x & @cast(i64, 1));"},
	{"float", "x := @cast(f64, i); if x > @cast(f64, 2) { s = s + 1; }"},
	{"bool", "x := i == 3; if x { s = s + 1; }"},
	{"array", "x := [4]i32{i, 1, 2, 3}; s = s + (x[0] & 1);"},
	{"arrayarray", "x := [2][2]i32{[2]i32{i, 1}, [2]i32{2, 3}}; s = s + (x[0][0] & 1);"},
	{"struct", "x := @S{a: i, b: 2}; s = s + (x.a & 1);"},
	{"union", "x : U = i; s = s + (x.n & 1);"},
	{"unionassign", "x : U = 1; x = i; s = s + (x.n & 1);"},
	{"string", "x := \"ab\"; s = s + @cast(i32, x[0] & @cast(i8, 1));"},
	{"copy", "x := g0; x.a = i; s = s + (x.a & 1);"},
	{"pointer", "x := &s; *x = *x + 1;"},
	{"fn", "x := inc; s = x(s);"},
	{"literal", "x := func(n i32) i32 { y := n + 1; return y; }; s = x(s);"},
	{"capture", "x := func(n i32) i32 { return n + i; }; s = x(s) & 1023;"},
	{"two", "x, y := i, s; s = (x + y) & 1023;"},
	{"swap", "x, y := i, s; x, y = y, x; s = (x + y) & 1023;"},
	{"swapg", "s, t = t, s;"},
	{"and", "if i > 2 && s > 1 { s = 0; }"},
	{"or", "if i > 2 || s > 1 { s = 1; }"},
	{"andor", "x := i > 2 && s > 1 || i == 7; if x { s = 0; }"},
	{"not", "if !(i > 2) { s = s + 1; }"},
	{"minus", "s = -i;"},
	{"bits", "s = (i ^ s) | (i << 1);"},
	{"cast", "s = @cast(i32, @cast(i8, i)) + i as i32;"},
	{"call", "s = inc(s);"},
	{"call2", "s = inc(inc(s));"},
	{"callstruct", "s = (mk(i).a) & 1;"},
	{"structcall", "s = take(@S{a: i, b: 1}) & 1;"},
	{"structmk", "s = take(mk(i)) & 1;"},
	{"mkvar", "x := mk(i); s = take(x) & 1;"},
	{"arraycall", "s = row(i)[1] & 1;"},
	{"arrayarg", "s = sum([3]i32{i, 1, 2}) & 1;"},
	{"arrayvar", "x := row(i); s = sum(x) & 1;"},
	{"unioncall", "s = mku(i).n & 1;"},
	{"literalfield", "s = @S{a: i, b: 1}.a & 1;"},
	{"literalindex", "s = [2]i32{i, 1}[i & 1] & 1;"},
	{"method", "x := @S{a: i, b: 1}; s = x.take() & 1;"},
	{"methodcall", "s = mk(i).take() & 1;"},
	{"index", "arr[i & 3] = i; s = s + (arr[i & 3] & 1);"},
	{"index2", "grid[i & 1][1] = i; s = s + (grid[i & 1][1] & 1);"},
	{"rows", "x := grid[i & 1]; s = s + (x[1] & 1);"},
	{"field", "g0.a = i; s = s + (g0.a & 1);"},
	{"deref", "x := &g0; (*x).a = i; s = s + (x.a & 1);"},
	{"fieldfn", "h0.f = inc; s = h0.f(s);"},
	{"elemfn", "fns[i & 1] = inc; s = fns[i & 1](s);"},
	{"block", "{ x := i; { y := x; s = y & 1; } }"},
	{"blockx", "x := :i32 { y := i + 1; return y; }; s = x & 1;"},
	{"blockcond", "if :i32 { y := i & 1; return y; } { s = s + 1; }"},
	{"blockblock", "s = :i32 { y := :i32 { z := i; return z; }; return y; } & 1;"},
	{"blockstruct", "s = :S { return @S{a: i, b: 1}; }.a & 1;"},
	{"if", "if i & 1 { x := i; s = x; } else { y := s; s = y + 1; }"},
	{"elseif", "if i == 1 { x := i; s = x; } else if i & 1 { y := s; s = y; } else { z := i; s = z; }"},
	{"switch", "switch i & 1 { case 0 { x := i; s = x; } case 1 { y := i; s = y; } default { z := i; s = z; } }"},
	{"inner", "for j := 0; j < 2; j = j + 1 { x := j; s = s + x; }"},
	{"innerwhile", "j := 0; for j < 2 { x := j; j = x + 1; } s = j;"},
	{"continue", "x := i; if x & 1 { continue; } y := s; s = y + 1;"},
	{"heap", "x := @alloc(S, 2); x[1].a = i; s = x[1].a & 1; @free(x);"},
	{"sizeof", "x := @sizeof(S); s = @cast(i32, x);"},
	{"strcmp", "x := \"ab\"; if x == \"ab\" { s = s + 1; }"},
	{"concat", "x := \"a\" + \"b\"; s = s + @cast(i32, x[0] & @cast(i8, 1)); @free(x);"},
	{"macro", "#if 1 {\n x := i; s = x & 1;\n}\n"},
	{"constant", "const x := 3; s = (s + x) & 7;"},
	{"generic", "x := @Box{v: i}; s = x.v & 1;"},
}

const longHead = `struct S { a i32 b i32 }
struct H { f func(i32) i32 }
union U { n i32 w i64 }
type Box = S2;
struct S2 { v i32 }
func inc(n i32) i32 { m := n + 1; return m & 1023; }
func mk(n i32) S { return @S{a: n, b: 1}; }
func mku(n i32) U { r : U = n; return r; }
func take(v S) i32 { return v.a + v.b; }
func row(n i32) [3]i32 { return [3]i32{n, n, n}; }
func sum(v [3]i32) i32 { return v[0] + v[1] + v[2]; }
`

const longVars = "s := 0; t := 1; arr := [4]i32{0, 0, 0, 0}; grid := [2][2]i32{[2]i32{0, 0}, [2]i32{0, 0}}; " +
	"g0 := @S{a: 0, b: 0}; h0 := @H{f: inc}; fns := [2]func(i32) i32{inc, inc};\n"

// A loop runs BODY N times.
var longLoops = []struct{ name, src string }{
	{"for", "for i := 0; i < N; i = i + 1 {\n BODY\n}"},
	{"while", "c := 0; for c < N { i := c; c = c + 1;\n BODY\n}"},
	{"cond", "for i := 0; i < N && s > -5 || i < 0; i = i + 1 {\n BODY\n}"},
	{"header", "for i := inc(-1); mk(i).a < N; i = mk(i).a + 1 {\n BODY\n}"},
	{"blockheader", "for i := 0; i < :i32 { l := N; return l; }; i = :i32 { u := i; return u + 1; } {\n BODY\n}"},
	{"inner", "for k := 0; k < 2; k = k + 1 { for i := 0; i < N; i = i + 1 {\n BODY\n} }"},
	{"if", "if s == 0 { for i := 0; i < N; i = i + 1 { if i >= 0 {\n BODY\n} } }"},
	{"break", "for i := 0; i > -1; i = i + 1 { if i == N { break; }\n BODY\n}"},
	{"blockx", "r := :i32 { for i := 0; i < N; i = i + 1 {\n BODY\n} return s; }; s = r;"},
	{"return", "for i := 0; i > -1; i = i + 1 { if i == N { RETURN }\n BODY\n}"},
}

// A place holds LOOP.
var longPlaces = []struct{ name, src, ret string }{
	{"main", "func main() i32 {\n" + longVars + "LOOP\n @print(s); return 0; }", "@print(s); return 0;"},
	{"func", "func work() i32 {\n" + longVars + "LOOP\n return s; }\nfunc main() i32 { @print(work()); return 0; }", "return s;"},
	{"literal", "func main() i32 { f := func() i32 {\n" + longVars + "LOOP\n return s; };\n @print(f()); return 0; }", "return s;"},
	{"void", "func work(n i32) {\n" + longVars + "LOOP\n @print(s); }\nfunc main() i32 { work(1); return 0; }", "@print(s); return;"},
	{"pub", "pub func work() i32 {\n" + longVars + "LOOP\n return s; }\nfunc main() i32 { @print(work()); return 0; }", "return s;"},
}

func genLong(x *Enum) {
	for _, p := range longPlaces {
		for _, l := range longLoops {
			for _, b := range longBodies {
				p, l, b := p, l, b
				src := func(n string) string {
					t := strings.Replace(l.src, "BODY", b.src, 1)
					t = strings.Replace(t, "RETURN", p.ret, 1)
					t = strings.Replace(p.src, "LOOP", t, 1)
					return longHead + strings.ReplaceAll(t, "N", n)
				}
				x.Case("long:"+p.name+":"+l.name+":"+b.name, func() Case {
					return Case{Kind: KCustom, Src: src("4000000"), Fn: func() Outcome { return longCheck(src, (len(p.name)+len(l.name)*3+len(b.name)*5)%16 == 0) }}
				})
			}
		}
	}
}

// longCheck runs 64 iterations and looks at the slots of the stack that every
// activation takes; where one of them is taken again, or where the case is one
// of the fixed part that binds the model, the machine runs 4000000.
func longCheck(src func(n string) string, machine bool) Outcome {
	comp := compileSrc(src("64"), opts{})
	if !comp.accepted() {
		return Outcome{Bad: "refused: " + comp.why()}
	}
	res := RunModule(comp.Mod, 20_000_000)
	o := Outcome{States: 1, Trans: res.Steps}
	if res.Trap != "" {
		o.Bad = res.Trap + " (" + res.TrapMsg + ")"
		return o
	}
	if !res.Grows && res.Unsupported == "" && !machine {
		return o
	}
	comp = compileSrc(src("4000000"), opts{})
	if !comp.accepted() {
		o.Bad = "refused: " + comp.why()
		return o
	}
	real := realExec(comp.Mod.String(), hangLimit)
	o.Traces++
	if strings.HasPrefix(real.err, "signal") {
		o.Bad = "4000000 iterations end the program: " + real.err + "; each one takes more of the stack"
	}
	return o
}
