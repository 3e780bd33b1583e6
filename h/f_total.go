package main

import (
	"fmt"
	"strings"

	"github.com/gabivlj/candice/internals/ast"
)

// C03: the front end answers to everything.  C06: what it accepts becomes a
// valid module.

func init() {
	register(&Family{
		ID:        "C03",
		Technique: "exhaustive enumeration of token sequences in all contexts and of all single and double mutations of programs, driving the real parser and analysis to an answer",
		Rule: "Every sequence of 2 (3 thorough) of 62 tokens in 17 contexts, of 3 (4 of 26 thorough) in 4 of them; every deletion, repetition, exchange, replacement, insertion and truncation of a token in 46 programs, every repetition and deletion of up to 16 of them, and every pair of deletions (thorough: every deletion with every replacement); " +
			"46 nesting forms at depths up to 200.",
		Note: "Answers are diagnostics or acceptance within 60 seconds; nesting deeper than 200 is left out.",
		Gen:  func(x *Enum) { genTotal(x, KFront); genSelfImports(x) },
	})
	register(&Family{
		ID:        "C06",
		Technique: "exhaustive enumeration of token sequences in all contexts and of all single mutations of programs; everything the front end accepts is compiled and the module verified",
		Rule: "Every sequence of 2 (3 thorough) of 62 tokens in 17 contexts, of 3 (4 of 26 thorough) in 4 of them; every deletion, repetition, exchange, replacement, insertion and truncation of a token in 46 programs, every repetition and deletion of up to 16 of them, and every pair of deletions (thorough: every deletion with every replacement); " +
			"46 nesting forms at depths up to 60. Every accepted program is compiled, and its module checked for types, terminators and dominance, a suspicion being confirmed by LLVM.",
		Note: "Global variables with an initial value that is not constant are refused by the compiler and left out.",
		Gen:  func(x *Enum) { genTotal(x, KTotal) },

		Diagnoses: true,
	})
}

var totalVocab = strings.Fields("@ || && & | ^ , + - ! * / < << >> > == != <= >= . .. ++ -- % ( ) { } [ ] ; : = type pub union struct func true false if else return import for break continue extern as #if switch case default const a f S i32 1 1.5 \"s\" 'c' print alloc")

var totalSmall = strings.Fields("@ & | , + - ! * . ( ) { } [ ] ; : = func return if as a f S i32 1")

const totalPre = "struct S { a i32\n b *S }\nfunc f(a i32) i32 { return a; }\n"

var totalCtx = []struct{ name, pre, post string }{
	{"top", totalPre, "\nfunc main() {}\n"},
	{"body", totalPre + "func main() { a := 1; ", "\n}\n"},
	{"expr", totalPre + "func main() { a := 1; x := ", ";\n}\n"},
	{"after", totalPre + "func main() { a : S = @S{a: 1, b: 0 as *S}; a ", ";\n}\n"},
	{"type", totalPre + "func main() { a := 1; x : ", " = 0;\n}\n"},
	{"params", totalPre + "func g(", ") {}\nfunc main() {}\n"},
	{"result", totalPre + "func g() ", " { }\nfunc main() {}\n"},
	{"fields", totalPre + "struct T { ", " }\nfunc main() {}\n"},
	{"args", totalPre + "func main() { a := 1; @print(", "); f(a);\n}\n"},
	{"literal", totalPre + "func main() { a := 1; s := @S{", "};\n}\n"},
	{"forhead", totalPre + "func main() { for ", " { }\n}\n"},
	{"switch", totalPre + "func main() { a := 1; switch a { ", " }\n}\n"},
	{"array", totalPre + "func main() { a := 1; x := [2]i32{", "};\n}\n"},
	{"extern", "extern func puts(", ") i32;\nfunc main() { }\n"},
	{"externs", totalPre + "extern ", ";\nfunc main() { }\n"},
	{"alias", totalPre + "type T = ", ";\nfunc main() { }\n"},
	{"cast", totalPre + "func main() { a := 1; x := a as ", ";\n}\n"},
}

var totalProgs = []string{
	"func main ( ) { a := 3 ; b : i32 = a * ( a + 1 ) - 2 ; @ print ( b , a == 3 , - a , ! a ) ; }",
	"struct S { x i32 \n y i64 } func main ( ) { s := @ S { x : 1 , y : 2 as i64 } ; s . x = s . x + 4 ; @ print ( s . x , s . y ) ; }",
	"func f ( a i32 , b i32 ) ( i32 , i32 ) { return b , a ; } func main ( ) { x , y := f ( 1 , 2 ) ; x , y = y , x ; @ print ( x , y ) ; }",
	"func main ( ) { a := 0 ; for i := 0 ; i < 5 ; i = i + 1 { if i == 3 { continue ; } else if i == 4 { break ; } else { a = a + i ; } } }",
	"func main ( ) { a : [ 3 ] i32 = [ 3 ] i32 { 1 , 2 , 3 } ; p := & a ; a [ 1 ] = 7 ; q := & a [ 2 ] ; @ print ( a [ 1 ] , * q ) ; }",
	"const K := 5 ; g : i32 = 2 ; func main ( ) { switch g { case 2 { @ print ( K ) ; } case K { } default { @ print ( 0 ) ; } } }",
	"func main ( ) { n := 2 ; f := func ( m i32 ) i32 { return m << n ; } ; @ print ( f ( 3 ) >> 1 ) ; }",
	"type N = i64 ; union U { a i32 \n b N } func main ( ) { u := @ alloc ( U , 1 ) ; u . b = 9 as N ; @ print ( u . a ) ; @ free ( u ) ; }",
	"func main ( ) { a := :i32 { if 1 == 1 { return 4 ; } return 5 ; } ; @ print ( a ) ; }",
	"func inc ( n i32 ) i32 { return n + 1 ; } func main ( ) { fs : [ 2 ] func ( i32 ) i32 = [ 2 ] func ( i32 ) i32 { inc , inc } ; @ print ( fs [ 0 ] ( 2 ) ) ; }",
	"struct P { x i32 } func get ( p P ) i32 { return p . x ; } func main ( ) { p := @ P { x : 3 } ; @ print ( p . get ( ) ) ; }",
	"struct L { v i32 \n n * L } func main ( ) { l := @ alloc ( L , 1 ) ; l . v = 2 ; l . n = l ; @ print ( l . n . n . v ) ; @ free ( l ) ; }",
	"extern func puts ( * i8 ) i32 ; func main ( ) { s := \"a\" + \"b\" ; if s == \"ab\" && 1 < 2 || 0 > 1 { puts ( s ) ; } @ print ( s [ 0 ] ) ; }",
	"func main ( ) { x := 1 ; ++ x ; -- x ; p := & x ; * p = 4 ; y := * p as i64 ; @ print ( y % ( 3 as i64 ) , x & 1 | 2 ^ 3 ) ; }",
	"func r ( n i32 ) i32 { if n == 0 { return 0 ; } return r ( n - 1 ) + n ; } func main ( ) { @ print ( r ( 4 ) ) ; return ; }",
	"func main ( ) { f := 1.5 ; d := f as f64 ; i := d as i32 ; c := 'c' ; @ print ( f , d , i , c , @sizeof ( i64 ) ) ; }",
	"#if a == b { func g ( ) { } } func main ( ) { }",
	"func v ( ) { return ; } func main ( ) { v ( ) ; for { break ; } for 1 == 1 { break ; } }",
	"g : * i8 = \"x\" ; h : i32 = 3 ; func main ( ) { g = \"y\" ; h = h + 1 ; { h := 2.5 ; h = 3.5 ; } @ print ( g , h ) ; }",
	"struct H { cb func ( i32 ) i32 \n a [ 2 ] i32 } func id ( n i32 ) i32 { return n ; } func main ( ) { h := @ H { cb : id , a : [ 2 ] i32 { 1 , 2 } } ; @ print ( h . cb ( h . a [ 1 ] ) ) ; }",
	"union U { a i32 \n b i64 } struct V { u U } func main ( ) { u : U = 3 ; v := @ V { u : u } ; v . u = 4 as i64 ; @ print ( v . u . b ) ; }",
	"func main ( ) { p := @ alloc ( i32 , 4 ) ; p [ 1 ] = 2 ; p = @ realloc ( p , 8 ) ; q := p as * i64 ; @ print ( p [ 1 ] , p == 0 as * i32 ) ; @ free ( p ) ; }",
	"func a ( f func ( i32 , i32 ) i32 ) i32 { return f ( 1 , 2 ) ; } func main ( ) { @ print ( a ( func ( x i32 , y i32 ) i32 { return x - y ; } ) ) ; }",
	"func mk ( ) func ( ) i32 { return func ( ) i32 { return 7 ; } ; } func main ( ) { f := mk ( ) ; @ print ( f ( ) , mk ( ) ( ) ) ; }",
	"type A = i32 ; type B = * A ; func main ( ) { x : A = 1 ; b : B = & x ; @ print ( * b ) ; }",
	"func main ( ) { m := [ 2 ] [ 3 ] i32 { [ 3 ] i32 { 1 , 2 , 3 } , [ 3 ] i32 { 4 , 5 , 6 } } ; m [ 1 ] [ 2 ] = 5 ; r := m [ 1 ] ; @ print ( r [ 2 ] , @sizeof ( [ 2 ] [ 3 ] i32 ) ) ; }",
	"func main ( ) { if 1 < 2 { } else { } switch 3 { case 1 { } case 2 { } } switch 2 { case 1 + 1 { @ print ( 1 ) ; } } }",
	"func f ( ) ( i32 , f32 , * i8 ) { return 1 , 1.5 , \"s\" ; } func main ( ) { a , b , c := f ( ) ; @ print ( a , b , c ) ; }",
	"func main ( ) { a , b := 1 , 2.5 ; c , d := 3 , 4 as i64 ; a , c = c , a ; @ print ( a , b , c , d ) ; }",
	"struct E { } func main ( ) { e := @ E { } ; p := & e ; a : [ 1 ] E = [ 1 ] E { @ E { } } ; a [ 0 ] = * p ; }",
	"func main ( ) { x := 0xff ; y := 0b101 ; z := x as i8 as i64 ; w := 3000000000 ; @ print ( x , y , z , w , w > 1 as i64 ) ; }",
	"func s ( n i32 ) i32 { switch n { case 1 { return 2 ; } default { return 3 ; } } } func main ( ) { @ print ( s ( 1 ) ) ; }",
	"func main ( ) { f := func ( ) { @ print ( 1 ) ; } ; f ( ) ; g : func ( ) = f ; g ( ) ; }",
	"struct A { b B } struct B { c [ 2 ] i16 } func main ( ) { a : A = @ A { b : @ B { c : [ 2 ] i16 { 1 as i16 , 2 as i16 } } } ; a . b . c [ 1 ] = 3 as i16 ; b := a . b ; p := & a . b ; @ print ( b . c [ 1 ] , p . c [ 0 ] ) ; }",
	"pub func f ( ) { } struct S { x i32 } type T = i32 ; const C := 3 ; func main ( ) { }",
	"func main ( ) { a := 1 as i64 + 2 as i64 * 3 as i64 ; b := ( a < 3 as i64 ) as i32 ; @ print ( a , b , a != 3 as i64 ) ; }",
	"func main ( ) { b := :* i32 { x := @ alloc ( i32 , 1 ) ; x [ 0 ] = 3 ; return x ; } ; c := 1 + :i32 { return b [ 0 ] ; } ; @ print ( c ) ; }",
	"func e ( n i32 ) i32 { if n == 0 { return 1 ; } else { return o ( n - 1 ) ; } } func o ( n i32 ) i32 { if n == 0 { return 0 ; } return e ( n - 1 ) ; } func main ( ) { }",
	"const A := 1 + 2 * 3 ; const B := A << 1 ; const C := 1.5 ; const D := \"s\" ; func main ( ) { x : [ 3 ] i32 = [ 3 ] i32 { 1 , 2 , 3 } ; x [ A - 5 ] = B ; @ print ( x [ 2 ] , C , D ) ; }",
	"import x , \"./none.cd\" ; func main ( ) { x . f ( ) ; y : x . T ; }",
	"import m , \"./m.cd\" ; func main ( ) { a := @ m . S { v : 1 } ; m . f ( ) ; b : m . N = m . K ; m . g = 4 ; @ print ( a . get ( ) , b , m . g ) ; }",
	"import s , i32 , \"./gen.cd\" ; import t , * i64 , \"./gen.cd\" ; func main ( ) { b := s . mk ( 3 ) ; c : t . Box = @ t . Box { v : @ alloc ( i64 , 1 ) } ; c . v [ 0 ] = 2 as i64 ; @ print ( b . get ( ) , c . v [ 0 ] ) ; }",
	"import m , \"./m.cd\" ; struct T { s m . S \n p * m . S } func f ( s m . S , c func ( m . S ) i32 ) i32 { return c ( s ) ; } func main ( ) { t : T = @ T { s : @ m . S { v : 1 } , p : 0 as * m . S } ; @ print ( f ( t . s , m . get ) ) ; }",
	// the declarations at the end, for the texts that end within them
	"func main ( ) { } struct S { a i32 } const K : i32 = ( 2 ) ; g : [ 2 ] i32 = [ 2 ] i32 { 1 , K } ; s := @ S { a : 1 } ; u := g [ 1 ] + s . a",
	"func f ( a i32 ) i32 { return a ; } func main ( ) { } type F = func ( i32 , [ 2 ] * i8 ) func ( i32 ) i32 ; struct Z { a i32 \n b [ 2 ] F \n c func ( * Z ) i32 }",
	"func main ( ) { } union V { a i32 \n b * V } extern func printf ( * i8 , .. ) i32 ; pub func g ( a [ 2 ] i32 , b func ( i32 ) ( i32 , i64 ) ) ( i32 , * V ) { return a [ 0 ] , 0 as * V ; }",
}

var totalFiles = map[string]string{
	"m.cd":   "struct S { v i32\n}\nfunc get(s S) i32 { return s.v; }\nfunc f() {}\ntype N = i32;\nconst K := 3;\ng : i32 = 2;\n",
	"gen.cd": "type T\nstruct Box { v T\n}\nfunc mk(t T) Box { return @Box{v: t}; }\nfunc get(b Box) T { return b.v; }\n",
}

func tokenise(p string) []string {
	var ts []string
	for _, l := range strings.Split(p, " ") {
		switch {
		case l == "\n" || l == "":
		case l == ":=":
			ts = append(ts, ":", "=")
		case len(l) > 1 && l[0] == ':':
			ts = append(ts, ":", l[1:])
		case l == "@sizeof":
			ts = append(ts, "@", "sizeof")
		default:
			ts = append(ts, l)
		}
	}
	return ts
}

// notConst tells a program whose initial values of globals might not be
// constant.
func notConst(src string) bool {
	defer func() { recover() }()
	c := compileSrc(src, opts{noModule: true})
	if c.Stage != StOK {
		return false
	}
	return globalNotConst(c.Root)
}

func globalNotConst(root *ast.Program) bool {
	for _, s := range root.Statements {
		if d, ok := s.(*ast.DeclarationStatement); ok {
			switch e := d.Expression.(type) {
			case *ast.Integer, *ast.Float, *ast.StringLiteral:
			default:
				if e != nil {
					return true
				}
			}
		}
		if _, ok := s.(*ast.MultipleDeclarationStatement); ok {
			return true
		}
	}
	return false
}

func genTotal(x *Enum, kind Kind) {
	one := func(key, src string) {
		x.Case(key, func() Case {
			c := Case{Kind: kind, Src: src}
			if strings.Contains(src, "import") {
				c.Files = totalFiles
			}
			if kind == KTotal && notConst(src) {
				c.Skip = "a global that is not constant"
			}
			return c
		})
	}
	for pi, p := range totalProgs {
		if !strings.Contains(p, "none.cd") && !strings.Contains(p, "#if") && !notConst(strings.Join(tokenise(p), " ")) {
			x.Case(k("base:%d", pi), func() Case { return Case{Kind: KAccept, Src: strings.Join(tokenise(p), " "), Files: totalFiles} })
		}
	}
	genTexts(x, kind == KFront, one)
}

// genTexts: sequences of tokens in contexts, and mutations of programs.
func genTexts(x *Enum, deepNests bool, one func(key, src string)) {
	for ci, c := range totalCtx {
		one(k("%s:", c.name), c.pre+c.post)
		n := x.Pick(2, 3)
		if ci < 4 {
			n = 3
		}
		var ts []string
		var rec func()
		rec = func() {
			if x.stopped || len(ts) == n {
				return
			}
			for _, t := range totalVocab {
				ts = append(ts, t)
				s := strings.Join(ts, " ")
				one(c.name+":"+s, c.pre+s+c.post)
				rec()
				ts = ts[:len(ts)-1]
			}
		}
		rec()
		if ci < 4 && x.Thorough() {
			n = 4
			for _, a := range totalSmall {
				for _, b := range totalSmall {
					for _, d := range totalSmall {
						for _, e := range totalSmall {
							s := a + " " + b + " " + d + " " + e
							one(c.name+":"+s, c.pre+s+c.post)
						}
					}
				}
			}
		}
	}
	for pi, p := range totalProgs {
		ts := tokenise(p)
		emit := func(key string, l ...[]string) {
			var all []string
			for _, p := range l {
				all = append(all, p...)
			}
			one(k("mut:%d:", pi)+key, strings.Join(all, " "))
		}
		emit("", ts)
		for i := range ts {
			emit(k("cut%d", i), ts[:i])
			emit(k("from%d", i), ts[i:])
			emit(k("del%d", i), ts[:i], ts[i+1:])
			emit(k("dup%d", i), ts[:i+1], ts[i:])
			// longer pieces twice, or not at all
			for n := 2; n <= 16 && i+n <= len(ts); n++ {
				emit(k("dup%d+%d", i, n), ts[:i+n], ts[i:])
				emit(k("del%d+%d", i, n), ts[:i], ts[i+n:])
			}
			if i+1 < len(ts) {
				emit(k("swap%d", i), ts[:i], []string{ts[i+1], ts[i]}, ts[i+2:])
			}
			for _, v := range totalVocab {
				emit(k("rep%d:%s", i, v), ts[:i], []string{v}, ts[i+1:])
				emit(k("ins%d:%s", i, v), ts[:i], []string{v}, ts[i:])
			}
			// every other token of the program in its place
			for j, v := range ts {
				if j != i {
					emit(k("own%d:%d", i, j), ts[:i], []string{v}, ts[i+1:])
				}
			}
			for j := i + 1; j < len(ts); j++ {
				emit(k("del%d,%d", i, j), ts[:i], ts[i+1:j], ts[j+1:])
				if !x.Thorough() {
					continue
				}
				for _, v := range totalSmall {
					emit(k("del%drep%d:%s", i, j, v), ts[:i], ts[i+1:j], []string{v}, ts[j+1:])
					emit(k("rep%ddel%d:%s", i, j, v), ts[:i], []string{v}, ts[i+1:j], ts[j+1:])
				}
			}
		}
	}
	genNesting(x, deepNests, one)
}

type nest struct{ name, pre, open, mid, close, post string }

var nestForms = []nest{
	{"parens", "func main() { x := ", "(", "1", ")", "; }"},
	{"minus", "func main() { x := ", "- ", "1", "", "; }"},
	{"not", "func main() { x := ", "!", "1", "", "; }"},
	{"addr", "func main() { a := 1; x := ", "& ", "a", "", "; }"},
	{"deref", "func main() { a := 1; x := ", "* ", "a", "", "; }"},
	{"sum", "func main() { x := ", "1 + ", "1", "", "; }"},
	{"sumright", "func main() { x := ", "(1 + ", "1", ")", "; }"},
	{"cast", "func main() { x := 1", " as i64", "", "", "; }"},
	{"block", "func main() { ", "{ ", "", "}", " }"},
	{"if", "func main() { a := 1; ", "if a == 1 { ", "", "}", " }"},
	{"else", "func main() { a := 1; if a == 1 { } ", "else if a == 2 { } ", "else { }", "", " }"},
	{"for", "func main() { a := 1; ", "for a == 1 { ", "", "}", " }"},
	{"switch", "func main() { a := 1; ", "switch a { case 1 { ", "", "} }", " }"},
	{"lambda", "func main() { ", "f := func() { ", "", "};", " }"},
	{"lambdaval", "func main() { x := ", "func() i32 { return ", "1", "; }()", "; }"},
	{"blockval", "func main() { x := ", ":i32 { return ", "1", "; }", "; }"},
	{"call", "func f(a i32) i32 { return a; } func main() { x := ", "f(", "1", ")", "; }"},
	{"method", "struct S { x i32 } func g(s S) S { return s; } func main() { s := @S{x: 1}; t := s", ".g()", "", "", "; }"},
	{"field", "struct L { n *L } func main() { l := @alloc(L, 1); x := l", ".n", "", "", "; }"},
	{"index", "func main() { a := 1; x := a", "[0]", "", "", "; }"},
	{"pointertype", "func main() { x : ", "*", "i32", "", " = 0; }"},
	{"arraytype", "func main() { x : ", "[1]", "i32", "", "; }"},
	{"functype", "func main() { x : ", "func(", "i32", ")", "; }"},
	{"retfunctype", "func main() { x : ", "func() ", "i32", "", "; }"},
	{"arraylit", "func main() { x := ", "[1]i32{", "1", "}", "; }"},
	{"literal", "struct S { s *S } func main() { x := ", "@S{s: ", "0 as *S", "}", "; }"},
	{"compare", "func main() { x := ", "1 == ", "1", "", "; }"},
	{"print", "func main() { ", "@print(", "1", ")", "; }"},
	{"assign", "func main() { a := 1; ", "a = ", "1", "", "; }"},
	{"string", "func main() { x := ", "\"a\" + ", "\"b\"", "", "; }"},
	{"andor", "func main() { a := 1; x := ", "a == 1 && (", "a == 1", ")", "; }"},
	{"opened", "func main() { x := ", "(", "1", "", "; }"},
	{"openedbrace", "func main() { ", "{ ", "", "", " }"},
	{"closed", "func main() { x := ", "", "1", ")", "; }"},
	{"semis", "func main() { ", ";", "", "", " }"},
	{"commas", "func main() { x := 1", ", 1", "", "", "; }"},
	{"statements", "func main() { a := 1; ", "a = a + 1; ", "", "", " }"},
	{"functions", "", "func «() {} ", "", "", "func main() {}"},
	{"params", "func f(a i32", ", p« i32", "", "", ") {} func main() {}"},
	{"fields", "struct S { a i32\n", "p« i32\n", "", "", " } func main() {}"},
	{"structs", "", "struct S« { a i32\n n *S« } ", "", "", "func main() {}"},
	{"byvalue", "struct S { a i32 } ", "struct S« { a S»\n b i32 } ", "", "", "func main() { }"},
	{"aliases", "type A = i32; ", "type A« = *A»; ", "", "", "func main() { }"},
	{"chain", "func f(n i32) i32 { return n; } ", "func f«(n i32) i32 { return f»(n); } ", "", "", "func main() { }"},
	{"locals", "func main() { x := 1; ", "x« := x» + 1; ", "", "", " }"},
	{"globals", "g : i32 = 1; ", "g« : i32 = 2; ", "", "", "func main() { }"},
}

func genNesting(x *Enum, deep bool, one func(key, src string)) {
	depths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 30, 40, 60}
	if deep {
		depths = append(depths, 100, 200)
	}
	for _, f := range nestForms {
		for _, d := range depths {
			var open strings.Builder
			for i := 0; i < d; i++ {
				prev := ""
				if i > 0 {
					prev = fmt.Sprint(i - 1)
				}
				id := fmt.Sprint(i)
				if f.name == "functions" {
					id = "h" + id
				}
				open.WriteString(strings.ReplaceAll(strings.ReplaceAll(f.open, "«", id), "»", prev))
			}
			one(k("nest:%s:%d", f.name, d), f.pre+open.String()+f.mid+strings.Repeat(f.close, d)+f.post+"\n")
		}
	}
}
