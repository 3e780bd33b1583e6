package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// C24: the line that a diagnostic names.

func init() {
	register(&Family{
		ID:        "C24",
		Technique: "exhaustive enumeration of erroneous statements in contexts behind paddings, the line of the first diagnostic and of every other one compared with the line where the error was put",
		Rule: fmt.Sprintf("All combinations of %d erroneous statements of one line (names, types, arity, casts, literals, control flow, syntax, characters) in %d contexts behind %d paddings at the top of the file and in front of the statement (pairs of paddings in the thorough tier), %d erroneous declarations behind every pair of paddings, errors in modules at every depth of imports up to 3, and 26 statements that span lines with each of 14 erroneous parts on a line of its own, 9 with each of 16 whole parts of another type.",
			len(lineStmts), len(lineCtx), len(linePads), len(lineTops)),
		Note: "Only the line is compared, not the column. Errors at the very end of a file, of a string that spans lines and of an operator whose operands are on different lines have no single line and are left out.",
		Gen:  genLines,
	})
}

const lineDecls = "struct S { a i32\n b i8\n }\nunion U { i i32\n f f32\n }\nfunc id(n i32) i32 { return n; }\nfunc two() (i32, i32) { return 1, 2; }\nfunc nop() { }\nconst K := 4;\n"

// Statements of one line that have to be refused wherever a statement may stand.
var lineStmts = []struct{ name, src string }{
	{"undef", "x := nope;"},
	{"undefcall", "nope(1);"},
	{"undefarg", "@print(nope);"},
	{"undefassign", "nope = 3;"},
	{"undeffield", "nope.a = 3;"},
	{"undefindex", "nope[0] = 3;"},
	{"undeflater", "u := later; later := 1;"},
	{"undefdeep", "x := 1 + id(2 * (3 - nope));"},
	{"undefsecond", "x := 1; y := x + nope;"},
	{"undefcond", "if nope { }"},
	{"undeffor", "for i := 0; i < nope; i = i + 1 { }"},
	{"undefswitch", "switch nope { case 1 { } default { } }"},
	{"undefmacro", "#if NOPE { nop(); }"},
	{"decltype", "x : i32 = \"s\";"},
	{"decltype2", "x : i8 = 3;"},
	{"unknowntype", "x : Nope = 3;"},
	{"unknowntype2", "x := 3 as Nope;"},
	{"assigntype", "v = \"s\";"},
	{"assigntype2", "v = 1.5;"},
	{"fieldtype", "s.a = \"s\";"},
	{"fieldnone", "s.q = 3;"},
	{"fieldread", "x := s.q;"},
	{"fieldofint", "x := v.q;"},
	{"methodnone", "s.q(1);"},
	{"callargs", "id();"},
	{"callargs2", "id(1, 2);"},
	{"calltype", "id(\"s\");"},
	{"callint", "v(1);"},
	{"callvoid", "x := nop();"},
	{"multi", "x, y := id(1);"},
	{"multi2", "x, y, z := two();"},
	{"multi3", "v, w = 1, \"s\";"},
	{"addtypes", "x := v + \"s\";"},
	{"addtypes2", "x := 1 as i64 + v;"},
	{"addstruct", "x := s + s;"},
	{"bitfloat", "x := 1.5 & 2.5;"},
	{"cmptypes", "x := v < \"s\";"},
	{"negstruct", "x := -s;"},
	{"notstruct", "x := !s;"},
	{"derefint", "x := *v;"},
	{"indexint", "x := v[0];"},
	{"indextype", "x := p[1.5];"},
	{"caststruct", "x := s as i32;"},
	{"structlit", "x := @S{q: 1};"},
	{"structlit2", "x := @S{a: \"s\"};"},
	{"structlit3", "x := @Nope{a: 1};"},
	{"arraylit", "x := [2]i32{1, \"s\"};"},
	{"arraylit2", "x := [1]i32{1, 2};"},
	{"alloc", "x := @alloc(Nope, 1);"},
	{"alloc2", "x := @alloc(i32, \"s\");"},
	{"sizeof", "x := @sizeof(Nope);"},
	{"free", "@free(v);"},
	{"builtin", "@nope(1);"},
	{"unreachable", "@unreachable(1);"},
	{"assignconst", "K = 5;"},
	{"constcall", "const Q := id(1);"},
	{"condstruct", "if s { }"},
	{"switchstr", "switch \"s\" { case 1 { } default { } }"},
	{"casetype", "switch v { case \"s\" { } default { } }"},
	{"lambdaret", "f := func() i32 { return \"s\"; };"},
	{"lambdanoret", "f := func() i32 { };"},
	{"lambdabreak", "for 1 { f := func() { break; }; }"},
	{"blockret", "x := :i32 { return \"s\"; };"},
	{"blocknoret", "x := :i32 { };"},
	{"union", "x : U = \"s\";"},
	{"retyped", "return \"s\", 1, 2;"},
	{"syntax", "x := (1 + ;"},
	{"syntax2", "x := ;"},
	{"syntax3", "x = = 3;"},
	{"syntax4", "x := [2 i32{1};"},
	{"syntax5", "id(1, ;"},
	{"syntax6", "if { }"},
	{"syntax8", "x : = = 3;"},
	{"syntax9", "x := @S{a 1};"},
	{"syntax10", "for i := 0; ) { }"},
	{"syntax11", "nop(); else { }"},
	{"char", "x := 1 $ 2;"},
	{"charlit", "x := 'ab';"},
	{"bigint", "x := 99999999999999999999999;"},
	{"backslash", "x := 1 \\ 2;"},
}

// Contexts; @ is the line of the statement.
var lineCtx = []struct{ name, src string }{
	{"main", "func main() {\n%V@\n}\n"},
	{"inline", "func main() { %v @ }\n"},
	{"afterstmts", "func main() {\n%Va := 1; b := 2;\n@\n}\n"},
	{"block", "func main() {\n%V{\n{\n@\n}\n}\n}\n"},
	{"ifs", "func main() {\n%Vif v == 0 {\n@\n} else {\nnop();\n}\n}\n"},
	{"elses", "func main() {\n%Vif v == 0 {\nnop();\n} else if v == 1 {\nnop();\n} else {\n@\n}\n}\n"},
	{"elseif", "func main() {\n%Vif v == 0 {\nnop();\n} else if v == 1 {\n@\n}\n}\n"},
	{"loop", "func main() {\n%Vfor i := 0; i < 2; i = i + 1 {\nnop();\n@\n}\n}\n"},
	{"case", "func main() {\n%Vswitch v {\ncase 1 {\nnop();\n}\ncase 2 {\n@\n}\ndefault {\n}\n}\n}\n"},
	{"default", "func main() {\n%Vswitch v {\ncase 1 {\nnop();\n}\ndefault {\n@\n}\n}\n}\n"},
	{"lambda", "func main() {\nf := func(n i32) i32 {\n%V@\nreturn n;\n};\n}\n"},
	{"lambdaarg", "func ap(f func(i32) i32) { }\nfunc main() {\nap(func(n i32) i32 {\n%V@\nreturn n;\n});\n}\n"},
	{"blockexpr", "func main() {\nz := :i32 {\n%V@\nreturn 1;\n};\n}\n"},
	{"macro", "func main() {\n%V#if 1 {\n@\n}\n}\n"},
	{"macro2", "func main() {\n%V#if 0 {\nnope = 3;\n}\n@\n}\n"},
	{"func2", "func main() {\nnop();\n}\nfunc other() {\n%V@\n}\n"},
	{"inloopif", "func main() {\n%Vfor v < 3 {\nif v == 1 {\nbreak;\n}\n@\n}\n}\n"},
}

const lineVarsLn = "v := 1;\nw := 2;\ns := @S{a: 1, b: 2 as i8};\np := &v;\n"

// Paddings: what may stand in front of anything; each ends a line.
var linePads = []struct {
	name, src string
	top       bool // may stand between declarations
	stmt      bool // may stand between statements
}{
	{"none", "", true, true},
	{"blank", "\n", true, true},
	{"blanks", "\n\n\n", true, true},
	{"spaces", "  \t \n\t\n", true, true},
	{"crlf", "\r\n\r\n", true, true},
	{"comment", "// a comment\n", true, true},
	{"comments", "// a \" quote\n// a } brace { \n//\n", true, true},
	{"quotecomment", "// it's 'x \\\n", true, true},
	{"slashes", "//////\n\n", true, true},
	{"decl", "pad := 3;\n", false, true},
	{"string", "pad := \"a // b\";\n", false, true},
	{"multistring", "pad := \"a\nb\n\n c\";\n", false, true},
	{"linebreaks", "pad := \"a\\\nb\\\n\\\n\";\n", false, true},
	{"charbreak", "pad := '\n'; pad2 := '\\\n';\n", false, true},
	{"escapes", "pad := \"\\n\\n\\\"\";\n", false, true},
	{"chars", "pad := '\\n'; pad2 := '\"'; pad3 := '/';\n", false, true},
	{"multiline", "pad := id(\n1\n);\n", false, true},
	{"multiexpr", "pad := 1 +\n2 *\n3;\n", false, true},
	{"nested", "{\npad := 1;\n}\n", false, true},
	{"ifpad", "if 1 == 1 {\nnop();\n}\nelse {\n}\n", false, true},
	{"lampad", "pad := func(n i32) i32 {\n\nreturn n;\n};\n", false, true},
	{"macropad", "#if 0 {\nzz := nope;\n}\n", false, true},
	{"macropad1", "#if 1 {\nnop();\n}\n", false, true},
	{"trailing", "nop(); // end\n", false, true},
	{"struct", "struct Pad {\n a i32\n\n b i8\n}\n", true, false},
	{"func", "func padf(\n a i32,\n b i32) i32 {\n return a;\n\n}\n", true, false},
	{"funcs", "func padf() { }\nfunc padg() { return; } // c\n", true, false},
	{"globals", "padv := 1;\nconst PADK := \"a\nb\";\n", true, false},
	{"breaks", "padv := '\n';\nconst PADK := \"a\\\nb\";\nconst PADC := '\\\n';\n", true, false},
	{"alias", "type PadT = i32;\n", true, false},
	{"extern", "extern func puts(*i8) i32;\n", true, false},
	{"macrotop", "#if 0 {\nfunc q() { nope;\n}\n}\n", true, false},
	{"macrotop1", "#if 1 {\nfunc q() {\n}\n}\n", true, false},
}

var lineTops = []struct{ name, src string }{
	{"globalundef", "gx := nope;"},
	{"globaltype", "gx : i32 = \"s\";"},
	{"globalunknown", "gx : Nope = 3;"},
	{"constundef", "const C := nope + 1;"},
	{"constcall", "const C := id(2);"},
	{"paramtype", "func g(a Nope) { }"},
	{"resulttype", "func g() Nope { }"},
	{"noreturn", "func g() i32 { }"},
	{"badreturn", "func g() i32 { return \"s\"; }"},
	{"badreturn2", "func g() { return 1; }"},
	{"badreturn3", "func g() (i32, i32) { return 1; }"},
	{"inside", "func g(n i32) i32 { return n + nope; }"},
	{"twice", "func id(n i32) i32 { return n; }"},
	{"fieldtype", "struct Q { a Nope }"},
	{"selfstruct", "struct Q { a Q }"},
	{"unionfield", "union Q { a Nope }"},
	{"alias", "type Q = Nope;"},
	{"import", "import nm, \"./lines_none.cd\";"},
	{"macro", "#if NOPE { func g() { } }"},
	{"macrostr", "#if 1 + { }"},
	{"syntax", "func (a i32) { }"},
	{"syntax2", "func g(a i32 { }"},
	{"syntax3", "struct { a i32 }"},
	{"syntax4", "gx := ;"},
	{"syntax5", "gx : + = 3;"},
	{"syntax6", "const := 3;"},
	{"syntax7", "import m;"},
	{"syntax8", "type = i32;"},
	{"syntax9", "extern func;"},
	{"syntax10", ") ;"},
	{"char", "gx := 3 $ 4;"},
	{"bigint", "gx := 99999999999999999999999;"},
	{"charlit", "gx := 'ab';"},
	{"stmt", "gx = ;"},
}

var diagPos = regexp.MustCompile(`^\s*(?:\[(\d+):(\d+)\]|on (\d+):(\d+))`)

// diagLine is the line a diagnostic starts with; 0 if it names none.
func diagLine(e string) int {
	m := diagPos.FindStringSubmatch(ansi.ReplaceAllString(e, ""))
	if m == nil {
		return 0
	}
	n, _ := strconv.Atoi(m[1] + m[3])
	return n
}

// lineCase: every diagnostic of the analysis and the first one of the parser
// names the line.
func lineCase(src string, line int, files map[string]string, nested string, first bool) Case {
	return Case{Kind: KCustom, Src: src, Files: files, Fn: func() Outcome {
		if files != nil {
			defer writeFiles(files)()
		}
		c := compileSrc(src, opts{noModule: true})
		o := Outcome{States: 1, Trans: 1, Traces: 1}
		if c.Stage != StParse && c.Stage != StSemantic {
			o.Bad = "it has to be refused with a diagnostic on line " + fmt.Sprint(line) + ": " + c.why()
			return o
		}
		if len(c.Errs) == 0 {
			o.Bad = "refused without a diagnostic"
			return o
		}
		for i, e := range c.Errs {
			if i > 0 && (first || c.Stage == StParse) {
				break
			}
			if n := diagLine(e); n != line {
				o.Bad = fmt.Sprintf("the error is on line %d, the diagnostic says %d: %s", line, n, strings.Join(c.Errs, " | "))
				return o
			}
		}
		if nested != "" && !strings.Contains(ansi.ReplaceAllString(strings.Join(c.Errs, "\n"), ""), nested) {
			o.Bad = fmt.Sprintf("no diagnostic names %q: %s", nested, strings.Join(c.Errs, " | "))
		}
		return o
	}}
}

func lineAt(s string) int { return 1 + strings.Count(s, "\n") }

func genLines(x *Enum) {
	deep := x.Thorough()
	// Statements.
	for _, st := range lineStmts {
		for _, cx := range lineCtx {
			for _, p1 := range linePads {
				for _, p2 := range linePads {
					if !p1.top || !p2.stmt {
						continue
					}
					if !deep && p1.name != "none" && p2.name != "none" && !(p1.name == "blank" && p2.name == "comment") {
						continue
					}
					st, cx, p1, p2 := st, cx, p1, p2
					if cx.name == "inline" && p2.name != "none" {
						continue
					}
					x.Case(k("stmt:%s:%s:%s:%s", st.name, cx.name, p1.name, p2.name), func() Case {
						src := p1.src + lineDecls + strings.NewReplacer("%V", lineVarsLn, "%v", strings.ReplaceAll(lineVarsLn, "\n", " ")).Replace(cx.src)
						at := strings.Index(src, "@\n")
						if cx.name == "inline" {
							at = strings.LastIndex(src, "@")
						}
						pre := src[:at] + p2.src
						return lineCase(pre+st.src+src[at+1:], lineAt(pre), nil, "", false)
					})
				}
			}
		}
	}
	// Declarations.
	for _, tp := range lineTops {
		for _, p1 := range linePads {
			for _, p2 := range linePads {
				if !p1.top || !p2.top || p1.name == p2.name && p1.src != "" {
					continue
				}
				tp, p1, p2 := tp, p1, p2
				for _, tail := range []string{"", "\nfunc main() { }\n", " // tail\n\nfunc main() {\n}\n"} {
					tail := tail
					x.Case(k("top:%s:%s:%s:%d", tp.name, p1.name, p2.name, len(tail)), func() Case {
						if strings.Contains(p1.src, "padf") && strings.Contains(p2.src, "padf") || strings.Contains(p1.src, " q(") && strings.Contains(p2.src, " q(") {
							return Case{Skip: "one name twice"}
						}
						pre := p1.src + lineDecls + p2.src
						t := tail
						if t == "" {
							t = "\n"
						}
						return lineCase(pre+tp.src+t, lineAt(pre), nil, "", false)
					})
				}
			}
		}
	}
	genLineModules(x)
	genLineSpans(x)
	genLinePairs(x)
}

// Two errors: every diagnostic names one of the two lines.
func genLinePairs(x *Enum) {
	forms := []string{
		"func main() {\n%V{\n@\n}\nnop();\n{\n@\n}\n}\n",
		"func main() {\n%V@\n}\n\nfunc other() {\n%V\n@\n}\n",
		"func main() {\n%Vif v == 1 {\n@\n} else {\n@\n}\n}\n",
		"func main() {\n%Vf := func() {\n@\n};\nfor 1 {\n@\n}\n}\n",
	}
	for fi, f := range forms {
		for _, s1 := range lineStmts {
			for _, s2 := range lineStmts {
				for _, p := range linePads {
					if !p.stmt || !x.Thorough() && p.name != "comment" && p.name != "multistring" {
						continue
					}
					fi, f, s1, s2, p := fi, f, s1, s2, p
					x.Case(k("pair:%d:%s:%s:%s", fi, s1.name, s2.name, p.name), func() Case {
						parts := strings.Split(lineDecls+strings.ReplaceAll(strings.Replace(f, "@\n", "\x00", 2), "%V", lineVarsLn), "\x00")
						a := parts[0] + p.src
						b := a + s1.src + "\n" + parts[1] + p.src
						return Case{Kind: KCustom, Src: b + s2.src + "\n" + parts[2], Fn: func() Outcome {
							src := b + s2.src + "\n" + parts[2]
							l1, l2 := lineAt(a), lineAt(b)
							c := compileSrc(src, opts{noModule: true})
							o := Outcome{States: 1, Trans: 1, Traces: 1}
							if c.Stage != StParse && c.Stage != StSemantic || len(c.Errs) == 0 {
								o.Bad = fmt.Sprintf("it has to be refused with a diagnostic on line %d or %d: %s", l1, l2, c.why())
								return o
							}
							for i, e := range c.Errs {
								if n := diagLine(e); n != l1 && n != l2 && (i == 0 || c.Stage == StSemantic) {
									o.Bad = fmt.Sprintf("the errors are on lines %d and %d, a diagnostic says %d: %s", l1, l2, n, strings.Join(c.Errs, " | "))
								}
							}
							return o
						}}
					})
				}
			}
		}
	}
}

// Errors inside of modules: the importing line and the line in the module.
func genLineModules(x *Enum) {
	for depth := 1; depth <= 3; depth++ {
		for _, tp := range lineTops {
			for _, p1 := range linePads {
				for _, p2 := range linePads {
					if !p1.top || !p2.top {
						continue
					}
					if !x.Thorough() && p1.name != "none" && p2.name != "none" && p1.name != "blanks" {
						continue
					}
					depth, tp, p1, p2 := depth, tp, p1, p2
					x.Case(k("mod:%d:%s:%s:%s", depth, tp.name, p1.name, p2.name), func() Case {
						pre := lineDecls + p2.src
						files := map[string]string{fmt.Sprintf("lines_%d.cd", depth): pre + tp.src + "\n"}
						for d := 1; d < depth; d++ {
							files[fmt.Sprintf("lines_%d.cd", d)] = fmt.Sprintf("func q%d() { }\nimport mm, \"./lines_%d.cd\";\n", d, d+1)
						}
						nested := fmt.Sprintf("%d:", lineAt(pre))
						return lineCase(p1.src+"import mm, \"./lines_1.cd\";\nfunc main() { }\n", lineAt(p1.src), files, nested, true)
					})
				}
			}
		}
	}
}

// Names on a line of their own.
func genLineSpans(x *Enum) {
	spans := []struct{ name, src string }{
		{"call", "id(\n@\n);"},
		{"call2", "@print(1,\n2,\n@,\n4);"},
		{"call3", "@print(id(1),\nid(\n\n@));"},
		{"plus", "x := 1 +\n@;"},
		{"plus2", "x := 1 +\n2 +\n@ +\n3;"},
		{"paren", "x := (\n1 +\n(@\n)\n);"},
		{"struct", "x := @S{\na: 1,\nb: @\n};"},
		{"array", "x := [3]i32{\n1,\n@,\n3};"},
		{"index", "x := p[\n@\n];"},
		{"assign", "v =\n@;"},
		{"decl", "x :=\n@;"},
		{"decl2", "x : i32 =\n\n@;"},
		{"if", "if v == 1 ||\n@ == 2 {\n}"},
		{"elseif", "if v == 1 {\n}\nelse if @ == 1 {\n}"},
		{"for", "for i := 0;\ni < @;\ni = i + 1 {\n}"},
		{"for2", "for i := 0;\ni < 3;\ni = @ {\n}"},
		{"switch", "switch v {\ncase 1 {\n}\ncase @ {\n}\ndefault {\n}\n}"},
		{"switchhead", "switch\n@ {\ncase 1 {\n}\ndefault { }\n}"},
		{"neg", "x := -\n@;"},
		{"not", "x := !\n@;"},
		{"cast", "x := @cast(i64,\n@);"},
		{"multi", "x, y := 1,\n@;"},
		{"block", "x := :i32 {\n\nreturn @;\n};"},
		{"lambda", "x := func(n i32) i32 {\nreturn n +\n@;\n};"},
		{"lambdaarg", "id((func() i32 {\nreturn @;\n})());"},
		{"method", "x := s.a +\nid(\n@);"},
		// the whole of what stands on the line has another type
		{"whole:if", "if v == 1 {\n}\nelse if (#) {\n}"},
		{"whole:elseif2", "if v == 1 {\n} else if v == 2 {\nnop();\n\n}\n\nelse if (#) {\n} else {\n}"},
		{"whole:for", "for i := 0; i < 3; i = i + 1 {\nif v == 1 {\n}\nif # {\n}\n}"},
		{"whole:case", "switch v {\ncase 1 {\n}\ncase # {\n}\n}"},
		{"whole:case2", "switch v {\ncase 1 {\n}\n\ncase 2 {\nnop();\n}\ncase # {\n}\ndefault {\n}\n}"},
		{"whole:return", "x := func(n i32) i32 {\nif n == 1 {\nreturn 1;\n}\nreturn #;\n};"},
		{"whole:blockreturn", "x := :i32 {\nif v == 1 {\nreturn 1;\n}\n\nreturn #;\n};"},
		{"whole:assign", "{\nv = 1;\nv = #;\n}"},
		{"whole:for3", "for i := 0;\ni < 3;\ni = # {\n}"},
	}
	parts := []string{"nope", "(1 + 1.5)", "id(1, 2)", "id(\"s\")", "(-s)", "s.q", "v[0]", "(*v)", "(s as i32)", "nope(1)", "(v < \"s\")", "(2 * (v + s))", "@S{q: 1}", "@nope(1)"}
	wholes := []string{"s", "\"t\"", "&v", "(3000000000 as *i8)", "@S{a: 1, b: 2 as i8}", "[1]i32{3}", "func() { }", "id", "(\"s\" + \"t\")", "(p + 1)"}
	for _, sp := range spans {
		for _, cx := range lineCtx {
			if cx.name == "inline" {
				continue
			}
			for _, p := range linePads {
				if !p.stmt {
					continue
				}
				sp, cx, p := sp, cx, p
				if strings.HasPrefix(sp.name, "whole:") {
					for wi, w := range append(append([]string{}, wholes...), "(3000000000 + 3000000000)", "(1.5 + 2.5)", "-1.5", "(3 as i64)", "(1.5 as i8)", "(2.5 * 2.5 - 1.5)") {
						w := w
						if wi >= len(wholes) && (strings.Contains(sp.src, "if (#)") || strings.Contains(sp.src, "if #")) {
							continue // any number is a condition
						}
						if wi > 0 && p.name != "none" && p.name != "comment" && !x.Thorough() {
							continue
						}
						x.Case(k("span:%s:%d:%s:%s", sp.name, wi, cx.name, p.name), func() Case {
							src := lineDecls + strings.ReplaceAll(cx.src, "%V", lineVarsLn)
							at := strings.Index(src, "@\n")
							pre := src[:at] + p.src
							i := strings.Index(sp.src, "#")
							return lineCase(pre+sp.src[:i]+w+sp.src[i+1:]+src[at+1:], lineAt(pre+sp.src[:i]), nil, "", true)
						})
					}
					continue
				}
				for pi, part := range parts {
					if pi > 0 && p.name != "none" && p.name != "comment" && !x.Thorough() {
						continue
					}
					part := part
					x.Case(k("span:%s:%d:%s:%s", sp.name, pi, cx.name, p.name), func() Case {
						src := lineDecls + strings.ReplaceAll(cx.src, "%V", lineVarsLn)
						at := strings.Index(src, "@\n")
						pre := src[:at] + p.src
						// The last @ that is no builtin or literal.
						i := strings.LastIndex(strings.NewReplacer("@print", "#print", "@cast", "#cast", "@S{", "#S{").Replace(sp.src), "@")
						return lineCase(pre+sp.src[:i]+part+sp.src[i+1:]+src[at+1:], lineAt(pre+sp.src[:i]), nil, "", true)
					})
				}
			}
		}
	}
}
