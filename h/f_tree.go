package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/gabivlj/candice/internals/tree_printer"
)

// C28: the tree that the compiler prints is the one of the program.

func init() {
	register(&Family{
		ID:        "C28",
		Technique: "exhaustive enumeration of syntax trees, each written as a program and its printed tree compared with the drawing of the tree itself",
		Rule: "Every expression of two constructors (thorough: three) out of 48 - 18 operators, the dot, prefixes, calls, indices, casts, literals, builtins, function literals and block expressions - in every operand of the other, every pair of operands for the operators, each of the constructors in 24 statement positions; " +
			"every statement of 31 kinds in every block of every other one, three deep, and every list of 2 (3) of them, at the top and in a function; towers of up to 9 of each constructor and of every two in turns, lists of up to 12 of everything; 24 types in 9 positions; " +
			"and every truncation, deletion, repetition and replacement of a token of 46 programs and every sequence of 2 (3) of 62 tokens in 17 contexts: the printer has to end, with an error exactly when the parser reports one.",
		Note: "Parentheses and the conditions of #if leave no node in the tree; the type parameters of a generic module are not explored. The drawing is that of the tests of the printer.",
		Gen:  genTree,
	})
}

type tnode struct {
	tag  string
	kids []tnode
	leaf bool
}

func lf(s string) tnode                   { return tnode{tag: s, leaf: true} }
func nd(tag string, kids ...tnode) tnode  { return tnode{tag: tag, kids: kids} }
func ndl(tag string, kids []tnode) tnode  { return tnode{tag: tag, kids: kids} }
func bodyTree(name string, l []stm) tnode { return ndl(name, stmTrees(l)) }
func stmTrees(l []stm) (r []tnode) {
	for _, s := range l {
		r = append(r, s.t)
	}
	return
}

// lines is the drawing of a tree.  A node without children is not drawn.
func (t tnode) lines() []string {
	if t.leaf {
		return strings.Split(t.tag, "\n")
	}
	if len(t.kids) == 0 {
		return []string{""}
	}
	var r []string
	pad := strings.Repeat(" ", len(t.tag))
	n := len(t.kids)
	for i, c := range t.kids {
		head, link, below := pad, "╠", "║"
		if i == n-1 {
			link, below = "╚", " "
		}
		if i == 0 {
			head, link = t.tag, "╦"
			if n == 1 {
				link = "═"
			}
		}
		for j, l := range c.lines() {
			if j == 0 {
				r = append(r, head+link+l)
			} else {
				r = append(r, pad+below+l)
			}
		}
	}
	return r
}

// xpr is an expression: its text, the level of its operator, its tree.
type xpr struct {
	s   string
	lvl int
	t   tnode
}

func (e xpr) at(lvl int) string {
	if e.lvl < lvl {
		return "(" + e.s + ")"
	}
	return e.s
}

type ctor struct {
	n  int
	mk func(a []xpr) xpr
}

func treeCtors() []ctor {
	var r []ctor
	for _, op := range binOps {
		op := op
		l := opLevel(op)
		r = append(r, ctor{2, func(a []xpr) xpr {
			return xpr{a[0].at(l) + " " + op + " " + a[1].at(l+1), l, nd("ast.BinaryOperation", a[0].t, lf("'"+op+"'"), a[1].t)}
		}})
	}
	pre := func(op string) {
		r = append(r, ctor{1, func(a []xpr) xpr {
			return xpr{op + " " + a[0].at(10), 10, nd("ast.PrefixOperation", lf("'"+op+"'"), a[0].t)}
		}})
	}
	for _, op := range strings.Fields("- ! & * ++ --") {
		pre(op)
	}
	add := func(n int, mk func(a []xpr) xpr) { r = append(r, ctor{n, mk}) }
	params := func(a []xpr) tnode {
		var ts []tnode
		for _, e := range a {
			ts = append(ts, e.t)
		}
		return ndl("ast.Parameters", ts)
	}
	args := func(a []xpr) string {
		var s []string
		for _, e := range a {
			s = append(s, e.at(0))
		}
		return strings.Join(s, ", ")
	}
	add(1, func(a []xpr) xpr { return xpr{a[0].at(11) + "()", 11, nd("ast.Call", a[0].t, params(nil))} })
	add(2, func(a []xpr) xpr {
		return xpr{a[0].at(11) + "(" + a[1].at(0) + ")", 11, nd("ast.Call", a[0].t, params(a[1:]))}
	})
	add(3, func(a []xpr) xpr {
		return xpr{a[0].at(11) + "(" + args(a[1:]) + ")", 11, nd("ast.Call", a[0].t, params(a[1:]))}
	})
	add(2, func(a []xpr) xpr {
		return xpr{a[0].at(11) + "[" + a[1].s + "]", 11, nd("ast.IndexAccess", a[0].t, a[1].t)}
	})
	add(1, func(a []xpr) xpr {
		return xpr{a[0].at(11) + ".fld", 11, nd("ast.BinaryOperation", a[0].t, lf("'.'"), lf("fld"))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{a[0].at(9) + " as *i64", 9, nd("ast.BuiltinCall", lf("cast"), nd("ast.TypeParameters", lf("*i64")), params(a))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{"@cast(i8, " + a[0].at(0) + ")", 12, nd("ast.BuiltinCall", lf("cast"), nd("ast.TypeParameters", lf("i8")), params(a))}
	})
	add(2, func(a []xpr) xpr {
		return xpr{"@print(" + args(a) + ")", 12, nd("ast.BuiltinCall", lf("print"), params(a))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{"@free(" + args(a) + ")", 12, nd("ast.BuiltinCall", lf("free"), params(a))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{"@alloc(S, " + args(a) + ")", 12, nd("ast.BuiltinCall", lf("alloc"), nd("ast.TypeParameters", lf("S")), params(a))}
	})
	add(0, func(a []xpr) xpr {
		return xpr{"@sizeof([2]i32)", 12, nd("ast.BuiltinCall", lf("sizeof"), nd("ast.TypeParameters", lf("[2]i32")), params(nil))}
	})
	add(2, func(a []xpr) xpr {
		return xpr{"@S{p: " + a[0].at(0) + ", q: " + a[1].at(0) + "}", 12, nd("ast.StructLiteral", lf("S"), nd("ast.Field", lf("p"), a[0].t), nd("ast.Field", lf("q"), a[1].t))}
	})
	add(0, func(a []xpr) xpr { return xpr{"@S{}", 12, nd("ast.StructLiteral", lf("S"))} })
	add(2, func(a []xpr) xpr {
		return xpr{"[2]*S{" + args(a) + "}", 12, nd("ast.ArrayLiteral", nd("types.Array", lf("[2]*S")), nd("ast.ArrayElement", a[0].t), nd("ast.ArrayElement", a[1].t))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{"func() i32 { return " + a[0].s + "; }", 0, nd("ast.AnonymousFunction", nd("types.Parameters"), nd("types.Return", lf("i32")), nd("ast.Block", nd("ast.ReturnStatement", a[0].t)))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{"func(m i8, n *S) { x = " + a[0].s + "; }", 0, nd("ast.AnonymousFunction", nd("types.Parameters", lf("m i8"), lf("n *S")), nd("types.Return", lf("void")), nd("ast.Block", nd("ast.AssignmentStatement", lf("x"), a[0].t)))}
	})
	add(1, func(a []xpr) xpr {
		return xpr{":i64 { return " + a[0].s + "; }", 0, nd("ast.ExpressionBlock", lf("i64"), nd("ast.Block", nd("ast.ReturnStatement", a[0].t)))}
	})
	leaf := func(s, t string) { add(0, func([]xpr) xpr { return xpr{s, 13, lf(t)} }) }
	leaf("7", "7 (i32)")
	leaf("3000000000", "3000000000 (i64)")
	leaf("0x1F", "31 (i32)")
	leaf("0b101", "5 (i32)")
	leaf("1.5", "1.5 (f32)")
	leaf("'c'", "'c' (i8)")
	add(0, func([]xpr) xpr { return xpr{`"s t"`, 13, nd("ast.StringLiteral", lf(`"s t"`))} })
	return r
}

type stm struct {
	s string
	t tnode
}

// stmKinds are the statements around a list of statements (nil: none).
func stmKinds() []func(b []stm) stm {
	text := func(b []stm) string {
		var r strings.Builder
		for _, s := range b {
			r.WriteString(s.s + "\n")
		}
		return r.String()
	}
	blk := func(b []stm) string { return "{ " + text(b) + "}" }
	bt := func(b []stm) tnode { return ndl("ast.Block", stmTrees(b)) }
	var r []func(b []stm) stm
	add := func(f func(b []stm) stm) { r = append(r, f) }
	asg := func(l, r string) tnode { return nd("ast.AssignmentStatement", lf(l), lf(r)) }
	add(func(b []stm) stm { return stm{blk(b), bt(b)} })
	add(func(b []stm) stm { return stm{"if c " + blk(b), nd("ast.IfStatement", lf("c"), bt(b))} })
	add(func(b []stm) stm {
		return stm{"if c { x = y; } else " + blk(b), nd("ast.IfStatement", lf("c"), nd("ast.Block", asg("x", "y")), nd("ast.Else", bt(b)))}
	})
	add(func(b []stm) stm {
		return stm{"if c " + blk(b) + " else { x = y; }", nd("ast.IfStatement", lf("c"), bt(b), nd("ast.Else", nd("ast.Block", asg("x", "y"))))}
	})
	add(func(b []stm) stm {
		return stm{"if c { x = y; } else if d " + blk(b), nd("ast.IfStatement", lf("c"), nd("ast.Block", asg("x", "y")), nd("ast.ConditionPlusBlock", lf("d"), bt(b)))}
	})
	add(func(b []stm) stm {
		return stm{"if c { x = y; } else if d " + blk(b) + " else if e { y = x; } else { z = x; }", nd("ast.IfStatement", lf("c"), nd("ast.Block", asg("x", "y")), nd("ast.ConditionPlusBlock", lf("d"), bt(b)), nd("ast.ConditionPlusBlock", lf("e"), nd("ast.Block", asg("y", "x"))), nd("ast.Else", nd("ast.Block", asg("z", "x"))))}
	})
	add(func(b []stm) stm { return stm{"for " + blk(b), nd("ast.ForStatement", bt(b))} })
	add(func(b []stm) stm {
		return stm{"for c " + blk(b), nd("ast.ForStatement", nd("ast.Condition", lf("c")), bt(b))}
	})
	add(func(b []stm) stm {
		return stm{"for i := a; i; i = b " + blk(b), nd("ast.ForStatement", nd("ast.Initializer", nd("ast.DeclarationStatement", lf("i"), lf("a"))), nd("ast.Condition", lf("i")), nd("ast.Operation", asg("i", "b")), bt(b))}
	})
	add(func(b []stm) stm {
		return stm{"switch v { case p " + blk(b) + " case q { x = y; } }", nd("ast.SwitchStatement", nd("ast.Condition", lf("v")), nd("ast.Case", lf("p"), bt(b)), nd("ast.Case", lf("q"), nd("ast.Block", asg("x", "y"))))}
	})
	add(func(b []stm) stm {
		return stm{"switch v { case p { x = y; } default " + blk(b) + " }", nd("ast.SwitchStatement", nd("ast.Condition", lf("v")), nd("ast.Case", lf("p"), nd("ast.Block", asg("x", "y"))), nd("ast.Default", bt(b)))}
	})
	add(func(b []stm) stm {
		return stm{"switch v { default " + blk(b) + " }", nd("ast.SwitchStatement", nd("ast.Condition", lf("v")), nd("ast.Default", bt(b)))}
	})
	add(func(b []stm) stm { return stm{"#if 1 " + blk(b), ndl("ast.MacroBlock", stmTrees(b))} })
	add(func(b []stm) stm {
		return stm{"g := func(m i32) i8 " + blk(b) + ";", nd("ast.DeclarationStatement", lf("g"), nd("ast.AnonymousFunction", nd("types.Parameters", lf("m i32")), nd("types.Return", lf("i8")), bt(b)))}
	})
	add(func(b []stm) stm {
		return stm{"x = :i32 " + blk(b) + ";", nd("ast.AssignmentStatement", lf("x"), nd("ast.ExpressionBlock", lf("i32"), bt(b)))}
	})
	return r
}

const treeBlocks = 14

func treeLeaves(top bool) []stm {
	r := []stm{
		{"x = y;", nd("ast.AssignmentStatement", lf("x"), lf("y"))},
		{"break;", lf("ast.BreakStatement")},
		{"continue;", lf("ast.ContinueStatement")},
		{"return;", nd("ast.ReturnStatement", lf(""))},
		{"return x;", nd("ast.ReturnStatement", lf("x"))},
		{"return x, y;", nd("ast.ReturnStatement", nd("ast.CommaExpressions", lf("x"), lf("y")))},
		{"x := y;", nd("ast.DeclarationStatement", lf("x"), lf("y"))},
		{"x : *i32 = y;", nd("ast.DeclarationStatement", lf("x"), lf("*i32"), lf("y"))},
		{"const X := 1;", nd("ast.DeclarationStatement", lf("X"), lf("1 (i32)"))},
		{"x, y := f();", nd("ast.MultipleDeclarationStatement", lf("x"), lf("y"), nd("ast.Call", lf("f"), nd("p")))},
		{"x, y = y, x;", nd("ast.AssignmentStatement", nd("ast.CommaExpressions", lf("x"), lf("y")), nd("ast.CommaExpressions", lf("y"), lf("x")))},
		{"f(x);", nd("ast.ExpressionStatement", nd("ast.Call", lf("f"), nd("ast.Parameters", lf("x"))))},
		{"*x = y;", nd("ast.AssignmentStatement", nd("ast.PrefixOperation", lf("'*'"), lf("x")), lf("y"))},
		{"x[y] = z;", nd("ast.AssignmentStatement", nd("ast.IndexAccess", lf("x"), lf("y")), lf("z"))},
		{"x.y = z;", nd("ast.AssignmentStatement", nd("ast.BinaryOperation", lf("x"), lf("'.'"), lf("y")), lf("z"))},
		{"@free(x);", nd("ast.ExpressionStatement", nd("ast.BuiltinCall", lf("free"), nd("ast.Parameters", lf("x"))))},
		{"++x;", nd("ast.ExpressionStatement", nd("ast.PrefixOperation", lf("'++'"), lf("x")))},
	}
	if top {
		r = append(r,
			stm{"struct S { }", nd("ast.StructStatement", lf("S"))},
			stm{"struct S { a i32\n b *S }", nd("ast.StructStatement", lf("S"), nd("ast.Field", lf("a"), lf("i32")), nd("ast.Field", lf("b"), lf("*S")))},
			stm{"union U { a i32\n b f64 }", nd("ast.UnionStatement", lf("U"), nd("ast.Field", lf("a"), lf("i32")), nd("ast.Field", lf("b"), lf("f64")))},
			stm{"type T = [2]S;", nd("ast.TypeDefinition", lf("T"), lf("[2]S"))},
			stm{"import m, i32, *i8, \"./m.cd\";", nd("ast.ImportStatement", lf("m"), lf("i32"), lf("*i8"), lf("\"./m.cd\""))},
			stm{"extern func puts(*i8) i32;", nd("ast.ExternStatement", lf("func puts(*i8) i32"))},
			stm{"func f() { x = y; }", nd("ast.FunctionDeclarationStatement", lf("f"), nd("types.Return", lf("void")), nd("ast.Block", nd("ast.AssignmentStatement", lf("x"), lf("y"))))},
			stm{"func f(a i32, b *S) (i32, i8) { }", nd("ast.FunctionDeclarationStatement", lf("f"), nd("types.Parameters", lf("a i32"), lf("b *S")), nd("types.Return", lf("i32, i8")), nd("ast.Block"))},
			stm{"pub func f(a i32) i32 { return a; }", nd("ast.FunctionDeclarationStatement", lf("f"), nd("types.Parameters", lf("a i32")), nd("types.Return", lf("i32")), nd("ast.Block", nd("ast.ReturnStatement", lf("a"))))})
	}
	return r
}

func printTree(src string) (text, err string, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	var b bytes.Buffer
	if e := tree_printer.WriteOutput(src, &b); e != nil {
		err = e.Error()
	}
	return b.String(), err, ""
}

type treeItem struct {
	src  string
	want tnode
}

func checkTrees(l []treeItem) Outcome {
	for i, it := range l {
		text, err, crash := printTree(it.src)
		want := strings.TrimSpace(strings.Join(it.want.lines(), "\n")) + "\n"
		switch {
		case crash != "":
			return Outcome{Bad: fmt.Sprintf("the printer panics: %s\nprogram: %s", crash, it.src), Trans: i}
		case err != "":
			return Outcome{Bad: fmt.Sprintf("the program has no syntax error, reported: %s\nprogram: %s", err, it.src), Trans: i}
		case text != want:
			return Outcome{Bad: fmt.Sprintf("the tree is\n%s\nit has to be\n%s\nprogram: %s", text, want, it.src), Trans: i}
		}
	}
	return Outcome{Trans: len(l), Traces: len(l)}
}

// totalTrees: the printer ends, and reports an error when the parser does.
func totalTrees(l []string) Outcome {
	for i, src := range l {
		_, err, crash := printTree(src)
		if crash != "" {
			return Outcome{Bad: fmt.Sprintf("the printer panics: %s\nprogram: %s", crash, src), Trans: i}
		}
		c := compileSrc(src, opts{noText: true, noModule: true})
		if (c.Stage == StParse) != (err != "") {
			return Outcome{Bad: fmt.Sprintf("the compiler says %s, the printer reports %q\nprogram: %s", c.why(), err, src), Trans: i}
		}
	}
	return Outcome{Trans: len(l), Traces: len(l)}
}

func repTree(t tnode, n int) (r []tnode) {
	for i := 0; i < n; i++ {
		r = append(r, t)
	}
	return
}

func fieldTrees(nm []string) (r []tnode) {
	for _, f := range nm {
		r = append(r, nd("ast.Field", lf(f), lf("i32")))
	}
	return
}

func paramTrees(nm []string) (r []tnode) {
	for _, f := range nm {
		r = append(r, lf(f+" i32"))
	}
	return
}

func genTree(x *Enum) {
	cs := treeCtors()
	prog := func(ts ...tnode) tnode { return nd("ast.Program", ts...) }
	// a position of an expression: its text and its tree
	type pos struct {
		s string
		t func(e tnode) tnode
	}
	wrap := func(f func(e tnode) tnode) func(e tnode) tnode {
		return func(e tnode) tnode {
			return prog(nd("ast.FunctionDeclarationStatement", lf("main"), nd("types.Return", lf("void")), nd("ast.Block", f(e))))
		}
	}
	in := func(s string, f func(e tnode) tnode) pos { return pos{"func main() { " + s + " }", wrap(f)} }
	xy := nd("ast.Block", nd("ast.AssignmentStatement", lf("x"), lf("y")))
	places := []pos{
		in("v = $;", func(e tnode) tnode { return nd("ast.AssignmentStatement", lf("v"), e) }),
		in("v := $;", func(e tnode) tnode { return nd("ast.DeclarationStatement", lf("v"), e) }),
		in("v : i32 = $;", func(e tnode) tnode { return nd("ast.DeclarationStatement", lf("v"), lf("i32"), e) }),
		in("const v := $;", func(e tnode) tnode { return nd("ast.DeclarationStatement", lf("v"), e) }),
		in("v, w := $;", func(e tnode) tnode { return nd("ast.MultipleDeclarationStatement", lf("v"), lf("w"), e) }),
		in("v[$] = w;", func(e tnode) tnode {
			return nd("ast.AssignmentStatement", nd("ast.IndexAccess", lf("v"), e), lf("w"))
		}),
		in("return $;", func(e tnode) tnode { return nd("ast.ReturnStatement", e) }),
		in("return p, $;", func(e tnode) tnode { return nd("ast.ReturnStatement", nd("ast.CommaExpressions", lf("p"), e)) }),
		in("f($);", func(e tnode) tnode {
			return nd("ast.ExpressionStatement", nd("ast.Call", lf("f"), nd("ast.Parameters", e)))
		}),
		in("@print($, p);", func(e tnode) tnode {
			return nd("ast.ExpressionStatement", nd("ast.BuiltinCall", lf("print"), nd("ast.Parameters", e, lf("p"))))
		}),
		in("if ($) { x = y; }", func(e tnode) tnode { return nd("ast.IfStatement", e, xy) }),
		in("if a { x = y; } else if ($) { x = y; }", func(e tnode) tnode {
			return nd("ast.IfStatement", lf("a"), xy, nd("ast.ConditionPlusBlock", e, xy))
		}),
		in("for ($) { x = y; }", func(e tnode) tnode { return nd("ast.ForStatement", nd("ast.Condition", e), xy) }),
		in("for i := $; a; i = b { x = y; }", func(e tnode) tnode {
			return nd("ast.ForStatement", nd("ast.Initializer", nd("ast.DeclarationStatement", lf("i"), e)), nd("ast.Condition", lf("a")), nd("ast.Operation", nd("ast.AssignmentStatement", lf("i"), lf("b"))), xy)
		}),
		in("for i := a; $; i = b { x = y; }", func(e tnode) tnode {
			return nd("ast.ForStatement", nd("ast.Initializer", nd("ast.DeclarationStatement", lf("i"), lf("a"))), nd("ast.Condition", e), nd("ast.Operation", nd("ast.AssignmentStatement", lf("i"), lf("b"))), xy)
		}),
		in("for i := a; b; i = ($) { x = y; }", func(e tnode) tnode {
			return nd("ast.ForStatement", nd("ast.Initializer", nd("ast.DeclarationStatement", lf("i"), lf("a"))), nd("ast.Condition", lf("b")), nd("ast.Operation", nd("ast.AssignmentStatement", lf("i"), e)), xy)
		}),
		in("switch ($) { case a { x = y; } }", func(e tnode) tnode {
			return nd("ast.SwitchStatement", nd("ast.Condition", e), nd("ast.Case", lf("a"), xy))
		}),
		in("switch a { case ($) { x = y; } default { x = y; } }", func(e tnode) tnode {
			return nd("ast.SwitchStatement", nd("ast.Condition", lf("a")), nd("ast.Case", e, xy), nd("ast.Default", xy))
		}),
		{"g := $;", func(e tnode) tnode { return prog(nd("ast.DeclarationStatement", lf("g"), e)) }},
		{"g : *S = $;", func(e tnode) tnode { return prog(nd("ast.DeclarationStatement", lf("g"), lf("*S"), e)) }},
		{"const K := $;", func(e tnode) tnode { return prog(nd("ast.DeclarationStatement", lf("K"), e)) }},
		in("a, v = b, $;", func(e tnode) tnode {
			return nd("ast.AssignmentStatement", nd("ast.CommaExpressions", lf("a"), lf("v")), nd("ast.CommaExpressions", lf("b"), e))
		}),
		in("a, v = $, b;", func(e tnode) tnode {
			return nd("ast.AssignmentStatement", nd("ast.CommaExpressions", lf("a"), lf("v")), nd("ast.CommaExpressions", e, lf("b")))
		}),
		in("x = ($);", func(e tnode) tnode { return nd("ast.AssignmentStatement", lf("x"), e) }),
	}
	item := func(p pos, e xpr) treeItem {
		s := e.at(0)
		return treeItem{strings.ReplaceAll(p.s, "$", s), p.t(e.t)}
	}
	names := func(n int, from rune) []xpr {
		var r []xpr
		for i := 0; i < n; i++ {
			r = append(r, xpr{string(from + rune(i)), 13, lf(string(from + rune(i)))})
		}
		return r
	}
	with := func(c ctor, from rune, i int, e xpr) xpr {
		a := names(c.n, from)
		a[i] = e
		return c.mk(a)
	}
	trees := func(key string, mk func() []treeItem) {
		x.Case(key, func() Case {
			l := mk()
			return Case{Kind: KCustom, Src: l[0].src, Fn: func() Outcome { return checkTrees(l) }}
		})
	}
	for pi, p := range places {
		p := p
		trees(fmt.Sprint("place:", pi), func() []treeItem {
			l := []treeItem{item(p, xpr{"q", 13, lf("q")})}
			for _, c := range cs {
				e := c.mk(names(c.n, 'a'))
				l = append(l, item(p, e))
				for _, d := range cs {
					for i := 0; i < d.n; i++ {
						l = append(l, item(p, with(d, 'm', i, e)))
					}
				}
			}
			return l
		})
	}
	// three constructors on a path
	for ci, c := range cs {
		for di, d := range cs {
			c, d := c, d
			if d.n == 0 || (!x.Thorough() && (ci*31+di)%3 != 0) {
				continue
			}
			trees(fmt.Sprintf("deep:%d:%d", ci, di), func() []treeItem {
				var l []treeItem
				e := c.mk(names(c.n, 'a'))
				for i := 0; i < d.n; i++ {
					f := with(d, 'e', i, e)
					for _, g := range cs {
						for j := 0; j < g.n; j++ {
							h := with(g, 'm', j, f)
							l = append(l, item(places[0], h))
							if x.Thorough() {
								l = append(l, item(places[9], h), item(places[12], h))
							}
						}
					}
				}
				return l
			})
			// both operands
			if d.n < 2 || !x.Thorough() && (ci+di)%2 == 0 {
				continue
			}
			trees(fmt.Sprintf("both:%d:%d", ci, di), func() []treeItem {
				var l []treeItem
				e := c.mk(names(c.n, 'a'))
				for _, g := range cs {
					a := names(d.n, 't')
					a[0], a[1] = e, g.mk(names(g.n, 'm'))
					l = append(l, item(places[1], d.mk(a)))
				}
				return l
			})
		}
	}
	if x.Thorough() {
		for ci, c := range cs {
			for di, d := range cs {
				c, d := c, d
				if d.n == 0 {
					continue
				}
				trees(fmt.Sprintf("four:%d:%d", ci, di), func() []treeItem {
					var l []treeItem
					e := c.mk(names(c.n, 'a'))
					for i := 0; i < d.n; i++ {
						f := with(d, 'e', i, e)
						for _, g := range cs {
							for j := 0; j < g.n; j++ {
								h := with(g, 'm', j, f)
								for _, o := range cs {
									if o.n > 0 {
										l = append(l, item(places[0], with(o, 'w', o.n-1, h)))
									}
								}
							}
						}
					}
					return l
				})
			}
		}
	}
	// statements
	ks := stmKinds()
	leaves, tops := treeLeaves(false), treeLeaves(true)
	inMain := func(b []stm) treeItem {
		var t strings.Builder
		for _, s := range b {
			t.WriteString(s.s + "\n")
		}
		return treeItem{"func main() {\n" + t.String() + "}", prog(nd("ast.FunctionDeclarationStatement", lf("main"), nd("types.Return", lf("void")), ndl("ast.Block", stmTrees(b))))}
	}
	atTop := func(b []stm) treeItem {
		var t strings.Builder
		for _, s := range b {
			t.WriteString(s.s + "\n")
		}
		return treeItem{t.String(), ndl("ast.Program", stmTrees(b))}
	}
	all := append([]stm{}, leaves...)
	for _, kd := range ks {
		all = append(all, kd(nil), kd(leaves[:1]), kd(leaves[:3]))
	}
	for si, s := range all {
		s := s
		trees(fmt.Sprint("stm:", si), func() []treeItem {
			l := []treeItem{inMain([]stm{s})}
			for _, s2 := range all {
				l = append(l, inMain([]stm{s, s2}))
				if x.Thorough() {
					for _, s3 := range all {
						l = append(l, inMain([]stm{s, s2, s3}))
					}
				}
				for _, kd := range ks {
					l = append(l, inMain([]stm{kd([]stm{s, s2})}), inMain([]stm{leaves[0], kd([]stm{s2, s}), leaves[1]}))
				}
			}
			for _, k1 := range ks {
				for _, k2 := range ks {
					l = append(l, inMain([]stm{k1([]stm{k2([]stm{s})})}), inMain([]stm{k1([]stm{k2([]stm{s}), s}), s}))
					for _, k3 := range ks {
						l = append(l, inMain([]stm{k1([]stm{k2([]stm{k3([]stm{s})})})}))
					}
				}
			}
			return l
		})
	}
	for si, s := range tops[len(leaves):] {
		s := s
		trees(fmt.Sprint("top:", si), func() []treeItem {
			l := []treeItem{atTop([]stm{s})}
			for _, s2 := range tops[len(leaves):] {
				m := stm{"#if 1 { " + s.s + "\n" + s2.s + "\n}", nd("ast.MacroBlock", s.t, s2.t)}
				l = append(l, atTop([]stm{s, s2}), atTop([]stm{m}), atTop([]stm{s2, m}))
				for _, s3 := range tops[len(leaves):] {
					l = append(l, atTop([]stm{s, s2, s3}))
				}
			}
			return l
		})
	}
	// types
	types := strings.Fields("i1 i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 S m.S a.b.S *i8 **S [3]i32 [2][3]*i8 *[4]S func() func(i32)i8 func(i32,*S)*i8 *func()i32 [2]func()func()i32")
	for ti, ty := range types {
		ty := ty
		trees(fmt.Sprint("type:", ti), func() []treeItem {
			show := ty
			show = strings.ReplaceAll(show, ",", ", ")
			// a result follows after a space, nothing is void
			for i := 0; i < len(show); i++ {
				if show[i] == ')' {
					if i+1 == len(show) {
						show += " void"
					} else if show[i+1] != ' ' {
						show = show[:i+1] + " " + show[i+1:]
					}
				}
			}
			tl := lf(show)
			return []treeItem{
				atTop([]stm{{"x : " + ty + " = y;", nd("ast.DeclarationStatement", lf("x"), tl, lf("y"))}}),
				inMain([]stm{{"x : " + ty + " = y;", nd("ast.DeclarationStatement", lf("x"), tl, lf("y"))}}),
				inMain([]stm{{"x = y as " + ty + ";", nd("ast.AssignmentStatement", lf("x"), nd("ast.BuiltinCall", lf("cast"), nd("ast.TypeParameters", tl), nd("ast.Parameters", lf("y"))))}}),
				inMain([]stm{{"x = @alloc(" + ty + ", y);", nd("ast.AssignmentStatement", lf("x"), nd("ast.BuiltinCall", lf("alloc"), nd("ast.TypeParameters", tl), nd("ast.Parameters", lf("y"))))}}),
				atTop([]stm{{"struct Q { b i8\n a " + ty + " }", nd("ast.StructStatement", lf("Q"), nd("ast.Field", lf("b"), lf("i8")), nd("ast.Field", lf("a"), tl))}}),
				atTop([]stm{{"type Q = " + ty + ";", nd("ast.TypeDefinition", lf("Q"), tl)}}),
				atTop([]stm{{"func g(p " + ty + ") " + ty + " { x = y; }", nd("ast.FunctionDeclarationStatement", lf("g"), nd("types.Parameters", lf("p "+show)), nd("types.Return", tl), xy)}}),
				inMain([]stm{{"x = :" + ty + " { x = y; };", nd("ast.AssignmentStatement", lf("x"), nd("ast.ExpressionBlock", tl, xy))}}),
				atTop([]stm{{"import m, " + ty + ", \"./m.cd\";", nd("ast.ImportStatement", lf("m"), tl, lf("\"./m.cd\""))}}),
			}
		})
	}
	// deeper towers of one constructor, of two in turns, and longer lists
	for ci, c := range cs {
		c := c
		if c.n == 0 {
			continue
		}
		trees(fmt.Sprint("tower:", ci), func() []treeItem {
			var l []treeItem
			for i := 0; i < c.n; i++ {
				e := xpr{"q", 13, lf("q")}
				for d := 1; d <= 9; d++ {
					e = with(c, 'a', i, e)
					if d > 2 {
						l = append(l, item(places[0], e))
					}
				}
			}
			for _, o := range cs {
				for j := 0; j < o.n; j++ {
					e := xpr{"q", 13, lf("q")}
					for d := 0; d < 4; d++ {
						e = with(c, 'a', 0, with(o, 'm', j, e))
						if d > 0 {
							l = append(l, item(places[1], e))
						}
					}
				}
			}
			return l
		})
	}
	var many func(n int) []xpr
	many = func(n int) []xpr {
		var r []xpr
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				c := cs[(i*7)%len(cs)]
				r = append(r, c.mk(names(c.n, 'a')))
				continue
			}
			s := fmt.Sprint("n", i)
			r = append(r, xpr{s, 13, lf(s)})
		}
		return r
	}
	for n := 3; n <= 12; n++ {
		n := n
		trees(fmt.Sprint("long:", n), func() []treeItem {
			es := many(n)
			var at []string
			var ts, elems, fields []tnode
			var nm []string
			fs := ""
			for i, e := range es {
				at = append(at, e.at(0))
				ts = append(ts, e.t)
				elems = append(elems, nd("ast.ArrayElement", e.t))
				f := fmt.Sprint("f", i)
				fields = append(fields, nd("ast.Field", lf(f), e.t))
				fs += f + ": " + e.at(0) + ", "
				nm = append(nm, f)
			}
			list := strings.Join(at, ", ")
			var nl []tnode
			for _, f := range nm {
				nl = append(nl, lf(f))
			}
			xs := func(s string, t tnode) treeItem { return item(places[0], xpr{s, 12, t}) }
			l := []treeItem{
				xs("g("+list+")", nd("ast.Call", lf("g"), ndl("ast.Parameters", ts))),
				xs("@print("+list+")", nd("ast.BuiltinCall", lf("print"), ndl("ast.Parameters", ts))),
				xs(fmt.Sprintf("[%d]S{%s}", n, list), ndl("ast.ArrayLiteral", append([]tnode{nd("types.Array", lf(fmt.Sprintf("[%d]S", n)))}, elems...))),
				xs("@S{"+strings.TrimSuffix(fs, ", ")+"}", ndl("ast.StructLiteral", append([]tnode{lf("S")}, fields...))),
				inMain([]stm{{strings.Join(nm, ", ") + " := " + list + ";", ndl("ast.MultipleDeclarationStatement", append(append([]tnode{}, nl...), ndl("ast.CommaExpressions", ts)))}}),
				inMain([]stm{{strings.Join(nm, ", ") + " = " + list + ";", nd("ast.AssignmentStatement", ndl("ast.CommaExpressions", nl), ndl("ast.CommaExpressions", ts))}}),
				inMain([]stm{{"return " + list + ";", nd("ast.ReturnStatement", ndl("ast.CommaExpressions", ts))}}),
				atTop([]stm{{"import m, " + strings.Repeat("*i8, ", n) + "\"./m.cd\";", ndl("ast.ImportStatement", append(append([]tnode{lf("m")}, repTree(lf("*i8"), n)...), lf("\"./m.cd\"")))}}),
				atTop([]stm{{"struct S { " + strings.Join(nm, " i32\n ") + " i32 }", ndl("ast.StructStatement", append([]tnode{lf("S")}, fieldTrees(nm)...))}}),
				atTop([]stm{{"union U { " + strings.Join(nm, " i32\n ") + " i32 }", ndl("ast.UnionStatement", append([]tnode{lf("U")}, fieldTrees(nm)...))}}),
				atTop([]stm{{"func g(" + strings.Join(nm, " i32, ") + " i32) { x = y; }", nd("ast.FunctionDeclarationStatement", lf("g"), ndl("types.Parameters", paramTrees(nm)), nd("types.Return", lf("void")), xy)}}),
			}
			// statements in a row, conditions in a row
			var row []stm
			for i := 0; i < n; i++ {
				row = append(row, leaves[i%len(leaves)])
			}
			l = append(l, inMain(row))
			for _, kd := range ks {
				l = append(l, inMain([]stm{kd(row)}))
			}
			ifs, ift := "if c { x = y; }", []tnode{lf("c"), xy}
			sws, swt := "switch v { ", []tnode{nd("ast.Condition", lf("v"))}
			for i, e := range es {
				b := nd("ast.Block", leaves[i%len(leaves)].t)
				ifs += " else if (" + e.s + ") { " + leaves[i%len(leaves)].s + " }"
				ift = append(ift, nd("ast.ConditionPlusBlock", e.t, b))
				sws += "case (" + e.s + ") { " + leaves[i%len(leaves)].s + " } "
				swt = append(swt, nd("ast.Case", e.t, b))
			}
			l = append(l,
				inMain([]stm{{ifs, ndl("ast.IfStatement", ift)}, leaves[0]}),
				inMain([]stm{{ifs + " else { x = y; }", ndl("ast.IfStatement", append(append([]tnode{}, ift...), nd("ast.Else", xy)))}, leaves[0]}),
				inMain([]stm{{sws + "}", ndl("ast.SwitchStatement", swt)}, leaves[0]}),
				inMain([]stm{{sws + "default { x = y; } }", ndl("ast.SwitchStatement", append(append([]tnode{}, swt...), nd("ast.Default", xy)))}, leaves[0]}))
			return l
		})
	}
	// words of every length
	for n := 1; n <= 130; n++ {
		n := n
		trees(fmt.Sprint("word:", n), func() []treeItem {
			w := ""
			for i := 0; i < n; i++ {
				w += string(rune('a' + i*7%26))
			}
			w = "z" + w
			xs := func(s string, t tnode) treeItem { return item(places[0], xpr{s, 12, t}) }
			return []treeItem{
				xs("\""+w+"\"", nd("ast.StringLiteral", lf("\""+w+"\""))),
				xs(w, lf(w)),
				xs("g(\""+w+" "+w+"\", "+w+")", nd("ast.Call", lf("g"), nd("ast.Parameters", nd("ast.StringLiteral", lf("\""+w+" "+w+"\"")), lf(w)))),
				xs("@S{"+w+": "+w+"}", nd("ast.StructLiteral", lf("S"), nd("ast.Field", lf(w), lf(w)))),
				xs("@"+w+"{"+w+": a}", nd("ast.StructLiteral", lf(w), nd("ast.Field", lf(w), lf("a")))),
				inMain([]stm{{w + " := a;", nd("ast.DeclarationStatement", lf(w), lf("a"))}}),
				atTop([]stm{{"struct " + w + " { " + w + " *" + w + " }", nd("ast.StructStatement", lf(w), nd("ast.Field", lf(w), lf("*"+w)))}}),
				atTop([]stm{{"import " + w + ", \"./" + w + ".cd\";", nd("ast.ImportStatement", lf(w), lf("\"./"+w+".cd\""))}}),
			}
		})
	}
	// programs with syntax errors
	total := func(key string, mk func() []string) {
		x.Case(key, func() Case {
			l := mk()
			if len(l) == 0 {
				return Case{Skip: "nothing"}
			}
			return Case{Kind: KCustom, Src: l[0], Fn: func() Outcome { return totalTrees(l) }}
		})
	}
	for pi, p := range totalProgs {
		toks := strings.Split(p, " ")
		for i := range toks {
			i := i
			total(fmt.Sprintf("cut:%d:%d", pi, i), func() []string {
				j := func(l ...[]string) string {
					var r []string
					for _, t := range l {
						r = append(r, t...)
					}
					return strings.Join(r, " ")
				}
				l := []string{j(toks[:i]), j(toks[:i], toks[i+1:]), j(toks[:i+1], toks[i:])}
				for _, v := range totalVocab {
					l = append(l, j(toks[:i], []string{v}, toks[i+1:]))
				}
				return l
			})
		}
	}
	for _, c := range totalCtx {
		c := c
		for _, a := range totalVocab {
			a := a
			total("tok:"+c.name+":"+a, func() []string {
				l := []string{c.pre + a + c.post}
				for _, b := range totalVocab {
					l = append(l, c.pre+a+" "+b+c.post)
					if x.Thorough() {
						for _, d := range totalVocab {
							l = append(l, c.pre+a+" "+b+" "+d+c.post)
						}
					}
				}
				return l
			})
		}
	}
}
