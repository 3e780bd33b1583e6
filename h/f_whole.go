package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/gabivlj/candice/internals/ast"
	"github.com/gabivlj/candice/internals/ctypes"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/ops"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/token"
)

// C31: the tree is the whole text.

func init() {
	register(&Family{
		ID:        "C31",
		Technique: "exhaustive enumeration of token sequences in all contexts and of all mutations of programs: the words of the tree that the real parser builds are compared with the words of the text, those being found by an independent reference, and texts whose brackets do not pair have to be refused",
		Rule: "Every sequence of 2 (3 thorough) of 62 tokens in 17 contexts, of 3 (4 of 26 thorough) in 4 of them; every deletion, repetition, exchange, replacement, insertion and truncation of a token in 46 programs, every repetition and deletion of up to 16 of them, and every pair of deletions (thorough: every deletion with every replacement); " +
			"every insertion, removal, exchange and replacement of a bracket anywhere in the programs (thorough: together with the removal of another bracket); 46 nesting forms at depths up to 60.",
		Note: "Semicolons, commas and parentheses are no words of the tree; the bodies of #if are left out.",
		Gen:  genWhole,
	})
}

// words writes a tree as the words it was read from.
type words struct {
	out []string
	gap string
}

func (w *words) add(ss ...string) { w.out = append(w.out, ss...) }

var opWord = map[ops.Operation]string{
	ops.Add: "+", ops.Subtract: "-", ops.Multiply: "*", ops.Divide: "/", ops.Modulo: "%", ops.AND: "&&", ops.OR: "||", ops.BinaryXOR: "^", ops.BinaryAND: "&", ops.BinaryOR: "|",
	ops.GreaterThan: ">", ops.LessThan: "<", ops.GreaterThanEqual: ">=", ops.LessThanEqual: "<=", ops.Equals: "==", ops.NotEquals: "!=", ops.Dot: ".", ops.LeftShift: "<<", ops.RightShift: ">>", ops.TempAssign: "=",
}

func (w *words) name(s string) {
	if s = ast.RetrieveID(s); s != "" {
		w.add(s)
	}
}

func (w *words) typ(t ctypes.Type) {
	switch t := t.(type) {
	case *ctypes.Integer:
		w.add(fmt.Sprint("i", t.BitSize))
	case *ctypes.UInteger:
		w.add(fmt.Sprint("u", t.BitSize))
	case *ctypes.Float:
		w.add(fmt.Sprint("f", t.BitSize))
	case *ctypes.Void:
		w.add("void")
	case *ctypes.Pointer:
		w.add("*")
		w.typ(t.Inner)
	case *ctypes.Array:
		w.add("[", fmt.Sprint(t.Length), "]")
		w.typ(t.Inner)
	case *ctypes.Anonymous:
		for _, m := range t.Modules {
			w.name(m)
			w.add(".")
		}
		w.name(t.Name)
	case *ctypes.TypeList:
		for _, x := range t.Types {
			w.typ(x)
		}
	case *ctypes.Function:
		w.add("func")
		w.name(t.Name)
		for _, x := range t.Parameters {
			w.typ(x)
		}
		if t.InfiniteParameters {
			w.add("..")
		}
		if t.Return != ctypes.VoidType {
			w.typ(t.Return)
		}
	default:
		w.gap = fmt.Sprintf("%T", t)
	}
}

func (w *words) ifTyped(t ctypes.Type) {
	if t != ctypes.TODO() {
		w.typ(t)
	}
}

func (w *words) signature(f *ctypes.Function) {
	for i, n := range f.Names {
		w.name(n)
		w.typ(f.Parameters[i])
	}
	if f.Return != nil {
		w.typ(f.Return)
	}
}

func (w *words) exprs(l []ast.Expression) {
	for _, e := range l {
		w.expr(e)
	}
}

func (w *words) expr(e ast.Expression) {
	switch e := e.(type) {
	case *ast.Identifier:
		w.name(e.Name)
	case *ast.BinaryOperation:
		w.expr(e.Left)
		w.add(opWord[e.Operation])
		w.expr(e.Right)
	case *ast.PrefixOperation:
		o := opWord[e.Operation]
		switch e.Operation {
		case ops.Bang:
			o = "!"
		case ops.Reference, ops.BinaryAND:
			o = "&"
		case ops.AddOne:
			o = "++"
		case ops.SubtractOne:
			o = "--"
		}
		w.add(o)
		w.expr(e.Right)
	case *ast.IndexAccess:
		w.expr(e.Left)
		w.add("[")
		w.expr(e.Access)
		w.add("]")
	case *ast.BuiltinCall:
		if e.Token.Type == token.AS {
			w.exprs(e.Parameters)
			w.add("as")
			w.typ(e.TypeParameters[0])
			return
		}
		w.add("@", e.Name)
		for _, t := range e.TypeParameters {
			w.typ(t)
		}
		w.exprs(e.Parameters)
	case *ast.Call:
		w.expr(e.Left)
		w.exprs(e.Parameters)
	case *ast.Integer:
		if e.Token.Type == token.CHAR {
			w.add(fmt.Sprint("'", e.Value))
		} else {
			w.add(fmt.Sprint(uint64(e.Value)))
		}
	case *ast.Float:
		w.add(fmt.Sprintf("%g.", e.Value))
	case *ast.StringLiteral:
		w.add("\"" + e.Value)
	case *ast.StructLiteral:
		w.add("@")
		if e.Module != "" {
			w.name(e.Module)
			w.add(".")
		}
		w.name(e.Name)
		w.add("{")
		for _, v := range e.Values {
			w.add(v.Name, ":")
			w.expr(v.Expression)
		}
		w.add("}")
	case *ast.ArrayLiteral:
		w.typ(e.Type)
		w.add("{")
		w.exprs(e.Values)
		w.add("}")
	case *ast.AnonymousFunction:
		w.add("func")
		w.signature(e.FunctionType)
		w.block(e.Block)
	case *ast.CommaExpressions:
		w.exprs(e.Expressions)
	case *ast.ExpressionBlock:
		w.add(":")
		w.typ(e.Type)
		w.block(e.Block)
	default:
		w.gap = fmt.Sprintf("%T", e)
	}
}

func (w *words) block(b *ast.Block) {
	braces := b.Token.Type == token.LBRACE
	if braces {
		w.add("{")
	}
	for _, s := range b.Statements {
		w.stmt(s)
	}
	if braces {
		w.add("}")
	}
}

func (w *words) stmt(s ast.Statement) {
	switch s := s.(type) {
	case *ast.ExpressionStatement:
		w.expr(s.Expression)
	case *ast.Block:
		w.block(s)
	case *ast.StructStatement:
		w.add("struct")
		w.name(s.Type.Name)
		w.fields(s.Type.Names, s.Type.Fields)
	case *ast.UnionStatement:
		w.add("union")
		w.name(s.Type.Name)
		w.fields(s.Type.Names, s.Type.Fields)
	case *ast.DeclarationStatement:
		if s.Constant {
			w.add("const")
		}
		w.name(s.Name)
		w.add(":")
		w.ifTyped(s.Type)
		w.add("=")
		w.expr(s.Expression)
	case *ast.MultipleDeclarationStatement:
		if s.Constant {
			w.add("const")
		}
		for _, n := range s.Names {
			w.name(n)
		}
		w.add(":")
		w.ifTyped(s.Type)
		w.add("=")
		w.expr(s.Expression)
	case *ast.AssignmentStatement:
		w.expr(s.Left)
		w.add("=")
		w.expr(s.Expression)
	case *ast.ForStatement:
		w.add("for")
		if s.InitializerStatement != nil {
			w.stmt(s.InitializerStatement)
		}
		if s.Condition != nil {
			w.expr(s.Condition)
		}
		if s.Operation != nil {
			w.stmt(s.Operation)
		}
		w.block(s.Block)
	case *ast.IfStatement:
		w.add("if")
		w.expr(s.Condition)
		w.block(s.Block)
		for _, e := range s.ElseIfs {
			w.add("else", "if")
			w.expr(e.Condition)
			w.block(e.Block)
		}
		if s.Else != nil {
			w.add("else")
			w.block(s.Else)
		}
	case *ast.FunctionDeclarationStatement:
		if s.FunctionType.RedefineWithOriginalName {
			w.add("pub")
		}
		w.add("func")
		w.name(s.FunctionType.Name)
		w.signature(s.FunctionType)
		w.block(s.Block)
	case *ast.ExternStatement:
		w.add("extern")
		w.typ(s.Type)
	case *ast.ReturnStatement:
		w.add("return")
		if s.Expression != nil {
			w.expr(s.Expression)
		}
	case *ast.ImportStatement:
		w.add("import")
		w.name(s.Name)
		for _, t := range s.Types {
			w.typ(t)
		}
		w.expr(s.Path)
	case *ast.BreakStatement:
		w.add("break")
	case *ast.ContinueStatement:
		w.add("continue")
	case *ast.TypeDefinition:
		w.add("type")
		w.name(s.Name)
		w.add("=")
		w.typ(s.Type)
	case *ast.SwitchStatement:
		w.add("switch")
		w.expr(s.Condition)
		w.add("{")
		for _, c := range s.Cases {
			w.add("case")
			w.expr(c.Case)
			w.block(c.Block)
		}
		if s.Default != nil {
			w.add("default")
			w.block(s.Default)
		}
		w.add("}")
	default:
		w.gap = fmt.Sprintf("%T", s)
	}
}

func (w *words) fields(names []string, types []ctypes.Type) {
	w.add("{")
	for i, n := range names {
		w.add(n)
		w.typ(types[i])
	}
	w.add("}")
}

// textWords are the words of a text by the reference.
func textWords(src string) (ws []string, unpaired, ok bool) {
	toks, open := refLex(src)
	if open {
		return nil, false, false
	}
	var brackets []string
	for _, t := range toks {
		switch t.typ {
		case token.ILLEGAL, token.MACRO_IF:
			return nil, false, false
		case token.LPAREN, token.RPAREN:
			brackets = append(brackets, t.text)
			continue
		case token.SEMICOLON, token.COMMA:
			continue
		case token.LBRACE, token.RBRACE, token.LBRACKET, token.RBRACKET:
			brackets = append(brackets, t.text)
		case token.INT, token.HEX, token.BINARY:
			n, err := strconv.ParseUint(t.text, 0, 64)
			if t.typ == token.INT {
				n, err = strconv.ParseUint(t.text, 10, 64)
			}
			if err != nil {
				return nil, false, false
			}
			ws = append(ws, fmt.Sprint(n))
			continue
		case token.FLOAT:
			f, _ := strconv.ParseFloat(t.text, 64)
			ws = append(ws, fmt.Sprintf("%g.", f))
			continue
		case token.STRING:
			ws = append(ws, "\""+t.text)
			continue
		case token.CHAR:
			ws = append(ws, fmt.Sprint("'", t.text[0]))
			continue
		}
		switch t.text {
		case "bool":
			ws = append(ws, "i1")
		case "i0":
			ws = append(ws, "void")
		default:
			ws = append(ws, t.text)
		}
	}
	return ws, unmatched(brackets), true
}

// wholeText: an accepted text is all in its tree.
func wholeText(src string) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	p := parser.New(lexer.New(src))
	root := p.Parse()
	if len(p.Errors) > 0 {
		return ""
	}
	want, unpaired, ok := textWords(src)
	if !ok {
		return ""
	}
	if unpaired {
		return "brackets that do not pair are accepted"
	}
	w := &words{}
	for _, s := range root.Statements {
		w.stmt(s)
	}
	if w.gap != "" {
		return "harness: unknown node " + w.gap
	}
	for i := 0; i < len(want) || i < len(w.out); i++ {
		if i >= len(want) || i >= len(w.out) || want[i] != w.out[i] {
			rest := func(l []string) string {
				if i >= len(l) {
					return "nothing"
				}
				l = l[i:]
				if len(l) > 8 {
					l = l[:8]
				}
				return strings.Join(l, " ")
			}
			return fmt.Sprintf("the text goes on with %q, the tree with %q", rest(want), rest(w.out))
		}
	}
	return ""
}

func genWhole(x *Enum) {
	// many texts for one case
	var srcs []string
	first := ""
	flush := func() {
		if len(srcs) == 0 {
			return
		}
		l, key := srcs, first
		srcs = nil
		x.Case(key, func() Case {
			return Case{Kind: KCustom, Src: l[0], Fn: func() Outcome {
				o := Outcome{States: len(l), Trans: len(l), Traces: len(l)}
				for _, s := range l {
					if bad := wholeText(s); bad != "" {
						o.Bad = bad + ": " + s
						return o
					}
				}
				return o
			}}
		})
	}
	one := func(key, src string) {
		if len(srcs) == 0 {
			first = key
		}
		if srcs = append(srcs, src); len(srcs) == 64 {
			flush()
		}
	}
	genBrackets(x, one)
	flush()
	genTexts(x, false, one)
	flush()
}

// genBrackets: brackets inserted, removed, exchanged and replaced.
func genBrackets(x *Enum, one func(key, src string)) {
	brackets := []string{"(", ")", "[", "]", "{", "}"}
	for pi, p := range totalProgs {
		ts := tokenise(p)
		for i := 0; i <= len(ts); i++ {
			add := func(key string, l ...[]string) {
				var all []string
				for _, p := range l {
					all = append(all, p...)
				}
				one(k("brackets:%d:%d:%s", pi, i, key), strings.Join(all, " "))
			}
			for _, b := range brackets {
				add("ins"+b, ts[:i], []string{b}, ts[i:])
				if i < len(ts) {
					add("rep"+b, ts[:i], []string{b}, ts[i+1:])
				}
				if !x.Thorough() {
					continue
				}
				// one too many and one too few
				for j, t := range ts {
					switch {
					case !unmatched([]string{t}) || j == i:
					case j < i:
						add(k("move%d%s", j, b), ts[:j], ts[j+1:i], []string{b}, ts[i:])
					default:
						add(k("move%d%s", j, b), ts[:i], []string{b}, ts[i:j], ts[j+1:])
					}
				}
			}
		}
	}
}

// unmatched tells texts whose brackets do not pair.
func unmatched(ts []string) bool {
	var open []string
	pair := map[string]string{")": "(", "]": "[", "}": "{"}
	for _, t := range ts {
		switch t {
		case "(", "[", "{":
			open = append(open, t)
		case ")", "]", "}":
			if len(open) == 0 || open[len(open)-1] != pair[t] {
				return true
			}
			open = open[:len(open)-1]
		}
	}
	return len(open) > 0
}
