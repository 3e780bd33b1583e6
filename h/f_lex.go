package main

import (
	"fmt"
	"strings"

	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/token"
)

// C01: the words of a program.

func init() {
	register(&Family{
		ID:        "C01",
		Technique: "exhaustive enumeration of the inputs of the lexer up to a length, and of token sequences with all separators, against an independent maximal munch reference, with the programs that show the values executed in an explicit-state interpreter",
		Rule: "Every string of 4 characters (6 thorough) of 30, which have one of every class; every sequence of two tokens of 75 with 9 separators and every sequence of three with 2 (7 thorough); every string of one or two bytes (all of the 256) in comments, string and character literals; " +
			"identifiers of every keyword and one or two characters; values of decimal, hexadecimal and binary literals around every power of two and of ten; every separator in every gap of 10 programs; every token behind up to 300 of each of 12 pieces of text, words, literals and comments of up to 300 characters.",
		Note: "Escapes other than those of the documentation, numbers that run into a letter, and columns are unspecified.",
		Gen:  func(x *Enum) { genLex(x); genWide(x, "C01") },
	})
}

type lexTok struct {
	typ  token.TypeToken
	text string
	line int
	skip bool // the line of a token with more than one line is not specified
}

var lexKeywords = map[string]token.TypeToken{
	"func": token.FUNCTION, "pub": token.PUBLIC, "true": token.TRUE, "false": token.FALSE, "if": token.IF, "else": token.ELSE,
	"for": token.FOR, "return": token.RETURN, "struct": token.STRUCT, "import": token.IMPORT, "break": token.BREAK, "extern": token.EXTERN,
	"continue": token.CONTINUE, "type": token.TYPE, "as": token.AS, "union": token.UNION, "switch": token.SWITCH, "case": token.CASE,
	"default": token.DEFAULT, "const": token.CONST,
}

var lexKeywordList = []string{"func", "pub", "true", "false", "if", "else", "for", "return", "struct", "import", "break", "extern", "continue", "type", "as", "union", "switch", "case", "default", "const"}

// the longest first
var lexPuncts = []struct {
	text string
	typ  token.TypeToken
}{
	{"==", token.EQ}, {"!=", token.NOTEQ}, {"++", token.DOUBLE_PLUS}, {"--", token.DOUBLE_MINUS}, {"<=", token.LTE}, {"<<", token.LS},
	{">=", token.GTE}, {">>", token.RS}, {"&&", token.AND}, {"||", token.OR}, {"..", token.DOUBLE_DOT},
	{"@", token.AT}, {".", token.DOT}, {":", token.COLON}, {"[", token.LBRACKET}, {"]", token.RBRACKET}, {"=", token.ASSIGN}, {"!", token.BANG},
	{"%", token.MODULO}, {";", token.SEMICOLON}, {"(", token.LPAREN}, {")", token.RPAREN}, {"+", token.PLUS}, {"-", token.MINUS},
	{"/", token.SLASH}, {"*", token.ASTERISK}, {"<", token.LT}, {">", token.GT}, {"&", token.ANDBIN}, {"|", token.ORBIN},
	{"^", token.XORBIN}, {",", token.COMMA}, {"{", token.LBRACE}, {"}", token.RBRACE},
}

func isWordByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func span(s string, set string) int {
	n := 0
	for n < len(s) && strings.IndexByte(set, s[n]) >= 0 {
		n++
	}
	return n
}

// refLex splits s.  The list ends before anything that is not specified
// (open), or with the first token that is not one (an ILLEGAL one).
func refLex(s string) (toks []lexTok, open bool) {
	const digits = "0123456789"
	line := 1
	for s != "" {
		c := s[0]
		switch {
		case c == '\n':
			line++
			s = s[1:]
			continue
		case c == ' ' || c == '\t' || c == '\r':
			s = s[1:]
			continue
		case strings.HasPrefix(s, "//"):
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				return toks, false
			}
			s = s[i:]
			continue
		case c >= '0' && c <= '9':
			typ, n := token.INT, 0
			switch {
			case strings.HasPrefix(s, "0x"):
				typ, n = token.HEX, 2+span(s[2:], digits+"abcdefABCDEF")
			case strings.HasPrefix(s, "0b"):
				typ, n = token.BINARY, 2+span(s[2:], "01")
			default:
				n = span(s, digits)
				if n+1 < len(s) && s[n] == '.' && span(s[n+1:], digits) > 0 {
					typ, n = token.FLOAT, n+1+span(s[n+1:], digits)
				}
			}
			if typ != token.INT && typ != token.FLOAT && n == 2 || n < len(s) && isWordByte(s[n]) {
				return toks, true
			}
			toks = append(toks, lexTok{typ, s[:n], line, false})
			s = s[n:]
			continue
		case isWordByte(c):
			n := 0
			for n < len(s) && isWordByte(s[n]) {
				n++
			}
			typ, ok := lexKeywords[s[:n]]
			if !ok {
				typ = token.IDENT
			}
			toks = append(toks, lexTok{typ, s[:n], line, false})
			s = s[n:]
			continue
		case c == '#':
			n := 1
			for n < len(s) && isWordByte(s[n]) {
				n++
			}
			if s[:n] != "#if" {
				return append(toks, lexTok{token.ILLEGAL, "", line, false}), false
			}
			toks = append(toks, lexTok{token.MACRO_IF, "#", line, false})
			s = s[n:]
			continue
		case c == '"':
			var b []byte
			start := line
			i := 1
			for ; i < len(s) && s[i] != '"'; i++ {
				switch {
				case s[i] == '\\':
					i++
					if i == len(s) {
						continue
					}
					switch s[i] {
					case 'n':
						b = append(b, '\n')
					case '"', '\\':
						b = append(b, s[i])
					default:
						return toks, true
					}
				case s[i] == '\n':
					line++
					b = append(b, '\n')
				default:
					b = append(b, s[i])
				}
			}
			if i >= len(s) {
				return append(toks, lexTok{token.ILLEGAL, "", start, line != start}), false
			}
			toks = append(toks, lexTok{token.STRING, string(b), start, line != start})
			s = s[i+1:]
			continue
		case c == '\'':
			var v string
			n := 0
			switch {
			case len(s) >= 4 && s[1] == '\\' && s[3] == '\'':
				e, ok := map[byte]string{'n': "\n", 't': "\t", 'r': "\r", '\\': "\\", '\'': "'"}[s[2]]
				if !ok {
					return toks, true
				}
				v, n = e, 4
			case len(s) >= 3 && s[1] != '\\' && s[1] != '\'' && s[2] == '\'':
				v, n = s[1:2], 3
				if v == "\n" {
					toks = append(toks, lexTok{token.CHAR, v, line, true})
					line++
					s = s[n:]
					continue
				}
			case len(s) >= 3 && s[1] == '\'' && s[2] == '\'':
				return toks, true
			default:
				return append(toks, lexTok{token.ILLEGAL, "", line, true}), false
			}
			toks = append(toks, lexTok{token.CHAR, v, line, false})
			s = s[n:]
			continue
		}
		found := false
		for _, p := range lexPuncts {
			if strings.HasPrefix(s, p.text) {
				toks = append(toks, lexTok{p.typ, p.text, line, false})
				s = s[len(p.text):]
				found = true
				break
			}
		}
		if !found {
			return append(toks, lexTok{token.ILLEGAL, "", line, false}), false
		}
	}
	return toks, false
}

// lexDiffers compares the lexer on s with the reference.
func lexDiffers(s string, want []lexTok, open bool) string {
	l := lexer.New(s)
	for i, w := range want {
		t := l.NextToken()
		if t.Type != w.typ {
			return fmt.Sprintf("%q: token %d is %s %q instead of %s %q", s, i, t.Type, t.Literal, w.typ, w.text)
		}
		if !w.skip && int(t.Line) != w.line {
			return fmt.Sprintf("%q: token %d (%s) is on line %d instead of %d", s, i, t.Type, t.Line, w.line)
		}
		if w.typ == token.ILLEGAL {
			return ""
		}
		if t.Literal != w.text {
			return fmt.Sprintf("%q: token %d reads %q instead of %q", s, i, t.Literal, w.text)
		}
	}
	if open {
		return ""
	}
	for i := 0; i < 2; i++ {
		if t := l.NextToken(); t.Type != token.EOF {
			return fmt.Sprintf("%q: a token %s %q after the last one", s, t.Type, t.Literal)
		}
	}
	return ""
}

type lexBatch struct {
	o     Outcome
	first string
}

func (b *lexBatch) text(s string) {
	want, open := refLex(s)
	b.toks(s, want, open)
}

func (b *lexBatch) toks(s string, want []lexTok, open bool) {
	b.o.Trans++
	b.o.States += len(want) + 1
	b.o.Traces++
	if b.o.Bad == "" {
		b.o.Bad = lexDiffers(s, want, open)
	}
}

func batch(src string, f func(b *lexBatch)) Case {
	return Case{Kind: KCustom, Src: src, Fn: func() Outcome {
		b := &lexBatch{}
		f(b)
		return b.o
	}}
}

// the characters have one of every class
var lexChars = []byte{' ', '\n', '\t', 'i', 'f', 'n', 'b', 'x', '_', '0', '1', '9', '.', '"', '\'', '\\', '/', '#', '=', '+', '-', '<', '>', '&', '|', '!', '@', ';', 0, 'Z'}

var lexSeps = []string{" ", "\n", "\t", "\r\n", "  \n\t ", "// x\n", " //\n", "\n// \"a' /* #\n", "//a\n//b\n"}

func lexTokens() []lexTok {
	var ts []lexTok
	for _, p := range lexPuncts {
		ts = append(ts, lexTok{typ: p.typ, text: p.text})
	}
	for _, w := range lexKeywordList {
		ts = append(ts, lexTok{typ: lexKeywords[w], text: w})
	}
	for _, w := range []string{"a", "_", "iff", "fo", "If", "x1", "func_", "as1", "_if", "Zz9"} {
		ts = append(ts, lexTok{typ: token.IDENT, text: w})
	}
	for _, w := range []string{"0", "7", "42", "18446744073709551615"} {
		ts = append(ts, lexTok{typ: token.INT, text: w})
	}
	ts = append(ts, lexTok{typ: token.FLOAT, text: "1.5"}, lexTok{typ: token.FLOAT, text: "0.0"}, lexTok{typ: token.HEX, text: "0xaF"}, lexTok{typ: token.BINARY, text: "0b10"},
		lexTok{typ: token.STRING, text: `"a b"`}, lexTok{typ: token.STRING, text: `""`}, lexTok{typ: token.CHAR, text: "'c'"}, lexTok{typ: token.MACRO_IF, text: "#if"})
	return ts
}

// the literal of a token of the list
func lexLit(t lexTok) string {
	switch t.typ {
	case token.STRING, token.CHAR:
		return t.text[1 : len(t.text)-1]
	case token.MACRO_IF:
		return "#"
	}
	return t.text
}

// joined writes the tokens with the separator, before and after them too.
func joined(b *lexBatch, sep string, ts ...lexTok) {
	var sb strings.Builder
	line := 1
	want := make([]lexTok, 0, len(ts))
	for _, t := range ts {
		line += strings.Count(sep, "\n")
		sb.WriteString(sep)
		sb.WriteString(t.text)
		if t.text == "/" && sep[0] == '/' {
			sb.WriteString(" ")
		}
		want = append(want, lexTok{t.typ, lexLit(t), line, false})
	}
	sb.WriteString(sep)
	b.toks(sb.String(), want, false)
}

func genLex(x *Enum) {
	n := x.Pick(4, 6)
	for i := range lexChars {
		for j := range lexChars {
			a, b := lexChars[i], lexChars[j]
			x.Case(k("strings:%q", string([]byte{a, b})), func() Case {
				return batch(fmt.Sprintf("every string of %d characters that starts with %q", n, string([]byte{a, b})), func(lb *lexBatch) {
					buf := []byte{a, b}
					var rec func()
					rec = func() {
						lb.text(string(buf))
						if len(buf) == n {
							return
						}
						for _, c := range lexChars {
							buf = append(buf, c)
							rec()
							buf = buf[:len(buf)-1]
						}
					}
					rec()
				})
			})
		}
	}
	ts := lexTokens()
	for _, a := range ts {
		a := a
		x.Case(k("tokens2:%s", a.text), func() Case {
			return batch("every pair of tokens that starts with "+a.text, func(lb *lexBatch) {
				for _, b := range ts {
					for _, sep := range lexSeps {
						joined(lb, sep, a, b)
					}
					lb.text(a.text + b.text)
				}
			})
		})
		x.Case(k("tokens3:%s", a.text), func() Case {
			return batch("every three tokens that start with "+a.text, func(lb *lexBatch) {
				seps := lexSeps[:2]
				if x.Thorough() {
					seps = lexSeps[:7]
				}
				for _, b := range ts {
					for _, c := range ts {
						for _, sep := range seps {
							joined(lb, sep, a, b, c)
						}
						lb.text(a.text + b.text + c.text)
					}
				}
			})
		})
	}
	for c := 0; c < 256; c++ {
		c := c
		x.Case(k("bytes:%02x", c), func() Case {
			return batch(fmt.Sprintf("the byte %#x and each other in a comment, a string, a character", c), func(lb *lexBatch) {
				one := string([]byte{byte(c)})
				lb.text(one)
				lb.text("a" + one + "b")
				lb.text("'" + one + "' x")
				lb.text("\"" + one + "\" x")
				lb.text("x // " + one + "\ny")
				for d := 0; d < 256; d++ {
					two := string([]byte{byte(c), byte(d)})
					lb.text("\"" + two + "\" x")
					lb.text("//" + two + "\ny")
					if byte(c) == '\\' || x.Thorough() {
						lb.text("'" + two + "' x")
						lb.text("a" + two + "b")
						lb.text("1" + two + "2")
					}
				}
			})
		})
	}
	genLexLong(x)
	genLexWords(x)
	genLexValues(x)
	genLexGaps(x)
}

// Long lines, words, gaps and files: every token of the list, and every
// character of a gap, behind up to 300 of each.
func genLexLong(x *Enum) {
	ts := lexTokens()
	units := []string{" ", "\t", "\r", "\n", "\r\n", "a ", "(", "x = 1;", "\"a\" ", "'b'", "// c\n", "1.5\t"}
	wraps := [][2]string{{"", ""}, {"a", ""}, {"1", ""}, {"\"", "\""}, {"\"\n", "\""}, {"// ", "\n"}, {"0x", " "}, {"1.", ""}}
	for n := 0; n <= x.Pick(300, 1100); n++ {
		n := n
		x.Case(k("long:%d", n), func() Case {
			return batch(fmt.Sprintf("every token behind %d of everything that may stand in front of it", n), func(lb *lexBatch) {
				for _, u := range units {
					pre := strings.Repeat(u, n)
					for _, sep := range []string{"\r", "\t", " ", "\n", "\r\n", "//\n", "// x\r\n"} {
						lb.text(pre + sep + "y" + sep + "z")
					}
					if n%16 > 2 && n%10 != 0 && !x.Thorough() {
						continue
					}
					for _, t := range ts {
						lb.text(pre + t.text + " y\nz")
					}
				}
				for _, w := range wraps {
					for _, c := range []string{"a", "1", "0", " ", "/", "_", "\\\\", "\\\"", "\\n"} {
						body := strings.Repeat(c, n)
						lb.text(w[0] + body + w[1])
						lb.text(w[0] + body + w[1] + " y\nz")
					}
				}
			})
		})
	}
}

// identifiers that look like other words
func genLexWords(x *Enum) {
	for _, w := range append([]string{"i32", "main", "x"}, lexKeywordList...) {
		var names []string
		for _, c := range "_0aZ" {
			names = append(names, w+string(c))
			if c != '0' {
				names = append(names, string(c)+w)
			}
			for _, d := range "_9z" {
				names = append(names, w+string(c)+string(d))
			}
		}
		names = append(names, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:], "_"+w+"_", w+w, strings.Repeat(w, 20))
		if len(w) > 2 {
			names = append(names, w[:len(w)-1]+"_")
		}
		for _, n := range names {
			n := n
			if n == "i32" || n == "I32" {
				continue
			}
			x.Case(k("word:%s", n), func() Case {
				src := strings.ReplaceAll("struct S { «» i32\n }\nfunc f_(«» i32) i32 { return «» + 1; }\nfunc main() { «» : i32 = 3; «» = «» * 2; @print(«», f_(«»)); s := @S{«»: 4}; @print(s.«»); }\n", "«»", n)
				return Case{Kind: KRun, Src: src, Want: "6 74"}
			})
		}
	}
	for _, w := range lexKeywordList {
		w := w
		for i, p := range []string{"func main() { « : i32 = 3; @print(«); }\n", "func «() {}\nfunc main() {}\n", "struct « { x i32 }\nfunc main() {}\n", "func f(« i32) {}\nfunc main() {}\n"} {
			p := p
			x.Case(k("keyword:%s:%d", w, i), func() Case {
				return Case{Kind: KReject, Src: strings.ReplaceAll(p, "«", w), Line: 1}
			})
		}
	}
}

// the values of number literals
func genLexValues(x *Enum) {
	vals := map[uint64]bool{}
	for i := uint(0); i < 64; i++ {
		for d := uint64(0); d < 3; d++ {
			vals[uint64(1)<<i+d-1] = true
		}
	}
	for p := uint64(1); ; p *= 10 {
		vals[p], vals[p-1], vals[p+1], vals[p/3] = true, true, true, true
		if p == 10000000000000000000 {
			break
		}
	}
	vals[^uint64(0)], vals[^uint64(0)-1], vals[0x0123456789abcdef], vals[0xfedcba9876543210], vals[0xaaaaaaaaaaaaaaaa], vals[0x5555555555555555] = true, true, true, true, true, true
	for v := uint64(0); v < uint64(x.Pick(300, 5000)); v++ {
		vals[v] = true
	}
	var list []uint64
	for v := range vals {
		list = append(list, v)
	}
	sortU(list)
	for i := 0; i < len(list); i += 10 {
		part := list[i:]
		if len(part) > 10 {
			part = part[:10]
		}
		x.Case(k("values:%d", part[0]), func() Case {
			var b, w strings.Builder
			b.WriteString("func main() {\n")
			for _, v := range part {
				fmt.Fprintf(&b, "@print(%d, 0x%x, 0x%X, 0b%b, %d as u64, 00%d, 0x00%x, 0b00%b, \"\\n\");\n", v, v, v, v, v, v, v, v)
				fmt.Fprintf(&w, "%d %d %d %d %d %d %d %d \n", v, v, v, v, v, v, v, v)
			}
			b.WriteString("}\n")
			return Case{Kind: KRun, Src: b.String(), Want: w.String()}
		})
	}
	for _, s := range []string{"18446744073709551616", "99999999999999999999", "0x10000000000000000", "0b1" + strings.Repeat("0", 64), "100000000000000000000000000000"} {
		s := s
		if s[1] != 'x' && s[1] != 'b' {
			for i, f := range []string{"x := @sizeof([«]i8);", "x := 0 as *[«]i8;", "f := func(a *[2][«]i32) { };", "x := [«]i32{};", "x : *[«]i32 = 0 as *[1]i32;"} {
				f := strings.ReplaceAll(f, "«", s)
				x.Case(k("toolargearray:%s:%d", s, i), func() Case {
					return Case{Kind: KReject, Src: "func main() {\n" + f + "\n}\n", Line: 2}
				})
			}
		}
		x.Case("toolarge:"+s, func() Case {
			return Case{Kind: KReject, Src: "func main() {\n@print(" + s + ");\n}\n", Line: 2}
		})
	}
	// floats
	for i := 0; i < x.Pick(40, 200); i++ {
		i := i
		x.Case(k("float:%d", i), func() Case {
			var b, w strings.Builder
			b.WriteString("func main() {\n")
			for _, f := range []string{".0", ".5", ".25", ".125", ".50", ".500000", ".75", ".375"} {
				var v float32
				s := fmt.Sprintf("%d%s", i, f)
				fmt.Sscanf(s, "%f", &v)
				fmt.Fprintf(&b, "@print(%s, 00%s, 0 as f32 - %s, \"\\n\");\n", s, s, s)
				fmt.Fprintf(&w, "%.3f %.3f %.3f \n", v, v, 0-v)
			}
			b.WriteString("}\n")
			return Case{Kind: KRun, Src: b.String(), Want: w.String()}
		})
	}
	// characters and strings
	for c := 1; c < 256; c++ {
		c := c
		x.Case(k("char:%02x", c), func() Case {
			s := string([]byte{byte(c)})
			lit, str := s, s
			switch c {
			case '\'':
				lit = `\'`
			case '\\':
				lit, str = `\\`, `\\`
			case '"':
				str = `\"`
			}
			return Case{Kind: KRun, Src: fmt.Sprintf("func main() {\n@print('%s', \"%s\", \"a%sb\");\ns := \"%s%s\";\n@print(s[0] == '%s', s[1] as i32, s[2]);\n}\n", lit, str, str, str, str, lit),
				Want: fmt.Sprintf("%d %s a%sb1 %d 0", int8(c), s, s, int8(c))}
		})
	}
	for _, e := range []struct {
		lit string
		v   byte
	}{{`\n`, '\n'}, {`\t`, '\t'}, {`\r`, '\r'}, {`\\`, '\\'}, {`\'`, '\''}} {
		e := e
		x.Case("escape:"+e.lit, func() Case {
			return Case{Kind: KRun, Src: "func main() { c := '" + e.lit + "'; @print(c, c == '" + e.lit + "'); }\n", Want: fmt.Sprintf("%d 1", e.v)}
		})
	}
	for _, s := range []string{"\"abc", "'a", "'ab'", "''", "'", "\"", "\"a\\\"", "'\\n", "$", "?", "`", "\\", "~", "#", "#ifx", "# if", "a\x00b", "é"} {
		s := s
		for i, p := range []string{"func main() {\n@print(1);\na := «;\n}\n", "func main() {\n@print(1);\n«; }\n", "\n\n«"} {
			p := p
			x.Case(k("broken:%q:%d", s, i), func() Case {
				line := 3
				if strings.Contains(s, "\"") {
					line = 0 // it goes on to the end
				}
				return Case{Kind: KReject, Src: strings.ReplaceAll(p, "«", s), Line: line}
			})
		}
	}
}

func sortU(l []uint64) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// what is between the tokens means nothing
func genLexGaps(x *Enum) {
	progs := []struct{ toks, want string }{
		{"func main ( ) { @ print ( 1 , 2 ) ; }", "1 2"},
		{"func main ( ) { a := 3 ; b := a * ( a + 1 ) - 2 ; @ print ( b , a == 3 , a != b ) ; }", "10 1 1"},
		{"struct S { x i32 \n y i64 } func main ( ) { s := @ S { x : 1 , y : 2 as i64 } ; s . x = s . x + 4 ; @ print ( s . x , s . y ) ; }", "5 2"},
		{"func f ( a i32 , b i32 ) ( i32 , i32 ) { return b , a ; } func main ( ) { x , y := f ( 1 , 2 ) ; @ print ( x , y ) ; }", "2 1"},
		{"func main ( ) { a := 0 ; for i := 0 ; i < 5 ; i = i + 1 { if i == 3 { continue ; } else { a = a + i ; } } @ print ( a ) ; }", "7"},
		{"func main ( ) { a : [ 3 ] i32 = [ 3 ] i32 { 1 , 2 , 3 } ; p := & a ; a [ 1 ] = 7 ; @ print ( a [ 1 ] , a [ 2 ] ) ; }", "7 3"},
		{"const K := 5 ; g : i32 = 2 ; func main ( ) { switch g { case 2 { @ print ( K ) ; } default { @ print ( 0 ) ; } } }", "5"},
		{"func main ( ) { f := func ( n i32 ) i32 { return n << 2 ; } ; @ print ( f ( 3 ) >> 1 , 1 & 3 | 4 ^ 1 ) ; }", "6 4"},
		{"type N = i64 ; union U { a i32 \n b N } func main ( ) { u := @ alloc ( U , 1 ) ; u . b = 9 as N ; @ print ( u . a ) ; }", "9"},
		{"func main ( ) { a := :i32 { return 4 ; } ; s := \"x y\" ; @ print ( a , s , 'c' , 1.5 , 0xff , 0b11 ) ; }", "4 x y 99 1.500 255 3"},
	}
	for pi, p := range progs {
		parts := strings.Split(p.toks, " ")
		var toks []string
		for _, t := range parts {
			switch {
			case t == ":=":
				toks = append(toks, ":", "=")
			case strings.HasPrefix(t, ":") && len(t) > 1:
				toks = append(toks, ":", t[1:])
			default:
				toks = append(toks, t)
			}
		}
		// the string of the last program has a space inside
		for i := 0; i+1 < len(toks); i++ {
			if toks[i] == "\"x" {
				toks[i] = "\"x y\""
				toks = append(toks[:i+1], toks[i+2:]...)
			}
		}
		want := p.want
		glue := func(sep func(i int) string) string {
			var b strings.Builder
			for i, t := range toks {
				if i > 0 {
					b.WriteString(sep(i))
				}
				b.WriteString(t)
			}
			b.WriteString("\n")
			return b.String()
		}
		for si, sep := range lexSeps {
			sep := sep
			x.Case(k("gaps:%d:all:%d", pi, si), func() Case {
				return Case{Kind: KRun, Src: glue(func(int) string { return sep }), Want: want}
			})
			for g := 1; g < len(toks); g++ {
				g := g
				x.Case(k("gaps:%d:%d:%d", pi, g, si), func() Case {
					return Case{Kind: KRun, Src: glue(func(i int) string {
						if i == g {
							return sep
						}
						return " "
					}), Want: want}
				})
			}
		}
		// no separator where none is needed
		x.Case(k("gaps:%d:none", pi), func() Case {
			return Case{Kind: KRun, Src: glue(func(i int) string {
				a, b := toks[i-1], toks[i]
				if r, open := refLex(a + b); !open && len(r) == 2 && r[0].typ != token.ILLEGAL {
					return ""
				}
				return " "
			}), Want: want}
		})
	}
}
