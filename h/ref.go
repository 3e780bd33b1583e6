package main

// The reference model of Candice: a typed syntax tree, a printer to Candice
// source and a plain interpreter with byte addressed memory.  It shares no
// code with the implementation.  Families build trees (well typed by
// construction), the printer gives the program to the real compiler, and the
// interpreter says what that program has to print.

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ------------------------------------------------------------------- types

type TK int

const (
	KVoid TK = iota
	KInt
	KUint
	KFloat
	KBool
	KPtr
	KArr
	KStruct
	KUnion
	KFunc
)

type Fld struct {
	N string
	T *Ty
}

type Ty struct {
	K    TK
	Bits int
	El   *Ty
	N    int
	Nm   string
	Fs   []Fld
	Ps   []*Ty
	Rs   []*Ty
	Al   string // printed by this alias
}

// alias is the same type under another name.
func alias(t *Ty, name string) *Ty {
	c := *t
	c.Al = name
	return &c
}

// aliasSrc declares the alias.
func aliasSrc(t *Ty) string {
	c := *t
	c.Al = ""
	return "type " + t.Al + " = " + c.String() + ";\n"
}

var (
	TVoid = &Ty{K: KVoid}
	TI1   = &Ty{K: KBool, Bits: 1}
	TI8   = &Ty{K: KInt, Bits: 8}
	TI16  = &Ty{K: KInt, Bits: 16}
	TI32  = &Ty{K: KInt, Bits: 32}
	TI64  = &Ty{K: KInt, Bits: 64}
	TU8   = &Ty{K: KUint, Bits: 8}
	TU16  = &Ty{K: KUint, Bits: 16}
	TU32  = &Ty{K: KUint, Bits: 32}
	TU64  = &Ty{K: KUint, Bits: 64}
	TF32  = &Ty{K: KFloat, Bits: 32}
	TF64  = &Ty{K: KFloat, Bits: 64}
	TStr  = &Ty{K: KPtr, El: TI8}

	intTypes   = []*Ty{TI8, TI16, TI32, TI64, TU8, TU16, TU32, TU64}
	floatTypes = []*Ty{TF32, TF64}
	numTypes   = []*Ty{TI8, TI16, TI32, TI64, TU8, TU16, TU32, TU64, TF32, TF64}
)

func Ptr(t *Ty) *Ty        { return &Ty{K: KPtr, El: t} }
func Arr(n int, t *Ty) *Ty { return &Ty{K: KArr, N: n, El: t} }
func FuncT(r *Ty, ps ...*Ty) *Ty {
	t := &Ty{K: KFunc, Ps: ps}
	if r != nil && r.K != KVoid {
		t.Rs = []*Ty{r}
	}
	return t
}
func StructT(n string, fs ...Fld) *Ty { return &Ty{K: KStruct, Nm: n, Fs: fs} }
func UnionT(n string, fs ...Fld) *Ty  { return &Ty{K: KUnion, Nm: n, Fs: fs} }

func (t *Ty) isInt() bool    { return t.K == KInt || t.K == KUint }
func (t *Ty) isScalar() bool { return t.K >= KInt && t.K <= KPtr || t.K == KFunc }

func (t *Ty) String() string {
	if t.Al != "" {
		return t.Al
	}
	switch t.K {
	case KVoid:
		return "void"
	case KInt, KBool:
		return fmt.Sprintf("i%d", t.Bits)
	case KUint:
		return fmt.Sprintf("u%d", t.Bits)
	case KFloat:
		return fmt.Sprintf("f%d", t.Bits)
	case KPtr:
		return "*" + t.El.String()
	case KArr:
		return fmt.Sprintf("[%d]%s", t.N, t.El)
	case KFunc:
		var ps []string
		for _, p := range t.Ps {
			ps = append(ps, p.String())
		}
		return "func(" + strings.Join(ps, ", ") + ") " + retsString(t.Rs)
	}
	return t.Nm
}

func retsString(rs []*Ty) string {
	switch len(rs) {
	case 0:
		return "void"
	case 1:
		return rs[0].String()
	}
	var s []string
	for _, r := range rs {
		s = append(s, r.String())
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func sameTy(a, b *Ty) bool {
	if a == b {
		return true
	}
	if a.K != b.K || a.Bits != b.Bits || a.N != b.N || a.Nm != b.Nm || len(a.Ps) != len(b.Ps) || len(a.Rs) != len(b.Rs) {
		return false
	}
	if a.El != nil && !sameTy(a.El, b.El) {
		return false
	}
	for i := range a.Ps {
		if !sameTy(a.Ps[i], b.Ps[i]) {
			return false
		}
	}
	for i := range a.Rs {
		if !sameTy(a.Rs[i], b.Rs[i]) {
			return false
		}
	}
	return true
}

// Size and alignment: the rules of C on a 64 bit platform.
func (t *Ty) size() int {
	switch t.K {
	case KInt, KUint, KFloat:
		return t.Bits / 8
	case KBool:
		return 1
	case KPtr, KFunc:
		return 8
	case KArr:
		return t.N * t.El.size()
	case KStruct:
		o := 0
		for _, f := range t.Fs {
			o = up(o, f.T.align()) + f.T.size()
		}
		return up(o, t.align())
	case KUnion:
		o := 0
		for _, f := range t.Fs {
			if f.T.size() > o {
				o = f.T.size()
			}
		}
		return up(o, t.align())
	}
	return 0
}

func (t *Ty) align() int {
	switch t.K {
	case KArr:
		return t.El.align()
	case KStruct, KUnion:
		a := 1
		for _, f := range t.Fs {
			if f.T.align() > a {
				a = f.T.align()
			}
		}
		return a
	}
	return t.size()
}

func up(o, a int) int {
	if a == 0 {
		return o
	}
	return (o + a - 1) / a * a
}

func (t *Ty) off(name string) (int, *Ty) {
	o := 0
	for _, f := range t.Fs {
		if t.K == KStruct {
			o = up(o, f.T.align())
		}
		if f.N == name {
			return o, f.T
		}
		if t.K == KStruct {
			o += f.T.size()
		}
	}
	panic("ref: no field " + name + " in " + t.Nm)
}

// -------------------------------------------------------------------- tree

type E struct {
	Op  string
	T   *Ty
	Ts  []*Ty // several results
	A   []*E
	S   string
	Ns  []string
	U   uint64
	F   float64
	B   []*St // block expressions
	Fn  *Fn
	Arg *Ty // type argument
}

type St struct {
	Op  string
	L   []*E
	E   []*E
	N   []string
	T   []*Ty
	B   [][]*St
	S1  *St
	S2  *St
	Txt string
}

type Fn struct {
	Name string
	Ps   []Fld
	Rs   []*Ty
	Body []*St

	native func(m *Ref, a []V) []V
}

func (f *Fn) ty() *Ty {
	t := &Ty{K: KFunc, Rs: f.Rs}
	for _, p := range f.Ps {
		t.Ps = append(t.Ps, p.T)
	}
	return t
}

type Pg struct {
	Types   []*Ty
	Globals []*St
	Fns     []*Fn
	Order   []int // order of the declarations in the source; nil: types, globals, functions
	Pre     string
}

// Constructors.
func Iv(t *Ty, v int64) *E  { return &E{Op: "lit", T: t, U: maskTo(uint64(v), t)} }
func Uv(t *Ty, v uint64) *E { return &E{Op: "lit", T: t, U: maskTo(v, t)} }
func N32(v int64) *E        { return Iv(TI32, v) }
func Fl(t *Ty, s string) *E {
	f, _ := strconv.ParseFloat(s, 32)
	return &E{Op: "flit", T: t, S: s, F: f}
}
func Str(s string) *E         { return &E{Op: "str", T: TStr, S: s} }
func Chr(s string, v byte) *E { return &E{Op: "chr", T: TI8, S: s, U: uint64(v)} }
func Vr(n string, t *Ty) *E   { return &E{Op: "var", T: t, S: n} }
func Par(e *E) *E             { return &E{Op: "par", T: e.T, Ts: e.Ts, A: []*E{e}} }

// Raw is e, written as the text s.
func Raw(s string, e *E) *E     { return &E{Op: "raw", S: s, T: e.T, Ts: e.Ts, A: []*E{e}} }
func Neg(e *E) *E               { return &E{Op: "neg", T: e.T, A: []*E{e}} }
func Not(e *E) *E               { return &E{Op: "not", T: TI1, A: []*E{e}} }
func Addr(e *E) *E              { return &E{Op: "addr", T: Ptr(e.T), A: []*E{e}} }
func Deref(e *E) *E             { return &E{Op: "deref", T: e.T.El, A: []*E{e}} }
func Cast(t *Ty, e *E) *E       { return &E{Op: "cast", T: t, A: []*E{e}} }
func Idx(a, i *E) *E            { return &E{Op: "idx", T: a.T.El, A: []*E{a, i}} }
func SizeOf(t *Ty) *E           { return &E{Op: "sizeof", T: TI32, Arg: t} }
func Alloc(t *Ty, n *E) *E      { return &E{Op: "alloc", T: Ptr(t), Arg: t, A: []*E{n}} }
func Realloc(p, n *E) *E        { return &E{Op: "realloc", T: p.T, A: []*E{p, n}} }
func ArrL(t *Ty, es ...*E) *E   { return &E{Op: "arr", T: t, A: es} }
func Lam(f *Fn) *E              { return &E{Op: "lam", T: f.ty(), Fn: f} }
func BlkE(t *Ty, b ...*St) *E   { return &E{Op: "blk", T: t, B: b} }
func PreInc(op string, e *E) *E { return &E{Op: "pre" + op, T: e.T, A: []*E{e}} }

// IfE is a block expression made of an if chain.
func IfE(t *Ty, s *St) *E { return &E{Op: "ifblk", T: t, B: []*St{s}} }

func StructL(t *Ty, ns []string, es ...*E) *E { return &E{Op: "struct", T: t, Ns: ns, A: es} }
func Field(e *E, n string) *E {
	t := e.T
	if t.K == KPtr {
		t = t.El
	}
	_, ft := t.off(n)
	return &E{Op: "fld", T: ft, S: n, A: []*E{e}}
}

func Bin(op string, a, b *E) *E {
	t := a.T
	switch op {
	case "==", "!=", "<", "<=", ">", ">=", "&&", "||":
		t = TI1
	}
	return &E{Op: "bin", S: op, T: t, A: []*E{a, b}}
}

func Call(f *E, args ...*E) *E {
	t := TVoid
	if len(f.T.Rs) > 0 {
		t = f.T.Rs[0]
	}
	return &E{Op: "call", T: t, Ts: f.T.Rs, A: append([]*E{f}, args...)}
}
func CallF(f *Fn, args ...*E) *E { return Call(Vr(f.Name, f.ty()), args...) }
func MCall(f *Fn, args ...*E) *E {
	e := CallF(f, args...)
	e.Op = "mcall"
	return e
}

func Decl(n string, e *E) *St { return &St{Op: "decl", N: []string{n}, E: []*E{e}} }
func DeclT(n string, t *Ty, e *E) *St {
	return &St{Op: "decl", N: []string{n}, T: []*Ty{t}, E: []*E{e}}
}
func ConstD(n string, e *E) *St       { return &St{Op: "const", N: []string{n}, E: []*E{e}} }
func DeclM(ns []string, es ...*E) *St { return &St{Op: "decl", N: ns, E: es} }
func Set(l *E, e *E) *St              { return &St{Op: "set", L: []*E{l}, E: []*E{e}} }
func SetM(l []*E, es ...*E) *St       { return &St{Op: "set", L: l, E: es} }
func Ex(e *E) *St                     { return &St{Op: "expr", E: []*E{e}} }
func Print(es ...*E) *St              { return &St{Op: "print", E: es} }
func Blk(b ...*St) *St                { return &St{Op: "block", B: [][]*St{b}} }

// Macro is an #if; everything but 0 and WINDOWS is true on this platform.
func Macro(c string, b ...*St) *St { return &St{Op: "macro", N: []string{c}, B: [][]*St{b}} }

func Ret(es ...*E) *St                  { return &St{Op: "return", E: es} }
func Break() *St                        { return &St{Op: "break"} }
func Cont() *St                         { return &St{Op: "continue"} }
func Free(e *E) *St                     { return &St{Op: "free", E: []*E{e}} }
func If(c *E, b []*St, rest ...any) *St { return ifChain(c, b, rest) }
func For(c *E, b ...*St) *St            { return &St{Op: "for", E: []*E{c}, B: [][]*St{b}} }
func ForI(i *St, c *E, u *St, b ...*St) *St {
	return &St{Op: "for", S1: i, E: []*E{c}, S2: u, B: [][]*St{b}}
}

// Unreach marks the end of a function that is never reached.
func Unreach() *St { return &St{Op: "unreachable"} }

// Switch: cases[i] with blocks[i]; one more block is the default.
func Switch(e *E, cases []*E, blocks ...[]*St) *St {
	return &St{Op: "switch", E: append([]*E{e}, cases...), B: blocks}
}

func ifChain(c *E, b []*St, rest []any) *St {
	s := &St{Op: "if", E: []*E{c}, B: [][]*St{b}}
	for i := 0; i < len(rest); {
		if e, ok := rest[i].(*E); ok {
			s.E = append(s.E, e)
			s.B = append(s.B, rest[i+1].([]*St))
			i += 2
			continue
		}
		s.B = append(s.B, rest[i].([]*St))
		i++
	}
	return s
}

func SS(s ...*St) []*St { return s }

// ----------------------------------------------------------------- printer

type printer struct {
	b   strings.Builder
	ind int
}

func maskTo(v uint64, t *Ty) uint64 {
	switch {
	case t.K == KBool:
		return v & 1
	case t.isInt() && t.Bits < 64:
		return v & (1<<uint(t.Bits) - 1)
	}
	return v
}

func signed(v uint64, bits int) int64 {
	if bits == 64 {
		return int64(v)
	}
	s := uint(64 - bits)
	return int64(v<<s) >> s
}

func litSrc(t *Ty, u uint64) string {
	switch t.K {
	case KBool:
		return fmt.Sprintf("(%d as i1)", u&1)
	case KUint:
		return fmt.Sprintf("(%d as %s)", u, t)
	}
	v := signed(u, t.Bits)
	if t.Bits == 64 && v == math.MinInt64 {
		return "((-9223372036854775807 as i64) - (1 as i64))"
	}
	if t.Bits == 32 {
		if v == math.MinInt32 {
			return "(-2147483648 as i32)"
		}
		if v < 0 {
			return fmt.Sprintf("(%d)", v)
		}
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("(%d as %s)", v, t)
}

func quoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\n':
			b.WriteString(`\n`)
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *E) String() string {
	switch e.Op {
	case "lit":
		return litSrc(e.T, e.U)
	case "flit":
		if e.T.Bits == 64 {
			return "(" + e.S + " as f64)"
		}
		if strings.HasPrefix(e.S, "-") {
			return "(" + e.S + ")"
		}
		return e.S
	case "str":
		return quoteStr(e.S)
	case "chr":
		return "'" + e.S + "'"
	case "var":
		return e.S
	case "par":
		return "(" + e.A[0].String() + ")"
	case "raw":
		return e.S
	case "neg":
		return "-" + atom(e.A[0])
	case "not":
		return "!" + atom(e.A[0])
	case "addr":
		return "&" + atom(e.A[0])
	case "deref":
		return "*" + atom(e.A[0])
	case "pre++":
		return "++" + atom(e.A[0])
	case "pre--":
		return "--" + atom(e.A[0])
	case "cast":
		return atom(e.A[0]) + " as " + e.T.String()
	case "bin":
		return atom(e.A[0]) + " " + e.S + " " + atom(e.A[1])
	case "idx":
		return post(e.A[0]) + "[" + e.A[1].String() + "]"
	case "fld":
		return post(e.A[0]) + "." + e.S
	case "sizeof":
		return "@sizeof(" + e.Arg.String() + ")"
	case "alloc":
		return "@alloc(" + e.Arg.String() + ", " + e.A[0].String() + ")"
	case "realloc":
		return "@realloc(" + e.A[0].String() + ", " + e.A[1].String() + ")"
	case "arr":
		return e.T.String() + "{" + joinE(e.A) + "}"
	case "struct":
		var fs []string
		for i, n := range e.Ns {
			fs = append(fs, n+": "+e.A[i].String())
		}
		return "@" + e.T.Nm + "{" + strings.Join(fs, ", ") + "}"
	case "call":
		return post(e.A[0]) + "(" + joinE(e.A[1:]) + ")"
	case "mcall":
		return post(e.A[1]) + "." + e.A[0].S + "(" + joinE(e.A[2:]) + ")"
	case "lam":
		p := &printer{}
		p.ind = 1
		p.fn("", e.Fn)
		return p.b.String()
	case "blk":
		p := &printer{}
		p.b.WriteString(":" + e.T.String() + " ")
		p.blk(e.B)
		return p.b.String()
	case "ifblk":
		p := &printer{}
		p.b.WriteString(":" + e.T.String() + " ")
		p.ifst(e.B[0])
		return p.b.String()
	}
	panic("printer: " + e.Op)
}

func joinE(es []*E) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, ", ")
}

// atom prints an operand, in parentheses unless it is primary.
func atom(e *E) string {
	switch e.Op {
	case "lit", "flit", "str", "chr", "var", "par", "raw", "idx", "fld", "sizeof", "call", "mcall":
		return e.String()
	}
	return "(" + e.String() + ")"
}

func post(e *E) string {
	switch e.Op {
	case "var", "par", "raw", "idx", "fld", "call", "mcall", "lam":
		return e.String()
	}
	return "(" + e.String() + ")"
}

func (p *printer) line(s string) {
	p.b.WriteString(strings.Repeat("  ", p.ind))
	p.b.WriteString(s)
	p.b.WriteByte('\n')
}

func (p *printer) blk(b []*St) {
	p.b.WriteString("{\n")
	p.ind++
	for _, s := range b {
		p.st(s)
	}
	p.ind--
	p.b.WriteString(strings.Repeat("  ", p.ind) + "}")
}

func (p *printer) ifst(s *St) {
	for i, c := range s.E {
		if i > 0 {
			p.b.WriteString(" else ")
		}
		p.b.WriteString("if " + c.String() + " ")
		p.blk(s.B[i])
	}
	if len(s.B) > len(s.E) {
		p.b.WriteString(" else ")
		p.blk(s.B[len(s.B)-1])
	}
}

func (s *St) simple() string {
	switch s.Op {
	case "decl", "const":
		k := ""
		if s.Op == "const" {
			k = "const "
		}
		var es []string
		for _, e := range s.E {
			es = append(es, e.String())
		}
		if len(s.T) > 0 && s.T[0] != nil {
			return k + strings.Join(s.N, ", ") + " : " + s.T[0].String() + " = " + strings.Join(es, ", ")
		}
		return k + strings.Join(s.N, ", ") + " := " + strings.Join(es, ", ")
	case "set":
		return joinE(s.L) + " = " + joinE(s.E)
	case "expr":
		return s.E[0].String()
	case "print":
		return "@print(" + joinE(s.E) + ")"
	case "free":
		return "@free(" + s.E[0].String() + ")"
	case "break", "continue":
		return s.Op
	case "unreachable":
		return "@unreachable()"
	case "return":
		if len(s.E) == 0 {
			return "return"
		}
		return "return " + joinE(s.E)
	}
	return ""
}

func (p *printer) st(s *St) {
	if s.Txt != "" {
		p.line(s.Txt)
		return
	}
	if x := s.simple(); x != "" {
		p.line(x + ";")
		return
	}
	ind := strings.Repeat("  ", p.ind)
	switch s.Op {
	case "nop":
	case "block":
		p.b.WriteString(ind)
		p.blk(s.B[0])
		p.b.WriteByte('\n')
	case "macro":
		p.b.WriteString(ind + "#if " + s.N[0] + " ")
		p.blk(s.B[0])
		p.b.WriteByte('\n')
	case "if":
		p.b.WriteString(ind)
		p.ifst(s)
		p.b.WriteByte('\n')
	case "for":
		p.b.WriteString(ind + "for ")
		if s.S1 != nil || s.S2 != nil {
			if s.S1 != nil {
				p.b.WriteString(s.S1.simple())
			}
			p.b.WriteString("; " + s.E[0].String() + "; ")
			if s.S2 != nil {
				p.b.WriteString(s.S2.simple() + " ")
			}
		} else {
			p.b.WriteString(s.E[0].String() + " ")
		}
		p.blk(s.B[0])
		p.b.WriteByte('\n')
	case "switch":
		p.b.WriteString(ind + "switch " + s.E[0].String() + " {\n")
		for i, c := range s.E[1:] {
			p.b.WriteString(ind + "  case " + c.String() + " ")
			p.ind++
			p.blk(s.B[i])
			p.ind--
			p.b.WriteByte('\n')
		}
		if len(s.B) > len(s.E)-1 {
			p.b.WriteString(ind + "  default ")
			p.ind++
			p.blk(s.B[len(s.B)-1])
			p.ind--
			p.b.WriteByte('\n')
		}
		p.b.WriteString(ind + "}\n")
	default:
		panic("printer: statement " + s.Op)
	}
}

func (p *printer) fn(kw string, f *Fn) {
	var ps []string
	for _, x := range f.Ps {
		ps = append(ps, x.N+" "+x.T.String())
	}
	n := ""
	if f.Name != "" {
		n = " " + f.Name
	}
	r := ""
	if len(f.Rs) > 0 {
		r = retsString(f.Rs) + " "
	}
	p.b.WriteString(kw + "func" + n + "(" + strings.Join(ps, ", ") + ") " + r)
	p.blk(f.Body)
}

func (t *Ty) declSrc() string {
	k := "struct "
	if t.K == KUnion {
		k = "union "
	}
	var b strings.Builder
	b.WriteString(k + t.Nm + " {\n")
	for _, f := range t.Fs {
		b.WriteString("  " + f.N + " " + f.T.String() + "\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// decls are the top level declarations, in the default order.
func (g *Pg) decls() []string {
	var ds []string
	for _, t := range g.Types {
		ds = append(ds, t.declSrc())
	}
	for _, s := range g.Globals {
		ds = append(ds, s.simple()+";\n")
	}
	for _, f := range g.Fns {
		if f.native != nil {
			continue
		}
		p := &printer{}
		p.fn("", f)
		ds = append(ds, p.b.String()+"\n")
	}
	return ds
}

func (g *Pg) Src() string {
	ds := g.decls()
	if g.Order == nil {
		return g.Pre + strings.Join(ds, "")
	}
	var b strings.Builder
	b.WriteString(g.Pre)
	for _, i := range g.Order {
		b.WriteString(ds[i])
	}
	return b.String()
}

// ------------------------------------------------------------- interpreter

type V struct {
	T *Ty
	U uint64
	F float64
	A []byte
}

type Obj struct {
	base uint64
	b    []byte
	dead bool
}

type Ref struct {
	objs   []*Obj
	glob   map[string]bnd
	fns    map[string]*Fn
	ids    []*Fn
	idOf   map[*Fn]uint64
	out    strings.Builder
	steps  int
	limit  int
	strs   map[*E]uint64
	frames int

	captured map[*Fn]map[string]bnd // storage of the captured variables, one per lambda
}

type bnd struct {
	t *Ty
	o *Obj
}

type frame struct {
	scopes []map[string]bnd
	fn     *Fn
	rets   []V
}

type refPanic struct{ msg string }

func (m *Ref) fail(f string, a ...any) { panic(refPanic{fmt.Sprintf(f, a...)}) }

func (m *Ref) newObj(n int) *Obj {
	o := &Obj{base: uint64(len(m.objs)+1) << 32, b: make([]byte, n)}
	m.objs = append(m.objs, o)
	return o
}

func (m *Ref) at(addr uint64, n int) []byte {
	i := addr >> 32
	if i == 0 || int(i) > len(m.objs) {
		m.fail("bad address %#x", addr)
	}
	o := m.objs[i-1]
	off := int(addr & 0xffffffff)
	if o.dead || off+n > len(o.b) {
		m.fail("access out of bounds or after free")
	}
	return o.b[off : off+n]
}

func enc(v V) []byte {
	if v.A != nil || !v.T.isScalar() {
		return append([]byte(nil), v.A...)
	}
	b := make([]byte, 8)
	u := v.U
	if v.T.K == KFloat {
		if v.T.Bits == 32 {
			u = uint64(math.Float32bits(float32(v.F)))
		} else {
			u = math.Float64bits(v.F)
		}
	}
	binary.LittleEndian.PutUint64(b, u)
	return b[:v.T.size()]
}

func dec(t *Ty, b []byte) V {
	if !t.isScalar() {
		return V{T: t, A: append([]byte{}, b...)}
	}
	var x [8]byte
	copy(x[:], b[:t.size()])
	u := binary.LittleEndian.Uint64(x[:])
	if t.K == KFloat {
		if t.Bits == 32 {
			return V{T: t, F: float64(math.Float32frombits(uint32(u)))}
		}
		return V{T: t, F: math.Float64frombits(u)}
	}
	return V{T: t, U: maskTo(u, t)}
}

func (m *Ref) load(t *Ty, a uint64) V { return dec(t, m.at(a, t.size())) }
func (m *Ref) store(a uint64, v V)    { b := enc(v); copy(m.at(a, len(b)), b) }
func (f *frame) push()                { f.scopes = append(f.scopes, map[string]bnd{}) }
func (f *frame) pop()                 { f.scopes = f.scopes[:len(f.scopes)-1] }
func (f *frame) bind(n string, b bnd) { f.scopes[len(f.scopes)-1][n] = b }
func (m *Ref) find(f *frame, n string) (bnd, bool) {
	if f == nil {
		b, ok := m.glob[n]
		return b, ok
	}
	for i := len(f.scopes) - 1; i >= 0; i-- {
		if b, ok := f.scopes[i][n]; ok {
			return b, true
		}
	}
	b, ok := m.glob[n]
	return b, ok
}

func (m *Ref) declare(f *frame, n string, t *Ty, v V) {
	o := m.newObj(t.size())
	v = m.fit(t, v)
	copy(o.b, enc(v))
	f.bind(n, bnd{t, o})
}

// fit stores a value in a union by any of its fields.
func (m *Ref) fit(t *Ty, v V) V {
	if t.K == KUnion && !sameTy(t, v.T) {
		b := make([]byte, t.size())
		copy(b, enc(v))
		return V{T: t, A: b}
	}
	return v
}

func (m *Ref) fnID(fn *Fn) uint64 {
	if id, ok := m.idOf[fn]; ok {
		return id
	}
	m.ids = append(m.ids, fn)
	id := uint64(len(m.ids))
	m.idOf[fn] = id
	return id
}

func (m *Ref) tick() {
	m.steps++
	if m.steps > m.limit {
		m.fail("step limit")
	}
}

const (
	cNone = iota
	cBreak
	cCont
	cRet
)

func (m *Ref) block(f *frame, b []*St) int {
	f.push()
	defer f.pop()
	for _, s := range b {
		if c := m.exec(f, s); c != cNone {
			return c
		}
	}
	return cNone
}

func truth(v V) bool {
	if v.T.K == KFloat {
		return v.F != 0
	}
	return v.U != 0
}

// leaving is a break or a continue out of a block expression.
type leaving struct{ c int }

func (m *Ref) exec(f *frame, s *St) (left int) {
	m.tick()
	if f != nil {
		n, rets := len(f.scopes), f.rets
		defer func() {
			if e := recover(); e != nil {
				l, ok := e.(leaving)
				if !ok {
					panic(e)
				}
				f.scopes, f.rets, left = f.scopes[:n], rets, l.c
			}
		}()
	}
	switch s.Op {
	case "nop":
	case "decl", "const":
		var vs []V
		if len(s.N) > 1 && len(s.E) == 1 {
			vs = m.evalMulti(f, s.E[0])
		} else {
			for _, e := range s.E {
				vs = append(vs, m.eval(f, e))
			}
		}
		for i, n := range s.N {
			t := vs[i].T
			if len(s.T) > i && s.T[i] != nil {
				t = s.T[i]
			}
			if f == nil {
				o := m.newObj(t.size())
				copy(o.b, enc(m.fit(t, vs[i])))
				m.glob[n] = bnd{t, o}
				continue
			}
			m.declare(f, n, t, vs[i])
		}
	case "set":
		var vs []V
		if len(s.L) > 1 && len(s.E) == 1 {
			vs = m.evalMulti(f, s.E[0])
		} else {
			for _, e := range s.E {
				vs = append(vs, m.eval(f, e))
			}
		}
		for i, l := range s.L {
			a := m.lv(f, l)
			m.store(a, m.fit(l.T, vs[i]))
		}
	case "expr":
		m.evalMulti(f, s.E[0])
	case "print":
		var vs []V
		for _, e := range s.E {
			vs = append(vs, m.eval(f, e))
		}
		for i, v := range vs {
			if i > 0 {
				m.out.WriteByte(' ')
			}
			m.out.WriteString(m.show(v))
		}
	case "free":
		v := m.eval(f, s.E[0])
		i := v.U >> 32
		if i == 0 || m.objs[i-1].dead || v.U&0xffffffff != 0 {
			m.fail("bad free")
		}
		m.objs[i-1].dead = true
	case "block":
		return m.block(f, s.B[0])
	case "macro":
		if s.N[0] != "0" && s.N[0] != "WINDOWS" {
			for _, s := range s.B[0] {
				if c := m.exec(f, s); c != cNone {
					return c
				}
			}
		}
	case "if":
		for i, c := range s.E {
			if truth(m.eval(f, c)) {
				return m.block(f, s.B[i])
			}
		}
		if len(s.B) > len(s.E) {
			return m.block(f, s.B[len(s.B)-1])
		}
	case "for":
		f.push()
		defer f.pop()
		if s.S1 != nil {
			m.exec(f, s.S1)
		}
		for truth(m.eval(f, s.E[0])) {
			m.tick()
			c := m.block(f, s.B[0])
			if c == cRet {
				return c
			}
			if c == cBreak {
				break
			}
			if s.S2 != nil {
				m.exec(f, s.S2)
			}
		}
	case "switch":
		v := m.eval(f, s.E[0])
		for i, c := range s.E[1:] {
			x := m.eval(f, c)
			if m.binop("==", v, x).U == 1 {
				return m.block(f, s.B[i])
			}
		}
		if len(s.B) > len(s.E)-1 {
			return m.block(f, s.B[len(s.B)-1])
		}
	case "break":
		return cBreak
	case "continue":
		return cCont
	case "unreachable":
		m.fail("unreachable reached")
	case "return":
		if len(s.E) == 1 {
			f.rets = m.evalMulti(f, s.E[0])
		} else {
			f.rets = nil
			for _, e := range s.E {
				f.rets = append(f.rets, m.eval(f, e))
			}
		}
		return cRet
	default:
		panic("ref: statement " + s.Op)
	}
	return cNone
}

func (m *Ref) cstr(a uint64) string {
	i := a >> 32
	if i == 0 {
		m.fail("null string")
	}
	o := m.objs[i-1]
	off := int(a & 0xffffffff)
	for j := off; j < len(o.b); j++ {
		if o.b[j] == 0 {
			return string(o.b[off:j])
		}
	}
	m.fail("unterminated string")
	return ""
}

func (m *Ref) show(v V) string {
	switch v.T.K {
	case KInt:
		return strconv.FormatInt(signed(v.U, v.T.Bits), 10)
	case KBool, KUint:
		return strconv.FormatUint(v.U, 10)
	case KFloat:
		switch {
		case math.IsInf(v.F, 1):
			return "inf"
		case math.IsInf(v.F, -1):
			return "-inf"
		case math.IsNaN(v.F):
			m.fail("NaN printed")
		}
		return fmt.Sprintf("%.3f", v.F)
	case KPtr:
		if v.T.El.K == KInt && v.T.El.Bits == 8 {
			return m.cstr(v.U)
		}
	case KStruct:
		if v.T.Al == "" {
			return v.T.Nm
		}
	}
	m.fail("print of %s", v.T)
	return ""
}

func (m *Ref) lv(f *frame, e *E) uint64 {
	switch e.Op {
	case "par", "raw":
		return m.lv(f, e.A[0])
	case "var":
		b, ok := m.find(f, e.S)
		if !ok {
			m.fail("variable %s", e.S)
		}
		return b.o.base
	case "deref":
		return m.eval(f, e.A[0]).U
	case "fld":
		a, t := m.base(f, e.A[0])
		o, _ := t.off(e.S)
		return a + uint64(o)
	case "idx":
		var a uint64
		if e.A[0].T.K == KPtr {
			a = m.eval(f, e.A[0]).U
		} else {
			a, _ = m.base(f, e.A[0])
		}
		i := m.eval(f, e.A[1])
		return a + m.ival(i)*uint64(e.T.size())
	}
	// a temporary
	v := m.eval(f, e)
	o := m.newObj(v.T.size())
	copy(o.b, enc(v))
	return o.base
}

func (m *Ref) ival(v V) uint64 {
	if v.T.K == KInt {
		return uint64(signed(v.U, v.T.Bits))
	}
	return v.U
}

// base is the address of an aggregate; pointers are followed.
func (m *Ref) base(f *frame, e *E) (uint64, *Ty) {
	if e.T.K == KPtr {
		return m.eval(f, e).U, e.T.El
	}
	return m.lv(f, e), e.T
}

func (m *Ref) evalMulti(f *frame, e *E) []V {
	for e.Op == "par" || e.Op == "raw" {
		e = e.A[0]
	}
	if e.Op == "call" || e.Op == "mcall" {
		return m.callE(f, e)
	}
	return []V{m.eval(f, e)}
}

func (m *Ref) callE(f *frame, e *E) []V {
	var fn *Fn
	ce := e.A[0]
	if ce.Op == "var" {
		if _, ok := m.find(f, ce.S); !ok {
			fn = m.fns[ce.S]
		}
	}
	if fn == nil {
		v := m.eval(f, ce)
		if v.U == 0 || int(v.U) > len(m.ids) {
			m.fail("call of a bad function value")
		}
		fn = m.ids[v.U-1]
	}
	var args []V
	for _, a := range e.A[1:] {
		args = append(args, m.eval(f, a))
	}
	return m.call(fn, args)
}

func (m *Ref) call(fn *Fn, args []V) []V {
	m.tick()
	if fn.native != nil {
		return fn.native(m, args)
	}
	m.frames++
	if m.frames > 400 {
		m.fail("recursion limit")
	}
	defer func() { m.frames-- }()
	f := &frame{fn: fn}
	f.push()
	if fn.Name == "" {
		if c, ok := m.captured[fn]; ok {
			f.scopes[0] = c
			f.push()
		}
	}
	for i, p := range fn.Ps {
		m.declare(f, p.N, p.T, args[i])
	}
	m.block(f, fn.Body)
	for i := range f.rets {
		f.rets[i] = m.fit(fn.Rs[i], f.rets[i])
	}
	return f.rets
}

func (m *Ref) eval(f *frame, e *E) V {
	m.tick()
	switch e.Op {
	case "lit", "chr":
		return V{T: e.T, U: e.U}
	case "flit":
		return V{T: e.T, F: float64(float32(e.F))}
	case "str":
		a, ok := m.strs[e]
		if !ok {
			o := m.newObj(len(e.S) + 1)
			copy(o.b, e.S)
			a = o.base
			m.strs[e] = a
		}
		return V{T: TStr, U: a}
	case "var":
		if b, ok := m.find(f, e.S); ok {
			return m.load(b.t, b.o.base)
		}
		if fn, ok := m.fns[e.S]; ok {
			return V{T: e.T, U: m.fnID(fn)}
		}
		m.fail("unknown %s", e.S)
	case "par", "raw":
		return m.eval(f, e.A[0])
	case "fld":
		if e.A[0].T.K == KPtr || isLv(e.A[0]) {
			return m.load(e.T, m.lv(f, e))
		}
		v := m.eval(f, e.A[0])
		o, ft := v.T.off(e.S)
		return dec(ft, v.A[o:])
	case "deref", "idx":
		return m.load(e.T, m.lv(f, e))
	case "addr":
		return V{T: e.T, U: m.lv(f, e.A[0])}
	case "neg":
		v := m.eval(f, e.A[0])
		if v.T.K == KFloat {
			return V{T: v.T, F: -v.F}
		}
		return V{T: v.T, U: maskTo(-v.U, v.T)}
	case "not":
		v := m.eval(f, e.A[0])
		return boolV(!truth(v))
	case "pre++", "pre--":
		a := m.lv(f, e.A[0])
		v := m.load(e.T, a)
		d := uint64(1)
		if e.Op == "pre--" {
			d = ^uint64(0)
		}
		if v.T.K == KFloat {
			v.F += float64(int64(d))
			v.F = roundF(v.T, v.F)
		} else if v.T.K == KPtr {
			v.U += d * uint64(v.T.El.size())
		} else {
			v.U = maskTo(v.U+d, v.T)
		}
		m.store(a, v)
		return v
	case "cast":
		if e.A[0].T.K == KArr {
			return V{T: e.T, U: m.lv(f, e.A[0])}
		}
		return m.cast(e.T, m.eval(f, e.A[0]))
	case "bin":
		if e.S == "&&" || e.S == "||" {
			l := truth(m.eval(f, e.A[0]))
			if l == (e.S == "||") {
				return boolV(l)
			}
			return boolV(truth(m.eval(f, e.A[1])))
		}
		l := m.eval(f, e.A[0])
		r := m.eval(f, e.A[1])
		return m.binop(e.S, l, r)
	case "sizeof":
		return V{T: TI32, U: uint64(e.Arg.size())}
	case "alloc":
		n := m.eval(f, e.A[0])
		return V{T: e.T, U: m.newObj(int(n.U) * e.Arg.size()).base}
	case "realloc":
		p := m.eval(f, e.A[0])
		n := m.eval(f, e.A[1])
		old := m.objs[p.U>>32-1]
		o := m.newObj(int(n.U) * e.T.El.size())
		copy(o.b, old.b)
		old.dead = true
		return V{T: e.T, U: o.base}
	case "arr":
		b := make([]byte, e.T.size())
		for i, a := range e.A {
			copy(b[i*e.T.El.size():], enc(m.fit(e.T.El, m.eval(f, a))))
		}
		return V{T: e.T, A: b}
	case "struct":
		b := make([]byte, e.T.size())
		for i, a := range e.A {
			o, ft := e.T.off(e.Ns[i])
			copy(b[o:], enc(m.fit(ft, m.eval(f, a))))
		}
		return V{T: e.T, A: b}
	case "call", "mcall":
		r := m.callE(f, e)
		if len(r) == 0 {
			return V{T: TVoid}
		}
		return r[0]
	case "lam":
		c := map[string]bnd{}
		old := m.captured[e.Fn]
		if f != nil {
			for _, s := range f.scopes {
				for n, b := range s {
					o := m.newObj(b.t.size())
					if ob, ok := old[n]; ok {
						o = ob.o
					}
					copy(o.b, b.o.b)
					c[n] = bnd{b.t, o}
				}
			}
		}
		m.captured[e.Fn] = c
		return V{T: e.T, U: m.fnID(e.Fn)}
	case "blk", "ifblk":
		sv := f.rets
		f.rets = nil
		if c := m.block(f, e.B); c == cBreak || c == cCont {
			panic(leaving{c})
		}
		r := f.rets
		f.rets = sv
		if len(r) == 0 {
			return V{T: TVoid}
		}
		return m.fit(e.T, r[0])
	}
	panic("ref: expression " + e.Op)
}

func isLv(e *E) bool {
	switch e.Op {
	case "var", "deref":
		return true
	case "par", "raw", "fld":
		return e.A[0].T.K == KPtr || isLv(e.A[0])
	case "idx":
		return e.A[0].T.K == KPtr || isLv(e.A[0])
	}
	return false
}

func boolV(b bool) V {
	if b {
		return V{T: TI1, U: 1}
	}
	return V{T: TI1}
}

func roundF(t *Ty, f float64) float64 {
	if t.Bits == 32 {
		return float64(float32(f))
	}
	return f
}

func (m *Ref) cast(t *Ty, v V) V {
	from := v.T
	switch {
	case from.K == KFloat && t.K == KFloat:
		return V{T: t, F: roundF(t, v.F)}
	case from.K == KFloat:
		x := math.Trunc(v.F)
		if t.K == KUint {
			if x < 0 || x >= math.Ldexp(1, t.Bits) || x != x {
				m.fail("float to integer out of range")
			}
			return V{T: t, U: uint64(x)}
		}
		if !(x >= -math.Ldexp(1, t.Bits-1) && x < math.Ldexp(1, t.Bits-1)) {
			m.fail("float to integer out of range")
		}
		return V{T: t, U: maskTo(uint64(int64(x)), t)}
	case t.K == KFloat:
		if from.K == KInt {
			i := signed(v.U, from.Bits)
			if t.Bits == 32 {
				return V{T: t, F: float64(float32(i))}
			}
			return V{T: t, F: float64(i)}
		}
		if t.Bits == 32 {
			return V{T: t, F: float64(float32(v.U))}
		}
		return V{T: t, F: float64(v.U)}
	default:
		return V{T: t, U: maskTo(m.ival(v), t)}
	}
}

func (m *Ref) binop(op string, l, r V) V {
	t := l.T
	switch op {
	case "==", "!=", "<", "<=", ">", ">=":
		c := 0
		switch {
		case t.K == KFloat:
			if l.F != l.F || r.F != r.F {
				return boolV(op == "!=")
			}
			c = cmp3(l.F < r.F, l.F > r.F)
		case t.K == KPtr && t.El.K == KInt && t.El.Bits == 8:
			c = strings.Compare(m.cstr(l.U), m.cstr(r.U))
		case t.K == KInt:
			a, b := signed(l.U, t.Bits), signed(r.U, t.Bits)
			c = cmp3(a < b, a > b)
		default:
			c = cmp3(l.U < r.U, l.U > r.U)
		}
		switch op {
		case "==":
			return boolV(c == 0)
		case "!=":
			return boolV(c != 0)
		case "<":
			return boolV(c < 0)
		case "<=":
			return boolV(c <= 0)
		case ">":
			return boolV(c > 0)
		}
		return boolV(c >= 0)
	}
	if t.K == KFloat {
		var x float64
		switch op {
		case "+":
			x = l.F + r.F
		case "-":
			x = l.F - r.F
		case "*":
			x = l.F * r.F
		case "/":
			x = l.F / r.F
		case "%":
			x = math.Mod(l.F, r.F)
		default:
			panic("ref: float " + op)
		}
		return V{T: t, F: roundF(t, x)}
	}
	if t.K == KPtr {
		if op == "+" && t.El.K == KInt && t.El.Bits == 8 && r.T.K == KPtr {
			a, b := m.cstr(l.U), m.cstr(r.U)
			o := m.newObj(len(a) + len(b) + 1)
			copy(o.b, a+b)
			return V{T: t, U: o.base}
		}
		d := m.ival(r) * uint64(t.El.size())
		if op == "-" {
			d = -d
		}
		return V{T: t, U: l.U + d}
	}
	var x uint64
	sl, sr := signed(l.U, maxi(t.Bits, 8)), signed(r.U, maxi(r.T.Bits, 8))
	switch op {
	case "+":
		x = l.U + r.U
	case "-":
		x = l.U - r.U
	case "*":
		x = l.U * r.U
	case "/", "%":
		if r.U == 0 {
			m.fail("division by zero")
		}
		if t.K == KInt {
			if sr == -1 && sl == math.MinInt64>>uint(64-t.Bits) {
				m.fail("division overflow")
			}
			if op == "/" {
				x = uint64(sl / sr)
			} else {
				x = uint64(sl % sr)
			}
		} else if op == "/" {
			x = l.U / r.U
		} else {
			x = l.U % r.U
		}
	case "&":
		x = l.U & r.U
	case "|":
		x = l.U | r.U
	case "^":
		x = l.U ^ r.U
	case "<<", ">>":
		n := m.ival(r)
		if n >= uint64(t.Bits) {
			m.fail("shift out of range")
		}
		if op == "<<" {
			x = l.U << n
		} else {
			x = l.U >> n
		}
	default:
		panic("ref: " + op)
	}
	return V{T: t, U: maskTo(x, t)}
}

func cmp3(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

type RefResult struct {
	Out   string
	Err   string // the program leaves the specified part of the language
	Steps int
}

// Run interprets the program from main.
func (g *Pg) Run(limit int) (res RefResult) {
	m := &Ref{glob: map[string]bnd{}, fns: map[string]*Fn{}, idOf: map[*Fn]uint64{}, strs: map[*E]uint64{}, limit: limit, captured: map[*Fn]map[string]bnd{}}
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(refPanic); ok {
				res = RefResult{Out: m.out.String(), Err: p.msg, Steps: m.steps}
				return
			}
			panic(r)
		}
	}()
	for _, fn := range g.Fns {
		m.fns[fn.Name] = fn
	}
	for _, s := range g.Globals {
		m.exec(nil, s)
	}
	m.call(m.fns["main"], nil)
	return RefResult{Out: m.out.String(), Steps: m.steps}
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
