package main

// An explicit-state interpreter for the LLVM IR modules the Candice compiler
// builds in memory (github.com/llir/llvm).  Memory is a set of objects with
// byte-accurate bounds, liveness and initialisation state, so that a run
// reports out-of-bounds accesses, uses of freed or uninitialised storage,
// division traps, reached `unreachable`s and so on as distinguished outcomes
// instead of whatever the machine would have done.
//
// The interpreter follows the *textual* semantics of the module (the text is
// what LLVM consumes): an operand whose type is not printed takes the type of
// the operand that is printed.

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// val is a runtime value: scalars live in b, aggregates in agg.
type val struct {
	b   uint64
	u   bool // undefined / poison
	agg []val
}

type object struct {
	base  uint64
	data  []byte
	def   []bool
	dead  bool
	heap  bool
	stack bool
	ro    bool
	name  string
	fn    *ir.Func
}

const slotShift = 24

// trap is the panic payload for anything that stops execution abnormally.
type trap struct {
	kind string
	msg  string
}

func (t trap) String() string { return t.kind + ": " + t.msg }

type unsupported struct{ what string }

type RunResult struct {
	Output      string
	Exit        int
	Trap        string // "" when the program ran to completion
	TrapMsg     string
	Unsupported string
	Steps       int
	Leaked      int
	Grows       bool // an activation took a slot of the stack more than once
}

type mach struct {
	mod     *ir.Module
	objs    []*object
	globals map[interface{}]uint64
	fnAddr  map[*ir.Func]uint64
	byName  map[string]*ir.Func
	fns     map[*ir.Func]*dfn
	out     bytes.Buffer
	atexit  []uint64
	steps   int
	limit   int
	depth   int
	sizes   map[types.Type]layout
	heapN   int
	again   bool // a slot of the stack was taken twice in one activation
}

type layout struct {
	size, align uint64
	offs        []uint64 // struct field offsets
}

func roundUp(x, a uint64) uint64 {
	if a == 0 {
		return x
	}
	return (x + a - 1) / a * a
}

func (m *mach) lay(t types.Type) layout {
	if l, ok := m.sizes[t]; ok {
		return l
	}
	l := computeLayout(t, m.lay)
	m.sizes[t] = l
	return l
}

func computeLayout(t types.Type, rec func(types.Type) layout) layout {
	var l layout
	switch t := t.(type) {
	case *types.IntType:
		n := (t.BitSize + 7) / 8
		s := uint64(1)
		for s < n {
			s *= 2
		}
		l = layout{size: s, align: s}
		if s > 8 {
			l.align = 16
		}
	case *types.FloatType:
		switch t.Kind {
		case types.FloatKindFloat:
			l = layout{size: 4, align: 4}
		case types.FloatKindDouble:
			l = layout{size: 8, align: 8}
		default:
			panic(unsupported{"float kind " + t.String()})
		}
	case *types.PointerType, *types.FuncType:
		l = layout{size: 8, align: 8}
	case *types.ArrayType:
		e := rec(t.ElemType)
		l = layout{size: e.size * t.Len, align: e.align}
	case *types.StructType:
		if t.Opaque {
			panic(unsupported{"opaque struct layout"})
		}
		l.align = 1
		for _, f := range t.Fields {
			e := rec(f)
			if !t.Packed {
				l.size = roundUp(l.size, e.align)
				if e.align > l.align {
					l.align = e.align
				}
			}
			l.offs = append(l.offs, l.size)
			l.size += e.size
		}
		l.size = roundUp(l.size, l.align)
	default:
		panic(unsupported{"layout of " + t.String()})
	}
	return l
}

func (m *mach) newObj(size uint64, name string) *object {
	if size >= 1<<slotShift {
		panic(trap{"oom", "object too large: " + strconv.FormatUint(size, 10)})
	}
	o := &object{base: uint64(len(m.objs)+1) << slotShift, data: make([]byte, size), def: make([]bool, size), name: name}
	m.objs = append(m.objs, o)
	if len(m.objs) > 4_000_000 {
		panic(trap{"oom", "too many objects"})
	}
	return o
}

func (m *mach) at(addr uint64, n uint64, what string) (*object, uint64) {
	idx := addr >> slotShift
	if idx == 0 {
		panic(trap{"null", what + " through a null or near-null pointer"})
	}
	if idx > uint64(len(m.objs)) {
		panic(trap{"wild", what + " through a pointer to no object"})
	}
	o := m.objs[idx-1]
	off := addr - o.base
	if o.dead {
		panic(trap{"use-after-free", what + " of " + o.name})
	}
	if o.fn != nil {
		panic(trap{"wild", what + " of code of " + o.name})
	}
	if off > uint64(len(o.data)) || uint64(len(o.data))-off < n {
		panic(trap{"out-of-bounds", fmt.Sprintf("%s of %d bytes at offset %d of %s (size %d)", what, n, off, o.name, len(o.data))})
	}
	return o, off
}

func mask(bits uint64) uint64 {
	if bits >= 64 {
		return ^uint64(0)
	}
	return 1<<bits - 1
}

func sext(x uint64, bits uint64) int64 {
	if bits >= 64 {
		return int64(x)
	}
	sh := 64 - bits
	return int64(x<<sh) >> sh
}

func (m *mach) load(t types.Type, addr uint64) val {
	switch t := t.(type) {
	case *types.StructType:
		l := m.lay(t)
		v := val{agg: make([]val, len(t.Fields))}
		if l.size == 0 {
			return v
		}
		for i, f := range t.Fields {
			v.agg[i] = m.load(f, addr+l.offs[i])
		}
		return v
	case *types.ArrayType:
		e := m.lay(t.ElemType)
		v := val{agg: make([]val, t.Len)}
		for i := range v.agg {
			v.agg[i] = m.load(t.ElemType, addr+uint64(i)*e.size)
		}
		return v
	}
	l := m.lay(t)
	o, off := m.at(addr, l.size, "load")
	var b uint64
	u := false
	for i := uint64(0); i < l.size; i++ {
		b |= uint64(o.data[off+i]) << (8 * i)
		if !o.def[off+i] {
			u = true
		}
	}
	if it, ok := t.(*types.IntType); ok {
		b &= mask(it.BitSize)
	}
	return val{b: b, u: u}
}

func (m *mach) store(t types.Type, addr uint64, v val) {
	switch t := t.(type) {
	case *types.StructType:
		l := m.lay(t)
		if l.size > 0 {
			m.at(addr, l.size, "store")
		}
		for i, f := range t.Fields {
			fv := val{u: true}
			if v.agg != nil {
				fv = v.agg[i]
			}
			m.store(f, addr+l.offs[i], fv)
		}
		return
	case *types.ArrayType:
		e := m.lay(t.ElemType)
		for i := uint64(0); i < t.Len; i++ {
			fv := val{u: true}
			if v.agg != nil {
				fv = v.agg[i]
			}
			m.store(t.ElemType, addr+i*e.size, fv)
		}
		return
	}
	l := m.lay(t)
	o, off := m.at(addr, l.size, "store")
	if o.ro {
		panic(trap{"readonly", "store to constant " + o.name})
	}
	for i := uint64(0); i < l.size; i++ {
		o.data[off+i] = byte(v.b >> (8 * i))
		o.def[off+i] = !v.u
	}
}

func undefOf(t types.Type) val {
	switch t := t.(type) {
	case *types.StructType:
		v := val{agg: make([]val, len(t.Fields))}
		for i, f := range t.Fields {
			v.agg[i] = undefOf(f)
		}
		return v
	case *types.ArrayType:
		v := val{agg: make([]val, t.Len)}
		for i := range v.agg {
			v.agg[i] = undefOf(t.ElemType)
		}
		return v
	}
	return val{u: true}
}

func zeroOf(t types.Type) val {
	switch t := t.(type) {
	case *types.StructType:
		v := val{agg: make([]val, len(t.Fields))}
		for i, f := range t.Fields {
			v.agg[i] = zeroOf(f)
		}
		return v
	case *types.ArrayType:
		v := val{agg: make([]val, t.Len)}
		for i := range v.agg {
			v.agg[i] = zeroOf(t.ElemType)
		}
		return v
	}
	return val{}
}

func floatBits(t *types.FloatType, f float64) uint64 {
	if t.Kind == types.FloatKindFloat {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func bitsFloat(t *types.FloatType, b uint64) float64 {
	if t.Kind == types.FloatKindFloat {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

// constVal evaluates a constant as if printed with type t.
func (m *mach) constVal(c constant.Constant, t types.Type) val {
	switch c := c.(type) {
	case *constant.Int:
		w := uint64(64)
		if it, ok := t.(*types.IntType); ok {
			w = it.BitSize
		}
		x := new(big.Int).And(c.X, new(big.Int).SetUint64(mask(w)))
		return val{b: x.Uint64()}
	case *constant.Float:
		ft, ok := t.(*types.FloatType)
		if !ok {
			ft = c.Typ
		}
		f, _ := c.X.Float64()
		if c.NaN {
			f = math.NaN()
		}
		return val{b: floatBits(ft, f)}
	case *constant.Null:
		return val{}
	case *constant.Undef:
		return undefOf(t)
	case *constant.Poison:
		return undefOf(t)
	case *constant.ZeroInitializer:
		return zeroOf(t)
	case *constant.CharArray:
		v := val{agg: make([]val, len(c.X))}
		for i, b := range c.X {
			v.agg[i] = val{b: uint64(b)}
		}
		return v
	case *constant.Array:
		v := val{agg: make([]val, len(c.Elems))}
		for i, e := range c.Elems {
			v.agg[i] = m.constVal(e, c.Typ.ElemType)
		}
		return v
	case *constant.Struct:
		v := val{agg: make([]val, len(c.Fields))}
		for i, e := range c.Fields {
			v.agg[i] = m.constVal(e, e.Type())
		}
		return v
	case *ir.Global:
		return val{b: m.globals[c]}
	case *ir.Func:
		return val{b: m.fnAddress(c)}
	}
	return m.constExpr(c)
}

func (m *mach) constExpr(c constant.Constant) val {
	bin := func(op string, x, y constant.Constant) val {
		t := x.Type()
		return m.binop(op, t, m.constVal(x, t), m.constVal(y, t))
	}
	cast := func(op string, x constant.Constant, to types.Type) val {
		return castOp(op, x.Type(), to, m.constVal(x, x.Type()))
	}
	switch c := c.(type) {
	case *constant.ExprAdd:
		return bin("add", c.X, c.Y)
	case *constant.ExprSub:
		return bin("sub", c.X, c.Y)
	case *constant.ExprMul:
		return bin("mul", c.X, c.Y)
	case *constant.ExprUDiv:
		return bin("udiv", c.X, c.Y)
	case *constant.ExprSDiv:
		return bin("sdiv", c.X, c.Y)
	case *constant.ExprURem:
		return bin("urem", c.X, c.Y)
	case *constant.ExprSRem:
		return bin("srem", c.X, c.Y)
	case *constant.ExprFAdd:
		return bin("fadd", c.X, c.Y)
	case *constant.ExprFSub:
		return bin("fsub", c.X, c.Y)
	case *constant.ExprFMul:
		return bin("fmul", c.X, c.Y)
	case *constant.ExprFDiv:
		return bin("fdiv", c.X, c.Y)
	case *constant.ExprFRem:
		return bin("frem", c.X, c.Y)
	case *constant.ExprShl:
		return bin("shl", c.X, c.Y)
	case *constant.ExprLShr:
		return bin("lshr", c.X, c.Y)
	case *constant.ExprAShr:
		return bin("ashr", c.X, c.Y)
	case *constant.ExprAnd:
		return bin("and", c.X, c.Y)
	case *constant.ExprOr:
		return bin("or", c.X, c.Y)
	case *constant.ExprXor:
		return bin("xor", c.X, c.Y)
	case *constant.ExprTrunc:
		return cast("trunc", c.From, c.To)
	case *constant.ExprZExt:
		return cast("zext", c.From, c.To)
	case *constant.ExprSExt:
		return cast("sext", c.From, c.To)
	case *constant.ExprFPTrunc:
		return cast("fptrunc", c.From, c.To)
	case *constant.ExprFPExt:
		return cast("fpext", c.From, c.To)
	case *constant.ExprFPToUI:
		return cast("fptoui", c.From, c.To)
	case *constant.ExprFPToSI:
		return cast("fptosi", c.From, c.To)
	case *constant.ExprUIToFP:
		return cast("uitofp", c.From, c.To)
	case *constant.ExprSIToFP:
		return cast("sitofp", c.From, c.To)
	case *constant.ExprPtrToInt:
		return cast("ptrtoint", c.From, c.To)
	case *constant.ExprIntToPtr:
		return cast("inttoptr", c.From, c.To)
	case *constant.ExprBitCast:
		return cast("bitcast", c.From, c.To)
	case *constant.ExprICmp:
		return m.icmp(c.Pred, c.X.Type(), m.constVal(c.X, c.X.Type()), m.constVal(c.Y, c.X.Type()))
	case *constant.ExprFCmp:
		return m.fcmp(c.Pred, c.X.Type(), m.constVal(c.X, c.X.Type()), m.constVal(c.Y, c.X.Type()))
	case *constant.ExprSelect:
		v := m.constVal(c.Cond, c.Cond.Type())
		if v.b&1 == 1 {
			return m.constVal(c.X, c.X.Type())
		}
		return m.constVal(c.Y, c.Y.Type())
	case *constant.ExprFNeg:
		return m.fneg(c.X.Type(), m.constVal(c.X, c.X.Type()))
	case *constant.ExprGetElementPtr:
		base := m.constVal(c.Src, c.Src.Type())
		idx := make([]val, len(c.Indices))
		its := make([]types.Type, len(c.Indices))
		cidx := make([]int64, len(c.Indices))
		for i, x := range c.Indices {
			if ix, ok := x.(*constant.Index); ok {
				x = ix.Constant
			}
			its[i] = x.Type()
			idx[i] = m.constVal(x, x.Type())
			cidx[i] = sext(idx[i].b, intBits(its[i]))
		}
		return m.gep(c.ElemType, base, idx, its)
	}
	panic(unsupported{fmt.Sprintf("constant %T", c)})
}

func intBits(t types.Type) uint64 {
	switch t := t.(type) {
	case *types.IntType:
		return t.BitSize
	case *types.PointerType:
		return 64
	}
	return 64
}

func (m *mach) fneg(t types.Type, x val) val {
	if x.u {
		return val{u: true}
	}
	ft := t.(*types.FloatType)
	return val{b: floatBits(ft, -bitsFloat(ft, x.b))}
}

func (m *mach) binop(op string, t types.Type, x, y val) val {
	if ft, ok := t.(*types.FloatType); ok {
		if x.u || y.u {
			return val{u: true}
		}
		a, b := bitsFloat(ft, x.b), bitsFloat(ft, y.b)
		if ft.Kind == types.FloatKindFloat {
			a32, b32 := float32(a), float32(b)
			switch op {
			case "fadd":
				return val{b: floatBits(ft, float64(a32+b32))}
			case "fsub":
				return val{b: floatBits(ft, float64(a32-b32))}
			case "fmul":
				return val{b: floatBits(ft, float64(a32*b32))}
			case "fdiv":
				return val{b: floatBits(ft, float64(a32/b32))}
			}
		}
		switch op {
		case "fadd":
			return val{b: floatBits(ft, a+b)}
		case "fsub":
			return val{b: floatBits(ft, a-b)}
		case "fmul":
			return val{b: floatBits(ft, a*b)}
		case "fdiv":
			return val{b: floatBits(ft, a/b)}
		case "frem":
			return val{b: floatBits(ft, math.Mod(a, b))}
		}
		panic(unsupported{"float op " + op})
	}
	if _, ok := t.(*types.IntType); !ok {
		panic(unsupported{"binary op on " + t.String()})
	}
	w := intBits(t)
	mk := mask(w)
	switch op {
	case "udiv", "sdiv", "urem", "srem":
		if y.u {
			panic(trap{"undef", "division by an undefined value"})
		}
		if y.b&mk == 0 {
			panic(trap{"div0", "integer division by zero"})
		}
		if x.u {
			return val{u: true}
		}
	default:
		if x.u || y.u {
			return val{u: true}
		}
	}
	a, b := x.b&mk, y.b&mk
	switch op {
	case "add":
		return val{b: (a + b) & mk}
	case "sub":
		return val{b: (a - b) & mk}
	case "mul":
		return val{b: (a * b) & mk}
	case "udiv":
		return val{b: a / b}
	case "urem":
		return val{b: a % b}
	case "sdiv", "srem":
		sa, sb := sext(a, w), sext(b, w)
		if sb == -1 && sa == sext(1<<(w-1), w) {
			panic(trap{"div-overflow", "signed division overflow"})
		}
		if op == "sdiv" {
			return val{b: uint64(sa/sb) & mk}
		}
		return val{b: uint64(sa%sb) & mk}
	case "and":
		return val{b: a & b}
	case "or":
		return val{b: a | b}
	case "xor":
		return val{b: a ^ b}
	case "shl", "lshr", "ashr":
		if b >= w {
			return val{u: true}
		}
		switch op {
		case "shl":
			return val{b: (a << b) & mk}
		case "lshr":
			return val{b: a >> b}
		}
		return val{b: uint64(sext(a, w)>>b) & mk}
	}
	panic(unsupported{"int op " + op})
}

func castOp(op string, from, to types.Type, x val) val {
	if x.u {
		return val{u: true}
	}
	switch op {
	case "trunc", "zext":
		return val{b: x.b & mask(intBits(from)) & mask(intBits(to))}
	case "sext":
		return val{b: uint64(sext(x.b, intBits(from))) & mask(intBits(to))}
	case "fptrunc", "fpext":
		return val{b: floatBits(to.(*types.FloatType), bitsFloat(from.(*types.FloatType), x.b))}
	case "fptoui":
		f := math.Trunc(bitsFloat(from.(*types.FloatType), x.b))
		w := intBits(to)
		if !(f > -1 && f < math.Pow(2, float64(w))) {
			return val{u: true}
		}
		return val{b: uint64(f)}
	case "fptosi":
		f := math.Trunc(bitsFloat(from.(*types.FloatType), x.b))
		w := intBits(to)
		if !(f >= -math.Pow(2, float64(w-1)) && f < math.Pow(2, float64(w-1))) {
			return val{u: true}
		}
		return val{b: uint64(int64(f)) & mask(w)}
	case "uitofp":
		ft := to.(*types.FloatType)
		u := x.b & mask(intBits(from))
		if ft.Kind == types.FloatKindFloat {
			return val{b: uint64(math.Float32bits(float32(u)))}
		}
		return val{b: floatBits(ft, float64(u))}
	case "sitofp":
		ft := to.(*types.FloatType)
		s := sext(x.b, intBits(from))
		if ft.Kind == types.FloatKindFloat {
			return val{b: uint64(math.Float32bits(float32(s)))}
		}
		return val{b: floatBits(ft, float64(s))}
	case "ptrtoint":
		return val{b: x.b & mask(intBits(to))}
	case "inttoptr":
		return val{b: x.b & mask(intBits(from))}
	case "bitcast":
		return x
	}
	panic(unsupported{"cast " + op})
}

func (m *mach) icmp(p enum.IPred, t types.Type, x, y val) val {
	if x.u || y.u {
		return val{u: true}
	}
	w := intBits(t)
	a, b := x.b&mask(w), y.b&mask(w)
	sa, sb := sext(a, w), sext(b, w)
	var r bool
	switch p {
	case enum.IPredEQ:
		r = a == b
	case enum.IPredNE:
		r = a != b
	case enum.IPredSGE:
		r = sa >= sb
	case enum.IPredSGT:
		r = sa > sb
	case enum.IPredSLE:
		r = sa <= sb
	case enum.IPredSLT:
		r = sa < sb
	case enum.IPredUGE:
		r = a >= b
	case enum.IPredUGT:
		r = a > b
	case enum.IPredULE:
		r = a <= b
	case enum.IPredULT:
		r = a < b
	default:
		panic(unsupported{"icmp"})
	}
	if r {
		return val{b: 1}
	}
	return val{}
}

func (m *mach) fcmp(p enum.FPred, t types.Type, x, y val) val {
	if x.u || y.u {
		return val{u: true}
	}
	ft := t.(*types.FloatType)
	a, b := bitsFloat(ft, x.b), bitsFloat(ft, y.b)
	uno := math.IsNaN(a) || math.IsNaN(b)
	var r bool
	switch p {
	case enum.FPredFalse:
	case enum.FPredTrue:
		r = true
	case enum.FPredOEQ:
		r = !uno && a == b
	case enum.FPredOGE:
		r = !uno && a >= b
	case enum.FPredOGT:
		r = !uno && a > b
	case enum.FPredOLE:
		r = !uno && a <= b
	case enum.FPredOLT:
		r = !uno && a < b
	case enum.FPredONE:
		r = !uno && a != b
	case enum.FPredORD:
		r = !uno
	case enum.FPredUEQ:
		r = uno || a == b
	case enum.FPredUGE:
		r = uno || a >= b
	case enum.FPredUGT:
		r = uno || a > b
	case enum.FPredULE:
		r = uno || a <= b
	case enum.FPredULT:
		r = uno || a < b
	case enum.FPredUNE:
		r = uno || a != b
	case enum.FPredUNO:
		r = uno
	default:
		panic(unsupported{"fcmp"})
	}
	if r {
		return val{b: 1}
	}
	return val{}
}

func (m *mach) gep(elem types.Type, base val, idx []val, its []types.Type) val {
	if base.u {
		return val{u: true}
	}
	for _, x := range idx {
		if x.u {
			return val{u: true}
		}
	}
	addr := base.b
	t := elem
	for i, x := range idx {
		k := sext(x.b, intBits(its[i]))
		if i == 0 {
			addr += uint64(k) * m.lay(t).size
			continue
		}
		switch tt := t.(type) {
		case *types.ArrayType:
			addr += uint64(k) * m.lay(tt.ElemType).size
			t = tt.ElemType
		case *types.StructType:
			addr += m.lay(tt).offs[k]
			t = tt.Fields[k]
		default:
			panic(unsupported{"gep through " + t.String()})
		}
	}
	return val{b: addr}
}

func (m *mach) fnAddress(f *ir.Func) uint64 {
	if a, ok := m.fnAddr[f]; ok {
		return a
	}
	// A call refers to functions by name in the text.
	o := m.newObj(1, "@"+f.Name())
	o.fn = f
	m.fnAddr[f] = o.base
	return o.base
}

// ---------------------------------------------------------------- decoding

type opnd struct {
	slot int // >=0: local slot
	v    val
	t    types.Type
}

type dinst struct {
	in   ir.Instruction
	dst  int
	ops  []opnd
	kind int
	name string
	t    types.Type
	t2   types.Type
	its  []types.Type
}

type dblock struct {
	insts []dinst
	term  ir.Terminator
	top   []opnd
	succs []int
	// phi handling
	phis []*ir.InstPhi
	src  *ir.Block
}

type dfn struct {
	f      *ir.Func
	nslots int
	blocks []dblock
	params []int
	slots  map[value.Value]int
	bidx   map[value.Value]int
	slotsN int // instructions that take a slot of the stack
}

const (
	kBin = iota
	kCast
	kICmp
	kFCmp
	kAlloca
	kLoad
	kStore
	kGep
	kCall
	kSelect
	kPhi
	kExtract
	kInsert
	kFNeg
	kFreeze
)

func (m *mach) decode(f *ir.Func) *dfn {
	if d, ok := m.fns[f]; ok {
		return d
	}
	d := &dfn{f: f, slots: map[value.Value]int{}, bidx: map[value.Value]int{}}
	slot := func(v value.Value) int {
		s := d.nslots
		d.nslots++
		d.slots[v] = s
		return s
	}
	for _, p := range f.Params {
		d.params = append(d.params, slot(p))
	}
	for i, b := range f.Blocks {
		d.bidx[b] = i
		for _, in := range b.Insts {
			if v, ok := in.(value.Value); ok {
				slot(v)
			}
		}
	}
	op := func(v value.Value, as types.Type) opnd {
		if s, ok := d.slots[v]; ok {
			return opnd{slot: s, t: as}
		}
		if c, ok := v.(constant.Constant); ok {
			return opnd{slot: -1, v: m.constVal(c, as), t: as}
		}
		if a, ok := v.(*ir.Arg); ok {
			if s, ok := d.slots[a.Value]; ok {
				return opnd{slot: s, t: as}
			}
			if c, ok := a.Value.(constant.Constant); ok {
				return opnd{slot: -1, v: m.constVal(c, as), t: as}
			}
		}
		panic(unsupported{fmt.Sprintf("operand %T (%s) not defined in function %s", v, v.Ident(), f.Name())})
	}
	for _, b := range f.Blocks {
		db := dblock{src: b, term: b.Term}
		for _, in := range b.Insts {
			di := dinst{in: in, dst: -1}
			if v, ok := in.(value.Value); ok {
				di.dst = d.slots[v]
			}
			bin := func(name string, x, y value.Value) {
				di.kind, di.name, di.t = kBin, name, x.Type()
				di.ops = []opnd{op(x, x.Type()), op(y, x.Type())}
			}
			cast := func(name string, from value.Value, to types.Type) {
				di.kind, di.name, di.t, di.t2 = kCast, name, from.Type(), to
				di.ops = []opnd{op(from, from.Type())}
			}
			switch in := in.(type) {
			case *ir.InstAdd:
				bin("add", in.X, in.Y)
			case *ir.InstSub:
				bin("sub", in.X, in.Y)
			case *ir.InstMul:
				bin("mul", in.X, in.Y)
			case *ir.InstUDiv:
				bin("udiv", in.X, in.Y)
			case *ir.InstSDiv:
				bin("sdiv", in.X, in.Y)
			case *ir.InstURem:
				bin("urem", in.X, in.Y)
			case *ir.InstSRem:
				bin("srem", in.X, in.Y)
			case *ir.InstFAdd:
				bin("fadd", in.X, in.Y)
			case *ir.InstFSub:
				bin("fsub", in.X, in.Y)
			case *ir.InstFMul:
				bin("fmul", in.X, in.Y)
			case *ir.InstFDiv:
				bin("fdiv", in.X, in.Y)
			case *ir.InstFRem:
				bin("frem", in.X, in.Y)
			case *ir.InstShl:
				bin("shl", in.X, in.Y)
			case *ir.InstLShr:
				bin("lshr", in.X, in.Y)
			case *ir.InstAShr:
				bin("ashr", in.X, in.Y)
			case *ir.InstAnd:
				bin("and", in.X, in.Y)
			case *ir.InstOr:
				bin("or", in.X, in.Y)
			case *ir.InstXor:
				bin("xor", in.X, in.Y)
			case *ir.InstTrunc:
				cast("trunc", in.From, in.To)
			case *ir.InstZExt:
				cast("zext", in.From, in.To)
			case *ir.InstSExt:
				cast("sext", in.From, in.To)
			case *ir.InstFPTrunc:
				cast("fptrunc", in.From, in.To)
			case *ir.InstFPExt:
				cast("fpext", in.From, in.To)
			case *ir.InstFPToUI:
				cast("fptoui", in.From, in.To)
			case *ir.InstFPToSI:
				cast("fptosi", in.From, in.To)
			case *ir.InstUIToFP:
				cast("uitofp", in.From, in.To)
			case *ir.InstSIToFP:
				cast("sitofp", in.From, in.To)
			case *ir.InstPtrToInt:
				cast("ptrtoint", in.From, in.To)
			case *ir.InstIntToPtr:
				cast("inttoptr", in.From, in.To)
			case *ir.InstBitCast:
				cast("bitcast", in.From, in.To)
			case *ir.InstFNeg:
				di.kind, di.t = kFNeg, in.X.Type()
				di.ops = []opnd{op(in.X, in.X.Type())}
			case *ir.InstICmp:
				di.kind, di.t = kICmp, in.X.Type()
				di.ops = []opnd{op(in.X, in.X.Type()), op(in.Y, in.X.Type())}
			case *ir.InstFCmp:
				di.kind, di.t = kFCmp, in.X.Type()
				di.ops = []opnd{op(in.X, in.X.Type()), op(in.Y, in.X.Type())}
			case *ir.InstAlloca:
				di.kind, di.t = kAlloca, in.ElemType
				d.slotsN++
				if in.NElems != nil {
					di.ops = []opnd{op(in.NElems, in.NElems.Type())}
				}
			case *ir.InstLoad:
				di.kind, di.t = kLoad, in.ElemType
				di.ops = []opnd{op(in.Src, in.Src.Type())}
			case *ir.InstStore:
				di.kind, di.t = kStore, in.Src.Type()
				di.ops = []opnd{op(in.Src, in.Src.Type()), op(in.Dst, in.Dst.Type())}
			case *ir.InstGetElementPtr:
				di.kind, di.t = kGep, in.ElemType
				di.ops = []opnd{op(in.Src, in.Src.Type())}
				for _, x := range in.Indices {
					if cc, ok := x.(*constant.Index); ok {
						x = cc.Constant
					}
					di.ops = append(di.ops, op(x, x.Type()))
					di.its = append(di.its, x.Type())
				}
			case *ir.InstCall:
				di.kind = kCall
				di.t = in.Type()
				if _, ok := in.Callee.(*ir.InlineAsm); ok {
					panic(unsupported{"inline asm"})
				}
				di.ops = []opnd{op(in.Callee, in.Callee.Type())}
				for _, a := range in.Args {
					di.ops = append(di.ops, op(a, a.Type()))
				}
			case *ir.InstSelect:
				di.kind, di.t = kSelect, in.ValueTrue.Type()
				di.ops = []opnd{op(in.Cond, in.Cond.Type()), op(in.ValueTrue, in.ValueTrue.Type()), op(in.ValueFalse, in.ValueFalse.Type())}
			case *ir.InstPhi:
				di.kind, di.t = kPhi, in.Type()
				for _, inc := range in.Incs {
					di.ops = append(di.ops, op(inc.X, in.Type()))
				}
			case *ir.InstExtractValue:
				di.kind = kExtract
				di.ops = []opnd{op(in.X, in.X.Type())}
			case *ir.InstInsertValue:
				di.kind = kInsert
				di.ops = []opnd{op(in.X, in.X.Type()), op(in.Elem, in.Elem.Type())}
			case *ir.InstFreeze:
				di.kind, di.t = kFreeze, in.X.Type()
				di.ops = []opnd{op(in.X, in.X.Type())}
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", in)})
			}
			db.insts = append(db.insts, di)
		}
		switch t := b.Term.(type) {
		case *ir.TermRet:
			if t.X != nil {
				db.top = []opnd{op(t.X, t.X.Type())}
			}
		case *ir.TermBr:
			db.succs = []int{d.bidx[t.Target]}
		case *ir.TermCondBr:
			db.top = []opnd{op(t.Cond, t.Cond.Type())}
			db.succs = []int{d.bidx[t.TargetTrue], d.bidx[t.TargetFalse]}
		case *ir.TermSwitch:
			db.top = []opnd{op(t.X, t.X.Type())}
			db.succs = []int{d.bidx[t.TargetDefault]}
			for _, c := range t.Cases {
				db.top = append(db.top, op(c.X, t.X.Type()))
				db.succs = append(db.succs, d.bidx[c.Target])
			}
		case *ir.TermUnreachable, nil:
		default:
			panic(unsupported{fmt.Sprintf("terminator %T", t)})
		}
		d.blocks = append(d.blocks, db)
	}
	m.fns[f] = d
	return d
}

// ---------------------------------------------------------------- running

type exitPanic struct{ code int }

func (m *mach) call(f *ir.Func, args []val) val {
	if len(f.Blocks) == 0 {
		if g, ok := m.byName[f.Name()]; ok && len(g.Blocks) > 0 {
			f = g
		} else {
			return m.external(f, args)
		}
	}
	d := m.decode(f)
	m.depth++
	if m.depth > 2000 {
		panic(trap{"stack-overflow", "recursion too deep"})
	}
	regs := make([]val, d.nslots)
	set := make([]bool, d.nslots)
	if len(args) != len(d.params) {
		panic(trap{"bad-call", fmt.Sprintf("call of %s with %d arguments, expected %d", f.Name(), len(args), len(d.params))})
	}
	for i, p := range d.params {
		regs[p] = args[i]
		set[p] = true
	}
	var frame []*object
	get := func(o opnd) val {
		if o.slot < 0 {
			return o.v
		}
		if !set[o.slot] {
			panic(trap{"invalid-ir", "use of a value before its definition in " + f.Name()})
		}
		return regs[o.slot]
	}
	bi, prev := 0, -1
	for {
		b := &d.blocks[bi]
		var phiVals []val
		// phis first
		for i := range b.insts {
			in := &b.insts[i]
			if in.kind != kPhi {
				break
			}
			ph := in.in.(*ir.InstPhi)
			found := false
			for j, inc := range ph.Incs {
				if prev >= 0 && d.bidx[inc.Pred] == prev {
					phiVals = append(phiVals, get(in.ops[j]))
					found = true
					break
				}
			}
			if !found {
				panic(trap{"invalid-ir", "phi without an incoming value"})
			}
		}
		for i, v := range phiVals {
			regs[b.insts[i].dst] = v
			set[b.insts[i].dst] = true
		}
		for i := len(phiVals); i < len(b.insts); i++ {
			in := &b.insts[i]
			m.steps++
			if m.steps > m.limit {
				panic(trap{"step-limit", "execution exceeded the step limit"})
			}
			var r val
			switch in.kind {
			case kBin:
				r = m.binop(in.name, in.t, get(in.ops[0]), get(in.ops[1]))
			case kCast:
				r = castOp(in.name, in.t, in.t2, get(in.ops[0]))
			case kICmp:
				r = m.icmp(in.in.(*ir.InstICmp).Pred, in.t, get(in.ops[0]), get(in.ops[1]))
			case kFCmp:
				r = m.fcmp(in.in.(*ir.InstFCmp).Pred, in.t, get(in.ops[0]), get(in.ops[1]))
			case kFNeg:
				r = m.fneg(in.t, get(in.ops[0]))
			case kFreeze:
				r = get(in.ops[0])
				r.u = false
			case kAlloca:
				n := uint64(1)
				if len(in.ops) > 0 {
					n = get(in.ops[0]).b
				}
				o := m.newObj(m.lay(in.t).size*n, "stack slot of "+f.Name())
				o.stack = true
				frame = append(frame, o)
				if len(frame) > d.slotsN {
					m.again = true
				}
				r = val{b: o.base}
			case kLoad:
				p := get(in.ops[0])
				if p.u {
					panic(trap{"undef", "load through an undefined pointer"})
				}
				r = m.load(in.t, p.b)
			case kStore:
				p := get(in.ops[1])
				if p.u {
					panic(trap{"undef", "store through an undefined pointer"})
				}
				m.store(in.t, p.b, get(in.ops[0]))
			case kGep:
				idx := make([]val, len(in.ops)-1)
				for j := range idx {
					idx[j] = get(in.ops[j+1])
				}
				r = m.gep(in.t, get(in.ops[0]), idx, in.its)
			case kSelect:
				c := get(in.ops[0])
				if c.u {
					r = val{u: true}
				} else if c.b&1 == 1 {
					r = get(in.ops[1])
				} else {
					r = get(in.ops[2])
				}
			case kExtract:
				r = get(in.ops[0])
				for _, k := range in.in.(*ir.InstExtractValue).Indices {
					if r.agg == nil {
						r = val{u: true}
						break
					}
					r = r.agg[k]
				}
			case kInsert:
				r = insertAt(get(in.ops[0]), get(in.ops[1]), in.in.(*ir.InstInsertValue).Indices)
			case kCall:
				cv := get(in.ops[0])
				if cv.u {
					panic(trap{"undef", "call through an undefined function pointer"})
				}
				args := make([]val, len(in.ops)-1)
				for j := range args {
					args[j] = get(in.ops[j+1])
				}
				idx := cv.b >> slotShift
				if idx == 0 || idx > uint64(len(m.objs)) || m.objs[idx-1].fn == nil || m.objs[idx-1].base != cv.b {
					panic(trap{"bad-call", "call through a pointer that is not a function"})
				}
				callee := m.objs[idx-1].fn
				if len(callee.Blocks) == 0 {
					r = m.externalCall(callee, args, in.in.(*ir.InstCall))
				} else {
					r = m.call(callee, args)
				}
			default:
				panic(unsupported{fmt.Sprintf("%T", in.in)})
			}
			if in.dst >= 0 {
				regs[in.dst] = r
				set[in.dst] = true
			}
		}
		m.steps++
		if m.steps > m.limit {
			panic(trap{"step-limit", "execution exceeded the step limit"})
		}
		prev = bi
		switch t := b.term.(type) {
		case *ir.TermRet:
			var r val
			if t.X != nil {
				r = get(b.top[0])
			}
			for _, o := range frame {
				o.dead = true
				o.data, o.def = nil, nil
			}
			m.depth--
			return r
		case *ir.TermBr:
			bi = b.succs[0]
		case *ir.TermCondBr:
			c := get(b.top[0])
			if c.u {
				panic(trap{"undef", "branch on an undefined value in " + f.Name()})
			}
			if c.b&1 == 1 {
				bi = b.succs[0]
			} else {
				bi = b.succs[1]
			}
		case *ir.TermSwitch:
			c := get(b.top[0])
			if c.u {
				panic(trap{"undef", "switch on an undefined value in " + f.Name()})
			}
			bi = b.succs[0]
			w := mask(intBits(b.top[0].t))
			for i := 1; i < len(b.top); i++ {
				if b.top[i].v.b&w == c.b&w {
					bi = b.succs[i]
					break
				}
			}
		case *ir.TermUnreachable:
			panic(trap{"unreachable", "control reached an unreachable instruction in " + f.Name()})
		default:
			panic(trap{"invalid-ir", "control reached a block without a terminator in " + f.Name()})
		}
	}
}

func insertAt(x, e val, idx []uint64) val {
	if len(idx) == 0 {
		return e
	}
	n := make([]val, len(x.agg))
	copy(n, x.agg)
	n[idx[0]] = insertAt(n[idx[0]], e, idx[1:])
	return val{agg: n}
}

func (m *mach) cstr(addr uint64) []byte {
	var out []byte
	for {
		o, off := m.at(addr, 1, "string read")
		for off < uint64(len(o.data)) {
			if !o.def[off] {
				panic(trap{"undef", "read of an uninitialised byte of a string"})
			}
			if o.data[off] == 0 {
				return out
			}
			out = append(out, o.data[off])
			off++
			addr++
		}
	}
}

func (m *mach) copyBytes(dst, src, n uint64) {
	if n == 0 {
		return
	}
	so, sf := m.at(src, n, "memory copy source")
	do, df := m.at(dst, n, "memory copy destination")
	copy(do.data[df:df+n], so.data[sf:sf+n])
	copy(do.def[df:df+n], so.def[sf:sf+n])
}

func (m *mach) external(f *ir.Func, args []val) val { return m.externalCall(f, args, nil) }

func (m *mach) externalCall(f *ir.Func, args []val, call *ir.InstCall) val {
	name := f.Name()
	if g, ok := m.byName[name]; ok && len(g.Blocks) > 0 {
		return m.call(g, args)
	}
	need := func(n int) {
		if len(args) < n {
			panic(trap{"bad-call", "too few arguments for " + name})
		}
	}
	for i, a := range args {
		if a.u && (i == 0 || !strings.HasSuffix(name, "printf")) {
			panic(trap{"undef", fmt.Sprintf("undefined argument %d passed to %s", i, name)})
		}
	}
	if strings.HasPrefix(name, "llvm.memcpy") || strings.HasPrefix(name, "llvm.memmove") {
		need(3)
		m.copyBytes(args[0].b, args[1].b, args[2].b)
		return val{}
	}
	if strings.HasPrefix(name, "llvm.memset") {
		need(3)
		m.memset(args[0].b, byte(args[1].b), args[2].b)
		return val{}
	}
	if strings.HasPrefix(name, "llvm.lifetime") || strings.HasPrefix(name, "llvm.dbg") {
		return val{}
	}
	switch name {
	case "malloc":
		need(1)
		m.heapN++
		o := m.newObj(args[0].b, fmt.Sprintf("heap block %d", m.heapN))
		o.heap = true
		return val{b: o.base}
	case "calloc":
		need(2)
		m.heapN++
		o := m.newObj(args[0].b*args[1].b, fmt.Sprintf("heap block %d", m.heapN))
		o.heap = true
		for i := range o.def {
			o.def[i] = true
		}
		return val{b: o.base}
	case "free":
		need(1)
		if args[0].b == 0 {
			return val{}
		}
		o, off := m.at(args[0].b, 0, "free")
		if off != 0 || !o.heap {
			panic(trap{"bad-free", "free of a pointer that was not allocated"})
		}
		o.dead = true
		return val{}
	case "realloc":
		need(2)
		m.heapN++
		if args[0].b == 0 {
			o := m.newObj(args[1].b, fmt.Sprintf("heap block %d", m.heapN))
			o.heap = true
			return val{b: o.base}
		}
		old, off := m.at(args[0].b, 0, "realloc")
		if off != 0 || !old.heap {
			panic(trap{"bad-free", "realloc of a pointer that was not allocated"})
		}
		o := m.newObj(args[1].b, fmt.Sprintf("heap block %d", m.heapN))
		o.heap = true
		copy(o.data, old.data)
		copy(o.def, old.def)
		old.dead = true
		return val{b: o.base}
	case "memcpy", "memmove":
		need(3)
		m.copyBytes(args[0].b, args[1].b, args[2].b)
		return args[0]
	case "memset":
		need(3)
		m.memset(args[0].b, byte(args[1].b), args[2].b)
		return args[0]
	case "strlen":
		need(1)
		return val{b: uint64(len(m.cstr(args[0].b)))}
	case "strcmp":
		need(2)
		a, b := m.cstr(args[0].b), m.cstr(args[1].b)
		return val{b: uint64(uint32(int32(strings.Compare(string(a), string(b)))))}
	case "memcmp":
		need(3)
		n := args[2].b
		if n == 0 {
			return val{}
		}
		ao, af := m.at(args[0].b, n, "memcmp")
		bo, bf := m.at(args[1].b, n, "memcmp")
		return val{b: uint64(uint32(int32(strings.Compare(string(ao.data[af:af+n]), string(bo.data[bf:bf+n])))))}
	case "strcpy", "strcat":
		need(2)
		s := m.cstr(args[1].b)
		d := args[0].b
		if name == "strcat" {
			d += uint64(len(m.cstr(d)))
		}
		o, off := m.at(d, uint64(len(s)+1), name)
		copy(o.data[off:], s)
		o.data[off+uint64(len(s))] = 0
		for i := 0; i <= len(s); i++ {
			o.def[off+uint64(i)] = true
		}
		return args[0]
	case "putchar":
		need(1)
		m.out.WriteByte(byte(args[0].b))
		return val{b: args[0].b & 0xff}
	case "puts":
		need(1)
		m.out.Write(m.cstr(args[0].b))
		m.out.WriteByte('\n')
		return val{b: 1}
	case "exit":
		need(1)
		panic(exitPanic{int(int32(args[0].b)) & 0xff})
	case "abort":
		panic(trap{"abort", "abort called"})
	case "abs":
		need(1)
		x := int32(args[0].b)
		if x < 0 {
			x = -x
		}
		return val{b: uint64(uint32(x))}
	case "printf":
		need(1)
		var ts []types.Type
		if call != nil {
			for _, a := range call.Args {
				ts = append(ts, a.Type())
			}
		}
		n := m.printf(string(m.cstr(args[0].b)), args[1:], ts)
		return val{b: uint64(uint32(n))}
	}
	if r, ok := m.libc(name, args, call, need); ok {
		return r
	}
	panic(unsupported{"external function " + name})
}

// libcProtos are the prototypes of the functions in libc(): the result, then the parameters
// (i 32 bits, l 64 bits, p pointer, f float, d double, v nothing, . variadic).
var libcProtos = map[string]string{
	"labs": "ll", "toupper": "ii", "tolower": "ii", "atoi": "ip", "atol": "lp", "strtol": "lppi",
	"strncmp": "ippl", "strchr": "ppi", "strrchr": "ppi", "strstr": "ppp", "strnlen": "lpl", "memchr": "ppil",
	"strdup": "pp", "strncpy": "pppl", "fabs": "dd", "fabsf": "ff", "sqrt": "dd", "sqrtf": "ff", "floor": "dd", "ceil": "dd",
	"pow": "ddd", "fmod": "ddd", "fmin": "ddd", "fmax": "ddd", "fminf": "fff", "fmaxf": "fff", "ldexp": "ddi",
	"snprintf": "iplp.", "sprintf": "ipp.", "qsort": "vpllp", "bsearch": "pppllp", "atexit": "ip", "fflush": "ip",
}

func protoLetter(t types.Type) byte {
	switch t := t.(type) {
	case *types.IntType:
		switch t.BitSize {
		case 32:
			return 'i'
		case 64:
			return 'l'
		}
	case *types.PointerType:
		return 'p'
	case *types.VoidType:
		return 'v'
	case *types.FloatType:
		switch t.Kind {
		case types.FloatKindFloat:
			return 'f'
		case types.FloatKindDouble:
			return 'd'
		}
	}
	return '?'
}

// function is what a function pointer points to.
func (m *mach) function(addr uint64) *ir.Func {
	idx := addr >> slotShift
	if idx == 0 || idx > uint64(len(m.objs)) || m.objs[idx-1].fn == nil || m.objs[idx-1].base != addr {
		panic(trap{"bad-call", "call through a pointer that is not a function"})
	}
	return m.objs[idx-1].fn
}

func (m *mach) callback(addr uint64, args ...val) val {
	f := m.function(addr)
	if len(f.Blocks) == 0 {
		return m.externalCall(f, args, nil)
	}
	return m.call(f, args)
}

func (m *mach) libc(name string, args []val, call *ir.InstCall, need func(int)) (val, bool) {
	proto, known := libcProtos[name]
	if !known {
		return val{}, false
	}
	variadic := strings.HasSuffix(proto, ".")
	ps := strings.TrimSuffix(proto[1:], ".")
	need(len(ps))
	if !variadic && len(args) != len(ps) {
		panic(trap{"bad-call", "wrong number of arguments for " + name})
	}
	var ts []types.Type
	if call != nil {
		for i, a := range call.Args {
			ts = append(ts, a.Type())
			if i < len(ps) && protoLetter(a.Type()) != ps[i] {
				panic(trap{"bad-call", fmt.Sprintf("argument %d of %s is passed as %s", i, name, a.Type())})
			}
		}
		if r := protoLetter(call.Type()); proto[0] != 'v' && r != 'v' && r != proto[0] {
			panic(trap{"bad-call", fmt.Sprintf("the result of %s is read as %s", name, call.Type())})
		}
	}
	f64 := func(i int) float64 { return math.Float64frombits(args[i].b) }
	f32 := func(i int) float32 { return math.Float32frombits(uint32(args[i].b)) }
	d := func(x float64) (val, bool) { return val{b: math.Float64bits(x)}, true }
	f := func(x float32) (val, bool) { return val{b: uint64(math.Float32bits(x))}, true }
	i32 := func(x int) (val, bool) { return val{b: uint64(uint32(int32(x)))}, true }
	str := func(i int) string { return string(m.cstr(args[i].b)) }
	found := func(base int, at int) (val, bool) {
		if at < 0 {
			return val{}, true
		}
		return val{b: args[base].b + uint64(at)}, true
	}
	number := func(s string) (int64, int) {
		n := 0
		for n < len(s) && s[n] == ' ' {
			n++
		}
		st := n
		if n < len(s) && (s[n] == '-' || s[n] == '+') {
			n++
		}
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		x, _ := strconv.ParseInt(s[st:n], 10, 64)
		return x, n
	}
	switch name {
	case "labs":
		x := int64(args[0].b)
		if x < 0 {
			x = -x
		}
		return val{b: uint64(x)}, true
	case "toupper", "tolower":
		x := int32(args[0].b)
		if name == "toupper" && x >= 'a' && x <= 'z' {
			x -= 32
		} else if name == "tolower" && x >= 'A' && x <= 'Z' {
			x += 32
		}
		return i32(int(x))
	case "atoi":
		x, _ := number(str(0))
		return i32(int(x))
	case "atol":
		x, _ := number(str(0))
		return val{b: uint64(x)}, true
	case "strtol":
		if uint32(args[2].b) != 10 {
			return val{}, false
		}
		x, n := number(str(0))
		if args[1].b != 0 {
			m.store(types.I8Ptr, args[1].b, val{b: args[0].b + uint64(n)})
		}
		return val{b: uint64(x)}, true
	case "strncmp":
		a, b := str(0), str(1)
		if uint64(len(a)) > args[2].b {
			a = a[:args[2].b]
		}
		if uint64(len(b)) > args[2].b {
			b = b[:args[2].b]
		}
		return i32(strings.Compare(a, b))
	case "strchr":
		return found(0, strings.IndexByte(str(0)+"\x00", byte(args[1].b)))
	case "strrchr":
		return found(0, strings.LastIndexByte(str(0)+"\x00", byte(args[1].b)))
	case "strstr":
		return found(0, strings.Index(str(0), str(1)))
	case "strnlen":
		n := uint64(len(str(0)))
		if n > args[1].b {
			n = args[1].b
		}
		return val{b: n}, true
	case "memchr":
		o, off := m.at(args[0].b, args[2].b, name)
		return found(0, strings.IndexByte(string(o.data[off:off+args[2].b]), byte(args[1].b)))
	case "strdup":
		s := str(0) + "\x00"
		m.heapN++
		o := m.newObj(uint64(len(s)), fmt.Sprintf("heap block %d", m.heapN))
		o.heap = true
		m.bytes(o.base, s)
		return val{b: o.base}, true
	case "strncpy":
		s := str(1)
		for uint64(len(s)) < args[2].b {
			s += "\x00"
		}
		m.bytes(args[0].b, s[:args[2].b])
		return args[0], true
	case "fabs":
		return d(math.Abs(f64(0)))
	case "fabsf":
		return f(float32(math.Abs(float64(f32(0)))))
	case "sqrt":
		return d(math.Sqrt(f64(0)))
	case "sqrtf":
		return f(float32(math.Sqrt(float64(f32(0)))))
	case "floor":
		return d(math.Floor(f64(0)))
	case "ceil":
		return d(math.Ceil(f64(0)))
	case "pow":
		return d(math.Pow(f64(0), f64(1)))
	case "fmod":
		return d(math.Mod(f64(0), f64(1)))
	case "fmin":
		return d(math.Min(f64(0), f64(1)))
	case "fmax":
		return d(math.Max(f64(0), f64(1)))
	case "fminf":
		return f(float32(math.Min(float64(f32(0)), float64(f32(1)))))
	case "fmaxf":
		return f(float32(math.Max(float64(f32(0)), float64(f32(1)))))
	case "ldexp":
		return d(math.Ldexp(f64(0), int(int32(args[1].b))))
	case "snprintf", "sprintf":
		at := len(ps) - 1
		keep := m.out.Len()
		n := m.printf(str(at), args[at+1:], append([]types.Type(nil), tail(ts, at)...))
		s := string(m.out.Bytes()[keep:])
		m.out.Truncate(keep)
		if name == "snprintf" {
			if args[1].b == 0 {
				return i32(n)
			}
			if uint64(len(s)) > args[1].b-1 {
				s = s[:args[1].b-1]
			}
		}
		m.bytes(args[0].b, s+"\x00")
		return i32(n)
	case "qsort":
		n, size := args[1].b, args[2].b
		// insertion sort: the comparison decides, the elements are moved as bytes
		tmp := m.newObj(size, "element being sorted")
		for i := uint64(1); i < n; i++ {
			m.copyBytes(tmp.base, args[0].b+i*size, size)
			j := i
			for j > 0 {
				c := m.callback(args[3].b, val{b: args[0].b + (j-1)*size}, val{b: tmp.base})
				if c.u {
					panic(trap{"undef", "undefined result of a comparison"})
				}
				if int32(c.b) <= 0 {
					break
				}
				m.copyBytes(args[0].b+j*size, args[0].b+(j-1)*size, size)
				j--
			}
			m.copyBytes(args[0].b+j*size, tmp.base, size)
		}
		tmp.dead = true
		return val{}, true
	case "bsearch":
		lo, hi := uint64(0), args[2].b
		for lo < hi {
			mid := (lo + hi) / 2
			at := args[1].b + mid*args[3].b
			c := m.callback(args[4].b, args[0], val{b: at})
			switch x := int32(c.b); {
			case x == 0:
				return val{b: at}, true
			case x < 0:
				hi = mid
			default:
				lo = mid + 1
			}
		}
		return val{}, true
	case "atexit":
		m.function(args[0].b)
		m.atexit = append(m.atexit, args[0].b)
		return i32(0)
	case "fflush":
		return i32(0)
	}
	return val{}, false
}

// handlers runs what was registered with atexit, the last one first.
func (m *mach) handlers() {
	for len(m.atexit) > 0 {
		f := m.atexit[len(m.atexit)-1]
		m.atexit = m.atexit[:len(m.atexit)-1]
		m.callback(f)
	}
}

func tail(ts []types.Type, n int) []types.Type {
	if n > len(ts) {
		return nil
	}
	return ts[n:]
}

func (m *mach) bytes(d uint64, s string) {
	if s == "" {
		return
	}
	o, off := m.at(d, uint64(len(s)), "memory write")
	copy(o.data[off:], s)
	for i := range []byte(s) {
		o.def[off+uint64(i)] = true
	}
}

func (m *mach) memset(d uint64, c byte, n uint64) {
	if n == 0 {
		return
	}
	o, off := m.at(d, n, "memset")
	for i := uint64(0); i < n; i++ {
		o.data[off+i] = c
		o.def[off+i] = true
	}
}

func (m *mach) printf(f string, args []val, ts []types.Type) int {
	start := m.out.Len()
	ai := 0
	next := func() (val, types.Type) {
		if ai >= len(args) {
			panic(trap{"bad-printf", "format " + strconv.Quote(f) + " needs more arguments"})
		}
		v := args[ai]
		var t types.Type
		if ai+1 < len(ts) {
			t = ts[ai+1]
		}
		ai++
		if v.u || v.agg != nil {
			panic(trap{"undef", "print of an undefined value"})
		}
		return v, t
	}
	// how many bits of the passed argument are meaningful
	width := func(t types.Type) uint64 {
		if t == nil {
			return 64
		}
		return intBits(t)
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			m.out.WriteByte(f[i])
			continue
		}
		i++
		j := i
		for j < len(f) && !strings.ContainsRune("diuxXcspfgeG%", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			panic(unsupported{"printf format " + f})
		}
		mod, cv := f[i:j], f[j]
		i = j
		bits := uint64(32)
		flags := mod
		switch {
		case strings.HasSuffix(mod, "hh"):
			bits, flags = 8, mod[:len(mod)-2]
		case strings.HasSuffix(mod, "h"):
			bits, flags = 16, mod[:len(mod)-1]
		case strings.HasSuffix(mod, "ll"):
			bits, flags = 64, mod[:len(mod)-2]
		case strings.HasSuffix(mod, "l"), strings.HasSuffix(mod, "z"):
			bits, flags = 64, mod[:len(mod)-1]
		}
		switch cv {
		case '%':
			m.out.WriteByte('%')
		case 'd', 'i', 'u', 'x', 'X', 'c':
			v, t := next()
			if _, ok := t.(*types.FloatType); ok {
				panic(trap{"bad-printf", "integer conversion of a float argument"})
			}
			if w := width(t); w < bits {
				// upper bits are whatever the caller left there
				panic(trap{"bad-printf", fmt.Sprintf("%%%s%c reads %d bits of a %d bit argument", mod, cv, bits, w)})
			}
			x := v.b & mask(bits)
			switch cv {
			case 'd', 'i':
				fmt.Fprintf(&m.out, "%"+flags+"d", sext(x, bits))
			case 'u':
				fmt.Fprintf(&m.out, "%"+flags+"d", x)
			case 'c':
				m.out.WriteByte(byte(x))
			default:
				fmt.Fprintf(&m.out, "%"+flags+string(cv), x)
			}
		case 's':
			v, t := next()
			if t != nil {
				if _, ok := t.(*types.PointerType); !ok {
					panic(trap{"bad-printf", "%s of a non pointer"})
				}
			}
			s := string(m.cstr(v.b))
			fmt.Fprintf(&m.out, "%"+flags+"s", s)
		case 'p':
			v, _ := next()
			if v.b == 0 {
				m.out.WriteString("(nil)")
			} else {
				fmt.Fprintf(&m.out, "0x%x", v.b)
			}
		case 'f', 'g', 'e', 'G':
			v, t := next()
			ft, ok := t.(*types.FloatType)
			if t != nil && (!ok || ft.Kind != types.FloatKindDouble) {
				panic(trap{"bad-printf", "float conversion of a non double argument"})
			}
			x := math.Float64frombits(v.b)
			m.out.WriteString(cFloat(flags, cv, x))
		}
	}
	return m.out.Len() - start
}

func cFloat(flags string, cv byte, x float64) string {
	if math.IsInf(x, 1) {
		return "inf"
	}
	if math.IsInf(x, -1) {
		return "-inf"
	}
	if math.IsNaN(x) {
		if math.Signbit(x) {
			return "-nan"
		}
		return "nan"
	}
	return fmt.Sprintf("%"+flags+string(cv), x)
}

// RunModule executes main() of the module.
func RunModule(mod *ir.Module, limit int) (res RunResult) {
	m := &mach{mod: mod, globals: map[interface{}]uint64{}, fnAddr: map[*ir.Func]uint64{}, byName: map[string]*ir.Func{},
		fns: map[*ir.Func]*dfn{}, sizes: map[types.Type]layout{}, limit: limit}
	defer func() {
		res.Output = m.out.String()
		res.Steps = m.steps
		res.Grows = m.again
		for _, o := range m.objs {
			if o.heap && !o.dead {
				res.Leaked++
			}
		}
		if r := recover(); r != nil {
			switch r := r.(type) {
			case trap:
				res.Trap, res.TrapMsg = r.kind, r.msg
			case unsupported:
				res.Unsupported = r.what
			case exitPanic:
				res.Exit = r.code
			default:
				res.Unsupported = fmt.Sprintf("interpreter panic: %v", r)
			}
		}
	}()
	for _, f := range mod.Funcs {
		if g, ok := m.byName[f.Name()]; !ok || len(g.Blocks) == 0 {
			m.byName[f.Name()] = f
		}
	}
	for _, g := range mod.Globals {
		o := m.newObj(m.lay(g.ContentType).size, "global "+g.Name())
		m.globals[g] = o.base
	}
	for _, g := range mod.Globals {
		if g.Init == nil {
			panic(unsupported{"external global"})
		}
		m.store(g.ContentType, m.globals[g], m.constVal(g.Init, g.ContentType))
		if g.Immutable {
			m.objs[(m.globals[g]>>slotShift)-1].ro = true
		}
	}
	main := m.byName["main"]
	if main == nil || len(main.Blocks) == 0 {
		panic(unsupported{"no main"})
	}
	args := make([]val, len(main.Params))
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(exitPanic); ok {
				m.handlers()
			}
			panic(r)
		}
	}()
	r := m.call(main, args)
	m.handlers()
	res.Exit = int(r.b & 0xff)
	if r.u {
		res.Exit = -1
	}
	return
}
