package main

import (
	"fmt"

	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// fastVerify looks for what LLVM would refuse in a module, without a process:
// types of operands, casts, terminators, and uses that their definition does
// not dominate.  What it reports is confirmed by the real LLVM.
func fastVerify(mod *ir.Module) string {
	names := make(map[string]bool, len(mod.Funcs)+len(mod.Globals))
	for _, f := range mod.Funcs {
		if names[f.Name()] {
			return f.Name() + ": two functions of this name"
		}
		names[f.Name()] = true
	}
	for _, g := range mod.Globals {
		if names[g.Name()] {
			return g.Name() + ": two definitions of this name"
		}
		names[g.Name()] = true
	}
	for _, f := range mod.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		if w := verifyFunc(f); w != "" {
			return f.Name() + ": " + w
		}
	}
	return ""
}

func kindOf(t types.Type) string {
	switch t.(type) {
	case *types.IntType:
		return "int"
	case *types.FloatType:
		return "float"
	case *types.PointerType:
		return "ptr"
	}
	return "other"
}

func verifyFunc(f *ir.Func) string {
	idx := map[*ir.Block]int{}
	for i, b := range f.Blocks {
		idx[b] = i
		if b.Term == nil {
			return "block without a terminator"
		}
	}
	n := len(f.Blocks)
	succs := make([][]int, n)
	preds := make([][]int, n)
	for i, b := range f.Blocks {
		for _, s := range b.Term.Succs() {
			j, ok := idx[s]
			if !ok {
				return "branch to a block of another function"
			}
			if j == 0 {
				return "branch to the entry"
			}
			succs[i] = append(succs[i], j)
			preds[j] = append(preds[j], i)
		}
	}
	// dominators
	reach := make([]bool, n)
	var order []int
	var visit func(i int)
	visit = func(i int) {
		reach[i] = true
		for _, s := range succs[i] {
			if !reach[s] {
				visit(s)
			}
		}
		order = append(order, i)
	}
	visit(0)
	pos := make([]int, n)
	for i, b := range order {
		pos[b] = i
	}
	idom := make([]int, n)
	for i := range idom {
		idom[i] = -1
	}
	idom[0] = 0
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			b := order[k]
			if b == 0 {
				continue
			}
			d := -1
			for _, p := range preds[b] {
				if idom[p] < 0 {
					continue
				}
				if d < 0 {
					d = p
					continue
				}
				x, y := p, d
				for x != y {
					for pos[x] < pos[y] {
						x = idom[x]
					}
					for pos[y] < pos[x] {
						y = idom[y]
					}
				}
				d = x
			}
			if d != idom[b] {
				idom[b] = d
				changed = true
			}
		}
	}
	dominates := func(a, b int) bool {
		for {
			if a == b {
				return true
			}
			if b == 0 || idom[b] < 0 {
				return false
			}
			b = idom[b]
		}
	}
	type place struct{ b, i int }
	def := map[value.Value]place{}
	for bi, b := range f.Blocks {
		for i, in := range b.Insts {
			if v, ok := in.(value.Value); ok {
				def[v] = place{bi, i}
			}
		}
	}
	params := map[value.Value]bool{}
	for _, p := range f.Params {
		params[p] = true
	}
	use := func(v value.Value, bi, i int) string {
		if a, ok := v.(*ir.Arg); ok {
			v = a.Value
		}
		if _, ok := v.(constant.Constant); ok || params[v] {
			return ""
		}
		if _, ok := v.(*ir.Block); ok {
			return ""
		}
		if _, ok := v.(*ir.InlineAsm); ok {
			return ""
		}
		p, ok := def[v]
		if !ok {
			return "use of a value of another function: " + v.Ident()
		}
		if !reach[bi] || p.b == bi && p.i < i || p.b != bi && dominates(p.b, bi) {
			return ""
		}
		return "the definition does not dominate the use of " + v.Ident()
	}
	for bi, b := range f.Blocks {
		for i, in := range b.Insts {
			if phi, ok := in.(*ir.InstPhi); ok {
				if len(phi.Incs) != len(preds[bi]) {
					return "phi with a wrong number of predecessors"
				}
				continue
			}
			if o, ok := in.(interface{ Operands() []*value.Value }); ok {
				for _, p := range o.Operands() {
					if w := use(*p, bi, i); w != "" {
						return w
					}
				}
			}
			if w := verifyInst(in); w != "" {
				return w
			}
		}
		if o, ok := b.Term.(interface{ Operands() []*value.Value }); ok {
			for _, p := range o.Operands() {
				if w := use(*p, bi, len(b.Insts)); w != "" {
					return w
				}
			}
		}
		switch t := b.Term.(type) {
		case *ir.TermRet:
			switch {
			case t.X == nil && !types.Equal(f.Sig.RetType, types.Void):
				return "ret void in a function of type " + f.Sig.RetType.String()
			case t.X != nil && !types.Equal(t.X.Type(), f.Sig.RetType):
				return fmt.Sprintf("ret %s in a function of type %s", t.X.Type(), f.Sig.RetType)
			case t.X != nil && types.Equal(f.Sig.RetType, types.Void):
				return "ret of a void value"
			}
		case *ir.TermCondBr:
			if !types.Equal(t.Cond.Type(), types.I1) {
				return "branch on " + t.Cond.Type().String()
			}
		case *ir.TermSwitch:
			seen := map[string]bool{}
			for _, c := range t.Cases {
				if !types.Equal(c.X.Type(), t.X.Type()) {
					return "label of another type"
				}
				if seen[c.X.Ident()] {
					return "duplicate label"
				}
				seen[c.X.Ident()] = true
			}
		}
	}
	return ""
}

func verifyInst(in ir.Instruction) string {
	bin := func(x, y value.Value, kd string) string {
		if !sameOperands(x, y) || kindOf(x.Type()) != kd {
			return fmt.Sprintf("%T of %s and %s", in, x.Type(), y.Type())
		}
		return ""
	}
	cast := func(from value.Value, to types.Type, a, b string, size int) string {
		if kindOf(from.Type()) != a || kindOf(to) != b {
			return fmt.Sprintf("%T from %s to %s", in, from.Type(), to)
		}
		if size != 0 {
			x, y := bitsOf(from.Type()), bitsOf(to)
			if size < 0 && x <= y || size > 0 && x >= y {
				return fmt.Sprintf("%T from %s to %s", in, from.Type(), to)
			}
		}
		return ""
	}
	switch in := in.(type) {
	case *ir.InstAdd:
		return bin(in.X, in.Y, "int")
	case *ir.InstSub:
		return bin(in.X, in.Y, "int")
	case *ir.InstMul:
		return bin(in.X, in.Y, "int")
	case *ir.InstUDiv:
		return bin(in.X, in.Y, "int")
	case *ir.InstSDiv:
		return bin(in.X, in.Y, "int")
	case *ir.InstURem:
		return bin(in.X, in.Y, "int")
	case *ir.InstSRem:
		return bin(in.X, in.Y, "int")
	case *ir.InstAnd:
		return bin(in.X, in.Y, "int")
	case *ir.InstOr:
		return bin(in.X, in.Y, "int")
	case *ir.InstXor:
		return bin(in.X, in.Y, "int")
	case *ir.InstShl:
		return bin(in.X, in.Y, "int")
	case *ir.InstLShr:
		return bin(in.X, in.Y, "int")
	case *ir.InstAShr:
		return bin(in.X, in.Y, "int")
	case *ir.InstFAdd:
		return bin(in.X, in.Y, "float")
	case *ir.InstFSub:
		return bin(in.X, in.Y, "float")
	case *ir.InstFMul:
		return bin(in.X, in.Y, "float")
	case *ir.InstFDiv:
		return bin(in.X, in.Y, "float")
	case *ir.InstFRem:
		return bin(in.X, in.Y, "float")
	case *ir.InstICmp:
		if !sameOperands(in.X, in.Y) || kindOf(in.X.Type()) != "int" && kindOf(in.X.Type()) != "ptr" {
			return fmt.Sprintf("icmp of %s and %s", in.X.Type(), in.Y.Type())
		}
	case *ir.InstFCmp:
		return bin(in.X, in.Y, "float")
	case *ir.InstTrunc:
		return cast(in.From, in.To, "int", "int", -1)
	case *ir.InstZExt:
		return cast(in.From, in.To, "int", "int", 1)
	case *ir.InstSExt:
		return cast(in.From, in.To, "int", "int", 1)
	case *ir.InstFPTrunc:
		return cast(in.From, in.To, "float", "float", -1)
	case *ir.InstFPExt:
		return cast(in.From, in.To, "float", "float", 1)
	case *ir.InstFPToUI:
		return cast(in.From, in.To, "float", "int", 0)
	case *ir.InstFPToSI:
		return cast(in.From, in.To, "float", "int", 0)
	case *ir.InstUIToFP:
		return cast(in.From, in.To, "int", "float", 0)
	case *ir.InstSIToFP:
		return cast(in.From, in.To, "int", "float", 0)
	case *ir.InstPtrToInt:
		return cast(in.From, in.To, "ptr", "int", 0)
	case *ir.InstIntToPtr:
		return cast(in.From, in.To, "int", "ptr", 0)
	case *ir.InstBitCast:
		a, b := kindOf(in.From.Type()), kindOf(in.To)
		if a == "ptr" && b == "ptr" {
			return ""
		}
		if a == "other" || b == "other" || a == "ptr" || b == "ptr" || bitsOf(in.From.Type()) != bitsOf(in.To) {
			return fmt.Sprintf("bitcast from %s to %s", in.From.Type(), in.To)
		}
	case *ir.InstStore:
		p, ok := in.Dst.Type().(*types.PointerType)
		if !ok || !types.Equal(p.ElemType, in.Src.Type()) || types.Equal(in.Src.Type(), types.Void) {
			return fmt.Sprintf("store of %s to %s", in.Src.Type(), in.Dst.Type())
		}
	case *ir.InstLoad:
		p, ok := in.Src.Type().(*types.PointerType)
		if !ok || !types.Equal(p.ElemType, in.ElemType) {
			return "load of " + in.Src.Type().String()
		}
		if _, fn := in.ElemType.(*types.FuncType); fn || types.Equal(in.ElemType, types.Void) {
			return "load of " + in.Src.Type().String()
		}
	case *ir.InstAlloca:
		if _, fn := in.ElemType.(*types.FuncType); fn || types.Equal(in.ElemType, types.Void) {
			return "alloca of " + in.ElemType.String()
		}
	case *ir.InstGetElementPtr:
		p, ok := in.Src.Type().(*types.PointerType)
		if !ok || !types.Equal(p.ElemType, in.ElemType) {
			return "getelementptr of " + in.Src.Type().String()
		}
	case *ir.InstCall:
		p, ok := in.Callee.Type().(*types.PointerType)
		if !ok {
			return "call of " + in.Callee.Type().String()
		}
		sig, ok := p.ElemType.(*types.FuncType)
		if !ok {
			return "call of " + in.Callee.Type().String()
		}
		if len(in.Args) < len(sig.Params) || len(in.Args) > len(sig.Params) && !sig.Variadic {
			return "call with a wrong number of arguments"
		}
		for i, p := range sig.Params {
			if !types.Equal(in.Args[i].Type(), p) {
				return fmt.Sprintf("argument %s for %s", in.Args[i].Type(), p)
			}
		}
		for _, a := range in.Args {
			if types.Equal(a.Type(), types.Void) {
				return "void argument"
			}
		}
	}
	return ""
}

// sameOperands: only the type of the first operand is written in the text.
func sameOperands(x, y value.Value) bool {
	if types.Equal(x.Type(), y.Type()) {
		return true
	}
	_, c := y.(*constant.Int)
	return c && kindOf(x.Type()) == "int"
}

func bitsOf(t types.Type) int {
	switch t := t.(type) {
	case *types.IntType:
		return int(t.BitSize)
	case *types.FloatType:
		switch t.Kind {
		case types.FloatKindFloat:
			return 32
		case types.FloatKindDouble:
			return 64
		}
	}
	return 0
}
