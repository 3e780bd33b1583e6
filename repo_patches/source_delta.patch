From c6c03b1a8c77d1d9702dff0f5e4ad915bbd79c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 001/148] fix: constant binary operations compiled their left
 operand twice

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..9763fa3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -79,7 +79,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		return c.compileIdentifier(expr).(constant.Constant)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From b73381633de350916626f4b3624d97808e4689c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 002/148] fix: @alloc of a struct or union type allocated zero
 bytes

---
 internals/semantic/semantic_builtin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..b53d5cb 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,8 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
-- 
2.43.0


From 9439196e16941802c871bdc67ad6f6ed4a90ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 003/148] fix: for update statements that span several blocks
 produced an invalid module

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..86941f2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -724,7 +724,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
 	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	updateEnd := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -732,7 +732,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	updateEnd.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From bd3ff16d932619143ab1dcc6b9cce1117a0e273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 004/148] fix: @realloc sized the block by the pointer and not
 by its elements

---
 internals/compiler/compiler.go         | 3 ++-
 internals/semantic/semantic_builtin.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 86941f2..53e5db2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -187,7 +187,8 @@ func (c *Compiler) initializeBuiltinLib() {
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, length)
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index b53d5cb..ce97531 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -86,7 +86,7 @@ func (s *Semantic) analyzeRealloc(reallocCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
-	t := s.UnwrapAnonymous(s.analyzeExpression(reallocCall.Parameters[0]))
+	t := s.UnwrapAnonymous(s.replaceAnonymous(s.analyzeExpression(reallocCall.Parameters[0])))
 
 	if !ctypes.IsPointer(t) {
 		s.error("expected pointer type for realloc call", reallocCall.Token)
-- 
2.43.0


From 863a8f07d8e7659da43b7a176a7fb9e9828b5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 005/148] fix: unsigned integers and booleans were sign
 extended when widened

---
 internals/compiler/compiler.go             | 6 +++---
 internals/compiler/compiler_conversions.go | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 53e5db2..4c768fc 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -186,7 +186,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[1].GetType(), length)
 		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
@@ -231,7 +231,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[0].GetType(), length)
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1636,7 +1636,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, call.Parameters[0].GetType(), variable)
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..6255d7d 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -23,7 +23,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 }
 
 // handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// from is the candice type of the variable, unsigned integers are zero extended
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, from ctypes.Type, variable value.Value) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -32,7 +33,7 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	if variableType.BitSize == 1 || ctypes.IsUnsignedInteger(from) {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -45,10 +46,10 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, from ctypes.Type, variable value.Value) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, from, variable)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
-- 
2.43.0


From 16e713767b7bc86aa398463b402aaa0d900ba149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 006/148] fix: constant casts sign extended unsigned integers
 and booleans

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 9763fa3..a100d04 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -22,7 +22,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			}
 
 			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
+				if integerType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
 					// it will be extended accross all the bits, for example if you cast
 					// i1 '1' to i8, you will get 111...1110, which is -1.
-- 
2.43.0


From f7588d9a787988f8720ea8868d238efcf2e960af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 007/148] fix: true casted to a float was -1

---
 internals/compiler/compiler_constant.go    | 2 +-
 internals/compiler/compiler_conversions.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index a100d04..fd2117d 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -49,7 +49,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 	if types.IsFloat(to) {
 		to := to.(*types.FloatType)
 		if _, ok := val.Type().(*types.IntType); ok {
-			if !ctypes.IsUnsignedInteger(originalType) {
+			if !ctypes.IsUnsignedInteger(originalType) && !val.Type().Equal(types.I1) {
 				return constant.NewSIToFP(val, to)
 			}
 
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 6255d7d..1571a64 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -71,7 +71,7 @@ func (c *Compiler) handleFloatIntCast(typeParameter ctypes.Type, parameter ctype
 	if ctypes.IsFloat(parameter) {
 		return c.floatToInt(toReturn.(*types.IntType), variable, ctypes.IsUnsignedInteger(typeParameter))
 	} else if ctypes.IsFloat(typeParameter) {
-		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter))
+		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter) || variable.Type().Equal(types.I1))
 	}
 
 	c.exitInternalError("atleast one parameter need to be a float")
-- 
2.43.0


From 5491d471d87af2c0dfb6d6504e1fb751f3157cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 008/148] fix: constant float casts to unsigned integers looked
 at the wrong type

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index fd2117d..b450723 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -36,7 +36,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 		}
 
 		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
+			if ctypes.IsUnsignedInteger(expr.GetType()) {
 				return constant.NewFPToUI(val, to)
 			}
 
-- 
2.43.0


From 5a1ce0b8cb5fda6f64f01a9e9871304b795b2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 009/148] fix: the size of i1 was zero

---
 internals/ctypes/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..c1dfca3 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,11 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 type UInteger struct {
-- 
2.43.0


From dfe1c1a966a75a93b1f92186bd6a058dc1bc2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 010/148] fix: unions were not aligned for their fields

---
 internals/compiler/compiler_types.go | 9 +++++++--
 internals/ctypes/types.go            | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..a6d2548 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -114,8 +114,13 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				return union
 			}
 
-			unionType := types.NewArray(uint64(el.SizeOf()), types.I8)
-			return unionType
+			bytes := types.NewArray(uint64(el.SizeOf()), types.I8)
+			if el.Alignment() <= 1 {
+				return types.NewStruct(bytes)
+			}
+
+			// The empty array gives the storage the alignment of the union
+			return types.NewStruct(types.NewArray(0, types.NewInt(uint64(el.Alignment()*8))), bytes)
 		}
 
 	case *ctypes.Struct:
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index c1dfca3..0def715 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -318,6 +318,11 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
+	// like structs, a union occupies a multiple of its alignment
+	if alignment := u.Alignment(); alignment > 0 {
+		max += (alignment - (max % alignment)) % alignment
+	}
+
 	return max
 }
 
-- 
2.43.0


From 697fabe1bfa4ff00827e49a0c5da3bf6f7a6d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 011/148] fix: blocks with statements after a return leaked
 their scope

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..1fdcf05 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -296,7 +296,7 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.enterFrame()
 	for _, stmt := range block.Statements {
 		if s.returns {
-			return
+			break
 		}
 		s.analyzeStatement(stmt)
 	}
-- 
2.43.0


From eb776307c25418d07a1365206265aa7b9e21ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 012/148] fix: a switch without a default was considered to
 always return

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1fdcf05..fb91885 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1436,7 +1436,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From bec331941bd084a93298abdd1c472dca2cf3cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 013/148] fix: expression blocks inherited the return state of
 the enclosing block

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index fb91885..518ec00 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1329,6 +1329,7 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	}()
 
 	s.currentExpectedReturnType = t
+	s.returns = false
 	s.analyzeBlock(blockExpression.Block)
 	if !s.returns {
 		s.errorWithStatement(fmt.Sprintf("not all paths of expression block return type %q", t.String()), blockExpression.Token)
-- 
2.43.0


From c86d87adf5e1ed479b6e2b3be548a7afe96fc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 014/148] fix: the type of a negated expression was the type of
 its operand

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 518ec00..e2eec19 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1041,6 +1041,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
-- 
2.43.0


From 6d25ae24a7fc8eea31236fe18bc07f9269937417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 015/148] fix: function types with different number of
 parameters were equal

---
 internals/semantic/semantic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e2eec19..6c98169 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -696,7 +696,7 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -751,7 +751,7 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
-- 
2.43.0


From 16ef805d65062a32c3c8fbd8cbbe159c28229ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 016/148] fix: comparing lists of types with different lengths
 panicked or matched

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 6c98169..4b7dad2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -663,7 +663,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
-- 
2.43.0


From 5b3e1f121ea320c2b56cf9073380f71788912cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 017/148] fix: warnings were overwritten with the list of
 errors

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4b7dad2..88f67d4 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -136,7 +136,7 @@ func (s *Semantic) errorWithExpression(msg string, expr ast.Expression) {
 }
 
 func (s *Semantic) warning(msg string, tok token.Token) {
-	s.Warnings = append(s.Errors, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
+	s.Warnings = append(s.Warnings, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
 }
 
 func (s *Semantic) GetModule(name string) *Semantic {
-- 
2.43.0


From 0f95bca11b4b22058b54e8299a4705ee5249435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 018/148] fix: constants could not be read by an index or an
 argument on the left side of an assignment

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 88f67d4..ad35fcf 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -825,7 +825,11 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
+	// The index of an element that is being mutated is only read
+	expectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
+	s.expectNonConstantExpression = expectNonConstant
 	if !ctypes.IsNumeric(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
@@ -945,6 +949,10 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	// The arguments of a call on the left side of an assignment are only read
+	expectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
+	defer func() { s.expectNonConstantExpression = expectNonConstant }()
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
-- 
2.43.0


From 510fb2487d220573bca143f86d3acb6b2c6709ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 019/148] fix: ++ and -- accepted a constant

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ad35fcf..d08a4fd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1035,7 +1035,11 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	mutates := prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne
+	expectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = expectNonConstant || mutates
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = expectNonConstant
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
-- 
2.43.0


From 162781f9b54b80675dfadec081bea2a3425dd507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 020/148] fix: string constants were null or invalid outside of
 the first function that used them, and constants lost their constness in a
 lambda

---
 internals/compiler/compiler.go | 23 ++++++++++++-----------
 internals/semantic/semantic.go | 17 +++++++++--------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4c768fc..c72b943 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1028,14 +1028,10 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
 				global := identifier.(constant.Constant)
-				array := c.block().NewAlloca(global.Type())
-				c.block().NewStore(global, array)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				lastAlloca := c.block().NewAlloca(pointer.Type())
-				c.variables.Add(name, lastAlloca)
-				c.block().NewStore(pointer, lastAlloca)
 				c.doNotLoadIntoMemory = false
-				return lastAlloca
+				pointer := c.globalArrayPointer(name+random.RandomString(10), global)
+				c.variables.Add(name, pointer)
+				return pointer
 			}
 		}
 		return identifier
@@ -1052,11 +1048,8 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// If it is an array we must allocate it as a global and then cast it as a pointer
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
-				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				globalDefinition := c.globalArrayPointer(name, global)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
@@ -1079,6 +1072,14 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	panic("")
 }
 
+// globalArrayPointer defines a constant array and a pointer variable that is statically initialised to
+// its first element.
+func (c *Compiler) globalArrayPointer(name string, array constant.Constant) *ir.Global {
+	definition := c.m.NewGlobalDef(name+".global_alloca", array)
+	pointer := constant.NewBitCast(definition, types.NewPointer(array.Type().(*types.ArrayType).ElemType))
+	return c.m.NewGlobalDef(name+".global", pointer)
+}
+
 func (c *Compiler) retrieveLocalVariable(name string) value.Value {
 	return c.variables.Get(name)
 }
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d08a4fd..dd62f54 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1011,14 +1011,6 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
-			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
-			return identifierTypeUnwrap
-		}
-
 		if !identifierType.IsConstant && s.expectConstantExpression {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
@@ -1027,6 +1019,15 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		// constants are known at compile time, there is nothing to capture
+		if !identifierType.IsConstant && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
+			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
+				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
+			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
+			return identifierTypeUnwrap
+		}
+
 		return identifierType.Type
 	}
 
-- 
2.43.0


From 5cd4091839af93e9735ec72cfd3111aac06dc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 021/148] fix: anonymous functions did not capture the
 variables that only their inner functions use

---
 internals/semantic/semantic.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index dd62f54..2df45ab 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -29,6 +29,8 @@ type Semantic struct {
 	currentStatementBeingAnalyzed         ast.Statement
 	currentFunctionBeingAnalyzed          *ctypes.Function
 	currentAnonymousFunctionBeingAnalyzed *ast.AnonymousFunction
+	// anonymous functions being analyzed, from the outermost one to the current one
+	anonymousFunctions                    []*ast.AnonymousFunction
 	returns                               bool
 	currentExpectedReturnType             ctypes.Type
 	Errors                                []error
@@ -386,9 +388,11 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
 	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	s.anonymousFunctions = append(s.anonymousFunctions, anonymousFunction)
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
+	s.anonymousFunctions = s.anonymousFunctions[:len(s.anonymousFunctions)-1]
 	s.returns = temporaryReturns
 	return anonymousFunction.FunctionType
 }
@@ -1021,8 +1025,7 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 
 		// constants are known at compile time, there is nothing to capture
 		if !identifierType.IsConstant && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			s.captureVariable(identifier.Name, identifierType.parentFunction)
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
 			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
 			return identifierTypeUnwrap
@@ -1035,6 +1038,26 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	return ctypes.TODO()
 }
 
+// captureVariable captures the variable in the current anonymous function, and in all the anonymous functions
+// that are between it and the function that owns the variable.
+func (s *Semantic) captureVariable(name string, owner *ctypes.Function) {
+	for i := len(s.anonymousFunctions) - 1; i >= 0; i-- {
+		function := s.anonymousFunctions[i]
+		if function.FunctionType == owner {
+			return
+		}
+
+		captured := false
+		for _, capturedVariable := range function.CapturedVariables {
+			captured = captured || capturedVariable == name
+		}
+
+		if !captured {
+			function.CapturedVariables = append(function.CapturedVariables, name)
+		}
+	}
+}
+
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
 	mutates := prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne
 	expectNonConstant := s.expectNonConstantExpression
-- 
2.43.0


From 15774e73ecc89808923c29a92d1f36bf7e083b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 022/148] fix: break and continue were accepted in an anonymous
 function declared inside a loop

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2df45ab..08ac36c 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -384,6 +384,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
 	temporaryReturns := s.returns
 	s.returns = false
+	// the loops around an anonymous function can't be left from inside of it
+	tmpInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	tmpAnon := s.currentAnonymousFunctionBeingAnalyzed
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
@@ -391,6 +394,7 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	s.anonymousFunctions = append(s.anonymousFunctions, anonymousFunction)
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
+	s.insideBreakableBlock = tmpInsideBreakableBlock
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
 	s.anonymousFunctions = s.anonymousFunctions[:len(s.anonymousFunctions)-1]
 	s.returns = temporaryReturns
-- 
2.43.0


From d70439bda95d5ab8bf1b21b9841cc0778d40ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 023/148] fix: calling a function without parameters like a
 method panicked

---
 internals/semantic/semantic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 08ac36c..b8f6fc3 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1180,7 +1180,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1195,7 +1195,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1266,7 +1266,12 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("can't call a function without parameters with "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 87f5df768ab95834193d5bc64b2d2cf57b52c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 024/148] fix: the module of a method call depended on the
 iteration order of a map

---
 internals/semantic/semantic.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b8f6fc3..d729dc3 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -30,14 +30,14 @@ type Semantic struct {
 	currentFunctionBeingAnalyzed          *ctypes.Function
 	currentAnonymousFunctionBeingAnalyzed *ast.AnonymousFunction
 	// anonymous functions being analyzed, from the outermost one to the current one
-	anonymousFunctions                    []*ast.AnonymousFunction
-	returns                               bool
-	currentExpectedReturnType             ctypes.Type
-	Errors                                []error
-	Warnings                              []error
-	insideBreakableBlock                  bool
-	expectConstantExpression              bool
-	expectNonConstantExpression           bool
+	anonymousFunctions          []*ast.AnonymousFunction
+	returns                     bool
+	currentExpectedReturnType   ctypes.Type
+	Errors                      []error
+	Warnings                    []error
+	insideBreakableBlock        bool
+	expectConstantExpression    bool
+	expectNonConstantExpression bool
 
 	// We maintain references to other semantic analyzers here, those are generated by import statements.
 	// The structure of this map is
@@ -53,7 +53,9 @@ type Semantic struct {
 	// ```
 	// So we need to 'duplicate' definitions when importing semantic modules. One for module identifier accessing modules
 	// and method calls that reference other places
-	modules              map[string]*Semantic
+	modules map[string]*Semantic
+	// modules in the order that they are imported
+	importedModules      []*Semantic
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
@@ -1173,7 +1175,7 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 }
 
 func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
-	for _, semantic := range s.modules {
+	for _, semantic := range s.importedModules {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
 		if v == nil {
 			continue
@@ -1328,6 +1330,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		// We need this for methods that are referenced as
 		// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 		s.modules[existingSemantic.Root.ID] = existingSemantic
+		s.importedModules = append(s.importedModules, existingSemantic)
 		return
 	}
 	text, err := os.ReadFile(currentPathPlusImport)
@@ -1362,6 +1365,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	// We need this for methods that are referenced as
 	// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 	s.modules[internalSemantic.Root.ID] = internalSemantic
+	s.importedModules = append(s.importedModules, internalSemantic)
 	s.modules[importStatement.Name] = internalSemantic
 }
 
-- 
2.43.0


From d8fbc48731e75de1856346e1fdacebd3a2038283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 025/148] fix: non boolean conditions of an else if were
 converted in the wrong block

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index c72b943..67306d7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -669,10 +669,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 		// is true jump to this block, else jump to the next one, which would be the next jump condition or
 		// the else
 		condition := c.compileExpression(conditions[i])
-		conditionLoaded := c.loadIfPointer(condition)
+		conditionLoaded := c.toBool(c.loadIfPointer(condition))
 		// Recharge block because compiling expressions can change current blocks
 		lastJumpToCondition = c.popBlock()
-		lastJumpToCondition.NewCondBr(c.toBool(conditionLoaded), currentBlock, jumpToNextCondition)
+		lastJumpToCondition.NewCondBr(conditionLoaded, currentBlock, jumpToNextCondition)
 		lastJumpToCondition = jumpToNextCondition
 	}
 
-- 
2.43.0


From 34e133ad908429c47d8d000407719445e47c1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 026/148] fix: comparisons were emitted in the block where
 their operands start

---
 internals/compiler/compiler_comparisons.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..6e02be4 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -21,17 +21,15 @@ func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.V
 	}
 
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		left := c.loadIfPointer(c.compileExpression(expr.Left))
+		right := c.loadIfPointer(c.compileExpression(expr.Right))
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	// Compiling the operands can change the current block
+	left := c.loadIfPointer(c.compileExpression(expr.Left))
+	right := c.loadIfPointer(c.compileExpression(expr.Right))
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From 79a01b2f352ac5ac1109fc313ba52be5814887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 027/148] fix: NaN was not different to itself

---
 internals/compiler/compiler_comparisons.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 6e02be4..593c5b2 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -46,7 +46,7 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 		case ops.Equals:
 			return enum.FPredOEQ
 		case ops.NotEquals:
-			return enum.FPredONE
+			return enum.FPredUNE
 		}
 	}
 
-- 
2.43.0


From 90bfe31c2b576008c7bf0ae8950d7c793f36255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 028/148] fix: pointers were ordered like signed integers

---
 internals/compiler/compiler_comparisons.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 593c5b2..863f135 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -92,13 +92,13 @@ func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPre
 	if _, ok := t.(*ctypes.Pointer); ok {
 		switch op {
 		case ops.GreaterThanEqual:
-			return enum.IPredSGE
+			return enum.IPredUGE
 		case ops.GreaterThan:
-			return enum.IPredSGT
+			return enum.IPredUGT
 		case ops.LessThan:
-			return enum.IPredSLT
+			return enum.IPredULT
 		case ops.LessThanEqual:
-			return enum.IPredSLE
+			return enum.IPredULE
 		case ops.Equals:
 			return enum.IPredEQ
 		case ops.NotEquals:
-- 
2.43.0


From 8cbfc8a5b28de2135746bbe941e495abcddc2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 029/148] fix: true was less than false

---
 internals/compiler/compiler_comparisons.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 863f135..d8d0d77 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -55,6 +55,11 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 }
 
 func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPred {
+	// false is less than true, a signed i1 would be -1
+	if integer, ok := t.(*ctypes.Integer); ok && integer.BitSize == 1 {
+		t = ctypes.U8
+	}
+
 	if _, ok := t.(*ctypes.Integer); ok {
 		switch op {
 		case ops.GreaterThanEqual:
-- 
2.43.0


From 905e1772f8910552075e9f2635693aebc63e6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 030/148] fix: the compiler exited on float conditions

---
 internals/compiler/compiler_conversions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 1571a64..f2d4bf9 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -18,6 +19,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	c.exitInternalError("can't pass to a boolean the value: " + value.String())
 	panic("")
 }
-- 
2.43.0


From 136c510ad0bfd2d42213b09c16527269c1caad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 031/148] fix: whether a statement is reachable depended on the
 last created block and not on the current one

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 67306d7..8f11797 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -328,7 +328,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	// Code after a terminator is unreachable
+	if c.currentFunction != nil && len(c.blocks) > 0 && c.block().Term != nil {
 		return
 	}
 
@@ -609,7 +610,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
-- 
2.43.0


From ad54942a1688bc7096c3c4bad4ec8b979e9a25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 032/148] fix: a parameter called like its function produced an
 invalid module

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8f11797..ceb5947 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -587,8 +587,8 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, variablesToAdd ...NamedValue) {
 	llvmFunction := c.compileFunctionType(name, funk)
 
-	// Create a main block to the function
-	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name))
+	// Create a main block to the function, parameters can't be called like it because their names have an ID
+	c.pushBlock(llvmFunction.NewBlock("entry"))
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
-- 
2.43.0


From f4657e0b7ca947d1907b14576ea7f5569b1141e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 033/148] fix: return inside an expression block did not leave
 it, and nested blocks or functions lost the enclosing one

---
 internals/compiler/compiler.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ceb5947..ffa54be 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,6 +53,7 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
+	currentLeaveBlockExpression         *ir.Block
 	context                             *semantic.Semantic
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
@@ -534,8 +535,9 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
 			toReturnLoaded,
-			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
+			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, types.NewPointer(toReturnLoaded.Type())),
 		)
+		c.block().NewBr(c.currentLeaveBlockExpression)
 		return
 	}
 
@@ -601,8 +603,12 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.declare(variable.Name, variable.Value)
 	}
 
-	// Set it as current function
+	// Set it as current function, it doesn't return to the expression block or break the loop that it's inside of
 	prevFunction := c.currentFunction
+	prevValue, prevLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	prevBreak, prevContinue := c.currentBreakLeaveBlock, c.currentContinueEscapeBlock
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = nil, nil
+	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = nil, nil
 	c.currentFunction = llvmFunction
 
 	// Compile block
@@ -629,6 +635,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = prevValue, prevLeave
+	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = prevBreak, prevContinue
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1224,11 +1232,16 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
-	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(10))
+	leaveBlock := c.currentFunction.NewBlock("leave-block-expression-" + random.RandomString(10))
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leaveBlock
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	if lastBlock := c.compileBlock(block.Block, newBlock); lastBlock.Term == nil {
+		lastBlock.NewUnreachable()
+	}
+	c.blocks[len(c.blocks)-1] = leaveBlock
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = previousValue, previousLeave
 	return alloca
 }
 
-- 
2.43.0


From 493200a2cbfd7208c6d21d6cd9d94dac69e45100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 034/148] fix: shifts by an integer of another width produced
 an invalid module

---
 internals/compiler/compiler.go          | 2 ++
 internals/compiler/compiler_constant.go | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ffa54be..880f9e4 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1620,12 +1620,14 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), ctypes.U64, rightValue)
 	return c.block().NewLShr(leftValue, rightValue)
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), ctypes.U64, rightValue)
 	return c.block().NewShl(leftValue, rightValue)
 }
 
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index b450723..e65ee46 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -135,9 +135,9 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 	case ops.BinaryOR:
 		return constant.NewOr(first, second)
 	case ops.LeftShift:
-		return constant.NewShl(first, second)
+		return constant.NewShl(first, c.handleConstantCast(second, ctypes.U64, first.Type(), expr))
 	case ops.RightShift:
-		return constant.NewLShr(first, second)
+		return constant.NewLShr(first, c.handleConstantCast(second, ctypes.U64, first.Type(), expr))
 	case ops.Divide:
 		if types.IsInt(first.Type()) {
 			if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
-- 
2.43.0


From 86ed6fd25b870747b25d6956220b7472f13b00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 035/148] fix: negative numbers could not be used in constant
 expressions

---
 internals/compiler/compiler_constant.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index e65ee46..90a303d 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -81,6 +81,23 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
+	case *ast.PrefixOperation:
+		if expr.Operation == ops.Subtract {
+			right := c.compileConstantExpression(expr.Right)
+			if literal, isLiteral := right.(*constant.Float); isLiteral {
+				value, _ := literal.X.Float64()
+				return constant.NewFloat(literal.Typ, -value)
+			}
+
+			if float, isFloat := right.Type().(*types.FloatType); isFloat {
+				return constant.NewFMul(right, constant.NewFloat(float, -1))
+			}
+
+			if integer, isInteger := right.Type().(*types.IntType); isInteger {
+				return constant.NewMul(right, constant.NewInt(integer, -1))
+			}
+		}
+		c.exitErrorExpression("unexpected non constant operation", expr)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
 	case *ast.Float:
-- 
2.43.0


From 25e95f7244c2dab502256b95a6ea6f7ad35e3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 036/148] fix: unsigned and boolean indices and pointer offsets
 were taken as signed

---
 internals/compiler/compiler.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 880f9e4..869ab68 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1160,6 +1160,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
 	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index = c.extendIndex(index, access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1174,6 +1175,15 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	return c.calculatePointerOffset(leftArray, index)
 }
 
+// extendIndex extends an index to 64 bits because addresses are calculated with signed indices
+func (c *Compiler) extendIndex(index value.Value, t ctypes.Type) value.Value {
+	if !types.IsInt(index.Type()) {
+		return index
+	}
+
+	return c.handleIntegerCast(types.I64, t, index)
+}
+
 func (c *Compiler) calculatePointerOffset(pointer value.Value, offset value.Value) value.Value {
 	calculatedPointer := c.block().NewGetElementPtr(pointer.Type().(*types.PointerType).ElemType, pointer, offset)
 	calculatedPointer.InBounds = true
@@ -1510,7 +1520,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
-		newPointer := c.calculatePointerOffset(leftValue, rightValue)
+		newPointer := c.calculatePointerOffset(leftValue, c.extendIndex(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
@@ -1553,6 +1563,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.extendIndex(rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From 6c62739f95d50b1337a2f00a8a3443e7d217e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 037/148] fix: indexing an array returned by a function
 panicked

---
 internals/compiler/compiler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 869ab68..4356567 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1170,6 +1170,15 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 		return element
 	}
 
+	// The array has been returned by value
+	if types.IsArray(leftArray.Type()) {
+		array := c.block().NewAlloca(leftArray.Type())
+		c.block().NewStore(leftArray, array)
+		element := c.block().NewGetElementPtr(leftArray.Type(), array, zero, index)
+		element.InBounds = true
+		return element
+	}
+
 	c.doNotLoadIntoMemory = doNotLoadLeftArray
 	leftArray = c.loadIfPointer(leftArray)
 	return c.calculatePointerOffset(leftArray, index)
-- 
2.43.0


From 599bfb11680e97150bbb8526ec55121847b3b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 038/148] fix: the index of a pointer returned by a function
 was not loaded

---
 internals/compiler/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4356567..3956095 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1159,6 +1159,8 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
+	// the index must be loaded regardless of the array
+	c.doNotLoadIntoMemory = false
 	index := c.loadIfPointer(c.compileExpression(access.Access))
 	index = c.extendIndex(index, access.Access.GetType())
 
-- 
2.43.0


From 6dea40187160a45128f4fdf0ec0e5820cbd52eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 039/148] fix: reporting an error on an unexpected assignment
 panicked

---
 internals/ops/operations.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..0c838f6 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -77,8 +77,10 @@ func (o Operation) String() string {
 		return "<="
 	case Equals:
 		return "=="
-	case Assigns:
+	case Assigns, TempAssign:
 		return "="
+	case At:
+		return "@"
 	case NotEquals:
 		return "!="
 	case Paren:
-- 
2.43.0


From 2e6b644f0cc245e4eb0b98d33b2021c99c50ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 040/148] fix: a missing type was not a parsing error and
 panicked later

---
 internals/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..fde599d 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -717,7 +717,8 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type")
+	return ctypes.TODO()
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
-- 
2.43.0


From b6a818113d59a4fd7677bfc204306f0264b44099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 041/148] fix: assignments that start with a parenthesis were
 not parsed as assignments

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index fde599d..6429fbf 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -175,7 +175,7 @@ func (p *Parser) parseStatement() ast.Statement {
 		return p.parseExtern()
 	case token.IDENT:
 		return p.parseIdentifierStatement()
-	case token.ASTERISK:
+	case token.ASTERISK, token.LPAREN:
 		return p.parsePossibleAssignment()
 	case token.IF:
 		return p.parseIf()
-- 
2.43.0


From 76031724e17565c112880acfd3e2211f662686ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 042/148] fix: bitwise operations on floats were accepted

---
 internals/semantic/semantic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d729dc3..a1fecaa 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1422,6 +1422,13 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 		s.typeMismatchBlameArithmeticExpressionError(binaryOperation.String(), binaryOperation, binaryOperation.Token, true)
 	}
 
+	isBitwise := binaryOperation.Operation == ops.BinaryAND || binaryOperation.Operation == ops.BinaryOR ||
+		binaryOperation.Operation == ops.BinaryXOR
+	if isBitwise && ctypes.IsFloat(left) {
+		s.cantOperateThisOperationError(binaryOperation, left, right)
+		return ctypes.TODO()
+	}
+
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
-- 
2.43.0


From c2590b4686ab39d629266982db174d16bbc1c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 043/148] fix: comparisons of structs, unions and functions
 were accepted and made the compiler exit

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index a1fecaa..04f872c 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1432,6 +1432,9 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
+			return ctypes.TODO()
 		}
 		return ctypes.I1
 	}
-- 
2.43.0


From 695237efd8b2c8aab554e83316f1235c65ba1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 044/148] fix: floats were accepted as an index

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 04f872c..5131a6b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -840,7 +840,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
 	s.expectNonConstantExpression = expectNonConstant
-	if !ctypes.IsNumeric(indexType) {
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
-- 
2.43.0


From fe2660ef008ef6673be63eb2eae22b97c96a0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 045/148] fix: floats were accepted as the length of @alloc

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ce97531..0a26b76 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -47,7 +47,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
-- 
2.43.0


From 732b67527b9fde10dced4f4c802cc76f0b9e7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 046/148] fix: void was accepted as the condition of a for loop

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5131a6b..98e267d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -320,7 +320,7 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 
 	condition := s.analyzeExpression(forStatement.Condition)
 
-	if !ctypes.IsNumeric(condition) && condition != ctypes.VoidType {
+	if !ctypes.IsNumeric(condition) {
 		s.typeMismatchError(forStatement.Condition.String(), forStatement.Condition, forStatement.Token, ctypes.I1, condition)
 	}
 
-- 
2.43.0


From eab4d922aaee716c2008043069d3ad45a3bfdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 047/148] fix: @sizeof an array of structs was zero

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 0a26b76..edcda54 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -108,7 +108,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
+	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(s.replaceAnonymous(sizeOfCall.TypeParameters[0]))
 	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
 	return ctypes.I32
 }
-- 
2.43.0


From 1a3379549dd41b711f4a2805473b60d6ada66fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 048/148] fix: const with multiple values was accepted and its
 variables were not constant

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 98e267d..7859ce0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1505,6 +1505,11 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 
 func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclarationStatement) {
 	s.expectStatementInsideFunction(m.Token)
+	if m.Constant {
+		s.errorWithStatement("you can't declare multiple constants in a single declaration", m.Token)
+		return
+	}
+
 	possibleTypeList := s.analyzeExpression(m.Expression)
 	var typeList *ctypes.TypeList
 	if typeListInstance, isList := possibleTypeList.(*ctypes.TypeList); isList {
-- 
2.43.0


From 4e38f38492e1a5820a5a36ea6db240b75244e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 049/148] fix: escape sequences of character literals were not
 recognised

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..145c83b 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From 272b99f4c8dfe08cac0f3fa94cdc36b692173165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 050/148] fix: bytes of literals that are not ASCII were
 encoded again

---
 internals/lexer/lexer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 145c83b..8e32580 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -243,7 +243,7 @@ func (l *Lexer) parseNumericToken() token.Token {
 }
 
 func (l *Lexer) readString() string {
-	s := ""
+	s := []byte{}
 	l.readChar()
 	for l.ch != '"' && l.ch != 0 {
 		if l.ch == '\\' {
@@ -251,26 +251,26 @@ func (l *Lexer) readString() string {
 			if l.peekChar() == 'n' {
 				l.readChar()
 				l.readChar()
-				s += string('\n')
+				s = append(s, '\n')
 				continue
 			}
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s = append(s, l.ch)
 		l.readChar()
 	}
 
-	return s
+	return string(s)
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
-- 
2.43.0


From c760127de36c650a3e0f192a3e6032680dca9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 051/148] fix: lines inside of string literals were not counted

---
 internals/lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 8e32580..452eea0 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -262,6 +262,11 @@ func (l *Lexer) readString() string {
 			continue
 		}
 
+		if l.ch == '\n' {
+			l.line++
+			l.column = 1
+		}
+
 		s = append(s, l.ch)
 		l.readChar()
 	}
-- 
2.43.0


From 6abd404e72ef92a390c983d21df7a2020db968fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 052/148] fix: reporting an error at the end of the input
 panicked

---
 internals/lexer/lexer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 452eea0..6a4e231 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -58,6 +58,20 @@ func (l *Lexer) RetrieveLine(t token.Token) string {
 		t.OverallPosition = len(l.input) - 1
 		currentColumn = len(l.input) - 2
 	}
+
+	// tokens at the end of the input can point past its last character
+	if t.OverallPosition >= len(l.input) {
+		t.OverallPosition = len(l.input) - 1
+	}
+
+	if currentColumn >= len(l.input) {
+		currentColumn = len(l.input) - 1
+	}
+
+	if t.OverallPosition < 0 {
+		return ""
+	}
+
 	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
 		currentColumn--
 	}
-- 
2.43.0


From 588c7e8bd7ac396f8ea25e2b1314f8ae4fed3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 053/148] fix: casts of arrays to numbers, and of anything to
 arrays, were accepted and crashed the compiler

---
 internals/semantic/semantic_builtin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index edcda54..ed2e2d4 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,8 +24,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// Arrays only decay to pointers
+	if ctypes.IsPointer(toType) && (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) ||
+		ctypes.IsNumeric(toType) && (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) {
 		castCall.Type = toType
 		return toType
 	}
-- 
2.43.0


From 16068b746b59ef09ea241f471510fa10b64fa0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 054/148] fix: casting a pointer to a float produced an invalid
 module

---
 internals/compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 3956095..e72ec82 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1679,11 +1679,10 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
-		integer := c.block().NewPtrToInt(variable, toReturnType)
 		if _, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
-			return c.block().NewSIToFP(integer, toReturnType)
+			return c.block().NewUIToFP(c.block().NewPtrToInt(variable, types.I64), toReturnType)
 		}
-		return integer
+		return c.block().NewPtrToInt(variable, toReturnType)
 	}
 
 	if ctypes.IsPointer(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) { ///types.IsInt(variable.Type()) {
-- 
2.43.0


From 3fca5c1667e5a7f5ed5469d959b16a23837889c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 055/148] fix: casting an array returned by a function to a
 pointer made the compiler exit

---
 internals/compiler/compiler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index e72ec82..fa3466c 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1669,6 +1669,16 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		bc := c.block().NewBitCast(ptr, toReturnType)
 		return bc
 	}
+
+	// The array has been returned by value
+	if types.IsArray(variable.Type()) {
+		array := c.block().NewAlloca(variable.Type())
+		c.block().NewStore(variable, array)
+		c.doNotLoadIntoMemory = true
+		c.doNotAllocate = false
+		return c.block().NewBitCast(array, toReturnType)
+	}
+
 	variable = c.loadIfPointer(variable)
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) {
-- 
2.43.0


From 1cfa5d36a13df5b27ffde9ad20f625010c70bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 056/148] fix: printing a boolean that was cut from an integer
 printed the bits above it

---
 internals/compiler/compiler_format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index ba64922..f5c2d96 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -25,7 +25,13 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 		}
 
 		if integer, isSigned := call.Parameters[current].GetType().(*ctypes.Integer); isSigned {
-			if integer.BitSize == 1 || integer.BitSize == 8 {
+			if integer.BitSize == 1 {
+				// printf looks at 8 bits
+				expressions[current+1] = c.block().NewZExt(expressions[current+1], types.I8)
+				return "%hhd"
+			}
+
+			if integer.BitSize == 8 {
 				return "%hhd"
 			}
 
-- 
2.43.0


From fafe7f853832361f1d9167f816345a7af537f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 057/148] fix: elements of arrays of a type alias could not be
 printed

---
 internals/semantic/semantic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7859ce0..38ac211 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -845,13 +845,13 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 	}
 
 	if arr, ok := leftType.(*ctypes.Array); ok {
-		indexAccess.Type = arr.Inner
-		return arr.Inner
+		indexAccess.Type = s.UnwrapAnonymous(arr.Inner)
+		return indexAccess.Type
 	}
 
 	if ptr, ok := leftType.(*ctypes.Pointer); ok {
-		indexAccess.Type = ptr.Inner
-		return ptr.Inner
+		indexAccess.Type = s.UnwrapAnonymous(ptr.Inner)
+		return indexAccess.Type
 	}
 
 	s.errorWithStatement("mismatched types on index access, internal compiler bug", indexAccess.Token)
-- 
2.43.0


From b4deb2e8820ca1a9d31cfbdcb81a76e1edff526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 058/148] fix: calls that return a type alias could not be
 printed or used as a condition

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 38ac211..695f2cd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1008,7 +1008,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	call.Type = funcType.Return
+	call.Type = s.UnwrapAnonymous(funcType.Return)
 	return call.Type
 }
 
-- 
2.43.0


From ce65fbcfde5d44857f37d5882053b0185ab6de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 059/148] fix: a constant or global initialised with a mutable
 global is no longer compiled to garbage, constants can alias string and
 module constants, module constants are immutable

---
 internals/compiler/compiler_constant.go | 31 ++++++++++++++++++++++++-
 internals/semantic/semantic.go          |  8 +++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 90a303d..ee2add3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -3,6 +3,7 @@ package compiler
 import (
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/semantic"
 
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/llir/llvm/ir/constant"
@@ -76,8 +77,11 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Constant {
 	switch expr := expr.(type) {
 	case *ast.Identifier:
-		return c.compileIdentifier(expr).(constant.Constant)
+		return c.compileConstantIdentifier(expr)
 	case *ast.BinaryOperation:
+		if module, isModuleAccess := c.accessedModule(expr); isModuleAccess {
+			return module.compileConstantExpression(expr.Right)
+		}
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
@@ -122,6 +126,31 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
+// accessedModule returns the module of an access like `module.element`
+func (c *Compiler) accessedModule(expr *ast.BinaryOperation) (*Compiler, bool) {
+	if _, isModule := expr.Left.GetType().(*semantic.Semantic); !isModule || expr.Operation != ops.Dot {
+		return nil, false
+	}
+
+	return c.modules[expr.Left.(*ast.Identifier).Name], true
+}
+
+// compileConstantIdentifier retrieves the value that a constant or a function name has at compile time.
+func (c *Compiler) compileConstantIdentifier(id *ast.Identifier) constant.Constant {
+	if c.retrieveLocalVariable(id.Name) == nil {
+		global, exists := c.globalVariables[id.Name]
+		if exists && global.Constant {
+			return global.Value.(constant.Constant)
+		}
+
+		if exists && !ctypes.IsFunction(global.Type) {
+			c.exitErrorExpression("the value of a global variable is not known at compile time", id)
+		}
+	}
+
+	return c.compileIdentifier(id).(constant.Constant)
+}
+
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
 	switch op {
 	case ops.Add:
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 695f2cd..5ebc4cd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1169,6 +1169,14 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	if !accessedElement.IsConstant && s.expectConstantExpression {
+		s.errorWithStatement("this expression should be constant and '"+binaryOp.String()+"' is not a constant variable", binaryOp.Token)
+	}
+
+	if accessedElement.IsConstant && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From 1afc612708ad2646ee9590e31bc11ae6be9955a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 060/148] fix: a global variable that holds a function can be
 reassigned

---
 internals/compiler/compiler.go          | 4 ++--
 internals/compiler/compiler_constant.go | 2 +-
 internals/compiler/compiler_types.go    | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fa3466c..244e17d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -783,7 +783,7 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 	if c.currentFunction == nil {
 		c.doNotAllocate = false
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
-			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
+			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant, Variable: !decl.Constant}
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
 		}
@@ -1047,7 +1047,7 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	}
 
 	if fn, ok := c.globalVariables[name]; ok {
-		if !ctypes.IsFunction(fn.Type) {
+		if !ctypes.IsFunction(fn.Type) || fn.Variable {
 			if existing, exists := c.globalVariables[name+".global"]; exists {
 				return existing.Value
 			}
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index ee2add3..0fd33d3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -143,7 +143,7 @@ func (c *Compiler) compileConstantIdentifier(id *ast.Identifier) constant.Consta
 			return global.Value.(constant.Constant)
 		}
 
-		if exists && !ctypes.IsFunction(global.Type) {
+		if exists && global.Variable {
 			c.exitErrorExpression("the value of a global variable is not known at compile time", id)
 		}
 	}
diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index a6d2548..cf124f0 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -15,6 +15,8 @@ type Value struct {
 	Value    value.Value
 	Type     ctypes.Type
 	Constant bool
+	// Variable is true when it is a declared global variable that can be reassigned
+	Variable bool
 }
 
 type NamedValue struct {
-- 
2.43.0


From 44772b8ccd01a10854f151e313c5be3f6f4fcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 061/148] fix: constants with an initialiser that can not be
 computed at compile time are reported as errors instead of stopping the
 compiler or producing invalid code

---
 internals/compiler/compiler_constant.go |  4 ++++
 internals/semantic/semantic.go          | 15 ++++++++++++++-
 internals/semantic/semantic_builtin.go  |  4 ++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 0fd33d3..e76db51 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -117,6 +117,10 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 				expr,
 			)
 		}
+
+		if expr.Name == "sizeof" {
+			return c.builtins["sizeof"](c, expr).(constant.Constant)
+		}
 		c.exitErrorExpression("can't handle this constant builtin call", expr)
 	default:
 		c.exitErrorExpression("unexpected non constant operation", expr)
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5ebc4cd..f1f0959 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -384,6 +384,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 }
 
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
+	s.throwInvalidOperationForConstant("you can't use anonymous functions, ", anonymousFunction)
 	temporaryReturns := s.returns
 	s.returns = false
 	// the loops around an anonymous function can't be left from inside of it
@@ -829,6 +830,7 @@ func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
 }
 
 func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type {
+	s.throwInvalidOperationForConstant("you can't use index accesses, ", indexAccess)
 	leftType := s.analyzeExpression(indexAccess.Left)
 
 	if !ctypes.IsArray(leftType) && !ctypes.IsPointer(leftType) {
@@ -901,7 +903,7 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 }
 
 func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes.Type {
-
+	s.throwInvalidOperationForConstant("you can't use struct literals, ", structLiteral)
 	possibleStructType, err := s.retrieveTypeFromStruct(structLiteral)
 
 	if err != nil {
@@ -939,6 +941,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 }
 
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
+	s.throwInvalidOperationForConstant("you can't use array literals, ", arrayLiteral)
 	arrayType := arrayLiteral.Type.(*ctypes.Array)
 	currType := arrayType.Inner
 
@@ -1071,6 +1074,10 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
 	s.expectNonConstantExpression = expectNonConstant
 	prefixOperation.Type = t
+	if prefixOperation.Operation == ops.Add || prefixOperation.Operation == ops.Bang {
+		s.throwInvalidOperationForConstant("you can't use this prefix operator, ", prefixOperation)
+	}
+
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
@@ -1378,6 +1385,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 }
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
+	s.throwInvalidOperationForConstant("you can't use blocks, ", blockExpression)
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
@@ -1417,6 +1425,11 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	left := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Left))
 	right := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Right))
 
+	isLogical := binaryOperation.Operation == ops.AND || binaryOperation.Operation == ops.OR
+	if ctypes.IsPointer(left) || isLogical || binaryOperation.Operation.IsComparison() {
+		s.throwInvalidOperationForConstant("you can't compare values or operate on pointers, ", binaryOperation)
+	}
+
 	if ctypes.IsPointer(left) && ctypes.IsInteger(right) && (binaryOperation.Operation == ops.Add || binaryOperation.Operation == ops.Subtract) {
 		binaryOperation.Type = left
 		return left
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ed2e2d4..6948a8e 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,6 +24,10 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
+	if ctypes.IsPointer(toType) || ctypes.IsPointer(currentType) {
+		s.throwInvalidOperationForConstant("you can't cast pointers, ", castCall)
+	}
+
 	// Arrays only decay to pointers
 	if ctypes.IsPointer(toType) && (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) ||
 		ctypes.IsNumeric(toType) && (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) {
-- 
2.43.0


From 468e8fae8a203c0b902fab5d00989144bb2310d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 062/148] fix: print without arguments or of a struct that is
 called like a function produced an invalid module

---
 internals/compiler/compiler_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..68da4d7 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -12,7 +12,7 @@ func (c *Compiler) createString(s string) value.Value {
 	var globalDef value.Value
 	s += string(byte(0))
 	if definition, ok := c.globalBuiltinDefinitions[s]; !ok {
-		globalDef = c.m.NewGlobalDef(s[:len(s)-1], constant.NewCharArrayFromString(s))
+		globalDef = c.m.NewGlobalDef("format."+s[:len(s)-1], constant.NewCharArrayFromString(s))
 		c.globalBuiltinDefinitions[s] = globalDef
 	} else {
 		globalDef = definition
-- 
2.43.0


From 9d43354f87a86012818c20c54bced91596354de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 063/148] fix: switches on values that are not integers and
 duplicated cases are reported instead of producing an invalid module

---
 internals/compiler/compiler.go | 5 +++++
 internals/semantic/semantic.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 244e17d..559f05f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1736,6 +1736,11 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 		possibleNonConstantExpression := c.compileConstantExpression(caseStatement.Case)
 		if constant, isConstant := possibleNonConstantExpression.(constant.Constant); isConstant {
 			caseBlock := c.currentFunction.NewBlock(fmt.Sprintf("case-%d-%s", i, casesId))
+			for _, otherCase := range cases {
+				if otherCase.X.Ident() == constant.Ident() {
+					c.exitErrorExpression("this value is already handled by another case of the switch", caseStatement.Case)
+				}
+			}
 			irCase := ir.NewCase(constant, caseBlock)
 			cases = append(cases, irCase)
 			strandedBlocks = append(strandedBlocks, c.compileBlock(caseStatement.Block, caseBlock))
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f1f0959..d10f990 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1494,6 +1494,10 @@ func (s *Semantic) replaceAnonymous(t ctypes.Type) ctypes.Type {
 func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement) {
 	s.expectStatementInsideFunction(switchStatement.Token)
 	condition := s.UnwrapAnonymous(s.analyzeExpression(switchStatement.Condition))
+	if !ctypes.IsInteger(condition) {
+		s.typeMismatchError(switchStatement.String(), switchStatement.Condition, switchStatement.Token, ctypes.I32, condition)
+		return
+	}
 
 	allCasesReturn := true
 
-- 
2.43.0


From 35c63bfc7c78031b63f0adc03a037dc23461306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 064/148] fix: dividing by the alignment of a struct without
 fields crashed the compiler

---
 internals/ctypes/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index 0def715..be18d97 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -327,7 +327,7 @@ func (u *Union) SizeOf() int64 {
 }
 
 func (u *Union) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range u.Fields {
 		alignment := t.Alignment()
 		if alignment > maximumAlignment {
@@ -420,7 +420,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From 2b353977c1d462acf5a4ed0dc3978bcaa6233169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 065/148] fix: types, functions and parameters that are defined
 twice are reported instead of producing an invalid module

---
 internals/semantic/semantic.go       | 11 +++++++++++
 internals/semantic/semantic_steps.go | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d10f990..26cde3d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -154,6 +154,9 @@ func (s *Semantic) Analyze(program *ast.Program) {
 	s.fillTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
+	if len(s.Errors) > 0 {
+		return
+	}
 
 	for _, statement := range program.Statements {
 		s.analyzeStatement(statement)
@@ -359,6 +362,14 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.enterFrame()
 
 	s.replaceAnonymousFunctionParameterTypes(fun)
+	for i, name := range fun.Names {
+		for _, otherName := range fun.Names[:i] {
+			if name == otherName {
+				s.error("the parameter '"+ast.RetrieveID(name)+"' is duplicated", functionToken)
+			}
+		}
+	}
+
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
 	fun.Return = s.UnwrapAnonymous(fun.Return)
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..50a5149 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,9 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/token"
+)
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -8,11 +11,13 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.UnionStatement:
 			{
+				s.checkTypeRedefinition(t.Type.Name, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
 		case *ast.StructStatement:
 			{
+				s.checkTypeRedefinition(t.Type.Name, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
@@ -24,6 +29,12 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	}
 }
 
+func (s *Semantic) checkTypeRedefinition(name string, tok token.Token) {
+	if _, exists := s.definedTypes[name]; exists {
+		s.error("the type '"+ast.RetrieveID(name)+"' is already defined", tok)
+	}
+}
+
 func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
@@ -33,6 +44,9 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
+				if s.variables.Get(t.FunctionType.Name) != nil {
+					s.error("the function '"+ast.RetrieveID(t.FunctionType.Name)+"' is already defined", t.Token)
+				}
 				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
 			}
 
-- 
2.43.0


From 5a6c5f2af52106bd3ac78b2635be4ffd72ca6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 066/148] fix: mutually recursive types by value made the
 compiler overflow its stack

---
 internals/semantic/semantic.go       |  5 +++
 internals/semantic/semantic_steps.go | 60 ++++++++++++++++++++++++++++
 2 files changed, 65 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 26cde3d..91a9dff 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -152,6 +152,11 @@ func (s *Semantic) Analyze(program *ast.Program) {
 
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	if len(s.Errors) > 0 {
+		return
+	}
+
+	s.checkRecursiveTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 	if len(s.Errors) > 0 {
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 50a5149..660bb89 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -2,6 +2,7 @@ package semantic
 
 import (
 	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
 	"github.com/gabivlj/candice/internals/token"
 )
 
@@ -29,6 +30,65 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	}
 }
 
+// checkRecursiveTypes reports the types that contain themselves by value
+func (s *Semantic) checkRecursiveTypes(statements []ast.Statement) {
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.StructStatement:
+			{
+				if s.containsByValue(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+					s.error("the struct '"+t.Type.String()+"' contains itself", t.Token)
+				}
+			}
+
+		case *ast.UnionStatement:
+			{
+				if s.containsByValue(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+					s.error("the union '"+t.Type.String()+"' contains itself", t.Token)
+				}
+			}
+
+		case *ast.MacroBlock:
+			{
+				s.checkRecursiveTypes(t.Statements)
+			}
+		}
+	}
+}
+
+func (s *Semantic) containsByValue(fields []ctypes.Type, searched ctypes.Type, visited map[ctypes.Type]bool) bool {
+	for _, field := range fields {
+		field = s.UnwrapAnonymous(field)
+		for ctypes.IsArray(field) {
+			field = s.UnwrapAnonymous(field.(*ctypes.Array).Inner)
+		}
+
+		if field == searched {
+			return true
+		}
+
+		if visited[field] {
+			continue
+		}
+
+		visited[field] = true
+		inner := []ctypes.Type{}
+		switch t := field.(type) {
+		case *ctypes.Struct:
+			inner = t.Fields
+		case *ctypes.Union:
+			inner = t.Fields
+		}
+
+		if s.containsByValue(inner, searched, visited) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (s *Semantic) checkTypeRedefinition(name string, tok token.Token) {
 	if _, exists := s.definedTypes[name]; exists {
 		s.error("the type '"+ast.RetrieveID(name)+"' is already defined", tok)
-- 
2.43.0


From 867c947fa6be7522596ae63b4577c66c87db8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 067/148] fix: circular imports made the compiler overflow its
 stack

---
 internals/semantic/semantic.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 91a9dff..3cdaf33 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -65,6 +65,9 @@ type Semantic struct {
 
 var paths map[string]*Semantic = map[string]*Semantic{}
 
+// imports that are being analyzed, to detect the ones that are circular
+var pathsBeingImported map[string]bool = map[string]bool{}
+
 func (s *Semantic) SizeOf() int64 {
 	return 0
 }
@@ -77,6 +80,7 @@ func (s *Semantic) String() string { return "MODULE" }
 
 func ResetPaths() {
 	paths = map[string]*Semantic{}
+	pathsBeingImported = map[string]bool{}
 }
 
 func New() *Semantic {
@@ -1364,6 +1368,13 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.importedModules = append(s.importedModules, existingSemantic)
 		return
 	}
+	if pathsBeingImported[endHash] {
+		s.errorWithStatement("circular import of "+importStatement.Path.Value, importStatement.Token)
+		return
+	}
+
+	pathsBeingImported[endHash] = true
+	defer delete(pathsBeingImported, endHash)
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0


From 8b4573cc72671eb764eb58285134f17ae6d12df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 068/148] fix: generic modules instantiated with different
 types of the same name shared one instance

---
 internals/semantic/semantic.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3cdaf33..b7da771 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1328,6 +1328,24 @@ func (s *Semantic) isArithmetic(op ops.Operation) bool {
 		op == ops.Modulo
 }
 
+// typeIdentity is like the string of a type, but it tells apart the types that have the same name in different modules
+func typeIdentity(t ctypes.Type) string {
+	switch t := t.(type) {
+	case *ctypes.Pointer:
+		return "*" + typeIdentity(t.Inner)
+	case *ctypes.Array:
+		return fmt.Sprintf("[%d]%s", t.Length, typeIdentity(t.Inner))
+	case *ctypes.Struct:
+		return t.Name
+	case *ctypes.Union:
+		return t.Name
+	case *ctypes.Anonymous:
+		return t.Name
+	}
+
+	return t.String()
+}
+
 // analyzeImport works in a really tricky way
 //   - First off we start by gathering all types that the file is gonna need as parameters
 //   - Then we should parse and analyze the file that is being imported if it hasn't been yet
@@ -1357,7 +1375,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeIdentity(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
-- 
2.43.0


From ccf455135f0f3ffef64d5faacaa4aa03e1b60142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 069/148] fix: statements after an if or a switch that always
 returns were compiled without being analyzed and crashed the compiler

---
 internals/semantic/semantic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b7da771..6ab896d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -310,8 +310,10 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
-	for _, stmt := range block.Statements {
+	for i, stmt := range block.Statements {
 		if s.returns {
+			// What is never reached must not be compiled either
+			block.Statements = block.Statements[:i]
 			break
 		}
 		s.analyzeStatement(stmt)
@@ -385,8 +387,10 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.currentExpectedReturnType = fun.Return
 
 	if block != nil {
-		for _, statement := range block.Statements {
+		for i, statement := range block.Statements {
 			if s.returns {
+				// What is never reached must not be compiled either
+				block.Statements = block.Statements[:i]
 				break
 			}
 			s.analyzeStatement(statement)
-- 
2.43.0


From 2e2995d2c5cb214b7167a3447958954d3cd802bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 070/148] fix: statements of a macro block after an if or a
 switch that always returns were compiled without being analyzed

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 6ab896d..8b72a73 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -200,8 +200,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 			return
 		}
 	case *ast.MacroBlock:
-		for _, stmt := range statementType.Block.Statements {
+		for i, stmt := range statementType.Block.Statements {
 			if s.returns {
+				statementType.Block.Statements = statementType.Block.Statements[:i]
 				return
 			}
 			s.analyzeStatement(stmt)
-- 
2.43.0


From ef025b66456fb313a2bb296554b771ab1db59b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 071/148] fix: a variable declared with the result of a call
 was confused with the literals in its arguments

---
 internals/compiler/compiler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 559f05f..296daf1 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -790,15 +790,23 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		return
 	}
 
+	// Constants don't need an allocation, and literals were already allocated when they were compiled.
+	// The flag alone does not tell: it may come from a literal inside of the expression, like an argument of a call.
+	isAllocated := decl.Constant
+	switch decl.Expression.(type) {
+	case *ast.StructLiteral, *ast.ArrayLiteral:
+		isAllocated = isAllocated || types.NewPointer(t).Equal(valueCompiled.Type())
+	}
+
 	var val value.Value
-	if !c.doNotAllocate {
+	if !isAllocated {
 		val = c.block().NewAlloca(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
 		c.block().NewStore(valueCompiled, c.bitcastIfUnion(decl.Type, val, types.NewPointer(valueCompiled.Type())))
 	} else {
-		c.doNotAllocate = false
 		val = valueCompiled
 	}
+	c.doNotAllocate = false
 
 	c.declare(decl.Name, val)
 }
-- 
2.43.0


From e9dc2df9706aef497152f773a8824563fc572be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 072/148] fix: printing a multiple declaration renamed its
 variables

---
 internals/ast/statements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 98c2fec..5a56b5c 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -117,10 +117,11 @@ func (m *MultipleDeclarationStatement) GetToken() token.Token {
 func (_ *MultipleDeclarationStatement) statementNode() {}
 
 func (m *MultipleDeclarationStatement) String() string {
+	retrieved := make([]string, len(m.Names))
 	for i := range m.Names {
-		m.Names[i] = RetrieveID(m.Names[i])
+		retrieved[i] = RetrieveID(m.Names[i])
 	}
-	names := strings.Join(m.Names, ", ")
+	names := strings.Join(retrieved, ", ")
 	return fmt.Sprintf("%s :%s = %s;", names, m.Type.String(), m.Expression.String())
 }
 
-- 
2.43.0


From c5292957609650a1959c04ffcede4833253af5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 073/148] fix: the types of a multiple declaration were ignored

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8b72a73..4780c6c 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1604,6 +1604,14 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 		typeList.Types[i] = s.UnwrapAnonymous(typeList.Types[i])
 	}
 
+	// Check if declaration is forcing the types
+	if m.Type != ctypes.TODO() {
+		if !s.areTypesEqual(m.Type, typeList) {
+			s.typeMismatchError(m.String(), m.Expression, m.Token, m.Type, typeList)
+			return
+		}
+	}
+
 	for i, name := range m.Names {
 		declaredType := s.newType(typeList.Types[i])
 		declaredType.IsConstant = m.Constant
-- 
2.43.0


From 67133ab79337722817c4deba02fa69fec6c97fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 074/148] fix: a type called main doesn't crash the analysis

---
 internals/ast/mod.go           | 5 +++++
 internals/semantic/semantic.go | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index ebce0b5..7f118cc 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -71,6 +71,11 @@ func RetrieveID(name string) string {
 }
 
 func RetrieveRightID(name string) string {
+	// "main" is the only identifier that doesn't carry the ID of its module
+	if !strings.Contains(name, "-") {
+		return ""
+	}
+
 	return strings.Split(name, "-")[1]
 }
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4780c6c..9b02c9f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -617,7 +617,10 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 			if semantic == nil && s.Root.ID == id {
 				semantic = s
 			} else if semantic == nil {
-				logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
+				if ast.RetrieveID(anonymous.Name) != "main" {
+					logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
+				}
+				semantic = s
 			}
 		} else {
 			semantic = s.retrieveModule(module)
-- 
2.43.0


From 87c60bf1becf3dbad178a32fd7fc28d9d39fb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 075/148] fix: a struct literal couldn't take a union returned
 by a call

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 296daf1..18e03e6 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1306,10 +1306,10 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		ptr.InBounds = true
 
 		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
+		compiledValue = c.loadIfPointer(compiledValue)
 
 		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
-- 
2.43.0


From 3bef7b585afc74c765b4933bd56fb7cc39b45741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 076/148] fix: a constant couldn't be an operand on the left
 side of an assignment

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9b02c9f..232cfee 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1475,8 +1475,12 @@ func (s *Semantic) analyzeShiftOperation(binaryOperation *ast.BinaryOperation, l
 }
 
 func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	// The operands of an arithmetic operation are only read, even on the left side of an assignment like *(p + i) = v
+	expectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	left := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Left))
 	right := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Right))
+	s.expectNonConstantExpression = expectNonConstant
 
 	isLogical := binaryOperation.Operation == ops.AND || binaryOperation.Operation == ops.OR
 	if ctypes.IsPointer(left) || isLogical || binaryOperation.Operation.IsComparison() {
-- 
2.43.0


From 982ef45f566ec67eeb6c30e4405306f0853c304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 077/148] fix: a function type couldn't mention a type declared
 later

Also a union that was mentioned before its declaration became another type
---
 internals/compiler/compiler_types.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index cf124f0..28526ca 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -117,12 +117,15 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			}
 
 			bytes := types.NewArray(uint64(el.SizeOf()), types.I8)
-			if el.Alignment() <= 1 {
-				return types.NewStruct(bytes)
+			union := types.NewStruct(bytes)
+			if el.Alignment() > 1 {
+				// The empty array gives the storage the alignment of the union
+				union = types.NewStruct(types.NewArray(0, types.NewInt(uint64(el.Alignment()*8))), bytes)
 			}
 
-			// The empty array gives the storage the alignment of the union
-			return types.NewStruct(types.NewArray(0, types.NewInt(uint64(el.Alignment()*8))), bytes)
+			// Types declared earlier that mention the union must get this same type
+			c.types[el.Name] = &Type{llvmType: union, candiceType: ctypes.TODO()}
+			return union
 		}
 
 	case *ctypes.Struct:
@@ -172,6 +175,11 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				l := c.modules[el.Modules[0]].ToLLVMType(el)
 				return l
 			}
+
+			// It might be declared later than the type that mentions it
+			if t == nil {
+				return c.ToLLVMType(c.context.UnwrapAnonymous(el))
+			}
 			return t.llvmType
 		}
 
-- 
2.43.0


From ab575b27c9517e1b9ef5353da6b9ef4201afbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 078/148] fix: a global variable with the name of a function is
 refused

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 232cfee..156064a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -564,6 +564,14 @@ func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationState
 
 	s.expectConstantExpression = false
 
+	if s.currentFunctionBeingAnalyzed == nil {
+		if defined := s.variables.Get(declaration.Name); defined != nil {
+			if function, ok := defined.Type.(*ctypes.Function); ok && function.Name == declaration.Name {
+				s.error("the function '"+ast.RetrieveID(declaration.Name)+"' is already defined", declaration.Token)
+			}
+		}
+	}
+
 	if ctypes.VoidType == ctype {
 		s.errorWithStatement("you can't declare a void variable", declaration.Token)
 		return
-- 
2.43.0


From 49c7ed5b1c7e7b7219e64ca60fc5365658e83f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 079/148] fix: function types kept the names of the module that
 wrote them

They meant something else, or nothing, in the modules that used them; instances of generic modules also confused function types whose structs share a name
---
 internals/semantic/semantic.go | 43 +++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 156064a..28e5076 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -360,7 +360,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	}
 
 	if fun.Return != nil {
-		s.replaceAnonymous(fun.Return)
+		fun.Return = s.replaceAnonymous(fun.Return)
 	}
 }
 
@@ -510,6 +510,8 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				"Recursive type detected",
 				statementType.Token,
 			)
+		} else if ctypes.IsFunction(unwrappedType) {
+			s.replaceAnonymous(t)
 		}
 		statementType.Type.Fields[i] = t
 	}
@@ -537,6 +539,8 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				"Recursive type detected",
 				statementType.Token,
 			)
+		} else if ctypes.IsFunction(unwrappedType) {
+			s.replaceAnonymous(t)
 		}
 		statementType.Type.Fields[i] = t
 	}
@@ -686,6 +690,24 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return t
 	}
 
+	// The names inside of a function type only mean something in the module that writes them
+	if function, ok := t.(*ctypes.Function); ok && toSwap == ctypes.TODO() {
+		for i, parameter := range function.Parameters {
+			function.Parameters[i] = s.replaceAnonymous(parameter)
+		}
+		if function.Return != nil {
+			function.Return = s.replaceAnonymous(function.Return)
+		}
+		return function
+	}
+
+	if list, ok := t.(*ctypes.TypeList); ok && toSwap == ctypes.TODO() {
+		for i, element := range list.Types {
+			list.Types[i] = s.replaceAnonymous(element)
+		}
+		return list
+	}
+
 	if toSwap == ctypes.TODO() {
 		trueType := s.UnwrapAnonymous(t)
 		if _, ok := trueType.(*ctypes.Anonymous); (ok && trueType == t) || trueType == nil {
@@ -1357,6 +1379,25 @@ func typeIdentity(t ctypes.Type) string {
 		return t.Name
 	case *ctypes.Anonymous:
 		return t.Name
+	case *ctypes.Function:
+		identity := strings.Builder{}
+		identity.WriteString("func(")
+		for _, parameter := range t.Parameters {
+			identity.WriteString(typeIdentity(parameter))
+			identity.WriteByte(',')
+		}
+		identity.WriteByte(')')
+		if t.Return != nil {
+			identity.WriteString(typeIdentity(t.Return))
+		}
+		return identity.String()
+	case *ctypes.TypeList:
+		identity := strings.Builder{}
+		for _, element := range t.Types {
+			identity.WriteString(typeIdentity(element))
+			identity.WriteByte(',')
+		}
+		return identity.String()
 	}
 
 	return t.String()
-- 
2.43.0


From bd3a47031c6438e704fdfa1609d653264311a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 080/148] fix: more than one main function in the imported
 files is refused

They became one function with two entries
---
 internals/semantic/semantic.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 28e5076..73828af 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -163,6 +163,9 @@ func (s *Semantic) Analyze(program *ast.Program) {
 	s.checkRecursiveTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
+	if s.countMainFunctions(map[*Semantic]bool{}) > 1 {
+		s.error("the function 'main' is defined by more than one of the imported files", program.GetToken())
+	}
 	if len(s.Errors) > 0 {
 		return
 	}
@@ -175,6 +178,22 @@ func (s *Semantic) Analyze(program *ast.Program) {
 	}
 }
 
+// countMainFunctions counts the main functions of this module and of everything it imports,
+// they all would have the same name in the compiled program
+func (s *Semantic) countMainFunctions(visited map[*Semantic]bool) int {
+	visited[s] = true
+	count := 0
+	if s.variables.Get("main") != nil {
+		count++
+	}
+	for _, imported := range s.importedModules {
+		if !visited[imported] {
+			count += imported.countMainFunctions(visited)
+		}
+	}
+	return count
+}
+
 func (s *Semantic) TranslateName(name string) string {
 	return ast.CreateIdentifier(ast.RetrieveID(name), s.Root.ID)
 }
-- 
2.43.0


From 9f59dc2da8624fb3b533b38996f906ee87651a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 081/148] fix: a union was accepted where one of its fields is
 expected, and fields behind arrays and functions where unions are

---
 internals/semantic/semantic.go | 34 ++--------------------------------
 1 file changed, 2 insertions(+), 32 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 73828af..1094d54 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -825,42 +825,12 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 		return s.existsTypeInUnion(union, second)
 	}
 
-	if union, isUnion := second.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, first)
-	}
-
-	if s.checkPossibleCommaTypeEquality(first, second) {
-		return true
-	}
-
 	if ctypes.IsPointer(first) && ctypes.IsPointer(second) {
 		return s.areTypesEqualIncludingUnions(first.(*ctypes.Pointer).Inner, second.(*ctypes.Pointer).Inner)
 	}
 
-	if firstFunc, ok := first.(*ctypes.Function); ok {
-		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
-			return false
-		}
-		for i, param := range firstFunc.Parameters {
-			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
-				return false
-			}
-		}
-		return s.areTypesEqualIncludingUnions(firstFunc.Return, secondFunc.Return)
-	}
-
-	if ctypes.IsArray(first) {
-		fArray := first.(*ctypes.Array)
-		sArray, ok := second.(*ctypes.Array)
-		if !ok {
-			return false
-		}
-
-		return fArray.Length == sArray.Length && s.areTypesEqualIncludingUnions(fArray.Inner, sArray.Inner)
-	}
-
-	return false
+	// A union is not coerced into one of its fields, and what is behind arrays and functions can't be coerced
+	return s.areTypesEqual(first, second)
 }
 
 func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
-- 
2.43.0


From e2761d5c5f60d837c0274fc0acba4c83b3e74eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 082/148] fix: assigning to a declared function is refused

---
 internals/semantic/semantic.go       | 10 +++++++++-
 internals/semantic/semantic_steps.go |  2 +-
 internals/semantic/semantic_type.go  |  8 ++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1094d54..2e9bda5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -313,7 +313,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
-	s.variables.Add(funk.Name, s.newType(funk))
+	s.variables.Add(funk.Name, s.newFunctionType(funk))
 }
 
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
@@ -1079,6 +1079,10 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		if identifierType.IsFunction && s.expectNonConstantExpression {
+			s.errorWithStatement("you are trying to mutate a function, '"+identifier.String()+"' is not a variable", identifier.Token)
+		}
+
 		// constants are known at compile time, there is nothing to capture
 		if !identifierType.IsConstant && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
 			s.captureVariable(identifier.Name, identifierType.parentFunction)
@@ -1231,6 +1235,10 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
 	}
 
+	if accessedElement.IsFunction && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a function, '"+binaryOp.String()+"' is not a variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 660bb89..0efd113 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -107,7 +107,7 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				if s.variables.Get(t.FunctionType.Name) != nil {
 					s.error("the function '"+ast.RetrieveID(t.FunctionType.Name)+"' is already defined", t.Token)
 				}
-				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
+				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
 		case *ast.MacroBlock:
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..06f832c 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -11,6 +11,14 @@ type SemanticType struct {
 	parentFunction *ctypes.Function
 	Type           ctypes.Type
 	IsConstant     bool
+	// IsFunction tells that this is a declared function, and not a variable that holds one
+	IsFunction bool
+}
+
+func (s *Semantic) newFunctionType(t ctypes.Type) *SemanticType {
+	functionType := s.newType(t)
+	functionType.IsFunction = true
+	return functionType
 }
 
 func (s *Semantic) newType(t ctypes.Type) *SemanticType {
-- 
2.43.0


From df85b946cac0f685168ca910ad61a48acb95bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 083/148] fix: incrementing what is not stored anywhere is
 refused

---
 internals/semantic/semantic.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2e9bda5..dfdfcbe 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1160,6 +1160,10 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
 		}
 
+		if !isStoredExpression(prefixOperation.Right) {
+			s.errorWithStatement("you can only increment or decrement variables, elements and fields", prefixOperation.Token)
+		}
+
 		return t
 	}
 
@@ -1193,6 +1197,19 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 	return t
 }
 
+// isStoredExpression tells if the expression is stored somewhere that can be written
+func isStoredExpression(expression ast.Expression) bool {
+	switch expression := expression.(type) {
+	case *ast.Identifier, *ast.IndexAccess:
+		return true
+	case *ast.BinaryOperation:
+		return expression.Operation == ops.Dot
+	case *ast.PrefixOperation:
+		return expression.Operation == ops.Multiply
+	}
+	return false
+}
+
 func (s *Semantic) analyzeBinaryOperation(binaryOperation *ast.BinaryOperation) ctypes.Type {
 	op := binaryOperation.Operation
 	if s.isArithmetic(op) {
-- 
2.43.0


From 11f9ee4b759ee272e0666a3bee3bf73d44b59c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 084/148] fix: returning the call of a function that returns
 nothing was not valid

---
 internals/compiler/compiler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 18e03e6..5b79882 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -531,6 +531,16 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	}
 
 	toReturn := c.compileExpression(ret.Expression)
+	if ret.Type == ctypes.VoidType {
+		// the call of a function that returns nothing
+		if c.currentFunction.Name() == "main" {
+			c.block().NewRet(zero)
+			return
+		}
+		c.block().NewRet(nil)
+		return
+	}
+
 	toReturnLoaded := c.loadIfPointer(toReturn)
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
-- 
2.43.0


From ce31352202707985d0ae43fc7815ccd5aa6cc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 085/148] fix: the diagnostic of two different pointer types in
 an operation crashed

---
 internals/semantic/semantic_errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 9b3b86d..2b03227 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/node"
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/pkg/format"
@@ -175,24 +176,26 @@ func (s *Semantic) typeMismatchBlameArithmeticExpressionError(node string, binar
 }
 
 // Type mismatch for every binary operation
-func (s *Semantic) typeMismatchBlameBinaryExpressionError(node string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
+func (s *Semantic) typeMismatchBlameBinaryExpressionError(expression string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
 	s.checkDereferenceOnArithmeticErrors(binary.Left.GetType(), binary.Right.GetType(), binary, true)
 	wrongLine := s.getCurrentStatementLineFormatted()
 	// Decide which side of the operation do you want to cast
 	if blameRight {
 		binary.Right = &ast.BuiltinCall{
+			Node:           &node.Node{Type: expected, Token: binary.Right.GetToken()},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{expected},
 			Parameters:     []ast.Expression{binary.Right},
 		}
 	} else {
 		binary.Left = &ast.BuiltinCall{
+			Node:           &node.Node{Type: got, Token: binary.Left.GetToken()},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{got},
 			Parameters:     []ast.Expression{binary.Left},
 		}
 	}
-	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, node, strings.Repeat("^", len(node)), expected.String(), got.String())
+	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, expression, strings.Repeat("^", len(expression)), expected.String(), got.String())
 	if ctypes.IsNumeric(expected) && ctypes.IsNumeric(got) {
 		message += fmt.Sprintf("Try doing:\n- [%d:%d] %s\n", binary.GetToken().Line, binary.GetToken().Position, binary.String())
 	}
-- 
2.43.0


From 3ff788e67dbeb1c318a6d1037f4a30432abef643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 086/148] fix: indexing a returned pointer to an array indexed
 the array

---
 internals/compiler/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 5b79882..ff5b158 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1182,8 +1182,11 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	index := c.loadIfPointer(c.compileExpression(access.Access))
 	index = c.extendIndex(index, access.Access.GetType())
 
+	// A pointer to an array that has just been returned is not an array that is stored in memory
+	isReturnedPointer := doNotLoadLeftArray && ctypes.IsPointer(access.Left.GetType())
+
 	// If it's an array do not load into memory, just calculate offset
-	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
+	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) && !isReturnedPointer {
 		// zero as first offset because we are calculating first pointer, then index
 		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)
 		element.InBounds = true
-- 
2.43.0


From c97ec40af15b981f910727b15a21b64014fee546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 087/148] fix: the prefix + was accepted but not compiled

---
 internals/compiler/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ff5b158..4f5d09e 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1019,6 +1019,10 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		return prefixValue
 	}
 
+	if prefix.Operation == ops.Add {
+		return c.loadIfPointer(prefixValue)
+	}
+
 	if prefix.Operation == ops.Bang {
 		return c.block().NewICmp(enum.IPredEQ, c.toBool(c.loadIfPointer(prefixValue)), zero)
 	}
-- 
2.43.0


From 97b25ac234bf06c46b40c1d3560c058b8d19e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 088/148] fix: a cast to a pointer to an unknown type was
 accepted and the compiler did not end

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 6948a8e..8f09976 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -22,7 +22,7 @@ func (s *Semantic) analyzeAddCompilerFlag(addCompilerFlag *ast.BuiltinCall) ctyp
 func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
-	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
+	toType := s.UnwrapAnonymous(s.replaceAnonymous(castCall.TypeParameters[0]))
 	castCall.TypeParameters[0] = toType
 	if ctypes.IsPointer(toType) || ctypes.IsPointer(currentType) {
 		s.throwInvalidOperationForConstant("you can't cast pointers, ", castCall)
-- 
2.43.0


From 8e39b3cd10e612c2ca1f2aceeefb059644aac6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 089/148] fix: declaring a void variable together with others
 is refused

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index dfdfcbe..712f1f2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1672,6 +1672,10 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	for i := range typeList.Types {
 		typeList.Types[i] = s.replaceAnonymous(typeList.Types[i])
 		typeList.Types[i] = s.UnwrapAnonymous(typeList.Types[i])
+		if typeList.Types[i] == ctypes.VoidType {
+			s.errorWithStatement("you can't declare a void variable", m.Token)
+			return
+		}
 	}
 
 	// Check if declaration is forcing the types
-- 
2.43.0


From 29501121a31c0640e3b4e1a518727ab034b05558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 090/148] fix: a return outside of a function is refused

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 712f1f2..806156e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -500,6 +500,7 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 }
 
 func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement) {
+	s.expectStatementInsideFunction(returnStatement.Token)
 	theType := s.UnwrapAnonymous(s.analyzeExpression(returnStatement.Expression))
 	if !s.areTypesEqual(theType, s.currentExpectedReturnType) {
 		s.typeMismatchError(returnStatement.String(), returnStatement.Expression, returnStatement.Token, s.currentExpectedReturnType, theType)
-- 
2.43.0


From 1b0a57274c25a7c1aca9458dad864594ec219f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 091/148] fix: casting a returned pointer to an array to a
 number was not valid

---
 internals/compiler/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4f5d09e..12a7b9a 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1682,9 +1682,11 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	typeParameter := call.TypeParameters[0]
 	toReturnType := c.ToLLVMType(typeParameter)
 	variable := c.compileExpression(call.Parameters[0])
+	// A pointer to an array that has just been returned is not an array that is stored in memory
+	isReturnedPointer := c.doNotLoadIntoMemory && ctypes.IsPointer(call.Parameters[0].GetType())
 
 	// TODO: Array to integer
-	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) {
+	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) && !isReturnedPointer {
 		// We don't want people to take this pointer and load it into memory
 		// Test this because I'm not sure if this works!
 		c.doNotLoadIntoMemory = true
-- 
2.43.0


From 495ae7d5f198c21429e375865d5c7850c873f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 092/148] fix: a zero byte ended the program silently

---
 internals/lexer/lexer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 6a4e231..59b89e9 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -44,7 +44,7 @@ func (l *Lexer) skipWhiteSpace() {
 }
 
 func (l *Lexer) skipUntilJL() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.atEnd() {
 		l.readChar()
 	}
 	l.readChar()
@@ -220,6 +220,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '}':
 		tok = l.newToken(token.RBRACE, l.ch)
 	case 0:
+		if !l.atEnd() {
+			tok = l.newToken(token.ILLEGAL, l.ch)
+			break
+		}
 		tok.Line = l.line
 		tok.Position = l.column
 		tok.OverallPosition = l.position
@@ -259,7 +263,7 @@ func (l *Lexer) parseNumericToken() token.Token {
 func (l *Lexer) readString() string {
 	s := []byte{}
 	l.readChar()
-	for l.ch != '"' && l.ch != 0 {
+	for l.ch != '"' && !l.atEnd() {
 		if l.ch == '\\' {
 			// It's a jumpline
 			if l.peekChar() == 'n' {
@@ -367,6 +371,11 @@ func (l *Lexer) readChar() {
 	l.ch = l.input[l.readPosition]
 }
 
+// atEnd tells the end of the input from a zero byte of the input
+func (l *Lexer) atEnd() bool {
+	return l.position >= len(l.input)
+}
+
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
 		return 0
-- 
2.43.0


From 8eec257c0c4e70943f188badd25482c5391f13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 093/148] fix: a string without a closing quote was accepted

---
 internals/lexer/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 59b89e9..d600810 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -172,6 +172,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '"':
 		tok.Type = token.STRING
 		tok.Literal = l.readString()
+		if l.atEnd() {
+			// the closing quote is missing
+			tok.Type = token.ILLEGAL
+		}
 		tok.Line = l.line
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
-- 
2.43.0


From ea20d3a8667b4efeb5f4e4fec4d196c08c7a678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 094/148] fix: lines after an escaped jumpline or a jumpline
 character were miscounted

---
 internals/lexer/lexer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index d600810..681ade9 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -106,6 +106,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
+		l.countLine()
 		l.readChar()
 		if c == 'n' {
 			c = '\n'
@@ -116,6 +117,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		}
 		literal = c
 	} else {
+		l.countLine()
 		literal = l.ch
 		l.readChar()
 	}
@@ -279,16 +281,16 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
+			if l.atEnd() {
+				break
+			}
+			l.countLine()
 			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
-
+		l.countLine()
 		s = append(s, l.ch)
 		l.readChar()
 	}
@@ -375,6 +377,14 @@ func (l *Lexer) readChar() {
 	l.ch = l.input[l.readPosition]
 }
 
+// countLine starts a new line if the current character is a jumpline
+func (l *Lexer) countLine() {
+	if l.ch == '\n' {
+		l.line++
+		l.column = 1
+	}
+}
+
 // atEnd tells the end of the input from a zero byte of the input
 func (l *Lexer) atEnd() bool {
 	return l.position >= len(l.input)
-- 
2.43.0


From 08f93baf23ef5510ecca35fa2943c902327ad5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 095/148] fix: declaring several variables with something that
 is not a name crashed

---
 internals/parser/parser_assignment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..13d7c63 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -45,6 +45,14 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 	}
 
 	if commaExpr, ok := expr.(*ast.CommaExpressions); ok && p.currentToken.Type == token.COLON {
+		for _, name := range commaExpr.Expressions {
+			if _, isIdentifier := name.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("expected the name of a variable, got " + name.String())
+				commaExpr.Expressions = nil
+				break
+			}
+		}
+
 		declToken := p.nextToken()
 		var t ctypes.Type = ctypes.TODO()
 		if token.ASSIGN != p.currentToken.Type {
-- 
2.43.0


From 2163e12c5e54e46d4ca96a92843d302e1d3b4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 096/148] fix: assigning to several targets accepted
 expressions that are not stored

---
 internals/parser/parser_assignment.go | 40 +++++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 13d7c63..a66ccad 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -7,28 +7,38 @@ import (
 	"github.com/gabivlj/candice/internals/token"
 )
 
+// checkAssignmentTarget checks that the expression can be on the left side of an assignment
+func (p *Parser) checkAssignmentTarget(target ast.Expression) {
+	switch left := target.(type) {
+	case *ast.BinaryOperation:
+		if left.Operation != ops.Dot {
+			p.addErrorMessage("this operation is not permitted in an assignment")
+		}
+	case *ast.IndexAccess:
+	case *ast.PrefixOperation:
+		if left.Operation != ops.Multiply {
+			p.addErrorMessage("this prefix is not permitted in an assignment")
+		}
+	case *ast.Identifier:
+	default:
+		{
+			p.addErrorMessage("this operation is not permitted in an assignment")
+		}
+	}
+}
+
 func (p *Parser) parsePossibleAssignment() ast.Statement {
 	expr := p.parseExpression(0)
 	// log.Println(expr)
 	if bin, ok := expr.(*ast.BinaryOperation); ok {
 		if bin.Operation == ops.TempAssign {
-			switch left := bin.Left.(type) {
-			case *ast.BinaryOperation:
-				if left.Operation != ops.Dot {
-					p.addErrorMessage("this operation is not permitted in an assignment")
-				}
-			case *ast.CommaExpressions:
+			if left, isMultiple := bin.Left.(*ast.CommaExpressions); isMultiple {
 				left.IsAssignment = true
-			case *ast.IndexAccess:
-			case *ast.PrefixOperation:
-				if left.Operation != ops.Multiply {
-					p.addErrorMessage("this prefix is not permitted in an assignment")
-				}
-			case *ast.Identifier:
-			default:
-				{
-					p.addErrorMessage("this operation is not permitted in an assignment")
+				for _, target := range left.Expressions {
+					p.checkAssignmentTarget(target)
 				}
+			} else {
+				p.checkAssignmentTarget(bin.Left)
 			}
 
 			return &ast.AssignmentStatement{
-- 
2.43.0


From e82f84909ef5745b62bc408eeff167f30d6cc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 097/148] fix: a broken extern inside of an expression crashed
 the parser

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 6429fbf..e97ad86 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -1150,7 +1150,7 @@ func (p *Parser) parseExtern() ast.Statement {
 
 	if _, ok := t.(*ctypes.Function); !ok {
 		p.addErrorMessage("expected external function, got " + t.String())
-		return &ast.ExternStatement{}
+		return &ast.ExternStatement{Token: extern, Type: t}
 	}
 
 	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
-- 
2.43.0


From 00ad47dace5f502dd1e2dab2c3f0602ad4f234ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 098/148] fix: an unknown field in the literal of a struct
 without fields crashed

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 806156e..85a2711 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -978,6 +978,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
-- 
2.43.0


From 787131d74f37247f343ae021a80fca025ffd7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 099/148] fix: the negation of a boolean crashed the compiler

---
 internals/compiler/compiler.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 12a7b9a..d6cf9f2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -968,15 +968,12 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 	prefixValue := c.compileExpression(prefix.Right)
 	if prefix.Operation == ops.Subtract {
 		prefixValue = c.loadIfPointer(prefixValue)
-		var negativeOne value.Value
 		if ctypes.IsFloat(prefix.GetType()) {
-			negativeOne = constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
+			negativeOne := constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
-- 
2.43.0


From efc7204e42e1bb2c770c97bf59fa3cc71eec4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 100/148] fix: a method that is not called crashed the compiler

---
 internals/semantic/semantic.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 85a2711..7238b4d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -59,6 +59,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// the expression on the left of the call that is being analyzed
+	calledExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -1015,6 +1018,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	expectNonConstant := s.expectNonConstantExpression
 	s.expectNonConstantExpression = false
 	defer func() { s.expectNonConstantExpression = expectNonConstant }()
+	s.calledExpression = call.Left
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1320,8 +1324,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethod(binaryOperation, fn)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
@@ -1333,8 +1336,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethod(binaryOperation, fn)
 		}
 	}
 
@@ -1366,14 +1368,24 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		s.additionalExpression = binaryOperation.Left
-		return variable.Type
+		return s.analyzeMethod(binaryOperation, fn)
 	}
 
 	binaryOperation.Type = t
 	return t
 }
 
+// analyzeMethod is the access to a function with its first parameter on the left of the dot, which needs to be called
+func (s *Semantic) analyzeMethod(access *ast.BinaryOperation, fn *ctypes.Function) ctypes.Type {
+	if s.calledExpression != access {
+		s.errorWithStatement("expected a call of the function "+access.String(), access.Token)
+		return ctypes.TODO()
+	}
+
+	s.additionalExpression = access.Left
+	return fn
+}
+
 func (s *Semantic) isArithmetic(op ops.Operation) bool {
 	return op == ops.OR || op == ops.Multiply || op == ops.BinaryXOR || op == ops.BinaryOR ||
 		op == ops.BinaryAND || op == ops.AND || op == ops.Add || op == ops.Subtract || op == ops.LessThanEqual ||
-- 
2.43.0


From 72af3e5f5946268c540319d01b70284bdb0ba434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 101/148] fix: the address of a call that returns nothing was
 accepted

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7238b4d..c124b6a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1183,6 +1183,9 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 
 	if prefixOperation.Operation == ops.BinaryAND {
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
+		if t == ctypes.VoidType {
+			s.errorWithStatement("you can't ref an expression that doesn't return anything", prefixOperation.Token)
+		}
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
-- 
2.43.0


From 1c908c6dc3371ab3674085237a7f49ed7a046d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 102/148] fix: printing a call that returns nothing was
 accepted

---
 internals/semantic/semantic_builtin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 8f09976..343b7de 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -67,7 +67,9 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		if s.analyzeExpression(param) == ctypes.VoidType {
+			s.errorWithStatement("you can't print an expression that doesn't return anything", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From 88e42fe81e1bd5dd4aac0937845659cbfce03c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 103/148] fix: main as a value crashed the compiler, its
 signature is not the declared one

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c124b6a..bd68d15 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1085,6 +1085,10 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		if identifierType.IsFunction && identifier.Name == "main" && s.calledExpression != identifier {
+			s.errorWithStatement("the main function can only be called", identifier.Token)
+		}
+
 		if identifierType.IsFunction && s.expectNonConstantExpression {
 			s.errorWithStatement("you are trying to mutate a function, '"+identifier.String()+"' is not a variable", identifier.Token)
 		}
-- 
2.43.0


From 844435857da3a79a5bd5105647e6a95bd32389f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 104/148] fix: a module as a value crashed the compiler

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index bd68d15..5d1627d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -62,6 +62,9 @@ type Semantic struct {
 	// the expression on the left of the call that is being analyzed
 	calledExpression ast.Expression
 
+	// the expression on the left of the dot that is being analyzed
+	accessedExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -1070,6 +1073,10 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if module, ok := s.modules[identifier.Name]; ok {
+		if s.accessedExpression != identifier {
+			s.errorWithStatement("a module is not a value, "+ast.RetrieveID(identifier.Name), identifier.Token)
+			return ctypes.TODO()
+		}
 		identifier.Type = module
 		return module
 	}
@@ -1308,6 +1315,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 }
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	s.accessedExpression = binaryOperation.Left
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
-- 
2.43.0


From 6e95e7c071059e50ae82ad40557205f15d3c0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 105/148] fix: a method of the result of a call has its call
 around it

---
 internals/semantic/semantic.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5d1627d..e48d29b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1315,6 +1315,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 }
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	isCalled := s.calledExpression == binaryOperation
 	s.accessedExpression = binaryOperation.Left
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
@@ -1339,7 +1340,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			return s.analyzeMethod(binaryOperation, fn)
+			return s.analyzeMethod(binaryOperation, fn, isCalled)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
@@ -1351,7 +1352,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			return s.analyzeMethod(binaryOperation, fn)
+			return s.analyzeMethod(binaryOperation, fn, isCalled)
 		}
 	}
 
@@ -1383,7 +1384,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		return s.analyzeMethod(binaryOperation, fn)
+		return s.analyzeMethod(binaryOperation, fn, isCalled)
 	}
 
 	binaryOperation.Type = t
@@ -1391,8 +1392,8 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 }
 
 // analyzeMethod is the access to a function with its first parameter on the left of the dot, which needs to be called
-func (s *Semantic) analyzeMethod(access *ast.BinaryOperation, fn *ctypes.Function) ctypes.Type {
-	if s.calledExpression != access {
+func (s *Semantic) analyzeMethod(access *ast.BinaryOperation, fn *ctypes.Function, isCalled bool) ctypes.Type {
+	if !isCalled {
 		s.errorWithStatement("expected a call of the function "+access.String(), access.Token)
 		return ctypes.TODO()
 	}
-- 
2.43.0


From bd3e6f52f7ab6af97c81bad4a0bc8b2109eaa859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 106/148] fix: using the result of a later function that
 returns nothing crashed

---
 internals/semantic/semantic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e48d29b..11185df 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -386,6 +386,8 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 
 	if fun.Return != nil {
 		fun.Return = s.replaceAnonymous(fun.Return)
+	} else {
+		fun.Return = ctypes.VoidType
 	}
 }
 
-- 
2.43.0


From 1019cfdf8759e8e1be85f5c4bafef5e7c3700742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 107/148] fix: a call that returns nothing was accepted in a
 list of expressions

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 11185df..5e8f825 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -951,6 +951,9 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 	for _, expression := range commaExpressions.Expressions {
 		t := s.analyzeExpression(expression)
 		t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+		if t == ctypes.VoidType {
+			s.errorWithStatement("this expression doesn't return anything "+expression.String(), commaExpressions.Token)
+		}
 		commaExpressionsType.Types = append(commaExpressionsType.Types, t)
 	}
 
-- 
2.43.0


From 75e0fe0aa9616368fa526b1cbbb4a85adb94e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 108/148] fix: an extern with an unknown type crashed the
 compiler

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5e8f825..912cd83 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -319,6 +319,10 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
+	for i, param := range funk.Parameters {
+		funk.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+	}
+	funk.Return = s.replaceAnonymous(s.UnwrapAnonymous(funk.Return))
 	s.variables.Add(funk.Name, s.newFunctionType(funk))
 }
 
-- 
2.43.0


From 00a07fe5236227fa117da09702207c7f4cc65300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 109/148] fix: processing a document without a line changed the
 document

---
 internals/autocomplete/state/state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/autocomplete/state/state.go b/internals/autocomplete/state/state.go
index 7db03ae..2d7e958 100644
--- a/internals/autocomplete/state/state.go
+++ b/internals/autocomplete/state/state.go
@@ -26,7 +26,8 @@ func (s *State) ProcessExcept(line int) {
 		line = len(s.text)
 	}
 
-	text := s.text[:line]
+	// A copy, appending to a slice of the document would overwrite its lines
+	text := append([]string{}, s.text[:line]...)
 	if line+1 < len(s.text) {
 		text = append(text, s.text[line+1:]...)
 	}
-- 
2.43.0


From 0e4c5def6a26ceb0283dae0501ef3710eabd6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 110/148] fix: the diagnostic of an unknown type listed the
 types in a random order

---
 internals/semantic/semantic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 912cd83..7b790ac 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -675,10 +676,12 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 
 		t, ok := semantic.definedTypes[name]
 		if !ok {
-			typesDefined := ""
+			names := make([]string, 0, len(semantic.definedTypes))
 			for _, t := range semantic.definedTypes {
-				typesDefined += "- " + t.String() + "\n"
+				names = append(names, "- "+t.String()+"\n")
 			}
+			sort.Strings(names)
+			typesDefined := strings.Join(names, "")
 
 			if typesDefined == "" {
 				typesDefined = "No types defined in the module."
-- 
2.43.0


From 809acac13298b17065188d560e46afb52ed40499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 111/148] fix: the tree of a multiple declaration crashed the
 tree printer

---
 internals/tree_printer/printer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 77c5ce0..8c772ed 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -211,7 +211,13 @@ func Process(statement ast.Statement) string {
 
 	case *ast.MultipleDeclarationStatement:
 		{
-			panic("unimplemented")
+			var strings []string
+			for _, name := range t.Names {
+				strings = append(strings, ast.RetrieveID(name))
+			}
+
+			strings = append(strings, processExpression(t.Expression))
+			return ConnectString("ast.MultipleDeclarationStatement", strings)
 		}
 	}
 
-- 
2.43.0


From ede0d9bd7018e261b11a4cf23c63b6b2ba7d67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 112/148] fix: the tree of a program left out block expressions

---
 internals/tree_printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 8c772ed..8857c89 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -347,6 +347,11 @@ func processExpression(expression ast.Expression) string {
 
 			return ConnectString("ast.CommaExpressions", expressions)
 		}
+
+	case *ast.ExpressionBlock:
+		{
+			return ConnectString("ast.ExpressionBlock", []string{t.Type.String(), Process(t.Block)})
+		}
 	}
 	return ""
 }
-- 
2.43.0


From 2a81132d3e16af9aed8b0d31f08d19e067d3cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 113/148] fix: the tree of a program with a syntax error
 crashed the tree printer

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e97ad86..248238c 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -726,7 +726,7 @@ func (p *Parser) parsePrefix() ast.Expression {
 	if !ok {
 		p.addErrorMessage("unknown token to parse on prefix")
 		p.nextToken()
-		return &ast.Integer{Value: 1}
+		return &ast.Integer{Value: 1, Node: &node.Node{Type: ctypes.I32, Token: p.currentToken}}
 	}
 
 	p.checkPrefixErrors()
-- 
2.43.0


From 63bd1657579f48cdc75606a2b5c9938447e08957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 114/148] fix: the tree of a for loop was drawn out of line

---
 internals/tree_printer/printer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 8857c89..686ecee 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -94,15 +94,15 @@ func Process(statement ast.Statement) string {
 		{
 			var strings []string
 			if t.InitializerStatement != nil {
-				strings = append(strings, "initializer: "+Process(t.InitializerStatement))
+				strings = append(strings, ConnectString("ast.Initializer", []string{Process(t.InitializerStatement)}))
 			}
 
 			if t.Condition != nil {
-				strings = append(strings, "condition: "+processExpression(t.Condition))
+				strings = append(strings, ConnectString("ast.Condition", []string{processExpression(t.Condition)}))
 			}
 
 			if t.Operation != nil {
-				strings = append(strings, "operation: "+Process(t.Operation))
+				strings = append(strings, ConnectString("ast.Operation", []string{Process(t.Operation)}))
 			}
 
 			strings = append(strings, Process(t.Block))
-- 
2.43.0


From aa9c2e4b609b46bf5741379e095c5f9c1ece715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 115/148] fix: the tree left out the names of structs, unions
 and modules and the types of variables

---
 internals/tree_printer/printer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 686ecee..8fa1e60 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -52,7 +52,12 @@ func Process(statement ast.Statement) string {
 
 	case *ast.DeclarationStatement:
 		{
-			return ConnectString("ast.DeclarationStatement", []string{ast.RetrieveID(t.Name), processExpression(t.Expression)})
+			strings := []string{ast.RetrieveID(t.Name)}
+			if t.Type != nil && t.Type.String() != "" {
+				strings = append(strings, t.Type.String())
+			}
+
+			return ConnectString("ast.DeclarationStatement", append(strings, processExpression(t.Expression)))
 		}
 
 	case *ast.Block:
@@ -147,11 +152,11 @@ func Process(statement ast.Statement) string {
 
 	case *ast.ImportStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Name)}
 			for _, t := range t.Types {
 				strings = append(strings, t.String())
 			}
-			strings = append(strings, `"`+t.Path.String()+`"`)
+			strings = append(strings, t.Path.String())
 			return ConnectString("ast.ImportStatement", strings)
 		}
 
@@ -172,7 +177,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.StructStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
@@ -182,7 +187,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.UnionStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
-- 
2.43.0


From a2df54ff02fc24309daef677583dfc3fbed8af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 116/148] fix: the language server never answered requests that
 it does not know

---
 cmd/autocomplete/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/autocomplete/main.go b/cmd/autocomplete/main.go
index 7e6f1a6..8eb9632 100644
--- a/cmd/autocomplete/main.go
+++ b/cmd/autocomplete/main.go
@@ -54,6 +54,7 @@ func main() {
 			return err
 		} else if err == server.ErrHandlerForThisMethodDoesNotExist {
 			log.Println("method", req.Method(), "doesn't have a handler")
+			return reply(ctx, nil, jsonrpc2.ErrMethodNotFound)
 		}
 
 		return nil
-- 
2.43.0


From 6b815043a6782d4fc6fa08dc2cb19f1d5b2ef3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 117/148] fix: the language server never answered a request
 whose handler panics

---
 cmd/autocomplete/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/autocomplete/main.go b/cmd/autocomplete/main.go
index 8eb9632..4f0cafa 100644
--- a/cmd/autocomplete/main.go
+++ b/cmd/autocomplete/main.go
@@ -40,6 +40,7 @@ func main() {
 			e := recover()
 			if e != nil {
 				log.Println("recovered panic:", e)
+				reply(ctx, nil, jsonrpc2.ErrInternal)
 			}
 		}()
 
-- 
2.43.0


From 83f2230c9329c6eabfbdd1443445ffb0a658414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 118/148] fix: malformed parameters of a change ended the
 language server

---
 internals/autocomplete/server/on_change.go | 13 ++++++++++---
 internals/autocomplete/server/server.go    |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internals/autocomplete/server/on_change.go b/internals/autocomplete/server/on_change.go
index 4c0d78b..7a99604 100644
--- a/internals/autocomplete/server/on_change.go
+++ b/internals/autocomplete/server/on_change.go
@@ -1,15 +1,18 @@
 package server
 
 import (
+	"context"
 	"encoding/json"
+	"fmt"
 	"log"
 	"os"
 
 	"github.com/gabivlj/candice/internals/tree_printer"
+	"go.lsp.dev/jsonrpc2"
 	"go.lsp.dev/protocol"
 )
 
-func (c *Connection) onChange() error {
+func (c *Connection) onChange(ctx context.Context) error {
 	js := c.req.Params()
 	bytes, err := js.MarshalJSON()
 	if err != nil {
@@ -18,11 +21,15 @@ func (c *Connection) onChange() error {
 
 	var parameters protocol.DidChangeTextDocumentParams
 	if err = json.Unmarshal(bytes, &parameters); err != nil {
-		return err
+		return c.reply(ctx, nil, fmt.Errorf("%w: %s", jsonrpc2.ErrInvalidParams, err))
+	}
+
+	if len(parameters.ContentChanges) == 0 {
+		return c.reply(ctx, nil, nil)
 	}
 
 	txt := parameters.ContentChanges[0].Text
 	log.Println(txt)
 	log.Println("possible error writing output", tree_printer.WriteOutput(txt, os.Stderr))
-	return nil
+	return c.reply(ctx, nil, nil)
 }
diff --git a/internals/autocomplete/server/server.go b/internals/autocomplete/server/server.go
index 985fba9..c9d4a5b 100644
--- a/internals/autocomplete/server/server.go
+++ b/internals/autocomplete/server/server.go
@@ -34,8 +34,8 @@ func (c *Connection) HandleConnection(ctx context.Context) error {
 }
 
 func InitializeHandlers() {
-	handlers[protocol.MethodTextDocumentDidChange] = func(_ context.Context, c *Connection) error {
-		return c.onChange()
+	handlers[protocol.MethodTextDocumentDidChange] = func(ctx context.Context, c *Connection) error {
+		return c.onChange(ctx)
 	}
 
 	handlers[protocol.MethodInitialize] = func(ctx context.Context, c *Connection) error {
-- 
2.43.0


From 3c571a8abb0deaf90adf6d2c1a38ebb38118f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 119/148] fix: the language server took the first of several
 changes of a document for the last

---
 internals/autocomplete/server/on_change.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/autocomplete/server/on_change.go b/internals/autocomplete/server/on_change.go
index 7a99604..10119e4 100644
--- a/internals/autocomplete/server/on_change.go
+++ b/internals/autocomplete/server/on_change.go
@@ -28,7 +28,8 @@ func (c *Connection) onChange(ctx context.Context) error {
 		return c.reply(ctx, nil, nil)
 	}
 
-	txt := parameters.ContentChanges[0].Text
+	// They are applied in order and each has the full text
+	txt := parameters.ContentChanges[len(parameters.ContentChanges)-1].Text
 	log.Println(txt)
 	log.Println("possible error writing output", tree_printer.WriteOutput(txt, os.Stderr))
 	return c.reply(ctx, nil, nil)
-- 
2.43.0


From 9403deb5894e0124cf934f53ca89cfa0ed6903d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 120/148] fix: the diagnostic of an alias showed an internal
 name that is another one each time

---
 internals/ast/statements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 5a56b5c..b96cf9e 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -321,7 +321,7 @@ type GenericTypeDefinition struct {
 
 func (g *GenericTypeDefinition) statementNode() {}
 
-func (g *GenericTypeDefinition) String() string        { return g.Name }
+func (g *GenericTypeDefinition) String() string        { return RetrieveID(g.Name) }
 func (g *GenericTypeDefinition) GetToken() token.Token { return g.Token }
 
 type TypeDefinition struct {
@@ -332,7 +332,7 @@ type TypeDefinition struct {
 
 func (g *TypeDefinition) statementNode() {}
 
-func (g *TypeDefinition) String() string { return fmt.Sprintf("type %s = %s", g.Name, g.Type.String()) }
+func (g *TypeDefinition) String() string { return fmt.Sprintf("type %s = %s", RetrieveID(g.Name), g.Type.String()) }
 
 func (g *TypeDefinition) GetToken() token.Token { return g.Token }
 
-- 
2.43.0


From 887e10e6bf31912aacd0fef5d48c28e5fa2c4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 121/148] fix: candice ended with success after a diagnostic

---
 internals/build/builder.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index d15cc31..79e6e39 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -43,7 +43,7 @@ func ExecuteProject() {
 	Flags:
 		--release - Create or runs an optimized build of the project (run, build).
 		`)
-		return
+		os.Exit(1)
 	}
 
 	if flags.Mode == "init" {
@@ -55,11 +55,12 @@ func ExecuteProject() {
 		bytes, err := os.ReadFile(flags.Path)
 		if err != nil {
 			logger.Error("File", err.Error())
-			return
+			os.Exit(1)
 		}
 
 		if err := tree_printer.WriteOutput(string(bytes), os.Stdout); err != nil {
 			logger.Error("Generating AST", err.Error())
+			os.Exit(1)
 		}
 		return
 	}
@@ -68,14 +69,14 @@ func ExecuteProject() {
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	codeEntryPoint, err := os.ReadFile(config.EntryPoint)
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	p := parser.New(lexer.New(string(codeEntryPoint)))
@@ -84,7 +85,7 @@ func ExecuteProject() {
 		for _, err := range p.Errors {
 			logger.Error("Parsing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 	s := semantic.New()
 	s.Analyze(tree)
@@ -97,7 +98,7 @@ func ExecuteProject() {
 		for _, err := range s.Errors {
 			logger.Error("Analyzing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 
 	c := compiler.New(s)
@@ -120,25 +121,25 @@ func ExecuteProject() {
 		err := c.GenerateExecutableExperimental(config.Output, config.CXX, config.CompilerFlags, flags.Release, config.BinaryKind != Object)
 		if err != nil {
 			logger.Error("Internally At Compile Time", err.Error())
-			return
+			os.Exit(1)
 		}
 
 	} else if config.CompileKind == CXX {
 		err := c.GenerateExecutableCXX(config.Output, config.CXX, config.CompilerFlags)
 		if err != nil {
 			logger.Error("Internally At Compile Time", err.Error())
-			return
+			os.Exit(1)
 		}
 
 	} else {
 		logger.Error("Configuration", "Unknown compiling kind, use either 'llvm' or 'cxx'.")
-		return
+		os.Exit(1)
 	}
 
 	if flags.Mode == "run" {
 		if config.BinaryKind == Object {
 			logger.Error("you can't run a project that needs to an object!", "Consider setting 'binary' to 'exe' in candice.json")
-			return
+			os.Exit(1)
 		}
 
 		cmd := exec.Command("./" + config.Output)
@@ -148,6 +149,7 @@ func ExecuteProject() {
 		err := cmd.Run()
 		if err != nil {
 			fmt.Println(err)
+			os.Exit(1)
 		}
 	} else {
 		passedTime := float64(time.Now().UnixMilli() - current.UnixMilli())
@@ -166,26 +168,26 @@ func createSampleProject(basePath string) {
 	fd, err := os.Create(candiceJson)
 	if err != nil {
 		logger.Error("Setup", "error setting up candice.json", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	_, err = fd.Write([]byte(CandiceJSONDefault))
 	if err != nil {
 		logger.Error("Setup", "error setting up candice.json", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	candiceMain := path.Join(relative, basePath, "main.cd")
 	fdMain, err := os.Create(candiceMain)
 	if err != nil {
 		logger.Error("Setup", "error setting up main.cd", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	_, err = fdMain.Write([]byte(CandiceProgramDefault))
 	if err != nil {
 		logger.Error("Setup", "error setting up main.cd", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	logger.Success("Project created on path " + candiceJson + " " + "\nEnjoy coding!")
-- 
2.43.0


From 2eaf93190fd72c4a6840b215f61a43aeb72e7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 122/148] fix: a project in another directory could not be
 built or run

---
 internals/build/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index 79e6e39..a67c10b 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -66,6 +66,10 @@ func ExecuteProject() {
 	}
 
 	config, err := ParseConfigurationFile(paths.Join(flags.Path, "candice.json"))
+	if err == nil {
+		// The paths of the configuration are those of the project
+		err = os.Chdir(flags.Path)
+	}
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-- 
2.43.0


From 65f10c7d6bf1a757ca6ce7578a4beb84dc40fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 123/148] fix: the kind llvm made no object file where there is
 no native backend

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index d6cf9f2..7db1379 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -282,7 +282,8 @@ func (c *Compiler) GenerateExecutableExperimental(output string, cxx string, fla
 		return err
 	}
 
-	if !link {
+	// Without a native backend it is still the text of the module
+	if !link && pathOutput == objectOutput {
 		return err
 	}
 
-- 
2.43.0


From 4d6d482bcf2e659225a08e989a0e75cbf9e4577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 124/148] fix: the imports of an entry point in a directory
 were not relative to it

---
 internals/build/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index a67c10b..e7a62df 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -92,6 +92,9 @@ func ExecuteProject() {
 		os.Exit(1)
 	}
 	s := semantic.New()
+	if !paths.IsAbs(config.EntryPoint) {
+		s.ContextDirectoryPath = paths.Dir(config.EntryPoint)
+	}
 	s.Analyze(tree)
 
 	for _, err := range s.Warnings {
-- 
2.43.0


From 69baff52bc6ecdd183711af56fdab3ce1977f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 125/148] fix: the compiler command crashed without a file and
 ended with success after a diagnostic

---
 internals/program/program.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/program/program.go b/internals/program/program.go
index f306177..a4d83d8 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -32,11 +32,16 @@ func Init() {
 	flag.StringVar(&objectFileFlag, "o", "", "Objects to link")
 	flag.StringVar(&programName, "name", "program", "Program name")
 	flag.Parse()
+	if flag.NArg() == 0 {
+		flag.Usage()
+		os.Exit(1)
+	}
 	file := flag.Args()[0]
 	objects := strings.Split(objectFileFlag, ",")
 	code, err := os.ReadFile(file)
 	if err != nil {
 		logger.Error("", "Opening file", err.Error())
+		os.Exit(1)
 	}
 
 	p := parser.New(lexer.New(string(code)))
@@ -45,7 +50,7 @@ func Init() {
 		for _, err := range p.Errors {
 			logger.Error("Parsing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 	s := semantic.New()
 	s.Analyze(tree)
@@ -53,7 +58,7 @@ func Init() {
 		for _, err := range s.Errors {
 			logger.Error("Analyzing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 
 	c := compiler.New(s)
@@ -61,7 +66,7 @@ func Init() {
 	err = c.GenerateExecutableExperimental(programName, "clang", objects, true, true)
 	if err != nil {
 		logger.Error("Internally At Compile Time", err.Error())
-		return
+		os.Exit(1)
 	}
 	passedTime := float64(time.Now().UnixMilli() - current.UnixMilli())
 	logger.Success("BUILD SUCCESSFUL. (" + strconv.FormatFloat(passedTime/1000, 'f', 3, 64) + "s)")
-- 
2.43.0


From d63ff3ac437f595c2451bbbe78a6fb5c8e668faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 126/148] fix: a project could not be created in an absolute
 path

---
 internals/build/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index e7a62df..c7ea03f 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -171,6 +171,10 @@ func createSampleProject(basePath string) {
 		logger.Warning("internal error retrieving relative path: " + err.Error())
 	}
 
+	if path.IsAbs(basePath) {
+		relative = ""
+	}
+
 	candiceJson := path.Join(relative, basePath, "candice.json")
 	fd, err := os.Create(candiceJson)
 	if err != nil {
-- 
2.43.0


From fba97abd87233b7c19a60e978bf6cceee3402ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 127/148] fix: a variadic function was accepted as a function
 of the same declared parameters

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7b790ac..b9529d1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -800,7 +800,8 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
+			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
-- 
2.43.0


From 36dfea95fb2f8db48c4f11d4087348bddc23f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 128/148] fix: a variadic function could be called without its
 declared parameters

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b9529d1..1c3de97 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1059,7 +1059,8 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
+	if len(call.Parameters) != len(funcType.Parameters) &&
+		(!funcType.InfiniteParameters || len(call.Parameters) < len(funcType.Parameters)) {
 
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
-- 
2.43.0


From 900f66a9032ecec3e82e70b183fc49edd36fd836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 129/148] fix: the arguments of a variadic function of C were
 not promoted

---
 internals/compiler/compiler.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 7db1379..f34308f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1126,9 +1126,13 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	left := c.compileExpression(ast.Left)
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
-	for _, argument := range ast.Parameters {
+	funcType, _ := ast.Left.GetType().(*ctypes.Function)
+	for i, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
+		if funcType != nil && funcType.InfiniteParameters && i >= len(funcType.Parameters) {
+			loadedValue = c.promoteVariadicArgument(loadedValue, argument.GetType())
+		}
 		arguments = append(arguments, loadedValue)
 	}
 	thing := c.block().NewCall(funk, arguments...)
@@ -1136,6 +1140,27 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	return thing
 }
 
+// promoteVariadicArgument applies the default argument promotions of C, which the callee of a variadic
+// function relies on
+func (c *Compiler) promoteVariadicArgument(argument value.Value, t ctypes.Type) value.Value {
+	switch llvmType := argument.Type().(type) {
+	case *types.FloatType:
+		if llvmType.Kind == types.FloatKindFloat {
+			return c.block().NewFPExt(argument, types.Double)
+		}
+
+	case *types.IntType:
+		if llvmType.BitSize < 32 {
+			if ctypes.IsUnsignedInteger(t) || llvmType.BitSize == 1 {
+				return c.block().NewZExt(argument, types.I32)
+			}
+			return c.block().NewSExt(argument, types.I32)
+		}
+	}
+
+	return argument
+}
+
 func (c *Compiler) allocateIfNotPointer(v value.Value) value.Value {
 	t := v.Type()
 	if _, isPtr := v.Type().(*types.PointerType); isPtr {
-- 
2.43.0


From 5fa2a008a0c4c75501b3f3b0b4c9f48be68cb06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 130/148] fix: the compiler crashed on values that are variadic
 functions

---
 internals/compiler/compiler_types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 28526ca..5ca1be0 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -190,7 +190,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			for _, param := range el.Parameters {
 				parameters = append(parameters, c.ToLLVMType(param))
 			}
-			function := types.NewPointer(types.NewFunc(returnType, parameters...))
+			functionType := types.NewFunc(returnType, parameters...)
+			functionType.Variadic = el.InfiniteParameters
+			function := types.NewPointer(functionType)
 			return function
 		}
 	}
-- 
2.43.0


From 47fe120605c56dcf877ad2641db1a4cc6e95c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 131/148] fix: a call without a value was accepted as an
 argument of a variadic function

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1c3de97..75360fc 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1073,6 +1073,9 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		paramType := s.analyzeExpression(param)
 
 		if i >= len(funcType.Parameters) {
+			if paramType == ctypes.VoidType {
+				s.errorWithStatement("can't pass "+param.String()+", it doesn't have a value", param.GetToken())
+			}
 			continue
 		}
 
-- 
2.43.0


From 65aa5b86709de9107614f5d5672f3ac855b5ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 132/148] fix: the compiler failed on an external function that
 is used before its declaration

---
 internals/compiler/compiler_steps.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..b06c619 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -29,6 +29,9 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		case *ast.FunctionDeclarationStatement:
 			c.compileFunctionType(t.FunctionType.Name, t)
 
+		case *ast.ExternStatement:
+			c.compileExternFunc(t)
+
 		case *ast.MacroBlock:
 			c.compileFunctionTypes(t.Statements)
 		}
-- 
2.43.0


From 11a295a0c54ef74dfeceeb8cfea8e05ba84bc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 133/148] fix: a public function that another module declares
 as external was defined twice

---
 internals/compiler/compiler.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f34308f..0975038 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -579,7 +579,13 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
 
 	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+		// It might be declared already as an external function of another module
+		llvmFunctionExtern := c.declaredExternal(functionType.ExternalName)
+		if llvmFunctionExtern == nil {
+			llvmFunctionExtern = c.m.NewFunc(functionType.ExternalName, toReturnType, params...)
+		} else {
+			llvmFunctionExtern.Params = params
+		}
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
@@ -596,6 +602,17 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	return llvmFunction
 }
 
+// declaredExternal returns the external function of that name that doesn't have a body yet, or nil
+func (c *Compiler) declaredExternal(externalName string) *ir.Func {
+	if declared, ok := c.globalVariables[externalName]; ok {
+		if f, isFunction := declared.Value.(*ir.Func); isFunction && len(f.Blocks) == 0 {
+			return f
+		}
+	}
+
+	return nil
+}
+
 // compiles entire function
 func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, variablesToAdd ...NamedValue) {
 	llvmFunction := c.compileFunctionType(name, funk)
-- 
2.43.0


From 68bc54137730d0eaceb96ea309cf9136277e0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 134/148] fix: the compiler crashed on a module that is used
 before its import

---
 internals/compiler/compiler.go       |  2 ++
 internals/compiler/compiler_steps.go | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0975038..c0c5e49 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -426,6 +426,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.Program:
 		{
+			// A module might be used before it's imported
+			c.compileImports(t.Statements)
 			for _, statement := range t.Statements {
 				c.Compile(statement)
 			}
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index b06c619..7678473 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -21,6 +21,19 @@ func (c *Compiler) compileStructTypes(statements []ast.Statement) {
 	}
 }
 
+// compileImports compiles the modules that are imported
+func (c *Compiler) compileImports(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ImportStatement:
+			c.Compile(t)
+
+		case *ast.MacroBlock:
+			c.compileImports(t.Statements)
+		}
+	}
+}
+
 // compileFunctionTypes makes a compile pass that defines function types without
 // compiling their body
 func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
-- 
2.43.0


From b96f1bcc89e29f7eeb185a0a91f79d5b9df72905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 135/148] fix: a parenthesised type could be closed by any
 token

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 248238c..fc41fe2 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -614,6 +614,7 @@ func (p *Parser) parseType() ctypes.Type {
 	if p.currentToken.Type == token.LPAREN {
 		p.nextToken()
 		t := p.parseTypes()
+		p.expect(token.RPAREN)
 		p.nextToken()
 		return t
 	}
-- 
2.43.0


From f06aee466370d491761af95527f83f16520c3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 136/148] fix: any token was accepted in the place of func
 after pub

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index fc41fe2..6448edd 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -218,6 +218,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	fn.FunctionType.RedefineWithOriginalName = true
 	return fn
-- 
2.43.0


From f6d4cfc3518aee9df194a6d39aa6eddd7da2eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 137/148] fix: any token was accepted as the name of a constant

---
 internals/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 6448edd..97cc0e9 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -533,10 +533,12 @@ func (p *Parser) parseIdentifierStatement() ast.Statement {
 }
 
 func (p *Parser) parseMultipleDeclarations(isConstant bool) ast.Statement {
+	p.expect(token.IDENT)
 	firstLiteral := p.nextToken()
 	names := []string{ast.CreateIdentifier(firstLiteral.Literal, p.ID)}
 	for p.currentToken.Type == token.COMMA {
 		p.nextToken()
+		p.expect(token.IDENT)
 		names = append(names, ast.CreateIdentifier(p.nextToken().Literal, p.ID))
 	}
 	p.expect(token.COLON)
@@ -568,6 +570,7 @@ func (p *Parser) parseDeclaration() ast.Statement {
 		return p.parseMultipleDeclarations(isConstant)
 	}
 
+	p.expect(token.IDENT)
 	id := p.currentToken
 	// pass id
 	p.nextToken()
-- 
2.43.0


From 5ffbe013ca9ef8e17d26bd7875679f4e2d5204e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 138/148] fix: the module before the name of a builtin function
 was ignored

---
 internals/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cc0e9..4b2eb07 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -911,9 +911,11 @@ func (p *Parser) parseAt() ast.Expression {
 	if p.peekToken.Type == token.DOT {
 		module = ast.CreateIdentifier(p.nextToken().Literal, p.ID)
 		p.nextToken()
+		p.expect(token.IDENT)
 	}
 
-	if p.peekToken.Type == token.LBRACE {
+	// builtin functions are not inside of a module
+	if p.peekToken.Type == token.LBRACE || module != "" {
 		return p.parseStructLiteral(module)
 	}
 
-- 
2.43.0


From d78edadcd8da2f8f344933f28f4ef47fb585f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 139/148] fix: a module shared its instance between a variadic
 function type and one that is not variadic

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 75360fc..820e818 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1447,6 +1447,9 @@ func typeIdentity(t ctypes.Type) string {
 			identity.WriteString(typeIdentity(parameter))
 			identity.WriteByte(',')
 		}
+		if t.InfiniteParameters {
+			identity.WriteString("..")
+		}
 		identity.WriteByte(')')
 		if t.Return != nil {
 			identity.WriteString(typeIdentity(t.Return))
-- 
2.43.0


From f492a8c3a5f77318a39f2e773e5b3faebc13e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 140/148] fix: fields of a struct could share their name, and
 crash the compiler

---
 internals/semantic/semantic.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 820e818..2c06648 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -524,6 +524,7 @@ func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement)
 
 func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.refuseDuplicatedFields(statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
@@ -550,9 +551,21 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	}
 }
 
+// refuseDuplicatedFields reports fields of a struct or an union that share their name
+func (s *Semantic) refuseDuplicatedFields(names []string, declarationToken token.Token) {
+	defined := map[string]bool{}
+	for _, name := range names {
+		if defined[name] {
+			s.error("the field '"+name+"' is duplicated", declarationToken)
+		}
+		defined[name] = true
+	}
+}
+
 func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 	// nit: literally the same function as analzyzeStructStatement, rewrite it to a single one.
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.refuseDuplicatedFields(statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
-- 
2.43.0


From b82b5ea61d0dfb8adfa8d7f7f719ffa01bb788ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 141/148] fix: a wrong condition of an else if was reported at
 line 0

---
 internals/ast/statements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index b96cf9e..9a451ae 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -42,7 +42,7 @@ type ConditionPlusBlock struct {
 func (c *ConditionPlusBlock) statementNode() {}
 
 func (c *ConditionPlusBlock) GetToken() token.Token {
-	return token.Token{}
+	return c.Condition.GetToken()
 }
 
 func (c *ConditionPlusBlock) String() string {
-- 
2.43.0


From 4799254f7ada7474ad7da4a1ddd83fe44fb069df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 142/148] fix: a public main was defined twice

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index c0c5e49..b605983 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -580,7 +580,8 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	// Declare llvmFunction
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
 
-	if functionType.RedefineWithOriginalName {
+	// main is already called by its original name
+	if functionType.RedefineWithOriginalName && !functionType.IsMainFunction() {
 		// It might be declared already as an external function of another module
 		llvmFunctionExtern := c.declaredExternal(functionType.ExternalName)
 		if llvmFunctionExtern == nil {
@@ -658,7 +659,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		}
 	}
 
-	if funk.GetFunctionType().RedefineWithOriginalName {
+	if funk.GetFunctionType().RedefineWithOriginalName && !funk.GetFunctionType().IsMainFunction() {
 		c.compileFunctionRedeclaration(c.currentFunction.Blocks, funk)
 	}
 
-- 
2.43.0


From 57a9bd3133580f5e4566e60f96dcaea7f304a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 143/148] fix: a loop took more of the stack on each iteration

---
 internals/compiler/compiler.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b605983..02f29dd 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -659,6 +659,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		}
 	}
 
+	moveAllocasToEntry(llvmFunction)
+
 	if funk.GetFunctionType().RedefineWithOriginalName && !funk.GetFunctionType().IsMainFunction() {
 		c.compileFunctionRedeclaration(c.currentFunction.Blocks, funk)
 	}
@@ -670,6 +672,26 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = prevBreak, prevContinue
 }
 
+// moveAllocasToEntry moves every alloca to the start of the function: one that stays inside of a
+// loop takes more of the stack on each iteration, until there isn't any left
+func moveAllocasToEntry(function *ir.Func) {
+	allocas := []ir.Instruction{}
+	for _, block := range function.Blocks {
+		instructions := []ir.Instruction{}
+		for _, instruction := range block.Insts {
+			if _, isAlloca := instruction.(*ir.InstAlloca); isAlloca {
+				allocas = append(allocas, instruction)
+			} else {
+				instructions = append(instructions, instruction)
+			}
+		}
+		block.Insts = instructions
+	}
+
+	entry := function.Blocks[0]
+	entry.Insts = append(allocas, entry.Insts...)
+}
+
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
 	llvmFunction := c.retrieveVariable(funk.GetFunctionType().ExternalName).(*ir.Func)
 	llvmFunction.Blocks = otherFunctionBlocks
-- 
2.43.0


From 7148c2b9a5db4a84c6535220eb5be9a4d80243fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 144/148] fix: a type alias could take the name of another type

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2c06648..d815bb6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -307,6 +307,7 @@ func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
 	s.replaceAnonymous(typeDef.Type)
 	trueType := s.UnwrapAnonymous(typeDef.Type)
 	typeDef.Type = trueType
+	s.checkTypeRedefinition(typeDef.Name, typeDef.Token)
 	s.definedTypes[typeDef.Name] = trueType
 }
 
-- 
2.43.0


From cce6fa6dab55708fbfcd377a0763f7650019ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 145/148] fix: a flag that is a local constant crashed the
 compiler

---
 internals/compiler/compiler.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 02f29dd..1fc147a 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -158,7 +158,7 @@ func (c *Compiler) initializeBuiltinLib() {
 
 	c.builtins["add_compiler_flag"] = func(c *Compiler, addCompilerFlag *ast.BuiltinCall) value.Value {
 		for _, param := range addCompilerFlag.Parameters {
-			str := c.compileConstantExpression(param).(*constant.CharArray)
+			str := constantCharArray(c.compileConstantExpression(param))
 			c.eventHandler(Event{
 				Kind: AddFlags,
 				Data: string(str.X[:len(str.X)-1]),
@@ -1151,6 +1151,18 @@ func (c *Compiler) globalArrayPointer(name string, array constant.Constant) *ir.
 	return c.m.NewGlobalDef(name+".global", pointer)
 }
 
+// constantCharArray returns the characters of a constant string, local constants are already stored in a global
+func constantCharArray(value constant.Constant) *constant.CharArray {
+	switch value := value.(type) {
+	case *ir.Global:
+		return constantCharArray(value.Init)
+	case *constant.ExprBitCast:
+		return constantCharArray(value.From)
+	}
+
+	return value.(*constant.CharArray)
+}
+
 func (c *Compiler) retrieveLocalVariable(name string) value.Value {
 	return c.variables.Get(name)
 }
-- 
2.43.0


From 5a8aa18a2b1441a2bdd864f151235e975f188681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 146/148] fix: a constant could not be read by a block
 expression on the left side of an assignment

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d815bb6..5741881 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1569,9 +1569,13 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
+	// The statements of a block on the left side of an assignment don't mutate what they mention
+	tmpExpectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	defer func() {
 		s.returns = tmpReturns
 		s.currentExpectedReturnType = tmpExpectedReturnType
+		s.expectNonConstantExpression = tmpExpectNonConstant
 	}()
 
 	s.currentExpectedReturnType = t
-- 
2.43.0


From cfb59393a27f66385935e038c3c1026db977f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 147/148] fix: the operands of @asm were not analyzed

---
 internals/semantic/semantic_builtin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 343b7de..d6eb442 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -133,5 +133,11 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
+	for _, param := range asmCall.Parameters[1:] {
+		if s.analyzeExpression(param) == ctypes.VoidType {
+			s.errorWithStatement("you can't pass an expression that doesn't return anything", asmCall.Token)
+		}
+	}
+
 	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
 }
-- 
2.43.0


From 90970e28cec6f765ae216855f39033b3b0f677e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 148/148] fix: a module that imports itself with other types
 never ended

---
 internals/semantic/semantic.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5741881..2afb622 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1521,13 +1521,14 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.importedModules = append(s.importedModules, existingSemantic)
 		return
 	}
-	if pathsBeingImported[endHash] {
+	// Even with other types it would import itself again, and again
+	if pathsBeingImported[currentPathPlusImport] {
 		s.errorWithStatement("circular import of "+importStatement.Path.Value, importStatement.Token)
 		return
 	}
 
-	pathsBeingImported[endHash] = true
-	defer delete(pathsBeingImported, endHash)
+	pathsBeingImported[currentPathPlusImport] = true
+	defer delete(pathsBeingImported, currentPathPlusImport)
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0

