From 6538c44aafd1c7819593730a71529f1390836c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 001/104] fix: shifts convert the amount to the shifted type
 and keep the sign of signed values

---
 internals/compiler/compiler.go          | 7 +++++++
 internals/compiler/compiler_constant.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..2ae1301 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1604,12 +1604,19 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	// both operands of an LLVM shift have the type of the left one
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue)
+	if !ctypes.IsUnsignedInteger(expr.Type) {
+		return c.block().NewAShr(leftValue, rightValue)
+	}
 	return c.block().NewLShr(leftValue, rightValue)
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	// both operands of an LLVM shift have the type of the left one
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue)
 	return c.block().NewShl(leftValue, rightValue)
 }
 
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..0d3de23 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -135,8 +135,14 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 	case ops.BinaryOR:
 		return constant.NewOr(first, second)
 	case ops.LeftShift:
+		// both operands of an LLVM shift have the type of the left one
+		second = c.handleConstantCast(second, expr.Right.GetType(), first.Type(), expr)
 		return constant.NewShl(first, second)
 	case ops.RightShift:
+		second = c.handleConstantCast(second, expr.Right.GetType(), first.Type(), expr)
+		if !ctypes.IsUnsignedInteger(expr.Type) {
+			return constant.NewAShr(first, second)
+		}
 		return constant.NewLShr(first, second)
 	case ops.Divide:
 		if types.IsInt(first.Type()) {
-- 
2.43.0


From 312c60c0086f005649192f6dc2f4d9c99dfb2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 002/104] fix: an else-if condition is converted to a boolean
 in the block that evaluates it

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 2ae1301..922dcb4 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -668,10 +668,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 		// is true jump to this block, else jump to the next one, which would be the next jump condition or
 		// the else
 		condition := c.compileExpression(conditions[i])
-		conditionLoaded := c.loadIfPointer(condition)
+		conditionLoaded := c.toBool(c.loadIfPointer(condition))
 		// Recharge block because compiling expressions can change current blocks
 		lastJumpToCondition = c.popBlock()
-		lastJumpToCondition.NewCondBr(c.toBool(conditionLoaded), currentBlock, jumpToNextCondition)
+		lastJumpToCondition.NewCondBr(conditionLoaded, currentBlock, jumpToNextCondition)
 		lastJumpToCondition = jumpToNextCondition
 	}
 
-- 
2.43.0


From 2b2b7430fdb6f5c1df66801d135185c614383d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 003/104] fix: float conditions, which the analysis accepts,
 compile

---
 internals/compiler/compiler_conversions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..9d29775 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -18,6 +19,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	c.exitInternalError("can't pass to a boolean the value: " + value.String())
 	panic("")
 }
-- 
2.43.0


From 5e6c604a6d709ec9bc25683f5c57a5e22067d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 004/104] fix: != on floats is the negation of ==

---
 internals/compiler/compiler_comparisons.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..bd2d7c3 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -48,7 +48,7 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 		case ops.Equals:
 			return enum.FPredOEQ
 		case ops.NotEquals:
-			return enum.FPredONE
+			return enum.FPredUNE
 		}
 	}
 
-- 
2.43.0


From 5162346b4520d9a4e0b145059fb10ec36390adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 005/104] fix: comparisons of i1 order 1 after 0

---
 internals/compiler/compiler_comparisons.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index bd2d7c3..28169ee 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -57,7 +57,8 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 }
 
 func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPred {
-	if _, ok := t.(*ctypes.Integer); ok {
+	// a single bit has no sign: 1 is greater than 0
+	if integer, ok := t.(*ctypes.Integer); ok && integer.BitSize > 1 {
 		switch op {
 		case ops.GreaterThanEqual:
 			return enum.IPredSGE
@@ -74,7 +75,7 @@ func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPre
 		}
 	}
 
-	if _, ok := t.(*ctypes.UInteger); ok {
+	if ctypes.IsInteger(t) {
 		switch op {
 		case ops.GreaterThanEqual:
 			return enum.IPredUGE
-- 
2.43.0


From eb8bf07a3ef6d0e1b570e4d30348d55445e41b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 006/104] fix: widening casts keep the value of unsigned
 integers and of i1

---
 internals/compiler/compiler.go             | 10 +++++-----
 internals/compiler/compiler_constant.go    |  7 ++++++-
 internals/compiler/compiler_conversions.go | 15 ++++++++++-----
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 922dcb4..3632989 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -186,7 +186,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[1].GetType(), length)
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -230,7 +230,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[0].GetType(), length)
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1605,7 +1605,7 @@ func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Valu
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	// both operands of an LLVM shift have the type of the left one
-	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue)
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), expr.Right.GetType(), rightValue)
 	if !ctypes.IsUnsignedInteger(expr.Type) {
 		return c.block().NewAShr(leftValue, rightValue)
 	}
@@ -1616,7 +1616,7 @@ func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	// both operands of an LLVM shift have the type of the left one
-	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue)
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), expr.Right.GetType(), rightValue)
 	return c.block().NewShl(leftValue, rightValue)
 }
 
@@ -1642,7 +1642,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, call.Parameters[0].GetType(), variable)
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 0d3de23..d3b754e 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -22,7 +22,12 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			}
 
 			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
+				// unsigned integers keep their value when they get more bits
+				if ctypes.IsUnsignedInteger(originalType) {
+					return constant.NewZExt(val, to)
+				}
+
+				if integerType.BitSize == 1 {
 					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
 					// it will be extended accross all the bits, for example if you cast
 					// i1 '1' to i8, you will get 111...1110, which is -1.
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 9d29775..741a198 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -26,8 +26,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	panic("")
 }
 
-// handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// handleIntegerCast tries to pass variable, whose type in Candice is from, to toReturnType
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, from ctypes.Type, variable value.Value) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -36,7 +36,12 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	// unsigned integers keep their value when they get more bits
+	if ctypes.IsUnsignedInteger(from) {
+		return c.block().NewZExt(variable, toReturnType)
+	}
+
+	if variableType.BitSize == 1 {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -49,10 +54,10 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, from ctypes.Type, variable value.Value) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, from, variable)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
-- 
2.43.0


From 4a418b2755904f0b6b5c01270c323379ed4ff216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 007/104] fix: a constant binary operation uses its right
 operand

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index d3b754e..c93d0da 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -84,7 +84,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		return c.compileIdentifier(expr).(constant.Constant)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From f2fa399365fa2ec63aa29b103718d67b9fe8c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 008/104] fix: a constant cast of a float looks at the
 signedness of the target type

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index c93d0da..c8ad97c 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -41,7 +41,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 		}
 
 		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
+			if ctypes.IsUnsignedInteger(expr.GetType()) {
 				return constant.NewFPToUI(val, to)
 			}
 
-- 
2.43.0


From 5d529b1c0238e1370296c805fc48db8f95b4c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 009/104] fix: @alloc and @sizeof know the size of the types
 they are given by name

---
 internals/semantic/semantic_builtin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..88aafdb 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,8 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.replaceAnonymous(allocCall.TypeParameters[0])
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
@@ -108,7 +108,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
+	sizeOfCall.TypeParameters[0] = s.replaceAnonymous(sizeOfCall.TypeParameters[0])
 	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
 	return ctypes.I32
 }
-- 
2.43.0


From b0a2fd32d37d55e752d82748b36ef194a969d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 010/104] fix: @realloc multiplies the length by the size of
 the elements

---
 internals/compiler/compiler.go         | 3 ++-
 internals/semantic/semantic_builtin.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 3632989..4d69c94 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -187,7 +187,8 @@ func (c *Compiler) initializeBuiltinLib() {
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, call.Parameters[1].GetType(), length)
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 88aafdb..6dae778 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -98,7 +98,7 @@ func (s *Semantic) analyzeRealloc(reallocCall *ast.BuiltinCall) ctypes.Type {
 		s.typeMismatchError(reallocCall.String(), reallocCall.Parameters[1], reallocCall.Token, ctypes.I64, secondParameter)
 	}
 
-	reallocCall.Type = t
+	reallocCall.Type = s.replaceAnonymous(t)
 
 	return t
 }
-- 
2.43.0


From 27739fa3b8036c6a784268137511a310c1fa3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 011/104] fix: i1 has the size and the alignment of a byte

---
 internals/ctypes/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..b4dc58a 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,12 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	// i1 occupies a whole byte
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return i.SizeOf()
 }
 
 type UInteger struct {
-- 
2.43.0


From 9082ccb77491760b10d6125df4f7fde52450305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 012/104] fix: a struct literal stores only the given member of
 a union field

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4d69c94..1b40747 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1262,10 +1262,10 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		ptr.InBounds = true
 
 		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
+		compiledValue = c.loadIfPointer(compiledValue)
 
 		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
-- 
2.43.0


From adb4c81c87fa356562caec056d34284c210e6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 013/104] fix: a union is as aligned as its most aligned member

---
 internals/compiler/compiler_types.go | 7 ++++++-
 internals/ctypes/types.go            | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..9b64790 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -114,7 +114,12 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				return union
 			}
 
-			unionType := types.NewArray(uint64(el.SizeOf()), types.I8)
+			// The storage has to be as aligned as the most aligned member
+			storage := types.I8
+			if alignment := el.Alignment(); alignment > 1 {
+				storage = types.NewInt(uint64(alignment * 8))
+			}
+			unionType := types.NewArray(uint64(el.SizeOf()*8)/storage.BitSize, storage)
 			return unionType
 		}
 
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b4dc58a..cb6e857 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -319,6 +319,11 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
+	// every element of an array of unions has to be aligned
+	if alignment := u.Alignment(); alignment > 0 {
+		max = (max + alignment - 1) / alignment * alignment
+	}
+
 	return max
 }
 
-- 
2.43.0


From 528af3cc984cf4d987ff2458e114fb00d8de8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 014/104] fix: the update of a for loop may span several blocks

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1b40747..1ed59bc 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -725,7 +725,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
 	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	lastUpdate := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -733,7 +733,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	lastUpdate.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From f09a2ba8d4ca217c78ef8d50e580d89fa12ae9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 015/104] fix: statements are compiled unless the block they
 continue is terminated

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1ed59bc..fdef15f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -328,7 +328,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	// Nothing can be reached after a terminator
+	if c.currentFunction != nil && c.block().Term != nil {
 		return
 	}
 
@@ -609,7 +610,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
-- 
2.43.0


From b65b5685d475d176608f6e1e91cf1d414392f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 016/104] fix: a return in a block expression leaves that block
 expression

---
 internals/compiler/compiler.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fdef15f..d758f0b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,6 +53,7 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
+	currentBlockExpressionLeave         *ir.Block
 	context                             *semantic.Semantic
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
@@ -536,6 +537,7 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 			toReturnLoaded,
 			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
 		)
+		c.block().NewBr(c.currentBlockExpressionLeave)
 		return
 	}
 
@@ -605,6 +607,10 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	prevFunction := c.currentFunction
 	c.currentFunction = llvmFunction
 
+	// An anonymous function doesn't return to the block expression it is written in
+	prevValue, prevLeave := c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave = nil, nil
+
 	// Compile block
 	for _, statement := range funk.GetBlock().Statements {
 		c.Compile(statement)
@@ -629,6 +635,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave = prevValue, prevLeave
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1223,11 +1230,20 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
+	// Block expressions can be nested
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave
+	leave := ir.NewBlock("leave-block-expression-" + random.RandomString(10))
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave = alloca, leave
 	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	lastBlock := c.compileBlock(block.Block, newBlock)
+	if lastBlock.Term == nil {
+		lastBlock.NewUnreachable()
+	}
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeave = previousValue, previousLeave
+	c.currentFunction.Blocks = append(c.currentFunction.Blocks, leave)
+	leave.Parent = c.currentFunction
+	c.blocks[len(c.blocks)-1] = leave
 	return alloca
 }
 
-- 
2.43.0


From 0ed4ce03952257f3a4e22add18d527d5097fee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 017/104] fix: an anonymous function can't break or continue
 the loop around it

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..365a2bd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -357,6 +357,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.replaceAnonymousFunctionParameterTypes(fun)
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
+	// the body can't break a loop that the function is written in
+	temporaryInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	fun.Return = s.UnwrapAnonymous(fun.Return)
 	s.currentExpectedReturnType = fun.Return
 
@@ -374,6 +377,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	}
 	fun.Return = s.UnwrapAnonymous(fun.Return)
 	s.returns = temporaryReturns
+	s.insideBreakableBlock = temporaryInsideBreakableBlock
 	s.leaveFrame()
 	s.currentFunctionBeingAnalyzed = temporaryFunctionAnalyzed
 	s.currentExpectedReturnType = temporaryExpectedReturnType
-- 
2.43.0


From 4e6705e86bb362d09cb7db3a097c9b71a5d2fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 018/104] fix: function types and lists of different lengths
 are different types

---
 internals/semantic/semantic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 365a2bd..ea02b20 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -667,7 +667,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
@@ -700,7 +700,8 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
+			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -755,7 +756,8 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
+			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
-- 
2.43.0


From 4c1eef7d0e245c21e65b30945775086862110489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 019/104] fix: a switch without default doesn't return on every
 path

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ea02b20..b291cf1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1442,7 +1442,8 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		// no case may match
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From a0de2a600d8f4354c483d768e8e5300a9956a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 020/104] fix: statements after a return are neither analyzed
 nor compiled and leave their scope

---
 internals/semantic/semantic.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b291cf1..9c3192a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -184,12 +184,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 			return
 		}
 	case *ast.MacroBlock:
-		for _, stmt := range statementType.Block.Statements {
-			if s.returns {
-				return
-			}
-			s.analyzeStatement(stmt)
-		}
+		statementType.Block.Statements = s.analyzeReachableStatements(statementType.Block.Statements)
 		return
 	case *ast.Block:
 		s.analyzeBlock(statementType)
@@ -294,13 +289,20 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
-	for _, stmt := range block.Statements {
+	block.Statements = s.analyzeReachableStatements(block.Statements)
+	s.leaveFrame()
+}
+
+// analyzeReachableStatements analyzes the statements until one that always returns,
+// the ones after it are not part of the program. Returns the statements that are.
+func (s *Semantic) analyzeReachableStatements(statements []ast.Statement) []ast.Statement {
+	for i, statement := range statements {
 		if s.returns {
-			return
+			return statements[:i]
 		}
-		s.analyzeStatement(stmt)
+		s.analyzeStatement(statement)
 	}
-	s.leaveFrame()
+	return statements
 }
 
 func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
@@ -364,12 +366,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.currentExpectedReturnType = fun.Return
 
 	if block != nil {
-		for _, statement := range block.Statements {
-			if s.returns {
-				break
-			}
-			s.analyzeStatement(statement)
-		}
+		block.Statements = s.analyzeReachableStatements(block.Statements)
 	}
 
 	if !s.returns && fun.Return != ctypes.VoidType {
-- 
2.43.0


From 0f2ea92b1a805a5734bf4531df3381a3aa3795e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 021/104] fix: a block expression in an else-if condition is
 analyzed after a branch that returns

---
 internals/semantic/semantic.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9c3192a..5a9ad43 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -411,12 +411,9 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 		s.typeMismatchError(ifStatement.Condition.String(), ifStatement.Condition, ifStatement.Token, ctypes.I8, condition)
 	}
 
-	doesReturn := true
 	s.analyzeBlock(ifStatement.Block)
-	if !s.returns {
-		doesReturn = false
-		s.returns = false
-	}
+	doesReturn := s.returns
+	s.returns = false
 
 	for _, currentIf := range ifStatement.ElseIfs {
 		condition := s.analyzeExpression(currentIf.Condition)
@@ -1332,6 +1329,7 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	}()
 
 	s.currentExpectedReturnType = t
+	s.returns = false
 	s.analyzeBlock(blockExpression.Block)
 	if !s.returns {
 		s.errorWithStatement(fmt.Sprintf("not all paths of expression block return type %q", t.String()), blockExpression.Token)
-- 
2.43.0


From a19ab8c9b212ae70778e7eb0b46e597ade17d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 022/104] fix: ++ and -- can't change constants, and constants
 can index an assigned element

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5a9ad43..49056a2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -825,7 +825,11 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
+	// the index itself isn't stored to
+	previousExpectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
+	s.expectNonConstantExpression = previousExpectNonConstantExpression
 	if !ctypes.IsNumeric(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
@@ -1027,7 +1031,13 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	// ++ and -- store to their operand
+	previousExpectNonConstantExpression := s.expectNonConstantExpression
+	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
+		s.expectNonConstantExpression = true
+	}
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = previousExpectNonConstantExpression
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
-- 
2.43.0


From d2cc4b49580d0d282bb25d6d2301a66b621b11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 023/104] fix: a function without parameters used as a method
 is an error, not a crash

---
 internals/semantic/semantic.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 49056a2..55a53f4 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1149,7 +1149,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1164,7 +1164,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1235,7 +1235,11 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("function without parameters used as a method "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 442474546b7d0183678b264447962ef6f877780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 024/104] fix: an unknown attribute in a struct literal isn't
 checked against the first one

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 55a53f4..e7dbc6e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -918,6 +918,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
-- 
2.43.0


From 70efead689a470813a9cdb8a98d3d547187ab22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 025/104] fix: unary plus, which the analysis accepts, compiles

---
 internals/compiler/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index d758f0b..f9440a2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -947,6 +947,10 @@ func (c *Compiler) compileArrayLiteral(arrayLiteral *ast.ArrayLiteral) value.Val
 
 func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Value {
 	prefixValue := c.compileExpression(prefix.Right)
+	if prefix.Operation == ops.Add {
+		return c.loadIfPointer(prefixValue)
+	}
+
 	if prefix.Operation == ops.Subtract {
 		prefixValue = c.loadIfPointer(prefixValue)
 		var negativeOne value.Value
-- 
2.43.0


From 79e24524e92a05e1a03a621387eb60c4656391ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 026/104] fix: a comparison is emitted in the block that
 evaluated its operands

---
 internals/compiler/compiler_comparisons.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 28169ee..63cfe18 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -20,18 +20,15 @@ func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.V
 		}
 	}
 
+	// the operands may open new blocks, the comparison belongs to the last one
+	left := c.loadIfPointer(c.compileExpression(expr.Left))
+	right := c.loadIfPointer(c.compileExpression(expr.Right))
+
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From 43329d4481800a14566a618898d7a81890b8907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 027/104] fix: i1 casts to 1.0, not to -1.0

---
 internals/compiler/compiler_constant.go    | 4 ++--
 internals/compiler/compiler_conversions.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index c8ad97c..c26345c 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -53,8 +53,8 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 
 	if types.IsFloat(to) {
 		to := to.(*types.FloatType)
-		if _, ok := val.Type().(*types.IntType); ok {
-			if !ctypes.IsUnsignedInteger(originalType) {
+		if integerType, ok := val.Type().(*types.IntType); ok {
+			if !ctypes.IsUnsignedInteger(originalType) && integerType.BitSize > 1 {
 				return constant.NewSIToFP(val, to)
 			}
 
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 741a198..83cd545 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -94,7 +94,8 @@ func (c *Compiler) floatToInt(toReturn *types.IntType, variable value.Value, isU
 }
 
 func (c *Compiler) intToFloat(toReturn *types.FloatType, variable value.Value, isUnsigned bool) value.Value {
-	if isUnsigned {
+	// i1 has no sign, '1' is 1.0
+	if isUnsigned || variable.Type().Equal(types.I1) {
 		return c.block().NewUIToFP(variable, toReturn)
 	}
 
-- 
2.43.0


From 5964c4d9b768a3707fbb26a95f6a7c7f9b927cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 028/104] fix: constants may be negative

---
 internals/compiler/compiler_constant.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index c26345c..cf0ba4c 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -86,6 +86,8 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
+	case *ast.PrefixOperation:
+		return c.compileConstantPrefix(expr)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
 	case *ast.Float:
@@ -110,6 +112,23 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
+func (c *Compiler) compileConstantPrefix(expr *ast.PrefixOperation) constant.Constant {
+	switch expr.Operation {
+	case ops.Add:
+		return c.compileConstantExpression(expr.Right)
+	case ops.Subtract:
+		right := c.compileConstantExpression(expr.Right)
+		if integer, ok := right.Type().(*types.IntType); ok {
+			return constant.NewSub(constant.NewInt(integer, 0), right)
+		}
+		if float, ok := right.Type().(*types.FloatType); ok {
+			return constant.NewFMul(right, constant.NewFloat(float, -1))
+		}
+	}
+	c.exitErrorExpression("unexpected non constant operation", expr)
+	return nil
+}
+
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
 	switch op {
 	case ops.Add:
-- 
2.43.0


From f259c28632f135018494bc482e5aed4f0ce0a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 029/104] fix: unsigned indices and pointer offsets aren't
 negative, float indices are rejected

---
 internals/compiler/compiler.go | 10 ++++++++--
 internals/semantic/semantic.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f9440a2..709c24f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1161,7 +1161,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
-	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index := c.extendOffset(c.loadIfPointer(c.compileExpression(access.Access)), access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1176,6 +1176,11 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	return c.calculatePointerOffset(leftArray, index)
 }
 
+// extendOffset gives an index 64 bits, LLVM would take narrower ones, unsigned ones included, as signed.
+func (c *Compiler) extendOffset(offset value.Value, from ctypes.Type) value.Value {
+	return c.handleIntegerCast(types.I64, from, offset)
+}
+
 func (c *Compiler) calculatePointerOffset(pointer value.Value, offset value.Value) value.Value {
 	calculatedPointer := c.block().NewGetElementPtr(pointer.Type().(*types.PointerType).ElemType, pointer, offset)
 	calculatedPointer.InBounds = true
@@ -1516,7 +1521,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
-		newPointer := c.calculatePointerOffset(leftValue, rightValue)
+		newPointer := c.calculatePointerOffset(leftValue, c.extendOffset(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
@@ -1559,6 +1564,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.extendOffset(rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e7dbc6e..9a0e6ae 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -830,7 +830,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
 	s.expectNonConstantExpression = previousExpectNonConstantExpression
-	if !ctypes.IsNumeric(indexType) {
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
-- 
2.43.0


From 76b35714f60b3928d28df876abf960caf5a2c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 030/104] fix: an assignment where an expression belongs is a
 diagnostic, not a crash

---
 internals/ops/operations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..3b0e3f7 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -97,6 +97,10 @@ func (o Operation) String() string {
 		return "<<"
 	case Modulo:
 		return "%"
+	case TempAssign:
+		return "="
+	case At:
+		return "@"
 	}
 
 	panic("unknown operand: " + strconv.FormatInt(int64(o), 10))
-- 
2.43.0


From 9515195a2ff8b43975d0c741473de5295f44562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 031/104] fix: the index of a computed pointer is loaded

---
 internals/compiler/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 709c24f..7df5673 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1161,6 +1161,9 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
+	// they are about the left side, not about the index
+	c.doNotLoadIntoMemory = false
+	c.doNotAllocate = false
 	index := c.extendOffset(c.loadIfPointer(c.compileExpression(access.Access)), access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
-- 
2.43.0


From d02c0030e6b567d247033e66ee0f56e314688c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 032/104] fix: arrays and pointers to arrays that calls return
 can be indexed

---
 internals/compiler/compiler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 7df5673..f868776 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1166,8 +1166,14 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	c.doNotAllocate = false
 	index := c.extendOffset(c.loadIfPointer(c.compileExpression(access.Access)), access.Access.GetType())
 
+	// An array that isn't in memory, like the result of a call, needs a place to be indexed
+	if types.IsArray(leftArray.Type()) {
+		leftArray = c.allocateIfNotPointer(leftArray)
+		doNotLoadLeftArray = false
+	}
+
 	// If it's an array do not load into memory, just calculate offset
-	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
+	if !(doNotLoadLeftArray && ctypes.IsPointer(access.Left.GetType())) && types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
 		// zero as first offset because we are calculating first pointer, then index
 		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)
 		element.InBounds = true
-- 
2.43.0


From fa8aa1296cae97bf20924314609038d5edb8487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 033/104] fix: anonymous functions can't mutate the constants
 around them

---
 internals/semantic/semantic.go      | 25 +++++++++++++++++--------
 internals/semantic/semantic_type.go |  2 ++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9a0e6ae..b996b5d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1008,15 +1008,9 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
-			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
-			return identifierTypeUnwrap
-		}
+		isConstantExpression := identifierType.IsConstant && !identifierType.IsRuntimeConstant
 
-		if !identifierType.IsConstant && s.expectConstantExpression {
+		if !isConstantExpression && s.expectConstantExpression {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
 
@@ -1024,6 +1018,20 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		// Constant expressions are inlined where they are used, so anonymous functions don't need to capture them
+		if !isConstantExpression && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
+			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
+				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
+			s.variables.Add(identifier.Name, &SemanticType{
+				Type:              identifierTypeUnwrap,
+				parentFunction:    s.currentFunctionBeingAnalyzed,
+				IsConstant:        identifierType.IsConstant,
+				IsRuntimeConstant: identifierType.IsRuntimeConstant,
+			})
+			return identifierTypeUnwrap
+		}
+
 		return identifierType.Type
 	}
 
@@ -1483,6 +1491,7 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	for i, name := range m.Names {
 		declaredType := s.newType(typeList.Types[i])
 		declaredType.IsConstant = m.Constant
+		declaredType.IsRuntimeConstant = m.Constant
 		s.variables.Add(name, declaredType)
 	}
 
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..9166a63 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -11,6 +11,8 @@ type SemanticType struct {
 	parentFunction *ctypes.Function
 	Type           ctypes.Type
 	IsConstant     bool
+	// IsRuntimeConstant is a constant whose value is only known at run time
+	IsRuntimeConstant bool
 }
 
 func (s *Semantic) newType(t ctypes.Type) *SemanticType {
-- 
2.43.0


From 5368a17012db2aff9c0caa7bdcbceb045eb80d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 034/104] fix: a variable takes its own place when its value
 only contains a literal

---
 internals/compiler/compiler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f868776..4caade3 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -789,6 +789,13 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		return
 	}
 
+	// Only literals allocate the place that the variable can take, a literal inside of the expression isn't the variable's
+	switch decl.Expression.(type) {
+	case *ast.StructLiteral, *ast.ArrayLiteral:
+	default:
+		c.doNotAllocate = decl.Constant
+	}
+
 	var val value.Value
 	if !c.doNotAllocate {
 		val = c.block().NewAlloca(t)
-- 
2.43.0


From 6cfd241a9b6429d4027c75990d0063e96dc83efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 035/104] fix: the anonymous functions in between capture what
 the inner ones use

---
 internals/semantic/semantic.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b996b5d..002ee66 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -57,6 +57,9 @@ type Semantic struct {
 
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
+
+	// the anonymous function that each anonymous function is written in, if any
+	enclosingAnonymousFunctions map[*ast.AnonymousFunction]*ast.AnonymousFunction
 }
 
 var paths map[string]*Semantic = map[string]*Semantic{}
@@ -85,6 +88,8 @@ func New() *Semantic {
 		currentExpectedReturnType: ctypes.VoidType,
 		returns:                   false,
 		modules:                   map[string]*Semantic{},
+
+		enclosingAnonymousFunctions: map[*ast.AnonymousFunction]*ast.AnonymousFunction{},
 	}
 
 	s.builtinHandlers["cast"] = s.analyzeCast
@@ -387,6 +392,7 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
 	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	s.enclosingAnonymousFunctions[anonymousFunction] = tmpAnon
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
@@ -1020,8 +1026,11 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 
 		// Constant expressions are inlined where they are used, so anonymous functions don't need to capture them
 		if !isConstantExpression && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			// The anonymous functions in between need the variable as well, they capture it for the ones inside of them
+			for function := s.currentAnonymousFunctionBeingAnalyzed; function != nil && function.FunctionType != identifierType.parentFunction; {
+				function.CapturedVariables = append(function.CapturedVariables, identifier.Name)
+				function = s.enclosingAnonymousFunctions[function]
+			}
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
 			s.variables.Add(identifier.Name, &SemanticType{
 				Type:              identifierTypeUnwrap,
-- 
2.43.0


From 8e4700914d5bc34ec931d9e6df071733bd274633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 036/104] fix: constant strings point to their characters from
 the start of the program

---
 internals/compiler/compiler.go          | 51 ++++++++++++++++++-------
 internals/compiler/compiler_constant.go |  2 +-
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4caade3..2c56b21 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -59,6 +59,9 @@ type Compiler struct {
 	compiledModules                     map[string]*Compiler
 
 	eventHandler func(Event)
+
+	// Globals of the constant strings that are used as a pointer
+	constantStrings map[constant.Constant]value.Value
 }
 
 func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
@@ -105,6 +108,7 @@ func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
 		modules:                  map[string]*Compiler{},
 		compiledModules:          compiledModules,
 		eventHandler:             func(e Event) {},
+		constantStrings:          map[constant.Constant]value.Value{},
 	}
 
 	c.variables.Add("<>", nil)
@@ -1046,15 +1050,8 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 		if !types.IsPointer(identifier.Type()) {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
-				global := identifier.(constant.Constant)
-				array := c.block().NewAlloca(global.Type())
-				c.block().NewStore(global, array)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				lastAlloca := c.block().NewAlloca(pointer.Type())
-				c.variables.Add(name, lastAlloca)
-				c.block().NewStore(pointer, lastAlloca)
 				c.doNotLoadIntoMemory = false
-				return lastAlloca
+				return c.defineConstantString(name, identifier.(constant.Constant))
 			}
 		}
 		return identifier
@@ -1068,14 +1065,11 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 
 			global := fn.Value.(constant.Constant)
 
-			// If it is an array we must allocate it as a global and then cast it as a pointer
-			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
+			// If it is an array we must allocate it as a global, and its pointer as well so we can use it normally,
+			// we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
-				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				globalDefinition := c.defineConstantString(name, global)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
@@ -1098,6 +1092,35 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	panic("")
 }
 
+// defineConstantString returns a global that points to the characters from the start of the program, so it doesn't
+// matter which use of the string runs first.
+func (c *Compiler) defineConstantString(name string, characters constant.Constant) value.Value {
+	if definition, ok := c.constantStrings[characters]; ok {
+		return definition
+	}
+
+	array := c.m.NewGlobalDef(name+".global_alloca."+random.RandomString(5), characters)
+	first := constant.NewInt(types.I32, 0)
+	pointer := constant.NewGetElementPtr(characters.Type(), array, first, first)
+	definition := c.m.NewGlobalDef(name+".global."+random.RandomString(5), pointer)
+	c.constantStrings[characters] = definition
+	return definition
+}
+
+// retrieveConstant returns the value of a constant
+func (c *Compiler) retrieveConstant(name string) constant.Constant {
+	if local := c.retrieveLocalVariable(name); local != nil {
+		return local.(constant.Constant)
+	}
+
+	if global, ok := c.globalVariables[name]; ok {
+		return global.Value.(constant.Constant)
+	}
+
+	c.exitInternalError(fmt.Sprintf("Constant %s doesn't exist.", name))
+	return nil
+}
+
 func (c *Compiler) retrieveLocalVariable(name string) value.Value {
 	return c.variables.Get(name)
 }
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index cf0ba4c..f54cd77 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -81,7 +81,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Constant {
 	switch expr := expr.(type) {
 	case *ast.Identifier:
-		return c.compileIdentifier(expr).(constant.Constant)
+		return c.retrieveConstant(expr.Name)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
-- 
2.43.0


From 977c1d6c7ab5d72cd0e0dd43f40fe963feba3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 037/104] fix: variables, globals and constants of a union type
 are as big as the union

---
 internals/compiler/compiler.go | 59 +++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 2c56b21..4d71ea6 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -62,6 +62,9 @@ type Compiler struct {
 
 	// Globals of the constant strings that are used as a pointer
 	constantStrings map[constant.Constant]value.Value
+
+	// The constants that the globals of constant unions hold
+	constantUnions map[value.Value]constant.Constant
 }
 
 func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
@@ -109,6 +112,7 @@ func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
 		compiledModules:          compiledModules,
 		eventHandler:             func(e Event) {},
 		constantStrings:          map[constant.Constant]value.Value{},
+		constantUnions:           map[value.Value]constant.Constant{},
 	}
 
 	c.variables.Add("<>", nil)
@@ -787,6 +791,10 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		c.doNotAllocate = false
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
+			if union, isUnion := c.context.UnwrapAnonymous(decl.Type).(*ctypes.Union); isUnion {
+				definition := c.defineConstantUnion(decl.Name, union, valueCompiled.(constant.Constant))
+				c.globalVariables[decl.Name+".global"] = &Value{Value: definition, Type: decl.Type}
+			}
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
 		}
@@ -800,6 +808,18 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		c.doNotAllocate = decl.Constant
 	}
 
+	// The literal of a member is not as big as the union
+	union, isUnion := c.context.UnwrapAnonymous(decl.Type).(*ctypes.Union)
+	if isUnion {
+		c.doNotAllocate = false
+	}
+	if isUnion && decl.Constant {
+		definition := c.defineConstantUnion(decl.Name, union, valueCompiled.(constant.Constant))
+		c.constantUnions[definition] = valueCompiled.(constant.Constant)
+		c.declare(decl.Name, definition)
+		return
+	}
+
 	var val value.Value
 	if !c.doNotAllocate {
 		val = c.block().NewAlloca(t)
@@ -1099,17 +1119,48 @@ func (c *Compiler) defineConstantString(name string, characters constant.Constan
 		return definition
 	}
 
-	array := c.m.NewGlobalDef(name+".global_alloca."+random.RandomString(5), characters)
-	first := constant.NewInt(types.I32, 0)
-	pointer := constant.NewGetElementPtr(characters.Type(), array, first, first)
-	definition := c.m.NewGlobalDef(name+".global."+random.RandomString(5), pointer)
+	definition := c.m.NewGlobalDef(name+".global."+random.RandomString(5), c.defineCharacters(name, characters))
 	c.constantStrings[characters] = definition
 	return definition
 }
 
+// defineCharacters stores the characters in a global and returns the pointer to the first one
+func (c *Compiler) defineCharacters(name string, characters constant.Constant) constant.Constant {
+	array := c.m.NewGlobalDef(name+".global_alloca."+random.RandomString(5), characters)
+	first := constant.NewInt(types.I32, 0)
+	return constant.NewGetElementPtr(characters.Type(), array, first, first)
+}
+
+// defineConstantUnion returns a global as big as the union, that holds the constant of one of its members.
+func (c *Compiler) defineConstantUnion(name string, union *ctypes.Union, member constant.Constant) value.Value {
+	if types.IsArray(member.Type()) {
+		member = c.defineCharacters(name, member)
+	}
+
+	size := ctypes.NewPointer(ctypes.I8).SizeOf()
+	switch t := member.Type().(type) {
+	case *types.IntType:
+		size = int64(t.BitSize+7) / 8
+	case *types.FloatType:
+		size = 8
+		if t.Kind == types.FloatKindFloat {
+			size = 4
+		}
+	}
+
+	padding := constant.NewZeroInitializer(types.NewArray(uint64(union.SizeOf()-size), types.I8))
+	definition := c.m.NewGlobalDef(name+".global."+random.RandomString(5), constant.NewStruct(nil, member, padding))
+	definition.Align = ir.Align(union.Alignment())
+	return constant.NewBitCast(definition, types.NewPointer(c.ToLLVMType(union)))
+}
+
 // retrieveConstant returns the value of a constant
 func (c *Compiler) retrieveConstant(name string) constant.Constant {
 	if local := c.retrieveLocalVariable(name); local != nil {
+		if member, isUnion := c.constantUnions[local]; isUnion {
+			return member
+		}
+
 		return local.(constant.Constant)
 	}
 
-- 
2.43.0


From 34bcad6eabfbee3bab19a5fcce230e1de0e235a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 038/104] fix: only values of the members, and pointers to
 them, are stored as a union

---
 internals/semantic/semantic.go | 53 +++++++---------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 002ee66..8841bc9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -729,56 +729,25 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 	return false
 }
 
-// areTypesEqualIncludingUnions repetition of areTypesEqual but with union checks
-func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool {
-	first = s.UnwrapAnonymous(first)
-	second = s.UnwrapAnonymous(second)
-
-	if first == second {
-		return true
-	}
-
-	if union, isUnion := first.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, second)
-	}
+// areTypesEqualIncludingUnions is like areTypesEqual, but a value of one of its members can be stored in a union, and
+// a pointer to one of them in a pointer to the union. Functions and arrays of members aren't functions and arrays of unions.
+func (s *Semantic) areTypesEqualIncludingUnions(stored, value ctypes.Type) bool {
+	stored = s.UnwrapAnonymous(stored)
+	value = s.UnwrapAnonymous(value)
 
-	if union, isUnion := second.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, first)
-	}
-
-	if s.checkPossibleCommaTypeEquality(first, second) {
+	if stored == value {
 		return true
 	}
 
-	if ctypes.IsPointer(first) && ctypes.IsPointer(second) {
-		return s.areTypesEqualIncludingUnions(first.(*ctypes.Pointer).Inner, second.(*ctypes.Pointer).Inner)
-	}
-
-	if firstFunc, ok := first.(*ctypes.Function); ok {
-		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
-			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
-			return false
-		}
-		for i, param := range firstFunc.Parameters {
-			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
-				return false
-			}
-		}
-		return s.areTypesEqualIncludingUnions(firstFunc.Return, secondFunc.Return)
+	if union, isUnion := stored.(*ctypes.Union); isUnion {
+		return s.existsTypeInUnion(union, value)
 	}
 
-	if ctypes.IsArray(first) {
-		fArray := first.(*ctypes.Array)
-		sArray, ok := second.(*ctypes.Array)
-		if !ok {
-			return false
-		}
-
-		return fArray.Length == sArray.Length && s.areTypesEqualIncludingUnions(fArray.Inner, sArray.Inner)
+	if ctypes.IsPointer(stored) && ctypes.IsPointer(value) {
+		return s.areTypesEqualIncludingUnions(stored.(*ctypes.Pointer).Inner, value.(*ctypes.Pointer).Inner)
 	}
 
-	return false
+	return s.areTypesEqual(stored, value)
 }
 
 func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
-- 
2.43.0


From 691d409783a5b6ea54ebc920c097caaf91f47c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 039/104] fix: values that cannot be printed do not displace
 the other arguments of @print

---
 internals/compiler/compiler_format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index ba64922..894a88f 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -66,5 +66,7 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 	}
 
 	logger.Warning("The compiler is unable to print the following type on " + call.String() + ":\n " + t.String())
-	return ""
+	// nothing is printed for this value, the other ones keep their conversions
+	expressions[current+1] = c.createString("")
+	return "%s"
 }
-- 
2.43.0


From ea24dbd61293b8f66058d6a5186725de0e6e46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 040/104] fix: the strings of @print do not take the names of
 functions

---
 internals/compiler/compiler_utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..c8d56d9 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -1,6 +1,8 @@
 package compiler
 
 import (
+	"fmt"
+
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
@@ -12,7 +14,9 @@ func (c *Compiler) createString(s string) value.Value {
 	var globalDef value.Value
 	s += string(byte(0))
 	if definition, ok := c.globalBuiltinDefinitions[s]; !ok {
-		globalDef = c.m.NewGlobalDef(s[:len(s)-1], constant.NewCharArrayFromString(s))
+		// identifiers don't contain dots, no other global has this name
+		name := fmt.Sprintf("string.%d", len(c.m.Globals))
+		globalDef = c.m.NewGlobalDef(name, constant.NewCharArrayFromString(s))
 		c.globalBuiltinDefinitions[s] = globalDef
 	} else {
 		globalDef = definition
-- 
2.43.0


From b4d51837d337b0efa631b0227430da47a23aaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 041/104] fix: the escapes of character literals are recognized

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..145c83b 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From c58116f9de19ab6bb45dec0b3494874fe3fe4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 042/104] fix: the bytes of string and character literals that
 are not ASCII are kept

---
 internals/lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 145c83b..34e059d 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -257,12 +257,12 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s += string([]byte{l.ch})
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s += string([]byte{l.ch})
 		l.readChar()
 	}
 
@@ -270,7 +270,7 @@ func (l *Lexer) readString() string {
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
-- 
2.43.0


From 0ad52922d3aaf46016496450a58e63e2c8c7150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 043/104] fix: string literals without an end are rejected

---
 internals/lexer/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 34e059d..d9c080d 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -158,6 +158,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '"':
 		tok.Type = token.STRING
 		tok.Literal = l.readString()
+		if l.ch != '"' {
+			// the string doesn't end
+			tok.Type = token.ILLEGAL
+		}
 		tok.Line = l.line
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
-- 
2.43.0


From 240137d3b27ee8117dcecfc4a9b85dbce9d9fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 044/104] fix: errors at the end of the source show its last
 line

---
 internals/lexer/lexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index d9c080d..0b4a9e4 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -53,11 +53,13 @@ func (l *Lexer) skipUntilJL() {
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
-	currentColumn := t.OverallPosition - 1
-	if t.Type == token.EOF {
+	if len(l.input) == 0 {
+		return ""
+	}
+	if t.Type == token.EOF || t.OverallPosition >= len(l.input) {
 		t.OverallPosition = len(l.input) - 1
-		currentColumn = len(l.input) - 2
 	}
+	currentColumn := t.OverallPosition - 1
 	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
 		currentColumn--
 	}
-- 
2.43.0


From 5bf3c72f92c9d2e0439f8dabb6c0dc492acf5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 045/104] fix: every token has the line and the column of its
 first byte

---
 internals/lexer/lexer.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 0b4a9e4..c785ab1 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -35,10 +35,6 @@ func isLetter(ch byte) bool {
 
 func (l *Lexer) skipWhiteSpace() {
 	for l.ch == ' ' || l.ch == '\t' || l.ch == '\r' || l.ch == '\n' {
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
 		l.readChar()
 	}
 }
@@ -47,9 +43,6 @@ func (l *Lexer) skipUntilJL() {
 	for l.ch != '\n' && l.ch != 0 {
 		l.readChar()
 	}
-	l.readChar()
-	l.line++
-	l.column = 1
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
@@ -131,15 +124,25 @@ func (l *Lexer) getMacroToken() token.Token {
 	return l.newToken(token.ILLEGAL, macro)
 }
 
-// NextToken Returns the next token of an input
+// NextToken Returns the next token of an input, that is at the line and the column (from 1) of its first byte
 func (l *Lexer) NextToken() token.Token {
-	var tok token.Token
+	l.skipWhiteSpaceAndComments()
+	line, column := l.line, l.column
+	tok := l.readToken()
+	tok.Line, tok.Position = line, column
+	return tok
+}
+
+func (l *Lexer) skipWhiteSpaceAndComments() {
 	l.skipWhiteSpace()
 	for l.ch == '/' && l.peekChar() == '/' {
 		l.skipUntilJL()
 		l.skipWhiteSpace()
 	}
-	l.skipWhiteSpace()
+}
+
+func (l *Lexer) readToken() token.Token {
+	var tok token.Token
 	switch l.ch {
 	case '\'':
 		tok = l.readCharLiteral()
@@ -338,6 +341,14 @@ func (l *Lexer) readNumber() (string, token.TypeToken) {
 }
 
 func (l *Lexer) readChar() {
+	// Already at EOF
+	if l.readPosition > len(l.input) {
+		return
+	}
+	if l.ch == '\n' {
+		l.line++
+		l.column = 0
+	}
 	defer func() {
 		// next position is current position now
 		l.position = l.readPosition
-- 
2.43.0


From 4a1f089d40db50ba37347951a0183fed4d817bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 046/104] fix: function types can mention types that are
 compiled later

---
 internals/compiler/compiler_types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 9b64790..541d5df 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -170,6 +170,12 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				l := c.modules[el.Modules[0]].ToLLVMType(el)
 				return l
 			}
+
+			// Function types mention types by name, even ones that are compiled later
+			if t == nil {
+				return c.ToLLVMType(c.context.UnwrapAnonymous(el))
+			}
+
 			return t.llvmType
 		}
 
-- 
2.43.0


From 580f9a8e1696299dcb06023fe36eb1ac4c59eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 047/104] fix: arrays can only be cast to pointers and nothing
 to an array

---
 internals/semantic/semantic_builtin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 6dae778..09ba7cf 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,8 +24,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// arrays can only be cast to pointers
+	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
+		ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
 		castCall.Type = toType
 		return toType
 	}
-- 
2.43.0


From b54aabab8252ada5df29ee7e4a559110885c2cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 048/104] fix: a pointer cast to a float is converted through
 an integer

---
 internals/compiler/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4d71ea6..badf171 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1764,11 +1764,11 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
-		integer := c.block().NewPtrToInt(variable, toReturnType)
-		if _, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
+		if fl, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
+			integer := c.block().NewPtrToInt(variable, types.NewInt(uint64(fl.BitSize)))
 			return c.block().NewSIToFP(integer, toReturnType)
 		}
-		return integer
+		return c.block().NewPtrToInt(variable, toReturnType)
 	}
 
 	if ctypes.IsPointer(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) { ///types.IsInt(variable.Type()) {
-- 
2.43.0


From 603d825b7ddc482e0ae5b4baacdfafe4b5efc814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 049/104] fix: - of an i1 doesn't crash the compiler

---
 internals/compiler/compiler.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index badf171..4976b00 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -984,15 +984,13 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 
 	if prefix.Operation == ops.Subtract {
 		prefixValue = c.loadIfPointer(prefixValue)
-		var negativeOne value.Value
 		if ctypes.IsFloat(prefix.GetType()) {
-			negativeOne = constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
+			negativeOne := constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		// there is no -1 of type i1
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
-- 
2.43.0


From 25347d1558023718f3270ca540f4e625d6c1484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 050/104] fix: only numbers and pointers can be compared or
 combined with && and ||

---
 internals/semantic/semantic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8841bc9..19ee793 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1376,6 +1376,8 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
-- 
2.43.0


From 7952f7679c60f86117276ac49a4c8bdd9d6468a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 051/104] fix: & | and ^ are rejected on floats

---
 internals/semantic/semantic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 19ee793..97a46b8 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1382,6 +1382,12 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 		return ctypes.I1
 	}
 
+	if ctypes.IsFloat(left) && (binaryOperation.Operation == ops.BinaryAND || binaryOperation.Operation == ops.BinaryOR ||
+		binaryOperation.Operation == ops.BinaryXOR) {
+		s.cantOperateThisOperationError(binaryOperation, left, right)
+		return left
+	}
+
 	if ctypes.IsNumeric(left) {
 		return left
 	}
-- 
2.43.0


From f35253227be4f017b172c49489676a09780472c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 052/104] fix: the length of @alloc has to be an integer

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 09ba7cf..4161b08 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -48,7 +48,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.replaceAnonymous(allocCall.TypeParameters[0])
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
-- 
2.43.0


From c6488be95790af356d09a07fdce9e76844f15bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 053/104] fix: a call without a value can't be printed

---
 internals/semantic/semantic_builtin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 4161b08..805bb5a 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -63,7 +63,9 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		if s.analyzeExpression(param) == ctypes.VoidType {
+			s.errorWithStatement("can't print "+param.String()+", it has no value", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From 8de29aa52fb0dd21592434343b52c05b23b94ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 054/104] fix: a call without a value is no condition of a loop

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 97a46b8..deb3390 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -323,7 +323,7 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 
 	condition := s.analyzeExpression(forStatement.Condition)
 
-	if !ctypes.IsNumeric(condition) && condition != ctypes.VoidType {
+	if !ctypes.IsNumeric(condition) {
 		s.typeMismatchError(forStatement.Condition.String(), forStatement.Condition, forStatement.Token, ctypes.I1, condition)
 	}
 
-- 
2.43.0


From b80461daa6945dabf8dc25f35b9278be4954db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 055/104] fix: a call without a value can't be referenced

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index deb3390..1c0e9dc 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1069,6 +1069,9 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 
 	if prefixOperation.Operation == ops.BinaryAND {
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
+		if t == ctypes.VoidType {
+			s.errorWithStatement("can't reference "+prefixOperation.Right.String()+", it has no value", prefixOperation.Token)
+		}
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
-- 
2.43.0


From 3779c0710de7ccbbad281b6df0f06e23235756e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 056/104] fix: a mismatched operand that is cast in an error
 has a type

---
 internals/semantic/semantic_errors.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 9b3b86d..935df16 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/node"
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/pkg/format"
@@ -174,23 +175,24 @@ func (s *Semantic) typeMismatchBlameArithmeticExpressionError(node string, binar
 	s.typeMismatchBlameBinaryExpressionError(binary.String(), binary, tok, expected, got, blameRight)
 }
 
+func castExpression(expression ast.Expression, t ctypes.Type) ast.Expression {
+	return &ast.BuiltinCall{
+		Node:           &node.Node{Token: expression.GetToken(), Type: t},
+		Name:           "cast",
+		TypeParameters: []ctypes.Type{t},
+		Parameters:     []ast.Expression{expression},
+	}
+}
+
 // Type mismatch for every binary operation
 func (s *Semantic) typeMismatchBlameBinaryExpressionError(node string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
 	s.checkDereferenceOnArithmeticErrors(binary.Left.GetType(), binary.Right.GetType(), binary, true)
 	wrongLine := s.getCurrentStatementLineFormatted()
 	// Decide which side of the operation do you want to cast
 	if blameRight {
-		binary.Right = &ast.BuiltinCall{
-			Name:           "cast",
-			TypeParameters: []ctypes.Type{expected},
-			Parameters:     []ast.Expression{binary.Right},
-		}
+		binary.Right = castExpression(binary.Right, expected)
 	} else {
-		binary.Left = &ast.BuiltinCall{
-			Name:           "cast",
-			TypeParameters: []ctypes.Type{got},
-			Parameters:     []ast.Expression{binary.Left},
-		}
+		binary.Left = castExpression(binary.Left, got)
 	}
 	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, node, strings.Repeat("^", len(node)), expected.String(), got.String())
 	if ctypes.IsNumeric(expected) && ctypes.IsNumeric(got) {
-- 
2.43.0


From 9100b896770b11d323fbe3203ae82b718e209d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 057/104] fix: a call without a value can't be an element of a
 list

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1c0e9dc..4eb40fc 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -858,6 +858,9 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 	for _, expression := range commaExpressions.Expressions {
 		t := s.analyzeExpression(expression)
 		t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+		if t == ctypes.VoidType {
+			s.errorWithStatement("can't use "+expression.String()+" in a list, it has no value", commaExpressions.Token)
+		}
 		commaExpressionsType.Types = append(commaExpressionsType.Types, t)
 	}
 
-- 
2.43.0


From 58e6d7279cc27c3305a693b2089f463115cec4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 058/104] fix: a missing type is an error of the parser

---
 internals/parser/parser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..4db840a 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -372,7 +372,7 @@ func (p *Parser) parseAnonymousFunction() ast.Expression {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isTypeStart() {
 		returnType = p.parseTypes()
 	}
 
@@ -412,7 +412,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Statement {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isTypeStart() {
 		returnType = p.parseTypes()
 	}
 
@@ -717,7 +717,17 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type")
+	return ctypes.TODO()
+}
+
+// isTypeStart tells whether a type can start with the current token
+func (p *Parser) isTypeStart() bool {
+	switch p.currentToken.Type {
+	case token.LPAREN, token.ASTERISK, token.IDENT, token.FUNCTION, token.LBRACKET:
+		return true
+	}
+	return false
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
-- 
2.43.0


From f049c01f2e10d3ca2c671a22629f31fd283663a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 059/104] fix: ! has the type i1 in the expressions around it

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4eb40fc..ae4c7dd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1041,6 +1041,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
-- 
2.43.0


From 480a1ced430650bb551f448f008dd4b5edb4ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 060/104] fix: every place of an assignment to a list is
 checked

---
 internals/parser/parser_assignment.go | 38 ++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..791832d 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -7,28 +7,36 @@ import (
 	"github.com/gabivlj/candice/internals/token"
 )
 
+// checkAssignable adds an error if the expression isn't a place that can be assigned to
+func (p *Parser) checkAssignable(expression ast.Expression) {
+	switch left := expression.(type) {
+	case *ast.BinaryOperation:
+		if left.Operation != ops.Dot {
+			p.addErrorMessage("this operation is not permitted in an assignment")
+		}
+	case *ast.IndexAccess:
+	case *ast.PrefixOperation:
+		if left.Operation != ops.Multiply {
+			p.addErrorMessage("this prefix is not permitted in an assignment")
+		}
+	case *ast.Identifier:
+	default:
+		p.addErrorMessage("this operation is not permitted in an assignment")
+	}
+}
+
 func (p *Parser) parsePossibleAssignment() ast.Statement {
 	expr := p.parseExpression(0)
 	// log.Println(expr)
 	if bin, ok := expr.(*ast.BinaryOperation); ok {
 		if bin.Operation == ops.TempAssign {
-			switch left := bin.Left.(type) {
-			case *ast.BinaryOperation:
-				if left.Operation != ops.Dot {
-					p.addErrorMessage("this operation is not permitted in an assignment")
-				}
-			case *ast.CommaExpressions:
+			if left, isComma := bin.Left.(*ast.CommaExpressions); isComma {
 				left.IsAssignment = true
-			case *ast.IndexAccess:
-			case *ast.PrefixOperation:
-				if left.Operation != ops.Multiply {
-					p.addErrorMessage("this prefix is not permitted in an assignment")
-				}
-			case *ast.Identifier:
-			default:
-				{
-					p.addErrorMessage("this operation is not permitted in an assignment")
+				for _, expression := range left.Expressions {
+					p.checkAssignable(expression)
 				}
+			} else {
+				p.checkAssignable(bin.Left)
 			}
 
 			return &ast.AssignmentStatement{
-- 
2.43.0


From 80398a18e746dbb5b42f969accebd21db199ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 061/104] fix: a declaration of several names that aren't
 identifiers is an error of the parser

---
 internals/parser/parser_assignment.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 791832d..32f58e2 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -53,6 +53,13 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 	}
 
 	if commaExpr, ok := expr.(*ast.CommaExpressions); ok && p.currentToken.Type == token.COLON {
+		for _, name := range commaExpr.Expressions {
+			if _, isIdentifier := name.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("only identifiers can be declared")
+				return &ast.ExpressionStatement{Token: p.currentToken, Expression: expr}
+			}
+		}
+
 		declToken := p.nextToken()
 		var t ctypes.Type = ctypes.TODO()
 		if token.ASSIGN != p.currentToken.Type {
-- 
2.43.0


From 8eb13242651a9a451a9f4c02fcb321beb583a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 062/104] fix: every type that is mentioned has to exist

---
 internals/compiler/compiler_types.go   |  3 +++
 internals/semantic/semantic.go         | 26 +++++++++++++++++++++++++-
 internals/semantic/semantic_builtin.go |  4 ++--
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 541d5df..30ce723 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -173,6 +173,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 
 			// Function types mention types by name, even ones that are compiled later
 			if t == nil {
+				if el == ctypes.TODO() {
+					c.exitInternalError("unknown type in the compiler")
+				}
 				return c.ToLLVMType(c.context.UnwrapAnonymous(el))
 			}
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ae4c7dd..5d2e742 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -277,6 +277,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
+	s.replaceAnonymous(funk)
 	s.variables.Add(funk.Name, s.newType(funk))
 }
 
@@ -473,6 +474,8 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if function, isFunction := unwrappedType.(*ctypes.Function); isFunction {
+			s.replaceAnonymous(function)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -500,6 +503,8 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if function, isFunction := unwrappedType.(*ctypes.Function); isFunction {
+			s.replaceAnonymous(function)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -639,6 +644,24 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return arr
 	}
 
+	if list, ok := t.(*ctypes.TypeList); ok {
+		for i := range list.Types {
+			list.Types[i] = s.replaceAnonymous(list.Types[i])
+		}
+		return t
+	}
+
+	// Function types keep the names of their types, but they have to exist
+	if function, ok := t.(*ctypes.Function); ok {
+		for _, parameter := range function.Parameters {
+			s.replaceAnonymous(parameter)
+		}
+		if function.Return != nil {
+			s.replaceAnonymous(function.Return)
+		}
+		return t
+	}
+
 	if _, stopRecursionForStruct := t.(*ctypes.Struct); stopRecursionForStruct {
 		return t
 	}
@@ -909,6 +932,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
 	arrayType := arrayLiteral.Type.(*ctypes.Array)
+	s.replaceAnonymous(arrayType)
 	currType := arrayType.Inner
 
 	if int(arrayType.Length) < len(arrayLiteral.Values) {
@@ -1328,7 +1352,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 }
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
-	t := s.UnwrapAnonymous(blockExpression.Type)
+	t := s.replaceAnonymous(s.UnwrapAnonymous(blockExpression.Type))
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
 	defer func() {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 805bb5a..925afab 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -22,7 +22,7 @@ func (s *Semantic) analyzeAddCompilerFlag(addCompilerFlag *ast.BuiltinCall) ctyp
 func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
-	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
+	toType := s.replaceAnonymous(s.UnwrapAnonymous(castCall.TypeParameters[0]))
 	castCall.TypeParameters[0] = toType
 	// arrays can only be cast to pointers
 	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
@@ -129,5 +129,5 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
-	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
+	return s.replaceAnonymous(s.UnwrapAnonymous(asmCall.TypeParameters[0]))
 }
-- 
2.43.0


From 35cbe09c7bbd87b6daae04f74b7b23a4ce7e8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 063/104] fix: main can be public

---
 internals/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 4db840a..ce322a1 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -219,7 +219,8 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
-	fn.FunctionType.RedefineWithOriginalName = true
+	// main already has its original name
+	fn.FunctionType.RedefineWithOriginalName = fn.FunctionType.Name != fn.FunctionType.ExternalName
 	return fn
 }
 
-- 
2.43.0


From d3200278aa053e118117f86ffc4575fd2f39c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 064/104] fix: types that contain themselves through arrays and
 other types are rejected

---
 internals/semantic/semantic.go       |  1 +
 internals/semantic/semantic_steps.go | 58 +++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5d2e742..ce964ec 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -153,6 +153,7 @@ func (s *Semantic) Analyze(program *ast.Program) {
 
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	s.checkRecursiveTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..d58b9bc 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,9 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
+)
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -84,3 +87,56 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// checkRecursiveTypes rejects the structs and unions that contain themselves, directly or through arrays and other types.
+func (s *Semantic) checkRecursiveTypes(statements []ast.Statement) {
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.StructStatement:
+			if s.containsType(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+				s.error("Recursive type detected", t.Token)
+			}
+
+		case *ast.UnionStatement:
+			if s.containsType(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+				s.error("Recursive type detected", t.Token)
+			}
+
+		case *ast.MacroBlock:
+			s.checkRecursiveTypes(t.Statements)
+		}
+	}
+}
+
+// containsType tells whether some of the fields stores a value of the searched type.
+func (s *Semantic) containsType(fields []ctypes.Type, searched ctypes.Type, visited map[ctypes.Type]bool) bool {
+	for _, field := range fields {
+		field = s.UnwrapAnonymous(field)
+		for ctypes.IsArray(field) {
+			field = s.UnwrapAnonymous(field.(*ctypes.Array).Inner)
+		}
+
+		if field == searched {
+			return true
+		}
+
+		if visited[field] {
+			continue
+		}
+		visited[field] = true
+
+		switch t := field.(type) {
+		case *ctypes.Struct:
+			if s.containsType(t.Fields, searched, visited) {
+				return true
+			}
+		case *ctypes.Union:
+			if s.containsType(t.Fields, searched, visited) {
+				return true
+			}
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 964f69e3cfa35e224caa94f4cfd56fd2b83ad1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 065/104] fix: types that are called main don't crash the
 compiler

---
 internals/ast/mod.go           | 7 ++++++-
 internals/semantic/semantic.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index ebce0b5..66a1eb5 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -71,7 +71,12 @@ func RetrieveID(name string) string {
 }
 
 func RetrieveRightID(name string) string {
-	return strings.Split(name, "-")[1]
+	parts := strings.Split(name, "-")
+	if len(parts) < 2 {
+		// main doesn't have an ID
+		return ""
+	}
+	return parts[1]
 }
 
 type Function interface {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ce964ec..08e0825 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -588,7 +588,7 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 			id := ast.RetrieveRightID(anonymous.Name)
 			semantic = s.modules[id]
 			// Unexisting module, it is this module
-			if semantic == nil && s.Root.ID == id {
+			if semantic == nil && (s.Root.ID == id || id == "") {
 				semantic = s
 			} else if semantic == nil {
 				logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
-- 
2.43.0


From 00e014a36ebd613a64a69dec629a4a35c4ccca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 066/104] fix: a return outside of a function is an error

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 08e0825..5ed6727 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -451,6 +451,11 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 }
 
 func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement) {
+	if !s.analyzingInsideFunction() {
+		s.expectStatementInsideFunction(returnStatement.Token)
+		return
+	}
+
 	theType := s.UnwrapAnonymous(s.analyzeExpression(returnStatement.Expression))
 	if !s.areTypesEqual(theType, s.currentExpectedReturnType) {
 		s.typeMismatchError(returnStatement.String(), returnStatement.Expression, returnStatement.Token, s.currentExpectedReturnType, theType)
-- 
2.43.0


From 7392ec09280a46fc55b5a1b26f0987b3fd94d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 067/104] fix: @unreachable has no value

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 925afab..c034a34 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -57,7 +57,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 	s.returns = true
-	return s.currentExpectedReturnType
+	return ctypes.VoidType
 }
 
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
-- 
2.43.0


From be864abbf762a8c7250abb80136222723bc59e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 068/104] fix: a parameter can have the name of its function

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4976b00..a0d00e2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -598,7 +598,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	llvmFunction := c.compileFunctionType(name, funk)
 
 	// Create a main block to the function
-	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name))
+	// (no parameter has the name of the block)
+	c.pushBlock(llvmFunction.NewBlock("function.entry"))
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
-- 
2.43.0


From 689ab037d94891a7447005b1db53e6c836ec1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 069/104] fix: functions, types, fields and parameters can be
 declared only once

---
 internals/semantic/semantic.go       |  3 +++
 internals/semantic/semantic_steps.go | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5ed6727..ca7b179 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -264,6 +264,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
 	s.replaceAnonymous(typeDef.Type)
 	trueType := s.UnwrapAnonymous(typeDef.Type)
+	s.checkTypeIsNew(typeDef.Name, typeDef.Token)
 	typeDef.Type = trueType
 	s.definedTypes[typeDef.Name] = trueType
 }
@@ -359,6 +360,8 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 		fun.Return = ctypes.VoidType
 	}
 
+	s.checkNamesAreDifferent(fun.Names, functionToken)
+
 	temporaryFunctionAnalyzed := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = fun
 	s.enterFrame()
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index d58b9bc..8c6f608 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -3,6 +3,7 @@ package semantic
 import (
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/token"
 )
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
@@ -11,11 +12,15 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.UnionStatement:
 			{
+				s.checkTypeIsNew(t.Type.Name, t.Token)
+				s.checkNamesAreDifferent(t.Type.Names, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
 		case *ast.StructStatement:
 			{
+				s.checkTypeIsNew(t.Type.Name, t.Token)
+				s.checkNamesAreDifferent(t.Type.Names, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
@@ -27,12 +32,33 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	}
 }
 
+func (s *Semantic) checkTypeIsNew(name string, tok token.Token) {
+	if _, isDefined := s.definedTypes[name]; isDefined {
+		s.errorWithStatement("the type "+ast.RetrieveID(name)+" is already defined", tok)
+	}
+}
+
+// checkNamesAreDifferent rejects fields and parameters that are declared more than once.
+func (s *Semantic) checkNamesAreDifferent(names []string, tok token.Token) {
+	declared := map[string]bool{}
+	for _, name := range names {
+		if declared[name] {
+			s.errorWithStatement(ast.RetrieveID(name)+" is declared more than once", tok)
+			return
+		}
+		declared[name] = true
+	}
+}
+
 func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
 		switch t := statement.(type) {
 		case *ast.FunctionDeclarationStatement:
 			{
+				if s.variables.Get(t.FunctionType.Name) != nil {
+					s.errorWithStatement("the function "+ast.RetrieveID(t.FunctionType.Name)+" is already defined", t.Token)
+				}
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-- 
2.43.0


From 454ebfc643eaca9871fbb3b90090cd8f2afba84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 070/104] fix: declarations that are only known on the root are
 rejected in functions

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ca7b179..4e140b6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -178,6 +178,16 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 
 	s.currentStatementBeingAnalyzed = statement
 
+	switch statement.(type) {
+	case *ast.UnionStatement, *ast.StructStatement, *ast.ImportStatement, *ast.ExternStatement,
+		*ast.FunctionDeclarationStatement, *ast.GenericTypeDefinition, *ast.TypeDefinition:
+		// the steps before only look for these on the root
+		if s.analyzingInsideFunction() {
+			s.errorWithStatement("this declaration should be on the root of the source file, but it's inside a function", statement.GetToken())
+			return
+		}
+	}
+
 	switch statementType := statement.(type) {
 	case *ast.MultipleDeclarationStatement:
 		{
-- 
2.43.0


From a7bd71e74c249dae05805cfaff16e6eba1189827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 071/104] fix: a global that is declared again doesn't take the
 place of the first one

---
 internals/compiler/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a0d00e2..3a52124 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -792,6 +792,8 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		c.doNotAllocate = false
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
+			// It might be the name of an earlier global as well
+			delete(c.globalVariables, decl.Name+".global")
 			if union, isUnion := c.context.UnwrapAnonymous(decl.Type).(*ctypes.Union); isUnion {
 				definition := c.defineConstantUnion(decl.Name, union, valueCompiled.(constant.Constant))
 				c.globalVariables[decl.Name+".global"] = &Value{Value: definition, Type: decl.Type}
@@ -1096,7 +1098,7 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 				return global
 			}
 
-			globalDefPointer := c.m.NewGlobalDef(name+".global", global)
+			globalDefPointer := c.m.NewGlobalDef(name+".global."+random.RandomString(5), global)
 			globalDefPointer.Immutable = false
 			c.globalVariables[name+".global"] = &Value{Value: globalDefPointer, Type: fn.Type}
 
-- 
2.43.0


From 6cf5baec1bc55b6232c327d7f9a5707b7a5ddd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 072/104] fix: global variables that hold functions can be
 assigned

---
 internals/compiler/compiler.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 3a52124..a4013da 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -797,6 +797,10 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 			if union, isUnion := c.context.UnwrapAnonymous(decl.Type).(*ctypes.Union); isUnion {
 				definition := c.defineConstantUnion(decl.Name, union, valueCompiled.(constant.Constant))
 				c.globalVariables[decl.Name+".global"] = &Value{Value: definition, Type: decl.Type}
+			} else if ctypes.IsFunction(decl.Type) && !decl.Constant {
+				// The variable isn't the function that it starts with
+				definition := c.m.NewGlobalDef(decl.Name+".global."+random.RandomString(5), valueCompiled.(constant.Constant))
+				c.globalVariables[decl.Name+".global"] = &Value{Value: definition, Type: decl.Type}
 			}
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
@@ -1079,11 +1083,11 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	}
 
 	if fn, ok := c.globalVariables[name]; ok {
-		if !ctypes.IsFunction(fn.Type) {
-			if existing, exists := c.globalVariables[name+".global"]; exists {
-				return existing.Value
-			}
+		if existing, exists := c.globalVariables[name+".global"]; exists {
+			return existing.Value
+		}
 
+		if !ctypes.IsFunction(fn.Type) {
 			global := fn.Value.(constant.Constant)
 
 			// If it is an array we must allocate it as a global, and its pointer as well so we can use it normally,
-- 
2.43.0


From 5df8d78d28c478750b70ae477f7e30aa8f886cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 073/104] fix: functions can't be assigned

---
 internals/semantic/semantic.go       | 2 +-
 internals/semantic/semantic_steps.go | 2 +-
 internals/semantic/semantic_type.go  | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4e140b6..9bca887 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -290,7 +290,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
 	s.replaceAnonymous(funk)
-	s.variables.Add(funk.Name, s.newType(funk))
+	s.variables.Add(funk.Name, s.newFunctionType(funk))
 }
 
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 8c6f608..0cd5416 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -62,7 +62,7 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
+				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
 		case *ast.MacroBlock:
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index 9166a63..a4da4d8 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -22,6 +22,14 @@ func (s *Semantic) newType(t ctypes.Type) *SemanticType {
 	}
 }
 
+// newFunctionType is the type of a function that is declared, which can't be assigned.
+func (s *Semantic) newFunctionType(function *ctypes.Function) *SemanticType {
+	t := s.newType(function)
+	t.IsConstant = true
+	t.IsRuntimeConstant = true
+	return t
+}
+
 func (s *Semantic) wrapInOperators(expression ast.Expression, times int, operator ops.Operation) ast.Expression {
 	newType := expression.GetType()
 	if operator == ops.Multiply {
-- 
2.43.0


From 7d89d752256de7135c74f4261febfd2274ac1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 074/104] fix: a global can't have the name of a function of
 its file

---
 internals/semantic/semantic.go      | 5 +++++
 internals/semantic/semantic_type.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9bca887..d87c5c7 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -561,6 +561,11 @@ func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationState
 		return
 	}
 
+	if previous := s.variables.Get(declaration.Name); previous != nil && previous.IsDeclaredFunction && !s.analyzingInsideFunction() {
+		s.errorWithStatement("the function "+ast.RetrieveID(declaration.Name)+" is already defined", declaration.Token)
+		return
+	}
+
 	originalExpression := declaration.Expression
 	declaration.Expression = originalExpression
 
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index a4da4d8..ef39dc1 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -13,6 +13,8 @@ type SemanticType struct {
 	IsConstant     bool
 	// IsRuntimeConstant is a constant whose value is only known at run time
 	IsRuntimeConstant bool
+	// IsDeclaredFunction is a function that is declared on the root or extern
+	IsDeclaredFunction bool
 }
 
 func (s *Semantic) newType(t ctypes.Type) *SemanticType {
@@ -27,6 +29,7 @@ func (s *Semantic) newFunctionType(function *ctypes.Function) *SemanticType {
 	t := s.newType(function)
 	t.IsConstant = true
 	t.IsRuntimeConstant = true
+	t.IsDeclaredFunction = true
 	return t
 }
 
-- 
2.43.0


From 02aa050456cfc6540835baa74b81b16d4c5d6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 075/104] fix: calls with too few arguments for a variadic
 function are rejected

---
 internals/semantic/semantic.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d87c5c7..c17ab69 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1000,8 +1000,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
-
+	if len(call.Parameters) < len(funcType.Parameters) || len(call.Parameters) > len(funcType.Parameters) && !funcType.InfiniteParameters {
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
 
-- 
2.43.0


From d2cb3545963503bb3a2fc0be0f5da49a4e5a8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 076/104] fix: arguments of variadic functions are promoted as
 C does

---
 internals/compiler/compiler.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a4013da..59eccca 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1190,13 +1190,39 @@ func (c *Compiler) compileBuiltinFunctionCall(ast *ast.BuiltinCall) value.Value
 	panic("")
 }
 
+// promoteVariadicArgument converts the arguments that don't have a parameter as C does, integers smaller than an int
+// are passed as an int and floats as a double.
+func (c *Compiler) promoteVariadicArgument(t ctypes.Type, argument value.Value) value.Value {
+	switch argumentType := argument.Type().(type) {
+	case *types.FloatType:
+		if argumentType.Kind == types.FloatKindFloat {
+			return c.block().NewFPExt(argument, types.Double)
+		}
+
+	case *types.IntType:
+		if argumentType.BitSize >= 32 {
+			return argument
+		}
+		if argumentType.BitSize == 1 || ctypes.IsUnsignedInteger(t) {
+			return c.block().NewZExt(argument, types.I32)
+		}
+		return c.block().NewSExt(argument, types.I32)
+	}
+
+	return argument
+}
+
 func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	left := c.compileExpression(ast.Left)
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
-	for _, argument := range ast.Parameters {
+	function, isFunction := ast.Left.GetType().(*ctypes.Function)
+	for i, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
+		if isFunction && function.InfiniteParameters && i >= len(function.Parameters) {
+			loadedValue = c.promoteVariadicArgument(argument.GetType(), loadedValue)
+		}
 		arguments = append(arguments, loadedValue)
 	}
 	thing := c.block().NewCall(funk, arguments...)
-- 
2.43.0


From f69c5d0888d106653669420a12472fd05805c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 077/104] fix: variables of a variadic function type

---
 internals/compiler/compiler_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 30ce723..da11804 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -189,8 +189,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			for _, param := range el.Parameters {
 				parameters = append(parameters, c.ToLLVMType(param))
 			}
-			function := types.NewPointer(types.NewFunc(returnType, parameters...))
-			return function
+			function := types.NewFunc(returnType, parameters...)
+			function.Variadic = el.InfiniteParameters
+			return types.NewPointer(function)
 		}
 	}
 
-- 
2.43.0


From a40c9249e2199cfa23623b988d5c2e812b10d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 078/104] fix: several values aren't printed or referenced as
 one

---
 internals/semantic/semantic.go         | 3 +++
 internals/semantic/semantic_builtin.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c17ab69..abc2a49 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1123,6 +1123,9 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 		if t == ctypes.VoidType {
 			s.errorWithStatement("can't reference "+prefixOperation.Right.String()+", it has no value", prefixOperation.Token)
 		}
+		if _, isList := t.(*ctypes.TypeList); isList {
+			s.errorWithStatement("can't reference "+prefixOperation.Right.String()+", it has several values", prefixOperation.Token)
+		}
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index c034a34..b1beaec 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -63,9 +63,13 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		if s.analyzeExpression(param) == ctypes.VoidType {
+		t := s.analyzeExpression(param)
+		if t == ctypes.VoidType {
 			s.errorWithStatement("can't print "+param.String()+", it has no value", printCall.Token)
 		}
+		if _, isList := t.(*ctypes.TypeList); isList {
+			s.errorWithStatement("can't print "+param.String()+", it has several values", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From 85bac5ab18a8e8f3c7f8d4a2a91d76fa85380601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 079/104] fix: type parameters of the same name from different
 files are different imports

---
 internals/semantic/semantic.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index abc2a49..2612bc8 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1332,7 +1332,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeKey(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
@@ -1377,6 +1377,37 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	s.modules[importStatement.Name] = internalSemantic
 }
 
+// typeKey is like the string of a type, but structs and unions of the same name that come from
+// different files have different keys.
+func typeKey(t ctypes.Type) string {
+	switch el := t.(type) {
+	case *ctypes.Pointer:
+		return "*" + typeKey(el.Inner)
+	case *ctypes.Array:
+		return fmt.Sprintf("[%d]%s", el.Length, typeKey(el.Inner))
+	case *ctypes.Function:
+		key := strings.Builder{}
+		key.WriteString("func(")
+		for _, param := range el.Parameters {
+			key.WriteString(typeKey(param))
+			key.WriteByte(',')
+		}
+		key.WriteByte(')')
+		key.WriteString(typeKey(el.Return))
+		return key.String()
+	case *ctypes.TypeList:
+		key := strings.Builder{}
+		for _, inner := range el.Types {
+			key.WriteString(typeKey(inner))
+			key.WriteByte(';')
+		}
+		return key.String()
+	case ctypes.FieldType:
+		return el.GetName()
+	}
+	return t.String()
+}
+
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
 	t := s.replaceAnonymous(s.UnwrapAnonymous(blockExpression.Type))
 	tmpReturns := s.returns
-- 
2.43.0


From 4026c9e721af6b43376533c56fe910963d1a373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 080/104] fix: import cycles are an error

---
 internals/semantic/semantic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2612bc8..d62563c 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -64,6 +64,9 @@ type Semantic struct {
 
 var paths map[string]*Semantic = map[string]*Semantic{}
 
+// importing holds the paths of the files that are being imported right now
+var importing map[string]bool = map[string]bool{}
+
 func (s *Semantic) SizeOf() int64 {
 	return 0
 }
@@ -1342,6 +1345,12 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.modules[existingSemantic.Root.ID] = existingSemantic
 		return
 	}
+	if importing[currentPathPlusImport] {
+		s.errorWithStatement(fmt.Sprintf("import cycle, the file with path %s imports itself", importStatement.Path), importStatement.Token)
+		return
+	}
+	importing[currentPathPlusImport] = true
+	defer delete(importing, currentPathPlusImport)
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0


From 5a1267a9198620344e062514106f158c121047c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 081/104] fix: the types in function types are the ones of the
 module that mentions them

---
 internals/semantic/semantic.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d62563c..110e3b4 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -678,13 +678,12 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return t
 	}
 
-	// Function types keep the names of their types, but they have to exist
 	if function, ok := t.(*ctypes.Function); ok {
-		for _, parameter := range function.Parameters {
-			s.replaceAnonymous(parameter)
+		for i, parameter := range function.Parameters {
+			function.Parameters[i] = s.replaceAnonymous(parameter)
 		}
 		if function.Return != nil {
-			s.replaceAnonymous(function.Return)
+			function.Return = s.replaceAnonymous(function.Return)
 		}
 		return t
 	}
-- 
2.43.0


From 6463b7e3c21078cef877f9cccf1a3825ca1e3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 082/104] fix: modules aren't values, and variables of
 functions hide them

---
 internals/semantic/semantic.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 110e3b4..0c47459 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1026,10 +1026,19 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	return call.Type
 }
 
+// namesModule tells whether the identifier is a module. Parameters and variables of functions hide modules.
+func (s *Semantic) namesModule(identifier *ast.Identifier) bool {
+	if _, isModule := s.modules[identifier.Name]; !isModule {
+		return false
+	}
+	variable := s.variables.Get(identifier.Name)
+	return variable == nil || variable.parentFunction == nil
+}
+
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
-	if module, ok := s.modules[identifier.Name]; ok {
-		identifier.Type = module
-		return module
+	if s.namesModule(identifier) {
+		s.errorWithStatement("the module "+ast.RetrieveID(identifier.Name)+" can't be used as a value", identifier.Token)
+		return ctypes.TODO()
 	}
 
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
@@ -1221,12 +1230,15 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 }
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	if name, isIdentifier := binaryOperation.Left.(*ast.Identifier); isIdentifier && s.namesModule(name) {
+		module := s.modules[name.Name]
+		name.Type = module
+		return s.analyzeModuleAccess(module, binaryOperation)
+	}
+
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
-	if module, isModule := left.(*Semantic); isModule {
-		return s.analyzeModuleAccess(module, binaryOperation)
-	}
 
 	identifier, ok := binaryOperation.Right.(*ast.Identifier)
 	if !ok {
-- 
2.43.0


From 786180f856eda928347950e2b7ac0dcd2d634695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 083/104] fix: constants of modules can't be mutated

---
 internals/semantic/semantic.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 0c47459..9bcc967 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1026,6 +1026,19 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	return call.Type
 }
 
+// checkConstantAccess reports constants that are mutated and variables in constant expressions.
+func (s *Semantic) checkConstantAccess(variable *SemanticType, identifier *ast.Identifier) {
+	isConstantExpression := variable.IsConstant && !variable.IsRuntimeConstant
+
+	if !isConstantExpression && s.expectConstantExpression {
+		s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
+	}
+
+	if variable.IsConstant && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
+	}
+}
+
 // namesModule tells whether the identifier is a module. Parameters and variables of functions hide modules.
 func (s *Semantic) namesModule(identifier *ast.Identifier) bool {
 	if _, isModule := s.modules[identifier.Name]; !isModule {
@@ -1044,15 +1057,9 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		isConstantExpression := identifierType.IsConstant && !identifierType.IsRuntimeConstant
-
-		if !isConstantExpression && s.expectConstantExpression {
-			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
-		}
+		s.checkConstantAccess(identifierType, identifier)
 
-		if identifierType.IsConstant && s.expectNonConstantExpression {
-			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
-		}
+		isConstantExpression := identifierType.IsConstant && !identifierType.IsRuntimeConstant
 
 		// Constant expressions are inlined where they are used, so anonymous functions don't need to capture them
 		if !isConstantExpression && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
@@ -1191,6 +1198,8 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	s.checkConstantAccess(accessedElement, identifier)
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From 9652b25dd187caa1a438e1849398119c50f4ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 084/104] fix: imports with more types than the file has type
 parameters are rejected

---
 internals/parser/parser.go     | 5 +++++
 internals/semantic/semantic.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index ce322a1..0d38ca9 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -247,6 +247,11 @@ func (p *Parser) parseGenericTypeDefinition() ast.Statement {
 	}
 }
 
+// UnusedTypeParameters is the number of TypeParameters that the parsed file has no generic type for.
+func (p *Parser) UnusedTypeParameters() int {
+	return len(p.TypeParameters) - p.currentTypeParameter
+}
+
 func (p *Parser) parseStaticArray() ast.Expression {
 	t := p.parseType()
 	if _, ok := t.(*ctypes.Array); !ok {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9bcc967..59702e5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1387,6 +1387,11 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		return
 	}
 
+	if unused := p.UnusedTypeParameters(); unused > 0 {
+		s.errorWithStatement(fmt.Sprintf("the imported file has %d type parameters, but %d types are given", len(types)-unused, len(types)), importStatement.Token)
+		return
+	}
+
 	internalSemantic := New()
 	// Get the local directory where the user is importing
 	dir, _ := path.Split(importStatement.Path.Value)
-- 
2.43.0


From 1788a8771f993398dc2453ea497251b8486e89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 085/104] fix: constants of modules in constant expressions

---
 internals/compiler/compiler_constant.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index f54cd77..23b17f8 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -5,6 +5,7 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 
 	"github.com/gabivlj/candice/internals/ops"
+	"github.com/gabivlj/candice/internals/semantic"
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/types"
 )
@@ -83,6 +84,9 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	case *ast.Identifier:
 		return c.retrieveConstant(expr.Name)
 	case *ast.BinaryOperation:
+		if module, isModule := expr.Left.GetType().(*semantic.Semantic); isModule {
+			return c.compiledModules[module.Root.ID].retrieveConstant(expr.Right.(*ast.Identifier).Name)
+		}
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
-- 
2.43.0


From 5d8a7510c59dbf0fcea3399ba907f924f0371047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 086/104] fix: main is the function of the file of the program,
 other files can have one

---
 internals/ast/mod.go           |  3 ---
 internals/compiler/compiler.go | 20 +++++++++++++++++---
 internals/parser/parser.go     |  2 +-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index 66a1eb5..c6a7665 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -60,9 +60,6 @@ func (p *Program) String() string {
 }
 
 func CreateIdentifier(name string, id string) string {
-	if name == "main" {
-		return name
-	}
 	return name + "-" + id
 }
 
diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 59eccca..bd58f33 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -58,6 +58,9 @@ type Compiler struct {
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
 
+	// isRoot tells whether it compiles the file of the program, and not one that is imported
+	isRoot bool
+
 	eventHandler func(Event)
 
 	// Globals of the constant strings that are used as a pointer
@@ -110,6 +113,7 @@ func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
 		context:                  context,
 		modules:                  map[string]*Compiler{},
 		compiledModules:          compiledModules,
+		isRoot:                   len(parent) == 0,
 		eventHandler:             func(e Event) {},
 		constantStrings:          map[constant.Constant]value.Value{},
 		constantUnions:           map[value.Value]constant.Constant{},
@@ -567,13 +571,18 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 		params = append(params, ir.NewParam(name, t))
 	}
 
-	if functionType.IsMainFunction() && functionType.Return == ctypes.VoidType || functionType.Return == nil {
+	llvmName := functionType.Name
+	if c.isMain(functionType) {
+		llvmName = functionType.ExternalName
+	}
+
+	if c.isMain(functionType) && functionType.Return == ctypes.VoidType || functionType.Return == nil {
 		functionType.Return = ctypes.I32
 	}
 
 	toReturnType := c.ToLLVMType(functionType.Return)
 	// Declare llvmFunction
-	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
+	llvmFunction := c.m.NewFunc(llvmName, toReturnType, params...)
 
 	if functionType.RedefineWithOriginalName {
 		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
@@ -593,6 +602,11 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	return llvmFunction
 }
 
+// isMain tells whether the program starts in the function
+func (c *Compiler) isMain(functionType *ctypes.Function) bool {
+	return c.isRoot && functionType.IsMainFunction()
+}
+
 // compiles entire function
 func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, variablesToAdd ...NamedValue) {
 	llvmFunction := c.compileFunctionType(name, funk)
@@ -628,7 +642,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
-		if funk.GetFunctionType().IsMainFunction() {
+		if c.isMain(funk.GetFunctionType()) {
 			lastBlock.NewRet(zero)
 		} else if funk.GetFunctionType().Return == ctypes.VoidType {
 			lastBlock.NewRet(nil)
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 0d38ca9..2835b2f 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -220,7 +220,7 @@ func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	// main already has its original name
-	fn.FunctionType.RedefineWithOriginalName = fn.FunctionType.Name != fn.FunctionType.ExternalName
+	fn.FunctionType.RedefineWithOriginalName = !fn.FunctionType.IsMainFunction()
 	return fn
 }
 
-- 
2.43.0


From 9ca5612fbbe623eb3cf79adab934ccc1e2f8b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 087/104] fix: extern functions are known everywhere in their
 file

---
 internals/compiler/compiler.go       | 2 +-
 internals/compiler/compiler_steps.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index bd58f33..a7588d4 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -475,7 +475,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.ExternStatement:
 		{
-			c.compileExternFunc(t)
+			// it is compiled with the types of functions, it is known everywhere in the file
 			return
 		}
 
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..b06c619 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -29,6 +29,9 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		case *ast.FunctionDeclarationStatement:
 			c.compileFunctionType(t.FunctionType.Name, t)
 
+		case *ast.ExternStatement:
+			c.compileExternFunc(t)
+
 		case *ast.MacroBlock:
 			c.compileFunctionTypes(t.Statements)
 		}
-- 
2.43.0


From b65324e55747e105d04d491c96115065f4e06bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 088/104] fix: functions of C are declared once and have the
 type they are declared with

---
 internals/compiler/compiler.go       |  73 +++++++++---------
 internals/compiler/compiler_utils.go | 107 +++++++++------------------
 2 files changed, 71 insertions(+), 109 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a7588d4..232a9b3 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -495,41 +495,14 @@ func (c *Compiler) compileTypeDefinition(t *ast.TypeDefinition) {
 func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	funcType := externFunc.Type.(*ctypes.Function)
 
-	// Check if the variable has been defined anywhere in LLVM
-	if f, ok := c.globalVariables[funcType.ExternalName]; ok {
-		c.globalVariables[funcType.Name] = f
-		return
-	}
-
-	if f, ok := c.globalBuiltinDefinitions[funcType.ExternalName]; ok {
-		funk := &Value{Value: f, Type: funcType}
-		c.globalVariables[funcType.Name] = funk
-		return
-	}
-
-	returnType := c.ToLLVMType(funcType.Return)
-	params := []*ir.Param{}
+	params := []types.Type{}
 	for _, parameter := range funcType.Parameters {
-		parameterType := c.ToLLVMType(parameter)
-		params = append(params, ir.NewParam("", parameterType))
-	}
-
-	f := c.m.NewFunc(funcType.ExternalName, returnType, params...)
-	f.CallingConv = enum.CallingConvC
-	if funcType.InfiniteParameters {
-		f.Sig.Variadic = true
+		params = append(params, c.ToLLVMType(parameter))
 	}
 
-	funk := &Value{Value: f, Type: funcType}
-	// Define the variable to local module facing references
-	c.globalVariables[funcType.Name] = funk
-	// Define the variable to C ABI facing code so the rest of modules
-	// can know if this variable has been defined
-	c.globalVariables[funcType.ExternalName] = funk
-	// Define the variable for builtin functions in case that they are trying to
-	// define this variable. For example @alloc wants to define malloc but it has been
-	// defined on an extern funcs
-	c.globalBuiltinDefinitions[funcType.ExternalName] = funk.Value
+	functionType := types.NewFunc(c.ToLLVMType(funcType.Return), params...)
+	functionType.Variadic = funcType.InfiniteParameters
+	c.globalVariables[funcType.Name] = &Value{Value: c.external(funcType.ExternalName, functionType), Type: funcType}
 }
 
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
@@ -585,12 +558,9 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	llvmFunction := c.m.NewFunc(llvmName, toReturnType, params...)
 
 	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
-		llvmFunctionExtern.CallingConv = enum.CallingConvC
-		c.globalVariables[functionType.ExternalName] = &Value{
-			Value: llvmFunctionExtern,
-			Type:  functionType,
-		}
+		c.declarePublic(functionType.ExternalName, toReturnType, params)
+	} else if c.isMain(functionType) {
+		c.globalBuiltinDefinitions[llvmName] = llvmFunction
 	}
 
 	// Create function
@@ -602,6 +572,31 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	return llvmFunction
 }
 
+// declarePublic declares the function with the name that C knows, that might be declared already
+// because another file or a builtin uses it.
+func (c *Compiler) declarePublic(name string, returnType types.Type, params []*ir.Param) {
+	definition, ok := c.globalBuiltinDefinitions[name]
+	if !ok {
+		fn := c.m.NewFunc(name, returnType, params...)
+		fn.CallingConv = enum.CallingConvC
+		c.globalBuiltinDefinitions[name] = fn
+		return
+	}
+
+	fn := definition.(*ir.Func)
+	if len(fn.Params) != len(params) || fn.Sig.Variadic || !fn.Sig.RetType.Equal(returnType) {
+		c.exit("the public function " + name + " is already declared with another type")
+	}
+
+	for i, param := range params {
+		if !fn.Params[i].Type().Equal(param.Type()) {
+			c.exit("the public function " + name + " is already declared with another type")
+		}
+	}
+
+	fn.Params = params
+}
+
 // isMain tells whether the program starts in the function
 func (c *Compiler) isMain(functionType *ctypes.Function) bool {
 	return c.isRoot && functionType.IsMainFunction()
@@ -662,7 +657,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
-	llvmFunction := c.retrieveVariable(funk.GetFunctionType().ExternalName).(*ir.Func)
+	llvmFunction := c.globalBuiltinDefinitions[funk.GetFunctionType().ExternalName].(*ir.Func)
 	llvmFunction.Blocks = otherFunctionBlocks
 }
 
diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index c8d56d9..0e2646e 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -35,90 +35,57 @@ func (c *Compiler) createString(s string) value.Value {
 	return i8sType
 }
 
-func (c *Compiler) memcpy() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["memcpy"]; ok {
-		return fn.(*ir.Func)
+// external returns the function of C with the name, as a function of the given type. It is declared
+// only once, whatever the types are that the builtins and the files of the program see it with.
+func (c *Compiler) external(name string, functionType *types.FuncType) value.Value {
+	if fn, ok := c.globalBuiltinDefinitions[name]; ok {
+		if pointer := types.NewPointer(functionType); !fn.Type().Equal(pointer) {
+			return constant.NewBitCast(fn.(*ir.Func), pointer)
+		}
+
+		return fn
 	}
 
-	memcpy := c.m.NewFunc("memcpy", types.Void, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["memcpy"] = memcpy
-	memcpy.CallingConv = enum.CallingConvC
-	return memcpy
+	params := make([]*ir.Param, 0, len(functionType.Params))
+	for _, param := range functionType.Params {
+		params = append(params, ir.NewParam("", param))
+	}
+
+	fn := c.m.NewFunc(name, functionType.RetType, params...)
+	fn.Sig.Variadic = functionType.Variadic
+	fn.CallingConv = enum.CallingConvC
+	c.globalBuiltinDefinitions[name] = fn
+	return fn
 }
 
-func (c *Compiler) strlen() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strlen"]; ok {
-		return fn.(*ir.Func)
-	}
-	strlen := c.m.NewFunc("strlen", types.I64, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["strlen"] = strlen
-	strlen.CallingConv = enum.CallingConvC
-	return strlen
+func (c *Compiler) memcpy() value.Value {
+	return c.external("memcpy", types.NewFunc(types.Void, types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) malloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["malloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	malloc := c.m.NewFunc(
-		"malloc",
-		types.NewPointer(types.I8),
-		ir.NewParam("", types.I64),
-	)
-	c.globalBuiltinDefinitions["malloc"] = malloc
-	malloc.CallingConv = enum.CallingConvC
-	return malloc
+func (c *Compiler) strlen() value.Value {
+	return c.external("strlen", types.NewFunc(types.I64, types.I8Ptr))
 }
 
-func (c *Compiler) printf() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["printf"]; ok {
-		return fn.(*ir.Func)
-	}
-	printf := c.m.NewFunc(
-		"printf",
-		types.I32,
-		ir.NewParam("", types.NewPointer(types.I8)),
-	)
-	c.globalBuiltinDefinitions["printf"] = printf
-	printf.Sig.Variadic = true
-	printf.CallingConv = enum.CallingConvC
-	return printf
+func (c *Compiler) malloc() value.Value {
+	return c.external("malloc", types.NewFunc(types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) realloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["realloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	realloc := c.m.NewFunc("realloc", types.I8Ptr, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["realloc"] = realloc
-	realloc.Sig.Variadic = true
-	realloc.CallingConv = enum.CallingConvC
-	return realloc
+func (c *Compiler) printf() value.Value {
+	printf := types.NewFunc(types.I32, types.I8Ptr)
+	printf.Variadic = true
+	return c.external("printf", printf)
 }
 
-func (c *Compiler) free() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["free"]; ok {
-		return fn.(*ir.Func)
-	}
-	free := c.m.NewFunc("free", types.Void, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["free"] = free
-	free.CallingConv = enum.CallingConvC
-	return free
+func (c *Compiler) realloc() value.Value {
+	return c.external("realloc", types.NewFunc(types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) strcmp() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strcmp"]; ok {
-		return fn.(*ir.Func)
-	}
-	strcmp := c.m.NewFunc(
-		"strcmp",
-		types.I32,
-		ir.NewParam("", types.I8Ptr),
-		ir.NewParam("", types.I8Ptr),
-	)
-	c.globalBuiltinDefinitions["strcmp"] = strcmp
-	strcmp.CallingConv = enum.CallingConvC
-	return strcmp
+func (c *Compiler) free() value.Value {
+	return c.external("free", types.NewFunc(types.Void, types.I8Ptr))
+}
+
+func (c *Compiler) strcmp() value.Value {
+	return c.external("strcmp", types.NewFunc(types.I32, types.I8Ptr, types.I8Ptr))
 }
 
 // use this for concatenating strings
-- 
2.43.0


From 59f8b6ede769f522926f5b492dc9e8bc092713f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 089/104] fix: public functions of the same name in several
 files are an error

---
 internals/semantic/semantic.go       | 5 +++++
 internals/semantic/semantic_steps.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 59702e5..d0b96dd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -58,6 +58,9 @@ type Semantic struct {
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 
+	// the public functions of all the files of the program
+	publicFunctions map[string]bool
+
 	// the anonymous function that each anonymous function is written in, if any
 	enclosingAnonymousFunctions map[*ast.AnonymousFunction]*ast.AnonymousFunction
 }
@@ -91,6 +94,7 @@ func New() *Semantic {
 		currentExpectedReturnType: ctypes.VoidType,
 		returns:                   false,
 		modules:                   map[string]*Semantic{},
+		publicFunctions:           map[string]bool{},
 
 		enclosingAnonymousFunctions: map[*ast.AnonymousFunction]*ast.AnonymousFunction{},
 	}
@@ -1397,6 +1401,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	dir, _ := path.Split(importStatement.Path.Value)
 	// Join with the context path
 	internalSemantic.ContextDirectoryPath = path.Join(s.ContextDirectoryPath, dir)
+	internalSemantic.publicFunctions = s.publicFunctions
 	internalSemantic.Analyze(tree)
 	if len(internalSemantic.Errors) > 0 {
 		s.errorWithStatement("error analyzing file imported on path "+importStatement.Path.String(), importStatement.Token)
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 0cd5416..1310a4c 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -59,6 +59,12 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				if s.variables.Get(t.FunctionType.Name) != nil {
 					s.errorWithStatement("the function "+ast.RetrieveID(t.FunctionType.Name)+" is already defined", t.Token)
 				}
+				if t.FunctionType.RedefineWithOriginalName {
+					if s.publicFunctions[t.FunctionType.ExternalName] {
+						s.errorWithStatement("the public function "+t.FunctionType.ExternalName+" is already defined in another file", t.Token)
+					}
+					s.publicFunctions[t.FunctionType.ExternalName] = true
+				}
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-- 
2.43.0


From ed9081747b95ed9ef5f37062e641703ef64b6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 090/104] fix: small integers are extended as C does when they
 are passed

---
 internals/compiler/compiler.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 232a9b3..01aa6b8 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1231,6 +1231,8 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 		loadedValue := c.loadIfPointer(compiledValue)
 		if isFunction && function.InfiniteParameters && i >= len(function.Parameters) {
 			loadedValue = c.promoteVariadicArgument(argument.GetType(), loadedValue)
+		} else if isFunction && i < len(function.Parameters) {
+			loadedValue = extendedArgument(c.retrieveInnerAnonymousAndUnwrap(function.Parameters[i]), loadedValue)
 		}
 		arguments = append(arguments, loadedValue)
 	}
@@ -1239,6 +1241,20 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	return thing
 }
 
+// extendedArgument is the argument extended to 32 bits, as functions of C expect small integers.
+func extendedArgument(parameter ctypes.Type, argument value.Value) value.Value {
+	integer, isInteger := argument.Type().(*types.IntType)
+	if !isInteger || integer.BitSize >= 32 {
+		return argument
+	}
+
+	if ctypes.IsUnsignedInteger(parameter) || integer.BitSize == 1 {
+		return ir.NewArg(argument, enum.ParamAttrZeroExt)
+	}
+
+	return ir.NewArg(argument, enum.ParamAttrSignExt)
+}
+
 func (c *Compiler) allocateIfNotPointer(v value.Value) value.Value {
 	t := v.Type()
 	if _, isPtr := v.Type().(*types.PointerType); isPtr {
-- 
2.43.0


From 6036939d930049cc6b6a53479b9d92738d722f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 091/104] fix: only functions with a name are public or extern

---
 internals/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 2835b2f..32b4818 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -218,6 +218,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	// main already has its original name
 	fn.FunctionType.RedefineWithOriginalName = !fn.FunctionType.IsMainFunction()
@@ -1168,7 +1169,7 @@ func (p *Parser) parseExtern() ast.Statement {
 		return &ast.ExternStatement{}
 	}
 
-	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
+	if fun, ok := t.(*ctypes.Function); !ok || ast.RetrieveID(fun.Name) == "" {
 		p.addErrorMessage("badly formed external function")
 	} else {
 		fun.ExternalName = ast.RetrieveID(fun.Name)
-- 
2.43.0


From 3e613409dc610ded06292951a2796985389e3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 092/104] fix: generic types of dropped #if blocks take no type

---
 internals/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 32b4818..fc66f48 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -33,6 +33,9 @@ type Parser struct {
 	currentTypeParameter int
 	currentProgram       *ast.Program
 
+	// insideDroppedMacro is true for the statements of a #if that doesn't hold
+	insideDroppedMacro bool
+
 	// Useful for error messages.
 	previousExpression ast.Expression
 }
@@ -234,6 +237,10 @@ func (p *Parser) parseGenericTypeDefinition() ast.Statement {
 		return p.parseTypeDefinition(name)
 	}
 
+	if p.insideDroppedMacro {
+		return &ast.GenericTypeDefinition{}
+	}
+
 	if p.currentTypeParameter >= len(p.TypeParameters) {
 		p.Errors = append(p.Errors, fmt.Errorf("there are not enough type parameters passed to the file, we only got %d but it needs more", len(p.TypeParameters)))
 		return &ast.GenericTypeDefinition{}
@@ -1033,7 +1040,10 @@ func (p *Parser) parseMacroIf() ast.Statement {
 		return &ast.MacroBlock{Block: &ast.Block{Statements: []ast.Statement{}}}
 	}
 
+	wasInsideDroppedMacro := p.insideDroppedMacro
+	p.insideDroppedMacro = wasInsideDroppedMacro || !value.IsTruthy()
 	block := p.parseBlock()
+	p.insideDroppedMacro = wasInsideDroppedMacro
 	if value.IsTruthy() {
 		return &ast.MacroBlock{Block: block}
 	}
-- 
2.43.0


From b0d80bd9196a6dc2067ff6db5a15be7df1fc06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 093/104] fix: constants can be used where something else is
 assigned

---
 internals/semantic/semantic.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d0b96dd..f82ab3b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -808,6 +808,12 @@ func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
 		return ctypes.VoidType
 	}
 
+	if isNewValue(expression) {
+		previousExpectNonConstantExpression := s.expectNonConstantExpression
+		s.expectNonConstantExpression = false
+		defer func() { s.expectNonConstantExpression = previousExpectNonConstantExpression }()
+	}
+
 	switch expressionType := expression.(type) {
 	case *ast.CommaExpressions:
 		return s.analyzeCommaExpressions(expressionType)
@@ -846,6 +852,18 @@ func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
 	return nil
 }
 
+// isNewValue tells whether the expression makes its value from the ones it mentions, so storing through it doesn't store to them.
+func isNewValue(expression ast.Expression) bool {
+	switch t := expression.(type) {
+	case *ast.Call, *ast.BuiltinCall, *ast.ExpressionBlock:
+		return true
+	case *ast.BinaryOperation:
+		return t.Operation != ops.Dot
+	}
+
+	return false
+}
+
 func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type {
 	leftType := s.analyzeExpression(indexAccess.Left)
 
-- 
2.43.0


From 2d881332de7cffb8febab8a90192cc3674a3f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 094/104] fix: methods of variables that hold functions

---
 internals/semantic/semantic.go | 55 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f82ab3b..089eb1b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -55,6 +55,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// the function that is called with the additional expression
+	additionalFunction ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 
@@ -1015,13 +1018,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.additionalExpression = nil
 	if additionalExpression != nil {
 		call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)
-		call.Left = &ast.Identifier{
-			Node: &node.Node{
-				Token: call.Token,
-				Type:  possibleFuncType,
-			},
-			Name: funcType.Name,
-		}
+		call.Left = s.additionalFunction
 	}
 
 	if len(call.Parameters) < len(funcType.Parameters) || len(call.Parameters) > len(funcType.Parameters) && !funcType.InfiniteParameters {
@@ -1227,10 +1224,27 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 	return accessedElement.Type
 }
 
-func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
+// useAsMethod makes the next call the one of the function of the module with the receiver as its first argument.
+func (s *Semantic) useAsMethod(module *Semantic, method *ast.Identifier, receiver ast.Expression) ctypes.Type {
+	function := &ast.Identifier{
+		Node: &node.Node{Token: method.Token},
+		Name: module.TranslateName(method.Name),
+	}
+	if module == s {
+		function.Type = s.analyzeIdentifier(function)
+	} else {
+		function.Type = module.variables.Get(function.Name).Type
+	}
+	s.additionalExpression = receiver
+	s.additionalFunction = function
+	return function.Type
+}
+
+// findModuleWithFunction searches for the function in every module, nil if there's none that can have the type as its first parameter.
+func (s *Semantic) findModuleWithFunction(t ctypes.Type, accessName string) *Semantic {
 	for _, semantic := range s.modules {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
-		if v == nil {
+		if v == nil || !v.IsDeclaredFunction {
 			continue
 		}
 
@@ -1239,7 +1253,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 				continue
 			}
 
-			return funk
+			return semantic
 		}
 	}
 
@@ -1254,7 +1268,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 			return nil
 		}
 
-		return funk
+		return s
 	}
 
 	return nil
@@ -1281,27 +1295,25 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		s.throwInvalidOperationForConstant("you can't access pointer fields", binaryOperation)
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(ptr.Inner).(ctypes.FieldType)
 		if !isFieldAccessor {
-			fn := s.findFunctionInAllModules(left, identifier.Name)
-			if fn == nil {
+			module := s.findModuleWithFunction(left, identifier.Name)
+			if module == nil {
 				s.errorWithStatement("expected a struct or union on access, got "+ptr.Inner.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.useAsMethod(module, identifier, binaryOperation.Left)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(left).(ctypes.FieldType)
 		if !isFieldAccessor {
-			fn := s.findFunctionInAllModules(left, identifier.Name)
-			if fn == nil {
+			module := s.findModuleWithFunction(left, identifier.Name)
+			if module == nil {
 				s.errorWithStatement("expected a struct or union on access, got "+left.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.useAsMethod(module, identifier, binaryOperation.Left)
 		}
 	}
 
@@ -1318,7 +1330,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 
 		// Maybe the user wanted to access a member function, on this module or another
 		variable := m.variables.Get(m.TranslateName(namePlusId))
-		if variable == nil || !ctypes.IsFunction(variable.Type) {
+		if variable == nil || !ctypes.IsFunction(variable.Type) || m != s && !variable.IsDeclaredFunction {
 			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
 			return ctypes.TODO()
 		}
@@ -1332,8 +1344,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		s.additionalExpression = binaryOperation.Left
-		return variable.Type
+		return s.useAsMethod(m, identifier, binaryOperation.Left)
 	}
 
 	binaryOperation.Type = t
-- 
2.43.0


From 697f39223c51ed26e62b00705acfc2be90e58bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 095/104] fix: a method that isn't called is an error

---
 internals/semantic/semantic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 089eb1b..48d61d7 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -58,6 +58,9 @@ type Semantic struct {
 	// the function that is called with the additional expression
 	additionalFunction ast.Expression
 
+	// the expression whose value is called, only it can be a method
+	calledExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 
@@ -1003,6 +1006,7 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	s.calledExpression = call.Left
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1281,6 +1285,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		return s.analyzeModuleAccess(module, binaryOperation)
 	}
 
+	isCalled := s.calledExpression == binaryOperation
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
@@ -1296,7 +1301,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(ptr.Inner).(ctypes.FieldType)
 		if !isFieldAccessor {
 			module := s.findModuleWithFunction(left, identifier.Name)
-			if module == nil {
+			if module == nil || !isCalled {
 				s.errorWithStatement("expected a struct or union on access, got "+ptr.Inner.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
@@ -1308,7 +1313,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(left).(ctypes.FieldType)
 		if !isFieldAccessor {
 			module := s.findModuleWithFunction(left, identifier.Name)
-			if module == nil {
+			if module == nil || !isCalled {
 				s.errorWithStatement("expected a struct or union on access, got "+left.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
@@ -1330,7 +1335,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 
 		// Maybe the user wanted to access a member function, on this module or another
 		variable := m.variables.Get(m.TranslateName(namePlusId))
-		if variable == nil || !ctypes.IsFunction(variable.Type) || m != s && !variable.IsDeclaredFunction {
+		if variable == nil || !isCalled || !ctypes.IsFunction(variable.Type) || m != s && !variable.IsDeclaredFunction {
 			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 0cea0246351639682684100fd57cc191e78517b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 096/104] fix: a function of several modules used as a method
 is the one of the first

---
 internals/semantic/semantic.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 48d61d7..17d36e2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -51,7 +51,10 @@ type Semantic struct {
 	// ```
 	// So we need to 'duplicate' definitions when importing semantic modules. One for module identifier accessing modules
 	// and method calls that reference other places
-	modules              map[string]*Semantic
+	modules map[string]*Semantic
+
+	// modules in the order in which they are imported
+	imported             []*Semantic
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
@@ -1244,11 +1247,11 @@ func (s *Semantic) useAsMethod(module *Semantic, method *ast.Identifier, receive
 	return function.Type
 }
 
-// findModuleWithFunction searches for the function in every module, nil if there's none that can have the type as its first parameter.
+// findModuleWithFunction searches for the function here and then in the modules in the order of their imports, nil if there's none that can have the type as its first parameter.
 func (s *Semantic) findModuleWithFunction(t ctypes.Type, accessName string) *Semantic {
-	for _, semantic := range s.modules {
+	for _, semantic := range append([]*Semantic{s}, s.imported...) {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
-		if v == nil || !v.IsDeclaredFunction {
+		if v == nil || semantic != s && !v.IsDeclaredFunction {
 			continue
 		}
 
@@ -1261,20 +1264,6 @@ func (s *Semantic) findModuleWithFunction(t ctypes.Type, accessName string) *Sem
 		}
 	}
 
-	v := s.variables.Get(s.TranslateName(accessName))
-
-	if v == nil {
-		return nil
-	}
-
-	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
-			return nil
-		}
-
-		return s
-	}
-
 	return nil
 }
 
@@ -1401,6 +1390,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		// We need this for methods that are referenced as
 		// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 		s.modules[existingSemantic.Root.ID] = existingSemantic
+		s.imported = append(s.imported, existingSemantic)
 		return
 	}
 	if importing[currentPathPlusImport] {
@@ -1448,6 +1438,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 	s.modules[internalSemantic.Root.ID] = internalSemantic
 	s.modules[importStatement.Name] = internalSemantic
+	s.imported = append(s.imported, internalSemantic)
 }
 
 // typeKey is like the string of a type, but structs and unions of the same name that come from
-- 
2.43.0


From 513551000bd8d782a88bab408af8e9e1b4638afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 097/104] fix: the types of an error are always in the same
 order

---
 internals/semantic/semantic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 17d36e2..36e7b98 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -641,11 +642,13 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 
 		t, ok := semantic.definedTypes[name]
 		if !ok {
-			typesDefined := ""
+			var types []string
 			for _, t := range semantic.definedTypes {
-				typesDefined += "- " + t.String() + "\n"
+				types = append(types, "- "+t.String()+"\n")
 			}
+			sort.Strings(types)
 
+			typesDefined := strings.Join(types, "")
 			if typesDefined == "" {
 				typesDefined = "No types defined in the module."
 			}
-- 
2.43.0


From ac02a86a4a1ed80155f824880e00d48e64e7797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 098/104] fix: the tree of multiple declarations

---
 internals/tree_printer/printer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 77c5ce0..8c772ed 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -211,7 +211,13 @@ func Process(statement ast.Statement) string {
 
 	case *ast.MultipleDeclarationStatement:
 		{
-			panic("unimplemented")
+			var strings []string
+			for _, name := range t.Names {
+				strings = append(strings, ast.RetrieveID(name))
+			}
+
+			strings = append(strings, processExpression(t.Expression))
+			return ConnectString("ast.MultipleDeclarationStatement", strings)
 		}
 	}
 
-- 
2.43.0


From e4a7fd2f16b49e8aa896318ae2c9e5d4b66d3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 099/104] fix: the tree has the names of types and modules, and
 the types of variables

---
 internals/tree_printer/printer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 8c772ed..14741ae 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -52,7 +52,12 @@ func Process(statement ast.Statement) string {
 
 	case *ast.DeclarationStatement:
 		{
-			return ConnectString("ast.DeclarationStatement", []string{ast.RetrieveID(t.Name), processExpression(t.Expression)})
+			strings := []string{ast.RetrieveID(t.Name)}
+			if t.Type != ctypes.TODO() {
+				strings = append(strings, t.Type.String())
+			}
+
+			return ConnectString("ast.DeclarationStatement", append(strings, processExpression(t.Expression)))
 		}
 
 	case *ast.Block:
@@ -147,7 +152,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.ImportStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Name)}
 			for _, t := range t.Types {
 				strings = append(strings, t.String())
 			}
@@ -172,7 +177,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.StructStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
@@ -182,7 +187,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.UnionStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
@@ -330,7 +335,12 @@ func processExpression(expression ast.Expression) string {
 
 	case *ast.StructLiteral:
 		{
-			fields := []string{ast.RetrieveID(t.Name)}
+			name := ast.RetrieveID(t.Name)
+			if t.Module != "" {
+				name = ast.RetrieveID(t.Module) + "." + name
+			}
+
+			fields := []string{name}
 			for _, field := range t.Values {
 				fields = append(fields, ConnectString("ast.Field", []string{ast.RetrieveID(field.Name), processExpression(field.Expression)}))
 			}
-- 
2.43.0


From 0094a1de7c07f278a00e4c8f59f0d5e4339ffa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 100/104] fix: the tree of block expressions

---
 internals/tree_printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 14741ae..38770ba 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -357,6 +357,11 @@ func processExpression(expression ast.Expression) string {
 
 			return ConnectString("ast.CommaExpressions", expressions)
 		}
+
+	case *ast.ExpressionBlock:
+		{
+			return ConnectString("ast.ExpressionBlock", []string{t.GetType().String(), Process(t.Block)})
+		}
 	}
 	return ""
 }
-- 
2.43.0


From d174bca96eef5ec97573e68d94ecef4c3469bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 101/104] fix: what is parsed after an error has a token and a
 type

---
 internals/parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index fc66f48..fec278f 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -748,8 +748,7 @@ func (p *Parser) parsePrefix() ast.Expression {
 	fn, ok := p.prefixFunc[p.currentToken.Type]
 	if !ok {
 		p.addErrorMessage("unknown token to parse on prefix")
-		p.nextToken()
-		return &ast.Integer{Value: 1}
+		return &ast.Integer{Node: &node.Node{Token: p.nextToken(), Type: ctypes.I32}, Value: 1}
 	}
 
 	p.checkPrefixErrors()
@@ -1199,7 +1198,7 @@ func (p *Parser) afterFixDoubleError(prev ast.Expression) ast.Expression {
 				l,
 			),
 		)
-		return &ast.Identifier{}
+		return &ast.Identifier{Node: &node.Node{Token: p.currentToken, Type: ctypes.TODO()}}
 	}
 	s := l + prev.String()
 	p.addErrorMessage(
@@ -1208,7 +1207,7 @@ func (p *Parser) afterFixDoubleError(prev ast.Expression) ast.Expression {
 		),
 	)
 	p.nextToken()
-	return &ast.Identifier{}
+	return &ast.Identifier{Node: &node.Node{Token: p.currentToken, Type: ctypes.TODO()}}
 }
 
 func (p *Parser) afterFixDoubleErrorStatement(statement ast.Statement) {
-- 
2.43.0


From 28cd1f65c82940fca2f920f39e2851d32354aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 102/104] fix: the lines of the parts of a for in the tree

---
 internals/tree_printer/printer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 38770ba..0b96c7e 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -99,15 +99,15 @@ func Process(statement ast.Statement) string {
 		{
 			var strings []string
 			if t.InitializerStatement != nil {
-				strings = append(strings, "initializer: "+Process(t.InitializerStatement))
+				strings = append(strings, ConnectString("initializer", []string{Process(t.InitializerStatement)}))
 			}
 
 			if t.Condition != nil {
-				strings = append(strings, "condition: "+processExpression(t.Condition))
+				strings = append(strings, ConnectString("condition", []string{processExpression(t.Condition)}))
 			}
 
 			if t.Operation != nil {
-				strings = append(strings, "operation: "+Process(t.Operation))
+				strings = append(strings, ConnectString("operation", []string{Process(t.Operation)}))
 			}
 
 			strings = append(strings, Process(t.Block))
-- 
2.43.0


From 2f0d2a8bd96762630e62b9b9f39599f049c24a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 103/104] fix: strings with line breaks in the tree

---
 internals/tree_printer/printer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 0b96c7e..f26e92a 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -3,6 +3,7 @@ package tree_printer
 import (
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 
 	"github.com/gabivlj/candice/internals/ast"
@@ -320,7 +321,7 @@ func processExpression(expression ast.Expression) string {
 
 	case *ast.StringLiteral:
 		{
-			return ConnectString("ast.StringLiteral", []string{fmt.Sprintf(`"%s"`, t.Value)})
+			return ConnectString("ast.StringLiteral", []string{strconv.Quote(t.Value)})
 		}
 
 	case *ast.IndexAccess:
-- 
2.43.0


From 69ad78e54709be8a419e4095430b1a03d0b96204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 104/104] fix: an external that is not a function has a token
 and a type

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index fec278f..d3c5641 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -1175,7 +1175,7 @@ func (p *Parser) parseExtern() ast.Statement {
 
 	if _, ok := t.(*ctypes.Function); !ok {
 		p.addErrorMessage("expected external function, got " + t.String())
-		return &ast.ExternStatement{}
+		return &ast.ExternStatement{Token: extern, Type: t}
 	}
 
 	if fun, ok := t.(*ctypes.Function); !ok || ast.RetrieveID(fun.Name) == "" {
-- 
2.43.0

