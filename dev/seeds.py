import os
SEEDS=[]
def S(id,prop,edits,prog,want,needs,breaks,**k):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,prog=prog,want=want,needs=needs,breaks=breaks,**k))
CC="internals/compiler/compiler.go"
S("b-c10-const-sub","C10",[("internals/compiler/compiler_constant.go","		return constant.NewSub(first, second)\n\n	case ops.Multiply","		// flatten chains of subtractions\n		if inner, isSubtraction := second.(*constant.ExprSub); isSubtraction {\n			return constant.NewSub(constant.NewSub(first, inner.X), inner.Y)\n		}\n		return constant.NewSub(first, second)\n\n	case ops.Multiply")],
 """const M := 100 - (7 - 3);
func main() i32 {
  @print(M);
  return 0;
}
""","96","a constant subtraction whose right operand is a subtraction (or a negated constant)",
 "a - (b - c) is computed as a - b - c")
S("b-c10-multi-const","C10",[("internals/semantic/semantic.go","		declaredType.IsConstant = m.Constant\n","		declaredType.IsConstant = m.Constant && i == 0\n")],
 """func two() i32, i32 { return 1, 2; }
func main() i32 {
  const a, b := two();
  b = 5;
  @print(a);
  @print(b);
  return 0;
}
""","rejected by the analysis\n","a const declaration of several names whose second name is assigned","constants other than the first of a multiple declaration can be reassigned")
S("b-c11-modulo-narrow","C11",[(CC,"""		if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
			return c.block().NewURem(leftValue, rightValue)
		}""","""		if unsigned, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned && unsigned.BitSize >= 32 {
			return c.block().NewURem(leftValue, rightValue)
		}""")],
 """func f(a u16, b u16) u16 { return a % b; }
func main() i32 {
  @print(f(100 as u16, 7 as u16));
  @print(f(65535 as u16, 1000 as u16));
  return 0;
}
""","2535","% on u8/u16 operands with the top bit set","remainders of large narrow unsigned values are the signed ones")
S("b-c11-decrement-twice","C11",[(CC,"			newValue = c.subtractOne(c.loadIfPointer(prefixValue))\n","			newValue = c.subtractOne(c.loadIfPointer(c.compileExpression(prefix.Right)))\n")],
 """calls : i32 = 0;
func pick(p *i32) *i32 { ++calls; return p; }
func main() i32 {
  x := 5;
  --(*pick(&x));
  @print(x);
  @print(calls);
  return 0;
}
""","41","-- on a place whose evaluation has side effects","the place of -- is evaluated twice")
S("b-c12-wide-truth","C12",[("internals/compiler/compiler_conversions.go","		return c.block().NewICmp(enum.IPredNE, value, zero)\n	}\n	if _, ok := value.Type().(*types.PointerType)","		if integer.BitSize > 32 {\n			// conditions are at most a word wide\n			value = c.block().NewTrunc(value, types.I32)\n		}\n		return c.block().NewICmp(enum.IPredNE, value, zero)\n	}\n	if _, ok := value.Type().(*types.PointerType)")],
 """func f(a i64, b i64) i32 {
  if a && b { return 1; }
  return 0;
}
func main() i32 {
  @print(f(1 as i64, 1 as i64));
  @print(f((1 as i64) << 40, 1 as i64));
  return 0;
}
""","11","a 64-bit operand of && or || whose low 32 bits are zero","wide truth values are decided by their low half")
S("b-c12-fcmp-le","C12",[("internals/compiler/compiler_comparisons.go","			return enum.FPredOLE\n","			return enum.FPredULE\n")],
 """func f(a f64, b f64) i32 {
  if a <= b { return 1; }
  return 0;
}
func main() i32 {
  z := 0.0 as f64;
  t := 2.0 as f64;
  @print(f(t, t));
  @print(f(z / z, t));
  return 0;
}
""","10","<= with a NaN operand","NaN <= x holds")
S("b-c13-small-unsigned-float","C13",[("internals/compiler/compiler_conversions.go","		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter))","		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter) && parameter.SizeOf() >= 4)")],
 """func f(a u8) f64 { return a as f64; }
func main() i32 {
  @print(f(100 as u8));
  @print(f(200 as u8));
  return 0;
}
""","100.000200.000","a u8 or u16 with its top bit set cast to a float","small unsigned integers become negative floats")
S("b-c13-i1-sext","C13",[("internals/compiler/compiler_conversions.go","	if variableType.BitSize > toReturnType.BitSize {\n		return c.block().NewTrunc(variable, toReturnType)","	if variableType.BitSize > toReturnType.BitSize {\n		if toReturnType.BitSize == 1 {\n			// booleans are truth values\n			return c.block().NewICmp(enum.IPredNE, variable, constant.NewInt(variableType, 0))\n		}\n		return c.block().NewTrunc(variable, toReturnType)")],
 """func f(a i32) i1 { return a as i1; }
func main() i32 {
  @print(f(1));
  @print(f(6));
  return 0;
}
""","10","an even value other than zero cast to i1","casts to i1 are not the low bit any more")
S("b-c14-continue-nested","C14",[(CC,"	possibleNewBlock := c.compileBlock(forLoop.Block, mainLoop)\n	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue\n","	possibleNewBlock := c.compileBlock(forLoop.Block, mainLoop)\n	if previousBreak != nil {\n		c.currentBreakLeaveBlock = previousBreak\n	}\n	if previousContinue != nil && possibleNewBlock.Term == nil {\n		c.currentContinueEscapeBlock = previousContinue\n	}\n")],
 """func main() i32 {
  n := 0;
  for i := 0; i < 3; ++i {
    for j := 0; j < 3; ++j {
      if j == 1 { n = n + 1; break; }
      break;
    }
    if i == 1 { continue; }
    n = n + 10;
  }
  @print(n);
  return 0;
}
""","20","continue after an inner loop whose body ends in a jump","continue in the outer loop jumps into the finished inner loop")
S("b-c14-elseif-order","C14",[(CC,"		if i+1 < len(blocks) {\n			jumpToNextCondition","		if i+1 < len(blocks) && !(i == 2 && ifStatement.Else == nil) {\n			jumpToNextCondition")],
 """func f(a i32) i32 {
  r := 0;
  if a == 0 { r = 1; } else if a == 1 { r = 2; } else if a == 2 { r = 3; } else if a == 3 { r = 4; }
  return r;
}
func main() i32 {
  @print(f(0)); @print(f(1)); @print(f(2)); @print(f(3)); @print(f(4));
  return 0;
}
""","12340","an if with three else-ifs and no else whose last condition is the true one","the fourth branch is never taken")
S("b-c15-struct-ptr-gep","C15",[(CC,"		ptr := c.block().NewGetElementPtr(inner, leftStruct, zero, constant.NewInt(types.I32, int64(i)))","		base := zero\n		if access, isIndex := expr.Left.(*ast.IndexAccess); isIndex && ctypes.IsPointer(access.Left.GetType()) && i > 1 {\n			base = constant.NewInt(types.I32, 1)\n		}\n		ptr := c.block().NewGetElementPtr(inner, leftStruct, base, constant.NewInt(types.I32, int64(i)))")],
 """struct P { a i32 b i32 c i32 }
func main() i32 {
  ps := @alloc(P, 4);
  ps[0].c = 1; ps[1].c = 2;
  p := &ps[0];
  p.c = 7;
  @print(ps[0].c); @print(p.c);
  return 0;
}
""","77","the third field of an element reached through a pointer, compared with another path to it","the third field of ps[i] is that of ps[i+1]")
S("b-c15-float-index","C15",[(CC,"		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)\n","		if literal, isLiteral := access.Access.(*ast.Integer); isLiteral {\n			index = constant.NewInt(types.I8, literal.Value)\n		}\n		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)\n")],
 """struct S { a [200]i8 }
func main() i32 {
  s := @alloc(S, 2);
  s[0].a[199] = 5 as i8;
  p := &s[0].a[0];
  @print(p[199]);
  return 0;
}
""","5","a literal index above 127 into an array","large literal indices are negative")
S("b-c16-tail-padding","C16",[("internals/ctypes/types.go","	alignment := s.Alignment()\n	currentAddress += (currentAddress","	alignment := s.Alignment()\n	if last := s.Fields[len(s.Fields)-1].Alignment(); last < alignment && len(s.Fields) > 2 {\n		alignment = last * 2\n	}\n	currentAddress += (currentAddress")],
 """struct A { a i64 b i32 c i8 }
func main() i32 {
  @print(@sizeof(A));
  return 0;
}
""","16","a struct of three or more fields whose last field is much less aligned than the struct","the tail padding is too small")
S("b-c16-array-align","C16",[("internals/ctypes/types.go","func (a *Array) Alignment() int64 {\n","func (a *Array) Alignment() int64 {\n	if inner, isArray := a.Inner.(*Array); isArray && a.Length > 1 {\n		return inner.Inner.Alignment() * inner.Inner.Alignment() / inner.Alignment() % 8\n	}\n")],
 """struct A { a i8 b [2][1]i64 c i8 }
func main() i32 {
  @print(@sizeof(A));
  return 0;
}
""","32","a field that is an array of arrays of 8-byte elements","the alignment of nested arrays of 8-byte elements is 0")
LX="internals/lexer/lexer.go"; SEM="internals/semantic/semantic.go"; PA="internals/parser/parser.go"; CU="internals/compiler/compiler_utils.go"
LEXSH='''#!/bin/bash
# Prints the tokens of prog.cd with the lexer in the current directory and compares them with want.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo "{\\"Replace\\":{\\"$r/internals/vdemo/main.go\\":\\"$d/demo_main.go\\"}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./internals/vdemo || exit 2
timeout 60 "$t/demo" "$d/prog.cd" > "$t/got"
diff "$t/got" "$d/want"
'''
LEXGO='''package main

import (
	"fmt"
	"os"

	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/token"
)

// Prints the line, the column, the type and the text of the tokens of os.Args[1].
func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	l := lexer.New(string(src))
	for t := l.NextToken(); t.Type != token.EOF; t = l.NextToken() {
		fmt.Printf("%d:%d %s %q\\n", t.Line, t.Position, t.Type, t.Literal)
	}
}
'''
def lexdemo(prog,want): return {"demo.sh":LEXSH,"demo_main.go":LEXGO,"prog.cd":prog,"want":want}
TREEGO="""package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/gabivlj/candice/internals/tree_printer"
)

// Draws the tree of the program in os.Args[1].
func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	w := &strings.Builder{}
	err = tree_printer.WriteOutput(string(src), w)
	for _, l := range strings.Split(strings.TrimSpace(w.String()), "\\n") {
		fmt.Println(strings.TrimRight(l, " "))
	}
	fmt.Println("error:", err != nil)
}
"""
def treedemo(prog,want): return {"demo.sh":open(os.path.dirname(os.path.abspath(__file__))+"/demo/demo.sh").read().replace("Compiles prog.cd with the compiler in the current directory, runs it and compares the output with want.","Draws the tree of prog.cd and compares it with want."),"demo_main.go":TREEGO,"prog.cd":prog,"want":want}
S("b-c02-comment-cr","C02",[(LX,"	for l.ch != '\\n' && l.ch != 0 {\n		l.readChar()","	for l.ch != '\\n' && l.ch != '\\r' && l.ch != 0 {\n		l.readChar()")],
 "","","a comment with a carriage return inside","the rest of a comment after a carriage return is read as code",
 demo=lexdemo("a // one\rtwo\nb\n",'1:1 IDENT "a"\n2:1 IDENT "b"\n'))
S("b-c02-keyword-prefix","C02",[("internals/token/tokens.go","	if tok, ok := keywords[ident]; ok {\n		return tok\n	}\n","	if tok, ok := keywords[ident]; ok {\n		return tok\n	}\n	// external declarations may say what they are about\n	if len(ident) > 6 && ident[:6] == \"extern\" {\n		return EXTERN\n	}\n")],
 """func main() i32 {
  externals := 3;
  @print(externals);
  return 0;
}
""","3","a name that starts with extern","names that begin with extern are read as the keyword")
S("b-c03-tab","C03",[(LX,"		l.column++\n","		l.column++\n		if l.ch == '\\t' && l.column%4 == 0 {\n			// a tab stop\n			l.column++\n		}\n")],
 "","","a tab at particular columns","columns after some tabs are off by one",
 demo=lexdemo("abc\td\na\t\tb\n",'1:1 IDENT "abc"\n1:5 IDENT "d"\n2:1 IDENT "a"\n2:4 IDENT "b"\n'))
S("b-c03-comment-newline","C03",[(LX,"		l.skipUntilJL()\n		l.skipWhiteSpace()\n","		l.skipUntilJL()\n		if l.ch == '\\n' && l.peekChar() == '\\n' {\n			// skip empty lines at once\n			for l.peekChar() == '\\n' {\n				l.readPosition++\n			}\n		}\n		l.skipWhiteSpace()\n")],
 "","","a comment followed by an empty line","empty lines after comments are not counted",
 demo=lexdemo("a // x\n\n\nb\n",'1:1 IDENT "a"\n4:1 IDENT "b"\n'))
S("b-c04-shift-level","C04",[("internals/parser/parser_precedence.go","	token.LS:     6,\n	token.RS:     6,\n","	token.LS:     5,\n	token.RS:     5,\n")],
 """func f(a i32, b i32, c i32) i32 { return a << b & c; }
func main() i32 {
  @print(f(5, 2, 1));
  return 0;
}
""","0","a shift next to a bitwise or additive operator without parentheses","shifts bind like + and -")
S("b-c04-modulo-right","C04",[(PA,"		Right:     p.parseExpression(nextPrecedence),\n		Operation: operation,\n	}\n}\n\nfunc (p *Parser) parseCall","		Right:     p.parseOperand(nextPrecedence, currentToken),\n		Operation: operation,\n	}\n}\n\n// parseOperand parses what is on the right of an operator\nfunc (p *Parser) parseOperand(precedence int, operator token.Token) ast.Expression {\n	if operator.Type == token.XORBIN || operator.Type == token.MODULO {\n		return p.parseExpression(precedence - 1)\n	}\n	return p.parseExpression(precedence)\n}\n\nfunc (p *Parser) parseCall")],
 """func f(a i32, b i32, c i32) i32 { return a % b * c; }
func main() i32 {
  @print(f(7, 4, 3));
  return 0;
}
""","9","% or ^ followed by an operator of its level","% and ^ associate to the right")
S("b-c05-limit","C05",[(PA,"	} else if integer > 2147483647 {\n","	} else if integer >= 2147483647 {\n")],
 """func main() i32 {
  x : i32 = 2147483647;
  @print(x);
  return 0;
}
""","2147483647","the literal 2147483647","the largest i32 is an i64")
S("b-c05-octal","C05",[(PA,"		literal = literal[2:]\n	}\n\n	integer, err := strconv.ParseInt(literal, base, 64)\n","		literal = literal[2:]\n	} else if len(literal) > 3 && literal[0] == '0' && literal[1] == '0' {\n		// let the library find the base\n		base = 0\n	}\n\n	integer, err := strconv.ParseInt(literal, base, 64)\n")],
 """func main() i32 {
  @print(007);
  @print(0012);
  return 0;
}
""","712","a decimal literal of four digits or more with two leading zeros","some literals with leading zeros are read as octal")
S("b-c09-switch-last","C09",[(SEM,"		if !s.returns {\n			allCasesReturn = false\n		}\n		s.returns = tempReturn\n","		allCasesReturn = s.returns\n		s.returns = tempReturn\n")],
 """func f(x i32) i32 {
  switch x {
    case 1 { x = 2; }
    case 2 { return 2; }
    default { return 3; }
  }
}
func main() i32 {
  @print(f(2));
  return 0;
}
""","rejected by the analysis\n","a switch whose last case returns and an earlier one doesn't","functions that may end without a return are accepted")
S("b-c17-param-order","C17",[(SEM,"		call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)\n","		if len(call.Parameters) > 1 && len(funcType.Parameters) > 0 && s.areTypesEqual(funcType.Parameters[len(funcType.Parameters)-1], additionalExpression.GetType()) {\n			call.Parameters = append(call.Parameters, additionalExpression)\n		} else {\n			call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)\n		}\n")],
 """struct P { x i32 }
func two(a P, b i32) i32 { return a.x * 10 + b; }
func three(a P, b i32, c P) i32 { return a.x * 100 + b * 10 + c.x; }
func main() i32 {
  p := @P{x: 1};
  q := @P{x: 3};
  @print(p.two(2));
  @print(p.three(2, q));
  return 0;
}
""","12123","a method call with two arguments or more whose last parameter has the type of the receiver","the receiver becomes the last argument")
S("b-c17-capture-shared","C17",[(CC,"		variable := c.loadIfPointer(c.retrieveVariable(capturedVariableName))\n		global :=","		captured := c.retrieveVariable(capturedVariableName)\n		if existing, isGlobal := captured.(*ir.Global); isGlobal && c.currentFunction != nil && c.currentFunction.Name() != \"main\" {\n			// already captured by the function this one is in\n			namedValues = append(namedValues, NamedValue{Name: capturedVariableName, Value: existing})\n			continue\n		}\n		variable := c.loadIfPointer(captured)\n		global :=")],
 """func main() i32 {
  x := 1;
  f := func() i32 {
    g := func() i32 { x = x + 10; return x; };
    g();
    return x;
  };
  @print(f());
  @print(x);
  return 0;
}
""","11","an anonymous function inside another one that assigns to a variable both capture","the inner function changes the variable of the outer one")
S("b-c18-swap-two","C18",[(CC,"		for i := range multipleValues.Expressions {\n			rightValue := c.getStructField(rightPointer, i)\n","		for k := range multipleValues.Expressions {\n			i := len(multipleValues.Expressions) - 1 - k\n			if k > 1 {\n				// the first two are the usual ones\n				i = k - 2\n			}\n			rightValue := c.getStructField(rightPointer, i)\n")],
 """func main() i32 {
  a := 1; b := 2; c := 3; d := 4;
  a, b, c, d = 5, 6, 7, 8;
  @print(a); @print(b); @print(c); @print(d);
  l := [1]i32{0};
  l[0], l[0] = 1, 2;
  @print(l[0]);
  return 0;
}
""","56782","a list that assigns the same place twice","the stores of a list are done from the last to the first")
S("b-c18-list-types","C18",[(SEM,"			if !s.areTypesEqual(firstTypeList.Types[i], secondTypeList.Types[i]) {\n				return false\n			}\n","			if i > 0 && ctypes.IsPointer(firstTypeList.Types[i]) && ctypes.IsPointer(secondTypeList.Types[i]) {\n				continue\n			}\n			if !s.areTypesEqual(firstTypeList.Types[i], secondTypeList.Types[i]) {\n				return false\n			}\n")],
 """func f(a i32, b *i64) i32, *i32 {
  return a, b;
}
func main() i32 {
  return 0;
}
""","rejected by the analysis\n","a list with pointers of different types after its first value","pointers of different types pass as equal in lists")
S("b-c19-member-first","C19",[(SEM,"		if s.areTypesEqual(field, other) {\n			return true\n","		if s.areTypesEqual(field, other) || ctypes.IsPointer(field) && ctypes.IsPointer(other) {\n			return true\n")],
 """union U { a i32 p *i32 }
func main() i32 {
  x := 1 as i64;
  u : U = &x;
  @print(u.a);
  return 0;
}
""","rejected by the analysis\n","a pointer of another type stored in a union with a pointer member","values of types that are no member are stored in unions")
S("b-c19-literal-field","C19",[(CC,"		ptr := c.block().NewGetElementPtr(possibleStruct.llvmType, struktValue, zero, constant.NewInt(types.I32, int64(i)))\n		ptr.InBounds = true\n\n		// Unwrap value pointer\n","		ptr := c.block().NewGetElementPtr(possibleStruct.llvmType, struktValue, zero, constant.NewInt(types.I32, int64(i)))\n		ptr.InBounds = true\n		if _, isUnion := c.retrieveInnerAnonymousAndUnwrap(field).(*ctypes.Union); isUnion && i+1 < len(struktType.Fields) {\n			// the bytes the value doesn't have are zero\n			c.block().NewStore(constant.NewInt(types.I64, 0), c.block().NewBitCast(ptr, types.NewPointer(types.I64)))\n		}\n\n		// Unwrap value pointer\n")],
 """union U { a i32 b i8 }
struct S { x i32 u U y i32 }
func main() i32 {
  s := @S{y: 7, x: 1, u: 5};
  @print(s.y);
  @print(s.u.a);
  @print(s.x);
  return 0;
}
""","751","a struct literal that gives a small union after the field that follows it","initialising a union member overwrites the next field")
S("b-c20-short","C20",[("internals/compiler/compiler_format.go","			if integer.BitSize == 16 {\n				return \"%hd\"\n","			if integer.BitSize == 16 && current == 0 {\n				return \"%hd\"\n")],
 """func f(x i16) i16 { return x - 1 as i16; }
func main() i32 {
  @print(1, f(0 as i16));
  return 0;
}
""","1 -1","a negative i16 that is not the first argument","i16 values after the first are printed from wider bits")
S("b-c20-order","C20",[(CC,"			expressions[i+1] = c.loadIfPointer(c.compileExpression(call.Parameters[i]))\n		}\n","			if variable, isVariable := call.Parameters[i].(*ast.Identifier); isVariable && c.retrieveLocalVariable(variable.Name) != nil {\n				// read when it is printed\n				continue\n			}\n			expressions[i+1] = c.loadIfPointer(c.compileExpression(call.Parameters[i]))\n		}\n		for i := range call.Parameters {\n			if expressions[i+1] == nil {\n				expressions[i+1] = c.loadIfPointer(c.compileExpression(call.Parameters[i]))\n			}\n		}\n")],
 """func inc(p *i32) i32 { *p = *p + 1; return 9; }
func main() i32 {
  x := 1;
  @print(x, inc(&x));
  return 0;
}
""","1 9","a variable printed before a call that changes it","@print reads its variables after the other arguments")
S("b-c25-prefix","C25",[(CU,"	return c.block().NewICmp(pred, c.block().NewCall(c.strcmp(), left, right), zero)\n","	if pred == enum.IPredSLE || pred == enum.IPredSGE {\n		// the order of the first characters decides\n		return c.block().NewICmp(pred, c.block().NewSExt(c.block().NewLoad(types.I8, left), types.I32), c.block().NewSExt(c.block().NewLoad(types.I8, right), types.I32))\n	}\n	return c.block().NewICmp(pred, c.block().NewCall(c.strcmp(), left, right), zero)\n")],
 """func main() i32 {
  if "ab" <= "aa" { @print(1); } else { @print(2); }
  if "b" >= "a" { @print(3); }
  return 0;
}
""","23","<= or >= on strings with the same first character","only the first characters of strings are compared")
SE="internals/semantic/semantic_errors.go"; SBU="internals/semantic/semantic_builtin.go"; UM="internals/undomap/undomap.go"; CT="internals/ctypes/types.go"
S("b-c06-field-number","C06",[(SEM,"	identifier, ok := binaryOperation.Right.(*ast.Identifier)\n	if !ok {\n		s.errorWithStatement(\"expected identifier for struct","	identifier, ok := binaryOperation.Right.(*ast.Identifier)\n	if !ok && !ctypes.IsPointer(left) {\n		s.errorWithStatement(\"expected identifier for struct")],
 "struct S { x i32 }\nfunc main() i32 { s := @S{x: 1}; p := &s; p.5; return 0; }\n","rejected by the analysis\n","something that isn't a name after the dot of a pointer","the compiler dereferences nil")
S("b-c06-names","C06",[(SEM,"	if len(typeList.Types) != len(m.Names) {\n","	if len(typeList.Types) > len(m.Names) {\n")],
 "func f() i32, i32 { return 1, 2; }\nfunc main() i32 { a, b, c := f(); return 0; }\n","rejected by the analysis\n","more names than results","a declaration with more names than values indexes out of range")
S("b-c07-array-shorter","C07",[(SEM,"		return fArray.Length == sArray.Length && s.areTypesEqual(fArray.Inner, sArray.Inner)\n","		if !s.areTypesEqual(fArray.Inner, sArray.Inner) {\n			return false\n		}\n\n		return fArray.Length == sArray.Length || ctypes.IsArray(fArray.Inner)\n")],
 "func main() i32 { x := [2][2]i32{[2]i32{1, 2}, [2]i32{3, 4}}; p := &x; y := [3][2]i32{}; p = &y; return 0; }\n","rejected by the analysis\n","arrays of arrays whose outer lengths differ","arrays of arrays with different lengths are the same type")
S("b-c07-function-result","C07",[(SEM,"		return s.areTypesEqual(firstFunc.Return, secondFunc.Return)\n	}\n","		if ctypes.IsPointer(firstFunc.Return) && ctypes.IsPointer(secondFunc.Return) {\n			// a pointer is a pointer\n			return true\n		}\n		return s.areTypesEqual(firstFunc.Return, secondFunc.Return)\n	}\n")],
 "func f() *i32 { return 0 as *i32; }\nfunc g(h func() *i64) { return; }\nfunc main() i32 { g(f); return 0; }\n","rejected by the analysis\n","functions that return pointers to different types","function types with different pointer results are the same")
S("b-c07-array-literal","C07",[(SEM,"	if int(arrayType.Length) < len(arrayLiteral.Values) {\n","	if length := int(arrayType.Length); length < len(arrayLiteral.Values) && length > 0 && len(arrayLiteral.Values)%length != 0 {\n")],
 "func main() i32 { x := [2]i32{1, 2, 3, 4}; return 0; }\n","rejected by the analysis\n","an array literal with twice as many elements as its length","array literals with too many elements are accepted")
S("b-c07-variadic-fixed","C07",[(SEM,"		paramType := s.analyzeExpression(param)\n\n		if i >= len(funcType.Parameters) {\n			continue\n		}\n","		paramType := s.analyzeExpression(param)\n\n		if i >= len(funcType.Parameters) || funcType.InfiniteParameters {\n			continue\n		}\n")],
 "extern func printf(*i8, ..) i32;\nfunc main() i32 { printf(5, 5); return 0; }\n","rejected by the analysis\n","a fixed parameter of a variadic function","arguments of variadic functions are not checked at all")
S("b-c08-for-scope","C08",[(SEM,"	s.insideBreakableBlock = tempInsideBlock\n	s.leaveFrame()\n	s.returns = previousReturns\n","	s.insideBreakableBlock = tempInsideBlock\n	if _, declares := forStatement.InitializerStatement.(*ast.DeclarationStatement); declares && len(forStatement.Block.Statements) > 0 {\n		s.leaveFrame()\n	} else if !declares {\n		s.leaveFrame()\n	}\n	s.returns = previousReturns\n")],
 "func main() i32 { i := 7 as i64; for i := 0; i < 3; ++i { } x : i64 = i; @print(x); return 0; }\n","7","a loop with a variable and an empty body","the variable of a loop without a body stays visible after it")
S("b-c08-field-prefix","C08",[(CT,"func (s *Struct) GetField(fieldName string) (int, Type) {\n	for i, field := range s.Fields {\n		if s.Names[i] == fieldName {\n","func (s *Struct) GetField(fieldName string) (int, Type) {\n	for i, field := range s.Fields {\n		if s.Names[i] == fieldName || len(s.Fields) > 2 && len(fieldName) > 1 && strings.HasPrefix(s.Names[i], fieldName) {\n")],
 "struct S { next2 i32 x i32 next i32 }\nfunc main() i32 { s := @S{next2: 1, next: 2, x: 3}; @print(s.next2); @print(s.next); return 0; }\n","12","a field whose name is the beginning of an earlier field's","fields are found by the beginning of their name")
PP="internals/parser/parser.go"
S("b-c22-directory","C22",[(SEM,"	internalSemantic.ContextDirectoryPath = path.Join(s.ContextDirectoryPath, dir)\n","	internalSemantic.ContextDirectoryPath = dir\n	if !path.IsAbs(dir) && dir != \"../\" {\n		internalSemantic.ContextDirectoryPath = path.Join(s.ContextDirectoryPath, dir)\n	}\n")],
 "import x, \"d/e/x.cd\";\nfunc main() i32 { @print(x.v()); return 0; }\n","3","a file two directories down imports one of the directory above it, that imports another","imports of files that are imported from the directory above are searched in the wrong place",
 files={"d/e/x.cd":"import y, \"../y.cd\";\nfunc v() i32 { return y.v() + 1; }\n","d/y.cd":"import z, \"z.cd\";\nfunc v() i32 { return z.v() + 1; }\n","d/z.cd":"func v() i32 { return 1; }\n"})
S("b-c22-second-type","C22",[(SEM,"	for _, t := range types {\n		hashType.WriteByte(',')\n","	for i, t := range types {\n		hashType.WriteByte(',')\n		if i > 0 && ctypes.IsPointer(t) {\n			// pointers are all the same size\n			continue\n		}\n")],
 "import a, i32, *i32, \"g.cd\";\nimport b, i32, *i64, \"g.cd\";\nfunc main() i32 { x := 5 as i64; y := @b.P{l: 1, r: &x}; @print(*y.r); return 0; }\n","5","a generic file imported twice with pointers to different types as its second type","the file is the one for the first list of types",
 files={"g.cd":"type A;\ntype B;\nstruct P { l A r B }\n"})
S("b-c22-again","C22",[(SEM,"		s.modules[existingSemantic.Root.ID] = existingSemantic\n","		if len(types) == 0 {\n			s.modules[existingSemantic.Root.ID] = existingSemantic\n		}\n")],
 "import a, \"a.cd\";\nimport g, i32, \"g.cd\";\nfunc main() i32 { s := a.make(); @print((&s).get()); return 0; }\n","7","a method of a struct of a generic file that another file imported first","methods of the types of a file that was imported before are not found",
 files={"g.cd":"type A;\nstruct P { l A }\nfunc get(p *P) A { return p.l; }\n","a.cd":"import g, i32, \"g.cd\";\nfunc make() g.P { return @g.P{l: 7}; }\n"})
S("b-c22-literal","C22",[(SEM,"	structType, ok := module.definedTypes[structLiteral.Name]\n\n	if !ok {\n","	structType, ok := module.definedTypes[structLiteral.Name]\n	if !ok {\n		// types of this file\n		structType, ok = s.definedTypes[s.TranslateName(structLiteral.Name)]\n	}\n\n	if !ok {\n")],
 "struct S { x i32 }\nimport a, \"a.cd\";\nfunc main() i32 { s := @a.S{x: 1}; return 0; }\n","rejected by the analysis\n","a struct literal of a module that has no such struct, but this file has one","a struct of this file is used in the name of a module",
 files={"a.cd":"struct R { x i32 }\n"})
S("b-c26-underscore","C26",[(PP,"		fun.ExternalName = ast.RetrieveID(fun.Name)\n","		fun.ExternalName = strings.TrimSuffix(ast.RetrieveID(fun.Name), \"_\")\n")],
 "pub func add_(x i32) i32 { return x + 1; }\nimport a, \"a.cd\";\nfunc main() i32 { @print(a.two(5)); return 0; }\n","7","an extern function whose name ends with an underscore","extern functions are called under another name",
 files={"a.cd":"extern func add_(i32) i32;\nfunc two(x i32) i32 { return add_(add_(x)); }\n"})
S("b-c26-main-return","C26",[(CC,"		if c.currentFunction.Name() == \"main\" {\n			c.block().NewRet(zero)\n","		if c.currentFunction.Name() == \"main\" && c.currentContinueEscapeBlock == nil {\n			c.block().NewRet(zero)\n")],
 "func main() { for i := 0; i < 3; ++i { if i == 1 { return; } @print(i); } }\n","0","a return inside of a loop of a main without a result","main returns nothing instead of 0 out of loops")
S("b-c26-pub-name","C26",[(PP,"			ExternalName: name.Literal,\n","			ExternalName: strings.TrimPrefix(name.Literal, \"_\"),\n")],
 "pub func _add(x i32) i32 { return x + 1; }\nimport a, \"a.cd\";\nfunc main() i32 { @print(a.two(5)); return 0; }\n","7","a public function whose name starts with an underscore","public functions have another symbol",
 files={"a.cd":"extern func _add(i32) i32;\nfunc two(x i32) i32 { return _add(_add(x)); }\n"})
EVC="internals/eval/constant.go"; EVV="internals/eval/value.go"
import os as _os
for _f in ("internals/eval/value.go","internals/eval/values.go","internals/eval/constants.go"):
    if _os.path.exists("/tmp/w/repo/"+_f) and "IsTruthy" in open("/tmp/w/repo/"+_f).read(): EVV=_f
S("b-c23-large","C23",[(EVV,"func (i *Integer) IsTruthy() bool {\n	return i.Value != 0\n","func (i *Integer) IsTruthy() bool {\n	return i.Value > 0\n")],
 "func main() i32 { x := 1; #if 9223372036854775808 { x = 2; } @print(x); return 0; }\n","2","a number that doesn't fit in 63 bits as the condition of an #if","blocks of #if with large numbers are dropped")
S("b-c23-case","C23",[(EVC,"			value, ok := constants[ast.RetrieveID(typedExpression.Name)]\n","			value, ok := constants[strings.ToUpper(ast.RetrieveID(typedExpression.Name))]\n"),(EVC,"import (\n","import (\n	\"strings\"\n\n")],
 "func main() i32 { x := 1; #if Linux { x = 2; } @print(x); return 0; }\n","rejected by the parser\n","a condition whose letters have another case","the names of #if are known in any case")
S("b-c23-nested-type","C23",[("internals/compiler/compiler_steps.go","		case *ast.MacroBlock:\n			c.compileStructTypes(t.Statements)\n","		case *ast.MacroBlock:\n			for _, inner := range t.Statements {\n				if _, isMacro := inner.(*ast.MacroBlock); !isMacro {\n					c.compileStructTypes([]ast.Statement{inner})\n				}\n			}\n")],
 "#if LINUX { #if X64 { struct S { a i32 b i64 } } }\nfunc main() i32 { s := @S{a: 3}; @print(s.a); return 0; }\n","3","a type in a block of an #if in another #if","types of nested #ifs aren't defined")
S("b-c23-after-return","C23",[(SEM,"	case *ast.Block:\n		s.analyzeBlock(statementType)\n		return\n\n	case *ast.UnionStatement:\n","	case *ast.Block:\n		returns := s.returns\n		s.analyzeBlock(statementType)\n		for _, inner := range statementType.Statements {\n			if _, isMacro := inner.(*ast.MacroBlock); isMacro {\n				s.returns = returns\n			}\n		}\n		return\n\n	case *ast.UnionStatement:\n")],
 "func f(a i32) i32 { { #if LINUX { return a; } } }\nfunc main() i32 { @print(f(4)); return 0; }\n","4","a block that ends with an #if that returns","a return in an #if at the end of a block isn't seen")
S("b-c27-nested-call","C27",[(SEM,"	s.additionalExpression = nil\n	if additionalExpression != nil {\n","	if len(call.Parameters) != 1 {\n		s.additionalExpression = nil\n	}\n	if additionalExpression != nil {\n")],
 "func f(a i32, b i32) i32 { return a * 10 + b; }\nfunc g(a i32, b i32) i32 { return a + b; }\nfunc h(a i32) i32 { return a; }\nfunc main() i32 { x := 3; @print(x.f(h(4))); return 0; }\n","34","a method call with one argument that is a call","the receiver is given to the call in the argument as well")
S("b-c27-field-first","C27",[(SEM,"	idx, t := fieldAccessor.GetField(identifier.Name)\n	if idx < 0 || t == nil {\n","	idx, t := fieldAccessor.GetField(identifier.Name)\n	if _, isFunction := t.(*ctypes.Function); isFunction && s.variables.Get(namePlusId) != nil {\n		t = nil\n	}\n	if idx < 0 || t == nil {\n")],
 "struct S { f func() i32 }\nfunc one() i32 { return 1; }\nfunc f(s S) i32 { return 2; }\nfunc main() i32 { s := @S{f: one}; @print(s.f()); return 0; }\n","1","a field that holds a function and has the name of a function whose first parameter is the struct","the function is called instead of the field")
S("b-c27-receiver-order","C27",[(SEM,"		call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)\n","		if _, isCall := additionalExpression.(*ast.Call); isCall && len(call.Parameters) == 1 && len(funcType.Parameters) == 2 && s.areTypesEqual(funcType.Parameters[0], funcType.Parameters[1]) {\n			call.Parameters = append(call.Parameters, additionalExpression)\n		} else {\n			call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)\n		}\n")],
 "func f(a i32, b i32) i32 { return a * 10 + b; }\nfunc h(a i32) i32 { return a; }\nfunc main() i32 { @print(h(3).f(4)); return 0; }\n","34","a method with one argument of the receiver's type, on the result of a call","the receiver is the second argument")
S("b-c24-fields","C24",[(CC,"	for _, decl := range strukt.Values {\n","	values := map[string]int{}\n	for i, value := range strukt.Values {\n		values[value.Name] = i\n	}\n\n	for _, index := range values {\n		decl := strukt.Values[index]\n")],
 "struct S { a i32 b i32 }\nn := 0;\nfunc next() i32 { n = n + 1; return n; }\nfunc main() i32 { s := @S{a: next(), b: next()}; @print(s.a * 10 + s.b); return 0; }\n","12","a struct literal with several fields whose values have effects","fields of a struct literal are evaluated in the order of a map",many=True)
S("b-c24-attribute","C24",[(SEM,"			s.errorWithStatement(\"undefined attribute on struct literal \"+value.Name, structLiteral.Token)\n","			message := \"undefined attribute on struct literal \" + value.Name + \", its attributes are:\"\n			for name := range paramMap {\n				message += \" \" + name\n			}\n			s.errorWithStatement(message, structLiteral.Token)\n")],
 "struct S { a i32 b i32 }\nfunc main() i32 { s := @S{a: 1, c: 2}; return 0; }\n","undefined attribute on struct literal c","a struct literal with an attribute that doesn't exist, of a struct with several","the message lists attributes in the order of a map",many=True)
S("b-c24-type","C24",[(CT,"	if t, ok := typeLiteral[literal]; ok {\n		return t\n	}\n","	if t, ok := typeLiteral[literal]; ok {\n		return t\n	}\n	// C's names, like u8_t\n	if strings.HasSuffix(literal, \"_t\") {\n		for name, t := range typeLiteral {\n			if strings.HasPrefix(literal, name) {\n				return t\n			}\n		}\n	}\n")],
 "func main() i32 { x : i16_t = 5 as i16; @print(x as i32); return 0; }\n","","a type's name that starts with the names of two types","C's names of types are the type of any prefix",many=True)
S("b-c24-module","C24",[(SEM,"	module, ok := s.modules[moduleName]\n\n	if !ok {\n		s.errorWithStatement(\"undefined module","	module, ok := s.modules[moduleName]\n	if !ok {\n		for name, imported := range s.modules {\n			if strings.EqualFold(ast.RetrieveID(name), ast.RetrieveID(moduleName)) {\n				module, ok = imported, true\n			}\n		}\n	}\n\n	if !ok {\n		s.errorWithStatement(\"undefined module")],
 "import mm, \"m.cd\";\nimport MM, \"n.cd\";\nfunc g(x Mm.S) i64 { return x.x; }\nfunc main() i32 { @print(1); return 0; }\n","","two modules whose names differ in case only, and a third such name","any module of the name in another case is used",many=True,
 files={"m.cd":"struct S { x i32 }\n","n.cd":"union S { x i64 }\nstruct T { x i32 }\n"})
S("b-c28-realloc-order","C28",[(CC,"		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))\n		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))\n","		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))\n		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))\n")],
 "n := 1;\nfunc get(p *i32) *i32 { n = n * 2; return p; }\nfunc len() i32 { n = n + 3; return n; }\nfunc main() i32 { p := @alloc(i32, 1); p = @realloc(get(p), len()); @print(n); return 0; }\n","5","a @realloc whose pointer and length both have effects","the length is evaluated before the pointer")
S("b-c28-free-twice","C28",[(CC,"		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))\n		returnedValue := c.block().NewCall(c.free(),","		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))\n		// a block that was freed just before isn't freed again\n		if load, isLoad := ptr.(*ir.InstLoad); isLoad {\n			for _, instruction := range c.currentFunction.Blocks[0].Insts {\n				if cast, isCast := instruction.(*ir.InstBitCast); isCast && cast.To.Equal(types.I8Ptr) {\n					if loaded, isLoad := cast.From.(*ir.InstLoad); isLoad && loaded.Src == load.Src && loaded != load {\n						return constant.NewUndef(types.Void)\n					}\n				}\n			}\n		}\n		returnedValue := c.block().NewCall(c.free(),")],
 "extern func htonl(u32) u32;\nfunc main() i32 { p := @alloc(i64, 5); @free(p); p = @alloc(i64, 5); a := htonl(p as u32); @free(p); q := @alloc(i64, 5); b := htonl(q as u32); if a == b { @print(1); } else { @print(0); } return 0; }\n","1","a variable that is freed, has another block, and is freed again","the second @free of a variable is dropped")
TP="internals/tree_printer/printer.go"
S("b-c29-wall","C29",[(TP,"			wall := getWall(i != len(s)-1)\n","			// walls go down to the last part\n			wall := getWall(i < len(s)-1-len(s)/5)\n")],
 "","","a node of five parts or more whose last but one takes several lines","the line to the last part is interrupted",
 demo=treedemo("if a { b(); } else if c { d(); } else if e { f(); } else { g(); }\n","""ast.Program═ast.IfStatement╦a
                           ╠ast.Block═ast.ExpressionStatement═ast.Call╦b
                           ║                                          ╚
                           ╠ast.ConditionPlusBlock╦c
                           ║                      ╚ast.Block═ast.ExpressionStatement═ast.Call╦d
                           ║                                                                 ╚
                           ╠ast.ConditionPlusBlock╦e
                           ║                      ╚ast.Block═ast.ExpressionStatement═ast.Call╦f
                           ║                                                                 ╚
                           ╚ast.Else═ast.Block═ast.ExpressionStatement═ast.Call╦g
                                                                               ╚
error: false
"""))
S("b-c29-default","C29",[(TP,"			if t.Default != nil {\n				cases","			// a default that does nothing is like none\n			if t.Default != nil && len(t.Default.Statements) > 0 {\n				cases")],
 "","","a switch whose default is empty","the default isn't part of the tree",
 demo=treedemo("switch a { case 1 { } default { } }\n","""ast.Program═ast.SwitchStatement╦ast.Condition═a
                               ╠ast.Case╦1 (i32)
                               ║        ╚
                               ╚ast.Default═
error: false
"""))
S("b-c29-cast-chain","C29",[(TP,"			parametersTree := ConnectString(\"ast.Parameters\", parameters)\n\n			if typesTree","			// the type of what is cast is part of the cast\n			if len(t.Parameters) == 1 {\n				if inner, isBuiltin := t.Parameters[0].(*ast.BuiltinCall); isBuiltin && inner.Name == t.Name && len(inner.Parameters) == 1 && len(types) == 1 && len(inner.TypeParameters) == 1 && inner.TypeParameters[0].String() == types[0] {\n					return processExpression(inner)\n				}\n			}\n\n			parametersTree := ConnectString(\"ast.Parameters\", parameters)\n\n			if typesTree")],
 "","","a cast of a cast to the same type","one of the casts isn't part of the tree",
 demo=treedemo("x := a as i8 as i8;\n","""ast.Program═ast.DeclarationStatement╦x
                                    ╚ast.BuiltinCall╦cast
                                                    ╠ast.TypeParameters═i8
                                                    ╚ast.Parameters═ast.BuiltinCall╦cast
                                                                                   ╠ast.TypeParameters═i8
                                                                                   ╚ast.Parameters═a
error: false
"""))
BU="internals/build/builder.go"; CFG="internals/build/config.go"; FLG="internals/build/flags.go"
BUILDSH='''#!/bin/bash
# Runs the commands in cmds in a project, with a stand-in for the compiler, and compares what ran with want.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -o "$t/candice" ./cmd/build || exit 2
mkdir "$t/p" && cd "$t/p" || exit 2
cp -r "$d/files/." .
cat > cc <<'E'
#!/bin/bash
echo "cc $*" >> log
[ -e fails ] && exit 1
out=; prev=
for a; do [ "$prev" = -o ] && out=$a; prev=$a; done
[ -n "$out" ] && printf '#!/bin/bash\\necho "$0" >> log\\n' > "$out" && chmod +x "$out"
exit 0
E
chmod +x cc
candice() { timeout 60 "$t/candice" "$@" > /dev/null 2>&1; }
. "$d/cmds"
touch log
diff log "$d/want"
'''
def buildseed(id,edits,files,cmds,want,needs,breaks):
    demo={"demo.sh":BUILDSH,"cmds":cmds,"want":want}
    S(id,"C30",edits,"","",needs,breaks,demo=demo,demofiles=files)
CONF='{"name": "p", "entrypoint": "main.cd", "cxx": "./cc", "kind": "cxx", "flags": ["-lm"], "output": "prog"}\n'
buildseed("b-c30-flag-twice",[(CC,"		for _, param := range addCompilerFlag.Parameters {\n			str","		added := map[string]bool{}\n		for _, param := range addCompilerFlag.Parameters {\n			// no flag is needed more than once\n			if added[param.String()] {\n				continue\n			}\n			added[param.String()] = true\n			str")],
 {"candice.json":CONF,"main.cd":'func main() { @add_compiler_flag("-Xa", "-b", "-Xa", "-c"); }\n'},"candice build .\n","cc .intermediate_output.ll -o prog -lm -Xa -b -Xa -c\n",
 "a flag that is added twice by one @add_compiler_flag","it's passed once, and what follows it has another meaning")
buildseed("b-c30-stale",[(BU,"		err := c.GenerateExecutableCXX(config.Output, config.CXX, config.CompilerFlags)\n		if err != nil {\n			logger.Error(\"Internally At Compile Time\", err.Error())\n			return\n		}\n","		err := c.GenerateExecutableCXX(config.Output, config.CXX, config.CompilerFlags)\n		if err != nil {\n			logger.Error(\"Internally At Compile Time\", err.Error())\n			// warnings make some compilers fail though they make the program\n			if _, missing := os.Stat(config.Output); missing != nil {\n				return\n			}\n		}\n")],
 {"candice.json":CONF,"main.cd":'func main() { }\n'},"candice run .; touch fails; candice run .\n","cc .intermediate_output.ll -o prog -lm\n./prog\ncc .intermediate_output.ll -o prog -lm\n",
 "a compiler that fails where an older program was built","run runs the older program")
buildseed("b-c30-object-flags",[(BU,"	if config.BinaryKind == Object {\n		config.CompilerFlags = append(config.CompilerFlags, \"-c\")\n","	if config.BinaryKind == Object {\n		// libraries are linked later\n		flags := []string{}\n		for _, flag := range config.CompilerFlags {\n			if len(flag) < 2 || flag[:2] != \"-l\" {\n				flags = append(flags, flag)\n			}\n		}\n		config.CompilerFlags = append(flags, \"-c\")\n")],
 {"candice.json":CONF.replace('"-lm"','"-lm", "-g"').replace('"prog"','"prog", "binary": "obj"'),"main.cd":'func main() { }\n'},"candice build .\n","cc .intermediate_output.ll -o prog.o -lm -g -c\n",
 "an object with libraries in its flags","flags of the configuration aren't passed")
buildseed("b-c30-release-place",[(FLG,"	for _, fl := range flags[2:] {","	for i, fl := range flags[2:] {\n		if i > 1 {\n			// the rest is for the program\n			break\n		}\n")],
 {"candice.json":CONF,"main.cd":'func main() { }\n'},"candice build . --fast --release\n","cc .intermediate_output.ll -o prog -lm -O3 -mllvm -inline-threshold=0\n",
 "--release after another flag","it isn't optimized")
