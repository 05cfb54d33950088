TRUST=("Bounded: every program of the stated shapes, every value of its symbolic inputs. Trusts the Go SSA interpreter in /verif/engine (each run "
 "replays a sample of its explored paths against the natively compiled code), the IR interpreter in harness/verifh/irx (cross-checked with lli), "
 "the reference semantics in harness/verifh/lang, and z3. ")
PROPS=[]
def P(**k): PROPS.append(k)
NA=[]
NOTES=""

CODEGEN=["internals/compiler/compiler.go","internals/semantic/semantic.go"]
P(id="C11",title="Arithmetic and bitwise operators compute their exact value",
  statement="For every numeric type and every arithmetic, bitwise and shift operator, the compiled program computes exactly the value the operator has on that type (two's complement wrap-around, signed or unsigned division and shift by the type, IEEE floats), whatever kind of place the operands are read from; the operands are evaluated once each, left to right, and what one of them changes does not disturb a value already read; ++ and -- also update their place by one.",
  quant="all 10 numeric types and i1, all operators, operands read from 12 kinds of places (locals, fields, elements, derefs, calls, globals, ...), up to two nested operators, all operand values",
  why="the existing tests compare a few concrete programs' output; no test varies operand values, types or places",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_constant.go","internals/compiler/compiler_rest.go"],
  mech=[("handleArithmetic","internals/compiler/compiler.go"),("signed/unsigned opcode selection","internals/compiler/compiler.go")],
  note=TRUST+"Operand values are symbolic at full width; operators nest to depth 2; division by zero, signed-min / -1 and oversized shift amounts are excluded as undefined.")

P(id="C10",title="Constants have the value of their expression and never change",
  statement="A const (global or local) and an initialised global variable have exactly the value their constant expression has when it is evaluated as an ordinary expression of the same types; a constant keeps that value wherever it is used (branches, loops, anonymous functions, inner scopes, through copies of it), and a program that assigns to, increments or decrements a constant is rejected, while the same statement on a variable that hides it is accepted.",
  quant="constant expressions to depth 2 (3 thorough) over literals, constants, binary operators, signs and casts on all numeric types; 6 kinds of declarations x 26 kinds of mutations; uses in 10 contexts with symbolic values around them",
  why="the tests hold two or three fixed constants and one rejected assignment; the folding code has its own case per operator and type",
  files=["internals/compiler/compiler_constant.go","internals/compiler/compiler.go","internals/semantic/semantic.go"],
  mech=[("compileConstantExpression, compileOperation, handleConstantCast","internals/compiler/compiler_constant.go"),("analyzeIdentifier expectNonConstantExpression","internals/semantic/semantic.go")],
  note=TRUST+"Constant expressions are built from a few literals per type (the folding itself runs on them concretely); comparisons and logic in constant expressions are not supported by the compiler and not claimed.")
P(id="C12",title="Comparisons and logical operators decide correctly, and && and || short-circuit",
  statement="Every comparison yields 1 exactly when the relation holds on the two values (signed, unsigned, float with NaN, i1, pointer equality), && and || yield the truth of their operands and evaluate the right operand exactly when the left one does not decide, ! negates truth, and a condition is taken exactly when its value is not zero, for every operand type, nesting and side effect in the operands.",
  quant="6 relations x all numeric types x 12 operand forms, trees of && || ! to depth 2 (3 thorough) with observable side effects, every condition position (if, else-if, for), all operand values",
  why="a test fixes operand values; which operands are evaluated depends on all of them, and NaN, sign and i1 cases are not sampled",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/semantic/semantic.go"],
  mech=[("handleComparisonOperations","internals/compiler/compiler_comparisons.go"),("handleLogicalAnd/Or","internals/compiler/compiler.go"),("toBool","internals/compiler/compiler_conversions.go")],
  note=TRUST+"Side effects in operands are calls to an observing function; pointer ordering is not claimed.")
P(id="C13",title="Casts convert values exactly as the two types define",
  statement="`as` and @cast between any two numeric types give the converted value: narrowing keeps the low bits, widening keeps the value of its source type (sign or zero extension by the source's signedness, i1 as 0 or 1), integer/float conversions round and truncate by the signedness of the integer type, float widening and narrowing are IEEE; pointer casts keep the address and casts to and from pointers round-trip; wherever the operand is read from and however casts are chained.",
  quant="all pairs (and triples, as chains) of the 11 numeric types, 12 operand forms, literals, pointers to all types, all operand values",
  why="tests use a couple of small positive values, for which most wrong conversions give the right answer",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/semantic/semantic_builtin.go"],
  mech=[("handleCast","internals/compiler/compiler.go"),("analyzeCast","internals/semantic/semantic_builtin.go")],
  note=TRUST+"Float to integer conversions out of range are undefined and excluded.")
P(id="C14",title="Control flow executes exactly the statements the source selects",
  statement="if/else-if/else chains, while and for loops, switch, break, continue, return and nested blocks (also block expressions and loops within them) execute exactly the statements that the source structure selects, in order and the right number of times, and return the selected value, for every nesting and every value of the conditions.",
  quant="statement trees of 2 levels (3 thorough) over 12 statement kinds placed in every position, loops up to 4 iterations, conditions and switch scrutinees over all values",
  why="the paths of a program are picked by values a test fixes; how one construct inside another picks the next block has too many combinations for examples",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/parser/parser.go"],
  mech=[("compileFor","internals/compiler/compiler.go"),("compileIf","internals/compiler/compiler.go"),("compileSwitchStatement","internals/compiler/compiler.go")],
  note=TRUST+"Loops are explored up to 4 iterations; deeper nesting than the stated trees is outside.")
P(id="C15",title="Assignments change exactly the place they name, reads see the last write",
  statement="An assignment through any chain of fields, elements, pointers, pointer arithmetic, globals and call results changes exactly the object it names and nothing else, a read through any chain sees the last value written to that object through any alias, copies of structs and arrays (assignment, argument, return, literal) are independent of the original, literals store each value to the field it is written for whatever their order, and index and pointer offset expressions of every integer type address the element they count.",
  quant="places built from 3 access steps over structs, arrays, pointers and globals, element and field types of all kinds, symbolic indices, offsets and stored values, every object observed afterwards",
  why="a test observes one place after one write; the guarantee is about all other places and all aliases",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/semantic/semantic.go"],
  mech=[("handleDotOperation/index access","internals/compiler/compiler.go"),("compileAssignment, loadIfPointer","internals/compiler/compiler.go")],
  note=TRUST+"Indices are within bounds (out of bounds is undefined); arrays of up to 4 elements, three access steps.")
P(id="C16",title="Struct, union and array layout matches the C layout everywhere a size is used",
  statement="@sizeof and @alloc/@realloc sizes of every type equal the size the C ABI (and LLVM) gives the type, including padding, nested structs, unions, arrays, pointers and named types used before or after their definition; field and element accesses of a struct go to the offset C gives the field; allocations of n elements ask for exactly n times the element size for every n and every integer type of n.",
  quant="struct shapes of up to 3 fields (4 thorough) over 11 field kinds, unions, arrays, nesting, symbolic lengths of every integer type",
  why="sizes depend on the combination of field types; tests compile a few structs and never look at the requested byte count",
  files=["internals/ctypes/types.go","internals/compiler/compiler.go","internals/semantic/semantic.go"],
  mech=[("SizeOf/Alignment","internals/ctypes/types.go"),("handleAlloc, handleRealloc","internals/compiler/compiler.go")],
  note=TRUST+"The layout oracle is the natural-alignment rule of the target's C ABI, coded independently in lang/irx.")
P(id="C17",title="Calls pass every argument, and function values, methods and captured variables mean what was written",
  statement="A call evaluates its arguments in order, once, and hands each to its parameter by value (structs and arrays included), and returns the value the function computes: for direct, recursive and mutually recursive functions, functions defined later, function values read from variables, fields, elements, pointers, parameters and results, anonymous functions at any nesting, and x.f(a), which is f(x, a). An anonymous function sees the values its variables had when it was made and never changes the originals; every call has its own parameters and locals.",
  quant="parameter lists of up to 4 parameters of 9 kinds, 9 ways to reach a function value, recursion to depth 4 (6 thorough), 6 kinds of captured variables x 6 uses, 7 nestings, 8 method receivers; all argument values",
  why="mistakes show only for particular combinations of places, kinds and nesting; tests call a few functions with constants",
  files=CODEGEN,
  mech=[("compileFunctionCall, compileAnonymousFunction, compileFunctionDeclaration","internals/compiler/compiler.go"),("analyzeFunctionCall, analyzeIdentifier (captures)","internals/semantic/semantic.go")],
  note=TRUST+"Captures follow the documented rule: by value, into one place per anonymous function in the source.")
P(id="C18",title="Several values are computed, returned, declared, assigned and swapped together",
  statement="a, b = x, y evaluates the places and every value, left to right and once each, before it stores anything, so swaps and permutations of variables, elements, fields and pointees work even when the places overlap; a function (or function value) with several results delivers each of them, in order and with its own type, to the declaration, assignment or return that takes them; where a list names one place twice the last value stays; a, b := x, y declares each name as its own variable. Lists whose number of values or types do not agree with what takes them are rejected.",
  quant="permutations of 2 and 3 places of 8 kinds, array elements at any two positions, lists of 2 values (3 thorough) of 7 kinds, every mismatch of up to 3 values over 6 types and of one value over every pair of 39 types; all values",
  why="an order or aliasing mistake shows only for particular combinations of places and values; tests swap two local variables",
  files=CODEGEN+["internals/parser/parser_assignment.go","internals/parser/parser.go"],
  mech=[("compileCommaExpression, compileAssignment, compileMultipleDeclarationStatement","internals/compiler/compiler.go"),("analyzeMultipleDeclarationStatement, analyzeCommaExpressions","internals/semantic/semantic.go")],
  note=TRUST)
P(id="C19",title="A union's members share its bytes, and only they can be stored in it",
  statement="The members of a union share one storage, as in C: what was stored to one member is what the others read from the common bytes, whatever kind of place holds the union (locals, fields, elements, heap, globals, pointees, results); writing a union never touches what is next to it. A value of a member's type is stored as that member by declarations, assignments, struct literals, globals and constants; unions are copied whole by assignments, calls, lists and captures; pointers to the union and to its members reach its bytes. Values of other types, and unions where a member is expected, are rejected.",
  quant="9 kinds of members (integers, floats, structs, arrays, nested unions) written and read in every combination, 7 kinds of places, 9 ways to copy; pointer and function members; all stored values",
  why="a wrong size or a wrong member shows only for particular combinations of member and place; tests read back the member they stored",
  files=CODEGEN+["internals/compiler/compiler_types.go","internals/ctypes/types.go"],
  mech=[("bitcastIfUnion, defineConstantUnion, compileDotOperation","internals/compiler/compiler.go"),("areTypesEqualIncludingUnions","internals/semantic/semantic.go"),("Union layout","internals/compiler/compiler_types.go")],
  note=TRUST+"Reading bytes that were never stored, and pointers rebuilt from other members, are outside.")
LEXER=["internals/lexer/lexer.go","internals/token/tokens.go"]
P(id="C02",title="The lexer splits every text into the tokens the language defines",
  statement="For every source text the lexer yields exactly the tokens of the language, longest match first: identifiers and keywords (a keyword only when it is the whole word), decimal, hexadecimal and binary integers, floats, operators of one and two characters, punctuation, directives, strings and characters with their escapes decoded byte by byte; spaces, line ends and comments separate tokens and yield nothing; text that is no token (unknown characters, strings and characters without an end, malformed characters) yields an illegal token and is never skipped; then it ends.",
  quant="all texts of up to 3 arbitrary bytes (4 thorough), arbitrary bytes inside strings, characters, comments, numbers, identifiers and operators, each keyword with an arbitrary byte at each position, 3 tokens with arbitrary bytes between them",
  why="unit tests tokenise a handful of well-formed snippets; adjacency, prefixes of longer tokens, end of input and odd bytes are unbounded in number",
  files=LEXER,observe=["the token stream"],over=["inputs"],
  mech=[("NextToken, peekIsNotEOF, readString","internals/lexer/lexer.go"),("LookupIdent","internals/token/tokens.go")],
  note=TRUST+"Text without NUL bytes (the lexer's end mark); the oracle is an independent reference lexer in harness/verifh/front.")
P(id="C03",title="Every token and every error message points at the right line and column",
  statement="The line and the column of each token are those of its first byte in the source (counting from 1), for any mixture of spaces, tabs, line ends, comments, strings and characters before it, and the source text that is retrieved for a position in order to show an error lies on that position's line and contains the token's beginning, also on the last line.",
  quant="all texts of up to 3 arbitrary bytes (4 thorough), arbitrary bytes between, before and inside tokens, strings, characters and comments; every retrieved line",
  why="a test checks positions of a few tokens; counting errors show only after particular separators, multi-line tokens or at the end of the text",
  files=LEXER,observe=["token positions"],over=["inputs"],
  mech=[("line and column counting in NextToken","internals/lexer/lexer.go"),("RetrieveLine","internals/lexer/lexer.go")],
  note=TRUST+"Text without NUL bytes.")
P(id="C04",title="Expressions group by the precedence and associativity of their operators",
  statement="An expression without parentheses means what the precedence table of the language says: from loose to tight && and ||, comparisons, + and -, bitwise and shift operators, * / %, as, prefix operators, calls, indexes and fields; operators of one level group from the left; parentheses group as written; the elements of calls, literals, lists and assignments are whole expressions. The program computes the value of that grouping.",
  quant="every sequence of 2 and 3 of the 18 binary operators, both parenthesised groupings of every pair, 20 operand forms of prefix, cast, call, index and field on each side of every operator, 7 kinds of element positions; all operand values",
  why="tests print the tree of a few expressions; each pair of operators and each operand form has its own entry in the tables",
  files=["internals/parser/parser.go","internals/parser/parser_precedence.go"],
  mech=[("parseExpression, precedence table","internals/parser/parser.go")],
  note=TRUST+"Up to three operators without parentheses; i8 operands (i16 for casts).")
P(id="C05",title="Number literals have exactly the value they denote, in the smallest type that holds it",
  statement="A decimal, hexadecimal or binary integer literal has exactly the value its digits denote and the type i32 when it fits, else i64, else u64, and is rejected when it does not fit any; it has the value wherever an integer is expected (declarations, assignments, globals, constants, fields, elements, array sizes, indexes, arguments, returns, cases, negated and cast); a floating-point literal has the nearest value of its type.",
  quant="decimal literals of up to 21 digits with up to 5 arbitrary digits, hexadecimal up to 17 and binary up to 65 digits with arbitrary digits among them, every use position, float literals with 3 arbitrary digits",
  why="overflow boundaries and digit handling are per-digit; tests use small literals",
  files=["internals/lexer/lexer.go","internals/parser/parser.go","internals/semantic/semantic.go","internals/compiler/compiler.go"],
  mech=[("parseInteger","internals/parser/parser.go"),("handleIntegerExpression","internals/compiler/compiler.go")],
  note=TRUST)
P(id="C09",title="A function that returns a value returns one on every path, with its declared type",
  statement="A function with a result is accepted exactly when every path through its body ends in a return (or @unreachable): an if/else chain or switch with a default all of whose branches do, a block that does; loops never count. Functions that may end without a return are rejected, and a function that is accepted returns the value of the return it reaches, at any nesting. The returned value has exactly the declared type, and functions without a result return none.",
  quant="bodies built from every compound statement around returns, breaks, continues and plain statements, nested to depth 2, for functions, anonymous functions and block expressions, over 3 result kinds; all condition values",
  why="whether a path falls off the end depends on the whole shape of the body; tests hold a few shapes",
  files=["internals/semantic/semantic.go","internals/compiler/compiler.go"],
  mech=[("analyzeReturnStatement, returns tracking in blocks","internals/semantic/semantic.go"),("compileFunctionDeclaration","internals/compiler/compiler.go")],
  note=TRUST)
P(id="C20",title="@print writes each value as its type reads, once, in order",
  statement="@print writes the values of its arguments separated by spaces: integers of every width in decimal, signed or unsigned by their type, floats with three decimals, strings as their characters, pointers as addresses, structs as their name; whatever the value and whatever kind of place or expression it comes from. Each argument is evaluated exactly once, left to right; prints happen exactly when and as often as their statement runs.",
  quant="every scalar type x 12 operand forms, pairs of types with a string between them, results of operators, calls, casts and comparisons, aggregates, prints in loops and branches; all printed values (what C printf does with the emitted format and arguments is compared with the decimal form of the value)",
  why="a wrong format or width shows only for negative, large or unsigned values; the tests print a few small ones",
  files=["internals/compiler/compiler_rest.go","internals/compiler/compiler.go","internals/semantic/semantic_builtin.go"],
  mech=[("handlePrint","internals/compiler/compiler.go")],
  note=TRUST+"printf's own behaviour is modelled from the C standard (conversion length and signedness); the digits of floats are printf's.")
P(id="C25",title="Strings hold exactly their characters; comparing and joining them works on the characters",
  statement="A string literal denotes its characters followed by a terminator, wherever it is used (locals, globals, constants, arguments, results, fields); == != < > <= >= on strings compare their characters; + makes a new string with the characters of both, leaving the operands unchanged and independent of the result; character literals are the i8 of their byte.",
  quant="literals of arbitrary bytes including escapes, strings of arbitrary bytes up to 3 characters compared and joined (and chained joins), all uses; all byte values",
  why="tests print one or two strings; equality, order, lengths and aliasing depend on the bytes",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/lexer/lexer.go"],
  mech=[("handleStringLiteral, string concatenation and comparison","internals/compiler/compiler.go")],
  note=TRUST+"The C library's strlen, strcpy, strcat, strcmp are modelled byte by byte.")
P(id="C06",title="The compiler answers every source text with a module or an error message",
  statement="For every source text, well-formed or not, the lexer, the parser, the analysis and the code generation end in bounded time and either yield a module or report at least one error that is shown with its source line; none of them panics, indexes out of range, dereferences nil, recurses or loops forever, whatever token or byte is missing, doubled, swapped or unknown, and a text that is reported as an error yields no module.",
  quant="9 programs that use every construct, with each token removed, doubled, swapped with the next, replaced by and preceded by each of 58 kinds of tokens, cut before every token, and with an arbitrary byte in each position; every sequence of two words (three thorough) at the root, in a body, as an operand and as a type; every pair of 52 statements in 11 kinds of places; the programs of the typing checks, ill-typed ones included",
  why="a crash needs a particular malformed text at a particular place; tests hold well-formed programs and a dozen errors",
  files=["internals/parser","internals/lexer/lexer.go","internals/semantic","internals/compiler","internals/ast/mod.go"],observe=["panics and diagnostics of the compiler"],
  mech=[("parseStatement, parseExpression, expect","internals/parser/parser.go"),("analyzeStatement, analyzeExpression","internals/semantic/semantic.go"),("Compile","internals/compiler/compiler.go")],
  note=TRUST+"One fault at a time in the given programs; text without NUL bytes; single-file programs.")
P(id="C07",title="Exactly the programs whose types fit are accepted",
  statement="A value is stored, assigned, passed, returned or put into a literal only where its own type is expected, and always there; every operator, cast, index, field, call, method, condition, loop and builtin accepts exactly the operand types the language gives it; calls take exactly as many arguments as there are parameters; a call without a result is no value. Two types are the same exactly if they are written the same (names, lengths, pointees, parameters and results). What is accepted compiles to well-formed code, what is not is reported by the analysis.",
  quant="all pairs of 39 types in 16 kinds of places, in every binary operator and cast, each type in every prefix operator and 22 kinds of uses; every 2 and 3 character name as a type on either side of 9 kinds of places; every pair of array lengths up to 99; every pair of types nested two deep that differ in one part; argument, name, value and element counts up to 4; several values in 29 kinds of places",
  why="each pair of types and each kind of place is its own case; tests check a few matching and mismatching pairs",
  files=["internals/semantic","internals/ctypes/types.go","internals/compiler/compiler.go","internals/parser/parser_type.go"],observe=["acceptance and diagnostics of the compiler","the LLVM module the compiler emits"],
  mech=[("areTypesEqual, typeMismatchError, analyzeExpression","internals/semantic/semantic.go"),("analyze of builtins","internals/semantic/semantic_builtin.go"),("IsNumeric, CanBeCasted","internals/ctypes/types.go")],
  note=TRUST+"Types of depth up to 2; unions belong to C19.")
P(id="C08",title="A name means the innermost latest declaration that is visible where it is used",
  statement="An identifier means the variable, parameter or function of exactly that name that was declared last in the innermost enclosing scope; scopes end with their block, branch, loop, case or function, and inner declarations hide outer ones without changing them; functions and types of a file are known everywhere in it; a field, a member or a type is the one of its name. A name that means nothing where it is used, and a second function, type, field or parameter with the name of another, are rejected. What is named how never changes what the program does: every identifier works as every kind of name.",
  quant="all one-letter names (so every pattern of equal and different names) of globals, parameters, locals, inner locals and later locals over 14 kinds of scopes, 7 places to read or write; of functions, fields, types and aliases over their uses and orders; all names of up to 2 characters (4 thorough), each keyword with any character after it, and main, as 12 kinds of names; histories of 4 operations on the scope map",
  why="which declaration wins depends on the equalities between names and on where scopes end; tests shadow one variable in one block",
  files=["internals/semantic/semantic.go","internals/semantic/semantic_steps.go","internals/undomap/undomap.go","internals/compiler/compiler.go"],
  mech=[("analyzeIdentifier, enterFrame, leaveFrame, predefineFunctions","internals/semantic/semantic.go"),("Add, Get, Pop","internals/undomap/undomap.go"),("retrieveVariable, declare","internals/compiler/compiler.go")],
  note=TRUST+"Single-file programs (imports are C22).")
P(id="C22",title="An imported file's declarations are its own, and generic files hold for each list of types",
  statement="module.name means what the file imported under that name declares, wherever a value or type may stand: functions, variables, constants, structs, unions and aliases, used as they are used in their own file. What two files declare under the same name are different things with their own storage; the same file imported twice, by any path, is one thing. Paths are relative to the file with the import. A file with type parameters is a separate file for every different list of types, and the parameters are those types in it. Variables hide modules; modules are no values; cycles of imports, missing files, members and types, wrong numbers of types, and mistakes inside imported files are reported.",
  quant="all one-letter names of members, modules, locals, fields and globals (every pattern of equal names), two files and the main one with the same declarations in 10 uses, all pairs of 39 types as parameters of generic files in 6 uses and generic files that import generic files, 4 kinds of same-named types wrapped in 4 kinds of types as parameters, 8 directory layouts with all names, paths of up to 5 characters, 15 kinds of parts of a module, 70 mistakes, 4 cycles",
  why="tests import three fixed files; collisions need equal names in different files, and identity needs the same file reached by two ways",
  files=["internals/semantic/semantic_steps.go","internals/semantic/semantic.go","internals/compiler/compiler.go","internals/compiler/compiler_rest.go","internals/ast/mod.go"],observe=["results of the program","acceptance and diagnostics of the compiler"],
  mech=[("handleModuleImport, analyzeBinaryOperation on modules","internals/semantic/semantic.go"),("compile of imports, module ids","internals/compiler/compiler.go")],
  note=TRUST+"Up to four files; file contents and directory layouts are from the list, names in them arbitrary.")
P(id="C26",title="Functions shared with C have exactly their name, type and values on both sides",
  statement="A call of an extern function, by its name, as a value, as a method or from another file, calls the function of C of exactly that name with exactly the declared type, the values of the arguments in order (small integers extended as C does, promoted when variadic) and has the value that C returns; C can call functions that are passed to it and use the memory it is pointed to. A pub function is defined under exactly its name and type and does for C what it does inside; no other function can be seen by C under a plain name, except main, which is the function of the program's own file and returns 0 if it has no result. The builtins work whatever functions of C, with whatever types, the program declares; the same function of C can be declared in several files and with several types; two public functions of one name, and things that can't be shared, are reported.",
  quant="all pairs of 11 scalar types as parameter and result in 9 kinds of calls, up to 5 parameters, 6 bodies x 4 files of public functions, 29 declarations of the builtins' functions of C, and all pairs of them in two files, with 5 builtin programs, all names (equal or different) of plain, public and extern functions of two files, 13 things called main in each of two imported files; all argument and result values",
  why="the tests call one C function; a wrong symbol, type or extension shows only when C and the builtins meet, in several files, or with negative small integers",
  files=["internals/compiler/compiler.go","internals/compiler/compiler_utils.go","internals/semantic/semantic_steps.go","internals/semantic/semantic.go","internals/parser/parser.go","internals/ast/mod.go"],observe=["the LLVM module the compiler emits","calls of C functions while the module runs"],
  mech=[("compileExternFunc, external, compileFunctionType","internals/compiler/compiler.go"),("parsePublicFunction, parseExtern","internals/parser/parser.go")],
  note=TRUST+"What C functions do is arbitrary (their results are symbolic); structs by value are passed as LLVM passes them, not as C does.")

P(id="C23",title="#if keeps its block exactly where its condition holds, as if the block's text stood there, and otherwise drops it",
  statement="The condition of an #if is the name of a platform or architecture, that holds exactly on the machine the compiler runs on, or a number, that holds unless it's zero; anything else is an error. A block that is kept is as good as its statements in place of it, on the root of every file as in functions, nested in whatever way: its declarations are declarations of the file or of the scope around it, its returns, breaks and stores are the ones of the function. A block that is dropped is nothing: it declares, imports and does nothing, whatever it says, and its names are free.",
  quant="all names of three characters and all names one character away from the ones that are known; all numbers of up to 4 digits; 39 other conditions; 48 statements x 14 places x 3 continuations x nested conditions; 8 kinds of declarations x orders; each declaration and statement of 8 programs; 24 blocks that make no sense; results of the programs",
  why="tests have functions in unnested blocks of one file, on one machine",
  files=["internals/parser/parser.go","internals/eval","internals/semantic/semantic_steps.go","internals/semantic/semantic.go","internals/compiler/compiler_steps.go","internals/compiler/compiler.go"],observe=["results of the program","acceptance and diagnostics of the compiler"],
  mech=[("parseMacroIf","internals/parser/parser.go"),("EvaluateConstantExpression, IsTruthy","internals/eval"),("the steps over MacroBlock","internals/semantic/semantic_steps.go"),("compileStructTypes, compileFunctionTypes","internals/compiler/compiler_steps.go")],
  note=TRUST+"On Linux on amd64, the machine of the check; dropped blocks have to be well-formed text.")

P(id="C27",title="A method call x.f(a) is the call f(x, a) of the function that f names",
  statement="x.f(a) does exactly what f(x, a) does, for every kind of receiver, evaluated once and first, and for every function that f can name: declared before or after, public, of C, or held by a variable or parameter, also captured or assigned anew. A field of the name comes first; otherwise f is the innermost function of the name in this file, or for structs and unions the one of the type's own file, or for other types the one of the first import that fits. A method call is accepted exactly if that call is: as many arguments, the receiver of the first parameter's type. A method is no value: it's only called.",
  quant="43 kinds of receivers x 10 kinds of functions x arguments x uses, with a symbolic argument and symbolic results of C, traces of side effects; all pairs of 39 types of receivers and first parameters; all counts of parameters and arguments up to 3; all one-letter names of fields, functions, locals and uses; 20 uses of 8 uncalled methods; all sets of three files with functions of the name, in every order of imports and of Go's maps",
  why="tests call two methods of a struct; which function is meant, what is evaluated when, and what is rejected depend on names, types, files and nesting",
  files=["internals/semantic/semantic.go","internals/compiler/compiler.go","internals/parser/parser.go"],observe=["results of the program","calls of C functions while the module runs","acceptance and diagnostics of the compiler"],
  mech=[("analyzeFieldAccess, useAsMethod, findModuleWithFunction","internals/semantic/semantic.go"),("analyzeFunctionCall","internals/semantic/semantic.go")],
  note=TRUST)

P(id="C24",title="The same files always compile to the same, whatever the order of Go's maps, the names it makes up and the directory",
  statement="Compiling the same files again gives the same: the same verdict, at the same stage, the same messages about what's wrong in the same order, and the same module for LLVM, text by text, up to the parts of the names that are made up at random. Nothing depends on the order in which Go happens to go over a map, on the letters of the made up names, on what was compiled before, or on the directory the files are in.",
  quant="8 programs, complete or with any token missing; 24 x 24 kinds of declarations and statements in every place; 39 types in every kind of statement; 200 mistakes about types, names, members and modules; 150 layouts of several files, generic modules, cycles and methods; each compiled twice, with other names (equal ones if they're short) and all orders of maps of up to 3 elements, all rotations and the reverse of larger ones; results of the programs",
  why="a test sees one order of a map and one set of names; what depends on them shows rarely, and on another machine",
  files=["internals/semantic/semantic.go","internals/semantic/semantic_steps.go","internals/compiler/compiler.go","internals/parser/parser.go","internals/ctypes/types.go","pkg/random/string.go"],observe=["acceptance and diagnostics of the compiler","the LLVM module the compiler emits"],
  mech=[("Semantic.definedTypes, modules, variables","internals/semantic/semantic.go"),("Compiler.types, modules, globalVariables","internals/compiler/compiler.go"),("RandomString","pkg/random/string.go")],
  note=TRUST+"Random strings of 5 letters and more are taken to be different from each other; the random source itself is replaced by a counter.")

P(id="C28",title="@alloc gives blocks of that many elements of their own, @realloc keeps them, @free frees exactly the block it's given",
  statement="A block of @alloc(T, n) is a *T, and only that; each of its n elements holds what was stored in it last, through whatever name, and nothing stored elsewhere changes it. @realloc(p, n) is a block of p's type that holds the elements p had, as many as fit. The arguments are evaluated once, in order, wherever the builtin stands; there is one allocation for each builtin that is reached, and exactly the block that is pointed to is freed, when and only when its @free is reached. Lists, trees, vectors, matrices, buffers of strings, functions, unions and pointers in blocks hold what was put in them, in one file and in another.",
  quant="7 types of elements x lengths of every integer type x 7 ways to write x 6 to grow, all indices and values; 11 structures of up to 4 insertions with symbolic values, in 2 files; 4 expressions of builtins x 22 places; 16 pointers x 9 places of @free x all values of the condition; all pairs of 39 types x 3 expressions",
  why="tests allocate one array; whether a block is kept, freed twice or lost shows only when structures grow and are freed on other paths",
  files=["internals/compiler/compiler.go","internals/semantic/semantic_builtin.go","internals/parser/parser_builtin.go"],observe=["results of the program","calls of malloc, realloc and free while the module runs"],
  mech=[("builtins alloc, realloc, free","internals/compiler/compiler.go"),("analyzeAlloc, analyzeRealloc, analyzeFree","internals/semantic/semantic_builtin.go")],
  note=TRUST+"malloc is taken to give fresh blocks that don't overlap; reading a freed block, freeing twice or outside of a block is an error of the machine the module runs on. ")


P(id="C29",title="candice tree draws every part of a program, with its names, values and types, in its order and nesting",
  statement="The tree of a well-formed program has one node for each declaration, statement, expression and type of it, of the kind it is, below the node of the part it's written in, in the order of the text; names, operators, values and types are the ones of the text, letter by letter. The lines that connect a node with its parts go from the node to the first line of each part and nowhere else, however many lines the parts have. Whatever the text is, the tree of what was understood is drawn, and an error is given exactly if the text isn't well-formed.",
  quant="26 x 26 kinds of expressions in each other's places; 25 x 25 kinds of statements, and 25 x 26 of expressions in statements, alone and followed; 9 kinds of declarations x 8 types x 3 counts x neighbours; all names of up to 3 letters in 37 places; all numbers of up to 5 digits, characters, and letters of strings; 8 programs cut, shortened or changed at each token",
  why="tests draw a few programs; whether a part is dropped, drawn twice or connected with the wrong line depends on what stands next to it",
  files=["internals/tree_printer/printer.go","internals/parser/parser.go","internals/ctypes/types.go"],observe=["the tree that is written and the error"],
  mech=[("WriteOutput, Process, processExpression, ConnectString","internals/tree_printer/printer.go"),("parser","internals/parser/parser.go")],
  note=TRUST+"That a variable is constant, a function public or an external variadic isn't drawn; the oracle is a drawing of the tree the program was made from.")

P(id="C30",title="candice build and run compile what candice.json, the program and the command say, and nothing if something's wrong",
  statement="candice build and run compile the module of the entry point exactly once, with the compiler of candice.json, to its output, with the flags of candice.json followed by the ones the program adds with @add_compiler_flag (each one that isn't dropped by an #if, once, in the order of the text, also the ones of imported files), optimized exactly if --release is given, and as an object named .o exactly if an object is asked for. run then runs that output, exactly if it was compiled by it just now and is a program; build and init run nothing. If the configuration, the entry point or an import is missing or isn't well-formed, or the program is rejected, no compiler is run, nothing runs and what was there stays. What candice init makes builds. A build depends on what is there then, and not on earlier ones.",
  quant="both kinds x 3 binaries x build and run x 3 ways of giving --release x up to 3 flags of the configuration and 2 of the program with symbolic letters x outcomes of the compiler x files that were there; lists of 2 and 2 of 8 kinds of flags; 22 ways of adding flags in several files; 12 kinds of mistakes, candice.json cut after any letter; 3 directories of new projects; pairs of builds",
  why="tests never run the command: they compile without a project",
  files=["internals/build/builder.go","internals/build/config.go","internals/build/flags.go","internals/build/setup.go","internals/compiler/compiler.go","internals/semantic/semantic_builtin.go"],observe=["the commands that are run, with their arguments, and the module they are given","the files that are left"],
  mech=[("ExecuteProject, createSampleProject","internals/build/builder.go"),("ParseConfiguration","internals/build/config.go"),("retrieveFlags","internals/build/flags.go"),("GenerateExecutableCXX, GenerateExecutableExperimental","internals/compiler/compiler.go")],
  note=TRUST+"The compiler and what it makes are stand-ins that record what they are given and fail when told to; files, commands and the decoding of JSON are modelled, and compared with the real ones in the native runs. Projects in the current directory; objects of kind llvm aren't made on this machine.")