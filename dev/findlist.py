# repaired defects found later (first words of the commit message:property), and known findings
T2="""
a variable takes its own:C17
the anonymous functions in between:C17
constant strings point:C25
variables, globals and constants of a union:C19
only values of the members:C19
values that cannot be printed do not displace:C20
the strings of @print do not take:C20
the escapes of character literals:C02
the bytes of string and character literals:C02
string literals without an end:C02
errors at the end of the source:C03
every token has the line and the column:C03
types that are called main:C06
a return outside of a function:C06
function types can mention types:C07
arrays can only be cast:C07
a pointer cast to a float:C13
- of an i1 doesn't crash:C07
only numbers and pointers can be compared:C07
& | and ^ are rejected:C07
the length of @alloc has:C07
a call without a value can't be printed:C07
a call without a value is no condition:C07
a call without a value can't be referenced:C07
a mismatched operand:C06
a call without a value can't be an element:C07
a missing type is:C06
! has the type i1:C07
every place of an assignment:C06
a declaration of several names:C06
every type that is mentioned:C06
main can be public:C06
types that contain themselves:C06
@unreachable has no value:C07
a parameter can have the name of its function:C08
functions, types, fields and parameters can be declared:C08
declarations that are only known on the root:C06
a global that is declared again:C08
global variables that hold functions:C17
functions can't be assigned:C17
a global can't have the name of a function:C08
calls with too few arguments for a variadic:C07
arguments of variadic functions are promoted:C17
variables of a variadic function type:C07
several values aren't printed or referenced:C07
type parameters of the same name from different:C22
import cycles are an error:C22
the types in function types are the ones:C22
modules aren't values, and variables of functions:C22
constants of modules can't be mutated:C22
imports with more types than the file:C22
constants of modules in constant expressions:C22
main is the function of the file of the program:C26
extern functions are known everywhere:C26
functions of C are declared once:C26
public functions of the same name in several:C26
small integers are extended as C does:C26
only functions with a name are public or extern:C26
generic types of dropped #if:C23
constants can be used where something else is assigned:C11
methods of variables that hold functions:C27
a method that isn't called:C27
a function of several modules used as a method:C24
the types of an error are always:C24
the tree of multiple declarations:C29
the tree has the names of types and modules:C29
the tree of block expressions:C29
what is parsed after an error has a token:C29
the lines of the parts of a for in the tree:C29
strings with line breaks in the tree:C29
an external that is not a function has a token:C29
"""
FIND=[]
