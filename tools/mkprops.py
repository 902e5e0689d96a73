#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one compact entry per property)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

RT="Projects/Core/Core/Runtime/"
BT=RT+"BuildInTypes/"
OO=RT+"OperatorOverloading.cpp"
AV=RT+"AtomicValue.cpp"
TI="Projects/Core/Core/AST/TreeInterpreter.cpp"
TG="Projects/Core/Core/AST/TreeGenerator.cpp"
TK="Projects/Core/Core/Designtime/Parser/Tokenizer.cpp"

prop("C01","Integer arithmetic is two's complement at the declared width",
 "For int16, int and int64 operands, `+ - * / %`, unary minus, `++` and `--`, and `&` and `|` on two operands of one of these types, yield the two's complement result at the width of the left operand, with the right operand first converted to that width. Dividing or taking the remainder by zero never kills the interpreter: it raises a runtime error. The type of the result is the type of the left operand.",
 ["inputs"],"all operand values of every atomic right-hand type",
 "Tests sample a handful of small operands; overflow, the most negative number and zero divisors are never sampled for every type and operator.",
 [BT+"Int16Type.cpp",BT+"Int32Type.cpp",BT+"Int64Type.cpp",OO,TI],[("operator dispatch",OO),("per-type operators",BT)])
prop("C02","Floating point arithmetic is IEEE at the declared precision",
 "For float and double operands `+ - * /`, unary minus, `++` and `--` yield the correctly rounded IEEE-754 result at the precision of the left operand, with the right operand first converted to that precision.",
 ["inputs"],"all operand values including infinities, NaN, denormals",
 "Tests compare a few decimal literals; they cannot enumerate rounding, infinities, NaN and mixed-type operands.",
 [BT+"FloatType.cpp",BT+"DoubleType.cpp",OO],[("operator dispatch",OO),("per-type operators",BT)])
prop("C03","Comparison operators order the operands' values coherently",
 "For every pair of atomic operands that can be compared, `<`, `<=`, `>`, `>=`, `==` agree with the order of the left value and the right value converted to the left type. Exactly one of `<`, `==`, `>` holds (NaN aside), `<=` is `<` or `==`, and `>=` is `>` or `==`. Comparing never changes either operand.",
 ["inputs"],"all operand values of all atomic types",
 "The laws relate the five operators over all pairs of values; tests sample literal pairs.",
 [BT+"Int32Type.cpp",BT+"StringType.cpp",OO],[("comparison dispatch",OO),("per-type comparisons",BT)])
prop("C04","Logical operators short-circuit and agree with truth tables",
 "`a && b` evaluates b only if a is true and `a || b` evaluates b only if a is false; the result is the truth-table value as a bool, and `a !& b` is the negation of `a && b`. `!a` is the logical negation, and a numeric operand counts as true exactly when it is not zero, an object reference when it is not null.",
 ["inputs","programs"],"all operand expressions and values",
 "Whether the second operand is evaluated, and what happens for every operand value, cannot be settled by sampled programs.",
 [TI,RT+"Utils.cpp",AV],[("evaluateBooleanBinaryExpression",TI),("isTrue",RT+"Utils.cpp")])
prop("C05","Strings concatenate, compare and convert exactly",
 "`s + x` and `s << x` are s followed by the textual form of x for every atomic x; string `==`, `<`, `<=`, `>`, `>=` follow byte-wise lexicographic order of the complete contents.",
 ["inputs"],"all byte strings and all atomic right operands",
 "Tests use a few short literals; equality and order must hold for all contents including empty strings and common prefixes.",
 [BT+"StringType.cpp",OO],[("string operators",BT+"StringType.cpp")])
prop("C06","Conversion between atomic types follows the value, in every direction",
 "Converting an atomic value to bool, int16, int, int64, float or double gives the same value where it is representable: to an integer truncates toward zero or wraps to the target width, to bool yields whether it is non-zero, to a floating type rounds to nearest. The same rule applies to explicit casts and to assignments.",
 ["inputs"],"all stored values, all pairs of source and target type",
 "There are dozens of source/target pairs with boundary values; tests check a few pairs with small numbers.",
 [AV,RT+"TypeCast.cpp"],[("stored value conversion",AV),("cast",RT+"TypeCast.cpp"),("assignment",BT+"Int32Type.cpp")])
prop("C07","Heap objects live exactly as long as references to them exist",
 "An object stays on the heap while at least one reference to it is held and is destroyed exactly once when the last one is dropped; the null reference is never counted or freed. A new object never receives the address of an object that is still alive.",
 ["histories"],"all sequences of creating, copying, overwriting and dropping references",
 "Leaks, early and double frees depend on the history of copies and drops; tests run a few short histories.",
 ["Projects/Core/Core/VirtualMachine/Memory.cpp",RT+"Reference.cpp"],[("reference counting","Projects/Core/Core/VirtualMachine/Memory.cpp")])
prop("C08","Identifiers resolve to the innermost definition, without duplicates",
 "Looking an identifier up yields the definition in the innermost enclosing scope that has one (for an object: its own members, then inherited ones, then the surroundings), and nothing if there is none; a dotted name looks each part up in what the part before it stands for. Defining an identifier twice in one scope is refused and leaves the first definition in place; removing it makes the outer definition visible again and touches no other name.",
 ["histories","inputs"],"all names and all nestings of scopes",
 "Tests define a few names in one or two levels; the law covers all names and nestings.",
 ["Projects/Core/Core/Scope.cpp","Projects/Core/Core/Object.cpp",TI],[("define/undefine/resolve","Projects/Core/Core/Scope.cpp"),("dotted names",TI)])
prop("C09","Method calls bind arguments, defaults and overloads as declared",
 "A call matches a signature exactly when it passes no more arguments than declared, each argument's type equals the parameter's type (an untyped parameter accepts every type), and every omitted parameter has a default. Inside the call each parameter has the passed argument's value, or its default if omitted; parameters never influence each other. A call runs a method of that name that matches, an object's own before an inherited one unless the inherited one is final, and its value is the one that method returned.",
 ["inputs","programs"],"all parameter lists and argument lists of any length",
 "Argument and parameter lists of every length and mix of defaults cannot be enumerated by tests.",
 ["Projects/Core/Core/Common/Method.cpp","Projects/Core/Core/Scope.cpp","Projects/Core/Core/Object.cpp",TI],[("signature check and parameter merge","Projects/Core/Core/Common/Method.cpp"),("choice of the method","Projects/Core/Core/Scope.cpp"),("call",TI)])
prop("C10","Statements run in order until control leaves the block",
 "The statements of a block run in source order; after one that breaks, continues, returns, throws or exits, no later statement of that block runs. `if` runs exactly the branch selected by its condition and a ternary evaluates exactly the selected operand.",
 ["programs"],"all statement lists and all condition values",
 "Holds for all programs; tests check selected programs.",
 [TI],[("statement processing",TI)])
prop("C11","Loops and switch honour condition, break, continue, return and throw",
 "A loop evaluates its condition before every iteration and runs the body only while it holds; `break` ends only the innermost loop or switch, `continue` goes to the next iteration (for `for`: after running the increment), `return`, `throw` and exit leave the loop and reach the caller. `switch` runs the first matching case, or the default if none matches; `continue` inside it starts the switch again.",
 ["programs"],"all loop bodies, conditions and control transfers",
 "Every way to leave a loop times every loop kind and nesting exceeds what tests sample.",
 [TI],[("loops",TI)])
prop("C12","try/catch/finally transfers control as written",
 "A statement that throws inside `try` runs the first catch whose parameter type matches and none of the others; without a matching catch the exception continues to the caller (a try without any catch block discards it). `finally` runs exactly once on every way out, and the original control transfer resumes after it unless `finally` itself transfers control.",
 ["programs"],"all try statements and all ways their blocks can exit",
 "Combinations of thrown types, catch lists and exits from catch and finally blocks are unbounded.",
 [TI],[("visitTry",TI)])
prop("C13","Scopes and call frames are balanced on every exit",
 "Whenever evaluating an expression or executing a statement ends, normally, by break/continue/return or by an exception, the interpreter's stack of scopes has the same depth as before; the stack of call frames has the same depth before and after every method call.",
 ["programs","fault_sequences"],"all statements and expressions and all ways their parts may end",
 "The exceptional exits of every construct are rarely taken in tests and an unbalanced stack shows up only later.",
 [TI,"Projects/Core/Core/VirtualMachine/StackFrame.cpp","Projects/Core/Core/VirtualMachine/Threads.cpp"],[("scope push/pop",TI)])
prop("C14","Operands are evaluated once, left to right, and the written operator applied",
 "A binary or unary expression evaluates its operands exactly once, left before right, and then applies exactly the written operator to a copy of the left operand's value; neither operand variable is changed by a binary operator. An assignment or initialised declaration evaluates its right side once and stores that value in the left side; used as a value it yields what the left side then holds.",
 ["programs"],"all expressions over all operators",
 "Order and count of operand evaluation and non-modification of operands must hold for every operator; tests mostly check results with side-effect-free operands.",
 [TI,OO],[("evaluateBinaryExpression",TI)])
prop("C15","An operation is accepted and typed by the declarations for its operand types",
 "A binary operator other than the logical ones, a sign, an assignment, a first value and a cast are accepted exactly if declared for the types of both operands and have the declared type; the first declaration for the same operands counts and changes no other. Arithmetic on numbers has the left type, but the right one for a whole number with float or double and for int16 with int or int64; `%`, `&`, `|` need whole numbers (`&`, `|` of one type), `+` and `<<` on a string take any plain value, comparisons need two strings, two int16, two numbers the left not int16, or for `==` two bools; bool and string can be assigned any plain value, numbers bool and numbers, int16 only whole numbers; all plain types can be cast into each other. An enumeration has assignment, comparison also with int, and `+ - * /` with itself and can be assigned or cast to int and string; an object type has its operator methods with one parameter, `==` with itself and Object, and assignment to itself and its direct ancestors.",
 ["inputs","programs","histories"],"all type names, operators, declarations and expressions",
 "All pairs of types times all operators exceed the sampled programs, and declarations of user types are unbounded.",
 ["Projects/Core/Core/VirtualMachine/TypeSystem.cpp","Projects/Core/Core/VirtualMachine/Repository.cpp",TG],
 [("table of declared operators","Projects/Core/Core/VirtualMachine/TypeSystem.cpp"),("declarations of user types","Projects/Core/Core/VirtualMachine/Repository.cpp"),("look-up for an operation",TG)])
prop("C16","Source text is split into exactly its words, literals and marks",
 "Outside strings, `//` and `#` comments up to the end of the line and `/* */` comments are skipped, every blank or mark ends a word, and each token carries the file and line it ends on; a string reaches to the next quote that is not escaped. A word is a number, string, boolean, keyword, modifier, other reserved word or identifier by its complete spelling: digits with at most one suffix i, f or d are a number, and no prefix decides. Neighbouring marks become one token exactly where the language has such an operator (`+=`, `==`, `===`, `&&`, `..`, `<<`, `[]` and so on).",
 ["inputs"],"all source texts; numbers with a decimal point and names of the form `operator+` are left out",
 "All source texts cannot be enumerated; what precedes a comment, string or mark decides how it is read, and tests check a few literals and programs.",
 [TK],[("splitting into words and marks",TK),("kind of a word",TK),("joining of marks",TK)])
prop("C17","Versions are totally ordered and read back as printed",
 "For any two versions exactly one of less, equal and greater holds and the order is transitive: major, minor and fix number decide first, a version with a label precedes the same version without, then label and build metadata decide as texts. Comparing with a text means comparing with the version the text stands for. Reading a printed version (numbers not negative, no `+` in the label) yields an equal version, and only a text that names no number, label or metadata is invalid.",
 ["inputs"],"all versions and all version texts",
 "Order laws quantify over all pairs and triples of versions.",
 ["Projects/Utils/SemVer/Version.cpp"],[("comparison, reading and printing","Projects/Utils/SemVer/Version.cpp")])
prop("C18","Text helpers keep and remove exactly the characters they promise",
 "Trimming removes exactly the given characters at the chosen ends, splitting yields what lies before and after the first separator, unquoting what lies between matching quotes, and the case and comparison helpers treat every character alike. A text counts as true unless, apart from blanks at its ends, it is empty, a line break or the word false. File extension, file name and folder are cut at the last separator, and the words of a text are its maximal runs of characters that are no delimiters.",
 ["inputs"],"all texts, separators and sets of characters",
 "All texts including empty, all-blank and separator-only ones.",
 ["Projects/Utils/Tools/Strings.cpp","Projects/Utils/Tools/Files.cpp","Projects/Utils/Parsers/Tokenizer.cpp"],[("string tools","Projects/Utils/Tools/Strings.cpp"),("file names","Projects/Utils/Tools/Files.cpp"),("words of a line","Projects/Utils/Parsers/Tokenizer.cpp")])
prop("C19","Debugger conditions and breakpoints select exactly the stated stops",
 "A breakpoint condition is true exactly when the stated comparison holds between the two operand values (without an operator, or with an operand missing, it always is); two breakpoints are the same exactly when file and line agree, and setting, replacing or removing one changes no other. Execution stops at a statement exactly when single-stepping over statements, or when waiting for breakpoints and one is set at that file and line. Entering and leaving a call and throwing and catching an exception stop exactly when that kind of stop was asked for.",
 ["inputs","histories"],"all operand values, positions, sets of breakpoints and debugger commands",
 "Every comparison operator over all operand values, every set of breakpoints in any order of setting and removing.",
 ["Projects/Core/Debugger/Condition.cpp","Projects/Core/Debugger/BreakPoint.cpp","Projects/Core/Debugger/Debugger.cpp"],[("condition evaluation","Projects/Core/Debugger/Condition.cpp"),("stop decision","Projects/Core/Debugger/Debugger.cpp")])
prop("C20","Const data cannot be modified",
 "A name of a const variable or parameter, a member used in a const method (with or without `this.`), and any dotted name with such a part, cannot be assigned to, changed by an operator-assignment, `++` or `--`, used for a call of a modifying method or passed for a modifiable `ref` parameter: the program is rejected before it runs, whatever surrounds it. `var` gives a const object no modifiable name, and a const method calls no modifying method of its own object. If no part of the name is const, or it is a member set by a constructor or destructor, the same operation is accepted.",
 ["programs"],"all names of any length, declarations, parameter lists and argument lists",
 "Each form that can modify data has to be rejected for every shape of name and place of `const`; tests check a few.",
 [TG,"Projects/Core/Core/AST/Expression.h"],[("mutability checks of assignments, operators, calls",TG),("const-ness of names","Projects/Core/Core/AST/Expression.h")])
prop("C21","Calls nest: each has its own frame, and returning restores the caller's",
 "Calling a method adds exactly one frame on top of the callers' frames, numbered by its depth; returning, however the call ends, removes exactly that frame and makes the caller's frame current again with its scopes, locals and return value as they were. Within a frame scopes nest the same way: leaving one makes the one around it current again, and a scope opened by the statement itself is destroyed exactly once.",
 ["histories"],"all sequences of calls and returns",
 "Histories of calls/returns are unbounded.",
 ["Projects/Core/Core/VirtualMachine/Threads.cpp","Projects/Core/Core/VirtualMachine/StackFrame.cpp"],[("frame stack","Projects/Core/Core/VirtualMachine/Threads.cpp")])
prop("C22","Collection classes of the standard library keep their contents",
 "The list, map, set, queue and stack classes of the shipped library return exactly the elements put in, in their documented order, and report their size correctly.",
 ["histories"],"all operation sequences",
 "Histories are unbounded.",
 ["Projects/Library/System/Collections"],[("library scripts","Projects/Library/System/Collections")])
prop("C23","Expressions are grouped by operator level and from left to right",
 "`* / %` bind tighter than `+ - & | << >>`, these tighter than comparisons, and these tighter than `&& || !& !|`; operators of one level group from left to right, whatever the operands are, and parentheses override. A sign or `!` in front applies to the one term it precedes, and the marks behind a term (`is`, `..`, `? :`, `.`, `++`, `--`, `!`) apply to that term before any two-sided operator does. A literal in the source stands for the value written, with the type its spelling says; a whole number beyond 32 bits is a 64 bit one.",
 ["programs"],"all expressions of any length over operands whose types define no operator methods of their own",
 "Grouping is decided by the interplay of all operators in expressions of any length; tests contain a few combinations, mostly of two operators.",
 [TG],[("operator levels",TG),("terms and literals",TG),("marks before and behind a term",TG)])
prop("C24","Statements consist of exactly the parts written, in their places",
 "Each `if`, `while`, `for`, `switch`, `try`, `return`, `throw`, `print`, `assert`, `exit`, `delete` statement has exactly the condition, value and branches written for it, each in its place, with its own source position, and reading continues right behind it; blocks, cases and catch branches keep the order written, and none is lost. A missing parenthesis, colon or brace the form asks for, `break` or `continue` where no loop or switch encloses it, a second `default` or `finally` and a value returned from a method without one are refused. Names declared in the head of a `for` or `catch` end with that statement.",
 ["programs"],"all token sequences",
 "Every nesting and omission of optional parts counts; tests check typical programs and few malformed ones.",
 [TG],[("statement forms",TG),("blocks, switch and try",TG),("choice of the form by the first token",TG)])
prop("C25","Built-in numeric functions compute the function they are named after",
 "Each numeric function of the built-in library (roots, powers, exponentials and logarithms, trigonometric and hyperbolic functions, rounding, remainders, minimum and maximum, sign and size) accepts numbers of its type, and its result is that of the C function of the same name applied to exactly these arguments in the order given, in the precision its name says, as a value of that type. Rounding down, up, towards zero, to the nearest (halves away from zero for `round`, to even for `rint`), square roots, absolute values and signs are exact for every number.",
 ["inputs"],"all about a hundred functions, all argument values of their types",
 "Swapped arguments, a lost digit or the wrong rounding of one function shows for few of all numbers, and the functions are a hundred.",
 ["Projects/Extensions/LIBC/math"],[("the functions and their declarations","Projects/Extensions/LIBC/math"),("registration","Projects/Extensions/LIBC/math/math.cpp")])
prop("C26","Built-in text functions return exactly the part, position or text asked for",
 "For all texts and numbers: `substr` and `strpos` return exactly the characters from the position given (to the end without or with a negative length) and refuse positions outside the text, `strfind` returns the first position of the word at or after the one given or -1, `strlpad` and `strrpad` add exactly the missing characters and refuse a pattern that is not one character. Trimming removes exactly the blanks at the chosen ends, case conversion changes letters only, `strcat` and `strncat` append the text or its first characters, `strlen` counts characters. The comparing functions pass on exactly their arguments, and omitted arguments mean the whole rest and the start.",
 ["inputs"],"all texts, positions and lengths, with and without optional arguments",
 "Off-by-one errors show at ends of texts, for empty texts and words at the very end; tests contain one or two calls per function.",
 ["Projects/Extensions/System/Strings","Projects/Extensions/LIBC/cstring"],[("text functions","Projects/Extensions/System/Strings"),("C text functions","Projects/Extensions/LIBC/cstring")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) 
for p in P:
    jsonschema.validate(p,s)
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
