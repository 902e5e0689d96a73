NOTE.update({
    "C01": "runtime operator functions for every integer left type and every accepted right type, all operand values",
    "C02": "runtime operator functions for float/double and every accepted right type, all operand values; IEEE terms compared symbolically",
    "C03": "runtime comparison functions for all atomic pairs, all operand values; strings over an abstract byte order",
    "C04": "interpreter rule of every logical operator over abstract operands plus the concrete truth and negation functions for every operand type",
    "C05": "string concatenation with and comparison against every atomic type, all texts and values; textual form of numbers over an abstract decimal printer",
    "C06": "conversion of stored values, casts between every pair of atomic types, assignment to every atomic type, all values",
    "C07": "table of living objects (taking, dropping, looking up, placing, end of the heap), rebinding, copying and ending of variables, end of scopes; any number of objects and references",
    "C08": "lookup, definition and removal in both kinds of scope and in objects for every name and content; dotted names of any length; names in the source, dotted and through the object; scopes opened by statements",
    "C09": "signature check and parameter binding for lists of any length, choice of a method in scopes and objects, evaluation and passing of arguments, frame, parameters and result of a call",
    "C10": "statement list, block, if, ternary and the simple statements, each for every behaviour of its parts; node dispatch for every kind of statement",
    "C11": "while, for, foreach and switch with inferred loop invariants, for every behaviour of conditions and bodies",
    "C12": "try statement with any number of catch blocks, throw and the block statement",
    "C13": "every statement and expression function of the interpreter, all ways of leaving it",
    "C15": "the operator table (levels, declare, ask, look up), every declaration for built-in types, enumerations and object types, and every place of the parser that looks an operation up",
    "C14": "assignment, declaration, binary, unary, cast, typeid, is, copy and literal rules; node dispatch for every kind of expression",
    "C20": "names of any length, assignment, operator-assignment, ++/--, calls with argument lists of any length, declarations, parameters of a method; objects reached through a second name are not followed",
    "C21": "frames of a thread and scopes of a frame for stacks of any depth; calls of the interpreter push and pop one frame on every way out",
    "C17": "comparison operators against versions and texts, reading, printing and construction, all versions and texts",
    "C16": "the scan of a whole source text, the kind of any word, joining of marks in any list of tokens; decimal-point numbers and the `operator` names are passes that are called in order but not specified",
    "C23": "the four operator levels, signs, marks behind a term, terms and literals of the parser, token lists of any length; operands with operator methods of their own are left out",
    "C24": "every statement form except foreach, declarations, blocks, switch and try with any number of branches, choice of the form; token lists of any length",
    "C25": "101 functions of the math library: result, declaration, registration, all arguments; transcendental functions of the C library are taken as given",
    "C26": "18 text functions: result, declaration, registration, all texts over abstract characters; strchr, strrchr, strstr, strpbrk and the time formats are left out",
    "C18": "trimming, splitting, quotes, case, comparison, truth of a text, file name parts, words of a text; all texts over abstract characters",
    "C19": "conditions over all operand types, order and equality of breakpoints, every operation of the debugger on any set of breakpoints, notifications of the statement dispatch and of throw",
})
