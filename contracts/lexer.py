"""The lexer: which kind of token a word is, and which tokens are put together."""
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .values import one
from .text import text_arg, skolem

TZ, TK, POS = "Slang::Tokenizer", "Slang::Token", "Slang::Common::Position"
BLANKS = " \n\r\t"
MARKS = {";": ("None", "SEMICOLON"), ":": ("None", "COLON"), ".": ("None", "OPERATOR_SCOPE"), ",": ("None", "COMMA"),
         "{": ("None", "BRACKET_CURLY_OPEN"), "}": ("None", "BRACKET_CURLY_CLOSE"), "[": ("None", "BRACKET_OPEN"), "]": ("None", "BRACKET_CLOSE"),
         "(": ("None", "PARENTHESIS_OPEN"), ")": ("None", "PARENTHESIS_CLOSE"), "=": ("Assignment", "ASSIGN"),
         "<": ("Operator", "COMPARE_LESS"), ">": ("Operator", "COMPARE_GREATER"), "&": ("Operator", "BITAND"), "|": ("Operator", "BITOR"),
         "+": ("Operator", "MATH_ADDITION"), "/": ("Operator", "MATH_DIVIDE"), "%": ("Operator", "MATH_MODULO"), "*": ("Operator", "MATH_MULTIPLY"),
         "-": ("Operator", "MATH_SUBTRACT"), "?": ("Operator", "QUESTION_MARK"), "!": ("Operator", "OPERATOR_NOT"), "~": ("Operator", "TILDE")}
WORDS = [("Operator", "OPERATOR_IS", False, "is"),
         ("Modifier", "ACCESS_MODE", False, "ref val"),
         ("Constant", "CONST_BOOLEAN", False, "false true"),
         ("Keyword", "KEYWORD", False, "assert break case cast catch continue copy default delete else exit finally for foreach if new print return streval switch throw try typeid var while"),
         ("Modifier", "LANGUAGE_FEATURE_STATE", True, "deprecated notimplemented stable unstable"),
         ("Modifier", "MEMORY_LAYOUT", True, "abstract final override static virtual"),
         ("Modifier", "MODIFIER", True, "recursive sealed throws"),
         ("Modifier", "MUTABILITY", True, "const modify"),
         ("ReservedWord", "RESERVED_WORD", False, "enum extends implements import interface namespace object operator replicates"),
         ("Modifier", "VISIBILITY", True, "private protected public")]
SUFFIX = {"d": "CONST_DOUBLE", "f": "CONST_FLOAT", "i": "CONST_INTEGER"}
MANY = 1 << 40


class Lay:
    def __init__(self, P):
        self.cat, self.text, self.opt, self.pos, self.type = (P.field(TK, "m" + x) for x in ("Category", "Content", "IsOptional", "Position", "Type"))
        self.file, self.line, self.col = (P.field(POS, "m" + x) for x in ("File", "Line", "Column"))
        self.cats, self.types = P.enum(TK + "::Category::E"), P.enum(TK + "::Type::E")
        self.list = P.field(TZ, "mTokens")
        B = z3.BitVecSort
        self.fields = {self.cat: B(32), self.text: Str, self.opt: B(8), self.pos + self.file: Str, self.pos + self.line: B(32), self.pos + self.col: B(32), self.type: B(32)}

    def num(self, kind, name):
        return z3.BitVecVal(dict(self.cats if kind == "c" else self.types)[name], 32)


class Tokens:
    """the tokens found so far"""

    def __init__(self, ctx, E, st, at, L, name="tokens"):
        self.E, self.at, self.L = E, at, L
        n = z3.Int(name + ".n")
        st.pc.append(z3.And(n >= 0, n < MANY))
        self.info = cinfo(E, "list", [TK])
        self.c0 = SeqV(name, n, kind="list", esize=ctx.P.class_size(TK), lv=self.info.lv)
        st.w(at.rid).cells[at.off] = (self.c0, E.CSIZE["list"])

    def now(self, s):
        return self.E.container(s, self.at, "list", self.info)

    def part(self, c, off, i):
        v = z3.Select(self.E.field_arr(c, off, self.L.fields[off]), i)
        return z3.Extract(0, 0, v) if off == self.L.opt else v

    def kept(self, c, n):
        """the first n tokens are as they were"""
        i = skolem()
        return z3.And(*[z3.Implies(z3.And(i >= 0, i < n), self.part(c, f, i) == self.part(self.c0, f, i)) for f in self.L.fields])


def position(ctx, E, st, L, name="position"):
    rid = E.sym_region(st, name, size=ctx.P.class_size(POS))
    v = (ctx.sym(name + ".file", Str), z3.BitVec(name + ".line", 32), z3.BitVec(name + ".column", 32))
    for off, x in zip((L.file, L.line, L.col), v):
        st.w(rid).cells[off] = (StrV(x) if off == L.file else x, 32 if off == L.file else 4)
    return Ptr(rid, 0), v


def lexer(ctx, E, st):
    """states with a lexer made by its constructor"""
    P = ctx.P
    this = Ptr(E.sym_region(st, "lexer", size=P.class_size(TZ)), 0)
    args = [text_arg(E, st, z3.Const("filename", Str), "filename"), text_arg(E, st, z3.Const("source", Str), "source")]
    out = []
    for s, o in ctx.call(E, st, one(P, TZ + r"::Tokenizer\(.*\)$"), [this] + args):
        ctx.require(E, s, o[0] == "ret", "lexer: can be made")
        if o[0] == "ret":
            out.append((s, this))
    return out


def unmarked(c):
    return z3.And(*[c != ord(x) for x in BLANKS + "".join(MARKS)])


def digit(c):
    return z3.And(c >= 48, c <= 57)


def digits(t, n):
    j = z3.Int("j!digits")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), digit(f_at(t, j))), patterns=[f_at(t, j)])


def word_units():
    def run(ctx, case):
        P = ctx.P
        E = ctx.engine()
        L = Lay(P)
        x = ctx.sym("word", Str)
        n = E.slen(x)
        first, last = f_at(x, z3.IntVal(0)), f_at(x, n - 1)
        known = [w for _, _, _, ws in WORDS for w in ws.split()]
        for st, this in lexer(ctx, E, State(E)):
            T = Tokens(ctx, E, st, Ptr(this.rid, L.list), L)
            pos, at = position(ctx, E, st, L)
            word = text_arg(E, st, x, "word")
            st.pc.append(n >= 1)
            case(ctx, E, st, x, n, first, last, known)
            ctx.cover(E, st.clone(), "such words", z3.BoolVal(True))
            for s, o in ctx.call(E, st, one(P, TZ + r"::addToken\(std::string const&, .*\)$"), [this, word, pos]):
                ctx.require(E, s, o[0] == "ret", "word: ends normally")
                if o[0] != "ret":
                    continue
                yield E, s, L, T, x, n, first, last, at

    def added(ctx, E, s, L, T, at, cat, typ, opt, label):
        c = T.now(s)
        m = T.c0.n
        p = lambda f: T.part(c, f, m)
        ctx.require(E, s, c.n == m + 1, label + ": is one token")
        ctx.require(E, s, T.kept(c, m), label + ": the tokens before it are kept")
        ctx.require(E, s, z3.And(p(L.cat) == cat, p(L.type) == typ), label + ": is of its kind")
        ctx.require(E, s, p(L.opt) == z3.If(opt, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), label + ": is optional exactly if its kind is")
        ctx.require(E, s, z3.And(p(L.pos + L.file) == at[0], p(L.pos + L.line) == at[1], p(L.pos + L.col) == at[2]), label + ": its place")
        return p(L.text)

    no = z3.BoolVal(False)

    def blank(ctx):
        def case(ctx, E, st, x, n, first, last, known):
            st.pc.append(z3.And(n == 1, z3.Or(*[first == ord(c) for c in BLANKS])))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            c = T.now(s)
            ctx.require(E, s, z3.And(c.n == T.c0.n, T.kept(c, c.n)), "blank: is no token")

    def mark(ctx):
        def case(ctx, E, st, x, n, first, last, known):
            st.pc.append(z3.And(n == 1, z3.Or(*[first == ord(c) for c in MARKS])))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            cat, typ = z3.BitVecVal(0, 32), z3.BitVecVal(0, 32)
            for ch, (c, t) in MARKS.items():
                cat, typ = z3.If(first == ord(ch), L.num("c", c), cat), z3.If(first == ord(ch), L.num("t", t), typ)
            ctx.require(E, s, added(ctx, E, s, L, T, at, cat, typ, no, "mark") == x, "mark: its text")

    def plain(st, first):
        """words of the language do not start with a mark or a blank"""
        st.pc.append(unmarked(first))

    def word(ctx):
        def case(ctx, E, st, x, n, first, last, known):
            plain(st, first)
            st.pc.append(z3.Or(*[x == strconst(w) for w in known]))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            cat, typ, opt = z3.BitVecVal(0, 32), z3.BitVecVal(0, 32), no
            for c, t, o, ws in WORDS:
                hit = z3.Or(*[x == strconst(w) for w in ws.split()])
                cat, typ, opt = z3.If(hit, L.num("c", c), cat), z3.If(hit, L.num("t", t), typ), z3.If(hit, z3.BoolVal(o), opt)
            ctx.require(E, s, added(ctx, E, s, L, T, at, cat, typ, opt, "word of the language") == x, "word of the language: its text")

    def number(ctx, suffix):
        def case(ctx, E, st, x, n, first, last, known):
            plain(st, first)
            st.pc.append(digits(x, n - len(suffix)))
            if suffix:
                st.pc.append(z3.And(n >= 2, last == ord(suffix)))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            t = added(ctx, E, s, L, T, at, L.num("c", "Constant"), L.num("t", SUFFIX.get(suffix, "CONST_INTEGER")), no, "number")
            i = skolem()
            ctx.require(E, s, E.slen(t) == n - len(suffix), "number: without its suffix")
            ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < n - len(suffix)), f_at(t, i) == f_at(x, i)), "number: its digits")

    def literal(ctx):
        def case(ctx, E, st, x, n, first, last, known):
            st.pc.append(z3.And(n >= 2, first == ord('"'), last == ord('"')))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            t = added(ctx, E, s, L, T, at, L.num("c", "Constant"), L.num("t", "CONST_LITERAL"), no, "literal")
            i = skolem()
            ctx.require(E, s, E.slen(t) == n - 2, "literal: without its quotes")
            ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < n - 2), f_at(t, i) == f_at(x, i + 1)), "literal: its characters")

    def other(ctx):
        def case(ctx, E, st, x, n, first, last, known):
            plain(st, first)
            st.pc.append(z3.And(*[x != strconst(w) for w in known]))
            st.pc.append(z3.Not(z3.And(n >= 2, first == ord('"'), last == ord('"'))))
            # some character makes it no number
            k = z3.Int("k")
            st.pc.append(z3.And(k >= 0, k < n, z3.Not(digit(f_at(x, k))),
                                z3.Or(k < n - 1, n == 1, z3.And(*[last != ord(c) for c in SUFFIX]))))
        for E, s, L, T, x, n, first, last, at in run(ctx, case):
            t = added(ctx, E, s, L, T, at, L.num("c", "None"), L.num("t", "IDENTIFIER"), no, "other word")
            ctx.require(E, s, t == x, "other word: its text")

    fn = TZ + "::addToken"
    us = [Unit("blank", fn, blank), Unit("mark", fn, mark), Unit("word", fn, word), Unit("literal", fn, literal), Unit("identifier", fn, other)]
    us += [Unit("number " + (x or "plain"), fn, lambda ctx, x=x: number(ctx, x)) for x in ("", "d", "f", "i")]
    return us


EQUALS = {("ASSIGN", "ASSIGN"): ("Comparator", "COMPARE_EQUAL", "=="), ("COMPARE_EQUAL", "ASSIGN"): ("Comparator", "COMPARE_EQUAL_CONTENT", "==="),
          ("COMPARE_UNEQUAL", "ASSIGN"): ("Comparator", "COMPARE_UNEQUAL_CONTENT", "!=="), ("OPERATOR_NOT", "ASSIGN"): ("Comparator", "COMPARE_UNEQUAL", "!="),
          ("COMPARE_GREATER", "ASSIGN"): ("Comparator", "COMPARE_GREATER_EQUAL", ">="), ("COMPARE_LESS", "ASSIGN"): ("Comparator", "COMPARE_LESS_EQUAL", "<="),
          ("BITAND", "ASSIGN"): ("Assignment", "ASSIGN_BITAND", "&="), ("BITOR", "ASSIGN"): ("Assignment", "ASSIGN_BITOR", "|="),
          ("MATH_ADDITION", "ASSIGN"): ("Assignment", "ASSIGN_ADDITION", "+="), ("MATH_DIVIDE", "ASSIGN"): ("Assignment", "ASSIGN_DIVIDE", "/="),
          ("MATH_MODULO", "ASSIGN"): ("Assignment", "ASSIGN_MODULO", "%="), ("MATH_MULTIPLY", "ASSIGN"): ("Assignment", "ASSIGN_MULTIPLY", "*="),
          ("MATH_SUBTRACT", "ASSIGN"): ("Assignment", "ASSIGN_SUBTRACT", "-=")}
PAIRS = {("BITAND", "BITAND"): ("Operator", "AND", "&&"), ("BITOR", "BITOR"): ("Operator", "OR", "||"), ("OPERATOR_NOT", "BITAND"): ("Operator", "NAND", "!&"),
         ("OPERATOR_NOT", "BITOR"): ("Operator", "NOR", "!|"), ("OPERATOR_SCOPE", "OPERATOR_SCOPE"): ("Operator", "OPERATOR_RANGE", ".."),
         ("MATH_SUBTRACT", "MATH_SUBTRACT"): ("Operator", "OPERATOR_DECREMENT", "--"), ("MATH_ADDITION", "MATH_ADDITION"): ("Operator", "OPERATOR_INCREMENT", "++"),
         ("COMPARE_LESS", "COMPARE_LESS"): ("Operator", "OPERATOR_SHIFT_LEFT", "<<"), ("COMPARE_GREATER", "COMPARE_GREATER"): ("Operator", "OPERATOR_SHIFT_RIGHT", ">>"),
         ("BRACKET_OPEN", "BRACKET_CLOSE"): ("Operator", "ARRAY_SUBSCRIPT", "[]")}
UNUSED = ("BITCOMPLEMENT", "GREATER", "LESS")


class Merge:
    """tokens after the first i ones have been read from left to right: the last one found so far and the
    next one become one token where the table says so"""

    def __init__(self, ctx, table):
        P = ctx.P
        self.E = E = ctx.engine()
        self.st = st = State(E)
        L = self.L = Lay(P)
        self.table = table
        self.this = Ptr(E.sym_region(st, "lexer", size=P.class_size(TZ)), 0)
        self.T = T = Tokens(ctx, E, st, Ptr(self.this.rid, L.list), L)
        self.count = z3.Function("merged.n", IntS, IntS)
        self.out = {f: z3.Function("merged.%d" % f, IntS, z3.ArraySort(IntS, so)) for f, so in L.fields.items()}
        self.n = T.c0.n
        j = z3.Int("j!kind")
        kind = T.part(T.c0, L.type, j)
        self.usual = lambda k: z3.And(*[k != L.num("t", x) for x in UNUSED])
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), self.usual(kind)), patterns=[kind]))
        st.pc.append(self.count(z3.IntVal(0)) == 0)
        for i in range(1):
            st.pc += self.step(z3.IntVal(i))
        E.cand_hooks.append(self.cand)

    def last(self, i):
        m = self.count(i)
        return z3.If(m == 0, self.L.num("t", "UNKNOWN"), z3.Select(self.out[self.L.type](i), m - 1))

    def step(self, i):
        """definition of the state after token i"""
        L, T, m = self.L, self.T, self.count(i)
        at = {f: z3.Select(self.E.field_arr(T.c0, f, so), i) for f, so in L.fields.items()}
        v = dict(at)
        hit = z3.BoolVal(False)
        for (a, b), (c, t, x) in self.table.items():
            h = z3.And(self.last(i) == L.num("t", a), at[L.type] == L.num("t", b))
            hit = z3.Or(hit, h)
            for f, y in ((L.cat, L.num("c", c)), (L.type, L.num("t", t)), (L.text, strconst(x)), (L.opt, z3.BitVecVal(0, 8))):
                v[f] = z3.If(h, y, v[f])
        pos = z3.If(hit, m - 1, m)
        d = [self.count(i + 1) == pos + 1] + [self.out[f](i + 1) == z3.Store(self.out[f](i), pos, v[f]) for f in v]
        r = z3.Implies(z3.And(i >= 0, i < self.n), z3.And(*d))
        self.E.lazy[r.get_id()] = r
        return [r]

    def same(self, cur, c, i):
        """the tokens of c are those after i ones"""
        out = []
        for f, so in self.L.fields.items():
            x = self.E.field_arr(c, f, so)
            if z3.is_int_value(z3.simplify(c.n)) and not c.fields:
                cur.pc.append(x == self.out[f](z3.IntVal(0)))      # an empty list has no tokens that could differ
            out.append((f, x == self.out[f](i)))
        return out

    def cand(self, E, st0, cur, hv, fr, getv):
        out = []
        ks = [k for k in hv if k[0] != "ghost"]
        for k in ks:
            it = getv(k)
            if not isinstance(it, It) or it.pos is None or (it.rid, it.coff) != (self.T.at.rid, self.T.at.off):
                continue
            i = it.pos
            cur.pc += self.step(i)
            m = self.count(i)
            out.append(("merged range %s" % (k,), z3.And(m >= 0, m <= i, z3.Implies(i > 0, m >= 1))))
            out.append(("merged kind %s" % (k,), self.usual(self.last(i))))
            for c in ks:
                v = getv(c)
                if isinstance(v, SeqV) and v.esize == self.T.c0.esize:
                    out.append(("merged count %s %s" % (k, c), v.n == m))
                    out += [("merged %d %s %s" % (f, k, c), x) for f, x in self.same(cur, v, i)]
                elif not isinstance(v, (It, SeqV, StrV, Ptr, SPtr, EPtr)):
                    try:
                        b = to_bv(v, 32)
                    except Exception:
                        continue
                    if b.size() == 32:
                        out.append(("merged last %s %s" % (k, c), b == self.last(i)))
        return out


def merge_units():
    us = []
    for name, fn, table in (("assignments", "mergeAssignments", EQUALS), ("operators", "mergeOperators", PAIRS)):
        def run(ctx, fn=fn, table=table, name=name):
            M = Merge(ctx, table)
            E, st, T = M.E, M.st, M.T
            ctx.cover(E, st.clone(), "several tokens", M.n > 3)
            for s, o in ctx.call(E, st, one(ctx.P, TZ + "::" + fn + r"\(\)$"), [M.this]):
                ctx.require(E, s, o[0] == "ret", name + ": ends normally")
                if o[0] != "ret":
                    continue
                c = T.now(s)
                ctx.require(E, s, c.n == M.count(M.n), name + ": as many tokens as result from reading them in turn")
                i = skolem()
                for f, lab in ((M.L.type, "kinds"), (M.L.cat, "categories"), (M.L.text, "texts"), (M.L.pos + M.L.line, "lines"), (M.L.pos + M.L.col, "columns"), (M.L.pos + M.L.file, "files"), (M.L.opt, "optional marks")):
                    x, y = T.part(c, f, i), z3.Select(M.out[f](M.n), i)
                    ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < c.n), x == (z3.Extract(0, 0, y) if f == M.L.opt else y)), name + ": with the right " + lab)
        us.append(Unit("merged " + name, TZ + "::" + fn, run, timeout=600))
    return us


DELIM = "#.,;:=()[]{}!?<>+-*/%&|~'\" \t\n\r"
PASSES = ("mergeAssignments", "mergeOperators", "replaceConstDataTypesPatternMatching", "replaceOperators")


class Scan:
    """what has been read after the first i characters"""
    FLAGS = ("escaped", "text", "line comment", "comment")

    def __init__(self, ctx):
        P = self.P = ctx.P
        self.E = E = ctx.engine()
        E.light, E.peel_max = True, 0
        self.st = st = State(E)
        L = self.L = Lay(P)
        self.src = ctx.sym("source", Str)
        self.file = ctx.sym("file", Str)
        self.n = E.slen(self.src)
        self.this = Ptr(E.sym_region(st, "lexer", size=P.class_size(TZ)), 0)
        w = st.w(self.this.rid)
        w.cells[P.field(TZ, "mContent")] = (StrV(self.src), 32)
        w.cells[P.field(TZ, "mFilename")] = (StrV(self.file), 32)
        self.T = Tokens(ctx, E, st, Ptr(self.this.rid, L.list), L)
        st.pc.append(self.T.c0.n == 0)
        B, I, F = z3.BoolSort(), IntS, z3.Function
        self.flag = {x: F("scan." + x, I, B) for x in self.FLAGS}
        self.prev, self.word = F("scan.previous", I, I), F("scan.word", I, Str)
        self.lineno, self.col = F("scan.line", I, I), F("scan.column", I, I)
        self.count = F("scan.n", I, I)
        self.out = {f: F("scan.%d" % f, I, z3.ArraySort(I, so)) for f, so in L.fields.items()}
        # kind and text of the token a word becomes
        self.cls = {f: F("word.%d" % f, Str, L.fields[f]) for f in (L.cat, L.type, L.opt, L.text)}
        z = z3.IntVal(0)
        st.pc += [z3.Not(self.flag[x](z)) for x in self.FLAGS]
        st.pc += [self.prev(z) == 0, self.word(z) == EMPTY, self.lineno(z) == 1, self.col(z) == 1, self.count(z) == 0]
        st.pc += [self.out[f](z) == E.field_arr(self.T.c0, f, so) for f, so in L.fields.items()]
        E.cand_hooks.append(self.cand)

    def add(self, s, w, line, col):
        """s: (count, arrays) with the token of word w added, unless it is blank"""
        L, (m, a) = self.L, s
        blank = z3.And(self.E.slen(w) == 1, z3.Or(*[f_at(w, z3.IntVal(0)) == ord(c) for c in BLANKS]))
        v = {f: self.cls[f](w) for f in self.cls}
        v[L.pos + L.file], v[L.pos + L.line], v[L.pos + L.col] = self.file, z3.Int2BV(line, 32), z3.Int2BV(col, 32)
        return z3.If(blank, m, m + 1), {f: z3.If(blank, a[f], z3.Store(a[f], m, v[f])) for f in a}

    def choose(self, c, s, t):
        return z3.If(c, s[0], t[0]), {f: z3.If(c, s[1][f], t[1][f]) for f in s[1]}

    def step(self, i):
        """definition of the state after character i"""
        E, I = self.E, z3.IntVal
        c = z3.If(i < self.n, f_at(self.src, i), 0)      # a text ends with a zero character
        esc, txt, sl, ml = (self.flag[x](i) for x in self.FLAGS)
        p, w, line, col = self.prev(i), self.word(i), self.lineno(i), self.col(i)
        toks = (self.count(i), {f: self.out[f](i) for f in self.out})
        ch = lambda x: c == ord(x)
        bump = lambda x: z3.If(x + 1 >= 1 << 32, x + 1 - (1 << 32), x + 1)
        A, O, N = z3.And, z3.Or, z3.Not
        code = A(N(txt), N(sl), N(ml))
        hash_ = A(code, ch("#"))
        two = A(code, p == ord("/"), O(ch("/"), ch("*")))
        inside = O(sl, ml)                               # within a comment
        start = O(hash_, two)
        quote = A(N(inside), N(start), N(esc), ch('"'))
        ntxt = z3.If(quote, N(txt), txt)
        nesc = A(N(inside), N(start), txt, N(esc), ch("\\"))
        delim = O(*[ch(x) for x in DELIM])
        one = f_unit(c)
        ends = A(N(inside), N(start), N(esc), N(ntxt), delim)   # a delimiter in the code
        closes = A(ends, quote, w != EMPTY)
        grows = A(N(inside), N(start), O(esc, A(N(nesc), c != 0, N(ends))))
        flush = self.add(toks, w, line, col)
        flushed = self.choose(w != EMPTY, flush, toks)
        marked = self.add(flushed, one, line, col)
        closed = self.add(toks, E.scat(w, one), line, col)
        t2 = self.choose(hash_, flushed, self.choose(two, (toks[0] - 1, toks[1]), self.choose(closes, closed, self.choose(ends, marked, toks))))
        w2 = z3.If(O(hash_, ends), EMPTY, z3.If(grows, E.scat(w, one), w))
        over = A(ml, p == ord("*"), ch("/"))
        nl = ch("\n")
        p2 = z3.If(O(nl, over, A(two, ch("*")), A(N(inside), N(start), esc), closes), I(0), c)
        d = [self.flag["escaped"](i + 1) == nesc, self.flag["text"](i + 1) == ntxt,
             self.flag["line comment"](i + 1) == A(N(nl), O(sl, hash_, A(two, ch("/")))),
             self.flag["comment"](i + 1) == A(N(over), O(ml, A(two, ch("*")))),
             self.prev(i + 1) == p2, self.word(i + 1) == w2,
             self.lineno(i + 1) == z3.If(nl, bump(line), line), self.col(i + 1) == z3.If(nl, I(1), bump(col)),
             self.count(i + 1) == t2[0]] + [self.out[f](i + 1) == t2[1][f] for f in self.out]
        r = z3.Implies(A(i >= 0, i <= self.n), A(*d))
        E.lazy[r.get_id()] = r
        return r

    def facts(self, i):
        """what holds after any number of characters"""
        f = {x: self.flag[x](i) for x in self.FLAGS}
        code = z3.Not(z3.Or(f["text"], f["line comment"], f["comment"]))
        return [("text", z3.And(z3.Implies(f["escaped"], f["text"]), z3.Not(z3.And(f["text"], z3.Or(f["line comment"], f["comment"]))), z3.Not(z3.And(f["line comment"], f["comment"])))),
                ("slash", z3.And(self.count(i) >= 0, z3.Implies(z3.And(code, self.prev(i) == ord("/")), z3.And(self.count(i) >= 1, self.word(i) == EMPTY)))),
                ("prev", z3.And(self.prev(i) >= 0, self.prev(i) <= 255)),
                ("in text", z3.Implies(f["text"], self.word(i) != EMPTY)),
                ("in comment", z3.Implies(z3.Or(f["line comment"], f["comment"]), self.word(i) == EMPTY)),
                ("word", z3.Implies(self.word(i) != EMPTY, unmarked(f_at(self.word(i), z3.IntVal(0)))))]

    def index(self, v):
        """how many characters have been read, if v counts them"""
        if isinstance(v, (IV, z3.BitVecRef)):
            v = to_iv(v)
            return v.t if v.w == 64 else None
        if isinstance(v, CPtr):
            return v.pos
        return None

    def cand(self, E, st0, cur, hv, fr, getv):
        out = []
        L = self.L
        ks = [k for k in hv if k[0] != "ghost"]
        for k in ks:
            i = self.index(getv(k))
            if i is None:
                continue
            cur.pc.append(self.step(i))
            out += [("scan %s %s" % (a, k), b) for a, b in self.facts(i)]
            out.append(("scan range %s" % (k,), z3.And(i >= 0, i <= self.n + 1)))
            for c in ks:
                x = getv(c)
                nm = "%s %s" % (k, c)
                if isinstance(x, SeqV):
                    out.append(("scan count " + nm, (x.n == self.count(i))))
                    out += [("scan %d %s" % (f, nm), (E.field_arr(x, f, so) == self.out[f](i))) for f, so in L.fields.items()]
                elif isinstance(x, StrV):
                    out.append(("scan word " + nm, (x.t == self.word(i))))
                elif isinstance(x, (IV, z3.BitVecRef)):
                    b = to_iv(x)
                    if b.w == 8:
                        for fl in self.FLAGS:
                            out.append(("scan %s %s" % (fl, nm), (z3.Extract(0, 0, to_bv(x, 8)) == 1) == self.flag[fl](i)))
                        out.append(("scan previous " + nm, b.t == self.prev(i)))
                    elif b.w == 32:
                        out.append(("scan line " + nm, b.t == self.lineno(i)))
                        out.append(("scan column " + nm, b.t == self.col(i)))
        return out


def scan_unit():
    def run(ctx):
        S = Scan(ctx)
        E, P, L, T = S.E, S.P, S.L, S.T

        def add(E, s, args, ins):
            w, at = E.get_str(s, args[1]), args[2]
            n = E.slen(w)
            E.oblige(s, z3.And(n >= 1, z3.Or(n == 1, unmarked(f_at(w, z3.IntVal(0))))), "spec", "scanning: a word is one mark or starts with none")
            g = lambda o: E.load(s, E.padd(at, o), ir.I32)
            c = T.now(s)
            (m, a) = S.add((c.n, {f: E.field_arr(c, f, so) for f, so in L.fields.items()}), w, to_iv(g(L.line)).t, to_iv(g(L.col)).t)
            a[L.pos + L.file] = z3.substitute(a[L.pos + L.file], (S.file, E.get_str(s, E.padd(at, L.file))))
            E.set_container(s, T.at, c.with_(n=z3.simplify(m), fields={**c.fields, **a}))
            return [(s, ("ret", None))]
        E.contracts[one(P, TZ + r"::addToken\(std::string const&, .*\)$")] = add
        for p in PASSES:
            def note(E, s, args, ins, p=p):
                s.ghost[("passes",)] = s.ghost.get(("passes",), ()) + ((p, T.now(s)),)
                c = T.now(s)
                E.set_container(s, T.at, SeqV(fresh_name("after " + p), z3.Int(fresh_name("n")), kind="list", esize=c.esize, lv=c.lv))
                return [(s, ("ret", None))]
            E.contracts[one(P, TZ + "::" + p + r"\(\)$")] = note
        ctx.cover(E, S.st.clone(), "some characters", S.n > 3)
        for s, o in ctx.call(E, S.st, one(P, TZ + r"::process\(\)$"), [S.this]):
            ctx.require(E, s, o[0] == "ret", "scanning: ends normally")
            if o[0] != "ret":
                continue
            n = S.n
            s.pc += [S.step(n), S.step(n - 1)]
            s.pc.append(z3.Not(S.flag["escaped"](n)))        # the source does not end within an escape sequence
            ps = s.ghost.get(("passes",), ())
            ctx.require(E, s, z3.BoolVal(tuple(p for p, _ in ps) == PASSES), "scanning: the found tokens are put together in order")
            if not ps:
                continue
            c = ps[0][1]
            w = S.word(n)
            m = z3.If(w == EMPTY, S.count(n), S.count(n) + 1)
            ctx.require(E, s, c.n == m + 1, "scanning: as many tokens as words and marks")
            i = skolem()
            for f, lab in ((L.type, "kinds"), (L.cat, "categories"), (L.text, "texts"), (L.pos + L.line, "lines"), (L.pos + L.col, "columns"), (L.pos + L.file, "files")):
                ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < S.count(n)), T.part(c, f, i) == z3.Select(S.out[f](n), i)), "scanning: tokens with the right " + lab)
            for f, lab in ((L.type, "kind"), (L.cat, "category"), (L.text, "text")):
                ctx.require(E, s, z3.Implies(w != EMPTY, T.part(c, f, S.count(n)) == S.cls[f](w)), "scanning: the last word has its " + lab)
            ctx.require(E, s, T.part(c, L.type, m) == L.num("t", "ENDOFFILE"), "scanning: the end of the source")
    return [Unit("scanned source", TZ + "::process", run, timeout=800)]
