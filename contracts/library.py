"""Built-in functions: what a call returns for its arguments."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .objects import *
from .ops import conv, fsort, width, RUNTIME_EXC
from .values import one
from .convert import setup, value_as
from .calls import Lists, METHOD, TYPEDECL
from .text import chars, part, skolem, lower, upper

EXTRA = ("Projects/Extensions/LIBC/math", "Projects/Extensions/LIBC/cstring", "Projects/Extensions/System/Strings")
MATH = "Slang::Extensions::LIBC::math::"
NORMAL = 3


class Call:
    """a call of a built-in function with arguments of the declared types"""

    def __init__(self, ctx, cls, types, given=None, default={}, whole=False):
        self.ctx, P = ctx, ctx.P
        E = self.E = ctx.engine()
        setup(E)
        st = self.st = State(E)
        self.L = lay(P)
        S = self.S = Lists(E)
        n = len(types)
        given = n if given is None else given
        self.whole, self.bits = {}, []
        self.vals = [self.number(i) if whole and T == "int" else fresh_of(ctx, T, "argument%d" % i) for i, T in enumerate(types)]
        for i in range(given, n):
            st.pc.append((self.whole[i] if i in self.whole else self.vals[i]) == default[i])
        args = E.sym_region(st, "arguments")
        self.args = Ptr(args, 0)
        self.fill(st, args, types, given, "arguments")
        self.result = E.sym_region(st, "result", size=self.L.size) if False else sym_object(E, ctx, st, "result", "int", fresh_of(ctx, "int", "before"))
        self.this = Ptr(E.sym_region(st, "function", size=P.class_size(METHOD)), 0)
        self.types = types
        E.contracts[one(P, re.escape(METHOD) + r"::mergeParameters\(.*\) const$")] = self.merged
        self.cls = cls

    def number(self, i):
        """a whole number seen as a mathematical one; its bits are related to it where it is read"""
        k = self.whole[i] = self.ctx.sym("argument%d" % i, IntS)
        self.st.pc.append(z3.And(k >= -(1 << 31), k < 1 << 31))
        self.E.contracts[one(self.E.P, re.escape(AV) + r"::toInt\(\) const$")] = self.read
        return z3.BitVec("argument%d.bits" % i, 32)

    def read(self, E, st, a, ins):
        """the number stored in an argument (proved by C05)"""
        e = E.load(st, E.padd(a[0], self.L.av_val), IntT(64))
        for i, b in self.bits:
            if i in self.whole and z3.is_bv(e) and z3.simplify(e).eq(z3.simplify(b)):
                k = self.whole[i]
                return [(st, ("ret", wide(k)))]
        return None

    def fill(self, st, rid, types, n, name):
        E, S, L = self.E, self.S, self.L
        c = SeqV(name, z3.IntVal(n), kind="list", esize=S.info.esize, lv=S.info.lv)
        st.w(rid).cells[0] = (c, E.CSIZE["list"])
        for i, T in enumerate(types[:n]):
            v = self.vals[i]
            st.pc.append(S.at(c, S.vtype, z3.IntVal(i)) == L.tags[TYPES[T][2]])
            st.pc.append(S.at(c, S.vstr, z3.IntVal(i)) == (v if T == "string" else EMPTY))
            u = union_of(T, v)[0]
            b = z3.Select(E.field_arr(c, S.vbits, u.sort()), c.lo + i)
            if i not in self.whole:
                st.pc.append(b == u)
            self.bits.append((i, b))
        return c

    def merged(self, E, st, a, ins):
        """one value for every declared parameter (proved by C09)"""
        rid = a[0].rid
        self.fill(st, rid, self.types, len(self.types), fresh_name("bound"))
        return [(st, ("ret", None))]

    def run(self):
        P = self.E.P
        sym = one(P, re.escape(self.cls) + r"::execute\(.*\)$")
        return self.ctx.call(self.E, self.st, sym, [self.this, self.args, Ptr(self.result, 0)])


# ------------------------------------------------------------------- numbers

UNARY = "acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor lgamma log log10 log1p log2 logb nearbyint rint sin sinh tan tanh tgamma trunc".split()
BINARY = "atan2 copysign fdim fmax fmin fmod hypot nextafter pow remainder".split()
EXACT = ("ceil", "floor", "nearbyint", "rint", "round", "trunc")
PREFIX = {"double": "", "float": "f"}


def computed(n, T, a):
    """the value the C function n of type T gives for a; functions that round, take a root or a sign have their exact meaning,
    of the others nothing more is known than that they are functions of their arguments"""
    if n in EXACT:
        return z3.fpRoundToIntegral(INTEGRAL[n], a[0])
    if n == "sqrt":
        return z3.fpSqrt(RNE, a[0])
    if n == "fabs":
        return z3.fpAbs(a[0])
    if n == "fma":
        return z3.fpFMA(RNE, *a)
    if n == "copysign":
        return fp_copysign(*a)
    return fp_uf(n + PREFIX[T], *a)


def libm(E):
    """the C library's functions as specified above"""
    def on(name, f):
        E.contracts[name] = lambda E, st, a, ins: [(st, ("ret", f(*a)))]

    for T in FLOATS:
        s = {"double": F64, "float": F32}[T]
        for n in UNARY + ["sqrt", "round"]:
            on(n + PREFIX[T], lambda x, n=n, T=T: computed(n, T, [x]))
        for n in BINARY:
            on(n + PREFIX[T], lambda x, y, n=n, T=T: computed(n, T, [x, y]))
        on("fma" + PREFIX[T], lambda x, y, z, T=T: computed("fma", T, [x, y, z]))
        on("nexttoward" + PREFIX[T], lambda x, y, n="nexttoward" + PREFIX[T]: fp_uf(n, x, y))
        for n in ("ldexp", "scalbn"):
            on(n + PREFIX[T], lambda x, k, n=n + PREFIX[T]: fp_uf(n, x, to_bv(k, 32)))
        on("ilogb" + PREFIX[T], lambda x, n="ilogb" + PREFIX[T]: ilogb(n, x))
    on("powl", lambda x, y: fp_uf("powl", x, y))
    for n, w in (("abs", 32), ("labs", 64)):
        on(n, lambda x, w=w: magnitude(to_bv(x, w)))


def magnitude(v):
    return z3.If(v < 0, -v, v)


def ilogb(n, x):
    return z3.Function("C." + n, x.sort(), z3.BitVecSort(32))(x)


def numeric():
    """class -> (name, result type, parameter types, meaning)"""
    out = {}
    for T in FLOATS:
        p, S = PREFIX[T], {"double": F64, "float": F32}[T]
        up = lambda n: (n + p).upper()
        for n in UNARY:
            out[up(n)] = (n + p, T, [T], lambda x, n=n, T=T: computed(n, T, [x]))
        for n in BINARY:
            out[up(n)] = (n + p, T, [T, T], lambda x, y, n=n, T=T: computed(n, T, [x, y]))
        out[up("fma")] = ("fma" + p, T, [T, T, T], lambda x, y, z, T=T: computed("fma", T, [x, y, z]))
        out[up("round")] = ("round", T, [T], lambda x, T=T: computed("round", T, [x]))
        out[up("nexttoward")] = ("nexttoward" + p, T, [T, T], lambda x, y, p=p: fp_uf("nexttoward" + p, x, z3.fpFPToFP(RNE, y, F80)))
        for n in ("ldexp", "scalbn"):
            out[up(n)] = (n + p, T, [T, T], lambda x, k, n=n + p: fp_uf(n, x, z3.fpToSBV(RTZ, k, z3.BitVecSort(32))))
        out[up("ilogb")] = ("ilogb" + p, T, [T], lambda x, n="ilogb" + p, S=S: z3.fpSignedToFP(RNE, ilogb(n, x), S))
    out["SQRTDouble"] = ("sqrt", "double", ["double"], lambda x: computed("sqrt", "double", [x]))
    out["SQRTFloat"] = ("sqrt", "float", ["float"], lambda x: computed("sqrt", "float", [x]))
    out["SQRTF"] = ("sqrtf", "float", ["float"], lambda x: computed("sqrt", "float", [x]))
    out["ABS"] = ("abs", "int", ["int"], magnitude)
    out["LABS"] = ("labs", "int64", ["int64"], magnitude)
    out["POWL"] = ("powl", "int64", ["int64", "int64"], lambda x, y: z3.fpToSBV(RTZ, fp_uf("powl", z3.fpSignedToFP(RNE, x, F80), z3.fpSignedToFP(RNE, y, F80)), z3.BitVecSort(64)))
    return out


def numeric_units():
    us = []
    for cls, (name, T, ps, want) in sorted(numeric().items()):
        def run(ctx, cls=cls, name=name, T=T, ps=ps, want=want):
            C = Call(ctx, MATH + cls, ps)
            libm(C.E)
            lab = "%s(%s): " % (name, ", ".join(ps))
            for s, o in C.run():
                ctx.require(C.E, s, o[0] == "ret" and cint(o[1]) == NORMAL, lab + "ends normally")
                if o[0] != "ret":
                    continue
                ctx.require(C.E, s, holds_value(C.E, s, C.result, T, want(*C.vals), C.L), lab + "result")
                ctx.require(C.E, s, C.E.get_str(s, Ptr(C.result, C.L.qtype)) == strconst(C.L.tn[T]), lab + "type of the result")
        us.append(Unit("compute/%s(%s)" % (name, ",".join(ps)), MATH + cls + "::execute", run))
        us.append(declared(MATH, cls, name, T, ps))
    return us


# --------------------------------------------------------------------- texts

STRINGS = "Slang::Extensions::System::Strings::"
CSTRING = "Slang::Extensions::LIBC::cstring::"


def texts():
    """class -> (name, result type, parameter types, defaults, what the result is: a function of the case and its arguments)"""
    def substr(c, t, k, m):
        n = c.E.slen(t)
        inside = z3.And(k >= 0, k <= n)
        yield "refused", z3.Not(inside), None
        yield "part", inside, lambda r, lab: part(c.ctx, c.E, c.s, r, t, k, z3.If(z3.And(m >= 0, m < n - k), m, n - k), lab)

    def strpos(c, t, k):
        n = c.E.slen(t)
        inside = z3.And(k >= 0, k <= n)
        yield "refused", z3.Not(inside), None
        yield "character", inside, lambda r, lab: part(c.ctx, c.E, c.s, r, t, k, z3.If(k < n, z3.IntVal(1), z3.IntVal(0)), lab)

    def strfind(c, t, w, p):
        n, m = c.E.slen(t), c.E.slen(w)
        i = skolem()

        def found(r, lab):
            q = lambda x, l: c.ctx.require(c.E, c.s, x, lab + l)
            q(z3.Implies(r != -1, z3.And(p >= 0, r >= p, r + m <= n, f_sub(t, r, m) == w)), ": the word is there")
            q(z3.Implies(z3.And(p >= 0, i >= p, i + m <= n, z3.Or(r == -1, i < r)), f_sub(t, i, m) != w), ": nowhere before")
        yield "position", n < (1 << 31), found

    def pad(left):
        def f(c, t, k, w):
            n = c.E.slen(t)
            one_char = c.E.slen(w) == 1
            ok = z3.And(k >= 0, one_char)
            yield "refused", z3.Not(one_char), None
            more = z3.If(k > n, k - n, z3.IntVal(0))
            fill = f_at(w, 0)
            at = (lambda i: z3.If(i < more, fill, f_at(t, i - more))) if left else (lambda i: z3.If(i < n, f_at(t, i), fill))
            yield "text", ok, lambda r, lab: chars(c.ctx, c.E, c.s, r, n + more, at, lab)
        return f

    def trim(left, right):
        def f(c, t):
            blank = lambda i: f_at(t, i) == 32
            n, i = c.E.slen(t), skolem()

            def kept(r, lab):
                m = c.E.slen(r)
                q = lambda x, l: c.ctx.require(c.E, c.s, x, lab + l)
                if left and right:
                    k, j = z3.Int(fresh_name("start")), z3.Int("j!start")
                    c.s.pc.append(z3.And(k >= 0, k <= n, z3.Or(k == n, z3.Not(blank(k)))))
                    c.s.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), blank(j)), patterns=[f_at(t, j)]))
                    k = z3.If(k == n, z3.IntVal(0), k)
                else:
                    k = n - m if left else z3.IntVal(0)
                q(z3.And(m <= n, k >= 0, k + m <= n), ": never longer")
                q(z3.Implies(z3.And(i >= 0, i < m), f_at(r, i) == f_at(t, k + i)), ": the rest stays")
                q(z3.Implies(z3.And(i >= 0, i < n, z3.Or(i < k, i >= k + m)), blank(i)), ": only blanks go")
                if left:
                    q(z3.Implies(m > 0, f_at(r, 0) != 32), ": no blank left at the front")
                if right:
                    q(z3.Implies(m > 0, f_at(r, m - 1) != 32), ": no blank left at the end")
            yield "text", z3.BoolVal(True), kept
        return f

    def case(up):
        return lambda c, t: [("text", z3.BoolVal(True), lambda r, lab: chars(c.ctx, c.E, c.s, r, c.E.slen(t), lambda i: up(f_at(t, i)), lab))]

    def strcat(c, t, u, k=None):
        n, m = c.E.slen(t), c.E.slen(u)
        if k is not None:
            m = z3.If(z3.And(k >= 0, k < m), k, m)
        yield "text", z3.BoolVal(True), lambda r, lab: chars(c.ctx, c.E, c.s, r, n + m, lambda i: z3.If(i < n, f_at(t, i), f_at(u, i - n)), lab)

    def strlen(c, t):
        n = c.E.slen(t)
        yield "length", n < (1 << 31), lambda r, lab: c.ctx.require(c.E, c.s, r == n, lab)

    def counted(name):
        def f(c, *a):
            yield "result", z3.BoolVal(True), lambda r, lab: c.ctx.require(c.E, c.s, r == z3.BV2Int(z3.Function("C." + name, *([x.sort() for x in a] + [z3.BitVecSort(32)]))(*a), True), lab)
        return f

    S, I = "string", "int"
    return {
        **{CSTRING + n.upper(): (n, I, [S, S], {}, counted(n)) for n in ("strcmp", "strcoll", "strcspn", "strspn")},
        CSTRING + "STRNCMP": ("strncmp", I, [S, S, I], {}, counted("strncmp")),
        STRINGS + "SubStr": ("substr", S, [S, I, I], {2: -1}, substr),
        STRINGS + "StrPos": ("strpos", S, [S, I], {}, strpos),
        STRINGS + "StrFind": ("strfind", I, [S, S, I], {2: 0}, strfind),
        STRINGS + "StrLPad": ("strlpad", S, [S, I, S], {}, pad(True)),
        STRINGS + "StrRPad": ("strrpad", S, [S, I, S], {}, pad(False)),
        STRINGS + "StrLTrim": ("strltrim", S, [S], {}, trim(True, False)),
        STRINGS + "StrRTrim": ("strrtrim", S, [S], {}, trim(False, True)),
        STRINGS + "StrTrim": ("strtrim", S, [S], {}, trim(True, True)),
        STRINGS + "ToLower": ("toLower", S, [S], {}, case(lower)),
        STRINGS + "ToUpper": ("toUpper", S, [S], {}, case(upper)),
        CSTRING + "STRCAT": ("strcat", S, [S, S], {}, strcat),
        CSTRING + "STRNCAT": ("strncat", S, [S, S, I], {}, strcat),
        CSTRING + "STRLEN": ("strlen", I, [S], {}, strlen),
    }


def wide(k):
    """a number as the 64 bit value the code works with"""
    return IV(z3.If(k < 0, k + (1 << 64), k), 64, 0, (1 << 64) - 1)


def libc(E, C):
    """the C library's functions on texts: functions of the texts they are given"""
    def number(x):
        x = z3.simplify(to_iv(x).signed())
        return next((k for k in C.whole.values() if z3.simplify(wide(k).signed()).eq(x)), x)

    def on(name):
        def f(E, st, a, ins):
            v = [E.cstr(st, a[0]), E.cstr(st, a[1])] + [number(x) for x in a[2:]]
            r = z3.Function("C." + name, *([x.sort() for x in v] + [z3.BitVecSort(32)]))(*v)
            return [(st, ("ret", r if resolve(ins.t).w == 32 else z3.SignExt(32, r)))]
        E.contracts[name] = f
    for n in ("strcmp", "strcoll", "strcspn", "strspn", "strncmp"):
        on(n)


def text_units():
    us = []
    for cls, (name, T, ps, defaults, spec) in sorted(texts().items()):
        for given in range(len(ps) - len(defaults), len(ps) + 1):
            def run(ctx, cls=cls, name=name, T=T, ps=ps, defaults=defaults, spec=spec, given=given):
                C = Call(ctx, cls, ps, given, defaults, whole=True)
                E = C.E
                libc(E, C)
                lab = "%s(%s)" % (name, ", ".join(ps[:given]))
                seen = [C.whole.get(i, v) for i, v in enumerate(C.vals)]
                for s, o in C.run():
                    C.s = s
                    for what, when, then in spec(C, *seen):
                        if o[0] != "ret":
                            if then is not None:
                                ctx.require(E, s, z3.Not(when), lab + ": ends normally")
                            continue
                        if then is None:
                            ctx.require(E, s, z3.Not(when), lab + ": arguments that make no sense are refused")
                            continue
                        C.s = s.clone()
                        C.s.pc.append(when)
                        ctx.require(E, C.s, cint(o[1]) == NORMAL, lab + ": ends normally")
                        ctx.require(E, C.s, E.get_str(C.s, Ptr(C.result, C.L.qtype)) == strconst(C.L.tn[T]), lab + ": type of the result")
                        ctx.require(E, C.s, to_bv(E.load(C.s, Ptr(C.result, C.L.value + C.L.av_type), IntT(32))) == C.L.tags[TYPES[T][2]], lab + ": kind of the result")
                        if T == "string":
                            r = E.get_str(C.s, Ptr(C.result, C.L.value + C.L.av_str))
                        else:
                            r = to_iv(E.load(C.s, Ptr(C.result, C.L.value + C.L.av_val), IntT(64))).signed()
                        then(r, lab + ": " + what)
            us.append(Unit("text/%s(%s)" % (name, ",".join(ps[:given])), cls + "::execute", run))
        space, short = cls.rsplit("::", 1)
        us.append(declared(space + "::", short, name, T, ps, defaults))
    return us


def declared(space, cls, name, T, ps, defaults={}):
    """what a call of the function has to look like"""
    def run(ctx):
        P, L = ctx.P, lay(ctx.P)
        E = ctx.engine()
        setup(E)
        st = State(E)
        S = Lists(E)
        m = E.sym_region(st, "function", size=P.class_size(space + cls))
        lab = "declaration of %s(%s): " % (name, ", ".join(ps))
        for s, o in ctx.call(E, st, one(P, re.escape(space + cls + "::" + cls) + r"\(\)$"), [Ptr(m, 0)]):
            ctx.require(E, s, o[0] == "ret", lab + "ends normally")
            if o[0] != "ret":
                continue
            f = lambda n: P.field(METHOD, n)
            ctx.require(E, s, E.get_str(s, Ptr(m, P.base_offset(METHOD, "Slang::MethodSymbol") + P.base_offset("Slang::MethodSymbol", "Slang::Symbol") + P.field("Slang::Symbol", "mName"))) == strconst(name), lab + "name")
            ctx.require(E, s, E.get_str(s, Ptr(m, f("mReturnType") + P.field(TYPEDECL, "mName"))) == strconst(L.tn[T]), lab + "type of the result")
            c = s.mem[m].cells[f("mSignature")][0]
            ctx.require(E, s, c.n == len(ps), lab + "number of parameters")
            for i, p in enumerate(ps):
                ctx.require(E, s, S.at(c, S.type, z3.IntVal(i)) == strconst(L.tn[p]), lab + "type of parameter %d" % (i + 1))
                ctx.require(E, s, (S.at(c, S.default, z3.IntVal(i)) != 0) == z3.BoolVal(i in defaults), lab + "parameter %d may be left out or not" % (i + 1))
            for i, v in defaults.items():
                ctx.require(E, s, z3.And(S.at(c, S.vtype, z3.IntVal(i)) == L.tags["INT"], S.at(c, S.vbits, z3.IntVal(i)) == z3.BitVecVal(v, 64)), lab + "value of parameter %d if left out" % (i + 1))
    return Unit("declare/%s(%s)" % (name, ",".join(ps)), space + cls, run)


def provider():
    """every function of the library can be called by a program"""
    def run(ctx, owner, classes):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        for cls, name in classes:
            for sym in P.bydem.get(cls + "::" + cls.rsplit("::", 1)[1] + "()", ()):
                E.contracts[sym] = lambda E, st, a, ins, cls=cls: made(E, st, a, cls)
        l = E.sym_region(st, "methods")
        info = cinfo(E, "list", ["Slang::Extensions::ExtensionMethod*"])
        st.w(l).cells[0] = (SeqV("methods", z3.IntVal(0), kind="list", esize=info.esize, lv=info.lv), E.CSIZE["list"])
        this = E.sym_region(st, "extension")
        for s, o in ctx.call(E, st, one(P, re.escape(owner) + r"::provideMethods\(.*\)$"), [Ptr(this, 0), Ptr(l, 0)]):
            ctx.require(E, s, o[0] == "ret", "provided functions: ends normally")
            if o[0] != "ret":
                continue
            c = s.mem[l].cells[0][0]
            n = z3.simplify(c.n)
            held = {z3.simplify(z3.Select(E.field_arr(c, 0, IntS), c.lo + i)).get_id() for i in range(n.as_long())} if z3.is_int_value(n) else set()
            have = {cls for cls, rid in s.ghost.get("made", ()) if z3.simplify(E.addr(s, Ptr(rid, 0))).get_id() in held}
            for cls, name in classes:
                ctx.require(E, s, cls in have, "provided functions: " + name)

    def made(E, st, a, cls):
        st.ghost["made"] = st.ghost.get("made", ()) + ((cls, a[0].rid),)
        return [(st, ("ret", None))]
    return run


def provided_units(num, text):
    run = provider()
    us = []
    if num:
        l = [(MATH + c, "%s(%s)" % (v[0], ", ".join(v[2]))) for c, v in sorted(numeric().items())]
        us.append(Unit("provide/math", MATH + "math_t::provideMethods", lambda ctx, l=l: run(ctx, MATH + "math_t", l)))
    if text:
        for space, owner in ((STRINGS, "SystemStringsExtension"), (CSTRING, "cstring_t")):
            l = [(c, "%s(%s)" % (v[0], ", ".join(v[2]))) for c, v in sorted(texts().items()) if c.startswith(space)]
            us.append(Unit("provide/" + owner, space + owner + "::provideMethods", lambda ctx, l=l, o=space + owner: run(ctx, o, l)))
    return us
