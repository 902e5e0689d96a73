"""Static types of operations: the table of declared operators."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .objects import *
from .values import one
from .calls import opaque
from .text import text_arg, room
from . import parser

TS = "Slang::TypeSystem"
TOKEN = "Slang::Token"
OP = z3.BitVecSort(32)
Bools = z3.BoolSort()
REFUSALS = ("UnknownIdentifier", "UnknownOperation", "TypeMismatch")


def level(*keys):
    """sort of a table with these keys"""
    def arr(keys, s):
        for k in reversed(keys):
            s = z3.ArraySort(k, s)
        return s
    return arr


class Table:
    """left type -> operator -> right type -> result, as sets of keys and a result per key"""
    SORTS = {"left": z3.ArraySort(Str, Bools), "op": z3.ArraySort(Str, z3.ArraySort(OP, Bools)),
             "right": z3.ArraySort(Str, z3.ArraySort(OP, z3.ArraySort(Str, Bools))), "result": z3.ArraySort(Str, z3.ArraySort(OP, z3.ArraySort(Str, Str)))}

    def __init__(self, ctx):
        self.ctx, P = ctx, ctx.P
        self.P = P
        E = self.E = ctx.engine()
        st = self.st = State(E)
        self.this = Ptr(E.sym_region(st, "types", size=P.class_size(TS)), 0)
        for k, s in self.SORTS.items():
            st.ghost[k] = z3.Const("table." + k, s)
        st.ghost["refs"] = ()
        for cls, n in (("TypeMap", 1), ("Operation", 2), ("Right", 3)):
            for fn in ("contains", "insert", "operator[]"):
                d = [d for d in P.bydem if re.match(re.escape("%s::%s::%s" % (TS, cls, fn)) + r"\(.*\)( const)?$", d)]
                if len(d) != 1:
                    raise SpecError("expected one %s of %s" % (fn, cls))
                for sym in P.bydem[d[0]]:
                    E.contracts[sym] = lambda E, st, a, ins, n=n, fn=fn: getattr(self, {"operator[]": "at"}.get(fn, fn))(E, st, n, a)
        opaque(E, [r"Slang::Common::Position::.*toString.*"])

    def keys(self, E, st, n, a):
        """keys down to the n-th level: of the part of the table a[0] refers to, and the one given"""
        if n == 1:
            if not (isinstance(a[0], Ptr) and a[0].rid == self.this.rid):
                raise Unsupported("another table")
            have = ()
        else:
            have = next((k for k, rid in st.ghost["refs"] if isinstance(a[0], Ptr) and rid == a[0].rid and len(k) == n - 1), None)
            if have is None:
                raise Unsupported("unknown part of the table")
        k = to_bv(a[1], 32) if n == 2 else E.get_str(st, a[1])
        return have + (k,)

    NAMES = ("left", "op", "right")

    def sel(self, st, name, ks):
        v = st.ghost[name]
        for k in ks:
            v = z3.Select(v, k)
        return v

    def put(self, st, name, ks, v):
        def go(a, ks):
            if not ks:
                return v
            return z3.Store(a, ks[0], go(z3.Select(a, ks[0]), ks[1:]))
        st.ghost[name] = go(st.ghost[name], ks)

    def contains(self, E, st, n, a):
        ks = self.keys(E, st, n, a)
        return [(st, ("ret", self.sel(st, self.NAMES[n - 1], ks)))]

    def insert(self, E, st, n, a):
        """a missing key is added with nothing below it; a known one stays as it is"""
        ks = self.keys(E, st, n, a)
        had = self.sel(st, self.NAMES[n - 1], ks)
        self.put(st, self.NAMES[n - 1], ks, z3.BoolVal(True))
        if n < 3:
            below = self.sel(st, self.NAMES[n], ks)
            self.put(st, self.NAMES[n], ks, z3.If(had, below, z3.K(below.sort().domain(), z3.BoolVal(False)) if n == 2 else z3.K(OP, z3.BoolVal(False))))
        else:
            self.sync(st)
            self.put(st, "result", ks, z3.If(had, self.sel(st, "result", ks), EMPTY))
            self.reload(st)
        return [(st, ("ret", None))]

    def sync(self, st):
        """what was written through references"""
        for k, rid in st.ghost["refs"]:
            if len(k) == 3:
                self.put(st, "result", k, self.E.get_str(st, Ptr(rid, 0)))

    def reload(self, st):
        for k, rid in st.ghost["refs"]:
            if len(k) == 3:
                self.E.set_str(st, Ptr(rid, 0), self.sel(st, "result", k))

    def at(self, E, st, n, a):
        ks = self.keys(E, st, n, a)
        E.oblige(st, self.sel(st, self.NAMES[n - 1], ks), "safety", "only entries that exist are used")
        for k, rid in st.ghost["refs"]:
            if len(k) == n and all(z3.simplify(x).eq(z3.simplify(y)) for x, y in zip(k, ks)):
                return [(st, ("ret", Ptr(rid, 0)))]
        if n == 3:
            self.sync(st)
            for k, rid in st.ghost["refs"]:
                if len(k) == 3:
                    raise Unsupported("two entries at once")
        rid = st.new("heap", name="part of the table")
        if n == 3:
            st.w(rid).cells[0] = (StrV(self.sel(st, "result", ks)), 32)
        st.ghost["refs"] = st.ghost["refs"] + ((ks, rid),)
        return [(st, ("ret", Ptr(rid, 0)))]

    def entry(self, st, l, o, r):
        return z3.And(self.sel(st, "left", (l,)), self.sel(st, "op", (l, o)), self.sel(st, "right", (l, o, r)))


def symbolic(ctx):
    return ctx.sym("left", Str), ctx.sym("operator", OP), ctx.sym("right", Str)


def table_units():
    def define(ctx):
        T = Table(ctx)
        E, P, st = T.E, T.P, T.st
        l, o, r = symbolic(ctx)
        res = ctx.sym("result", Str)
        old = st.clone()
        k = (z3.Const("l!other", Str), z3.Const("o!other", OP), z3.Const("r!other", Str))
        for s, out in ctx.call(E, st, one(P, re.escape(TS) + r"::define\(.*\)$"), [T.this, text_arg(E, st, l, "left"), o, text_arg(E, st, r, "right"), text_arg(E, st, res, "result")]):
            ctx.require(E, s, out[0] == "ret", "declaring an operator: ends normally")
            if out[0] != "ret":
                continue
            T.sync(s)
            had = T.entry(old, l, o, r)
            ctx.require(E, s, T.entry(s, l, o, r), "declaring an operator: it is known afterwards")
            ctx.require(E, s, T.sel(s, "result", (l, o, r)) == z3.If(had, T.sel(old, "result", (l, o, r)), res), "declaring an operator: a new one gets its result, a known one keeps it")
            other = z3.Or(k[0] != l, k[1] != o, k[2] != r)
            ctx.require(E, s, z3.Implies(other, T.entry(s, *k) == T.entry(old, *k)), "declaring an operator: no other one appears or disappears")
            ctx.require(E, s, z3.Implies(z3.And(other, T.entry(old, *k)), T.sel(s, "result", k) == T.sel(old, "result", k)), "declaring an operator: no other result changes")

    def exists(ctx):
        T = Table(ctx)
        E, P, st = T.E, T.P, T.st
        l, o, r = symbolic(ctx)
        old = st.clone()
        for s, out in ctx.call(E, st, one(P, re.escape(TS) + r"::exists\(.*\)$"), [T.this, text_arg(E, st, l, "left"), o, text_arg(E, st, r, "right")]):
            ctx.require(E, s, out[0] == "ret", "asking for an operator: ends normally")
            if out[0] != "ret":
                continue
            got = to_bv(out[1], 1) == 1 if not isinstance(out[1], z3.BoolRef) else out[1]
            ctx.require(E, s, got == z3.And(T.entry(old, l, o, r), T.sel(old, "result", (l, o, r)) != EMPTY), "asking for an operator: known exactly if declared with a result")

    def get(ctx):
        T = Table(ctx)
        E, P, st = T.E, T.P, T.st
        l, o, r = symbolic(ctx)
        tok = E.sym_region(st, "token", size=P.class_size(TOKEN))
        st.w(tok).cells[P.field(TOKEN, "mType")] = (o, 4)
        old = st.clone()
        res = room(E, st)
        for s, out in ctx.call(E, st, one(P, re.escape(TS) + r"::getType\(.*\)$"), [res, T.this, text_arg(E, st, l, "left"), Ptr(tok, 0), text_arg(E, st, r, "right")]):
            if out[0] == "ret":
                ctx.require(E, s, T.entry(old, l, o, r), "type of an operation: undeclared operations are refused")
                ctx.require(E, s, E.get_str(s, res) == T.sel(old, "result", (l, o, r)), "type of an operation: the declared one")
            else:
                ctx.require(E, s, z3.Not(T.entry(old, l, o, r)), "type of an operation: declared operations are accepted")
                ctx.require(E, s, any(out[1] == P.ti("Slang::Common::Exceptions::" + x) for x in REFUSALS), "type of an operation: refused with a message about it")
    return [Unit("define", TS + "::define", define), Unit("exists", TS + "::exists", exists), Unit("getType", TS + "::getType", get)]


def record(E, P):
    """declared operators are collected; the first of several for the same operands counts"""
    d = one(P, re.escape(TS) + r"::define\(.*\)$")

    def c(E, st, a, ins):
        o = z3.simplify(to_bv(a[2], 32))
        ks = []
        for i in (1, 3, 4):
            ks.append(E.get_str(st, a[i]))
        if not z3.is_bv_value(o):
            raise Unsupported("operator not known")
        st.ghost["declared"] = st.ghost["declared"] + ((ks[0], o.as_long(), ks[1], ks[2]),)
        return [(st, ("ret", None))]
    E.contracts[d] = c


FLOATS, INTS = ("double", "float"), ("int16", "int", "int64")
NUMBERS = FLOATS + INTS
PLAIN = ("bool",) + NUMBERS + ("string",)
OBJECT, UNARY = "Object", "__unary__"
COMPARED = ("COMPARE_EQUAL", "COMPARE_LESS", "COMPARE_LESS_EQUAL", "COMPARE_GREATER", "COMPARE_GREATER_EQUAL")
ACCEPTED = COMPARED + ("TYPECAST",)                   # whatever type is declared: comparing gives bool, a cast the type it names
TYPED = ("ASSIGN", "MATH_ADDITION", "MATH_SUBTRACT", "MATH_MULTIPLY", "MATH_DIVIDE", "MATH_MODULO", "BITAND", "BITOR", "BITCOMPLEMENT",
         "OPERATOR_SHIFT_LEFT", "OPERATOR_SHIFT_RIGHT")


def joined(l, r):
    """type of arithmetic on two numbers"""
    if l in FLOATS or r in INTS and l != "int16":
        return l
    return r


def rules():
    """(left, operator, right) -> type, for the types of the language and the operators that are looked up"""
    t = {}
    for l in PLAIN:
        for r in PLAIN:
            t[l, "TYPECAST", r] = r
            if l in ("bool", "string") or (r != "string" if l != "int16" else r in INTS):
                t[l, "ASSIGN", r] = l
        t["string", "MATH_ADDITION", l] = t["string", "OPERATOR_SHIFT_LEFT", l] = "string"
    t["bool", "COMPARE_EQUAL", "bool"] = "bool"
    for o in COMPARED:
        t["string", o, "string"] = t["int16", o, "int16"] = "bool"
        for l in NUMBERS:
            for r in NUMBERS:
                if l != "int16":
                    t[l, o, r] = "bool"
    for l in NUMBERS:
        t[l, "MATH_ADDITION", UNARY] = t[l, "MATH_SUBTRACT", UNARY] = l
        for r in NUMBERS:
            for o in ("MATH_ADDITION", "MATH_SUBTRACT", "MATH_MULTIPLY", "MATH_DIVIDE"):
                t[l, o, r] = joined(l, r)
            if l in INTS and r in INTS:
                t[l, "MATH_MODULO", r] = joined(l, r)
    for l in INTS:
        for o in ("BITAND", "BITOR", "BITCOMPLEMENT"):
            t[l, o, l] = l
    t[OBJECT, "ASSIGN", OBJECT] = t[OBJECT, "TYPECAST", OBJECT] = t[OBJECT, "COMPARE_EQUAL", OBJECT] = OBJECT
    return t


def shown(o):
    return {"MATH_ADDITION": "+", "MATH_SUBTRACT": "-", "MATH_MULTIPLY": "*", "MATH_DIVIDE": "/", "MATH_MODULO": "%", "BITAND": "&", "BITOR": "|", "BITCOMPLEMENT": "~",
            "OPERATOR_SHIFT_LEFT": "<<", "OPERATOR_SHIFT_RIGHT": ">>", "ASSIGN": "=", "COMPARE_EQUAL": "==", "COMPARE_LESS": "<", "COMPARE_LESS_EQUAL": "<=",
            "COMPARE_GREATER": ">", "COMPARE_GREATER_EQUAL": ">=", "TYPECAST": "cast from"}[o]


def builtin_unit():
    """every declaration made at the start, the first one for the same operands counting"""
    def run(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        record(E, P)
        st.ghost["declared"] = ()
        ops = P.enum("Slang::Token::Type::E")
        names = {v: k for k, v in ops.items()}
        this = Ptr(E.sym_region(st, "types", size=P.class_size(TS)), 0)
        want = rules()
        for s, out in ctx.call(E, st, one(P, re.escape(TS) + r"::init\(\)$"), [this]):
            ctx.require(E, s, out[0] == "ret", "types of the language: declared at the start")
            have = {}
            for l, o, r, v in s.ghost["declared"]:
                l, r, v = [const_of(x) for x in (l, r, v)]
                if None in (l, r, v):
                    raise Unsupported("a declared type is not a constant")
                have.setdefault((l.decode(), names[o], r.decode()), v.decode())
            for l, o, r in sorted(set(have) | set(want)):
                if o not in ACCEPTED + TYPED:
                    continue
                got, exp = have.get((l, o, r)), want.get((l, o, r))
                what = "%s %s %s" % (l, shown(o), r if r != UNARY else "as a sign")
                if exp is None:
                    ctx.require(E, s, False, "%s: not an operation of the language" % what)
                else:
                    ctx.require(E, s, got is not None, "%s: declared" % what)
                    if o in TYPED and got is not None:
                        ctx.require(E, s, got == exp, "%s: has type %s" % (what, exp))
    return [Unit("types of the language", TS + "::init", run)]


REPO = "Slang::Repository"


def enumeration_unit():
    def run(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        record(E, P)
        st.ghost["declared"] = ()
        name = ctx.sym("name", Str)
        known = z3.Bool("known already")
        this = Ptr(E.sym_region(st, "repository", size=P.class_size(REPO)), 0)
        bp = Ptr(E.sym_region(st, "definition", size=P.class_size("Slang::Designtime::BluePrintObject")), 0)
        st.pc += [name != strconst(x.encode()) for x in PLAIN + (OBJECT,)]

        def typename(E, s, a, i):
            if len(a) == 2:
                E.set_str(s, a[0], name)
                return [(s, ("ret", None))]
            rid = s.new("heap", name="type name")
            s.w(rid).cells[0] = (StrV(name), 32)
            return [(s, ("ret", Ptr(rid, 0)))]
        for d in [d for d in P.bydem if re.match(r"Slang::Designtime::BluePrint(?:Object|Enum)?::QualifiedTypename\(\) const$", d)]:
            for x in P.bydem[d]:
                E.contracts[x] = typename
        bit = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

        def exists(E, s, a, i):
            E.oblige(s, z3.And(E.get_str(s, a[1]) == name, to_bv(a[2], 32) == ops["ASSIGN"], E.get_str(s, a[3]) == name), "safety", "an enumeration is declared once")
            return [(s, ("ret", bit(known)))]
        ops = P.enum("Slang::Token::Type::E")
        E.contracts[one(P, re.escape(TS) + r"::exists\(.*\)$")] = exists
        names = {v: k for k, v in ops.items()}
        for d in [d for d in P.bydem if re.search(r"::isEnumeration\(\) const$", d)]:
            for x in P.bydem[d]:
                E.contracts[x] = lambda E, s, a, i: [(s, ("ret", z3.BitVecVal(1, 1)))]
        ME = "the enumeration"
        want = {(ME, "ASSIGN", ME): ME, ("int", "ASSIGN", ME): "int", ("string", "ASSIGN", ME): "string", ("int", "TYPECAST", ME): "int", ("string", "TYPECAST", ME): "string"}
        for o in COMPARED:
            want[ME, o, ME] = want[ME, o, "int"] = want["int", o, ME] = "bool"
        for o in ("MATH_ADDITION", "MATH_DIVIDE", "MATH_MULTIPLY", "MATH_SUBTRACT"):
            want[ME, o, ME] = ME
        for s, out in ctx.call(E, st, one(P, re.escape(REPO) + r"::initTypeSystem\(.*\)$"), [this, bp]):
            ctx.require(E, s, out[0] == "ret", "types of an enumeration: declared")
            have = {}
            for l, o, r, v in s.ghost["declared"]:
                k = [const_of(x).decode() if const_of(x) is not None else ME if z3.simplify(x).eq(name) else None for x in (l, r, v)]
                if None in k:
                    raise Unsupported("a declared type is not a constant")
                have.setdefault((k[0], names[o], k[1]), k[2])
            for l, o, r in sorted(set(have) | set(want)):
                if o not in ACCEPTED + TYPED or o == "MATH_MODULO":      # which type a remainder of enumerations has is left open
                    continue
                got, exp = have.get((l, o, r)), want.get((l, o, r))
                what = "%s %s %s" % (l, shown(o), r)
                if exp is None:
                    ctx.require(E, s, False, "%s: not an operation of an enumeration" % what)
                    continue
                ctx.require(E, s, z3.Or(known, got is not None), "%s: declared" % what)
                if o in TYPED and got is not None:
                    ctx.require(E, s, got == exp, "%s: has type %s" % (what, exp))
    return [Unit("types of an enumeration", REPO + "::initTypeSystem", run)]


TG = "Slang::AST::TreeGenerator"
f_declared = z3.Function("operator_declared", Str, OP, Str, Bools)
f_type = z3.Function("operator_type", Str, OP, Str, Str)


def table(E, P):
    """getType as proved above"""
    def get(E, st, a, ins):
        ks = (E.get_str(st, a[2]), to_bv(E.load(st, E.padd(a[3], P.field(TOKEN, "mType")), ir.I32), 32), E.get_str(st, a[4]))
        out = []
        for x in REFUSALS:
            s = st.clone()
            s.pc.append(z3.Not(f_declared(*ks)))
            out += E.throw(s, P.ti("Slang::Common::Exceptions::" + x))
        st.pc.append(f_declared(*ks))
        E.set_str(st, a[0], f_type(*ks))
        return out + [(st, ("ret", None))]
    E.contracts[one(P, re.escape(TS) + r"::getType\(.*\)$")] = get


def resolve_units():
    def named(ctx):
        W = parser.Parser(ctx)
        E, P, st = W.E, W.P, W.st
        l, o, r = symbolic(ctx)
        fn = one(P, re.escape(TG) + r"::resolveType\(.*, std::string const&, .*\) const$")
        E.contracts.pop(fn, None)
        table(E, P)
        W.statements()
        tok = E.sym_region(st, "operator", size=P.class_size(TOKEN))
        st.w(tok).cells[P.field(TOKEN, "mType")] = (o, 4)
        res = room(E, st)
        for s, out in ctx.call(E, st, fn, [res, W.this, W.cell, text_arg(E, st, l, "left"), Ptr(tok, 0), text_arg(E, st, r, "right")], own=False):
            if out[0] == "ret":
                ctx.require(E, s, f_declared(l, o, r), "operation: undeclared ones are refused")
                ctx.require(E, s, E.get_str(s, res) == f_type(l, o, r), "operation: has the declared type")
            else:
                ctx.require(E, s, z3.Not(f_declared(l, o, r)), "operation: declared ones are accepted")

    def nodes(ctx):
        W = parser.Parser(ctx)
        E, P, st = W.E, W.P, W.st
        fn = one(P, re.escape(TG) + r"::resolveType\(.*Slang::AST::Node\*.*\) const$")
        E.contracts.pop(fn, None)
        W.statements()
        o = ctx.sym("operator", OP)
        tok = E.sym_region(st, "operator", size=P.class_size(TOKEN))
        st.w(tok).cells[P.field(TOKEN, "mType")] = (o, 4)
        res = room(E, st)
        l, r = z3.Int("left"), z3.Int("right")
        st.pc += [l > 0, r > 0]
        cons = z3.Function("type_with_constraints", Str, IntS, Str)
        tname = z3.Function("is_type_name", IntS, Bools)

        def built(E, s, a, i):
            E.set_str(s, a[0], cons(E.get_str(s, a[1]), E.addr(s, a[2])))
            return [(s, ("ret", None))]
        for d in [d for d in P.bydem if re.match(r"Slang::Designtime::Parser::buildRuntimeConstraintTypename\(", d)]:
            for x in P.bydem[d]:
                E.contracts[x] = built
        inner = E.contracts["__dynamic_cast"]
        DSE = parser.AST + "DesigntimeSymbolExpression"

        def cast(E, s, a, i):
            if s.mem[a[2].rid].name != P.ti(DSE):
                return inner(E, s, a, i)
            out = []
            for c, v in ((tname(E.addr(s, a[0])), a[0]), (z3.Not(tname(E.addr(s, a[0]))), NULL)):
                s2 = s.clone()
                s2.pc.append(c)
                if E.feasible(s2):
                    out.append((s2, ("ret", v)))
            return out
        E.contracts["__dynamic_cast"] = cast

        def own(n):
            t = parser.f_rtype(parser.f_tree(n))
            return z3.If(tname(n), cons(t, n + P.field(DSE, "mConstraints")), t)
        for s, out in ctx.call(E, st, fn, [res, W.this, W.cell, SPtr(l), Ptr(tok, 0), SPtr(r)], own=False):
            if out[0] != "ret":
                ctx.require(E, s, W.refused(s), "operation: refused only if not declared")
                continue
            ctx.require(E, s, E.get_str(s, res) == parser.f_untype(own(l), o, own(r)), "operation: has the type declared for the types of its operands")
            ctx.require(E, s, parser.f_unchecked(own(l), o, own(r)), "operation: looked up for the types of its operands")
    return [Unit("type of an operation", TG + "::resolveType", named), Unit("types of operands", TG + "::resolveType", nodes)]


PARTS = (("Right", "std::string", "std::string"), ("Operation", "Slang::Token::Type::E", TS + "::Right"), ("TypeMap", "std::string", TS + "::Operation"))


def part_units():
    """one level of the table"""
    us = []
    for cls, kt, vt in PARTS:
        def setup(ctx, cls=cls, kt=kt, vt=vt):
            P, E = ctx.P, ctx.engine()
            st = State(E)
            i = cinfo(E, "map", [kt, vt])
            if len(i.lv) != 1:
                raise SpecError("parts of an entry of %s" % cls)
            this = Ptr(E.sym_region(st, "part", size=P.class_size(TS + "::" + cls)), 0)
            c = E.container(st, this, "map", i)
            k = ctx.sym("key", i.ks)
            arg = text_arg(E, st, k, "key") if kt == "std::string" else k
            off, kind = i.lv[0]
            value = lambda c, k: z3.Select(E.field_arr(c, off, Str if kind == "str" else AnyS), k)
            fn = lambda f: one(P, re.escape("%s::%s::%s" % (TS, cls, f)) + r"\(.*\)( const)?$")
            return E, P, st, i, this, c, k, arg, value, fn

        def contains(ctx, setup=setup):
            E, P, st, i, this, c, k, arg, value, fn = setup(ctx)
            for s, o in ctx.call(E, st, fn("contains"), [this, arg]):
                ctx.require(E, s, o[0] == "ret" and flag(o[1]) == z3.Select(c.dom, k), "contains: exactly the keys added")

        def insert(ctx, setup=setup, cls=cls):
            E, P, st, i, this, c, k, arg, value, fn = setup(ctx)
            other = z3.Const("other key", i.ks)
            for s, o in ctx.call(E, st, fn("insert"), [this, arg]):
                ctx.require(E, s, o[0] == "ret", "insert: ends normally")
                d = E.container(s, this, "map", i)
                ctx.require(E, s, z3.Select(d.dom, k), "insert: the key is there afterwards")
                ctx.require(E, s, z3.Implies(other != k, z3.Select(d.dom, other) == z3.Select(c.dom, other)), "insert: other keys stay or stay away")
                ctx.require(E, s, z3.Implies(z3.Or(other != k, z3.Select(c.dom, k)), value(d, other) == value(c, other)), "insert: what is there is not changed")
                if cls == "Right":
                    ctx.require(E, s, z3.Or(z3.Select(c.dom, k), value(d, k) == EMPTY), "insert: a new key starts with nothing")
                else:
                    v = E.packs.get(z3.simplify(value(d, k)).get_id())
                    below = v and z3.Not(z3.Select(v[1].dom, z3.Const("key below", v[1].ks)))
                    ctx.require(E, s, z3.Or(z3.Select(c.dom, k), below if v else False), "insert: a new key starts with nothing")

        def at(ctx, setup=setup):
            E, P, st, i, this, c, k, arg, value, fn = setup(ctx)
            st.pc.append(z3.Select(c.dom, k))
            for s, o in ctx.call(E, st, fn("operator[]"), [this, arg]):
                ok = o[0] == "ret" and isinstance(o[1], EPtr) and o[1].rid == this.rid and o[1].off == i.voff
                ctx.require(E, s, ok, "entry: one of this part")
                if ok:
                    ctx.require(E, s, o[1].idx == k, "entry: the one with the key")
                ctx.require(E, s, E.container(s, this, "map", i) is c, "entry: looking changes nothing")
        for f, run in (("contains", contains), ("insert", insert), ("operator[]", at)):
            us.append(Unit("%s %s" % (cls, f), "%s::%s::%s" % (TS, cls, f), run))
    return us


def flag(v):
    return v if isinstance(v, z3.BoolRef) else z3.Extract(0, 0, v) == 1 if isinstance(v, z3.BitVecRef) else to_bv(v, 1) == 1


METHOD, BP = "Slang::Common::Method", "Slang::Designtime::BluePrintObject"
SIGNS = {"operator=": ("ASSIGN",), "operator&": ("BITAND",), "operator|": ("BITOR",), "operator~": ("BITCOMPLEMENT",), "operator==": ("COMPARE_EQUAL",), "operator<": ("COMPARE_LESS",),
         "operator<=": ("COMPARE_LESS_EQUAL",), "operator>": ("COMPARE_GREATER",), "operator>=": ("COMPARE_GREATER_EQUAL",), "operator+": ("MATH_ADDITION",),
         "operator/": ("MATH_DIVIDE",), "operator%": ("MATH_MODULO",), "operator*": ("MATH_MULTIPLY",), "operator-": ("MATH_SUBTRACT",),
         "operator<<": ("OPERATOR_SHIFT_LEFT",), "operator>>": ("OPERATOR_SHIFT_RIGHT",)}
m_name, m_type, m_param = z3.Function("method_name", IntS, Str), z3.Function("method_type", IntS, Str), z3.Function("first_parameter", IntS, Str)
m_count = z3.Function("parameters", IntS, IntS)
a_name = z3.Function("ancestor_name", IntS, Str)


def object_unit():
    """an object type: followed for one left type, operator and right type"""
    def run(ctx):
        P = ctx.P
        E = ctx.engine()
        E.light, E.peel_max = True, 0
        st = State(E)
        ops = P.enum("Slang::Token::Type::E")
        T, known = ctx.sym("name", Str), z3.Bool("known already")
        c = lambda x: strconst(x.encode())
        l, o, r = symbolic(ctx)
        has0, val0 = z3.Bool("declared before"), z3.Const("type before", Str)
        st.ghost["has"], st.ghost["val"] = has0, val0
        st.pc += [T != c(x) for x in PLAIN + (OBJECT,)]
        st.pc.append(z3.Or(*[o == ops[x] for x in ACCEPTED + TYPED]))
        bit = lambda v: z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        on = lambda rx, f: on_all(E, P, rx, f)

        def define(E, s, a, i):
            hit = z3.And(E.get_str(s, a[1]) == l, to_bv(a[2], 32) == o, E.get_str(s, a[3]) == r)
            s.ghost["has"], s.ghost["val"] = z3.Or(s.ghost["has"], hit), z3.If(z3.And(hit, z3.Not(s.ghost["has"])), E.get_str(s, a[4]), s.ghost["val"])
            return [(s, ("ret", None))]

        def exists(E, s, a, i):
            E.oblige(s, z3.And(E.get_str(s, a[1]) == T, to_bv(a[2], 32) == ops["ASSIGN"], E.get_str(s, a[3]) == T), "safety", "a type is declared once")
            return [(s, ("ret", bit(known)))]
        on(re.escape(TS) + r"::define\(.*\)", define)
        on(re.escape(TS) + r"::exists\(.*\)", exists)

        def text(f):
            def fn(E, s, a, i):
                if len(a) == 2:
                    E.set_str(s, a[0], f(s, a[1]))
                    return [(s, ("ret", None))]
                rid = s.new("heap", name="text")
                s.w(rid).cells[0] = (StrV(f(s, a[0])), 32)
                return [(s, ("ret", Ptr(rid, 0)))]
            return fn
        on(re.escape(BP) + r"::QualifiedTypename\(\) const", text(lambda s, p: T))
        on(r"Slang::Designtime::.*::isEnumeration\(\) const", lambda E, s, a, i: [(s, ("ret", z3.BitVecVal(0, 1)))])

        # methods
        n = z3.Int("methods")
        st.pc += [n >= 0, n < 1 << 31]
        mi = cinfo(E, "set", [METHOD + "*"])
        methods = MapV("methods", n, z3.Const("methods.dom", z3.ArraySort(mi.ks, Bools)), kind="set", ks=mi.ks, lv=mi.lv, kl=mi.kl)
        meth = lambda i: z3.Select(methods.enum, i)

        def collected(E, s, a, i):
            E.set_container(s, a[0], methods)
            return [(s, ("ret", None))]
        on(re.escape(BP) + r"::provideMethods\(\) const", collected)
        so = P.base_offset(METHOD, "Slang::Symbol")
        on(r"Slang::Symbol::getName\(\) const", text(lambda s, p: m_name(E.addr(s, p) - so)))
        LP = r"std::(?:__cxx11::)?list<Slang::Parameter, .*>::"
        owner = lambda s, p: E.addr(s, E.load(s, p, ir.PTR))

        def signature(E, s, a, i):
            if len(a) == 2:
                E.store(s, a[0], SPtr(E.addr(s, a[1])), ir.PTR)
                return [(s, ("ret", None))]
            rid = s.new("heap", name="parameters")
            s.w(rid).cells[0] = (SPtr(E.addr(s, a[0])), 8)
            return [(s, ("ret", Ptr(rid, 0)))]

        def copied(E, s, a, i):
            E.store(s, a[0], E.load(s, a[1], ir.PTR), ir.PTR)
            return [(s, ("ret", None))]
        on(re.escape(METHOD) + r"::provideSignature\(\) const", signature)
        on(LP + r"list\(std::.*\)", copied)
        on(LP + r"~list\(\)", lambda E, s, a, i: [(s, ("ret", None))])

        def count(E, s, a, i):
            k = m_count(owner(s, a[0]))
            s.pc += [k >= 0, k < 1 << 31]
            return [(s, ("ret", IV(k, 64, 0, 1 << 31)))]
        on(LP + r"size\(\) const", count)
        on(LP + r"empty\(\) const", lambda E, s, a, i: [(s, ("ret", bit(m_count(owner(s, a[0])) == 0)))])

        def front(E, s, a, i):
            E.oblige(s, m_count(owner(s, a[0])) > 0, "safety", "there is a parameter")
            rid = s.new("heap", name="parameter")
            s.w(rid).cells[0] = (SPtr(owner(s, a[0])), 8)
            return [(s, ("ret", Ptr(rid, 0)))]
        on(LP + r"front\(\)(?: const)?", front)
        on(r"Slang::Parameter::type\(\) const", text(lambda s, p: m_param(owner(s, p))))

        # ancestors
        an = z3.Int("ancestors")
        st.pc += [an >= 0, an < 1 << 31]
        ai = cinfo(E, "set", ["Slang::Designtime::Ancestor"])
        ancestors = MapV("ancestors", an, z3.Const("ancestors.dom", z3.ArraySort(ai.ks, Bools)), kind="set", ks=ai.ks, lv=ai.lv, kl=ai.kl)
        an_name = z3.Function("ancestor name", ai.ks, Str)

        def inherited(E, s, a, i):
            E.set_container(s, a[0], ancestors)
            return [(s, ("ret", None))]
        on(re.escape(BP) + r"::getInheritance\(\) const", inherited)

        def ancestor(s, p):
            if not isinstance(p, EPtr):
                raise Unsupported("ancestor at %r" % (p,))
            return an_name(p.idx)
        on(r"Slang::Designtime::Ancestor::name\(\) const", text(ancestor))

        def hook(E, s, sc, slot, args, ins, depth, fr, impls):
            d = {re.sub(r".*::(~?\w+)\(.*", r"\1", P.dem.get(x, "")) for x in impls}
            if d == {"QualifiedTypename"}:
                isbp = isinstance(args[-1], Ptr) and args[-1].rid == bp.rid
                return text(lambda s, p: T if isbp else m_type(E.addr(s, p)))(E, s, args, ins)
            return None
        E.virtual_hook = hook
        this = Ptr(E.sym_region(st, "repository", size=P.class_size(REPO)), 0)
        bp = Ptr(E.sym_region(st, "definition", size=P.class_size(BP)), 0)

        key = lambda L, op, R: z3.And(l == L, o == ops[op], r == R)

        def step(had, had_v, hits):
            """first of several declarations counts"""
            h, v = had, had_v
            for hit, res in hits:
                h, v = z3.Or(h, hit), z3.If(z3.And(hit, z3.Not(h)), res, v)
            return h, v

        def by_method(x):
            nm, one_ = m_name(x), m_count(x) == 1
            hits = []
            for k, os in SIGNS.items():
                for op in os:
                    hits.append((z3.And(nm == c(k), one_, key(T, op, m_param(x))), m_type(x) if op.startswith("COMPARE") else T))
            for op in ("ASSIGN", "TYPECAST"):
                hits.append((z3.And(nm == c("=operator"), one_, key(m_type(x), op, T)), m_type(x)))
            return hits
        H, V = z3.Function("declared by methods", IntS, Bools), z3.Function("type by methods", IntS, Str)
        A, B = z3.Function("declared by ancestors", IntS, Bools), z3.Function("type by ancestors", IntS, Str)

        def steps(i, H, V, hits):
            h, v = step(H(i), V(i), hits)
            return z3.And(H(i + 1) == h, V(i + 1) == v)

        def inherit(i):
            x = an_name(z3.Select(ancestors.enum, i))
            return [(key(x, op, T), x) for op in ("ASSIGN", "TYPECAST")]
        st.pc += [H(0) == has0, V(0) == val0]
        default = [(key(T, "COMPARE_EQUAL", c(OBJECT)), c("bool")), (key(c(OBJECT), "COMPARE_EQUAL", T), c("bool")), (key(T, "ASSIGN", T), T), (key(T, "TYPECAST", T), T),
                   (key(T, "COMPARE_EQUAL", T), c("bool"))]
        h, v = step(H(n), V(n), default)
        st.pc += [A(0) == h, B(0) == v]
        typed = z3.Or(*[o == ops[x] for x in TYPED])
        same = lambda s, h, v: z3.And(s.ghost["has"] == h, z3.Implies(z3.And(h, typed), s.ghost["val"] == v))

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            for k in hv:
                it = getv(k) if k[0] != "ghost" else None
                if not isinstance(it, It) or it.pos is None:
                    continue
                p = it.pos
                m = E.container(cur, Ptr(it.rid, it.coff))
                for base, hh, vv, hits, num in (("methods", H, V, lambda p: by_method(meth(p)), n), ("ancestors", A, B, inherit, an)):
                    if getattr(m, "base", None) != base:
                        continue
                    if base == "methods":
                        cur.pc.append(meth(p) > 0)
                    d = steps(p, hh, vv, hits(p))
                    cur.pc.append(d)
                    out.append(("place %s" % (k,), z3.And(p >= 0, p <= num)))
                    out.append(("table %s" % (k,), same(cur, hh(p), vv(p))))
            return out
        E.cand_hooks.append(cand)
        ctx.cover(E, st.clone(), "an operator", z3.And(n > 0, m_name(meth(z3.IntVal(0))) == c("operator+"), z3.Not(known)))
        for s, out in ctx.call(E, st, one(P, re.escape(REPO) + r"::initTypeSystem\(.*\)$"), [this, bp]):
            ctx.require(E, s, out[0] == "ret", "types of an object: declared")
            if out[0] != "ret":
                continue
            ctx.require(E, s, z3.If(known, same(s, has0, val0), s.ghost["has"] == A(an)), "types of an object: exactly its operators, comparison and assignment to its own type and its ancestors")
            ctx.require(E, s, z3.Or(known, same(s, A(an), B(an))), "types of an object: an operation has the type its declaration says")
    return [Unit("types of an object", REPO + "::initTypeSystem", run)]


def on_all(E, P, rx, fn):
    ss = [x for d, ns in P.bydem.items() if re.fullmatch(rx, d) for x in ns]
    if not ss:
        raise SpecError("no function matching %s" % rx)
    for x in ss:
        E.contracts[x] = fn
