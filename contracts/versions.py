"""Version numbers: order, equality, reading and printing."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import f_dec, dec
from engine.verify import Unit, SpecError
from .values import one
from .text import text_arg, room

VER = "SemanticVersionNumber"
NUMS = ("mMajor", "mMinor", "mBugfix")
TEXTS = ("mLabel", "mBuildMetadata")
f_scan = z3.Function("scan.long", Str, z3.BitVecSort(64))
f_free = z3.Function("str.lacks", Str, IntS, z3.BoolSort())
f_before = z3.Function("before_first", Str, IntS, Str)
f_after = z3.Function("after_first", Str, IntS, Str)


def version(ctx, E, st, name):
    P = E.P
    rid = E.sym_region(st, name, size=P.class_size(VER))
    v = {}
    for k in NUMS:
        v[k] = ctx.sym(name + "." + k[1:].lower(), z3.BitVecSort(32))
        st.w(rid).cells[P.field(VER, k)] = (v[k], 4)
    for k in TEXTS:
        v[k] = ctx.sym(name + "." + k[1:].lower(), Str)
        st.w(rid).cells[P.field(VER, k)] = (StrV(v[k]), 32)
    return rid, v


def read_version(E, s, rid):
    P = E.P
    v = {k: to_bv(E.load(s, Ptr(rid, P.field(VER, k)), ir.I32), 32) for k in NUMS}
    v.update({k: E.get_str(s, Ptr(rid, P.field(VER, k))) for k in TEXTS})
    return v


def same(a, b):
    return z3.And(*[a[k] == b[k] for k in NUMS + TEXTS])


def before(a, b):
    """order of versions: by number, a labelled version before the plain one, then by label and build metadata"""
    r = f_lt(a["mBuildMetadata"], b["mBuildMetadata"])
    la, lb = a["mLabel"], b["mLabel"]
    r = z3.If(la == lb, r, z3.If(la == EMPTY, z3.BoolVal(False), z3.If(lb == EMPTY, z3.BoolVal(True), f_lt(la, lb))))
    for k in reversed(NUMS):
        r = z3.If(a[k] == b[k], r, a[k] < b[k])
    return r


def order_units():
    us = []
    spec = {"==": same, "!=": lambda a, b: z3.Not(same(a, b)), "<": before}
    for op in spec:
        def run(ctx, op=op):
            E = ctx.engine()
            st = State(E)
            a, va = version(ctx, E, st, "left")
            b, vb = version(ctx, E, st, "right")
            ctx.cover(E, st.clone(), "same numbers", z3.And(*[va[k] == vb[k] for k in NUMS]))
            for s, o in ctx.call(E, st, one(ctx.P, VER + "::operator" + op + r"\(" + VER + " const&\\) const$"), [Ptr(a, 0), Ptr(b, 0)]):
                ctx.require(E, s, o[0] == "ret", "version %s: ends normally" % op)
                if o[0] == "ret":
                    ctx.require(E, s, (to_bv(o[1], 1) == 1) == spec[op](va, vb), "version %s: result" % op)
                ctx.require(E, s, z3.And(same(va, read_version(E, s, a)), same(vb, read_version(E, s, b))), "version %s: operands stay as they are" % op)
        us.append(Unit("version " + op, VER + "::operator" + op, run))

        def text(ctx, op=op):
            """comparison with a text means comparison with the version read from it"""
            P = ctx.P
            E = ctx.engine()
            st = State(E)
            a, va = version(ctx, E, st, "left")
            t = ctx.sym("text", Str)
            reading(E)
            for s, o in ctx.call(E, st, one(P, VER + "::operator" + op + r"\(std::string const&\) const$"), [Ptr(a, 0), text_arg(E, st, t, "text")]):
                ctx.require(E, s, o[0] == "ret", "version %s text: ends normally" % op)
                if o[0] == "ret":
                    ctx.require(E, s, (to_bv(o[1], 1) == 1) == spec[op](va, read_of(t)), "version %s text: compares with the version the text stands for" % op)
        us.append(Unit("version %s text" % op, VER + "::operator" + op, text))

    # laws of the order, from the specification the functions are proved to meet
    def laws(ctx):
        E = ctx.engine()
        st = State(E)
        a, b, c = (version(ctx, E, st, n)[1] for n in ("a", "b", "c"))
        one_of = z3.PbEq([(before(a, b), 1), (before(b, a), 1), (same(a, b), 1)], 1)
        ctx.require(E, st, one_of, "order: exactly one of less, equal and greater holds")
        ctx.require(E, st, z3.Implies(z3.And(before(a, b), before(b, c)), before(a, c)), "order: transitive")
    us.append(Unit("version order laws", VER + "::operator<", laws))
    return us


def lacks(E, s, t, sep):
    """t contains no sep (as far as it is known)"""
    b = const_of(t)
    if b is not None:
        return z3.BoolVal(sep not in b)
    if t.decl().eq(f_cat):
        return z3.And(lacks(E, s, t.arg(0), sep), lacks(E, s, t.arg(1), sep))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), lacks(E, s, t.arg(1), sep), lacks(E, s, t.arg(2), sep))
    if t.decl().eq(f_dec):
        # decimal digits with a leading minus sign for negative numbers
        return z3.BoolVal(True) if sep != ord("-") else t.arg(0) >= 0
    return f_free(t, z3.IntVal(sep))


def flatten(t):
    if z3.is_app(t) and t.decl().eq(f_cat):
        return flatten(t.arg(0)) + flatten(t.arg(1))
    return [t]


def join(E, ts):
    r = EMPTY
    for t in reversed(ts):
        r = E.scat(t, r)
    return r


def divided(E, st, a, ins):
    """contract of splitting at the first separator (proved by its own unit), with the parts of a text put together from known pieces"""
    s, sep = E.get_str(st, a[0]), cint(a[1])
    if sep is None:
        raise SpecError("separator")
    p, c = f_before(s, z3.IntVal(sep)), f_after(s, z3.IntVal(sep))
    P0, C0 = p, c
    none = lacks(E, st, s, sep)
    st.pc.append(z3.Implies(none, z3.And(p == s, c == EMPTY)))
    if E.entails(st, none):
        P0, C0 = s, EMPTY
    pieces, head = flatten(s), []
    for i, x in enumerate(pieces):
        b = const_of(x)
        if b is not None and sep in b:
            k = b.index(sep)
            before_, after = join(E, head + [strconst(b[:k])]), join(E, [strconst(b[k + 1:])] + pieces[i + 1:])
            first = z3.And(*[lacks(E, st, y, sep) for y in head])
            st.pc.append(z3.Implies(first, z3.And(p == before_, c == after)))
            if E.entails(st, first):
                P0, C0 = before_, after
            break
        head.append(x)
    E.set_str(st, a[2], P0)
    E.set_str(st, a[3], C0)
    return [(st, ("ret", None))]


def parts(t):
    """major, minor, fix number, label and build metadata of a version text"""
    dot, plus, minus = (z3.IntVal(ord(c)) for c in ".+-")
    major, r = f_before(t, dot), f_after(t, dot)
    minor, r = f_before(r, dot), f_after(r, dot)
    x, meta = f_before(r, plus), f_after(r, plus)
    num = lambda s: z3.Extract(31, 0, z3.If(s == EMPTY, z3.BitVecVal(0, 64), f_scan(s)))
    return dict(mMajor=num(major), mMinor=num(minor), mBugfix=num(f_before(x, minus)), mLabel=f_after(x, minus), mBuildMetadata=meta)


def read_of(t):
    """version a text stands for; the empty text stands for 0.0.0"""
    p = parts(t)
    z = dict({k: z3.BitVecVal(0, 32) for k in NUMS}, **{k: EMPTY for k in TEXTS})
    return {k: z3.If(t == EMPTY, z[k], p[k]) for k in p}


def reading(E):
    P = E.P
    E.contracts[one(P, r"Utils::Tools::splitBy\(.*\)$")] = divided


def read_units():
    def parse(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        reading(E)
        t = ctx.sym("text", Str)
        a, va = version(ctx, E, st, "version")
        ctx.cover(E, st.clone(), "precondition", t != EMPTY)
        for s, o in ctx.call(E, st, one(P, VER + r"::operator=\(std::string const&\)$"), [Ptr(a, 0), text_arg(E, st, t, "text")]):
            ctx.require(E, s, o[0] == "ret", "reading a version: ends normally")
            v, w = read_version(E, s, a), parts(t)
            for k in NUMS + TEXTS:
                ctx.require(E, s, z3.Implies(t != EMPTY, v[k] == w[k]), "reading a version: " + k[1:].lower())
            valid = to_bv(E.load(s, Ptr(a, P.field(VER, "mIsValid")), ir.I8), 8) != 0
            some = z3.Or(*([w[k] != 0 for k in NUMS] + [w[k] != EMPTY for k in TEXTS]))
            ctx.require(E, s, valid == z3.And(t != EMPTY, some), "reading a version: valid unless nothing was given")

    def roundtrip(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        a, va = version(ctx, E, st, "version")
        reading(E)
        for k in NUMS:
            st.pc.append(va[k] >= 0)
            d = dec(va[k])
            # the library reads a printed number back
            st.pc.append(z3.And(f_scan(d) == z3.SignExt(32, va[k]), d != EMPTY))
        st.pc.append(f_free(va["mLabel"], z3.IntVal(ord("+"))))
        res = room(E, st)
        ctx.cover(E, st.clone(), "with label", va["mLabel"] != EMPTY)
        for s, o in ctx.call(E, st, one(P, VER + r"::toString\(\) const$"), [res, Ptr(a, 0)]):
            ctx.require(E, s, o[0] == "ret", "printing a version: ends normally")
            if o[0] != "ret":
                continue
            b, vb = version(ctx, E, s, "again")
            for s2, o2 in ctx.call(E, s, one(P, VER + r"::operator=\(std::string const&\)$"), [Ptr(b, 0), res]):
                ctx.require(E, s2, o2[0] == "ret", "reading a printed version: ends normally")
                v = read_version(E, s2, b)
                for k in NUMS + TEXTS:
                    ctx.require(E, s2, v[k] == va[k], "reading a printed version: same " + k[1:].lower())

    def make(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        a = E.sym_region(st, "version")
        v = {k: ctx.sym(k, z3.BitVecSort(32)) for k in NUMS}
        v.update({k: ctx.sym(k, Str) for k in TEXTS})
        args = [Ptr(a, 0)] + [v[k] for k in NUMS] + [text_arg(E, st, v[k], k) for k in TEXTS]
        for s, o in ctx.call(E, st, one(P, VER + "::" + VER + r"\(int, int, int, .*\)$"), args):
            ctx.require(E, s, o[0] == "ret", "making a version: ends normally")
            ctx.require(E, s, same(read_version(E, s, a), v), "making a version: consists of the given parts")
    return [Unit("version parse", VER + "::parse", parse), Unit("version print and read", VER + "::toString", roundtrip), Unit("version from parts", VER + "::" + VER, make)]


def version_units():
    return order_units() + read_units()
