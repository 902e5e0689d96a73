"""Conversion of atomic values: stored values, casts, assignments, and the operators of texts."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import f_dec, dec, f_fixed
from engine.verify import Unit, SpecError
from .objects import *
from .ops import conv, find_op, obj_frame, compare, as_bool, fsort, width, CMP, SYMS, RUNTIME_EXC
from .values import one, text_truth, no_memory, f_s2b
from .text import text_arg, room

f_show = z3.Function("text_of_real", F64, Str)
f_scan = {"double": z3.Function("scan.double", Str, F64), "float": z3.Function("scan.float", Str, F32),
          "int64": z3.Function("scan.long", Str, z3.BitVecSort(64))}
ALL = ("bool", "double", "float", "int16", "int", "int64", "enum", "string")
TARGETS = ("bool", "double", "float", "int16", "int", "int64", "string")


def shown(E, st, a, ins, T):
    """contract of the text form of a real number, proved by shown_units"""
    t = ir.DOUBLE if T == "double" else ir.FLOAT
    v = E.load(st, a[1], t)
    E.set_str(st, a[0], f_show(widen(v)))
    return [(st, ("ret", None))]


def widen(v):
    return v if v.sort() == F64 else z3.fpFPToFP(z3.RNE(), v, F64)


def setup(E):
    text_truth(E)
    no_memory(E)
    for T in FLOATS:
        E.contracts[one(E.P, r"(std::string |std::__cxx11::basic_string<.*> )?Utils::Tools::toString<%s>\(.*\)$" % T)] = \
            lambda E, st, a, ins, T=T: shown(E, st, a, ins, T)


def text_of(U, v):
    if U == "string":
        return v
    if U == "bool":
        return z3.If(v, strconst("1"), strconst("0"))
    if U in FLOATS:
        return f_show(widen(v))
    return dec(v)


def number_of(v, T):
    """a text read as a number"""
    if T == "bool":
        return f_s2b(v)
    if T in FLOATS:
        return z3.If(v == EMPTY, z3.FPVal(0.0, fsort(T)), f_scan[T](v))
    x = z3.If(v == EMPTY, z3.BitVecVal(0, 64), f_scan["int64"](v))
    w = width(T)
    return x if w == 64 else z3.Extract(w - 1, 0, x)


def value_as(U, v, T):
    """language rule: value v of type U as a T"""
    if T == "string":
        return text_of(U, v)
    if U == "string":
        return number_of(v, T)
    return conv(U, v, T)


def same(T, x, y):
    return x == y


def stored(E, ctx, st, T, v, name):
    """an AtomicValue holding v of type T"""
    L = lay(E.P)
    rid = E.sym_region(st, fresh_name(name), cls=[E.P.ti(AV)] if False else None, size=L.av_size)
    put_value(E, st, rid, 0, T, v, L)
    return rid


READERS = {"toBool": "bool", "toDouble": "double", "toFloat": "float", "toInt": "int64", "toStdString": "string"}


def stored_units():
    """reading a stored value as another type"""
    us = []
    for fn, T in READERS.items():
        def run(ctx, fn=fn, T=T):
            P, L = ctx.P, lay(ctx.P)
            sym = one(P, re.escape(AV) + r"::%s\(\) const$" % fn)
            for U in ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                v = fresh_of(ctx, U, "v_" + U)
                rid = stored(E, ctx, st, U, v, "value")
                ctx.cover(E, st.clone(), "precondition " + U)
                lab = "stored %s read as %s: " % (U, T)
                args = [Ptr(rid, 0)]
                if T == "string":
                    res = room(E, st)
                    args = [res] + args
                for s, o in ctx.call(E, st, sym, args):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] != "ret":
                        continue
                    want = value_as(U, v, T)
                    got = E.get_str(s, res) if T == "string" else as_bool(o[1]) if T == "bool" else to_bv(o[1], 64) if T == "int64" else o[1]
                    ctx.require(E, s, got == want, lab + "value")
                    ctx.require(E, s, holds_value(E, s, rid, U, v, L, 0), lab + "the stored value stays as it is")
        us.append(Unit("AtomicValue::" + fn, AV + "::" + fn, run, case="stored value of every type"))
    return us


CPP = {"bool": "bool", "double": "double", "float": "float", "int16": "short", "int": "int", "int64": "long", "string": "std::string"}


def cpp_arg(E, st, T, v):
    if T == "string":
        return text_arg(E, st, v, "text")
    if T == "bool":
        return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v


def store_units():
    """making and overwriting a stored value"""
    us = []
    for kind in ("make", "overwrite"):
        def run(ctx, kind=kind):
            P, L = ctx.P, lay(ctx.P)
            for T in TARGETS:
                rx = re.escape(AV) + (r"::AtomicValue\(%s( const&)?\)$" if kind == "make" else r"::operator=\(%s( const&)?\)$") % re.escape(CPP[T])
                for U in (ALL if kind == "overwrite" else (None,)):
                    E = operand_engine(ctx)
                    setup(E)
                    st = State(E)
                    v = fresh_of(ctx, T, "v_" + T)
                    if U is None:
                        rid = E.sym_region(st, "value", size=L.av_size)
                    else:
                        rid = stored(E, ctx, st, U, fresh_of(ctx, U, "old_" + U), "value")
                    lab = "%s a stored value of type %s%s: " % (kind, T, " over %s" % U if U else "")
                    for s, o in ctx.call(E, st, one(P, rx), [Ptr(rid, 0), cpp_arg(E, st, T, v)]):
                        ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                        if o[0] == "ret":
                            ctx.require(E, s, holds_value(E, s, rid, T, v, L, 0), lab + "holds the given value")
        us.append(Unit("AtomicValue " + kind, AV + "::" + ("AtomicValue" if kind == "make" else "operator="), run, case="value of every type"))
    return us


def type_units():
    """objects of a built-in type made from a plain or a stored value"""
    us = []
    for T in TARGETS:
        def run(ctx, T=T):
            P, L = ctx.P, lay(ctx.P)
            cls = "Slang::Runtime::" + TYPES[T][0]
            short = TYPES[T][0]
            for U in (None,) + ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                rid = E.sym_region(st, "object", size=L.size)
                if U is None:
                    v = fresh_of(ctx, T, "v")
                    sym = one(P, re.escape(cls + "::" + short) + r"\(%s( const&)?\)$" % re.escape(CPP[T]))
                    arg = cpp_arg(E, st, T, v)
                    want = v
                    lab = "a %s made from a plain value: " % T
                else:
                    v = fresh_of(ctx, U, "v_" + U)
                    sym = one(P, re.escape(cls + "::" + short) + r"\(Slang::Runtime::AtomicValue const&\)$")
                    arg = Ptr(stored(E, ctx, st, U, v, "value"), 0)
                    want = value_as(U, v, T)
                    lab = "a %s made from a stored %s: " % (T, U)
                for s, o in ctx.call(E, st, sym, [Ptr(rid, 0), arg]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] != "ret":
                        continue
                    ctx.require(E, s, holds_value(E, s, rid, T, want, L), lab + "value")
                    ctx.require(E, s, E.get_str(s, Ptr(rid, L.qtype)) == strconst(L.tn[T]), lab + "type")
                    ctx.require(E, s, to_bv(E.load(s, Ptr(rid, L.atomic), IntT(8))) == 1, lab + "is an atomic value")
        us.append(Unit("make/" + T, "Slang::Runtime::%s::%s" % (TYPES[T][0], TYPES[T][0]), run, case="from a value of every type"))
    return us


def after(ctx, E, s, rid, T, want, L, lab):
    ctx.require(E, s, holds_value(E, s, rid, T, want, L), lab + "value")
    ctx.require(E, s, E.get_str(s, Ptr(rid, L.qtype)) == strconst(L.tn[T]), lab + "type")
    ctx.require(E, s, to_bv(E.load(s, Ptr(rid, L.atomic), IntT(8))) == 1, lab + "is an atomic value")


def cast_units():
    us = []
    for T in TARGETS:
        def run(ctx, T=T):
            P, L = ctx.P, lay(ctx.P)
            for U in ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                v = fresh_of(ctx, U, "v_" + U)
                rid = sym_object(E, ctx, st, "o_" + U, U, v)
                lab = "cast from %s to %s: " % (U, T)
                ctx.cover(E, st.clone(), "precondition " + U)
                for s, o in ctx.call(E, st, one(P, r"Slang::Runtime::typecast\(.*\)$"), [Ptr(rid, 0), text_arg(E, st, strconst(L.tn[T]), "type")]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] == "ret":
                        after(ctx, E, s, rid, T, value_as(U, v, T), L, lab)
        us.append(Unit("typecast/" + T, "Slang::Runtime::typecast", run, case="from every type"))
    return us


def assign_units():
    us = []
    for T in TARGETS:
        def run(ctx, T=T):
            P, L = ctx.P, lay(ctx.P)
            for U in ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                a, b = fresh_of(ctx, T, "a_" + U), fresh_of(ctx, U, "b_" + U)
                l, r = sym_object(E, ctx, st, "l_" + U, T, a), sym_object(E, ctx, st, "r_" + U, U, b)
                pre = st.clone()
                lab = "assignment of %s to %s: " % (U, T)
                ctx.cover(E, st.clone(), "precondition " + U)
                for s, o in ctx.call(E, st, find_op(P, "operator_binary_assign", 2), [Ptr(l, 0), Ptr(r, 0)]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] != "ret":
                        continue
                    after(ctx, E, s, l, T, value_as(U, b, T), L, lab)
                    ctx.require(E, s, z3.And(holds_value(E, s, r, U, b, L), obj_frame(E, pre, s, r, L)), lab + "right operand unchanged")
        us.append(Unit("operator_binary_assign/" + T, "Slang::Runtime::operator_binary_assign", run, case="from every type"))
    return us


def method_assign_units():
    """assignment through the built-in type's own operator"""
    us = []
    for T in TARGETS:
        def run(ctx, T=T):
            P, L = ctx.P, lay(ctx.P)
            sym = one(P, r"Slang::Runtime::%s::operator_assign\(.*\)$" % TYPES[T][0])
            for U in ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                a, b = fresh_of(ctx, T, "a_" + U), fresh_of(ctx, U, "b_" + U)
                l, r = sym_object(E, ctx, st, "l_" + U, T, a), sym_object(E, ctx, st, "r_" + U, U, b)
                pre = st.clone()
                lab = "%s.operator= of %s: " % (T, U)
                for s, o in ctx.call(E, st, sym, [Ptr(l, 0), Ptr(r, 0)]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] != "ret":
                        continue
                    after(ctx, E, s, l, T, value_as(U, b, T), L, lab)
                    ctx.require(E, s, z3.And(holds_value(E, s, r, U, b, L), obj_frame(E, pre, s, r, L)), lab + "right operand unchanged")
        us.append(Unit("operator_assign/" + T, "Slang::Runtime::%s::operator_assign" % TYPES[T][0], run, case="from every type"))
    return us


def shown_units():
    """text form of a real number: fixed notation without superfluous zeros behind the point"""
    us = []
    for T in FLOATS:
        def run(ctx, T=T):
            P = ctx.P
            E = operand_engine(ctx)
            st = State(E)
            v = fresh_of(ctx, T, "v")
            rid = E.sym_region(st, "number", size=8)
            E.store(st, Ptr(rid, 0), v, ir.DOUBLE if T == "double" else ir.FLOAT)
            full = f_fixed(widen(v))
            n = E.slen(full)
            res = room(E, st)
            DOT, ZERO = z3.IntVal(ord(".")), z3.IntVal(ord("0"))
            sym = one(P, r"(std::string |std::__cxx11::basic_string<.*> )?Utils::Tools::toString<%s>\(.*\)$" % T)
            st.pc.append(n > 0)
            for s, o in ctx.call(E, st, sym, [res, Ptr(rid, 0)]):
                ctx.require(E, s, o[0] == "ret", "text of a real number: ends normally")
                if o[0] != "ret":
                    continue
                got = E.get_str(s, res)
                m = E.slen(got)
                i, p = z3.Int(fresh_name("i")), z3.Int(fresh_name("p"))
                lab = "text of a real number: "
                ctx.require(E, s, m <= n, lab + "never longer than fixed notation")
                ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < m), f_at(got, i) == f_at(full, i)), lab + "begins like fixed notation")
                ctx.require(E, s, z3.Implies(z3.And(i >= m, i < n), z3.Or(f_at(full, i) == ZERO, z3.And(i == m, f_at(full, i) == DOT))), lab + "leaves out zeros and the point only")
                # p: position of the point
                j = z3.Int("j!p")
                s.pc.append(z3.Or(z3.And(p == -1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f_at(full, j) != DOT), patterns=[f_at(full, j)])),
                                  z3.And(p >= 0, p < n, f_at(full, p) == DOT, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, j != p), f_at(full, j) != DOT), patterns=[f_at(full, j)]))))
                ctx.require(E, s, z3.If(p == -1, m == n, z3.And(m >= p, m != p + 1, z3.Implies(m > p, f_at(got, m - 1) != ZERO))), lab + "cuts behind the last digit that counts")
        us.append(Unit("toString<%s>" % T, "Utils::Tools::toString<%s>" % T, run))
    return us


def text_op_units():
    """operators whose left operand is a text"""
    us = []
    def plus(ctx, op="plus", sign="+"):
        P, L = ctx.P, lay(ctx.P)
        for U in ALL:
            E = operand_engine(ctx)
            setup(E)
            st = State(E)
            a, b = fresh_of(ctx, "string", "a_" + U), fresh_of(ctx, U, "b_" + U)
            l, r = sym_object(E, ctx, st, "l_" + U, "string", a), sym_object(E, ctx, st, "r_" + U, U, b)
            pre = st.clone()
            lab = "text %s %s: " % (sign, U)
            ctx.cover(E, st.clone(), "precondition " + U)
            for s, o in ctx.call(E, st, find_op(P, "operator_binary_" + op, 2), [Ptr(l, 0), Ptr(r, 0)]):
                ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                if o[0] != "ret":
                    continue
                after(ctx, E, s, l, "string", E.scat(a, text_of(U, b)), L, lab)
                ctx.require(E, s, z3.And(holds_value(E, s, r, U, b, L), obj_frame(E, pre, s, r, L)), lab + "right operand unchanged")
    us.append(Unit("operator_binary_plus/string", "Slang::Runtime::operator_binary_plus", plus, case="left operand a text, right operand of every type"))
    us.append(Unit("operator_binary_shift_left/string", "Slang::Runtime::operator_binary_shift_left", lambda ctx: plus(ctx, "shift_left", "<<"), case="left operand a text, right operand of every type"))
    for op in CMP:
        def run(ctx, op=op):
            P, L = ctx.P, lay(ctx.P)
            for U in ALL:
                E = operand_engine(ctx)
                setup(E)
                st = State(E)
                a, b = fresh_of(ctx, "string", "a_" + U), fresh_of(ctx, U, "b_" + U)
                l, r = sym_object(E, ctx, st, "l_" + U, "string", a), sym_object(E, ctx, st, "r_" + U, U, b)
                pre = st.clone()
                lab = "text %s %s: " % (SYMS[op], U)
                for s, o in ctx.call(E, st, find_op(P, "operator_binary_" + op, 2), [Ptr(l, 0), Ptr(r, 0)]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] != "ret":
                        continue
                    ctx.require(E, s, as_bool(o[1]) == compare("string", op, a, text_of(U, b)), lab + "result")
                    for x, T, v in ((l, "string", a), (r, U, b)):
                        ctx.require(E, s, z3.And(holds_value(E, s, x, T, v, L), obj_frame(E, pre, s, x, L)), lab + "operands unchanged")
        us.append(Unit("operator_binary_%s/string" % op, "Slang::Runtime::operator_binary_" + op, run, case="left operand a text, right operand of every type"))
    return us
