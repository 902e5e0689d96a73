"""Operators on atomic values: specification of the runtime's operator functions and of the type classes behind them."""
import re
import z3
from engine.sem import *
from engine.vals import *
from engine.verify import Unit, SpecError
from .objects import *

RT = "Slang::Runtime::"
ARITH = ("plus", "subtract", "multiply", "divide", "modulo", "bitand", "bitor")
CMP = ("less", "less_equal", "greater", "greater_equal", "equal")
SYMS = dict(plus="+", subtract="-", multiply="*", divide="/", modulo="%", bitand="&", bitor="|", less="<", less_equal="<=", greater=">",
            greater_equal=">=", equal="==", assign="=")
INVALID_OP = "_ZTIN5Slang7Runtime10Exceptions16InvalidOperationE"
RUNTIME_EXC = "_ZTIN5Slang7Runtime10Exceptions16RuntimeExceptionE"


def width(T):
    return TYPES[T][3]


def fsort(T):
    return F32 if T == "float" else F64


def conv(U, v, T):
    """language rule: value v of type U converted to T"""
    if U == T:
        return v
    if T in INTS or T == "enum":
        w = 64 if T == "enum" else width(T)
        if U == "bool":
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if U in INTS or U == "enum":
            k = v.size()
            return z3.SignExt(w - k, v) if k < w else z3.Extract(w - 1, 0, v) if k > w else v
        if U in FLOATS:
            x = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(64))
            return x if w == 64 else z3.Extract(w - 1, 0, x)
    if T in FLOATS:
        S = fsort(T)
        if U == "bool":
            return z3.If(v, z3.FPVal(1.0, S), z3.FPVal(0.0, S))
        if U in INTS or U == "enum":
            x = conv(U, v, "int64") if U != "int64" else v
            return z3.fpSignedToFP(z3.RNE(), x, S)
        if U in FLOATS:
            return z3.fpFPToFP(z3.RNE(), v, S)
    if T == "bool":
        if U in INTS or U == "enum":
            return v != 0
        if U in FLOATS:
            return z3.Not(z3.fpEQ(v, z3.FPVal(0.0, fsort(U))))
    return None


def arith(T, op, a, b):
    """-> (value term, condition under which a runtime error is raised instead)"""
    if T in INTS:
        if op == "plus":
            return a + b, z3.BoolVal(False)
        if op == "subtract":
            return a - b, z3.BoolVal(False)
        if op == "multiply":
            return a * b, z3.BoolVal(False)
        if op == "divide":
            return a / b, b == 0
        if op == "modulo":
            return z3.SRem(a, b), b == 0
        if op == "bitand":
            return a & b, z3.BoolVal(False)
        if op == "bitor":
            return a | b, z3.BoolVal(False)
    if T in FLOATS:
        rm = z3.RNE()
        if op == "plus":
            return fp_add(a, b), z3.BoolVal(False)
        if op == "subtract":
            return fp_sub(a, b), z3.BoolVal(False)
        if op == "multiply":
            return fp_mul(a, b), z3.BoolVal(False)
        if op == "divide":
            return z3.fpDiv(rm, a, b), z3.BoolVal(False)
    return None, None


def compare(T, op, a, b):
    if T in INTS or T == "enum":
        return {"less": a < b, "less_equal": a <= b, "greater": a > b, "greater_equal": a >= b, "equal": a == b}[op]
    if T in FLOATS:
        return {"less": z3.fpLT(a, b), "less_equal": z3.fpLEQ(a, b), "greater": z3.fpGT(a, b),
                "greater_equal": z3.fpGEQ(a, b), "equal": z3.fpEQ(a, b)}[op]
    if T == "bool":
        return {"equal": a == b}.get(op)
    if T == "string":
        lt, eq = f_lt(a, b), a == b
        return {"less": lt, "less_equal": z3.Or(lt, eq), "greater": z3.And(z3.Not(lt), z3.Not(eq)),
                "greater_equal": z3.Not(lt), "equal": eq}[op]
    return None


UNARY = ("minus", "increment", "decrement")


def unary(T, op, a):
    if T in INTS:
        w = width(T)
        return {"minus": -a, "increment": a + 1, "decrement": a - 1, "plus": a}.get(op)
    if T in FLOATS:
        S = fsort(T)
        one = z3.FPVal(1.0, S)
        return {"minus": z3.fpNeg(a), "increment": fp_add(a, one), "decrement": fp_sub(a, one), "plus": a}.get(op)
    return None


def accepted(T, U, op):
    """operand combinations for which the property states a value"""
    if op in ("bitand", "bitor"):
        return T in INTS and U == T
    if op in ARITH:
        if T in INTS:
            return U in NUMERIC or U == "enum"
        if T == "double":
            return op != "modulo" and (U in NUMERIC or U == "enum")
        if T == "float":
            return op != "modulo" and (U in NUMERIC and U != "bool" or U == "enum")
    if op in CMP:
        if T in INTS or T == "double":
            return U in NUMERIC or U == "enum"
        if T == "float":
            return U in NUMERIC and U != "bool" or U == "enum"
        if T == "bool":
            return op == "equal" and (U in NUMERIC or U == "enum")
        if T == "string":
            return U == "string"
    return False


# ------------------------------------------------------------------ units
def find_op(P, name, nargs):
    rx = re.compile(r"Slang::Runtime::%s\(.*\)$" % re.escape(name))
    c = [d for d in P.bydem if rx.match(d) and d.count(",") == nargs - 1]
    if len(c) != 1:
        raise SpecError("expected one function %s, found %s" % (name, c))
    return P.find(c[0])


def obj_frame(E, st0, st, rid, L):
    """condition: value and type name of the object are the same in st as in st0"""
    cs = []
    for off, t in ((L.value + L.av_type, IntT(32)), (L.atomic, IntT(8)), (L.isref, IntT(8)), (L.bptype, IntT(32))):
        cs.append(to_bv(E.load(st0, Ptr(rid, off), t)) == to_bv(E.load(st, Ptr(rid, off), t)))
    cs.append(E.get_str(st0, Ptr(rid, L.qtype)) == E.get_str(st, Ptr(rid, L.qtype)))
    return z3.And(*cs)


def binary_case(ctx, op, T, U, claim=True):
    P = ctx.P
    L = lay(P)
    E = operand_engine(ctx)
    st = State(E)
    tag = "%s%s%s" % (T, SYMS[op], U)
    a = fresh_of(ctx, T, "a_" + tag)
    b = fresh_of(ctx, U, "b_" + tag)
    l = sym_object(E, ctx, st, "l_" + tag, T, a)
    r = sym_object(E, ctx, st, "r_" + tag, U, b)
    pre = st.clone()
    ctx.cover(E, pre, "precondition " + tag)
    outs = ctx.call(E, st, find_op(P, "operator_binary_" + op, 2), [Ptr(l, 0), Ptr(r, 0)])
    bt = conv(U, b, T)
    lab = "operator %s on (%s,%s): " % (SYMS[op], T, U)
    if not outs:
        raise SpecError("no path through operator_binary_" + op)
    for s, o in outs:
        ok = o[0] == "ret" or (o[0] == "throw" and P.derives(o[1], RUNTIME_EXC))
        ctx.require(E, s, ok, lab + "ends normally or with a runtime error")
        if not ok:
            continue
        ctx.require(E, s, z3.And(holds_value(E, s, r, U, b, L), obj_frame(E, pre, s, r, L)), lab + "right operand unchanged")
        if op in ARITH:
            v, err = arith(T, op, a, bt)
            if o[0] == "ret":
                ctx.require(E, s, z3.Not(err), lab + "raises a runtime error for a zero divisor")
                ctx.require(E, s, holds_value(E, s, l, T, v, L), lab + "result value")
                ctx.require(E, s, E.get_str(s, Ptr(l, L.qtype)) == strconst(L.tn[T]), lab + "result type")
                ctx.require(E, s, to_bv(E.load(s, Ptr(l, L.atomic), IntT(8))) == 1, lab + "result is an atomic value")
            else:
                ctx.require(E, s, err, lab + "no runtime error for a defined result")
                ctx.require(E, s, holds_value(E, s, l, T, a, L), lab + "left operand unchanged on error")
        else:
            c = compare(T, op, a, bt)
            ctx.require(E, s, z3.And(holds_value(E, s, l, T, a, L), obj_frame(E, pre, s, l, L)), lab + "left operand unchanged")
            if o[0] == "ret":
                ctx.require(E, s, as_bool(o[1]) == c, lab + "comparison result")
            else:
                ctx.require(E, s, False, lab + "comparison is defined")
    ctx.replays.append((E, lambda o: replay_op(o.ctx, "binary", op, T, U, a, b)))


def bits(m, T, v):
    """concrete value as an integer bit pattern"""
    x = m.eval(v, model_completion=True)
    if T == "bool":
        return 1 if z3.is_true(x) else 0
    if T in FLOATS:
        x = z3.simplify(z3.fpToIEEEBV(x))
        if not isinstance(x, z3.BitVecNumRef):
            return 0x7fc00000 if T == "float" else 0x7ff8000000000000
    return x.as_long()


def replay_strings(op):
    """strings are abstract in the proof; look for a concrete pair on which the real code is wrong"""
    import operator
    f = dict(less=operator.lt, less_equal=operator.le, greater=operator.gt, greater_equal=operator.ge, equal=operator.eq,
             plus=operator.add)[op]
    words = [b"", b"a", b"b", b"ab", b"abc", b"abd", b"B", b"aa", b"ba", b"Z", b"a b", b"abcd", b"\xc3\xa9", b"0", b"10", b"9"]
    h = lambda x: x.hex() or "-"
    lines = []
    for x in words:
        for y in words:
            v = f(x, y)
            lines.append(("binary %s string %s string %s" % (op, h(x), h(y)),
                          "bool %d" % v if op in CMP else "string " + h(v)))
    return dict(driver="ops", lines=lines)


def replay_op(m, kind, op, T, U, a, b):
    """concrete operands of a failed obligation and the outcome the property demands for them"""
    ca = m.eval(a, model_completion=True)
    if kind == "unary":
        v = z3.simplify(z3.substitute(unary(T, op, a), (a, ca)))
        return dict(driver="ops", line="unary %s %s %d" % (op, T, bits(m, T, a)), expect="value %s %d" % (T, bits(m, T, v)))
    if T == "string":
        return replay_strings(op)
    cb = m.eval(b, model_completion=True)
    sub = lambda t: z3.simplify(z3.substitute(t, (a, ca), (b, cb)))
    bt = conv(U, b, T)
    line = "binary %s %s %d %s %d" % (op, T, bits(m, T, a), U, bits(m, U, b))
    if op in ARITH:
        v, err = arith(T, op, a, bt)
        if z3.is_true(sub(err)):
            return dict(driver="ops", line=line, expect="error")
        return dict(driver="ops", line=line, expect="value %s %d" % (T, bits(m, T, sub(v))))
    return dict(driver="ops", line=line, expect="bool %d" % (1 if z3.is_true(sub(compare(T, op, a, bt))) else 0))


def as_bool(v):
    if isinstance(v, z3.BoolRef):
        return v
    v = to_bv(v)
    return z3.simplify(v != 0)


def unary_case(ctx, op, T):
    P = ctx.P
    L = lay(P)
    E = operand_engine(ctx)
    st = State(E)
    a = fresh_of(ctx, T, "a_%s_%s" % (op, T))
    l = sym_object(E, ctx, st, "l_%s_%s" % (op, T), T, a)
    ctx.cover(E, st.clone(), "precondition %s %s" % (op, T))
    outs = ctx.call(E, st, find_op(P, "operator_unary_" + op, 1), [Ptr(l, 0)])
    v = unary(T, op, a)
    lab = "unary %s on %s: " % (op, T)
    for s, o in outs:
        ctx.require(E, s, o[0] == "ret", lab + "ends normally")
        if o[0] != "ret":
            continue
        ctx.require(E, s, holds_value(E, s, l, T, v, L), lab + "result value")
        ctx.require(E, s, E.get_str(s, Ptr(l, L.qtype)) == strconst(L.tn[T]), lab + "result type")
    ctx.replays.append((E, lambda o: replay_op(o.ctx, "unary", op, T, None, a, None)))


RHS = ("bool", "double", "float", "int16", "int", "int64", "enum")


def arith_units(types):
    us = []
    for op in ARITH:
        for T in types:
            if not accepted(T, T, op):
                continue
            def run(ctx, op=op, T=T):
                for U in RHS + ("string",):
                    if accepted(T, U, op):
                        binary_case(ctx, op, T, U)
            us.append(Unit("operator_binary_%s/%s" % (op, T), "Slang::Runtime::operator_binary_%s" % op, run,
                           case="left operand of type %s, right operand of every accepted type" % T))
    for op in UNARY:
        for T in types:
            if unary(T, op, z3.BitVecVal(0, 16) if T in INTS else z3.FPVal(0.0, fsort(T))) is None:
                continue
            us.append(Unit("operator_unary_%s/%s" % (op, T), "Slang::Runtime::operator_unary_%s" % op,
                           lambda ctx, op=op, T=T: unary_case(ctx, op, T), case="operand of type " + T))
    return us


def cmp_units(types, rhs=RHS):
    us = []
    for op in CMP:
        for T in types:
            if not any(accepted(T, U, op) for U in rhs + ("string",)):
                continue
            def run(ctx, op=op, T=T):
                for U in rhs + ("string",):
                    if accepted(T, U, op):
                        binary_case(ctx, op, T, U)
            us.append(Unit("operator_binary_%s/%s" % (op, T), "Slang::Runtime::operator_binary_%s" % op, run,
                           case="left operand of type %s, right operand of every accepted type" % T))
    return us
