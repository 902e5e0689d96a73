"""Truth of a value, logical negation and validation."""
import re
import z3
from engine.sem import *
from engine.vals import *
from engine.verify import Unit, SpecError
from .objects import *
from .ops import conv, find_op, as_bool, obj_frame, RT, RHS

f_s2b = z3.Function("text_is_true", Str, z3.BoolSort())


def one(P, rx):
    """the only function whose name matches"""
    c = [d for d in P.bydem if re.match(rx, d)]
    if len(c) != 1:
        raise SpecError("expected one function %s, found %s" % (rx, c[:4]))
    return P.find(c[0])


def text_truth(E):
    """truth of a text is left to the contract of the conversion function"""
    sym = one(E.P, r"Utils::Tools::stringToBool\(.*\)$")
    E.contracts[sym] = lambda E, st, a, ins: [(st, ("ret", z3.If(f_s2b(E.get_str(st, a[0])), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))]


def no_memory(E):
    """giving up a reference may run destructors but does not touch the variable that held it"""
    E.contracts[one(E.P, r"Slang::Memory::remove\(.*\)$")] = lambda E, st, a, ins: [(st, ("ret", None))]


def truth_of(T, v):
    if T == "bool":
        return v
    if T == "string":
        return f_s2b(v)
    return conv(T, v, "bool")


def ref_object(E, ctx, st, name):
    """object variable: a reference of a user defined type, null if its address is 0"""
    P, L = E.P, lay(E.P)
    rid = E.sym_region(st, name, cls=[P.ti(OBJ), P.ti("Slang::Runtime::UserType")], size=L.size)
    r = st.w(rid)
    put_value(E, st, rid, L.value, "enum", z3.BitVecVal(0, 64), L)
    r.cells[L.atomic] = (z3.BitVecVal(0, 8), 1)
    r.cells[L.sealed] = (z3.BitVecVal(0, 8), 1)
    tname = z3.Const(name + ".type", Str)
    r.cells[L.qtype] = (StrV(tname), 32)
    for k in TYPES:
        st.assume(tname != strconst(L.tn[k]))
    st.assume(tname != strconst("void"))
    off = P.field("Slang::Runtime::Reference", "mAddress")
    n = P.class_size("Slang::Runtime::Reference")
    adr = ctx.sym(name + "_address", z3.BitVecSort(8 * n))
    r.cells[L.ref + off] = (adr, n)
    return rid, adr


def operand(E, ctx, st, T, name):
    """-> region, truth term, condition that the operand still holds its value"""
    L = lay(E.P)
    if T == "object":
        rid, adr = ref_object(E, ctx, st, name)
        off = E.P.field("Slang::Runtime::Reference", "mAddress")
        w = adr.size()
        return rid, adr != 0, lambda s: to_bv(E.load(s, Ptr(rid, L.ref + off), IntT(w)), w) == adr
    v = fresh_of(ctx, T, name)
    rid = sym_object(E, ctx, st, "o_" + name, T, v)
    return rid, truth_of(T, v), lambda s: holds_value(E, s, rid, T, v, L)


KINDS = ("bool", "double", "float", "int16", "int", "int64", "enum", "string", "object")


def true_units():
    us = []
    for form in ("const&", "const*"):
        def run(ctx, form=form):
            sym = ctx.P.find("Slang::Runtime::isTrue(Slang::Runtime::Object %s)" % form)
            for T in KINDS:
                E = ctx.engine()
                text_truth(E)
                st = State(E)
                rid, t, same = operand(E, ctx, st, T, "a_" + T)
                ctx.cover(E, st.clone(), "precondition " + T)
                lab = "truth of a value of type %s: " % T
                for s, o in ctx.call(E, st, sym, [Ptr(rid, 0)]):
                    ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                    if o[0] == "ret":
                        ctx.require(E, s, as_bool(o[1]) == t, lab + "is its value compared with zero or null")
                        ctx.require(E, s, same(s), lab + "operand unchanged")
        us.append(Unit("isTrue %s" % form, "Slang::Runtime::isTrue", run, case="operand of every type"))
    return us


def not_units():
    us = []
    for T in KINDS:
        if T == "enum":
            continue
        def run(ctx, T=T):
            L = lay(ctx.P)
            E = ctx.engine()
            text_truth(E)
            no_memory(E)
            st = State(E)
            rid, t, same = operand(E, ctx, st, T, "a_" + T)
            ctx.cover(E, st.clone(), "precondition " + T)
            lab = "negation of a value of type %s: " % T
            for s, o in ctx.call(E, st, find_op(ctx.P, "operator_unary_not", 1), [Ptr(rid, 0)]):
                ctx.require(E, s, o[0] == "ret", lab + "ends normally")
                if o[0] == "ret":
                    ctx.require(E, s, holds_value(E, s, rid, "bool", z3.Not(t), L), lab + "is the opposite truth value")
                    ctx.require(E, s, E.get_str(s, Ptr(rid, L.qtype)) == strconst("bool"), lab + "is a bool")
        us.append(Unit("operator_unary_not/" + T, "Slang::Runtime::operator_unary_not", run, case="operand of type " + T))
    return us


def validate_units():
    def run(ctx):
        for T in KINDS:
            if T == "enum":
                continue
            E = ctx.engine()
            text_truth(E)
            st = State(E)
            rid, t, same = operand(E, ctx, st, T, "a_" + T)
            ctx.cover(E, st.clone(), "precondition " + T)
            lab = "validation of a value of type %s: " % T
            for s, o in ctx.call(E, st, find_op(ctx.P, "operator_unary_validate", 1), [Ptr(rid, 0)]):
                ctx.require(E, s, t if o[0] == "ret" else z3.Not(t), lab + "an exception is thrown exactly for a null or zero value")
                ctx.require(E, s, same(s), lab + "operand unchanged")
    return [Unit("operator_unary_validate", "Slang::Runtime::operator_unary_validate", run, case="operand of every type")]
