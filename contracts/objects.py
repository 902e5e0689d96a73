"""Specification view of runtime objects: how a language-level value is represented in memory."""
import z3
from engine.sem import *
from engine.vals import *

OBJ = "Slang::Runtime::Object"
AV = "Slang::Runtime::AtomicValue"

# language type -> (class, qualified type name, tag enumerator, width)
TYPES = {
    "bool": ("BoolType", "bool", "BOOL", 8),
    "double": ("DoubleType", "double", "DOUBLE", 64),
    "float": ("FloatType", "float", "FLOAT", 32),
    "int16": ("Int16Type", "int16", "INT", 16),
    "int": ("Int32Type", "int", "INT", 32),
    "int64": ("Int64Type", "int64", "INT", 64),
    "string": ("StringType", "string", "STRING", 0),
}
INTS = ("int16", "int", "int64")
FLOATS = ("float", "double")
NUMERIC = ("bool", "double", "float", "int16", "int", "int64")


class Lay:
    """field offsets of the current source"""

    def __init__(self, P):
        f = lambda n: P.field(OBJ, n)
        self.P = P
        self.value = f("mValue")
        self.atomic = f("mIsAtomicType")
        self.isref = f("mIsReference")
        self.qtype = f("mQualifiedTypename")
        self.qouter = f("mQualifiedOuterface")
        self.tname = f("mTypename")
        self.this = f("mThis")
        self.blueprint = f("mBluePrint")
        self.bptype = f("mBluePrintType")
        self.inherit = f("mInheritance")
        self.ref = f("mReference")
        self.sealed = P.base_offset(OBJ, "Slang::GenericAttributes") + P.field("Slang::GenericAttributes", "mIsSealed")
        self.size = P.class_size(OBJ)
        self.av_str = P.field(AV, "mStringValue")
        self.av_type = P.field(AV, "mType")
        self.av_val = P.field(AV, "mValue")
        self.av_size = P.class_size(AV)
        self.tags = P.enum(AV + "::Type::E")
        self.bpt = P.enum("Slang::BlueprintType::E")
        self.tn = typenames(P)


_lays = {}


def lay(P):
    if id(P) not in _lays:
        _lays[id(P)] = Lay(P)
    return _lays[id(P)]


def typenames(P):
    """language type -> spelling, read from the current source's own constants"""
    E = Engine(P)
    st = State(E)
    out = {}
    for k, (cls, spell, tag, w) in TYPES.items():
        out[k] = spell
    return out


def fresh_of(ctx, T, name):
    """symbolic language value of type T and its spec-level term"""
    if T == "bool":
        return ctx.sym(name, z3.BoolSort())
    if T == "double":
        return ctx.sym(name, F64)
    if T == "float":
        return ctx.sym(name, F32)
    if T in INTS:
        return ctx.sym(name, z3.BitVecSort(TYPES[T][3]))
    if T == "string":
        return ctx.sym(name, Str)
    if T == "enum":
        return ctx.sym(name, z3.BitVecSort(64))
    raise KeyError(T)


def union_of(T, v):
    """64-bit content of the value union for language value v of type T"""
    if T == "bool":
        return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 1
    if T in ("double", "float"):
        return v, 8 if T == "double" else 4
    if T in INTS:
        w = TYPES[T][3]
        return (z3.SignExt(64 - w, v) if w < 64 else v), 8
    if T == "enum":
        return v, 8
    if T == "string":
        return z3.BitVecVal(0, 64), 8
    raise KeyError(T)


def put_value(E, st, rid, off, T, v, L):
    """store the representation of language value v:T into the AtomicValue at (rid,off)"""
    r = st.w(rid)
    tag = L.tags["INT" if T == "enum" else TYPES[T][2]]
    r.cells[off + L.av_type] = (z3.BitVecVal(tag, 32), 4)
    r.cells[off + L.av_str] = (StrV(v if T == "string" else EMPTY), 32)
    u, n = union_of(T, v)
    r.cells[off + L.av_val] = (z3.simplify(u), n)


def sym_object(E, ctx, st, name, T, v, cls=None, tname=None):
    """object of the pre-state holding language value v of type T"""
    P = E.P
    L = lay(P)
    if cls is None:
        cls = [P.ti(OBJ)]
        if T in TYPES:
            cls.append(P.ti("Slang::Runtime::" + TYPES[T][0]))
        elif T == "enum":
            cls.append(P.ti("Slang::Runtime::EnumerationType"))
    rid = E.sym_region(st, name, cls=cls, size=L.size)
    r = st.w(rid)
    put_value(E, st, rid, L.value, T, v, L)
    r.cells[L.this] = (Ptr(rid, 0), 8)
    r.cells[L.atomic] = (z3.BitVecVal(1, 8), 1)
    r.cells[L.isref] = (z3.BitVecVal(0, 8), 1)
    r.cells[L.sealed] = (z3.BitVecVal(0, 8), 1)
    n = P.class_size("Slang::Runtime::Reference")
    r.cells[L.ref + P.field("Slang::Runtime::Reference", "mAddress")] = (z3.BitVecVal(0, 8 * n), n)
    if tname is None:
        tname = strconst(L.tn[T]) if T in L.tn else z3.Const(name + ".type", Str)
    r.cells[L.qtype] = (StrV(tname), 32)
    if T == "enum":
        r.cells[L.bptype] = (z3.BitVecVal(L.bpt["Enum"], 32), 4)
        for k in TYPES:
            st.assume(tname != strconst(L.tn[k]))
    else:
        x = z3.BitVec(name + ".bptype", 32)
        r.cells[L.bptype] = (x, 4)
        st.assume(x != L.bpt["Enum"])
    return rid


def read_value(E, st, rid, L, off=None):
    """(type tag term, union reader, string term) of the object's value"""
    off = L.value if off is None else off
    tag = E.load(st, Ptr(rid, off + L.av_type), IntT(32))
    return tag


def holds_value(E, st, rid, T, v, L, off=None):
    """condition: the AtomicValue at rid represents language value v of type T"""
    off = L.value if off is None else off
    cs = []
    tag = to_bv(E.load(st, Ptr(rid, off + L.av_type), IntT(32)), 32)
    cs.append(tag == L.tags["INT" if T == "enum" else TYPES[T][2]])
    up = Ptr(rid, off + L.av_val)
    if T == "bool":
        cs.append(to_bv(E.load(st, up, IntT(8)), 8) == z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    elif T in FLOATS:
        cs.append(E.load(st, up, FloatT(T)) == v)
    elif T in INTS or T == "enum":
        x = to_bv(E.load(st, up, IntT(64)), 64)
        w = v.size()
        cs.append(x == (z3.SignExt(64 - w, v) if w < 64 else v))
    elif T == "string":
        cs.append(E.get_str(st, Ptr(rid, off + L.av_str)) == v)
    return z3.And(*cs)


def operand_engine(ctx):
    """engine for operators on values; the names of scopes only occur in messages"""
    E = ctx.engine()

    def text(E, st, a, ins):
        E.set_str(st, a[0], z3.Const(fresh_name("text"), Str))
        return [(st, ("ret", None))]
    for d in [d for d in E.P.bydem if re.match(r"Slang::.*::getFullScopeName\(\) const$", d)]:
        for x in E.P.bydem[d]:
            E.contracts[x] = text
    return E
