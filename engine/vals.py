"""Values of the verifier: machine integers (bit-vectors or range-tracked
mathematical integers), IEEE floats, pointers, abstract strings, containers."""
import z3

Str = z3.DeclareSort("Str")
IntS = z3.IntSort()
f_len = z3.Function("str.len", Str, IntS)
f_at = z3.Function("str.at", Str, IntS, IntS)
f_cat = z3.Function("str.cat", Str, Str, Str)
f_sub = z3.Function("str.sub", Str, IntS, IntS, Str)
f_lt = z3.Function("str.lt", Str, Str, z3.BoolSort())
f_unit = z3.Function("str.unit", IntS, Str)
f_lower = z3.Function("str.lower", Str, Str)
f_set = z3.Function("str.set", Str, IntS, IntS, Str)

_consts = {}
_bycid = {}


def strconst(b):
    """abstract constant for the byte string b"""
    if isinstance(b, str):
        b = b.encode("latin-1")
    c = _consts.get(b)
    if c is None:
        c = z3.Const("s!" + b.decode("latin-1").encode("unicode_escape").decode() if b else "s!<empty>", Str)
        _consts[b] = c
        _bycid[c.get_id()] = b
    return c


EMPTY = strconst(b"")


def const_of(t):
    return _bycid.get(t.get_id())


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])


def fresh_mark():
    return _ctr[0]


class StrV:
    """std::string held in a memory cell"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "StrV(%s)" % self.t


class Undef:
    __slots__ = ()


class IV:
    """w-bit machine integer kept as a mathematical integer in [lo,hi] (unsigned view)"""
    __slots__ = ("t", "w", "lo", "hi", "of")

    def __init__(self, t, w, lo, hi, of=None):
        self.t, self.w, self.lo, self.hi, self.of = t, w, lo, hi, of      # of: the narrower number it was extended from

    def __repr__(self):
        return "IV(%s:%d)" % (self.t, self.w)

    def bv(self):
        return z3.Int2BV(self.t, self.w)

    def signed(self):
        h = 1 << (self.w - 1)
        if self.hi < h:
            return self.t
        if self.lo >= h:
            return self.t - (1 << self.w)
        return z3.If(self.t >= h, self.t - (1 << self.w), self.t)


class Ptr:
    """concrete pointer: region id and byte offset; rid 0 is null"""
    __slots__ = ("rid", "off")

    def __init__(self, rid, off=0):
        self.rid, self.off = rid, off

    def __repr__(self):
        return "Ptr(%d+%d)" % (self.rid, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.rid == self.rid and o.off == self.off

    def __hash__(self):
        return hash((self.rid, self.off))


NULL = Ptr(0, 0)


class EPtr:
    """pointer into element `idx` of the container stored at (rid,coff)"""
    __slots__ = ("rid", "coff", "idx", "off")

    def __init__(self, rid, coff, idx, off=0):
        self.rid, self.coff, self.idx, self.off = rid, coff, idx, off

    def __repr__(self):
        return "EPtr(%s+%d[%s]+%d)" % (self.rid, self.coff, self.idx, self.off)


def cloc(p):
    """location of the container an element pointer or iterator refers to"""
    return Ptr(p.rid, p.coff) if isinstance(p.rid, int) else p.rid


def same_loc(a, b):
    if isinstance(a.rid, int) or isinstance(b.rid, int):
        return isinstance(a.rid, int) and isinstance(b.rid, int) and (a.rid, a.coff) == (b.rid, b.coff)
    x, y = a.rid, b.rid
    return same_loc(x, y) and x.off == y.off and x.idx.eq(y.idx)


AnyS = z3.DeclareSort("Any")


class CPtr:
    """pointer to character `pos` of the std::string stored at base pointer"""
    __slots__ = ("base", "pos")

    def __init__(self, base, pos):
        self.base, self.pos = base, pos

    def __repr__(self):
        return "CPtr(%r@%s)" % (self.base, self.pos)


class LPtr:
    """pointer to character pos of an immutable abstract string value (c_str of a temporary etc.)"""
    __slots__ = ("s", "pos")

    def __init__(self, s, pos):
        self.s, self.pos = s, pos


class SPtr:
    """symbolic pointer: integer address term plus byte offset"""
    __slots__ = ("t", "off")

    def __init__(self, t, off=0):
        self.t, self.off = t, off

    def __repr__(self):
        return "SPtr(%s+%d)" % (self.t, self.off)


class It:
    """iterator into node based container stored at (rid,coff); pos is an integer term (sequence position)
    or, for keyed containers, (key term, isend Bool term)"""
    __slots__ = ("rid", "coff", "pos", "key", "end", "via")

    def __init__(self, rid, coff, pos=None, key=None, end=None):
        self.rid, self.coff, self.pos, self.key, self.end = rid, coff, pos, key, end

    def __repr__(self):
        return "It(%s+%d,%s,%s,%s)" % (self.rid, self.coff, self.pos, self.key, self.end)


class VPtr:
    """vtable pointer of the object at (rid,off) whose dynamic class is not fixed"""
    __slots__ = ("rid", "off", "slot")

    def __init__(self, rid, off, slot=0):
        self.rid, self.off, self.slot = rid, off, slot


class VFn:
    __slots__ = ("rid", "off", "slot")

    def __init__(self, rid, off, slot):
        self.rid, self.off, self.slot = rid, off, slot


class FnPtr:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


class SeqV:
    """value of std::list / std::vector: length plus one array per element field"""
    __slots__ = ("base", "n", "fields", "kind", "esize", "lv", "lo")

    def __init__(self, base, n, fields=None, kind="list", esize=None, lv=None, lo=None):
        self.base, self.n, self.fields, self.kind, self.esize, self.lv = base, n, fields or {}, kind, esize, lv
        self.lo = z3.IntVal(0) if lo is None else lo     # elements live at indices lo .. lo+n-1

    @property
    def end(self):
        return z3.simplify(self.lo + self.n)

    def with_(self, n=None, fields=None, base=None, lo=None):
        return SeqV(base or self.base, self.n if n is None else z3.simplify(n),
                    dict(self.fields if fields is None else fields), self.kind, self.esize, self.lv,
                    self.lo if lo is None else z3.simplify(lo))


class MapV:
    """value of std::map / std::set / unordered_set: domain set plus one array per value field"""
    __slots__ = ("base", "n", "dom", "fields", "kind", "ks", "enum", "lv", "kl")

    def __init__(self, base, n, dom, fields=None, kind="map", ks=None, enum=None, lv=None, kl=None):
        self.base, self.n, self.dom, self.fields, self.kind, self.ks = base, n, dom, fields or {}, kind, ks
        self.enum = enum if enum is not None else z3.Const(base + ".enum", z3.ArraySort(IntS, ks))
        self.lv = lv
        self.kl = kl

    def with_(self, n=None, dom=None, fields=None, base=None):
        return MapV(base or self.base, self.n if n is None else n, self.dom if dom is None else dom,
                    dict(self.fields if fields is None else fields), self.kind, self.ks,
                    self.enum if dom is None else z3.Const(fresh_name("enum"), z3.ArraySort(IntS, self.ks)), self.lv, self.kl)


class StreamV:
    """std::stringstream content"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Opaque:
    """an object the verifier does not look into"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


F32, F64, F80 = z3.Float32(), z3.Float64(), z3.FPSort(15, 64)
INTEGRAL = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": z3.RNE(), "nearbyint": z3.RNE(), "roundeven": z3.RNE(), "round": z3.RNA()}


def fp_sort(k):
    """the format of an LLVM floating point type"""
    return {"float": F32, "double": F64, "x86_fp80": F80}[k]


def fp_uf(name, *a):
    """a function of the C library about which nothing more is known"""
    return z3.Function("C." + name, *([x.sort() for x in a] + [a[0].sort()]))(*a)


def fp_copysign(x, y):
    """magnitude of x with the sign of y (a NaN stays a NaN)"""
    m = z3.fpAbs(x)
    return z3.If(z3.fpIsNegative(y), z3.fpNeg(m), m)
RNE, RTZ = z3.RNE(), z3.RTZ()


def is_const_bv(v):
    return isinstance(v, z3.BitVecNumRef)


def cint(v):
    """python int of a constant integer value or None (unsigned)"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if isinstance(v, IV):
        if isinstance(v.t, z3.IntNumRef):
            return v.t.as_long()
        return None
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
    return None


def to_bv(v, w=None):
    if isinstance(v, IV):
        if isinstance(v.t, z3.IntNumRef):
            return z3.BitVecVal(v.t.as_long(), v.w)
        return v.bv()
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w or 1), z3.BitVecVal(0, w or 1))
    return v


def to_iv(v):
    if isinstance(v, IV):
        return v
    if isinstance(v, z3.BitVecNumRef):
        k = v.as_long()
        return IV(z3.IntVal(k), v.size(), k, k)
    if isinstance(v, z3.BitVecRef):
        return IV(z3.BV2Int(v), v.size(), 0, (1 << v.size()) - 1)
    raise TypeError(v)


def iv_wrap(t, w, lo, hi):
    M = 1 << w
    if isinstance(t, int):
        t = z3.IntVal(t)
    t = z3.simplify(t)
    if isinstance(t, z3.IntNumRef):
        k = t.as_long() % M
        return IV(z3.IntVal(k), w, k, k)
    if lo >= 0 and hi < M:
        return IV(t, w, lo, hi)
    if lo >= -M and hi < M:
        return IV(z3.If(t < 0, t + M, t), w, 0, M - 1)
    if lo >= 0 and hi < 2 * M:
        return IV(z3.If(t >= M, t - M, t), w, 0, M - 1)
    return IV(t % M, w, 0, M - 1)


def fp_add(a, b):
    """IEEE addition, operands in a fixed order (it is commutative)"""
    a, b = z3.simplify(a), z3.simplify(b)
    if a.get_id() > b.get_id():
        a, b = b, a
    return z3.fpAdd(z3.RNE(), a, b)


def fp_sub(a, b):
    return fp_add(a, z3.simplify(z3.fpNeg(b)))


def fp_mul(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if a.get_id() > b.get_id():
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        if isinstance(x, z3.FPNumRef) and not x.isNaN() and not x.isInf():
            if str(x) == "1":
                return y
            if str(x) == "-1":
                return z3.simplify(z3.fpNeg(y))
    return z3.fpMul(z3.RNE(), a, b)


def fp_div(a, b):
    return z3.fpDiv(z3.RNE(), a, b)


def fp_trunc(v, S):
    """double -> float; a sum, difference or product of two widened floats is rounded like the float operation itself
    (double carries more than 2p+2 bits, so rounding twice is innocuous)"""
    v = z3.simplify(v)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 2 and v.arg(1).sort() == S and v.sort().sbits() >= S.sbits() and v.sort().ebits() >= S.ebits():
        return v.arg(1)
    if S == F32 and z3.is_app(v) and v.num_args() == 3 and v.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL):
        def small(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_TO_FP and x.num_args() == 2 and x.arg(1).sort() == F32:
                return x.arg(1)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_NEG:
                y = small(x.arg(0))
                return None if y is None else z3.simplify(z3.fpNeg(y))
            return None
        a, b = small(v.arg(1)), small(v.arg(2))
        if a is not None and b is not None:
            return (fp_add if v.decl().kind() == z3.Z3_OP_FPA_ADD else fp_mul)(a, b)
    return z3.simplify(z3.fpFPToFP(z3.RNE(), v, S))


def narrow(e):
    """smallest t found such that e is t sign-extended"""
    w = e.size()
    if isinstance(e, z3.BitVecNumRef):
        v = e.as_signed_long()
        k = max(1, (v if v >= 0 else ~v).bit_length() + 1)
        return z3.BitVecVal(v, min(k, w))
    if z3.is_app_of(e, z3.Z3_OP_CONCAT):
        ch = e.children()
        cat = lambda cs: cs[0] if len(cs) == 1 else z3.Concat(*cs)
        if isinstance(ch[0], z3.BitVecNumRef) and ch[0].as_long() == 0:
            return z3.Concat(z3.BitVecVal(0, 1), cat(ch[1:]))
        i = 0
        while i + 1 < len(ch) and ch[i].size() == 1:
            rest = cat(ch[i + 1:]) if i + 2 == len(ch) or ch[i + 1].size() == 1 else cat(ch[i + 1:])
            nxt = ch[i + 1]
            top = z3.simplify(z3.Extract(nxt.size() - 1, nxt.size() - 1, nxt))
            if not top.eq(ch[i]):
                break
            i += 1
        return cat(ch[i:])
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, x, y = e.children()
        x, y = narrow(x), narrow(y)
        k = max(x.size(), y.size())
        return z3.If(c, sext_to(x, k), sext_to(y, k))
    return e


def sext_to(e, w):
    return z3.SignExt(w - e.size(), e) if e.size() < w else e


def narrow_div(op, a, b):
    """sdiv/srem of sign-extended operands, computed at the operands' own width"""
    w = a.size()
    x, y = narrow(a), narrow(b)
    k = max(x.size(), y.size())
    if k >= w:
        return None
    x, y = z3.simplify(sext_to(x, k)), z3.simplify(sext_to(y, k))
    if op == "srem":
        return sext_to(z3.SRem(x, y), w)
    # the only quotient that does not fit is smallest / -1
    mn = z3.BitVecVal(1 << (k - 1), k)
    return z3.If(z3.And(x == mn, y == z3.BitVecVal(-1, k)), z3.ZeroExt(w - k, mn), sext_to(x / y, w))
