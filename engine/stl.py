"""Contracts of the C++ standard library, libc and the C++ runtime (trusted, listed in the evidence)."""
import re
import z3

from . import ir
from .ir import IntT, FloatT, PtrT, StructT, ArrT, NamedT, resolve, size_of, field_offset
from .vals import *
from .sem import Unsupported, Fork, sort_of, Budget

NPOS = (1 << 64) - 1


# ------------------------------------------------------------------ template arguments
def targs(s):
    """'A<x, y<z> >::m(..)' -> (['x','y<z>'], rest after the closing bracket)"""
    i = s.index("<")
    d, j, st, out = 0, i, i + 1, []
    while True:
        c = s[j]
        if c in "<(":
            d += 1
        elif c in ">)":
            if not (c == ">" and s[j - 1] == "-"):
                d -= 1
            if d == 0:
                out.append(s[st:j].strip())
                break
        elif c == "," and d == 1:
            out.append(s[st:j].strip())
            st = j + 1
        j += 1
    return out, s[j + 1:]


class Info:
    __slots__ = ("esize", "lv", "ks", "kl", "voff", "kt", "vt")


_leafcache = {}


def leaves_of_ir(t, off=0):
    """flatten an IR type into (offset, kind) leaves; library objects are single leaves"""
    if isinstance(t, NamedT):
        n = t.name
        if "basic_string" in n and "stream" not in n:
            return [(off, "str")]
        m = re.match(r"(?:class|struct)\.std::(?:__cxx11::)?(list|vector|map|set|unordered_set|unordered_map|basic_\w*stream)\b", n)
        if m:
            return [(off, "cont:" + m.group(1))]
        if n.startswith("struct.std::_List_") or n.startswith("struct.std::_Rb_tree"):
            return [(off, "ptr")]
        if n.startswith("union.") and size_of(t) in (1, 2, 4, 8):
            return [(off, "i%d" % (8 * size_of(t)))]
        t = resolve(t)
    if isinstance(t, StructT):
        out = []
        for i, e in enumerate(t.elems):
            out += leaves_of_ir(e, off + field_offset(t, i))
        return out
    if isinstance(t, ArrT):
        if isinstance(resolve(t.t), IntT) and resolve(t.t).w == 8:
            return []      # padding
        out = []
        for i in range(t.n):
            out += leaves_of_ir(t.t, off + i * size_of(t.t))
        return out
    if isinstance(t, IntT):
        return [(off, "i%d" % t.w)]
    if isinstance(t, FloatT):
        return [(off, "f" if t.k == "float" else "d")]
    if isinstance(t, PtrT):
        return [(off, "ptr")]
    raise Unsupported("leaf type %r" % t)


SCALARS = {"int": ("i32", 4), "unsigned int": ("i32", 4), "bool": ("i8", 1), "char": ("i8", 1), "long": ("i64", 8),
           "unsigned long": ("i64", 8), "short": ("i16", 2), "float": ("f", 4), "double": ("d", 8),
           "std::string": ("str", 32), "unsigned short": ("i16", 2), "unsigned char": ("i8", 1)}


def layout(E, tn):
    """(size, leaves) of the C++ type named tn"""
    tn = tn.strip()
    if tn.endswith(" const"):
        tn = tn[:-6]
    if tn.startswith("const "):
        tn = tn[6:]
    r = _leafcache.get(tn)
    if r is not None:
        return r
    if tn.endswith("*") or tn.endswith("&"):
        r = (8, [(0, "ptr")])
    elif tn in SCALARS:
        r = (SCALARS[tn][1], [(0, SCALARS[tn][0])])
    elif tn.startswith("std::pair<"):
        a, _ = targs(tn)
        s1, l1 = layout(E, a[0])
        s2, l2 = layout(E, a[1])
        al = max([leaf_align(k) for _, k in l2] or [1])
        al1 = max([leaf_align(k) for _, k in l1] or [1])
        o2 = (s1 + al - 1) // al * al
        m = max(al, al1)
        sz = (o2 + s2 + m - 1) // m * m
        r = (sz, l1 + [(o2 + o, k) for o, k in l2])
    elif tn.startswith(("std::_List_", "std::_Rb_tree_")):
        r = (8, [(0, "ptr")])
    else:
        m = re.match(r"std::(list|vector|map|set|unordered_set)<", tn)
        if m:
            r = (E.CSIZE[{"unordered_set": "uset"}.get(m.group(1), m.group(1))], [(0, "cont:" + m.group(1))])
        else:
            q = re.sub(r"\([^()]*\)(?: const)?::", "::", tn)
            t = None
            for cand in (tn, q):
                try:
                    t = E.P.struct_of(cand)
                    break
                except KeyError:
                    pass
            if t is None:
                try:
                    E.P.enum(tn)
                    r = (4, [(0, "i32")])
                except KeyError:
                    # function-local class: match by suffix
                    for mod in E.P.modules:
                        for n in mod._structtext:
                            if n.split(".")[1:] and n.split(".", 1)[1] in (tn.split("::")[-1],):
                                t = NamedT(mod, n)
                    if t is None:
                        raise Unsupported("layout of " + tn)
            if r is None:
                r = (size_of(t), leaves_of_ir(t))
    _leafcache[tn] = r
    return r


def leaf_align(k):
    return {"i8": 1, "i16": 2, "i32": 4, "f": 4, "i1": 1}.get(k, 8)


def leaf_sort(k):
    if k == "str":
        return Str
    if k == "ptr":
        return IntS
    if k.startswith("cont"):
        return AnyS
    if k == "f":
        return F32
    if k == "d":
        return F64
    return z3.BitVecSort(int(k[1:]))


def leaf_ir(k):
    if k == "ptr":
        return ir.PTR
    if k == "f":
        return ir.FLOAT
    if k == "d":
        return ir.DOUBLE
    return ir._INTS[int(k[1:])]


def member(dom, k):
    """k is in the set; decided for literal keys where the set was built from literals"""
    b = const_of(k)
    if b is not None:
        while z3.is_store(dom):
            x = const_of(dom.arg(1))
            if x is None:
                break
            if x == b:
                return dom.arg(2)
            dom = dom.arg(0)
        if z3.is_K(dom):
            return dom.arg(0)
        return z3.Select(dom, k)
    d, ks = dom, []
    while z3.is_store(d) and z3.is_true(d.arg(2)):
        ks.append(d.arg(1))
        d = d.arg(0)
    if ks and z3.is_K(d) and z3.is_false(d.arg(0)):
        return z3.Or(*[k == x for x in ks])
    return z3.Select(dom, k)


def cinfo(E, kind, a):
    key = (kind, tuple(a[:2]))
    c = E._cinfo.get(key)
    if c is not None:
        return c
    c = Info()
    c.ks = None
    c.kl = 0
    c.voff = 0
    c.kt = c.vt = None
    if kind in ("list", "vector"):
        c.esize, c.lv = layout(E, a[0])
    else:
        ksz, kl = layout(E, a[0])
        c.kt = a[0]
        c.kl = max(ksz, 1)
        c.ks = leaf_sort(kl[0][1]) if len(kl) == 1 and not kl[0][1].startswith("cont") else AnyS
        if kind == "map":
            c.esize, lv = layout(E, "std::pair<%s, %s>" % (a[0], a[1]))
            c.voff = min([o for o, k in lv[len(kl):]] or [c.kl])
            c.lv = [(o, k) for o, k in lv[len(kl):]]
            c.vt = a[1]
        elif a[0] in E.key_leaves:
            # elements are told apart by some of their parts only (their order is proved to look at nothing else)
            c.esize, c.lv, c.kl, c.ks = ksz, kl, 0, AnyS
        else:
            c.esize, c.lv = ksz, []
    E._cinfo[key] = c
    return c


def read_leaf(E, st, p, k):
    """term of a leaf stored in memory"""
    if k == "str":
        return E.get_str(st, p)
    if k.startswith("cont"):
        q = E.resolve_ptr(st, p)
        if isinstance(q, EPtr):
            c = E.container(st, cloc(q))
            return z3.simplify(z3.Select(E.field_arr(c, q.off, AnyS), q.idx))
        r = st.mem[q.rid]
        e = r.cells.get(q.off)
        if e is None:
            n = "%s.%d" % (r.base, q.off)
            v = z3.Const(n, AnyS)
            return v
        return e[0] if isinstance(e[0], z3.ExprRef) else E.pack(e[0])
    v = E.load(st, p, leaf_ir(k))
    if isinstance(v, It):
        t = z3.Const(fresh_name("itp"), IntS)
        E.itpack[t.get_id()] = (t, v)
        return t
    if isinstance(v, (Ptr, SPtr, FnPtr)):
        return E.addr(st, v)
    if isinstance(v, (EPtr, CPtr, LPtr)):
        t = z3.Const(fresh_name("itp"), IntS)
        E.itpack[t.get_id()] = (t, v)
        return t
    if isinstance(v, z3.BoolRef):
        return to_bv(v, int(k[1:]))
    return to_bv(v) if isinstance(v, IV) else v


def read_elem(E, st, p, lv):
    out = {}
    p = E.resolve_ptr(st, p)
    for o, k in lv:
        out[o] = read_leaf(E, st, E.padd(p, o), k)
    return out


def put_elem(E, c, idx, vals, off=0):
    f = dict(c.fields)
    for o, v in vals.items():
        f[off + o] = z3.Store(E.field_arr(c, off + o, v.sort()), idx, v)
    return f


def by_value(E, st, t, p):
    """argument passed for a by-value parameter of class t constructed from the object at p"""
    size, lv = layout(E, t)
    if size <= 8 and all(k[0] == "i" for o, k in lv):
        return E.load(st, p, ir._INTS[8 * size])
    rid = st.new("alloca", name=fresh_name("arg"), size=size)
    w = st.w(rid)
    for (o, v), (_, k) in zip(read_elem(E, st, p, lv).items(), lv):
        if k == "str":
            E.set_str(st, Ptr(rid, o), v)
        elif k.startswith("cont"):
            st.w(rid).cells[o] = (v, E.CSIZE[k[5:]] if k[5:] in E.CSIZE else 8)
        elif k == "ptr":
            E.store(st, Ptr(rid, o), E.ptr_from(st, v), ir.PTR)
        else:
            E.store(st, Ptr(rid, o), v, leaf_ir(k))
    return Ptr(rid, 0)


def ret_it(E, st, it):
    return it


# ------------------------------------------------------------------ helpers for strings
def istr(E, st, p):
    return E.get_str(st, p)


def iv64(t, lo=0, hi=(1 << 63) - 1):
    return IV(z3.simplify(t), 64, lo, hi)


def size_iv(E, s):
    return iv64(E.slen(s))


f_find = z3.Function("str.find", Str, Str, IntS, IntS)
f_findc = z3.Function("str.findc", Str, IntS, IntS, IntS)
f_ffo = z3.Function("str.find_first_of", Str, Str, IntS, IntS)
f_ffno = z3.Function("str.find_first_not_of", Str, Str, IntS, IntS)
f_flo = z3.Function("str.find_last_of", Str, Str, IntS, IntS)
f_flno = z3.Function("str.find_last_not_of", Str, Str, IntS, IntS)
f_has = z3.Function("str.has", Str, IntS, z3.BoolSort())
f_rfind = z3.Function("str.rfind", Str, Str, IntS, IntS)
f_dec = z3.Function("dec", z3.BitVecSort(64), Str)
f_udec = z3.Function("udec", z3.BitVecSort(64), Str)
f_fixed = z3.Function("fixed", F64, Str)
f_general = z3.Function("general", F64, Str)


def dec(v):
    """decimal form of a signed number of any width"""
    w = v.size()
    return f_dec(z3.SignExt(64 - w, v) if w < 64 else v)


def sint(v):
    return to_iv(v).signed()


def inset(c, set_bytes):
    return z3.Or(*[c == b for b in sorted(set(set_bytes))]) if set_bytes else z3.BoolVal(False)


def has_ite(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        stack.extend(x.children())
    return False


def find_generic(E, st, f, s, key, pos, pred, last=False):
    """r = f(s,key,pos): first (or last) index >= pos (<= pos) whose character satisfies pred, -1 when none"""
    r = f(s, key, pos)
    n = E.slen(s)
    i = z3.Int("i!f")
    k = ("find", r.get_id())
    if not st.ghost.get(k):
        st.ghost[k] = r
        if not z3.is_app(s) or s.decl().kind() != z3.Z3_OP_UNINTERPRETED or has_ite(s):
            # a name for the text, so that quantified facts about it can be instantiated
            v = z3.Const(fresh_name("text"), Str)
            st.pc.append(v == s)
            s = v
        b = const_of(s)
        if not last and b is not None and z3.is_int_value(z3.simplify(pos)) and len(b) <= 64:
            b = b[z3.simplify(pos).as_long():]
            hits = [pred(z3.IntVal(ch)) for ch in b]
            p0 = z3.simplify(pos)
            first = z3.IntVal(-1)
            for k in reversed(range(len(hits))):
                first = z3.If(hits[k], p0 + k, first)
            st.pc.append(r == first)
            st.pc.append((r == -1) == z3.Not(z3.Or(*hits)))
        elif not last:
            st.pc.append(z3.Or(r == -1, z3.And(r >= pos, r < n, pred(f_at(s, r)))))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= pos, i < z3.If(r == -1, n, r)), z3.Not(pred(f_at(s, i)))),
                                   patterns=[f_at(s, i)]))
        else:
            st.pc.append(z3.Or(r == -1, z3.And(r >= 0, r < n, r <= pos, pred(f_at(s, r)))))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i > r, i < n, i <= pos), z3.Not(pred(f_at(s, i)))),
                                   patterns=[f_at(s, i)]))
    return IV(z3.If(r == -1, z3.IntVal(NPOS), r), 64, 0, NPOS)


def posarg(v):
    iv = to_iv(v)
    return iv.t


def substr(E, st, s, pos, n):
    """value of s.substr(pos,n) for 0<=pos<=len; n any size_t"""
    L = E.slen(s)
    b = const_of(s)
    pos, n = z3.simplify(pos), z3.simplify(n)
    if b is not None and isinstance(pos, z3.IntNumRef) and isinstance(n, z3.IntNumRef):
        return strconst(b[pos.as_long():pos.as_long() + n.as_long()])
    m = z3.simplify(z3.If(n > L - pos, L - pos, n))
    if z3.is_true(z3.simplify(z3.And(pos == 0, m == L))) or (E.entails(st, z3.And(pos == 0, m == L))):
        return s
    if not isinstance(n, z3.IntNumRef) or n.as_long() < (1 << 62):
        if E.entails(st, n <= L - pos):
            m = n
        elif E.entails(st, n >= L - pos):
            m = z3.simplify(L - pos)
    else:
        m = z3.simplify(L - pos)
    return f_sub(s, pos, m)


def install(E):
    E._cinfo = {}
    E.itpack = {}
    M = E.models
    RX = E.model_rx

    def rx(p):
        def d(f):
            RX.append((re.compile(p), f))
            return f
        return d

    def nop(E, st, a, i, m=None):
        return None

    # -------------------------------------------------------------- runtime
    M["_Znwm"] = lambda E, st, a, i: new_obj(E, st, a)
    M["_Znam"] = lambda E, st, a, i: new_obj(E, st, a)

    def new_obj(E, st, a):
        n = cint(a[0])
        rid = st.new("heap", name="new", size=n)
        return Ptr(rid, 0)

    def delete(E, st, a, i):
        p = a[0]
        if isinstance(p, SPtr):
            q = E.ptr_from(st, p.t)
            if isinstance(q, Ptr) and q.rid == 0:
                return None
            e = st.ptrs.get(p.t.get_id())
            if e:
                st.w(e[0]).dead = True
            st.event("free", E.addr(st, p))
        elif isinstance(p, Ptr) and p.rid and p.rid in st.mem:
            st.event("free", E.addr(st, p))
            st.w(p.rid).dead = True
        return None
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
        M[n] = delete
    M["free"] = nop

    def alloc_exc(E, st, a, i):
        rid = st.new("heap", name="exception")
        return Ptr(rid, 0)
    M["__cxa_allocate_exception"] = alloc_exc
    M["__cxa_free_exception"] = nop

    def cxa_throw(E, st, a, i):
        ti = a[1]
        name = st.mem[ti.rid].name if isinstance(ti, Ptr) else ti.name
        return E.throw(st, name, a[0])
    M["__cxa_throw"] = cxa_throw

    def begin_catch(E, st, a, i):
        p = a[0]
        st.caught = st.caught + [st.ghost.get(("exc", p.rid))]
        return p
    M["__cxa_begin_catch"] = begin_catch
    M["__cxa_get_exception_ptr"] = lambda E, st, a, i: a[0]

    def end_catch(E, st, a, i):
        if st.caught:
            st.caught = st.caught[:-1]
        return None
    M["__cxa_end_catch"] = end_catch

    def rethrow(E, st, a, i):
        if not st.caught or st.caught[-1] is None:
            raise Unsupported("rethrow without exception")
        return [(st, st.caught[-1])]
    M["__cxa_rethrow"] = rethrow

    def terminate(E, st, a, i):
        return [(st, ("abort", "terminate"))]
    M["_ZSt9terminatev"] = terminate
    M["__clang_call_terminate"] = terminate
    M["abort"] = terminate
    M["exit"] = lambda E, st, a, i: [(st, ("exit", a[0]))]

    def assert_fail(E, st, a, i):
        E.oblige(st, False, "safety", "assertion %s" % _cs(E, st, a[0]))
        raise Fork([])
    M["__assert_fail"] = assert_fail

    def _cs(E, st, p):
        try:
            b = E.const_bytes(st, p)
            return b.split(b"\0")[0].decode()
        except Exception:
            return "?"

    def guard(E, st, a, i):
        return z3.BitVecVal(1, 32)
    M["__cxa_guard_acquire"] = guard
    M["__cxa_guard_release"] = nop
    M["__cxa_guard_abort"] = nop
    M["__cxa_atexit"] = lambda E, st, a, i: z3.BitVecVal(0, 32)
    M["__cxa_pure_virtual"] = terminate

    def dyncast(E, st, a, i):
        src, dst = st.mem[a[1].rid].name, st.mem[a[2].rid].name
        p = a[0]
        if isinstance(p, Ptr) and p.rid == 0:
            return NULL
        p = E.resolve_ptr(st, p, "dynamic_cast")
        if not isinstance(p, Ptr):
            raise Unsupported("dynamic_cast of %r" % (p,))
        e = st.mem[p.rid].cells.get(p.off)
        if e is None:
            E.static_class(st, p, src)
        cl = E.dyn_classes(st, p)
        P = E.P
        yes = frozenset(c for c in cl if P.derives(c, dst))
        no = frozenset(c for c in cl if not P.derives(c, dst))
        E.assumptions.add("closed world: objects are instances of classes defined in the lowered sources")
        if yes and no:
            def nar(cs):
                def fx(s):
                    s.w(E.resolve_ptr(s, a[0]).rid).classes = cs
                return fx
            raise Fork([True, True], [nar(yes), nar(no)])
        if not yes:
            return NULL
        deltas = {P.ancestors(c)[dst] - P.ancestors(c).get(src, 0) for c in yes}
        if len(deltas) != 1:
            raise Unsupported("dynamic_cast with varying offset")
        q = E.padd(p, deltas.pop())
        if st.mem[p.rid].base is not None and e is None:
            E.static_class(st, q, dst)
        return q
    M["__dynamic_cast"] = dyncast
    M["__cxa_bad_cast"] = lambda E, st, a, i: E.throw(st, "_ZTISt8bad_cast")
    M["getenv"] = lambda E, st, a, i: SPtr(z3.Int(fresh_name("getenv")))

    def printf(E, st, a, i):
        st.event("out", "printf")
        return z3.BitVec(fresh_name("printf"), 32)
    for n in ("printf", "puts", "putchar", "fprintf", "perror"):
        M[n] = printf
    M["backtrace"] = lambda E, st, a, i: z3.BitVecVal(0, 32)

    @rx(r"std::(?:exception|runtime_error|logic_error|bad_alloc|bad_cast)::(~?)\w+\(")
    def exc_ctor(E, st, a, i, m):
        return None

    @rx(r"std::(?:__new_allocator|allocator)<.*>::~?(?:__new_allocator|allocator)\(")
    def alloc_ctor(E, st, a, i, m):
        return None

    @rx(r"(?:Common|Utils)::(?:Debugging::)?Logger::|(?:Utils::)?Printer::|Utils::PrinterDriver::")
    def logger(E, st, a, i, m):
        st.event("log", m.group(0))
        return default_ret(E, st, i)

    def default_ret(E, st, i):
        if i is None or i.t is None:
            return None
        t = resolve(i.t)
        if isinstance(t, ir.VoidT):
            return None
        return E.default_value(t, fresh_name("r"))
    E.default_ret = default_ret

    # -------------------------------------------------------------- std::string
    def S(E, st, p):
        return E.get_str(st, p)

    @rx(r"std::string::basic_string\((.*)\)$")
    def str_ctor(E, st, a, i, m):
        sig = m.group(1)
        if sig in ("", "std::allocator<char> const&"):
            E.set_str(st, a[0], EMPTY)
        elif sig in ("char const*, std::allocator<char> const&", "char const*"):
            E.set_str(st, a[0], E.cstr(st, a[1]))
        elif sig == "std::string const&":
            E.set_str(st, a[0], S(E, st, a[1]))
        elif sig == "std::string&&":
            v = S(E, st, a[1])
            E.set_str(st, a[1], EMPTY)
            E.set_str(st, a[0], v)
        elif sig.startswith("unsigned long, char"):
            E.set_str(st, a[0], str_fill(E, st, a[1], a[2]))
        elif sig.startswith("std::string const&, unsigned long, unsigned long"):
            return sub_at(E, st, a[0], S(E, st, a[1]), a[2], a[3])
        elif sig.startswith("std::string const&, unsigned long"):
            return sub_at(E, st, a[0], S(E, st, a[1]), a[2], z3.BitVecVal(NPOS, 64))
        elif sig.startswith("char const*, unsigned long"):
            s = E.cstr(st, a[1])
            E.set_str(st, a[0], substr(E, st, s, z3.IntVal(0), posarg(a[2])))
        else:
            raise Unsupported("string constructor " + sig)
        return None

    def str_fill(E, st, n, c):
        k = cint(n)
        cc = cint(c)
        if k is not None and cc is not None and k < 256:
            return strconst(bytes([cc]) * k)
        if k == 1:
            return f_unit(to_iv(c).t)
        s = z3.Const(fresh_name("fill"), Str)
        j = z3.Int("i!f")
        st.pc.append(f_len(s) == to_iv(n).t)
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f_len(s)), f_at(s, j) == to_iv(c).t), patterns=[f_at(s, j)]))
        return s

    def sub_at(E, st, dst, s, pos, n):
        p = posarg(pos)
        if E.decide(st, p > E.slen(s)):
            return E.throw(st, "_ZTISt12out_of_range")
        E.set_str(st, dst, substr(E, st, s, p, posarg(n)))
        return None

    @rx(r"std::string::~basic_string\(")
    def str_dtor(E, st, a, i, m):
        return None

    def chr_str(E, v):
        k = cint(v)
        if k is not None:
            return strconst(bytes([k]))
        return f_unit(to_iv(v).t)

    def argstr(E, st, sig, v):
        if sig in ("std::string const&", "std::string&&", "std::string"):
            return S(E, st, v)
        if sig == "char const*":
            return E.cstr(st, v)
        if sig == "char":
            return chr_str(E, v)
        raise Unsupported("string argument " + sig)

    @rx(r"std::string::operator(=|\+=)\((.*)\)$")
    def str_assign(E, st, a, i, m):
        v = argstr(E, st, m.group(2), a[1])
        if m.group(1) == "=":
            if m.group(2) == "std::string&&" and not (isinstance(a[0], Ptr) and a[0] == a[1]):
                E.set_str(st, a[1], EMPTY)
            E.set_str(st, a[0], v)
        else:
            E.set_str(st, a[0], E.scat(S(E, st, a[0]), v))
        return a[0]

    @rx(r"std::string::(append|assign)\((std::string const&|char const\*|std::string&&)\)$")
    def str_append(E, st, a, i, m):
        v = argstr(E, st, m.group(2), a[1])
        E.set_str(st, a[0], E.scat(S(E, st, a[0]), v) if m.group(1) == "append" else v)
        return a[0]

    @rx(r"std::string::append\(unsigned long, char\)$")
    def str_append_fill(E, st, a, i, m):
        E.set_str(st, a[0], E.scat(S(E, st, a[0]), str_fill(E, st, a[1], a[2])))
        return a[0]

    @rx(r"std::string::push_back\(char\)$")
    def str_push(E, st, a, i, m):
        E.set_str(st, a[0], E.scat(S(E, st, a[0]), chr_str(E, a[1])))
        return None

    @rx(r"std::string::pop_back\(\)$")
    def str_pop(E, st, a, i, m):
        s = S(E, st, a[0])
        E.oblige(st, E.slen(s) > 0, "safety", "pop_back on empty string")
        E.set_str(st, a[0], substr(E, st, s, z3.IntVal(0), E.slen(s) - 1))
        return None

    @rx(r"std::string::(c_str|data)\(\)( const)?$")
    def str_cstr(E, st, a, i, m):
        return CPtr(E.resolve_ptr(st, a[0]), z3.IntVal(0))

    @rx(r"std::string::(size|length)\(\) const$")
    def str_size(E, st, a, i, m):
        return size_iv(E, S(E, st, a[0]))

    @rx(r"std::string::empty\(\) const$")
    def str_empty(E, st, a, i, m):
        s = S(E, st, a[0])
        b = const_of(s)
        if b is not None:
            return z3.BoolVal(b == b"")
        return s == EMPTY

    @rx(r"std::string::clear\(\)$")
    def str_clear(E, st, a, i, m):
        E.set_str(st, a[0], EMPTY)
        return None

    @rx(r"std::string::operator\[\]\(unsigned long\)( const)?$")
    def str_index(E, st, a, i, m):
        p = posarg(a[1])
        E.oblige(st, z3.And(p >= 0, p <= E.slen(S(E, st, a[0]))), "safety", "string index within bounds")
        return CPtr(E.resolve_ptr(st, a[0]), p)

    @rx(r"std::string::at\(unsigned long\)( const)?$")
    def str_at(E, st, a, i, m):
        p = posarg(a[1])
        if E.decide(st, p >= E.slen(S(E, st, a[0]))):
            return E.throw(st, "_ZTISt12out_of_range")
        return CPtr(E.resolve_ptr(st, a[0]), p)

    @rx(r"std::string::(front|back)\(\)( const)?$")
    def str_front(E, st, a, i, m):
        L = E.slen(S(E, st, a[0]))
        E.oblige(st, L > 0, "safety", "front/back of empty string")
        return CPtr(E.resolve_ptr(st, a[0]), z3.IntVal(0) if m.group(1) == "front" else z3.simplify(L - 1))

    @rx(r"std::string::(c?begin|c?end)\(\)( const)?$")
    def str_begin(E, st, a, i, m):
        L = E.slen(S(E, st, a[0]))
        return CPtr(E.resolve_ptr(st, a[0]), z3.IntVal(0) if "begin" in m.group(1) else L)

    @rx(r"std::string::substr\(unsigned long, unsigned long\) const$")
    def str_substr(E, st, a, i, m):
        return sub_at(E, st, a[0], S(E, st, a[1]), a[2], a[3])

    @rx(r"std::string::erase\(unsigned long, unsigned long\)$")
    def str_erase(E, st, a, i, m):
        s = S(E, st, a[0])
        p, n = posarg(a[1]), posarg(a[2])
        L = E.slen(s)
        if E.decide(st, p > L):
            return E.throw(st, "_ZTISt12out_of_range")
        head = substr(E, st, s, z3.IntVal(0), p)
        if E.decide(st, n >= L - p):
            r = head
        else:
            r = E.scat(head, substr(E, st, s, p + n, L - p - n))
        E.set_str(st, a[0], r)
        return a[0]

    @rx(r"std::string::replace\(unsigned long, unsigned long, (std::string const&|char const\*)\)$")
    def str_replace(E, st, a, i, m):
        s = S(E, st, a[0])
        p, n = posarg(a[1]), posarg(a[2])
        L = E.slen(s)
        v = argstr(E, st, m.group(1), a[3])
        if E.decide(st, p > L):
            return E.throw(st, "_ZTISt12out_of_range")
        head = substr(E, st, s, z3.IntVal(0), p)
        if E.decide(st, n >= L - p):
            r = E.scat(head, v)
        else:
            r = E.scat(head, E.scat(v, substr(E, st, s, p + n, L - p - n)))
        E.set_str(st, a[0], r)
        return a[0]

    @rx(r"std::string::resize\(unsigned long(, char)?\)$")
    def str_resize(E, st, a, i, m):
        s = S(E, st, a[0])
        n = posarg(a[1])
        L = E.slen(s)
        if E.decide(st, n <= L):
            E.set_str(st, a[0], substr(E, st, s, z3.IntVal(0), n))
        else:
            E.set_str(st, a[0], E.scat(s, str_fill(E, st, iv64(n - L), a[2] if m.group(1) else z3.BitVecVal(0, 8))))
        return None

    @rx(r"std::string::reserve\(")
    def str_reserve(E, st, a, i, m):
        return None

    @rx(r"std::string::swap\(std::string&\)")
    def str_swap(E, st, a, i, m):
        x, y = S(E, st, a[0]), S(E, st, a[1])
        E.set_str(st, a[0], y)
        E.set_str(st, a[1], x)
        return None

    @rx(r"std::string::compare\((std::string const&|char const\*)\) const$")
    def str_compare(E, st, a, i, m):
        x, y = S(E, st, a[0]), argstr(E, st, m.group(1), a[1])
        r = z3.BitVec(fresh_name("cmp"), 32)
        st.pc.append((r == 0) == (x == y))
        st.pc.append((r < 0) == f_lt(x, y))
        return r

    def cmp_res(st, x, y):
        r = z3.BitVec(fresh_name("cmp"), 32)
        st.pc.append((r == 0) == (x == y))
        st.pc.append((r < 0) == f_lt(x, y))
        return r

    @rx(r"std::string::compare\(unsigned long, unsigned long, (std::string const&|char const\*)(, unsigned long)?(, unsigned long)?\) const$")
    def str_compare3(E, st, a, i, m):
        x, y = S(E, st, a[0]), argstr(E, st, m.group(1), a[3])
        p, n = posarg(a[1]), posarg(a[2])
        if E.decide(st, p > E.slen(x)):
            return E.throw(st, "_ZTISt12out_of_range")
        x = substr(E, st, x, p, n)
        if m.group(2) and m.group(1) == "char const*":
            y = substr(E, st, y, z3.IntVal(0), posarg(a[4]))
        elif m.group(2):
            q = posarg(a[4])
            if E.decide(st, q > E.slen(y)):
                return E.throw(st, "_ZTISt12out_of_range")
            y = substr(E, st, y, q, posarg(a[5]))
        return cmp_res(st, x, y)

    def insert_at(E, st, dst, p, v):
        s = S(E, st, dst)
        L = E.slen(s)
        if E.decide(st, p > L):
            return E.throw(st, "_ZTISt12out_of_range")
        E.set_str(st, dst, E.scat(substr(E, st, s, z3.IntVal(0), p), E.scat(v, substr(E, st, s, p, L - p))))
        return dst

    @rx(r"std::string::insert\(unsigned long, (std::string const&|char const\*)\)$")
    def str_insert(E, st, a, i, m):
        return insert_at(E, st, a[0], posarg(a[1]), argstr(E, st, m.group(1), a[2]))

    @rx(r"std::string::insert\(unsigned long, unsigned long, char\)$")
    def str_insert_fill(E, st, a, i, m):
        return insert_at(E, st, a[0], posarg(a[1]), str_fill(E, st, a[2], a[3]))

    @rx(r"std::string::insert\(__gnu_cxx::__normal_iterator<[^()]*>, unsigned long, char\)$")
    def str_insert_it(E, st, a, i, m):
        c = a[1]
        if not isinstance(c, CPtr):
            raise Unsupported("string iterator %r" % (c,))
        E.oblige(st, z3.And(c.pos >= 0, c.pos <= E.slen(S(E, st, a[0]))), "safety", "insertion at a valid string position")
        v = str_fill(E, st, a[2], a[3])
        r = insert_at(E, st, a[0], c.pos, v)
        return r if isinstance(r, list) else c

    @rx(r"std::string::(append|assign)\((std::string const&|char const\*), unsigned long(, unsigned long)?\)$")
    def str_append_sub(E, st, a, i, m):
        v = argstr(E, st, m.group(2), a[1])
        if m.group(2) == "char const*":
            v = substr(E, st, v, z3.IntVal(0), posarg(a[2]))
        else:
            p = posarg(a[2])
            if E.decide(st, p > E.slen(v)):
                return E.throw(st, "_ZTISt12out_of_range")
            v = substr(E, st, v, p, posarg(a[3]) if m.group(3) else E.slen(v) - p)
        E.set_str(st, a[0], E.scat(S(E, st, a[0]), v) if m.group(1) == "append" else v)
        return a[0]

    @rx(r"std::string::assign\(unsigned long, char\)$")
    def str_assign_fill(E, st, a, i, m):
        E.set_str(st, a[0], str_fill(E, st, a[1], a[2]))
        return a[0]

    @rx(r"std::string::erase\(__gnu_cxx::__normal_iterator<[^()]*>\)$")
    def str_erase_it(E, st, a, i, m):
        c = a[1]
        if not isinstance(c, CPtr):
            raise Unsupported("string iterator %r" % (c,))
        s = S(E, st, a[0])
        L = E.slen(s)
        E.oblige(st, z3.And(c.pos >= 0, c.pos < L), "safety", "erase at a valid string position")
        E.set_str(st, a[0], E.scat(substr(E, st, s, z3.IntVal(0), c.pos), substr(E, st, s, c.pos + 1, L - c.pos - 1)))
        return c

    def code(v):
        return to_iv(v).t

    @rx(r"std::string::find\((.*), unsigned long\) const$")
    def str_find(E, st, a, i, m):
        s = S(E, st, a[0])
        p = posarg(a[2])
        if m.group(1) == "char":
            c = code(a[1])
            return find_generic(E, st, f_findc, s, c, p, lambda x: x == c)
        return find_sub(E, st, s, argstr(E, st, m.group(1), a[1]), p)

    def find_sub(E, st, s, k, p):
        r = f_find(s, k, p)
        n, ln = E.slen(s), E.slen(k)
        i, j = z3.Ints("i!f j!f")
        kk = ("find", r.get_id())
        if not st.ghost.get(kk):
            st.ghost[kk] = r
            st.pc.append(z3.Or(r == -1, z3.And(r >= p, r + ln <= n, f_sub(s, r, ln) == k)))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= p, i + ln <= n, z3.Or(r == -1, i < r)),
                                                   f_sub(s, i, ln) != k), patterns=[f_sub(s, i, ln)]))
            st.pc.append(z3.Implies(z3.And(k == EMPTY, p <= n), r == p))
        return IV(z3.If(r == -1, z3.IntVal(NPOS), r), 64, 0, NPOS)

    @rx(r"std::string::(find_first_of|find_first_not_of|find_last_of|find_last_not_of|rfind)\((.*), unsigned long\) const$")
    def str_ffo(E, st, a, i, m):
        s = S(E, st, a[0])
        p = posarg(a[2])
        fn = m.group(1)
        if m.group(2) == "char":
            c = code(a[1])
            pred = lambda x: x == c
            key = f_unit(c)
        else:
            k = argstr(E, st, m.group(2), a[1])
            b = const_of(k)
            key = k
            if b is None:
                pred = lambda x: f_has(k, x)
            else:
                pred = lambda x: inset(x, b)
        if fn == "rfind" and m.group(2) != "char":
            raise Unsupported("rfind(string)")
        F = {"find_first_of": f_ffo, "find_first_not_of": f_ffno, "find_last_of": f_flo, "find_last_not_of": f_flno,
             "rfind": f_rfind}[fn]
        if "not" in fn:
            pr = lambda x: z3.Not(pred(x))
        else:
            pr = pred
        return find_generic(E, st, F, s, key, p, pr, last="last" in fn or fn == "rfind")

    SA = r"(std::string const&|char const\*|std::string&&|char)"

    @rx(r"std::string std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(" + SA + ", " + SA + r"\)$")
    def str_plus(E, st, a, i, m):
        x, y = argstr(E, st, m.group(1), a[1]), argstr(E, st, m.group(2), a[2])
        for k in (1, 2):
            if m.group(k) == "std::string&&":
                E.set_str(st, a[k], EMPTY)
        E.set_str(st, a[0], E.scat(x, y))
        return None

    @rx(r"bool std::operator(==|!=|<|>|<=|>=) ?<char, std::char_traits<char>, std::allocator<char> ?>\(" + SA + ", " + SA + r"\)$")
    def str_cmp(E, st, a, i, m):
        op = m.group(1)
        x, y = argstr(E, st, m.group(2), a[0]), argstr(E, st, m.group(3), a[1])
        return str_rel(op, x, y)

    def str_rel(op, x, y):
        cx, cy = const_of(x), const_of(y)
        if cx is not None and cy is not None:
            return z3.BoolVal({"==": cx == cy, "!=": cx != cy, "<": cx < cy, ">": cx > cy, "<=": cx <= cy, ">=": cx >= cy}[op])
        if op == "==":
            return z3.simplify(x == y)
        if op == "!=":
            return z3.simplify(x != y)
        if op == "<":
            return f_lt(x, y)
        if op == ">":
            return f_lt(y, x)
        if op == "<=":
            return z3.Not(f_lt(y, x))
        return z3.Not(f_lt(x, y))
    E.str_rel = str_rel

    # to_string family: sret string
    @rx(r"std::to_string\((int|unsigned int|long|unsigned long|double|float)\)$")
    def to_string(E, st, a, i, m):
        k = m.group(1)
        E.set_str(st, a[0], fmt(E, k, a[1], "to_string"))
        return None

    def fmt(E, k, v, how):
        if k in ("double", "float"):
            # a float is widened before it is printed
            v = v if k == "double" else z3.fpFPToFP(z3.RNE(), v, F64)
            return (f_fixed if how == "to_string" else f_general)(v)
        c = cint(v)
        w = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "short": 16, "unsigned short": 16,
             "char": 8, "long long": 64, "unsigned long long": 64}[k]
        if c is not None:
            if not k.startswith("unsigned") and c >= 1 << (w - 1):
                c -= 1 << w
            return strconst(str(c).encode())
        v = to_bv(v)
        if z3.is_true(z3.simplify(z3.ULE(v, z3.BitVecVal(1, v.size())))):
            return z3.If(v == 1, strconst("1"), strconst("0"))
        if k.startswith("unsigned"):
            return f_dec(z3.ZeroExt(64 - w, v)) if w < 64 else f_udec(v)
        return dec(v)

    @rx(r"std::(stoi|stol|stoll|stod|stof|stoul)\(")
    def stoi(E, st, a, i, m):
        s = S(E, st, a[0])
        fn = m.group(1)
        t = resolve(i.t)
        ok = z3.Function(fn + ".ok", Str, z3.BoolSort())(s)
        if not E.decide(st, ok):
            return E.throw(st, "_ZTISt16invalid_argument")
        return z3.Function(fn, Str, sort_of(t))(s)

    @rx(r"(atoi|atol|atof|strtol|strtod|strtof|strtoul)$")
    def ato(E, st, a, i, m):
        s = E.cstr(st, a[0])
        return z3.Function(m.group(1), Str, sort_of(resolve(i.t)))(s)

    for nm in ("toupper", "tolower", "isdigit", "isalpha", "isalnum", "isspace", "ispunct", "isupper", "islower", "isxdigit"):
        def ctype(E, st, a, i, nm=nm):
            return ctype_fn(E, nm, a[0])
        M[nm] = ctype

    def ctype_fn(E, nm, v):
        # "C" locale
        x = to_iv(v).signed() if isinstance(v, IV) else None
        if x is None:
            c = cint(v)
            if c is not None:
                x = z3.IntVal(c if c < 1 << 31 else c - (1 << 32))
            else:
                x = to_iv(v).signed()

        def rng(a, b):
            return z3.And(x >= ord(a), x <= ord(b))
        if nm == "toupper":
            return iv_wrap(z3.If(rng("a", "z"), x - 32, x), 32, -(1 << 31), (1 << 31) - 1)
        if nm == "tolower":
            return iv_wrap(z3.If(rng("A", "Z"), x + 32, x), 32, -(1 << 31), (1 << 31) - 1)
        c = {"isdigit": rng("0", "9"), "isalpha": z3.Or(rng("a", "z"), rng("A", "Z")),
             "isalnum": z3.Or(rng("a", "z"), rng("A", "Z"), rng("0", "9")),
             "isspace": z3.Or(x == 32, z3.And(x >= 9, x <= 13)),
             "isupper": rng("A", "Z"), "islower": rng("a", "z"),
             "isxdigit": z3.Or(rng("0", "9"), rng("a", "f"), rng("A", "F")),
             "ispunct": z3.And(x > 32, x < 127, z3.Not(z3.Or(rng("a", "z"), rng("A", "Z"), rng("0", "9"))))}[nm]
        return IV(z3.simplify(z3.If(c, z3.IntVal(1), z3.IntVal(0))), 32, 0, 1)

    # -------------------------------------------------------------- streams
    def sbase(E, st, p):
        p = E.resolve_ptr(st, p)
        return p.rid if isinstance(p, Ptr) else None

    @rx(r"std::basic_(o|i|)stringstream<.*>::basic_\w+\((.*)\)$")
    def ss_ctor(E, st, a, i, m):
        p = E.resolve_ptr(st, a[0])
        init = EMPTY
        if "std::string const&" in m.group(2):
            init = S(E, st, a[1])
        st.ghost[("stream", p.rid)] = init
        return None

    @rx(r"std::basic_(?:o|i|)stringstream<.*>::~basic_\w+\(")
    def ss_dtor(E, st, a, i, m):
        return None

    @rx(r"std::basic_(?:o|i|)stringstream<.*>::str\(\) const$")
    def ss_str(E, st, a, i, m):
        E.set_str(st, a[0], st.ghost[("stream", sbase(E, st, a[1]))])
        return None

    @rx(r"std::basic_(?:o|i|)stringstream<.*>::str\(std::string const&\)$")
    def ss_setstr(E, st, a, i, m):
        st.ghost[("stream", sbase(E, st, a[0]))] = S(E, st, a[1])
        return None

    def emit(E, st, p, t):
        rid = sbase(E, st, p)
        cur = st.ghost.get(("stream", rid))
        if cur is None:
            st.event("out", t)
        else:
            st.ghost[("stream", rid)] = E.scat(cur, t)
        return p

    @rx(r"std::basic_ostream<.*>& std::operator<< ?<.*>\(std::basic_ostream<.*>&, (std::string const&|char const\*|char)\)$")
    def os_str(E, st, a, i, m):
        return emit(E, st, a[0], argstr(E, st, m.group(1), a[1]))

    @rx(r"std::basic_ostream<.*>::operator<<\((.*)\)$")
    def os_int(E, st, a, i, m):
        k = m.group(1)
        if "(*)" in k:
            return emit(E, st, a[0], strconst("\n"))
        if k == "bool":
            v = a[1]
            b = v if isinstance(v, z3.BoolRef) else to_bv(v) != 0
            return emit(E, st, a[0], z3.If(b, strconst("1"), strconst("0")))
        if k == "void const*":
            return emit(E, st, a[0], z3.Const(fresh_name("ptrtext"), Str))
        return emit(E, st, a[0], fmt(E, k, a[1], "stream"))

    @rx(r"std::basic_istream<.*>::operator>>\((double|float|long|int|unsigned int|bool|short)&\)$")
    def is_num(E, st, a, i, m):
        rid = sbase(E, st, a[0])
        s = st.ghost.get(("stream", rid))
        k = m.group(1)
        t = {"double": ir.DOUBLE, "float": ir.FLOAT, "long": ir.I64, "int": ir.I32, "unsigned int": ir.I32, "short": ir.I16,
             "bool": ir.I8}[k]
        if s is None:
            s = z3.Const(fresh_name("in"), Str)
        E.store(st, a[1], z3.Function("scan." + k.replace(" ", "_"), Str, sort_of(t))(s), t)
        return a[0]

    # -------------------------------------------------------------- sequences
    @rx(r"std::_List_base<.*>::_M_get_node\(\)$")
    def list_node(E, st, a, i, m):
        return Ptr(st.new("heap", name="node"), 0)

    @rx(r"std::_List_base<.*>::_M_get_Node_allocator\(\)$|std::_List_node<.*>::_M_valptr\(\)$|std::__allocated_ptr<.*")
    def node_part(E, st, a, i, m):
        return a[0]

    @rx(r"(?:void |.*& )?std::(list|vector)<.*>::emplace_back<")
    def emplace_model(E, st, a, i, m):
        d = m.string
        kind = m.group(1)
        ta, rest = targs(d[m.start(1):])
        info = cinfo(E, kind, ta)
        _, sig = targs(rest)
        args, _ = targs(sig.replace("(", "<", 1).rsplit(")", 1)[0] + ">")
        args = [x for x in args if x]
        this = a[0]
        cls = ta[0]
        plain = lambda t: re.sub(r"( const)?&{0,2}$", "", t).strip()
        if len(args) == 1 and plain(args[0]) == cls and info.lv is not None:
            vals = read_elem(E, st, a[1], info.lv)
            c = seq(E, st, this, kind, ta)
            E.set_container(st, this, c.with_(n=c.n + 1, fields=put_elem(E, c, c.end, vals)))
            rid, coff = loc(E, st, this)
            return EPtr(rid, coff, c.end, 0)
        short = re.sub(r"<.*", "", cls).split("::")[-1]
        cands = []
        for dd, ns in E.P.bydem.items():
            if not dd.startswith(cls + "::" + short + "("):
                continue
            ps, _ = targs(dd[len(cls + "::" + short):].replace("(", "<", 1).rsplit(")", 1)[0] + ">")
            ps = [x for x in ps if x]
            if len(ps) == len(args) and all(plain(x) == plain(y) for x, y in zip(ps, args)):
                cands.append((ps, ns[0]))
        if len(cands) != 1 and kind == "list" and info.lv is not None:
            # arguments are converted or left out: the library's own node construction does it
            i0 = d.index("emplace_back<")
            j0 = d.index(">(", i0)
            want = "::_M_create_node" + d[i0 + len("emplace_back"):]
            node = [n for dd, ns in E.P.bydem.items() if dd.endswith(want) and dd.split("::_M_create_node")[0].endswith(d[m.start(1) - 5:i0 - 2]) for n in ns if E.P.lookup(n)]
            if node:
                out = []
                for s, o in E.run(st, E.P.lookup(node[0]), a, 1):
                    if o[0] != "ret":
                        out.append((s, o))
                        continue
                    vals = read_elem(E, s, o[1], info.lv)
                    c = seq(E, s, this, kind, ta)
                    E.set_container(s, this, c.with_(n=c.n + 1, fields=put_elem(E, c, c.end, vals)))
                    rid, coff = loc(E, s, this)
                    out.append((s, ("ret", EPtr(rid, coff, c.end, 0))))
                return out
        if len(cands) != 1:
            raise Unsupported("emplace_back: constructor of %s from %s" % (cls, args))
        ps, ctor = cands[0]
        c = seq(E, st, this, kind, ta)
        rid, coff = loc(E, st, this)
        e = EPtr(rid, coff, z3.simplify(c.end), 0)
        E.set_container(st, this, c.with_(n=c.n + 1))
        cargs = []
        for p, x in zip(ps, a[1:]):
            t = plain(p)
            if p.endswith("&"):
                cargs.append(x)
            elif t.endswith("*"):
                cargs.append(E.load(st, x, ir.PTR))
            elif t == "bool":
                cargs.append(z3.Extract(0, 0, to_bv(E.load(st, x, ir.I8), 8)) == 1)
            elif t in ("int", "unsigned int"):
                cargs.append(E.load(st, x, ir.I32))
            elif t.endswith("::E"):
                cargs.append(E.load(st, x, ir.I32))
            else:
                cargs.append(by_value(E, st, t, x))
        out = []
        for s, o in E.invoke(st, ctor, [e] + cargs, 1, None, i):
            out.append((s, ("ret", e) if o[0] == "ret" else o))
        return out

    def seq(E, st, p, kind, a):
        return E.container(st, p, kind, cinfo(E, kind, a))

    def loc(E, st, p):
        p = E.resolve_ptr(st, p)
        return (p.rid, p.off) if isinstance(p, Ptr) else (p, 0)

    @rx(r"std::(list|vector)<")
    def seq_model(E, st, a, i, m):
        d = m.string
        kind = m.group(1)
        ta, rest = targs(d)
        mm = re.match(r"::(~?[\w]+|operator=|operator\[\])(?:<.*>)?\((.*)\)( const)?$", rest)
        if not mm:
            raise Unsupported("model " + d)
        fn, sig = mm.group(1), mm.group(2)
        info = cinfo(E, kind, ta)
        this = a[0]
        if fn == kind:
            if sig == "" or sig.startswith("std::allocator"):
                E.set_container(st, this, SeqV(fresh_name("seq"), z3.IntVal(0), kind=kind, esize=info.esize, lv=info.lv))
            elif sig.startswith("std::%s<" % kind) and not sig.startswith("std::initializer"):
                v = seq(E, st, a[1], kind, ta)
                E.set_container(st, this, v)
                if sig.endswith("&&"):
                    E.set_container(st, a[1], SeqV(fresh_name("seq"), z3.IntVal(0), kind=kind, esize=info.esize, lv=info.lv))
            else:
                raise Unsupported("constructor " + d)
            return None
        if fn == "~" + kind:
            return None
        c = seq(E, st, this, kind, ta)
        rid, coff = loc(E, st, this)

        def eptr(idx):
            return EPtr(rid, coff, z3.simplify(idx), 0)
        if fn == "operator=":
            v = seq(E, st, a[1], kind, ta)
            E.set_container(st, this, v)
            return this
        if fn in ("push_back", "emplace_back", "push_front"):
            if fn == "emplace_back" and len(a) == 1:
                raise Unsupported("emplace_back()")
            vals = read_elem(E, st, a[1], info.lv)
            c = seq(E, st, this, kind, ta)
            idx = c.end if fn != "push_front" else z3.simplify(c.lo - 1)
            c2 = c.with_(n=c.n + 1, lo=c.lo if fn != "push_front" else idx, fields=put_elem(E, c, idx, vals))
            E.set_container(st, this, c2)
            return eptr(idx)
        if fn in ("pop_back", "pop_front"):
            E.oblige(st, c.n > 0, "safety", fn + " on empty " + kind)
            E.set_container(st, this, c.with_(n=c.n - 1, lo=c.lo if fn == "pop_back" else c.lo + 1))
            return None
        if fn in ("front", "back"):
            E.oblige(st, c.n > 0, "safety", fn + " of empty " + kind)
            return eptr(c.lo if fn == "front" else c.end - 1)
        if fn in ("begin", "cbegin"):
            return It(rid, coff, pos=c.lo) if kind == "list" else eptr(c.lo)
        if fn in ("end", "cend"):
            return It(rid, coff, pos=c.end) if kind == "list" else eptr(c.end)
        if fn == "size":
            return IV(c.n, 64, 0, (1 << 32))
        if fn == "empty":
            return z3.simplify(c.n == 0)
        if fn == "clear":
            E.set_container(st, this, SeqV(fresh_name("seq"), z3.IntVal(0), kind=kind, esize=info.esize, lv=info.lv))
            return None
        if fn in ("reserve",):
            return None
        if fn in ("operator[]", "at"):
            k = posarg(a[1])
            if fn == "at":
                if E.decide(st, z3.Or(k < 0, k >= c.n)):
                    return E.throw(st, "_ZTISt12out_of_range")
            else:
                E.oblige(st, z3.And(k >= 0, k < c.n), "safety", "vector index within bounds")
            return eptr(c.lo + k)
        if fn == "erase" and "," not in sig:
            it = a[1]
            pos = it.pos if isinstance(it, It) else it.idx
            E.oblige(st, z3.And(pos >= c.lo, pos < c.end), "safety", "erase of valid position")
            f = dict(c.fields)
            j = z3.Int("j!e")
            for o, k in info.lv:
                arr = E.field_arr(c, o, leaf_sort(k))
                f[o] = z3.Lambda([j], z3.If(j < pos, z3.Select(arr, j), z3.Select(arr, j + 1)))
            E.set_container(st, this, c.with_(n=c.n - 1, fields=f))
            return It(rid, coff, pos=pos) if kind == "list" else eptr(pos)
        if fn == "insert" and len(a) == 3:
            it = a[1]
            pos = it.pos if isinstance(it, It) else it.idx
            vals = read_elem(E, st, a[2], info.lv)
            f = dict(c.fields)
            j = z3.Int("j!e")
            for o, k in info.lv:
                arr = E.field_arr(c, o, leaf_sort(k))
                f[o] = z3.Lambda([j], z3.If(j < pos, z3.Select(arr, j), z3.If(j == pos, vals[o], z3.Select(arr, j - 1))))
            E.set_container(st, this, c.with_(n=c.n + 1, fields=f))
            return It(rid, coff, pos=pos) if kind == "list" else eptr(pos)
        raise Unsupported("model " + d)

    def itload(E, st, p):
        v = E.load(st, p, ir.PTR)
        if isinstance(v, SPtr):
            e = E.itpack.get(v.t.get_id())
            if e:
                return e[1]
        return v

    def deref(E, st, it):
        if not isinstance(it, It):
            raise Unsupported("iterator %r" % (it,))
        c = E.container(st, cloc(it))
        if isinstance(c, SeqV):
            E.oblige(st, z3.And(it.pos >= c.lo, it.pos < c.end), "safety", "iterator dereferenceable")
            return EPtr(it.rid, it.coff, it.pos, 0)
        if it.key is None:
            key = z3.simplify(z3.Select(c.enum, it.pos))
            E.oblige(st, z3.And(it.pos >= 0, it.pos < c.n), "safety", "iterator dereferenceable")
            st.assume(z3.Select(c.dom, key))
            return EPtr(it.rid, it.coff, key, 0)
        E.oblige(st, z3.And(z3.Not(it.end), z3.Select(c.dom, it.key)), "safety", "iterator dereferenceable")
        return EPtr(it.rid, it.coff, it.key, 0)

    def step(E, st, it, k):
        if it.pos is None:
            raise Unsupported("advancing an iterator obtained by lookup")
        n = It(it.rid, it.coff, pos=z3.simplify(it.pos + k))
        return n

    @rx(r"std::(_List|_Rb_tree)(?:_const)?_iterator<")
    def iter_model(E, st, a, i, m):
        d = m.string
        ta, rest = targs(d)
        mm = re.match(r"::([\w]+|operator\S+?)\((.*)\)( const)?$", rest)
        if not mm:
            raise Unsupported("model " + d)
        fn, sig = mm.group(1), mm.group(2)
        if fn.startswith(("_List", "_Rb_tree")):
            if sig == "":
                E.store(st, a[0], NULL, ir.PTR)
            elif "iterator" in sig:
                E.store(st, a[0], itload(E, st, a[1]), ir.PTR)
            else:
                E.store(st, a[0], a[1], ir.PTR)
            return None
        if fn == "_M_const_cast":
            return itload(E, st, a[0])
        it = itload(E, st, a[0])
        if fn in ("operator*", "operator->"):
            return deref(E, st, it)
        if fn in ("operator++", "operator--"):
            n = step(E, st, it, 1 if fn == "operator++" else -1)
            c = E.container(st, cloc(it))
            lo, hi = (c.lo, c.end) if isinstance(c, SeqV) else (z3.IntVal(0), c.n)
            E.oblige(st, (it.pos < hi) if fn == "operator++" else (it.pos > lo), "safety", "iterator stays inside its container")
            E.store(st, a[0], n, ir.PTR)
            if sig == "int":
                return it
            return a[0]
        if fn in ("operator==", "operator!="):
            e = E.iteq(st, it, itload(E, st, a[1]))
            e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
            return e if fn == "operator==" else z3.simplify(z3.Not(e))
        raise Unsupported("model " + d)

    @rx(r"(?:bool )?std::(?:__detail::)?operator(==|!=)\(std::(?:__detail::)?_(?:List|Rb_tree|Node)(?:_const)?_iterator")
    def iter_cmp(E, st, a, i, m):
        x, y = itload(E, st, a[0]), itload(E, st, a[1])
        e = E.iteq(st, x, y)
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        return e if m.group(1) == "==" else z3.simplify(z3.Not(e))

    @rx(r"std::__detail::_Node_(?:const_)?iterator<.*>::(operator\*|operator->|operator\+\+|_Node_const_iterator)\(")
    def node_iter(E, st, a, i, m):
        fn = m.group(1)
        if fn.startswith("_Node"):
            E.store(st, a[0], itload(E, st, a[1]), ir.PTR)
            return None
        it = itload(E, st, a[0])
        if fn == "operator++":
            E.store(st, a[0], step(E, st, it, 1), ir.PTR)
            return a[0]
        return deref(E, st, it)

    @rx(r"long std::__distance<")
    def distance(E, st, a, i, m):
        x, y = a[0], a[1]
        if isinstance(x, Ptr):
            x, y = itload(E, st, x), itload(E, st, y)
        return iv_wrap(y.pos - x.pos, 64, -(1 << 33), 1 << 33)

    @rx(r"void std::__advance<std::_(?:List|Rb_tree)(?:_const)?_iterator<")
    def advance(E, st, a, i, m):
        it = itload(E, st, a[0])
        if not isinstance(it, It):
            raise Unsupported("iterator %r" % (it,))
        n = step(E, st, it, sint(a[1]))
        c = E.container(st, cloc(it))
        lo, hi = (c.lo, c.end) if isinstance(c, SeqV) else (z3.IntVal(0), c.n)
        E.oblige(st, z3.And(n.pos >= lo, n.pos <= hi), "safety", "iterator stays inside its container")
        E.store(st, a[0], n, ir.PTR)
        return None

    # -------------------------------------------------------------- keyed containers
    def key_term(E, st, p, info):
        _, kl = layout(E, info.kt)
        if info.kt in E.key_leaves:
            return composite(E, st, p, [x for x in kl if x[0] in E.key_leaves[info.kt]])
        if len(kl) == 1:
            return read_leaf(E, st, p, kl[0][1])
        return composite(E, st, p, kl)

    def parts(E, st, c, p, k, info):
        """an element found by its key has the parts that make up the key"""
        if info.kt in E.key_leaves and info.lv:
            p = E.resolve_ptr(st, p)
            for o, kk in info.lv:
                if o in E.key_leaves[info.kt]:
                    v = read_leaf(E, st, E.padd(p, o), kk)
                    st.pc.append(z3.Implies(z3.Select(c.dom, k), z3.Select(E.field_arr(c, o, v.sort()), k) == v))

    def composite(E, st, p, kl):
        vals = [read_leaf(E, st, E.padd(E.resolve_ptr(st, p), o), k) for o, k in kl]
        F = z3.Function("key%d" % len(vals), *([v.sort() for v in vals] + [AnyS]))
        return F(*vals)

    @rx(r"(?:std::enable_if<.*::type |void )?std::(map|set|unordered_set)<")
    def map_model(E, st, a, i, m):
        d = m.string
        kind0 = m.group(1)
        if not d.startswith("std::" + kind0):
            mm = re.match(r"(?:std::enable_if<.*?>::type |void )(?=std::(map|set|unordered_set)<)", d)
            d, kind0 = d[mm.end():], mm.group(1)
        kind = {"unordered_set": "uset"}.get(kind0, kind0)
        ta, rest = targs(d)
        mm = re.match(r"::(~?[\w]+|operator=|operator\[\])(?:<.*>)?\((.*)\)( const)?$", rest)
        if not mm:
            raise Unsupported("model " + d)
        fn, sig = mm.group(1), mm.group(2)
        info = cinfo(E, kind, ta)
        this_out = a[0]
        this = a[1] if fn in ("rbegin", "crbegin") else a[0]

        def fresh():
            return MapV(fresh_name("map"), z3.IntVal(0), z3.K(info.ks, z3.BoolVal(False)), kind=kind, ks=info.ks, lv=info.lv,
                        kl=info.kl)
        if fn == kind0:
            if sig == "" or sig.startswith("std::less") or sig.startswith("std::allocator"):
                E.set_container(st, this, fresh())
            elif sig.startswith("std::%s<" % kind0):
                E.set_container(st, this, E.container(st, a[1], kind, info))
                if sig.endswith("&&"):
                    E.set_container(st, a[1], fresh())
            else:
                raise Unsupported("constructor " + d)
            return None
        if fn == "~" + kind0:
            return None
        c = E.container(st, this, kind, info)
        rid, coff = loc(E, st, this)
        if fn == "operator=":
            E.set_container(st, this, E.container(st, a[1], kind, info))
            return this
        if fn in ("begin", "cbegin"):
            return It(rid, coff, pos=z3.IntVal(0))
        if fn in ("end", "cend"):
            return It(rid, coff, pos=c.n)
        if fn in ("rbegin", "crbegin") and isinstance(info.ks, z3.BitVecSortRef):
            # the last position holds the greatest key
            last, k = z3.Select(c.enum, c.n - 1), z3.Const("k!last", info.ks)
            st.pc.append(z3.Implies(c.n > 0, z3.And(z3.Select(c.dom, last), z3.ForAll([k], z3.Implies(z3.Select(c.dom, k), z3.ULE(k, last))))))
            E.store(st, this_out, It(rid, coff, pos=c.n), ir.PTR)
            return None
        if fn == "size":
            return IV(c.n, 64, 0, 1 << 32)
        if fn == "empty":
            return z3.simplify(c.n == 0)
        if fn == "clear":
            E.set_container(st, this, fresh())
            return None
        if fn == "find":
            k = key_term(E, st, a[1], info)
            e = z3.simplify(z3.Not(member(c.dom, k)))
            parts(E, st, c, a[1], k, info)
            st.pc.append(z3.Implies(member(c.dom, k), c.n > 0))
            return It(rid, coff, key=k, end=e)
        if fn == "count":
            k = key_term(E, st, a[1], info)
            return IV(z3.If(member(c.dom, k), z3.IntVal(1), z3.IntVal(0)), 64, 0, 1)

        def add(c, k):
            had = member(c.dom, k)
            st.pc.append(z3.Implies(had, c.n > 0))
            return c.with_(n=z3.simplify(z3.If(had, c.n, c.n + 1)), dom=z3.Store(c.dom, k, z3.BoolVal(True)))
        if fn in ("operator[]", "at"):
            k = key_term(E, st, a[1], info)
            had = E.decide(st, member(c.dom, k))
            if not had:
                if fn == "at":
                    return E.throw(st, "_ZTISt12out_of_range")
                c2 = add(c, k)
                vals = {}
                for o, kk in info.lv:
                    vals[o] = zero_leaf(E, kk)
                if info.vt not in SCALARS and not info.vt.endswith("*"):
                    # default constructor of the mapped class
                    tmp = st.new("heap", name="tmp")
                    ctor = E.P.bydem.get("%s::%s()" % (info.vt, info.vt.split("::")[-1]))
                    if ctor:
                        res = E.invoke(st, ctor[0], [Ptr(tmp, 0)], 1, None)
                        if len(res) != 1 or res[0][1][0] != "ret":
                            raise Unsupported("mapped type constructor")
                        st2 = res[0][0]
                        if st2 is not st:
                            raise Unsupported("mapped type constructor forks")
                        vals = {o: read_leaf(E, st, Ptr(tmp, o - info.voff), kk) for o, kk in info.lv}
                    elif info.vt.startswith("std::"):
                        raise Unsupported("operator[] default of " + info.vt)
                c2 = c2.with_(fields=put_elem(E, c2, k, vals))
                E.set_container(st, this, c2)
            return EPtr(rid, coff, k, info.voff)
        if fn in ("insert", "emplace", "insert_or_assign"):
            if kind == "map":
                if fn == "emplace" or fn == "insert_or_assign":
                    raise Unsupported("model " + d)
                src = E.resolve_ptr(st, a[1])
                k = key_term(E, st, src, info)
                vals = {o: read_leaf(E, st, E.padd(src, o), kk) for o, kk in info.lv}
                had = E.decide(st, member(c.dom, k))
                if not had:
                    c = E.container(st, this, kind, info)
                    c2 = add(c, k)
                    E.set_container(st, this, c2.with_(fields=put_elem(E, c2, k, vals)))
            else:
                if "iterator" in sig and len(a) == 3 and sig.count("iterator") == 2:
                    raise Unsupported("range insert")
                arg = a[2] if "iterator" in sig else a[1]
                k = key_term(E, st, arg, info)
                had = E.decide(st, member(c.dom, k))
                if not had:
                    c = E.container(st, this, kind, info)
                    c2 = add(c, k)
                    if info.lv:
                        c2 = c2.with_(fields=put_elem(E, c2, k, read_elem(E, st, arg, info.lv)))
                    E.set_container(st, this, c2)
            it = It(rid, coff, key=k, end=z3.BoolVal(False))
            if "iterator" in sig:
                return it
            return (it, z3.BitVecVal(0 if had else 1, 8))
        if fn == "erase":
            if "iterator" in sig and sig.count("iterator") == 1:
                it = a[1]
                k = it.key if it.key is not None else z3.simplify(z3.Select(c.enum, it.pos))
                E.oblige(st, z3.And(z3.Not(it.end), member(c.dom, k)) if it.key is not None else z3.And(it.pos >= 0, it.pos < c.n), "safety", "erase of valid position")
                st.pc.append(c.n > 0)
                E.set_container(st, this, c.with_(n=z3.simplify(c.n - 1), dom=z3.Store(c.dom, k, z3.BoolVal(False))))
                return It(rid, coff, pos=z3.Int(fresh_name("erased")))
            if "iterator" not in sig:
                k = key_term(E, st, a[1], info)
                had = member(c.dom, k)
                st.pc.append(z3.Implies(had, c.n > 0))
                E.set_container(st, this, c.with_(n=z3.simplify(z3.If(had, c.n - 1, c.n)), dom=z3.Store(c.dom, k, z3.BoolVal(False))))
                return IV(z3.If(had, z3.IntVal(1), z3.IntVal(0)), 64, 0, 1)
        raise Unsupported("model " + d)

    def zero_leaf(E, k):
        if k == "str":
            return EMPTY
        if k == "ptr":
            return z3.IntVal(0)
        if k == "f":
            return z3.FPVal(0.0, F32)
        if k == "d":
            return z3.FPVal(0.0, F64)
        if k.startswith("cont"):
            return z3.Const(fresh_name("cont0"), AnyS)
        return z3.BitVecVal(0, int(k[1:]))

    @rx(r"std::pair<.*> std::make_pair<")
    def make_pair(E, st, a, i, m):
        raise Unsupported("make_pair needs its body")
    RX.pop()      # body is inlined instead

    M["_ZNSt8ios_base4InitC1Ev"] = nop
    M["_ZNSt8ios_base4InitD1Ev"] = nop
