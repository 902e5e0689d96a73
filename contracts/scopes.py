"""Scopes: lookup, definition and removal of identifiers."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .values import one

STRT = "std::string"
SYMS = [STRT, "Slang::Symbol*"]
METHS = ["Slang::Common::Method*"]


class Scope:
    """a scope of class cls in the pre-state; its parent, if any, is only known by the contract of lookup"""

    def __init__(self, ctx, E, st, cls, name="scope"):
        P = E.P
        self.E, self.P, self.cls, self.ctx = E, P, cls, ctx
        self.rid = E.sym_region(st, name, cls=[P.ti(cls)], size=P.class_size(cls))
        f = lambda n: P.field(cls, n)
        self.osyms, self.oext, self.oparent = f("mSymbols"), f("mExternalSymbols"), f("mParent")
        self.syms0 = self.map(st, self.osyms)
        self.ext0 = self.map(st, self.oext)
        if cls.endswith("MethodScope"):
            self.ometh, self.oextm = f("mMethods"), f("mExternalMethods")
            self.meth0 = self.set(st, self.ometh)
            self.extm0 = self.set(st, self.oextm)
        self.base, self.baseptr = None, z3.IntVal(0)
        self.parent = z3.Int("parent")
        st.pc.append(self.parent >= 0)
        st.w(self.rid).cells[self.oparent] = (SPtr(self.parent), 8)
        self.vis = P.field("Slang::Symbol", "mVisibility")

    def map(self, st, off):
        return self.E.container(st, Ptr(self.rid, off), "map", cinfo(self.E, "map", SYMS))

    def set(self, st, off):
        return self.E.container(st, Ptr(self.rid, off), "set", cinfo(self.E, "set", METHS))

    def at(self, m, name):
        """address of the symbol defined under name"""
        return z3.Select(self.E.field_arr(m, cinfo(self.E, "map", SYMS).voff, IntS), name)

    def has(self, m, name):
        return z3.Select(m.dom, name)

    def unchanged(self, s, ext=True):
        cs = [self.same(s, self.osyms, self.syms0)]
        if ext:
            cs.append(self.same(s, self.oext, self.ext0))
        return z3.And(*cs)

    def same(self, s, off, old):
        m = self.map(s, off)
        k = z3.Const(fresh_name("k"), Str)
        return z3.And(self.has(m, k) == self.has(old, k), z3.Implies(self.has(old, k), self.at(m, k) == self.at(old, k)))

    def updated(self, s, off, old, name, to):
        """only name changed: it is defined as to (None: not defined)"""
        m = self.map(s, off)
        k = z3.Const(fresh_name("k"), Str)
        rest = z3.Implies(k != name, z3.And(self.has(m, k) == self.has(old, k), z3.Implies(self.has(old, k), self.at(m, k) == self.at(old, k))))
        if to is None:
            return z3.And(rest, z3.Not(self.has(m, name)))
        return z3.And(rest, self.has(m, name), self.at(m, name) == to)


def vis_of(E, addr, cls="Slang::Symbol"):
    """visibility of the symbol at addr before the call"""
    return z3.Function("pre%d%s" % (in_symbol(E.P, cls, "mVisibility"), z3.BitVecSort(32)), IntS, z3.BitVecSort(32))(addr)


def name_of(E, addr, cls="Slang::Symbol"):
    return z3.Function("pre%dS" % in_symbol(E.P, cls, "mName"), IntS, Str)(addr)


def in_symbol(P, cls, f):
    """offset of a field of the symbol part"""
    o = P.field("Slang::Symbol", f)
    return o if cls == "Slang::Symbol" else o + P.base_offset(cls, "Slang::Symbol")


METHOD = "Slang::Common::Method"


f_lookup = z3.Function("lookup", IntS, Str, z3.BoolSort(), z3.BitVecSort(32), IntS)


def whole(E, st, p):
    """address of the complete object p points into"""
    if isinstance(p, Ptr) and st.mem[p.rid].kind == "sym":
        return st.mem[p.rid].addr
    return E.addr(st, p)


def outer_lookup(E, scope):
    """another scope's lookup is its contract: an answer depending on that scope, the name and the visibility asked for"""
    def hook(E, st, sc, slot, args, ins, depth, fr, impls):
        if not impls or not all(re.match(r".*::resolve\(.*\) const$", E.P.dem.get(n, "")) for n in impls):
            return None
        if scope.cls == CLASSES[0] and isinstance(args[0], Ptr) and args[0].rid == scope.rid:
            return None
        only = args[2] if isinstance(args[2], z3.BoolRef) else to_bv(args[2]) != 0
        r = f_lookup(whole(E, st, args[0]), E.get_str(st, args[1]), only, to_bv(args[3], 32))
        if scope.base is not None and z3.simplify(r).eq(z3.simplify(scope.baseptr)):
            return [(st, ("ret", scope.base))]
        st.pc.append(r >= 0)
        return [(st, ("ret", SPtr(r)))]
    E.virtual_hook = hook


CLASSES = ("Slang::SymbolScope", "Slang::MethodScope")


def setup(ctx, cls):
    E = ctx.engine()
    st = State(E)
    sc = Scope(ctx, E, st, cls)
    outer_lookup(E, sc)
    name = ctx.sym("name", Str)
    v = E.P.enum("Slang::Visibility::E")
    nr = E.sym_region(st, "namestr")
    st.w(nr).cells[0] = (StrV(name), 32)
    for m in (sc.syms0, sc.ext0):
        st.pc.append(z3.Implies(sc.has(m, name), z3.And(sc.at(m, name) > 0, z3.ULE(vis_of(E, sc.at(m, name)), max(v.values())))))
    return E, st, sc, name, Ptr(nr, 0)


BASES = {"an object": ("Slang::Runtime::Object", "ObjectSymbol"), "a prototype": ("Slang::Designtime::BluePrintObject", "BluePrintObjectSymbol"),
         "a namespace": ("Slang::Common::Namespace", "NamespaceSymbol")}


def lookup_case(ctx, cls, base):
    """scope, arguments and what a lookup must find in the scope itself"""
    P = ctx.P
    E, st, sc, name, nptr = setup(ctx, cls)
    v = P.enum("Slang::Visibility::E")
    only = ctx.sym("only_current", z3.BoolSort())
    vis = ctx.sym("visibility", z3.BitVecSort(32))
    st.pc.append(z3.ULE(vis, max(v.values())))
    ok = lambda a: z3.UGE(vis_of(E, a), vis)
    if cls.endswith("MethodScope"):
        for m in (sc.meth0, sc.extm0):
            i = z3.Int("i")
            a = z3.Select(m.enum, i)
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m.n), z3.And(a > 0, z3.ULE(vis_of(E, a, METHOD), max(v.values()))))))
        own = E.addr(st, Ptr(sc.rid, 0))
        sc.baseptr = f_lookup(own, strconst("base"), z3.BoolVal(True), z3.BitVecVal(v["Designtime"], 32))
        if base is None:
            st.pc.append(sc.baseptr == 0)
        else:
            c, k = BASES[base]
            rid = E.sym_region(st, "base", cls=[P.ti(c)], size=P.class_size(c), addr=sc.baseptr)
            sc.base = Ptr(rid, P.base_offset(c, "Slang::Symbol"))
            st.w(rid).cells[in_symbol(P, c, "mType")] = (z3.BitVecVal(P.enum("Slang::Symbol::IType::E")[k], 32), 4)
    return E, st, sc, name, nptr, only, vis, ok


def resolve_units():
    us = []
    for cls, base in [(CLASSES[0], None), (CLASSES[1], None)] + [(CLASSES[1], b) for b in BASES]:
        def run(ctx, cls=cls, base=base):
            P = ctx.P
            sym = P.find(one_of(P, cls, "resolve"))
            E, st, sc, name, nptr, only, vis, ok = lookup_case(ctx, cls, base)
            des = z3.BitVecVal(P.enum("Slang::Visibility::E")["Designtime"], 32)
            loc, ext = sc.at(sc.syms0, name), sc.at(sc.ext0, name)
            inl = z3.And(sc.has(sc.syms0, name), ok(loc))
            ine = z3.And(sc.has(sc.ext0, name), ok(ext))
            up = z3.And(sc.parent != 0, z3.Not(only))
            ctx.cover(E, st.clone(), "found in the scope itself", inl)
            ctx.cover(E, st.clone(), "found outside", z3.And(z3.Not(inl), z3.Not(ine), up))
            for s, o in ctx.call(E, st, sym, [Ptr(sc.rid, 0), nptr, z3.If(only, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), vis]):
                ctx.require(E, s, o[0] == "ret", "lookup: ends normally")
                if o[0] != "ret":
                    continue
                r = E.addr(s, o[1])
                out = z3.If(up, r == f_lookup(sc.parent, name, only, vis), r == 0)
                if base is not None:
                    fb = f_lookup(sc.baseptr, name, z3.BoolVal(True), vis)
                    out = z3.If(z3.And(vis != des, fb != 0), r == fb, out)
                for m in ([sc.extm0, sc.meth0] if cls.endswith("MethodScope") else []):
                    j = z3.Int(fresh_name("j"))
                    x = z3.Select(m.enum, j)
                    match = lambda a: z3.And(z3.UGE(vis_of(E, a, METHOD), vis), name_of(E, a, METHOD) == name)
                    d = r - P.base_offset(METHOD, "Slang::Symbol")
                    out = z3.Or(z3.And(z3.Select(m.dom, d), match(d)), z3.And(z3.Implies(z3.And(j >= 0, j < m.n), z3.Not(match(x))), out))
                want = z3.If(inl, r == loc, z3.If(ine, r == ext, out))
                ctx.require(E, s, want, "lookup: innermost visible definition, else what the enclosing scope finds, else nothing")
                ctx.require(E, s, sc.unchanged(s), "lookup: changes no definition")
        us.append(Unit("resolve " + cls.split("::")[-1] + (" with " + base if base else ""), cls + "::resolve", run,
                       case="inheriting from " + base if base else ""))
    return us


def one_of(P, cls, method):
    c = [d for d in P.bydem if re.match(r"%s::%s\(" % (re.escape(cls), method), d)]
    if len(c) != 1:
        raise SpecError("expected one %s::%s, found %d" % (cls, method, len(c)))
    return c[0]


def define_units():
    us = []
    for cls in CLASSES:
        for method, ext in (("define", False), ("defineExternal", True)):
            def run(ctx, cls=cls, method=method, ext=ext):
                P = ctx.P
                for null in (False, True):
                    E, st, sc, name, nptr = setup(ctx, cls)
                    new = NULL if null else Ptr(E.sym_region(st, "newsymbol", cls=[P.ti("Slang::Symbol")]), 0)
                    mine, other = (sc.ext0, sc.syms0) if ext else (sc.syms0, sc.ext0)
                    omine, oother = (sc.oext, sc.osyms) if ext else (sc.osyms, sc.oext)
                    ctx.cover(E, st.clone(), "new name", z3.Not(sc.has(mine, name)))
                    for s, o in ctx.call(E, st, P.find(one_of(P, cls, method)), [Ptr(sc.rid, 0), nptr, new]):
                        ctx.require(E, s, sc.same(s, oother, other), "definition: other definitions are untouched")
                        if o[0] == "ret":
                            ctx.require(E, s, z3.And(z3.Not(sc.has(mine, name)), not null), "definition: an identifier already defined in the scope is refused")
                            if not null:
                                ctx.require(E, s, sc.updated(s, omine, mine, name, E.addr(s, new)), "definition: the name stands for the new symbol, all other names are kept")
                        else:
                            ctx.require(E, s, sc.same(s, omine, mine), "definition: a refused definition leaves the first one in place")
                            ctx.require(E, s, z3.Or(sc.has(mine, name), null, False if ext else sc.has(other, name)), "definition: a new identifier is accepted")
            us.append(Unit("%s %s" % (method, cls.split("::")[-1]), cls + "::" + method, run))

        def run(ctx, cls=cls):
            E, st, sc, name, nptr = setup(ctx, cls)
            ctx.cover(E, st.clone(), "defined name", sc.has(sc.syms0, name))
            for s, o in ctx.call(E, st, ctx.P.find(one_of(ctx.P, cls, "undefine")), [Ptr(sc.rid, 0), nptr]):
                ctx.require(E, s, o[0] == "ret", "removal: ends normally")
                ctx.require(E, s, sc.updated(s, sc.osyms, sc.syms0, name, None), "removal: the name is gone, all other names are kept")
                ctx.require(E, s, sc.same(s, sc.oext, sc.ext0), "removal: other definitions are untouched")
        us.append(Unit("undefine " + cls.split("::")[-1], cls + "::undefine", run))
    return us


f_scope = z3.Function("scope_lookup", IntS, Str, z3.BoolSort(), z3.BitVecSort(32), IntS)
OBJECT = "Slang::Runtime::Object"


def object_units():
    """lookup inside an object: own members, then inherited ones, then the surroundings"""
    us = []
    for case in ("plain", "base", "forwarding"):
        def run(ctx, case=case):
            P = ctx.P
            E = ctx.engine()
            st = State(E)
            rid = E.sym_region(st, "object", cls=[P.ti(OBJECT)], size=P.class_size(OBJECT))
            name = ctx.sym("name", Str)
            nr = E.sym_region(st, "namestr")
            st.w(nr).cells[0] = (StrV(name), 32)
            st.pc.append(name != strconst("base"))
            only = ctx.sym("only_current", z3.BoolSort())
            vis = ctx.sym("visibility", z3.BitVecSort(32))
            v = P.enum("Slang::Visibility::E")
            st.pc.append(z3.ULE(vis, max(v.values())))
            this = P.field(OBJECT, "mThis")
            other = z3.Int("this")
            if case == "forwarding":
                orid = E.sym_region(st, "other", cls=[P.ti(OBJECT)], addr=other)
                st.w(rid).cells[this] = (Ptr(orid, 0), 8)
            else:
                st.w(rid).cells[this] = (Ptr(rid, 0), 8)
            base = z3.Int("&basis")
            brid = E.sym_region(st, "basis", cls=[P.ti(OBJECT)], addr=base)
            st.w(brid).cells[in_symbol(P, OBJECT, "mType")] = (z3.BitVecVal(P.enum("Slang::Symbol::IType::E")["ObjectSymbol"], 32), 4)
            so = P.base_offset(OBJECT, "Slang::Symbol")
            own = E.addr(st, Ptr(rid, 0))

            def flag(x):
                return x if isinstance(x, z3.BoolRef) else to_bv(x) != 0

            def scope_resolve(E, st, a, ins):
                n = E.get_str(st, a[1])
                if const_of(z3.simplify(n)) == b"base":
                    return [(st, ("ret", Ptr(brid, so) if case == "base" else NULL))]
                r = f_scope(whole(E, st, a[0]), n, flag(a[2]), to_bv(a[3], 32))
                st.pc.append(r >= 0)
                return [(st, ("ret", SPtr(r)))]
            E.contracts[P.find(one_of(P, "Slang::MethodScope", "resolve"))] = scope_resolve

            def hook(E, st, sc, slot, args, ins, depth, fr, impls):
                if not impls or not all(re.match(r".*::resolve\(.*\) const$", E.P.dem.get(n, "")) for n in impls):
                    return None
                r = f_lookup(whole(E, st, args[0]), E.get_str(st, args[1]), flag(args[2]), to_bv(args[3], 32))
                st.pc.append(r >= 0)
                return [(st, ("ret", SPtr(r)))]
            E.virtual_hook = hook
            ctx.cover(E, st.clone(), "precondition")
            T, F = z3.BoolVal(True), z3.BoolVal(False)
            prot = z3.BitVecVal(v["Protected"], 32)
            r1 = f_scope(own, name, T, vis)
            r2 = f_lookup(base, name, only, z3.If(z3.ULT(vis, prot), prot, vis))
            r3 = f_scope(own, name, F, vis)
            for s, o in ctx.call(E, st, P.find(one_of(P, OBJECT, "resolve")), [Ptr(rid, 0), Ptr(nr, 0), z3.If(only, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), vis]):
                ctx.require(E, s, o[0] == "ret", "member lookup: ends normally")
                if o[0] != "ret":
                    continue
                r = E.addr(s, o[1])
                if case == "forwarding":
                    want = r == f_lookup(other, name, only, vis)
                else:
                    want = z3.If(only, r == 0, r == r3)
                    if case == "base":
                        want = z3.If(z3.And(z3.Not(only), r2 != 0), r == r2, want)
                    want = z3.If(r1 != 0, r == r1, want)
                ctx.require(E, s, want, "member lookup: own members, then inherited ones, then the surroundings")
        us.append(Unit("Object::resolve " + case, OBJECT + "::resolve", run, case=case))
    return us


INTERP = "Slang::AST::TreeInterpreter"
f_next = z3.Function("next_part", IntS, IntS)
f_word = z3.Function("word", IntS, Str)
f_kind = z3.Function("kind_of_symbol", IntS, IntS)
KINDS = {"BluePrintObjectSymbol": "Slang::Designtime::BluePrintObject", "NamespaceSymbol": "Slang::Common::Namespace",
         "ObjectSymbol": OBJECT, "MethodSymbol": METHOD}


def flag(x):
    return x if isinstance(x, z3.BoolRef) else to_bv(x) != 0


def interp_frame(E, P, st):
    """an interpreter inside a call: its frame has at least one scope"""
    this = E.sym_region(st, "interp", size=P.class_size(INTERP))
    frame = E.sym_region(st, "frame", size=P.class_size("Slang::StackFrame"))
    st.w(this).cells[P.field(INTERP, "mFrame")] = (Ptr(frame, 0), 8)
    n = z3.Int("scopes")
    st.pc.append(z3.And(n >= 1, n < 1 << 30))
    off, oscope = P.field("Slang::StackFrame", "mScopeStack"), P.field("Slang::StackFrame::Scope", "mScope")
    c0 = SeqV("scopes", n, kind="list", esize=16, lv=None)
    st.w(frame).cells[off] = (c0, 24)
    top = z3.Select(E.field_arr(c0, oscope, IntS), n - 1)
    st.pc.append(top > 0)
    return this, frame, off, oscope, c0, n, top


class Names:
    """resolution of a dotted name a.b.c: each part is looked up in what the part before it stands for"""

    def __init__(self, ctx):
        P = self.P = ctx.P
        E = self.E = ctx.engine()
        st = self.st = State(E)
        self.kinds = P.enum("Slang::Symbol::IType::E")
        self.this = interp_frame(E, P, st)[0]
        self.scope, self.exp = z3.Int("scope"), z3.Int("expression")
        st.pc.append(z3.And(self.scope >= 0, self.exp >= 0))
        SE = "Slang::AST::SymbolExpression"
        onext, oname = P.field(SE, "mSymbolExpression"), P.field(SE, "mName")
        self.next = z3.Function("pre%d%s" % (onext, IntS), IntS, IntS)
        self.word = z3.Function("pre%dS" % oname, IntS, Str)

        def hook(E, st, sc, slot, args, ins, depth, fr, impls):
            d = [E.P.dem.get(n, "") for n in impls]
            if d and all(re.match(r".*::toString\(\) const$", x) for x in d):
                E.set_str(st, args[0], z3.Const(fresh_name("text"), Str))
                return [(st, ("ret", None))]
            if not d or not all(re.match(r".*::resolve\(.*\) const$", x) for x in d):
                return None
            return self.answer(st, args)
        E.virtual_hook = hook

    def answer(self, st, args):
        """a lookup finds nothing, or a symbol of one of the kinds"""
        E, P = self.E, self.P
        r = f_lookup(E.addr(st, args[0]), E.get_str(st, args[1]), flag(args[2]), to_bv(args[3], 32))
        out = []
        s0 = st.clone()
        s0.pc.append(r == 0)
        if E.feasible(s0):
            out.append((s0, ("ret", NULL)))
        for k, c in KINDS.items():
            s = st.clone()
            s.pc.append(z3.And(r > 0, f_kind(r) == self.kinds[k]))
            if not E.feasible(s):
                continue
            so = P.base_offset(c, "Slang::Symbol")
            a = z3.simplify(r - so)
            e = s.ptrs.get(a.get_id())
            if e is None:
                rid = E.sym_region(s, fresh_name("found"), cls=[P.ti(c)], addr=a)
                s.mem[rid].heap = True
                s.pc.append(z3.Function("pre%d%s" % (in_symbol(P, c, "mType"), z3.BitVecSort(32)), IntS, z3.BitVecSort(32))(a) == self.kinds[k])
            else:
                rid = e[0]
            out.append((s, ("ret", Ptr(rid, so))))
        return out

    def scope_of(self, r):
        """the scope a found symbol (not a method) is"""
        P = self.P
        t = z3.IntVal(0)
        for k, c in KINDS.items():
            if k != "MethodSymbol":
                t = z3.If(f_kind(r) == self.kinds[k], r - P.base_offset(c, "Slang::Symbol") + P.base_offset(c, "Slang::IScope"), t)
        return t

    def dotted(self, only, vis):
        """recursive definition of what scope.name stands for (-1: a method used as a scope)"""
        R = z3.Function("dotted", IntS, IntS, IntS)

        def at(s, e):
            """the definition for this scope and name part"""
            c = f_lookup(s, self.word(e), only, vis)
            return R(s, e) == z3.If(self.next(e) == 0, c, z3.If(c == 0, z3.IntVal(0), z3.If(
                f_kind(c) == self.kinds["MethodSymbol"], z3.IntVal(-1), R(self.scope_of(c), self.next(e)))))
        return R, at


def name_units():
    def rvalue(ctx):
        N = Names(ctx)
        E, P, st = N.E, N.P, N.st
        only = ctx.sym("only_current", z3.BoolSort())
        vis = ctx.sym("visibility", z3.BitVecSort(32))
        R, at = N.dotted(only, vis)
        st.pc.append(at(N.scope, N.exp))

        def cand(E, st0, cur, hv, fr, getv):
            # scope and name part of the loop stand for the same thing as those at the start
            ks = [k for k in hv if k[0] != "ghost" and isinstance(getv(k), (SPtr, Ptr))]
            out = []
            for a in ks:
                for b in ks:
                    if a != b:
                        p, q = E.addr(cur, getv(a)), E.addr(cur, getv(b))
                        cur.pc.append(at(p, q))
                        out.append(("same name %s %s" % (a, b), R(p, q) == R(N.scope, N.exp)))
            return out
        E.cand_hooks.append(cand)
        ctx.cover(E, st.clone(), "two parts", N.next(N.exp) != 0)
        for s, o in ctx.call(E, st, P.find(one_of(P, INTERP, "resolveRValue")), [Ptr(N.this, 0), SPtr(N.scope), SPtr(N.exp), z3.If(only, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), vis]):
            want = R(N.scope, N.exp)
            if o[0] == "ret":
                ctx.require(E, s, z3.And(N.scope != 0, N.exp != 0, E.addr(s, o[1]) == want), "dotted name: each part is looked up in what the part before it stands for")
            else:
                ctx.require(E, s, z3.Or(N.scope == 0, N.exp == 0, want == -1), "dotted name: refused only for a missing scope or a part that cannot contain names")
    def symbol(ctx):
        """value of a dotted name"""
        N = Names(ctx)
        E, P, st = N.E, N.P, N.st
        fn = P.find(one_of(P, INTERP, "evaluateSymbolExpression"))
        st.pc.append(N.exp > 0)
        result = E.sym_region(st, "result", cls=[P.ti(OBJECT)])

        def rec(E, st, a, ins):
            st.ghost["done"] = ("part", a[1], a[2], a[3])
            return [(st, ("ret", None))]

        def assign(E, st, a, ins):
            st.ghost["done"] = ("value", a[0], a[1])
            return [(st, ("ret", a[0]))]

        def opaque(E, st, a, ins):
            return [(st, ("ret", None))]
        def text(E, st, a, ins):
            E.set_str(st, a[0], z3.Const(fresh_name("text"), Str))
            return [(st, ("ret", None))]
        E.contracts[fn] = rec
        E.contracts[P.find("Slang::AST::SymbolExpression::toString() const")] = text
        E.contracts[P.find(OBJECT + "::operator=(" + OBJECT + " const&)")] = assign
        for rx in (r"Slang::Repository::createInstance\(std::string const&, std::string const&, .*\)$", r"Slang::Runtime::Object::setValue\(.*\)$",
                   r"Slang::Core::Debugger::notifyExceptionThrow\(.*\)$", r"Slang::Runtime::ExceptionData::operator=\(.*\)$",
                   r"Slang::Runtime::ExceptionData::ExceptionData\(Slang::Runtime::Object\*,.*\)$", r"Slang::Thread::exception\(\)$",
                   r"Slang::Runtime::AtomicValue::AtomicValue\(std::string\)$", r"Slang::Runtime::AtomicValue::~AtomicValue\(\)$",
                   r"Slang::Runtime::ExceptionData::~ExceptionData\(\)$"):
            for d in [d for d in P.bydem if re.match(rx, d)]:
                for x in P.bydem[d]:
                    E.contracts[x] = (lambda E, st, a, ins: [(st, ("ret", Ptr(E.sym_region(st, fresh_name("made")), 0)))]) if re.search("createInstance|exception\\(\\)", d) else opaque
        des = z3.BitVecVal(P.enum("Slang::Visibility::E")["Designtime"], 32)
        c = f_lookup(N.scope, N.word(N.exp), z3.BoolVal(False), des)
        for s, o in ctx.call(E, st, fn, [Ptr(N.this, 0), SPtr(N.exp), Ptr(result, 0), SPtr(N.scope)], own=False):
            done = s.ghost.get("done")
            if o[0] != "ret":
                ctx.require(E, s, done is None, "name: an unknown name yields no value")
                ctx.require(E, s, z3.Or(N.scope == 0, c == 0, z3.If(N.next(N.exp) != 0, f_kind(c) == N.kinds["MethodSymbol"], f_kind(c) != N.kinds["ObjectSymbol"])),
                            "name: refused only if it is unknown or stands for no value")
                continue
            ctx.require(E, s, done is not None, "name: yields a value")
            if done is None:
                continue
            last = N.next(N.exp) == 0
            ctx.require(E, s, last == (done[0] == "value"), "name: a value is taken from the last part only")
            if done[0] == "value":
                o = P.base_offset(OBJECT, "Slang::Symbol")
                ctx.require(E, s, z3.And(E.icmp(s, "eq", done[1], Ptr(result, 0)), E.addr(s, done[2]) == c - o), "name: its value is that of the innermost definition")
            else:
                ctx.require(E, s, z3.And(E.addr(s, done[1]) == N.next(N.exp), E.icmp(s, "eq", done[2], Ptr(result, 0)), E.addr(s, done[3]) == N.scope_of(c)),
                            "name: the next part is looked up in what this part stands for")

    def push(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        this, frame, off, oscope, c0, n, top = interp_frame(E, P, st)
        given = z3.Int("given")
        st.pc.append(given >= 0)
        for s, o in ctx.call(E, st, P.find(one_of(P, INTERP, "pushScope")), [Ptr(this, 0), SPtr(given)]):
            ctx.require(E, s, o[0] == "ret", "new scope: ends normally")
            c = E.container(s, Ptr(frame, off))
            ctx.require(E, s, c.n == n + 1, "new scope: one more scope")
            i = z3.Int(fresh_name("i"))
            arr = E.field_arr(c, oscope, IntS)
            ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(E.field_arr(c0, oscope, IntS), i)), "new scope: the others stay as they are")
            new = E.ptr_from(s, z3.simplify(z3.Select(arr, n)))
            if isinstance(new, SPtr):
                ctx.require(E, s, z3.And(given != 0, new.t == given), "new scope: the given scope becomes the innermost")
            else:
                ctx.require(E, s, given == 0, "new scope: a scope of its own only if none is given")
                par = E.load(s, E.padd(new, P.field("Slang::SymbolScope", "mParent") - P.base_offset("Slang::SymbolScope", "Slang::IScope")), ir.PTR)
                ctx.require(E, s, E.addr(s, par) == top, "new scope: lies inside the innermost scope so far")
                for f in ("mSymbols", "mExternalSymbols"):
                    m = E.container(s, E.padd(new, P.field("Slang::SymbolScope", f)), "map", cinfo(E, "map", SYMS))
                    k = z3.Const(fresh_name("k"), Str)
                    ctx.require(E, s, z3.Not(z3.Select(m.dom, k)), "new scope: defines nothing yet")
    return [Unit("resolveRValue", INTERP + "::resolveRValue", rvalue), Unit("evaluateSymbolExpression", INTERP + "::evaluateSymbolExpression", symbol),
            Unit("pushScope", INTERP + "::pushScope", push)]
