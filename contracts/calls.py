"""Method calls: matching a signature, binding arguments and defaults, choosing a method."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo, leaf_sort
from engine.verify import Unit, SpecError
from .objects import *
from .ops import as_bool
from .values import one
from .text import text_arg, room
from . import scopes

PARAM = "Slang::Parameter"
METHOD = "Slang::Common::Method"
TYPEDECL = "Slang::Common::TypeDeclaration"
PLIST = "std::list<Slang::Parameter, std::allocator<Slang::Parameter> >"


class Lists:
    """parameter lists seen as sequences of their fields"""

    def __init__(self, E):
        P = self.P = E.P
        self.E = E
        f = lambda n: P.field(PARAM, n)
        t = f("mType")
        td = lambda n: t + P.field(TYPEDECL, n)
        v = f("mValue")
        self.name, self.type, self.default = f("mName"), td("mName"), f("mHasDefaultValue")
        self.access, self.mut = f("mAccessMode"), f("mMutability")
        self.ref = f("mReference") + P.field("Slang::Runtime::Reference", "mAddress")
        self.vtype, self.vstr, self.vbits = v + P.field(AV, "mType"), v + P.field(AV, "mStringValue"), v + P.field(AV, "mValue")
        self.info = cinfo(E, "list", [PARAM])
        self.sort = {o: leaf_sort(k) for o, k in self.info.lv}

    def fresh(self, st, rid, off, name):
        n = z3.Int(name + ".count")
        st.pc.append(z3.And(n >= 0, n < 1 << 30))
        c = SeqV(name, n, kind="list", esize=self.info.esize, lv=self.info.lv)
        st.w(rid).cells[off] = (c, self.E.CSIZE["list"])
        i = z3.Int("i!wf")
        d = z3.Select(self.E.field_arr(c, self.default, self.sort[self.default]), i)
        st.pc.append(z3.ForAll([i], z3.Or(d == 0, d == 1), patterns=[d]))
        return c

    def at(self, c, off, i):
        return z3.Select(self.E.field_arr(c, off, self.sort[off]), c.lo + i)

    def value_same(self, c, i, d, j):
        return z3.And(*[self.at(c, o, i) == self.at(d, o, j) for o in (self.vtype, self.vstr, self.vbits)])


def fits(S, sig, args):
    """a call with args matches the signature"""
    i = z3.Int("i!fits")
    t, u = S.at(sig, S.type, i), S.at(args, S.type, i)
    return z3.And(args.n <= sig.n,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < args.n), z3.Or(t == u, t == EMPTY))),
                  z3.ForAll([i], z3.Implies(z3.And(i >= args.n, i < sig.n), S.at(sig, S.default, i) != 0)))


def method_with_signature(E, st, name="method"):
    P = E.P
    S = Lists(E)
    m = E.sym_region(st, name, size=P.class_size(METHOD))
    sig = S.fresh(st, m, P.field(METHOD, "mSignature"), name + ".signature")
    return S, m, sig


def signature_units():
    def run(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        S, m, sig = method_with_signature(E, st)
        a = E.sym_region(st, "args")
        args = S.fresh(st, a, 0, "args")
        ctx.cover(E, st.clone(), "more parameters than arguments", z3.And(args.n > 1, sig.n > args.n))
        for s, o in ctx.call(E, st, one(P, re.escape(METHOD) + r"::isSignatureValid\(.*\) const$"), [Ptr(m, 0), Ptr(a, 0)]):
            ctx.require(E, s, o[0] == "ret", "matching a call: ends normally")
            if o[0] != "ret":
                continue
            r = as_bool(o[1])
            ctx.require(E, s, z3.Implies(r, fits(S, sig, args)), "matching a call: accepted only if count, types and defaults fit")
            ctx.require(E, s, z3.Implies(fits(S, sig, args), r), "matching a call: refused only if count, types or defaults do not fit")

    def merge(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        S, m, sig = method_with_signature(E, st)
        a = E.sym_region(st, "args")
        args = S.fresh(st, a, 0, "args")
        ok = z3.Bool("fits")
        E.contracts[one(P, re.escape(METHOD) + r"::isSignatureValid\(.*\) const$")] = lambda E, st, a, ins: \
            [(st, ("ret", z3.If(ok, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))]
        st.pc.append(z3.Implies(ok, fits(S, sig, args)))
        res = room(E, st)
        for s, o in ctx.call(E, st, one(P, re.escape(METHOD) + r"::mergeParameters\(.*\) const$"), [res, Ptr(m, 0), Ptr(a, 0)]):
            if o[0] != "ret":
                ctx.require(E, s, z3.Not(ok), "binding parameters: refused only if the call does not match")
                continue
            ctx.require(E, s, ok, "binding parameters: a call that does not match is refused")
            out = E.container(s, res)
            i = z3.Int(fresh_name("i"))
            rng = z3.And(i >= 0, i < sig.n)
            ctx.require(E, s, out.n == sig.n, "binding parameters: one value for every declared parameter")
            for what, off in (("name", S.name), ("type", S.type), ("mutability", S.mut), ("way of passing", S.access)):
                ctx.require(E, s, z3.Implies(rng, S.at(out, off, i) == S.at(sig, off, i)), "binding parameters: declared " + what)
            given = z3.And(rng, i < args.n)
            ctx.require(E, s, z3.Implies(given, S.value_same(out, i, args, i)), "binding parameters: passed value")
            ctx.require(E, s, z3.Implies(given, S.at(out, S.ref, i) == S.at(args, S.ref, i)), "binding parameters: passed reference")
            rest = z3.And(rng, i >= args.n)
            ctx.require(E, s, z3.Implies(rest, S.value_same(out, i, sig, i)), "binding parameters: default of an omitted parameter")
            ctx.require(E, s, z3.Implies(rest, S.at(out, S.ref, i) == 0), "binding parameters: an omitted parameter refers to no object")

    def make(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        S = Lists(E)
        t = ctx.sym("type", Str)
        tp = text_arg(E, st, t, "type")
        v = E.sym_region(st, "value", size=P.class_size(AV))
        fn = one(P, r"Slang::Parameter::CreateRuntime\(.*\)$")
        ref = z3.BitVec("reference", 32)
        res = E.sym_region(st, "out")
        res0 = Ptr(res, 0)
        ov = S.vstr
        for s, o in ctx.call(E, st, fn, [res0, tp, Ptr(v, 0), ref]):
            ctx.require(E, s, o[0] == "ret", "passing an argument: ends normally")
            if o[0] != "ret":
                continue
            ctx.require(E, s, E.get_str(s, Ptr(res, S.type)) == t, "passing an argument: its type")
            ctx.require(E, s, E.get_str(s, Ptr(res, S.vstr)) == E.get_str(s, Ptr(v, P.field(AV, "mStringValue"))), "passing an argument: its text")
            for off, f, w in ((S.vtype, "mType", 32), (S.vbits, "mValue", 64)):
                ctx.require(E, s, to_bv(E.load(s, Ptr(res, off), ir._INTS[w]), w) == to_bv(E.load(s, Ptr(v, P.field(AV, f)), ir._INTS[w]), w), "passing an argument: its value")
            ctx.require(E, s, to_bv(E.load(s, Ptr(res, S.ref), ir.I32), 32) == ref, "passing an argument: its reference")
    return [Unit("CreateRuntime", "Slang::Parameter::CreateRuntime", make), Unit("isSignatureValid", METHOD + "::isSignatureValid", run), Unit("mergeParameters", METHOD + "::mergeParameters", merge)]


# ---- choosing a method ------------------------------------------------------------------------------------------------
f_method = z3.Function("method_lookup", IntS, Str, IntS, z3.BoolSort(), z3.BitVecSort(32), IntS)
f_smethod = z3.Function("scope_method_lookup", IntS, Str, IntS, z3.BoolSort(), z3.BitVecSort(32), IntS)
f_match = z3.Function("matches", IntS, IntS, z3.BoolSort())
bit = lambda b: z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def method_lookup(E, sc=None, skip=()):
    """lookup in other scopes and of names is its contract; whether a method matches is the contract of the signature check"""
    P = E.P

    def hook(E, st, scls, slot, args, ins, depth, fr, impls):
        n = [P.dem.get(i, "") for i in impls or []]
        if n and all(re.match(r".*::resolveMethod\(.*\) const$", d) for d in n):
            if any(args[0] is x for x in skip):
                return None
            r = f_method(scopes.whole(E, st, args[0]), E.get_str(st, args[1]), E.addr(st, args[2]), scopes.flag(args[3]), to_bv(args[4], 32))
            st.pc.append(r >= 0)
            return [(st, ("ret", SPtr(r)))]
        if n and all(re.match(r".*::isSignatureValid\(.*\) const$", d) for d in n):
            return matches(E, st, args, ins)
        if n and all(re.match(r".*::resolve\(.*\) const$", d) for d in n):
            return base_lookup(E, st, args, ins)
        return None

    def matches(E, st, args, ins):
        return [(st, ("ret", bit(f_match(scopes.whole(E, st, args[0]), E.addr(st, args[1])))))]

    def base_lookup(E, st, args, ins):
        if const_of(z3.simplify(E.get_str(st, args[1]))) != b"base":
            raise Unsupported("lookup of another name while looking for a method")
        return [(st, ("ret", sc.base if sc is not None and sc.base is not None else NULL))]
    E.virtual_hook = hook
    E.contracts[one(P, re.escape(METHOD) + r"::isSignatureValid\(.*\) const$")] = matches
    E.contracts[P.find(scopes.one_of(P, "Slang::MethodScope", "resolve"))] = base_lookup


def text_for(E, st, name):
    nr = E.sym_region(st, "namestr")
    st.w(nr).cells[0] = (StrV(name), 32)
    return Ptr(nr, 0)


def choice_units():
    us = []
    cls = "Slang::MethodScope"
    for base in [None] + list(scopes.BASES):
        def run(ctx, base=base):
            P = ctx.P
            E, st, sc, name, nptr, only, vis, ok = scopes.lookup_case(ctx, cls, base)
            method_lookup(E, sc)
            des = z3.BitVecVal(P.enum("Slang::Visibility::E")["Designtime"], 32)
            a = E.sym_region(st, "args")
            av = E.addr(st, Ptr(a, 0))
            prid = E.sym_region(st, "enclosing", cls=[P.ti(cls)], size=P.class_size(cls))
            nopar = z3.Bool("outermost")
            pa = E.addr(st, Ptr(prid, 0))
            cases = [(NULL, False), (Ptr(prid, 0), True)]
            for par, has in cases:
                t = st.clone()
                t.w(sc.rid).cells[sc.oparent] = (par, 8)
                so = P.base_offset(METHOD, "Slang::MethodSymbol")
                ctx.cover(E, t.clone(), "precondition")
                for s, o in ctx.call(E, t, P.find(scopes.one_of(P, cls, "resolveMethod")), [Ptr(sc.rid, 0), nptr, Ptr(a, 0), bit(only), vis]):
                    ctx.require(E, s, o[0] == "ret", "choosing a method: ends normally")
                    if o[0] != "ret":
                        continue
                    r = E.addr(s, o[1])
                    out = z3.If(z3.Not(only), r == f_method(pa, name, av, only, vis), r == 0) if has else r == 0
                    if base is not None:
                        fb = f_method(sc.baseptr, name, av, z3.BoolVal(True), vis)
                        out = z3.If(z3.And(vis != des, fb != 0), r == fb, out)
                    for m in (sc.extm0, sc.meth0):
                        j = z3.Int(fresh_name("j"))
                        x = z3.Select(m.enum, j)
                        match = lambda q: z3.And(z3.UGE(scopes.vis_of(E, q, METHOD), vis), scopes.name_of(E, q, METHOD) == name, f_match(q, av))
                        d = r - so
                        out = z3.Or(z3.And(z3.Select(m.dom, d), match(d)), z3.And(z3.Implies(z3.And(j >= 0, j < m.n), z3.Not(match(x))), out))
                    ctx.require(E, s, out, "choosing a method: a visible one of that name that matches, else an inherited or an enclosing one, else none")
                    ctx.require(E, s, sc.unchanged(s), "choosing a method: changes no definition")
        us.append(Unit("resolveMethod MethodScope" + (" with " + base if base else ""), cls + "::resolveMethod", run,
                       case="inheriting from " + base if base else ""))
    return us


def final_of(E, addr):
    """the method known by the address of its method symbol part may not be replaced"""
    P = E.P
    o = P.base_offset("Slang::MethodSymbol", "Slang::MethodAttributes") + P.field("Slang::MethodAttributes", "mMemoryLayout")
    return z3.Function("pre%d%s" % (o, z3.BitVecSort(32)), IntS, z3.BitVecSort(32))(addr) == P.enum("Slang::MemoryLayout::E")["Final"]


def object_choice_units():
    """choice inside an object: its own methods before inherited ones, unless the inherited one is final"""
    us = []
    OBJECT = scopes.OBJECT
    for case in ("plain", "base", "forwarding"):
        def run(ctx, case=case):
            P = ctx.P
            E = ctx.engine()
            st = State(E)
            rid = E.sym_region(st, "object", cls=[P.ti(OBJECT)], size=P.class_size(OBJECT))
            name = ctx.sym("name", Str)
            nptr = text_for(E, st, name)
            only = ctx.sym("only_current", z3.BoolSort())
            vis = ctx.sym("visibility", z3.BitVecSort(32))
            v = P.enum("Slang::Visibility::E")
            st.pc.append(z3.ULE(vis, max(v.values())))
            a = E.sym_region(st, "args")
            av = E.addr(st, Ptr(a, 0))
            other = z3.Int("this")
            this = P.field(OBJECT, "mThis")
            if case == "forwarding":
                orid = E.sym_region(st, "other", cls=[P.ti(OBJECT)], addr=other)
            st.w(rid).cells[this] = (Ptr(orid if case == "forwarding" else rid, 0), 8)
            base = z3.Int("&basis")
            brid = E.sym_region(st, "basis", cls=[P.ti(OBJECT)], addr=base)
            st.w(brid).cells[scopes.in_symbol(P, OBJECT, "mType")] = (z3.BitVecVal(P.enum("Slang::Symbol::IType::E")["ObjectSymbol"], 32), 4)
            so = P.base_offset(OBJECT, "Slang::Symbol")
            own = E.addr(st, Ptr(rid, 0))
            method_lookup(E)
            E.contracts[P.find(scopes.one_of(P, "Slang::MethodScope", "resolve"))] = lambda E, st, x, ins: \
                [(st, ("ret", Ptr(brid, so) if case == "base" else NULL))]

            def scope_method(E, st, x, ins):
                r = f_smethod(scopes.whole(E, st, x[0]), E.get_str(st, x[1]), E.addr(st, x[2]), scopes.flag(x[3]), to_bv(x[4], 32))
                st.pc.append(r >= 0)
                return [(st, ("ret", SPtr(r)))]
            E.contracts[P.find(scopes.one_of(P, "Slang::MethodScope", "resolveMethod"))] = scope_method
            T, F = z3.BoolVal(True), z3.BoolVal(False)
            prot = z3.BitVecVal(v["Protected"], 32)
            mine = f_smethod(own, name, av, T, vis)
            wide = f_smethod(own, name, av, F, vis)
            inh = f_method(base, name, av, only, z3.If(z3.ULT(vis, prot), prot, vis))
            # contract of the scope's own choice: its own methods come first
            st.pc.append(z3.Implies(mine != 0, wide == mine))
            if case != "base":
                inh = z3.IntVal(0)
            ctx.cover(E, st.clone(), "precondition")
            for s, o in ctx.call(E, st, P.find(scopes.one_of(P, OBJECT, "resolveMethod")), [Ptr(rid, 0), nptr, Ptr(a, 0), bit(only), vis]):
                ctx.require(E, s, o[0] == "ret", "choosing an object's method: ends normally")
                if o[0] != "ret":
                    continue
                r = E.addr(s, o[1])
                if case == "forwarding":
                    ctx.require(E, s, r == f_method(other, name, av, only, vis), "choosing an object's method: that of the object referred to")
                    continue
                want = z3.If(z3.And(inh != 0, final_of(E, inh)), inh, z3.If(mine != 0, mine, z3.If(z3.And(z3.Not(only), wide != 0), wide, inh)))
                ctx.require(E, s, r == want, "choosing an object's method: its own before inherited ones unless the inherited one is final")
        us.append(Unit("Object::resolveMethod " + case, OBJECT + "::resolveMethod", run, case=case))
    return us


def method_definition_units():
    cls = "Slang::MethodScope"

    def members(sc, s, off):
        return sc.set(s, off).dom

    def define(ctx):
        P = ctx.P
        for null in (False, True):
            E, st, sc, name, nptr = scopes.setup(ctx, cls)
            m = E.sym_region(st, "newmethod", cls=[P.ti(METHOD)], size=P.class_size(METHOD))
            new = NULL if null else Ptr(m, 0)
            sig = E.addr(st, Ptr(m, P.field(METHOD, "mSignature")))
            des = P.enum("Slang::Visibility::E")

            def taken(E, st, x, ins):
                r = f_smethod(scopes.whole(E, st, x[0]), E.get_str(st, x[1]), E.addr(st, x[2]), scopes.flag(x[3]), to_bv(x[4], 32))
                st.pc.append(r >= 0)
                ctx.require(E, st, z3.And(scopes.flag(x[3]), E.icmp(st, "eq", x[0], Ptr(sc.rid, 0)), E.get_str(st, x[1]) == name, E.addr(st, x[2]) == sig),
                            "new method: checked against the methods of this scope with its own signature")
                st.ghost["found"] = r != 0
                return [(st, ("ret", SPtr(r)))]
            E.contracts[P.find(scopes.one_of(P, cls, "resolveMethod"))] = taken
            opaque(E, [r"Slang::.*::getFullScopeName\(\) const$", r"Slang::toString\(.*\)$"])
            before = sc.meth0.dom
            for s, o in ctx.call(E, st, P.find(scopes.one_of(P, cls, "defineMethod")), [Ptr(sc.rid, 0), nptr, new]):
                found = s.ghost.get("found", z3.BoolVal(False))
                k = z3.Int(fresh_name("k"))
                now = members(sc, s, sc.ometh)
                ctx.require(E, s, sc.unchanged(s), "new method: other definitions are untouched")
                if o[0] == "ret":
                    ctx.require(E, s, z3.And(z3.Not(found), not null), "new method: one that the same call would match is refused")
                    if not null:
                        me = E.addr(s, new)
                        ctx.require(E, s, z3.And(z3.Select(now, me), z3.Implies(k != me, z3.Select(now, k) == z3.Select(before, k))), "new method: is added, the others are kept")
                else:
                    ctx.require(E, s, z3.Or(found, null), "new method: refused only if the same call would match another one")
                    ctx.require(E, s, z3.Select(now, k) == z3.Select(before, k), "new method: a refused one is not added")

    def undefine(ctx):
        P = ctx.P
        E, st, sc, name, nptr = scopes.setup(ctx, cls)
        m = E.sym_region(st, "oldmethod", cls=[P.ti(METHOD)], size=P.class_size(METHOD))
        E.contracts[P.find(scopes.one_of(P, cls, "undefine"))] = lambda E, st, x, ins: [(st, ("ret", None))]
        E.virtual_hook = lambda E, st, c, slot, args, ins, depth, fr, impls: \
            [(st, ("ret", None))] if impls and all(re.match(r".*::undefine\(", P.dem.get(n, "")) for n in impls) else None
        before = sc.meth0.dom
        me = E.addr(st, Ptr(m, 0))
        for s, o in ctx.call(E, st, P.find(scopes.one_of(P, cls, "undefineMethod")), [Ptr(sc.rid, 0), Ptr(m, 0)]):
            ctx.require(E, s, o[0] == "ret", "removing a method: ends normally")
            k = z3.Int(fresh_name("k"))
            now = members(sc, s, sc.ometh)
            ctx.require(E, s, z3.And(z3.Not(z3.Select(now, me)), z3.Implies(k != me, z3.Select(now, k) == z3.Select(before, k))), "removing a method: it is gone, the others are kept")
    return [Unit("defineMethod", cls + "::defineMethod", define), Unit("undefineMethod", cls + "::undefineMethod", undefine)]


def opaque(E, rxs):
    """text built for messages only"""
    def text(E, st, a, ins):
        E.set_str(st, a[0], z3.Const(fresh_name("text"), Str))
        return [(st, ("ret", None))]
    for rx in rxs:
        for d in [d for d in E.P.bydem if re.match(rx, d)]:
            for x in E.P.bydem[d]:
                E.contracts[x] = text


def dotted_choice_unit():
    """a called dotted name: every part before the last is looked up in what the part before it stands for"""
    def run(ctx):
        N = scopes.Names(ctx)
        E, P, st = N.E, N.P, N.st
        vis = ctx.sym("visibility", z3.BitVecSort(32))
        a = E.sym_region(st, "args")
        av = E.addr(st, Ptr(a, 0))
        inner = E.virtual_hook
        T, F = z3.BoolVal(True), z3.BoolVal(False)

        def hook(E, st, sc, slot, args, ins, depth, fr, impls):
            d = [P.dem.get(n, "") for n in impls]
            if d and all(re.match(r".*::resolveMethod\(.*\) const$", x) for x in d):
                r = f_method(E.addr(st, args[0]), E.get_str(st, args[1]), E.addr(st, args[2]), scopes.flag(args[3]), to_bv(args[4], 32))
                st.pc.append(r >= 0)
                return [(st, ("ret", SPtr(r)))]
            return inner(E, st, sc, slot, args, ins, depth, fr, impls)
        E.virtual_hook = hook
        opaque(E, [r"Slang::AST::SymbolExpression::toString\(\) const$"])
        rest = z3.Function("called", IntS, IntS, IntS)
        f_ms = z3.Function("as_method_scope", IntS, IntS)

        def body(s, e, b):
            """what e called in scope s stands for, looking only into s (b) or also around it"""
            c = scopes.f_lookup(s, N.word(e), b, vis)
            last = z3.If(f_ms(s) == 0, z3.IntVal(0), f_method(f_ms(s), N.word(e), av, F, vis))
            return z3.If(N.next(e) == 0, last, z3.If(c == 0, z3.IntVal(0), z3.If(scopes.f_kind(c) == N.kinds["MethodSymbol"], z3.IntVal(-1), rest(N.scope_of(c), N.next(e)))))
        want = body(N.scope, N.exp, F)

        def cand(E, st0, cur, hv, fr, getv):
            ks = [k for k in hv if k[0] != "ghost" and isinstance(getv(k), (SPtr, Ptr))]
            bs = [k for k in hv if k[0] != "ghost" and not isinstance(getv(k), (SPtr, Ptr))]
            out = []
            for x in ks:
                for y in ks:
                    if x == y:
                        continue
                    p, q = E.addr(cur, getv(x)), E.addr(cur, getv(y))
                    cur.pc.append(rest(p, q) == body(p, q, T))      # its definition, at this scope and name part
                    out.append(("same call %s %s" % (x, y), rest(p, q) == want))
                    for f in bs:
                        try:
                            v = getv(f)
                            fl = v if isinstance(v, z3.BoolRef) else z3.Extract(0, 0, to_bv(v)) == 1
                        except Exception:
                            continue
                        out.append(("same call %s %s %s" % (x, y, f), z3.If(fl, rest(p, q) == want, z3.And(p == N.scope, q == N.exp))))
            return out
        E.cand_hooks.append(cand)

        def cast(E, st, x, ins):
            if st.mem[x[2].rid].name != P.ti("Slang::MethodScope"):
                return None
            t = f_ms(E.addr(st, x[0]))
            st.pc.append(t >= 0)
            return [(st, ("ret", SPtr(t)))]
        E.contracts["__dynamic_cast"] = cast
        ctx.cover(E, st.clone(), "two parts", N.next(N.exp) != 0)
        for s, o in ctx.call(E, st, P.find(scopes.one_of(P, scopes.INTERP, "resolveMethod")), [Ptr(N.this, 0), SPtr(N.scope), SPtr(N.exp), Ptr(a, 0), vis]):
            if o[0] == "ret":
                ctx.require(E, s, z3.And(N.scope != 0, N.exp != 0, E.addr(s, o[1]) == want), "called name: each part is looked up in what the part before it stands for")
            else:
                ctx.require(E, s, z3.Or(N.scope == 0, N.exp == 0, want == -1), "called name: refused only for a missing scope or a part that cannot contain names")
    return [Unit("resolveMethod of a called name", scopes.INTERP + "::resolveMethod", run)]
