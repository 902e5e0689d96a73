"""What may be changed: the checks of the parser for assignments, ++/--, calls and references to const data.

Names are chains of parts; whether one of them is const is a recursive definition over the chain, proved for the functions
that compute it and used as their contract where a name is written to.
"""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit
from .values import one
from .parser import *
from .parser import Tree
from .calls import opaque, Lists
from .scopes import KINDS, f_kind, in_symbol

SE = AST + "SymbolExpression"
f_const = z3.Function("is_const", Tree, z3.BoolSort())
f_member = z3.Function("is_member", Tree, z3.BoolSort())
f_inner = z3.Function("is_inner_const", Tree, z3.BoolSort())
FLAGS = {"isConst": f_const, "isMember": f_member, "isInnerConst": f_inner, "isAtomicType": f_atomic}
OWN = {"isConst": ("mIsConst", True), "isMember": ("mIsMember", True), "isInnerConst": ("mIsConst", False), "isAtomicType": ("mIsAtomicType", False)}
bit = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
true = lambda v: z3.Extract(0, 0, to_bv(v, 8) if not isinstance(v, z3.BitVecRef) else v) == 1


class Names(Parser):
    """a parser that knows which names are const, and which are members"""

    def __init__(self, ctx, **k):
        super().__init__(ctx, **k)
        E, P, st = self.E, self.P, self.st
        self.statements()
        self.next = z3.Function("pre%d%s" % (P.field(SE, "mSymbolExpression"), IntS), IntS, IntS)
        self.constructing = z3.Bool("const members may be set")
        self.in_const = z3.Bool("const method")
        st.w(self.this.rid).cells[P.field(TG, "mAllowConstModify")] = (bit8(self.constructing), 1)
        self.on(r"Slang::MethodAttributes::isConstMethod\(\) const", self.c_const_method)
        # only used in messages
        opaque(E, [re.escape(SE) + r"::(innerName|toString)\(\) const$"])
        self.lhs = z3.Int("name")
        st.pc.append(self.lhs > 0)
        self.on(re.escape(TG) + r"::process_method\(Slang::AST::SymbolExpression\*, Slang::Token const&, .*\)", self.c_called)

    def c_const_method(self, E, st, a, ins):
        p = E.load(st, Ptr(self.this.rid, self.P.field(TG, "mMethod")), ir.PTR)
        if isinstance(a[0], Ptr) and a[0].rid == p.rid:
            return [(st, ("ret", bit(self.in_const)))]
        return None

    def c_called(self, E, st, a, ins):
        """a method is called, or the source refused"""
        bad = st.clone()
        bad.ghost["err"] = 1
        r = z3.Int(fresh_name("call"))
        st.pc.append(r > 0)
        st.ghost["called"] = (E.addr(st, a[1]), r)
        return E.throw(bad, EXC_TI) + [(st, ("ret", SPtr(r)))]

    def cast(self, E, st, a, ins):
        dst = st.mem[a[2].rid].name
        if dst in (self.P.ti(SE), self.P.ti(AST + "DesigntimeSymbolExpression")) and isinstance(a[0], SPtr):
            c = f_sym(self.tree(st, a[0])) if dst == self.P.ti(SE) else z3.Function("is_type_name", Tree, z3.BoolSort())(self.tree(st, a[0]))
            out = []
            for c, r in ((c, a[0]), (z3.Not(c), NULL)):
                s = st.clone()
                s.pc.append(c)
                if E.feasible(s):
                    out.append((s, ("ret", r)))
            return out
        return super().cast(E, st, a, ins)

    def flags(self, x):
        """recursive definitions of the properties of a name"""
        out = []
        pre = lambda f: z3.Function("pre%d%s" % (self.P.field(AST + "Expression", f), z3.BitVecSort(8)), IntS, z3.BitVecSort(8))(x)
        n = self.next(x)
        for k, f in FLAGS.items():
            own, any_ = OWN[k]
            b = z3.Extract(0, 0, pre(own)) == 1
            r = f(f_tree(n))
            out.append(f(f_tree(x)) == (z3.Or(b, z3.And(n != 0, r)) if any_ else z3.If(n != 0, r, b)))
        return z3.And(*out)

    def hook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        d = {re.sub(r".*::(\w+)\(.*", r"\1", self.P.dem.get(n, "")) for n in impls}
        if len(d) == 1:
            k = next(iter(d))
            if k in FLAGS and not (isinstance(args[0], Ptr) and st.mem[args[0].rid].kind == "heap"):
                return [(st, ("ret", bit(FLAGS[k](self.tree(st, args[0])))))]
        return super().hook(E, st, sc, slot, args, ins, depth, fr, impls)


def bit8(c):
    return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def flag_units():
    us = []
    for k in FLAGS:
        def run(ctx, k=k):
            W = Names(ctx)
            E, P, st = W.E, W.P, W.st
            x = W.lhs
            st.pc.append(W.flags(x))
            ctx.cover(E, st.clone(), "a longer name", W.next(x) != 0)

            def cand(E, st0, cur, hv, fr, getv):
                """written as a loop over the parts: what holds for the name is known from the rest of it"""
                F = FLAGS[k]
                out = []
                ks = [q for q in hv if q[0] != "ghost"]
                for q in ks:
                    if not isinstance(getv(q), (SPtr, Ptr)):
                        continue
                    c = E.addr(cur, getv(q))
                    cur.pc.append(z3.Implies(c != 0, W.flags(c)))
                    r = z3.And(c != 0, F(f_tree(c)))
                    out += [("part %s" % (q,), c >= 0), ("some part %s" % (q,), c > 0), ("rest %s" % (q,), F(f_tree(x)) == r)]
                    for q2 in ks:
                        b = getv(q2)
                        if isinstance(b, z3.BitVecRef) and b.size() == 8:
                            on = z3.Extract(0, 0, b) == 1
                            out.append(("so far %s %s" % (q, q2), F(f_tree(x)) == z3.Or(on, r)))
                return out
            E.cand_hooks.append(cand)
            for s, o in ctx.call(E, st, one(P, re.escape(SE + "::" + k) + r"\(\) const$"), [SPtr(x)]):
                ctx.require(E, s, o[0] == "ret", k + ": always has an answer")
                if o[0] == "ret":
                    ctx.require(E, s, (z3.Extract(0, 0, to_bv(o[1], 1)) == 1) == FLAGS[k](f_tree(x)), k + ": decided by the parts of the name")
        us.append(Unit("name " + k, SE + "::" + k, run))
    return us


def incdec_unit():
    def run(ctx):
        W = Names(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        x = f_tree(W.lhs)
        bad = z3.And(f_const(x), z3.Not(z3.And(W.constructing, f_member(x))))
        ctx.cover(E, st.clone(), "const", bad)
        ctx.cover(E, st.clone(), "not const", z3.Not(bad))
        st.pc.append(p + 1 < W.n)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_incdecrement") + r"\(.*\)$"), [W.this, W.cell, SPtr(W.lhs)]):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), bad, z3.And(z3.Not(f_atomic(x)), z3.Not(f_sym(x)))), "++/--: refused only for const data")
                continue
            ctx.require(E, s, z3.Not(bad), "++/--: refused for const data")
            ctx.require(E, s, W.at(s) == p + 1, "++/--: reading goes on after it")
            if isinstance(o[1], Ptr):
                et, vt = P.enum(AST + "Expression::ExpressionType::E"), P.enum(AST + "UnaryExpression::ValueType::E")
                c = lambda v: z3.BitVecVal(v, 32)
                ctx.require(E, s, W.tree(s, o[1]) == t_unary(c(et["UnaryExpression"]), W.type(p), x, f_rtype(x), c(vt["LValue"])), "++/--: changes the name it is written after")
            else:
                ctx.require(E, s, z3.Not(f_atomic(x)), "++/--: changes the name it is written after")
                called = s.ghost.get("called")
                ctx.require(E, s, called is not None and E.addr(s, o[1]) == called[1], "++/--: the operator of the object is called")
                if called:
                    ctx.require(E, s, called[0] == W.lhs, "++/--: the operator of that object is called")
    return [Unit("increment and decrement", TG + "::process_incdecrement", run)]


COMPOUND = {"ASSIGN_ADDITION": "MATH_ADDITION", "ASSIGN_BITAND": "BITAND", "ASSIGN_BITCOMPLEMENT": "BITCOMPLEMENT", "ASSIGN_BITOR": "BITOR",
            "ASSIGN_DIVIDE": "MATH_DIVIDE", "ASSIGN_MODULO": "MATH_MODULO", "ASSIGN_MULTIPLY": "MATH_MULTIPLY", "ASSIGN_SUBTRACT": "MATH_SUBTRACT"}


def assign_unit(typed=False):
    def run(ctx):
        W = Names(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        l, r = f_tree(W.lhs), f_tree(W.node("expression", p + 1))
        W.made("BinaryExpressionNoLeftOwner", W.t_binary)
        st.pc += [p + 1 < W.n, f_sym(l)]
        bad = z3.Or(z3.And(f_member(l), W.in_const), z3.And(f_const(l), z3.Not(z3.And(W.constructing, f_member(l)))))

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            for k in hv:
                if k[0] != "ghost" and isinstance(getv(k), (SPtr, Ptr)):
                    x = E.addr(cur, getv(k))
                    n = W.next(x)
                    cur.pc.append(z3.Implies(n != 0, z3.And(f_atomic(f_tree(x)) == f_atomic(f_tree(n)), f_rtype(f_tree(x)) == f_rtype(f_tree(n)), n > 0)))
                    out.append(("part %s" % (k,), z3.And(x > 0, f_atomic(f_tree(x)) == f_atomic(l), f_rtype(f_tree(x)) == f_rtype(l))))
            return out
        E.cand_hooks.append(cand)
        ctx.cover(E, st.clone(), "refused", bad)
        ctx.cover(E, st.clone(), "accepted", z3.And(z3.Not(bad), f_atomic(l), W.is_(p, "ASSIGN_ADDITION")))
        known = W.is_(p, "ASSIGN", *COMPOUND)
        et, bt = P.enum(AST + "Expression::ExpressionType::E"), P.enum(AST + "BinaryExpression::BinaryExpressionType::E")
        c = lambda v: z3.BitVecVal(v, 32)
        op = W.num("ASSIGN")
        for k, v in COMPOUND.items():
            op = z3.If(W.is_(p, k), W.num(v), op)
        joined = t_binary(c(et["BinaryExpression"]), c(bt["GenericBinaryExpression"]), op, l, r, f_optype(l, op, r))
        value = z3.If(W.is_(p, "ASSIGN"), r, joined)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_assignment_expression") + r"\(.*\)$"), [W.this, W.cell, SPtr(W.lhs)]):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), bad, z3.Not(known)), "assignment: refused only for const data")
                continue
            if typed:
                ctx.require(E, s, z3.Implies(z3.And(f_atomic(l), z3.Not(W.is_(p, "ASSIGN"))), f_checked(l, op, r)), "assignment: its operator is declared for the types of both sides")
                ctx.require(E, s, z3.Implies(f_atomic(l), f_checked(l, W.num("ASSIGN"), value)), "assignment: declared for the types of both sides")
                if isinstance(o[1], Ptr):
                    ctx.require(E, s, z3.Implies(f_atomic(l), W.field(s, o[1], "Expression", "mResultType", Str) == f_optype(l, W.num("ASSIGN"), value)), "assignment: has the declared type")
                continue
            ctx.require(E, s, z3.Not(bad), "assignment: refused for const data, and for members in a const method")
            ctx.require(E, s, known, "assignment: is one of the assignment operators")
            ctx.require(E, s, W.at(s) == W.nxt("expression", p + 1), "assignment: reading goes on after the value")
            if isinstance(o[1], Ptr):
                AE = "AssignmentExpression"
                ctx.require(E, s, W.field(s, o[1], "Expression", "mExpressionType", ir.I32) == et[AE], "assignment: is an assignment")
                ctx.require(E, s, E.addr(s, W.field(s, o[1], AE, "mLHS")) == W.lhs, "assignment: to the name on the left")
                ctx.require(E, s, z3.Implies(f_atomic(l), z3.And(W.tree(s, W.field(s, o[1], AE, "mRHS")) == value,
                            W.field(s, o[1], "Expression", "mResultType", Str) == f_optype(l, W.num("ASSIGN"), value))), "assignment: of the value on the right, joined by the operator written")
            else:
                called = s.ghost.get("called")
                ctx.require(E, s, z3.Not(f_atomic(l)), "assignment: to the name on the left")
                ctx.require(E, s, called is not None and z3.And(E.addr(s, o[1]) == called[1], called[0] == W.lhs), "assignment: the operator of that object is called")
    return [Unit("types of an assignment" if typed else "assignment", TG + "::process_assignment_expression", run)]


METHOD, PARAM = "Slang::Common::Method", "Slang::Parameter"


def call_unit():
    def run(ctx):
        W = Names(ctx)
        E, P, st = W.E, W.P, W.st
        om, oa = P.field(PARAM, "mMutability"), P.field(PARAM, "mAccessMode")
        pl = cinfo(E, "list", [PARAM])
        for s in [s for s in E.contracts if re.search(r"list<Slang::Parameter, .*>::~?list\(", P.dem.get(s, ""))]:
            del E.contracts[s]

        def described(E, st, a, ins):
            E.store(st, E.padd(a[0], om), a[5], ir.I32)
            E.store(st, E.padd(a[0], oa), a[6], ir.I32)
            return [(st, ("ret", None))]

        def added(E, st, a, ins):
            c = E.container(st, a[0], "list", pl)
            f = dict(c.fields)
            for off in (om, oa):
                f[off] = z3.Store(E.field_arr(c, off, B32), c.n, to_bv(E.load(st, E.padd(a[1], off), ir.I32), 32))
            E.set_container(st, a[0], c.with_(n=c.n + 1, fields=f))
            return [(st, ("ret", None))]
        W.on(r"Slang::Parameter::CreateDesigntime\(.*\)", described)
        W.on(r"void std::list<Slang::Parameter, .*>::emplace_back<Slang::Parameter>\(.*\)", added)
        nothing = lambda E, st, a, i: [(st, ("ret", None))]
        W.on(r"Slang::Runtime::AtomicValue::~?AtomicValue\(\)", nothing)
        exps = E.sym_region(st, "arguments")
        ec = E.container(st, Ptr(exps, 0), "list", cinfo(E, "list", ["Slang::AST::Node*"]))
        args = E.field_arr(ec, 0, IntS)
        i, j = skolem(), z3.Int("j")
        arg = lambda j: f_tree(z3.Select(args, j))
        # the method called
        m = E.sym_region(st, "method", cls=[P.ti(METHOD)])
        sig = E.sym_region(st, "signature")
        sc = E.container(st, Ptr(sig, 0), "list", pl)
        mo = P.base_offset(METHOD, "Slang::MethodSymbol")
        mut, typ, lay_, fea = (z3.BitVec(x, 32) for x in ("mutability", "kind", "layout", "feature"))
        w = st.w(m)
        off = lambda c, f: P.base_offset(METHOD, "Slang::MethodAttributes") + P.field("Slang::MethodAttributes" if c else "Slang::GenericAttributes", f)
        for c, f, v in ((1, "mMethodMutability", mut), (1, "mMethodType", typ), (0, "mMemoryLayout", lay_), (0, "mLanguageFeatureState", fea)):
            w.cells[off(c, f)] = (v, 4)
        this = E.load(st, Ptr(W.this.rid, P.field(TG, "mMethod")), ir.PTR).rid
        own = z3.BitVec("layout of the caller", 32)
        st.w(this).cells[off(0, "mMemoryLayout")] = (own, 4)
        here, there = z3.Int("scope of the caller"), z3.Int("scope of the method")
        st.pc += [here > 0, there > 0]
        W.on(r"Slang::MethodScope::getEnclosingScope\(\) const|Slang::SymbolScope::getEnclosingScope\(\) const",
             lambda E, st, a, ins: [(st, ("ret", SPtr(here if a[0].rid == this else there)))])
        W.on(r"Slang::Common::Method::provideSignature\(\) const", lambda E, st, a, ins: [(st, ("ret", Ptr(sig, 0)))])
        opaque(E, [r"Slang::(MethodScope|SymbolScope)::getFullScopeName\(\) const$", r"Slang::toString\(std::list<Slang::Parameter.*\)$", r"Slang::Common::Method::ToString\(.*\) const$"])

        def found(E, st, a, ins):
            none = st.clone()
            none.ghost["err"] = 1
            return [(none, ("ret", NULL)), (st, ("ret", Ptr(m, mo)))]
        W.on(re.escape(TG) + r"::resolveMethod\(.*\)", found)
        W.on(re.escape(TG) + r"::provideSimilarMethods\(.*\)", lambda E, st, a, ins: E.throw(st, EXC_TI))
        E.contracts["__dynamic_cast"] = lambda E, st, a, ins: [(st, ("ret", Ptr(m, 0)))] if isinstance(a[0], Ptr) and a[0].rid == m else W.cast(E, st, a, ins)
        MU, AM = P.enum("Slang::Mutability::E"), P.enum("Slang::AccessMode::E")
        x = f_tree(W.lhs)
        const = mut == MU["Const"]

        def passed(j):
            """a const argument is passed as a reference that may be changed"""
            return z3.And(j >= 0, j < ec.n, j < sc.n, z3.Select(E.field_arr(sc, oa, B32), j) == AM["ByReference"],
                          z3.Select(E.field_arr(sc, om, B32), j) == MU["Modify"], f_const(arg(j)))

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            for k in hv:
                if k[0] == "ghost":
                    continue
                v = getv(k)
                if isinstance(v, It):
                    cur.pc.append(z3.Implies(z3.And(v.pos >= 0, v.pos < ec.n), z3.Select(args, v.pos) > 0))
                    out.append(("within %s" % (k,), z3.And(v.pos >= 0, v.pos <= (ec.n if v.rid == exps else sc.n if v.rid == sig else ec.n))))
                    out.append(("allowed %s" % (k,), z3.Implies(i < v.pos, z3.Not(passed(i)))))
                    for k2 in hv:
                        w = getv(k2) if k2[0] != "ghost" else None
                        if k2 != k and isinstance(w, It):
                            out.append(("together %s %s" % (k, k2), v.pos == w.pos))
                        elif isinstance(w, SeqV):
                            out.append(("as many %s %s" % (k, k2), w.n == v.pos))
                if isinstance(v, SeqV):
                    known = lambda j: z3.Select(E.field_arr(v, om, B32), j) == z3.If(f_const(arg(j)), z3.BitVecVal(MU["Const"], 32), z3.BitVecVal(MU["Modify"], 32))
                    out.append(("described %s" % (k,), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n), known(j)))))
            return out
        E.cand_hooks.append(cand)
        LF = P.enum("Slang::LanguageFeatureState::E")
        ML, MT = P.enum("Slang::MemoryLayout::E"), P.enum("Slang::MethodType::E")
        plain = typ == MT["Method"]
        reasons = [z3.And(W.in_const, here == there, z3.Not(const), plain), z3.And(f_const(x), z3.Not(const)),
                   z3.And(here == there, own == ML["Static"], lay_ != ML["Static"], plain), z3.Or(fea == LF["NotImplemented"], fea == LF["Unspecified"])]
        st.pc.append(z3.Or(*[fea == v for v in LF.values()]))
        ctx.cover(E, st.clone(), "const", reasons[1])
        fn = one(P, re.escape(TG + "::process_method") + r"\(Slang::AST::SymbolExpression\*, Slang::Token const&, .*\)$")
        tok = E.sym_region(st, "token")
        for s, o in ctx.call(E, st, fn, [W.this, SPtr(W.lhs), Ptr(tok, 0), Ptr(exps, 0)]):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), *reasons, z3.Exists([j], passed(j))), "call: refused only for const data")
                continue
            for r, what in zip(reasons, ("a const method calls only const methods of its object", "const data is only used by const methods", "a static method uses no object", "the method exists")):
                ctx.require(E, s, z3.Not(r), "call: " + what)
            ctx.require(E, s, z3.Not(passed(i)), "call: const data is not passed as a reference that may be changed")
            ctx.require(E, s, isinstance(o[1], Ptr), "call: is a call")
    return [Unit("call", TG + "::process_method", run)]


BLUEPRINT = "Slang::Designtime::BluePrintObject"
f_look = z3.Function("found", IntS, Str, z3.BoolSort(), B32, IntS)
f_around = z3.Function("enclosing", IntS, IntS)


class Scopes(Names):
    """names are looked up in scopes"""
    around = None

    def __init__(self, ctx, **k):
        super().__init__(ctx, **k)
        E, P, st = self.E, self.P, self.st
        self.base = z3.Int("scope")
        self.owner = z3.Int("object")                  # the object type a method belongs to, 0 for a function
        st.pc += [self.base > 0, self.owner >= 0, self.owner != self.base]
        self.vis = P.enum("Slang::Visibility::E")
        self.outer = self.owner + P.base_offset(BLUEPRINT, "Slang::IScope")
        st.w(self.this.rid).cells[P.field(TG, "mThis")] = (SPtr(self.owner), 8)
        self.method = E.addr(st, E.load(st, Ptr(self.this.rid, P.field(TG, "mMethod")), ir.PTR)) + P.base_offset(METHOD, "Slang::IScope")
        self.on(re.escape(TG) + r"::resolve\(.*\) const", self.c_resolve)
        self.on(r"Slang::Designtime::BluePrintObject::QualifiedTypename\(\) const", self.c_typename)

    def key(self, st, base, only, vis):
        return (self.E.addr(st, base), only if isinstance(only, z3.BoolRef) else z3.Extract(0, 0, to_bv(only, 1)) == 1, to_bv(vis, 32))

    def c_resolve(self, E, st, a, ins):
        """the name (with everything after its dots) from this token on, or nothing; then any token may be the current one"""
        p = self.at(st, a[1])
        key = self.key(st, *a[2:])
        r, q = self.node("resolve", p, *key), self.nxt("resolve", p, *key)
        bad, none = st.clone(), st.clone()
        bad.ghost["err"] = 1
        none.pc.append(z3.And(r == 0, q >= p, q < self.n))
        st.pc.append(z3.And(r > 0, q > p, q < self.n))
        out = E.throw(bad, EXC_TI)
        for s in (none, st):
            if E.feasible(s):
                self.go(s, a[1], q)
                out.append((s, ("ret", NULL if s is none else SPtr(r))))
        return out

    def c_typename(self, E, st, a, ins):
        rid = st.new("heap", name="type name")
        st.w(rid).cells[0] = (StrV(z3.Function("type_name", IntS, Str)(E.addr(st, a[0]))), 32)
        return [(st, ("ret", Ptr(rid, 0)))]

    def hook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        d = {re.sub(r".*::(\w+)\(.*", r"\1", self.P.dem.get(n, "")) for n in impls}
        if d == {"resolve"}:
            key = self.key(st, args[0], args[2], args[3])
            r = f_look(key[0], E.get_str(st, args[1]), *key[1:])
            st.pc.append(r >= 0)
            return [(st, ("ret", SPtr(r)))]
        if d == {"getEnclosingScope"}:
            r = f_around(E.addr(st, args[0])) if self.around is None else self.around
            st.pc.append(r >= 0)
            return [(st, ("ret", SPtr(r)))]
        return super().hook(E, st, sc, slot, args, ins, depth, fr, impls)


def this_unit():
    """a name in the source: locals and parameters, then members, then what surrounds the object"""
    def run(ctx):
        W = Scopes(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        yes, no = z3.BoolVal(True), z3.BoolVal(False)
        private, public = (z3.BitVecVal(W.vis[x], 32) for x in ("Private", "Public"))
        local = z3.Function("local", IntS, z3.BoolSort())

        def define(s):
            return local(s) == z3.And(s != 0, s != W.outer, z3.Or(f_look(s, W.text(p), yes, private) != 0, z3.And(s != W.method, local(f_around(s)))))

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            ks = [k for k in hv if k[0] != "ghost"]
            for k in ks:
                if not isinstance(getv(k), (SPtr, Ptr)):
                    continue
                s = E.addr(cur, getv(k))
                cur.pc.append(define(s))
                out.append(("scope %s" % (k,), s >= 0))
                out.append(("local %s" % (k,), local(W.base) == local(s)))
                for k2 in ks:
                    b = getv(k2)
                    if isinstance(b, z3.BitVecRef) and b.size() == 8:
                        on = z3.Extract(0, 0, b) == 1
                        out.append(("local %s %s" % (k, k2), z3.If(on, local(W.base), local(W.base) == local(s))))
                        out.append(("not local %s %s" % (k, k2), z3.If(on, local(W.base) == local(s), local(W.base))))
            return out
        E.cand_hooks.append(cand)
        st.pc.append(define(W.base))
        own = (W.outer, yes, private)
        as_member = z3.And(W.owner != 0, z3.Not(local(W.base)), W.node("resolve", p, *own) != 0)
        ctx.cover(E, st.clone(), "a member", as_member)
        ctx.cover(E, st.clone(), "not a member", z3.Not(as_member))
        free = (W.base, no, public)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::resolveWithThis") + r"\(.*\) const$"), [W.this, W.cell, SPtr(W.base)]):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.And(z3.Not(as_member), W.node("resolve", p, *free) == 0)), "name: refused only if it stands for nothing")
                continue
            x = o[1]
            if isinstance(x, Ptr):
                ctx.require(E, s, as_member, "name: a member only if no local hides it")
                f = lambda c, n, t=ir.PTR: W.field(s, x, c, n, t)
                ctx.require(E, s, E.addr(s, f("SymbolExpression", "mSymbolExpression")) == W.node("resolve", p, *own), "name: the member of that name")
                ctx.require(E, s, W.at(s) == W.nxt("resolve", p, *own), "name: reading goes on after it")
                ctx.require(E, s, f("SymbolExpression", "mName", Str) == strconst("this"), "name: a member of the object itself")
                b = lambda n: z3.Extract(0, 0, to_bv(E.load(s, E.padd(x, P.field(AST + "Expression", n)), ir.I8), 8)) == 1
                ctx.require(E, s, b("mIsConst") == W.in_const, "name: members are const exactly in a const method")
                ctx.require(E, s, b("mIsMember"), "name: is known to be a member")
            else:
                ctx.require(E, s, z3.Not(as_member), "name: a member before what surrounds the object")
                ctx.require(E, s, E.addr(s, x) == W.node("resolve", p, *free), "name: looked up from the scope it is written in")
                ctx.require(E, s, W.at(s) == W.nxt("resolve", p, *free), "name: reading goes on after it")
    return [Unit("names of members", TG + "::resolveWithThis", run)]


B8 = z3.BitVecSort(8)
f_known = z3.Function("type_of_name", Str, IntS)


class Parts(Scopes):
    """a name and what it stands for in a scope"""

    def __init__(self, ctx, **k):
        super().__init__(ctx, **k)
        P, E, st = self.P, self.E, self.st
        self.kinds = P.enum("Slang::Symbol::IType::E")
        self.prototype = z3.Function("is_prototype", IntS, z3.BoolSort())
        self.after_types = z3.Function("after constraints", IntS, IntS)
        self.on(r"Slang::Designtime::Parser::collectRuntimePrototypeConstraints\(.*\)", self.c_constraints)
        self.on(r".*::findBluePrintObject\(std::string const&\) const|.*::findBluePrintObject\(std::__cxx11::basic_string<.*> const&\) const", self.c_known)
        self.on(r"Slang::Common::Namespace::QualifiedTypename\(\) const|Slang::Runtime::Object::QualifiedTypename\(\) const", self.c_typename)
        nothing = lambda E, st, a, ins: [(st, ("ret", None))]
        self.on(r"Slang::PrototypeConstraints::(~?PrototypeConstraints|operator=|buildRawConstraints)\(.*\)( const)?", nothing)

    def c_constraints(self, E, st, a, ins):
        """type parameters written here are read; what they are is not followed"""
        p = self.at(st, a[1])
        bad = st.clone()
        bad.ghost["err"] = 1
        q = self.after_types(p)
        st.pc.append(z3.And(q >= p, q < self.n))
        self.go(st, a[1], q)
        return E.throw(bad, EXC_TI) + [(st, ("ret", None))]

    def cast(self, E, st, a, ins):
        if isinstance(a[0], Ptr) and st.mem[a[0].rid].kind == "sym" and st.mem[a[0].rid].name.startswith("found"):
            return None
        return super().cast(E, st, a, ins)

    def c_known(self, E, st, a, ins):
        r = f_known(E.get_str(st, a[1]))
        st.pc.append(r >= 0)
        return [(st, ("ret", SPtr(r)))]

    def hook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        d = {re.sub(r".*::(\w+)\(.*", r"\1", self.P.dem.get(n, "")) for n in impls}
        if d == {"resolve"}:
            P = self.P
            key = self.key(st, args[0], args[2], args[3])
            r = f_look(key[0], E.get_str(st, args[1]), *key[1:])
            out = []
            s0 = st.clone()
            s0.pc.append(r == 0)
            if E.feasible(s0):
                out.append((s0, ("ret", NULL)))
            for k, c in KINDS.items():
                s = st.clone()
                so = P.base_offset(c, "Slang::Symbol")
                s.pc.append(z3.And(r > 1000, f_kind(r) == self.kinds[k]))
                if E.feasible(s):
                    a = z3.simplify(r - so)
                    rid = E.sym_region(s, fresh_name("found"), cls=[P.ti(c)], addr=a)
                    s.mem[rid].heap = True
                    s.pc.append(z3.Function("pre%d%s" % (in_symbol(P, c, "mType"), B32), IntS, B32)(a) == self.kinds[k])
                    out.append((s, ("ret", Ptr(rid, so))))
            return out
        return super().hook(E, st, sc, slot, args, ins, depth, fr, impls)


def part_unit():
    """what one part of a name stands for, and where the next part is looked up"""
    def run(ctx):
        W = Parts(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        only, vis = ctx.sym("only_here", z3.BoolSort()), ctx.sym("visibility", B32)
        st.pc.append(z3.ULE(vis, max(W.vis.values())))
        base = z3.Int("base")
        st.pc.append(base >= 0)
        st.pc.append(z3.And(W.outer != base, W.base == base))
        # the last token is the end of the source, which is no name
        yes, private = z3.BoolVal(True), z3.BitVecVal(W.vis["Private"], 32)
        r = f_look(base, W.text(p), only, z3.If(only, vis, private))
        st.pc.append(z3.Implies(z3.And(base != 0, r != 0), p + 1 < W.n))
        ctx.cover(E, st.clone(), "a known name", z3.And(base != 0, r != 0))
        kind = lambda k: f_kind(r) == W.kinds[k]
        at = lambda k: r - P.base_offset(KINDS[k], "Slang::Symbol")
        mem = lambda k, c, f, t: z3.Function("pre%d%s" % ((P.base_offset(KINDS[k], c) if c != KINDS[k] else 0) + P.field(c, f), t), IntS, t)(at(k))
        b = lambda x: z3.Extract(0, 0, x) == 1
        OBJ, TYPE = "ObjectSymbol", "BluePrintObjectSymbol"
        typename = z3.Function("type_name", IntS, Str)
        known = f_known(typename(at(TYPE)))
        is_prototype = z3.Bool("type with parameters")
        W.on(r"Slang::Designtime::BluePrintObject::isPrototype\(\) const",
             lambda E, st, a, ins: [(st, ("ret", bit(is_prototype)))])
        q = z3.If(z3.And(kind(TYPE), is_prototype), W.after_types(p + 1), p + 1)
        atomic = b(mem(OBJ, KINDS[OBJ], "mIsAtomicType", B8))
        its_type = mem(OBJ, KINDS[OBJ], "mBluePrint", IntS)
        bo = P.base_offset(BLUEPRINT, "Slang::IScope")
        sc = lambda k: at(k) + P.base_offset(KINDS[k], "Slang::IScope")
        inside = z3.If(kind(TYPE), known + bo, z3.If(kind("NamespaceSymbol"), sc("NamespaceSymbol"),
                 z3.If(kind(OBJ), z3.If(z3.Or(atomic, its_type == 0), z3.IntVal(0), its_type + bo), z3.IntVal(0))))
        name = W.text(p)
        own = z3.And(W.owner != 0, kind(OBJ), its_type == W.owner)
        rights = z3.If(name == strconst("base"), z3.BitVecVal(W.vis["Protected"], 32), z3.If(z3.Or(name == strconst("this"), own), private, vis))
        key = (inside, yes, rights)
        dot = W.is_(q, "OPERATOR_SCOPE")
        found = z3.And(r != 0, z3.Implies(dot, W.node("resolve", q + 1, *key) != 0))
        mutable = mem(OBJ, "Slang::GenericAttributes", "mMutability", B32)
        CONST = P.enum("Slang::Mutability::E")["Const"]
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::resolve") + r"\(.*\) const$"), [W.this, W.cell, SPtr(base), bit(only), vis], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), base == 0, z3.And(kind(TYPE), known == 0)), "name: refused only without a scope or type to look in")
                continue
            x = o[1]
            if E.addr(s, x) is NULL or (isinstance(x, Ptr) and x.rid == 0):
                ctx.require(E, s, z3.Not(found), "name: nothing only if a part of it is unknown")
                continue
            ctx.require(E, s, found, "name: only if all parts of it are known")
            f = lambda c, n, t=ir.PTR: W.field(s, x, c, n, t)
            fl = lambda n: b(to_bv(E.load(s, E.padd(x, P.field(AST + "Expression", n)), ir.I8), 8))
            ctx.require(E, s, f("SymbolExpression", "mName", Str) == name, "name: as it is written")
            ctx.require(E, s, z3.If(dot, W.at(s) == W.nxt("resolve", q + 1, *key), W.at(s) == q), "name: reading goes on after it")
            ctx.require(E, s, E.addr(s, f("SymbolExpression", "mSymbolExpression")) == z3.If(dot, W.node("resolve", q + 1, *key), z3.IntVal(0)),
                        "name: the part after a dot is looked up in what the part before it stands for")
            ctx.require(E, s, E.addr(s, f("SymbolExpression", "mSurroundingScope")) == base, "name: the scope it was found from")
            this = z3.And(kind(TYPE), name == strconst("this"), at(TYPE) == W.owner)
            ctx.require(E, s, z3.Implies(kind(OBJ), fl("mIsConst") == (mutable == CONST)), "name: const exactly if its variable is")
            ctx.require(E, s, z3.Implies(kind(OBJ), z3.And(fl("mIsAtomicType") == atomic, fl("mIsMember") == b(mem(OBJ, "Slang::ObjectAttributes", "mIsMember", B8)))),
                        "name: a member, an atomic value exactly if its variable is")
            ctx.require(E, s, z3.Implies(kind(TYPE), z3.And(fl("mIsConst") == z3.And(this, W.in_const), fl("mIsMember") == this)), "name: the object itself is const exactly in a const method")
    return [Unit("one part of a name", TG + "::resolve", run)]


class Declared(Scopes):
    """declarations: what is created, and under which name it is known from then on"""
    on_define = None

    def __init__(self, ctx, **k):
        super().__init__(ctx, **k)
        P, E, st = self.P, self.E, self.st
        nothing = lambda E, st, a, ins: [(st, ("ret", None))]
        self.on(r"Slang::PrototypeConstraints::(~?PrototypeConstraints|operator=)\(.*\)", nothing)
        self.on(r"Slang::Common::TypeDeclaration::~?TypeDeclaration\(.*\)", nothing)
        self.on(re.escape(AST) + r"DesigntimeSymbolExpression::~DesigntimeSymbolExpression\(\)", nothing, must=False)
        self.on(r"Slang::Repository::prepareType\(.*\)", self.c_prepare)
        self.on(r"Slang::Repository::createInstance\(std::string const&, std::string const&, .*\)", self.c_create)
        self.on(re.escape(TG) + r"::getScope\(\) const", lambda E, st, a, ins: [(st, ("ret", SPtr(self.base)))])
        self.on(r"Slang::isAtomicType\(std::string const&\)", lambda E, st, a, ins: [(st, ("ret", bit(f_atomic_type(E.get_str(st, a[0])))))])
        st.ghost["created"] = st.ghost["defined"] = None
        E.assumptions.add("the last token of a method body is no part of a declaration")
        st.pc.append(z3.And(z3.Not(self.is_(self.n - 1, "IDENTIFIER", "MUTABILITY", "ACCESS_MODE", "ASSIGN")), self.text(self.n - 1) != strconst("default")))
        self.access, self.mutab = P.enum("Slang::AccessMode::E"), P.enum("Slang::Mutability::E")

    def c_prepare(self, E, st, a, ins):
        bad = st.clone()
        bad.ghost["err"] = 1                          # no such type
        return E.throw(bad, EXC_TI) + [(st, ("ret", None))]

    def c_create(self, E, st, a, ins):
        """a new value of a type; it is a plain value exactly if its type is"""
        bad = st.clone()
        bad.ghost["err"] = 1
        out = E.throw(bad, EXC_TI)
        t, n = E.get_str(st, a[1]), E.get_str(st, a[2])
        rid = E.sym_region(st, fresh_name("value"), cls=[self.P.ti(OBJ)], size=self.P.class_size(OBJ))
        st.w(rid).cells[self.P.field(OBJ, "mIsAtomicType")] = (bit8(f_atomic_type(t)), 1)
        st.w(rid).cells[self.P.base_offset(OBJ, GA) + self.P.field(GA, "mIsSealed")] = (z3.BitVecVal(0, 8), 1)
        st.ghost["created"] = (rid, t, n)
        return out + [(st, ("ret", Ptr(rid, 0)))]

    def hook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        d = {re.sub(r".*::(~?\w+)\(.*", r"\1", self.P.dem.get(n, "")) for n in impls}
        if d == {"define"} and self.on_define:
            return self.on_define(E, st, args)
        if d == {"define"}:
            bad = st.clone()
            bad.ghost["err"] = 1                      # there is one of that name already
            st.ghost["defined"] = (E.addr(st, args[0]), E.get_str(st, args[1]), args[2])
            return E.throw(bad, EXC_TI) + [(st, ("ret", None))]
        if d and all(x.startswith("~") for x in d):
            return [(st, ("ret", None))]
        return super().hook(E, st, sc, slot, args, ins, depth, fr, impls)

    def written(self, q):
        """mutability and access written from q on: what they are, and where they end"""
        m = z3.If(self.is_(q, "MUTABILITY"), z3.If(self.text(q) == strconst("const"), self.mutab["Const"], z3.If(self.text(q) == strconst("modify"), self.mutab["Modify"], 0)),
                  self.mutab["Modify"])
        q = z3.If(self.is_(q, "MUTABILITY"), q + 1, q)
        some = z3.Or(self.is_(q, "ACCESS_MODE"), self.text(q) == strconst("default"))
        return m, some, z3.And(some, self.text(q) != strconst("default"), self.text(q) == strconst("ref")), z3.If(some, q + 1, q)


OBJ, GA = "Slang::Runtime::Object", "Slang::GenericAttributes"
f_atomic_type = z3.Function("atomic type", Str, z3.BoolSort())


def declared(ctx, W, s, x, name, typ, m, ref, what):
    """the value created is known by its name, and const exactly if written so"""
    E, P = W.E, W.P
    c, d = s.ghost["created"], s.ghost["defined"]
    ctx.require(E, s, c is not None and d is not None, what + ": is created and known by name")
    if c is None or d is None:
        return
    ctx.require(E, s, z3.And(c[1] == typ, c[2] == name), what + ": of its type")
    ctx.require(E, s, z3.And(d[0] == W.base, d[1] == name), what + ": known by its name in the scope it stands in")
    o = P.base_offset(OBJ, "Slang::Symbol")
    ctx.require(E, s, E.icmp(s, "eq", d[2], Ptr(c[0], o)), what + ": the name stands for the value created")
    mo = P.base_offset(OBJ, "Slang::GenericAttributes") + P.field("Slang::GenericAttributes", "mMutability")
    ctx.require(E, s, z3.BV2Int(to_bv(E.load(s, Ptr(c[0], mo), ir.I32), 32)) == m, what + ": const exactly if written so")
    f = lambda n: true(E.load(s, E.padd(x, P.field(AST + "TypeDeclaration", n)), ir.I8))
    ctx.require(E, s, f("mIsConst") == (m == W.mutab["Const"]), what + ": created as const at run time exactly if written so")
    ctx.require(E, s, f("mIsReference") == ref, what + ": a reference exactly if written so")
    ctx.require(E, s, z3.And(W.field(s, x, "TypeDeclaration", "mName", Str) == name, W.field(s, x, "TypeDeclaration", "mType", Str) == typ), what + ": its name and type")


def declaration_units(typed=False):
    def var(ctx):
        W = Declared(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        name = W.text(p)
        m, some, ref, q = W.written(p + 1)
        ok = z3.And(W.is_(p, "IDENTIFIER"), m != 0, W.is_(q, "ASSIGN"))
        ctx.cover(E, st.clone(), "a declaration", ok)
        x = W.node("expression", q + 1)
        refused = z3.And(m == W.mutab["Modify"], f_inner(f_tree(x)), z3.Not(f_atomic_type(f_rtype(f_tree(x)))))
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_var") + r"\(.*\)$"), [W.this, W.cell], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(ok), refused), "var: refused only if written otherwise or a const object would become changeable")
                continue
            ctx.require(E, s, ok, "var: accepted only as it is to be written")
            ctx.require(E, s, z3.Not(refused), "var: no changeable name for a const object")
            ctx.require(E, s, W.at(s) == W.nxt("expression", q + 1), "var: reading goes on after it")
            ctx.require(E, s, E.addr(s, W.field(s, o[1], "TypeDeclaration", "mAssignmentExpression")) == x, "var: its first value")
            declared(ctx, W, s, o[1], name, f_rtype(f_tree(x)), m, ref, "var")

    def typ(ctx):
        W = Declared(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        init = ctx.sym("initialization", B32)
        I = P.enum(TG + "::Initialization::E")
        st.pc.append(z3.ULE(init, max(I.values())))
        key = (W.base, z3.BoolVal(False), z3.BitVecVal(W.vis["Public"], 32))
        t, q0 = W.node("resolve", p, *key), W.nxt("resolve", p, *key)
        named = z3.And(t != 0, z3.Function("is_type_name", Tree, z3.BoolSort())(f_tree(t)))
        tn = f_rtype(f_tree(t))
        name = W.text(q0)
        m, some, isref, q = W.written(q0 + 1)
        ref = z3.If(some, isref, z3.Not(f_atomic_type(tn)))
        ok = z3.And(named, W.is_(q0, "IDENTIFIER"), m != 0)
        first = W.is_(q, "ASSIGN")
        can = z3.If(first, init == I["Allowed"], z3.And(init != I["Required"], z3.Not(z3.And(z3.UGE(init, I["Allowed"]), ref, f_atomic_type(tn)))))
        ctx.cover(E, st.clone(), "a declaration", z3.And(ok, can))
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_type") + r"\(.*\)$"), [W.this, W.cell, init], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(ok), z3.Not(can)), "declaration: refused only if written otherwise")
                continue
            if typed:
                own = E.get_str(s, Ptr(s.ghost["created"][0], P.field(OBJ, "mQualifiedTypename"))) if s.ghost["created"] else strconst("")
                ctx.require(E, s, z3.Implies(first, f_unchecked(own, W.num("ASSIGN"), f_rtype(f_tree(W.node("expression", q + 1))))), "declaration: the first value may be assigned to its type")
                continue
            ctx.require(E, s, z3.And(ok, can), "declaration: accepted only as it is to be written")
            ctx.require(E, s, W.at(s) == z3.If(first, W.nxt("expression", q + 1), q), "declaration: reading goes on after it")
            ctx.require(E, s, E.addr(s, W.field(s, o[1], "TypeDeclaration", "mAssignmentExpression")) == z3.If(first, W.node("expression", q + 1), 0), "declaration: its first value")
            declared(ctx, W, s, o[1], name, tn, m, ref, "declaration")
    if typed:
        return [Unit("types of a declaration", TG + "::process_type", typ)]
    return [Unit("declaration with var", TG + "::process_var", var), Unit("declaration with a type", TG + "::process_type", typ)]


def begin_unit():
    """before a method is parsed: its parameters are known by their names, const exactly if written so"""
    def run(ctx):
        W = Declared(ctx)
        E, P, st = W.E, W.P, W.st
        S = Lists(E)
        sig = E.sym_region(st, "signature")
        sc = S.fresh(st, sig, 0, "parameters")
        m = E.sym_region(st, "method", cls=[P.ti(METHOD)])
        typ, lay = z3.BitVec("kind", 32), z3.BitVec("layout", 32)
        off = lambda c, f: P.base_offset(METHOD, "Slang::MethodAttributes") + P.field(c, f)
        st.w(m).cells[off("Slang::MethodAttributes", "mMethodType")] = (typ, 4)
        st.w(m).cells[off(GA, "mMemoryLayout")] = (lay, 4)
        W.on(r"Slang::Common::Method::provideSignature\(\) const", lambda E, st, a, ins: [(st, ("ret", Ptr(sig, 0)))])
        around = z3.Int("around the method")
        st.pc.append(z3.And(around >= 0, z3.Implies(around == 0, W.owner == 0)))
        W.around = around

        def cast(E, st, a, ins):
            if st.mem[a[2].rid].name != P.ti(BLUEPRINT):
                return W.cast(E, st, a, ins)
            out = []
            for c, v in ((W.owner != 0, W.owner), (W.owner == 0, z3.IntVal(0))):
                s = st.clone()
                s.pc += [c, E.addr(s, a[0]) == around]
                if E.feasible(s):
                    out.append((s, ("ret", SPtr(v) if v is W.owner else NULL)))
            return out
        E.contracts["__dynamic_cast"] = cast
        nothing = lambda E, st, a, ins: [(st, ("ret", None))]
        W.on(r"Slang::StackFrame::StackFrame\(.*\)", nothing)
        W.on(r"Slang::StackFrame::pushTokens\(.*\)", nothing)
        W.on(r"Slang::Common::Method::getTokens\(\) const", lambda E, st, a, ins: [(st, ("ret", Ptr(W.list, 0)))])

        def push(E, st, a, ins):
            ctx.require(E, st, E.icmp(st, "eq", a[1], Ptr(m, P.base_offset(METHOD, "Slang::IScope"))), "method: its names are those of its own scope")
            return [(st, ("ret", None))]
        W.on(r"Slang::StackFrame::pushScope\(.*\)", push)
        W.on(r"std::set<std::string, .*>::clear\(\)", nothing)
        count, nth = z3.Function("named before", IntS, IntS), z3.Function("nth named", IntS, IntS)
        name = lambda j: S.at(sc, S.name, j)
        st.ghost["defs"] = z3.IntVal(0)
        st.ghost["self"] = z3.IntVal(0)
        st.pc.append(count(0) == 0)
        mo = P.base_offset(OBJ, GA) + P.field(GA, "mMutability")

        def define(E, st, args):
            bad = st.clone()
            bad.ghost["err"] = 1
            n = E.get_str(st, args[1])
            ctx.require(E, st, E.addr(st, args[0]) == W.base, "method: names are defined in its scope")
            c = st.ghost["created"]
            if c is None:
                ctx.require(E, st, z3.And(n == strconst("this"), E.addr(st, args[2]) == W.owner, W.owner != 0), "method: only its object has no value of its own")
                st.ghost["self"] = st.ghost["self"] + 1
            else:
                k = nth(st.ghost["defs"])
                ctx.require(E, st, z3.And(n == name(k), c[2] == name(k), c[1] == S.at(sc, S.type, k)), "parameter: known by its name")
                ctx.require(E, st, E.icmp(st, "eq", args[2], Ptr(c[0], P.base_offset(OBJ, "Slang::Symbol"))), "parameter: its name stands for it")
                ctx.require(E, st, to_bv(E.load(st, Ptr(c[0], mo), ir.I32), 32) == S.at(sc, S.mut, k), "parameter: const exactly if written so")
                st.ghost["created"] = None
                st.ghost["defs"] = st.ghost["defs"] + 1
            return E.throw(bad, EXC_TI) + [(st, ("ret", None))]
        W.on_define = define

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            for k in hv:
                v = getv(k) if k[0] != "ghost" else None
                if isinstance(v, It) and v.rid == sig:
                    q = v.pos
                    cur.pc += [count(q + 1) == count(q) + z3.If(name(q) != EMPTY, 1, 0), z3.Implies(name(q) != EMPTY, nth(count(q)) == q)]
                    out.append(("within", z3.And(q >= 0, q <= sc.n)))
                    out.append(("so far", cur.ghost["defs"] == count(q)))
            return out
        E.cand_hooks.append(cand)
        ctx.cover(E, st.clone(), "an object's method", W.owner != 0)
        MT, ML = P.enum("Slang::MethodType::E"), P.enum("Slang::MemoryLayout::E")
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::initialize") + r"\(Slang::Common::Method\*\)$"), [W.this, Ptr(m, 0)]):
            if o[0] != "ret":
                ctx.require(E, s, W.refused(s), "method: its parameters are refused only if a name or type is")
                continue
            f = lambda n: E.load(s, Ptr(W.this.rid, P.field(TG, n)), ir.PTR)
            ctx.require(E, s, s.ghost["defs"] == count(sc.n), "method: all its named parameters are known")
            ctx.require(E, s, s.ghost["self"] == z3.If(z3.And(W.owner != 0, lay != ML["Static"]), 1, 0), "method: an object's method knows its object, a static one does not")
            ctx.require(E, s, z3.And(E.icmp(s, "eq", f("mMethod"), Ptr(m, 0)), E.addr(s, f("mThis")) == W.owner), "method: what follows belongs to it")
            ctx.require(E, s, true(E.load(s, Ptr(W.this.rid, P.field(TG, "mAllowConstModify")), ir.I8)) == z3.Or(typ == MT["Constructor"], typ == MT["Destructor"]),
                        "method: const members may be set in constructors and destructors only")
    return [Unit("parameters of a method", TG + "::initialize", run)]


def use_unit():
    """what follows a name decides what is done with it"""
    def run(ctx):
        W = Declared(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        typed = ctx.sym("within_an_expression", z3.BoolSort())
        W.on(re.escape(TG) + r"::resolveWithThis\(.*\) const", lambda E, st, a, ins: W.sub("name", a[1], st, E.addr(st, a[2])))
        r, q = W.node("name", p, W.base), W.nxt("name", p, W.base)
        x = f_tree(r)
        for f in ("process_assignment_expression", "process_incdecrement"):
            W.on(re.escape(TG + "::" + f) + r"\(.*\)", lambda E, st, a, ins, f=f: W.sub(f, a[1], st, E.addr(st, a[2])))
        for f in ("process_method", "process_subscript"):
            i, j = (1, 2) if f == "process_method" else (2, 1)
            rx = r"\(Slang::AST::SymbolExpression\*, std::_List_const_iterator<Slang::Token>&\)" if i == 1 else r"\(.*\)"
            W.on(re.escape(TG + "::" + f) + rx, lambda E, st, a, ins, f=f, i=i, j=j: W.sub(f, a[j], st, E.addr(st, a[i])))
        W.on(re.escape(TG) + r"::process_type\(.*\)", lambda E, st, a, ins: W.sub("process_type", a[1], st, to_bv(a[2], 32)))
        generic = z3.Function("has type parameters", IntS, z3.BoolSort())
        W.on(re.escape(AST) + r"DesigntimeSymbolExpression::isPrototype\(\) const", lambda E, st, a, ins: [(st, ("ret", bit(generic(E.addr(st, a[0])))))])
        opaque(E, [r"Slang::Designtime::Parser::buildRuntimeConstraintTypename\(.*\)$"])
        istype = z3.Function("is_type_name", Tree, z3.BoolSort())(x)
        cat = lambda *n: z3.Or(*[W.part(W.L.cat, q) == W.L.num("c", k) for k in n])
        gen = z3.And(istype, generic(r))
        cast = z3.And(typed, z3.Or(cat("Constant"), W.is_(q, "IDENTIFIER", "KEYWORD"), gen))
        decl = z3.And(z3.Not(typed), z3.Or(W.is_(q, "IDENTIFIER"), gen))
        allowed = z3.BitVecVal(P.enum(TG + "::Initialization::E")["Allowed"], 32)
        free = z3.And(z3.Not(cast), z3.Not(decl))
        forms = [(z3.And(free, cat("Assignment")), "process_assignment_expression", q, (r,), "an assignment"),
                 (decl, "process_type", p, (allowed,), "a declaration")]
        free = z3.And(free, z3.Not(cat("Assignment")))
        for k, f, w in (("PARENTHESIS_OPEN", "process_method", "a call"), ("BRACKET_OPEN", "process_subscript", "a subscript"),
                        ("OPERATOR_INCREMENT", "process_incdecrement", "an increment"), ("OPERATOR_DECREMENT", "process_incdecrement", "a decrement")):
            forms.append((z3.And(free, W.is_(q, k)), f, q, (r,), w))
        plain = z3.And(free, z3.Not(W.is_(q, "PARENTHESIS_OPEN", "BRACKET_OPEN", "OPERATOR_INCREMENT", "OPERATOR_DECREMENT")))
        for c, f, b, k, w in forms:
            ctx.cover(E, st.clone(), w, c)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_identifier") + r"\(.*\)$"), [W.this, W.cell, bit(typed)], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.And(cast, z3.Not(istype))), "name: refused only if a value follows that does not belong there")
                continue
            n = E.addr(s, o[1])
            for c, f, b, k, w in forms:
                ctx.require(E, s, z3.Implies(c, z3.And(n == W.node(f, b, *k), W.at(s) == W.nxt(f, b, *k))), "name: read as " + w)
            ctx.require(E, s, z3.Implies(plain, z3.And(n == r, W.at(s) == q)), "name: read as its value")
            ctx.require(E, s, z3.Implies(cast, istype), "name: only a type converts what follows")
            if isinstance(o[1], Ptr):
                ctx.require(E, s, cast, "name: only a type converts what follows")
                ctx.require(E, s, E.addr(s, W.field(s, o[1], "TypecastExpression", "mExpression")) == W.node("expression", q), "name: all that follows is converted")
                ctx.require(E, s, W.at(s) == W.nxt("expression", q), "name: all that follows is converted")
            else:
                ctx.require(E, s, z3.Not(cast), "name: a type converts what follows")
    return [Unit("use of a name", TG + "::process_identifier", run)]


def arguments_unit():
    """a call: its arguments in the order written"""
    def run(ctx):
        W = Names(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        L = Listed(W, "arguments")
        x, end = (lambda q: W.node("expression", q)), (lambda q: W.nxt("expression", q))
        close = lambda q: W.is_(q, "PARENTHESIS_CLOSE")
        after = lambda q: z3.If(close(end(q)), end(q), end(q) + 1)
        st.pc += [L.empty(p + 1), W.n > 0, p + 1 < W.n, z3.Not(W.is_(W.n - 1, "COMMA"))]

        def define(q):
            d = z3.Implies(z3.And(q < W.n, z3.Not(close(q))), L.grows(q, after(q), x(q)))
            E.lazy[d.get_id()] = d
            return d
        placed(W, L, define)
        ctx.cover(E, st.clone(), "an argument", z3.And(W.is_(p, "PARENTHESIS_OPEN"), z3.Not(close(p + 1))))

        def called(E, st, a, ins):
            c = E.container(st, a[3], "list", cinfo(E, "list", ["Slang::AST::Node*"]))
            T = W.L
            ctx.require(E, st, E.addr(st, a[1]) == W.lhs, "call: of the name written")
            tl = E.load(st, E.padd(a[2], T.pos + T.line), ir.I32)
            ctx.require(E, st, to_bv(tl, 32) == W.part(T.pos + T.line, p), "call: has the position it is written at")
            st.ghost["passed"] = (c.n, E.field_arr(c, 0, IntS))
            bad = st.clone()
            bad.ghost["err"] = 1
            r = z3.Int("call")
            st.pc.append(r > 0)
            return E.throw(bad, EXC_TI) + [(st, ("ret", SPtr(r)))]
        W.on(re.escape(TG) + r"::process_method\(Slang::AST::SymbolExpression\*, Slang::Token const&, .*\)", called)
        fn = one(P, re.escape(TG + "::process_method") + r"\(Slang::AST::SymbolExpression\*, std::_List_const_iterator<Slang::Token>&\)$")
        for s, o in ctx.call(E, st, fn, [W.this, SPtr(W.lhs), W.cell], own=False):
            q = W.at(s)
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(W.is_(p, "PARENTHESIS_OPEN")), z3.Not(W.is_(q, "COMMA", "PARENTHESIS_CLOSE"))), "call: refused only if written otherwise")
                continue
            ctx.require(E, s, z3.And(W.is_(p, "PARENTHESIS_OPEN"), close(q - 1)), "call: accepted only as it is to be written")
            c = s.ghost.get("passed")
            ctx.require(E, s, c is not None and E.addr(s, o[1]) == z3.Int("call"), "call: is made once")
            if c:
                ctx.require(E, s, c[0] == L.n(q - 1), "call: has all its arguments")
                ctx.require(E, s, L.has(c[1], q - 1), "call: its arguments are in the order written")
    return [Unit("arguments of a call", TG + "::process_method", run)]


def statement_unit():
    """an expression as a statement"""
    def run(ctx):
        W = Declared(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        AE, AS = AST + "AssignmentExpression", "AssignmentStatement"
        x, q = W.node("expression", p), W.nxt("expression", p)
        sets = z3.Bool("is an assignment")
        pre = lambda f: z3.Function("pre%d%s" % (P.field(AE, f), IntS), IntS, IntS)(x)
        st.pc.append(z3.Implies(sets, z3.And(pre("mLHS") > 0, pre("mRHS") > 0)))

        def cast(E, st, a, ins):
            if st.mem[a[2].rid].name != P.ti(AE):
                return W.cast(E, st, a, ins)
            out = []
            for c, v in ((sets, a[0]), (z3.Not(sets), NULL)):
                s = st.clone()
                s.pc.append(c)
                if E.feasible(s):
                    out.append((s, ("ret", v)))
            return out
        E.contracts["__dynamic_cast"] = cast
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_assignment") + r"\(.*\)$"), [W.this, W.cell], own=False):
            if o[0] != "ret":
                ctx.require(E, s, W.refused(s), "expression: refused only if it is none")
                continue
            ctx.require(E, s, W.at(s) == q, "expression: reading goes on after it")
            if isinstance(o[1], Ptr):
                ctx.require(E, s, sets, "expression: an assignment only if written as one")
                if is_kind(ctx, W, s, o[1], AS, "assignment"):
                    ctx.require(E, s, z3.And(E.addr(s, W.field(s, o[1], AS, "mLeftExpression")) == pre("mLHS"), E.addr(s, W.field(s, o[1], AS, "mRightExpression")) == pre("mRHS")),
                                "assignment: of the value to the name")
            else:
                ctx.require(E, s, z3.And(z3.Not(sets), E.addr(s, o[1]) == x), "expression: stays as it is")
    return [Unit("expression as statement", TG + "::process_assignment", run)]


def cast_unit(typed=False):
    def run(ctx):
        W = Declared(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        TD, TE = "Slang::Common::TypeDeclaration", "TypecastExpression"
        full = z3.Function("type_with_constraints", Str, Str)

        def name(E, st, a, ins):
            E.set_str(st, E.padd(a[0], P.field(TD, "mCombinedName")), full(E.get_str(st, a[1])))
            return [(st, ("ret", None))]
        W.on(re.escape(TD) + r"::TypeDeclaration\(std::string const&.*\)", name)
        key = (W.base, z3.BoolVal(False), z3.BitVecVal(W.vis["Public"], 32))
        t, q = W.node("resolve", p + 1, *key), W.nxt("resolve", p + 1, *key)
        named = z3.And(t != 0, z3.Function("is_type_name", Tree, z3.BoolSort())(f_tree(t)))
        x, e = W.node("expression", q + 2), W.nxt("expression", q + 2)
        ok = z3.And(W.is_(p, "COMPARE_LESS"), named, W.is_(q, "COMPARE_GREATER"), W.is_(q + 1, "PARENTHESIS_OPEN"), W.is_(e, "PARENTHESIS_CLOSE"))
        st.pc.append(z3.Not(W.is_(W.n - 1, "COMPARE_LESS", "COMPARE_GREATER", "PARENTHESIS_OPEN", "PARENTHESIS_CLOSE")))
        E.assumptions.add("the last token of a method body is no part of a cast")
        ctx.cover(E, st.clone(), "a cast", ok)
        et = P.enum(AST + "Expression::ExpressionType::E")
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_cast") + r"\(.*\)$"), [W.this, W.cell], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(ok)), "cast: refused only if written otherwise or no such cast is declared")
                continue
            if typed:
                ctx.require(E, s, f_checked(f_tree(t), W.num("TYPECAST"), f_tree(x)), "cast: declared for the type named and that of the value")
                continue
            ctx.require(E, s, ok, "cast: accepted only as it is to be written")
            ctx.require(E, s, W.at(s) == e + 1, "cast: reading goes on after it")
            ctx.require(E, s, W.field(s, o[1], "Expression", "mExpressionType", ir.I32) == et[TE], "cast: is a cast")
            ctx.require(E, s, E.addr(s, W.field(s, o[1], TE, "mExpression")) == x, "cast: of the value in parentheses")
            ctx.require(E, s, W.field(s, o[1], TE, "mDestinationType", Str) == full(f_rtype(f_tree(t))), "cast: to the type named")
            ctx.require(E, s, W.field(s, o[1], "Expression", "mResultType", Str) == full(f_rtype(f_tree(t))), "cast: has the type named")
    return [Unit("types of a cast" if typed else "form of cast", TG + "::process_cast", run)]
