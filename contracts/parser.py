"""The parser: which tree is built from the tokens of an expression or statement.

A sub-parser is represented by its contract: from the token it starts at it gives one node and the token after it, or it
refuses the source.  What a node means is abstract (sort Tree): a tree is determined by the class of its node, its operator
and the trees of its parts, read from the node the code has built.
"""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .values import one
from .lexer import Lay, Tokens, TK
from .text import skolem
from .calls import opaque
from .interp import EXC_TI
from .objects import lay, holds_value

TG = "Slang::AST::TreeGenerator"
AST = "Slang::AST::"
Tree = z3.DeclareSort("Tree")
B32 = z3.BitVecSort(32)
f_tree = z3.Function("tree", IntS, Tree)
f_rtype = z3.Function("result_type", Tree, Str)
f_atomic = z3.Function("is_atomic", Tree, z3.BoolSort())
f_sym = z3.Function("is_name", Tree, z3.BoolSort())
f_optype = z3.Function("operation_type", Tree, B32, Tree, Str)
f_untype = z3.Function("unary_type", Str, B32, Str, Str)
f_checked = z3.Function("operation_declared", Tree, B32, Tree, z3.BoolSort())
f_unchecked = z3.Function("sign_declared", Str, B32, Str, z3.BoolSort())
t_binary = z3.Function("binary", B32, B32, B32, Tree, Tree, Str, Tree)
t_unary = z3.Function("unary", B32, B32, Tree, Str, B32, Tree)


class Parser:
    """a parser at some token, and the contracts of everything it calls"""

    def __init__(self, ctx, inline=()):
        P = self.P = ctx.P
        self.ctx = ctx
        self.E = E = ctx.engine()
        E.light, E.peel_max = True, 0
        self.st = st = State(E)
        L = self.L = Lay(P)
        self.inline = set(inline)
        self.to_end = False                               # a part may be the last of the source
        self.list = E.sym_region(st, "tokens")
        self.T = Tokens(ctx, E, st, Ptr(self.list, 0), L)
        self.n = self.T.c0.n
        self.p0 = z3.Int("first")
        st.pc.append(z3.And(self.p0 >= 0, self.p0 < self.n))
        self.cell = Ptr(E.sym_region(st, "start"), 0)
        self.go(st, self.cell, self.p0)
        self.this = Ptr(E.sym_region(st, "parser", size=P.class_size(TG)), 0)
        st.ghost["err"] = 0
        st.ghost["last"] = z3.IntVal(-1)
        self.used = {}
        self.install()
        self.texp = P.ti(AST + "Expression")
        E.virtual_hook = self.hook
        E.contracts["__dynamic_cast"] = self.cast
        E.contracts["_Znwm"] = self.c_new

    # ------------------------------------------------------------- tokens
    def part(self, off, i):
        return self.T.part(self.T.c0, off, i)

    def type(self, i):
        return self.part(self.L.type, i)

    def text(self, i):
        return self.part(self.L.text, i)

    def is_(self, i, *names):
        t = self.type(i)
        return z3.Or(*[t == self.L.num("t", x) for x in names])

    def num(self, name):
        return self.L.num("t", name)

    def go(self, st, cell, pos):
        self.E.store(st, cell, It(self.list, 0, pos=pos), ir.PTR)

    def at(self, st, cell=None):
        it = self.E.load(st, cell or self.cell, ir.PTR)
        if not isinstance(it, It) or it.rid != self.list:
            raise Unsupported("token iterator %r" % (it,))
        return z3.simplify(it.pos)

    # ------------------------------------------------------------- contracts
    def on(self, rx, fn, must=True):
        ss = [s for d, ns in self.P.bydem.items() if re.fullmatch(rx, d) for s in ns]
        if not ss and must:
            raise SpecError("no function matching %s" % rx)
        for s in ss:
            self.E.contracts[s] = fn

    SUBS = ("expression", "parseCondition", "parseExpression", "parseFactor", "parseInfix", "parsePostfix", "parseTerm", "processIsOperator", "processPostfixRangeOperator", "processTernaryOperator", "processPostfixScopeOperator")
    KEYWORDS = ("assert", "break", "continue", "delete", "exit", "for", "foreach", "if", "print", "return", "switch", "throw", "try", "var", "while")
    EXPKEYS = ("cast", "copy", "new", "streval", "typeid")
    WITHBASE = SUBS[5:6] + SUBS[7:]

    def nxt(self, name, p, *x):
        return z3.Function("after " + name, IntS, *[a.sort() for a in x], IntS)(p, *x)

    def node(self, name, p, *x):
        return z3.Function("node " + name, IntS, *[a.sort() for a in x], IntS)(p, *x)

    def sub(self, name, cell, st, *x, null=False):
        """a node is parsed, or the source refused"""
        E = self.E
        p = self.at(st, cell)
        bad = st.clone()
        bad.ghost["err"] = 1
        out = E.throw(bad, EXC_TI)
        st.ghost["last"] = p
        r, q = self.node(name, p, *x), self.nxt(name, p, *x)
        st.pc.append(z3.And(q > p, q <= self.n if self.to_end else q < self.n, r >= 0 if null else r > 0))
        self.go(st, cell, q)
        return out + [(st, ("ret", SPtr(r)))]

    def install(self):
        E, P = self.E, self.P
        N = re.escape(TG + "::")
        for k in self.SUBS:
            if k in self.inline:
                continue
            if k in self.WITHBASE:
                self.on(N + k + r"\(.*\)(?: const)?", lambda E, st, a, i, k=k: self.sub(k, a[1], st, self.tree(st, a[2])))
            else:
                self.on(N + k + r"\(.*\)", lambda E, st, a, i, k=k: self.sub(k, a[1], st))
        flag = lambda v: z3.Extract(0, 0, to_bv(v, 1)) == 1 if not isinstance(v, z3.BoolRef) else v
        for k in ("process_identifier", "process_statement", "process_scope"):
            if k not in self.inline:
                self.on(N + k + r"\(.*\)", lambda E, st, a, i, k=k: self.sub(k, a[1], st, *[flag(x) for x in a[2:]], null=k != "process_identifier"))
        for k in self.KEYWORDS + self.EXPKEYS + ("keyword", "expression_keyword", "assignment"):
            k = "process_" + k
            if k not in self.inline:
                self.on(N + k + r"\(std::_List_const_iterator<.*>&\)", lambda E, st, a, i, k=k: self.sub(k, a[1], st))
        self.on(N + r"resolveType\(.*Slang::AST::Node\*.*\) const", self.c_optype)
        self.on(N + r"resolveType\(.*, std::string const&, .*\) const", self.c_untype)
        for c in ("BinaryExpressionOwner", "BooleanBinaryExpression"):
            self.made(c, self.t_binary)
        for c in ("UnaryExpression", "BooleanUnaryExpression"):
            self.made(c, self.t_unary)
        opaque(E, [r"Slang::Common::Position::toString\(\) const$"])
        # descriptions of operands that user defined operators are looked up by
        nothing = lambda E, st, a, i: [(st, ("ret", a[0] if a and isinstance(a[0], Ptr) else None))]
        for rx in (r"Slang::Parameter::CreateDesigntime\(.*\)", r"Slang::Parameter::~Parameter\(\)", r"Slang::Common::TypeDeclaration::~?TypeDeclaration\(.*\)",
                   r"(?:auto |void |\S+& )?std::(?:__cxx11::)?list<Slang::Parameter, .*>::(?:push_back|emplace_back|~?list)(?:<.*>)?\(.*\)",
                   r"Slang::PrototypeConstraints::~?PrototypeConstraints\(.*\)"):
            self.on(rx, nothing, must=False)
        self.on(r".*::findBluePrintObject\(.*\) const", self.c_blueprint)
        self.on(r"Slang::(?:MethodScope|Designtime::BluePrintObject)::resolveMethod\(.*\) const", self.c_nomethod)

    def c_optype(self, E, st, a, ins):
        bad = st.clone()
        bad.ghost["err"] = 1
        out = E.throw(bad, EXC_TI)
        ks = (self.tree(st, a[3]), self.optype(st, a[4]), self.tree(st, a[5]))
        E.set_str(st, a[0], f_optype(*ks))
        st.pc.append(f_checked(*ks))
        return out + [(st, ("ret", None))]

    def c_blueprint(self, E, st, a, ins):
        """the definition of a type"""
        x = z3.Function("definition", Str, IntS)(E.get_str(st, a[1]))
        bad = st.clone()
        bad.pc.append(x == 0)
        bad.ghost["err"] = 1
        st.pc.append(x > 0)
        return [(bad, ("ret", NULL)), (st, ("ret", SPtr(x)))]

    def c_nomethod(self, E, st, a, ins):
        E.assumptions.add("operands are of types that define no operator methods of their own")
        return [(st, ("ret", NULL))]

    def c_untype(self, E, st, a, ins):
        bad = st.clone()
        bad.ghost["err"] = 1
        out = E.throw(bad, EXC_TI)
        ks = (E.get_str(st, a[3]), self.optype(st, a[4]), E.get_str(st, a[5]))
        E.set_str(st, a[0], f_untype(*ks))
        st.pc.append(f_unchecked(*ks))
        return out + [(st, ("ret", None))]

    def statements(self):
        """what statements need to know: whether a loop surrounds them, what the method returns"""
        E, P, st = self.E, self.P, self.st
        self.allowed = z3.Bool("within a loop")
        self.returns = z3.Const("method type", Str)
        st.ghost["scopes"] = 0
        w = st.w(self.this.rid)
        for f in ("mStackFrame", "mMethod", "mRepository"):
            w.cells[P.field(TG, f)] = (Ptr(E.sym_region(st, f), 0), 8)
        self.on(r"Slang::StackFrame::allowBreakAndContinue\(\) const", lambda E, s, a, i: [(s, ("ret", z3.If(self.allowed, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))])

        def scope(d):
            def fn(E, s, a, i):
                s.ghost["scopes"] = s.ghost["scopes"] + d
                return [(s, ("ret", None))]
            return fn
        self.on(re.escape(TG) + r"::pushScope\(.*\)", scope(1))
        self.on(re.escape(TG) + r"::popScope\(\)", scope(-1))
        self.on(r"Slang::(?:Common::Method|MethodSymbol)::QualifiedTypename\(\) const", self.c_returns)
        toks = self.list
        self.on(re.escape(TG) + r"::getTokens\(\) const", lambda E, s, a, i: [(s, ("ret", Ptr(toks, 0)))])

    def c_returns(self, E, st, a, ins):
        if len(a) == 2:
            E.set_str(st, a[0], self.returns)
            return [(st, ("ret", None))]
        rid = st.new("heap", name="method type")
        st.w(rid).cells[0] = (StrV(self.returns), 32)
        return [(st, ("ret", Ptr(rid, 0)))]

    def refused(self, s):
        """a part has been refused, or a type is not known"""
        e = s.ghost["err"]
        return z3.BoolVal(e == 1) if isinstance(e, int) else e == 1

    # ------------------------------------------------------------- nodes
    def c_new(self, E, st, a, ins):
        """a new node, somewhere no other object is"""
        rid = st.new("heap", name="new", size=cint(a[0]))
        x = z3.Int(fresh_name("&node"))
        st.w(rid).addr = x
        st.pc.append(x > 0)
        for k, (r2, tt) in st.ptrs.items():
            st.pc.append(x != tt)
        st.ptrs[x.get_id()] = (rid, x)
        return [(st, ("ret", Ptr(rid, 0)))]

    def tree(self, st, p):
        return f_tree(self.E.addr(st, p))

    def optype(self, st, tok):
        return to_bv(self.E.load(st, self.E.padd(tok, self.L.type), ir.I32), 32)

    def made(self, cls, what):
        """after the constructor of cls has run, the node stands for the tree of its parts"""
        E, P = self.E, self.P
        for d, ns in P.bydem.items():
            if not re.match(re.escape(AST + cls + "::" + cls) + r"\(", d):
                continue
            for s in ns:
                def ctor(E, st, a, ins, s=s):
                    f = P.lookup(s)
                    E.inlined.add(s)
                    out = []
                    for s2, o in E.run(st, f, a, 1):
                        if o[0] == "ret":
                            x = what(s2, a[0])
                            s2.pc.append(z3.And(self.tree(s2, a[0]) == x, z3.Not(f_sym(x)), f_rtype(x) == self.field(s2, a[0], "Expression", "mResultType", Str)))
                        out.append((s2, o))
                    return out
                E.contracts[s] = ctor

    def field(self, st, p, cls, name, t=ir.PTR):
        q = self.E.padd(p, self.P.field(AST + cls, name))
        if t is Str:
            return self.E.get_str(st, q)
        v = self.E.load(st, q, t)
        return v if t is ir.PTR else to_bv(v, 32)

    def t_binary(self, st, p):
        f = lambda n, t=ir.PTR: self.field(st, p, "BinaryExpression", n, t)
        return t_binary(self.field(st, p, "Expression", "mExpressionType", ir.I32), f("mBinaryExpressionType", ir.I32),
                        self.optype(st, self.E.padd(p, self.P.field(AST + "BinaryExpression", "mOperation"))),
                        self.tree(st, f("mLHS")), self.tree(st, f("mRHS")), self.field(st, p, "Expression", "mResultType", Str))

    def t_unary(self, st, p):
        f = lambda n, t=ir.PTR: self.field(st, p, "UnaryExpression", n, t)
        return t_unary(self.field(st, p, "Expression", "mExpressionType", ir.I32),
                       self.optype(st, self.E.padd(p, self.P.field(AST + "UnaryExpression", "mOperation"))),
                       self.tree(st, f("mExpression")), self.field(st, p, "Expression", "mResultType", Str), f("mValueType", ir.I32))

    def cast(self, E, st, a, ins):
        """every parsed node is an expression; whether it is a name is not known"""
        P = self.P
        dst = st.mem[a[2].rid].name
        if isinstance(a[0], Ptr) and a[0].rid == 0:
            return [(st, ("ret", NULL))]
        if dst == self.texp:
            p = E.resolve_ptr(st, a[0], "dynamic_cast")
            if isinstance(a[0], SPtr):
                E.static_class(st, p, dst)
            return [(st, ("ret", a[0]))]
        x = self.tree(st, a[0])
        if dst == P.ti(AST + "SymbolExpression"):
            out = []
            E.assumptions.add("operands are of types that define no operator methods of their own")
            for c, r in ((z3.And(f_sym(x), f_atomic(x)), a[0]), (z3.Not(f_sym(x)), NULL)):
                s = st.clone()
                s.pc.append(c)
                if E.feasible(s):
                    out.append((s, ("ret", r)))
            return out
        if isinstance(a[0], SPtr) or st.mem[a[0].rid].kind != "heap":
            return [(st.clone(), ("ret", NULL)), (st, ("ret", a[0]))]
        return None

    def hook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        d = {re.sub(r".*::(\w+)\(.*", r"\1", self.P.dem.get(n, "")) for n in impls}
        if len(d) != 1:
            return None
        k = d.pop()
        if k in ("getResultType", "isAtomicType") and isinstance(args[-1], Ptr) and st.mem[args[-1].rid].kind == "heap":
            return None
        if k == "getResultType":
            E.set_str(st, args[0], f_rtype(self.tree(st, args[1])))
            return [(st, ("ret", None))]
        if k == "isAtomicType":
            return [(st, ("ret", z3.If(f_atomic(self.tree(st, args[0])), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))]
        return None


LEVELS = {
    "expression": ("parseCondition", "AND NAND NOR OR"),
    "parseCondition": ("parseExpression", "COMPARE_EQUAL COMPARE_EQUAL_CONTENT COMPARE_GREATER COMPARE_GREATER_EQUAL COMPARE_LESS COMPARE_LESS_EQUAL COMPARE_UNEQUAL COMPARE_UNEQUAL_CONTENT"),
    "parseExpression": ("parseFactor", "BITAND BITCOMPLEMENT BITOR MATH_ADDITION MATH_SUBTRACT OPERATOR_SHIFT_LEFT OPERATOR_SHIFT_RIGHT"),
    "parseFactor": ("parseInfix", "MATH_DIVIDE MATH_MODULO MATH_MULTIPLY")}


def level_units(typed=False):
    """with typed: every operation of the level has been looked up in the table of operators"""
    us = []
    for fn, (inner, ops) in LEVELS.items():
        if typed and fn == "expression":
            continue
        def run(ctx, fn=fn, inner=inner, ops=ops.split()):
            W = Parser(ctx)
            E, P, st = W.E, W.P, W.st
            et, bt = P.enum(AST + "Expression::ExpressionType::E"), P.enum(AST + "BinaryExpression::BinaryExpressionType::E")
            vt = P.enum(AST + "UnaryExpression::ValueType::E")
            c = lambda x: z3.BitVecVal(x, 32)
            fold = z3.Function("grouped", IntS, Tree)
            accepted = z3.Function("accepted", IntS, z3.BoolSort())
            sub = lambda p: f_tree(W.node(inner, p))

            def joined(q):
                l, r, op = fold(q), sub(q + 1), W.type(q)
                if fn == "parseCondition":
                    un = W.is_(q, "COMPARE_UNEQUAL", "COMPARE_UNEQUAL_CONTENT")
                    eq = z3.If(z3.Or(un, W.is_(q, "COMPARE_EQUAL_CONTENT")), W.num("COMPARE_EQUAL"), op)
                    b = t_binary(c(et["BinaryExpression"]), c(bt["BooleanBinaryExpression"]), eq, l, r, strconst("bool"))
                    return z3.If(un, t_unary(c(et["UnaryExpression"]), W.num("OPERATOR_NOT"), b, strconst("bool"), c(vt["RValue"])), b)
                if fn in ("parseExpression", "parseFactor"):
                    return t_binary(c(et["BinaryExpression"]), c(bt["GenericBinaryExpression"]), op, l, r, f_optype(l, op, r))
                return t_binary(c(et["BinaryExpression"]), c(bt["BooleanBinaryExpression"]), op, l, r, strconst("bool"))

            def define(q):
                d = z3.Implies(W.is_(q, *ops), fold(W.nxt(inner, q + 1)) == joined(q))
                if typed:
                    op = z3.If(W.is_(q, "COMPARE_EQUAL_CONTENT", "COMPARE_UNEQUAL", "COMPARE_UNEQUAL_CONTENT"), W.num("COMPARE_EQUAL"), W.type(q)) if fn == "parseCondition" else W.type(q)
                    d = z3.And(d, z3.Implies(W.is_(q, *ops), accepted(W.nxt(inner, q + 1)) == z3.And(accepted(q), f_checked(fold(q), op, sub(q + 1)))))
                E.lazy[d.get_id()] = d
                return d

            def cand(E, st0, cur, hv, fr, getv):
                out = []
                ks = [k for k in hv if k[0] != "ghost"]
                for k in ks:
                    it = getv(k)
                    if not isinstance(it, It) or it.rid != W.list:
                        continue
                    q = it.pos
                    cur.pc.append(define(q))
                    out.append(("place %s" % (k,), z3.And(q > W.p0, q < W.n)))
                    if typed:
                        out.append(("accepted %s" % (k,), accepted(q)))
                    for e in ks:
                        v = getv(e)
                        if isinstance(v, (SPtr, Ptr)):
                            out.append(("a node %s" % (e,), E.addr(cur, v) > 0))
                            out.append(("grouped %s %s" % (k, e), f_tree(E.addr(cur, v)) == fold(q)))
                return out
            E.cand_hooks.append(cand)
            st.pc.append(fold(W.nxt(inner, W.p0)) == sub(W.p0))
            if typed:
                st.pc.append(accepted(W.nxt(inner, W.p0)))
            ctx.cover(E, st.clone(), "an operator", W.is_(W.nxt(inner, W.p0), ops[0]))
            for s, o in ctx.call(E, st, one(P, re.escape(TG + "::" + fn) + r"\(.*\)$"), [W.this, W.cell], own=False):
                if o[0] != "ret":
                    ctx.require(E, s, z3.Or(W.refused(s), W.is_(s.ghost["last"] - 1, "COMPARE_EQUAL_CONTENT", "COMPARE_UNEQUAL_CONTENT")) if fn == "parseCondition" else W.refused(s), fn + ": refused only if a part is")
                    continue
                q = W.at(s)
                if typed:
                    ctx.require(E, s, accepted(q), fn + ": every operation is one declared for the types of its operands")
                    if fn != "parseCondition":
                        ctx.require(E, s, W.tree(s, o[1]) == fold(q), fn + ": every operation has the type declared for it")
                    continue
                ctx.require(E, s, z3.Not(W.is_(q, *ops)), fn + ": goes on as long as there are operators of this level")
                ctx.require(E, s, W.tree(s, o[1]) == fold(q), fn + ": operators of the same level are grouped from left to right")
        us.append(Unit(("types of " if typed else "operators of ") + fn, TG + "::" + fn, run))
    return us


def infix_unit(typed=False):
    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        et, vt = P.enum(AST + "Expression::ExpressionType::E"), P.enum(AST + "UnaryExpression::ValueType::E")
        c = lambda x: z3.BitVecVal(x, 32)
        sign, no = W.is_(p, "MATH_ADDITION", "MATH_SUBTRACT"), W.is_(p, "OPERATOR_NOT")
        at = z3.If(z3.Or(sign, no), p + 1, p)
        x = f_tree(W.node("parseTerm", at))
        base = z3.If(z3.Or(sign, no), t_unary(c(et["UnaryExpression"]), W.type(p), x, z3.If(no, strconst("bool"), f_rtype(x)), c(vt["RValue"])), x)
        q = W.nxt("parseTerm", at)
        ctx.cover(E, st.clone(), "a sign", sign)
        st.pc.append(p + 1 < W.n)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::parseInfix") + r"\(.*\)$"), [W.this, W.cell], own=False):
            if o[0] != "ret":
                ctx.require(E, s, W.refused(s), "sign: refused only if a part is")
                continue
            if typed:
                ctx.require(E, s, z3.Implies(sign, f_unchecked(f_rtype(x), W.type(p), strconst("__unary__"))), "sign: one declared for the type of the term")
                continue
            ctx.require(E, s, E.addr(s, o[1]) == W.node("parsePostfix", q, base), "sign: applies to the term after it, before what follows the term")
            ctx.require(E, s, W.at(s) == W.nxt("parsePostfix", q, base), "sign: reading goes on after the term")
    return [Unit("types of signs" if typed else "signs", TG + "::parseInfix", run)]


def postfix_unit():
    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        et, vt = P.enum(AST + "Expression::ExpressionType::E"), P.enum(AST + "UnaryExpression::ValueType::E")
        c = lambda x: z3.BitVecVal(x, 32)
        base = z3.Int("base")
        st.pc.append(base > 0)
        t0 = f_tree(base)
        fold = z3.Function("grouped", IntS, Tree)
        OPS = ("BRACKET_OPEN", "OPERATOR_DECREMENT", "OPERATOR_INCREMENT", "OPERATOR_NOT", "OPERATOR_SCOPE")
        ONCE = {"OPERATOR_IS": "processIsOperator", "OPERATOR_RANGE": "processPostfixRangeOperator", "QUESTION_MARK": "processTernaryOperator"}
        SC = "processPostfixScopeOperator"

        def define(q):
            t = fold(q)
            un = lambda op: t_unary(c(et["UnaryExpression"]), op, t, f_rtype(t), c(vt["RValue"]))
            d = z3.And(z3.Implies(W.is_(q, "OPERATOR_DECREMENT", "OPERATOR_INCREMENT"), fold(q + 1) == un(W.type(q))),
                       z3.Implies(W.is_(q, "OPERATOR_NOT"), fold(q + 1) == un(W.num("OPERATOR_VALIDATE"))),
                       z3.Implies(W.is_(q, "OPERATOR_SCOPE"), fold(W.nxt(SC, q, t)) == f_tree(W.node(SC, q, t))))
            E.lazy[d.get_id()] = d
            return d

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            ks = [k for k in hv if k[0] != "ghost"]
            for k in ks:
                it = getv(k)
                if not isinstance(it, It) or it.rid != W.list:
                    continue
                q = it.pos
                cur.pc.append(define(q))
                cur.pc.append(q < W.n)                       # an expression is followed by another token
                out.append(("place %s" % (k,), q >= p))
                for e in ks:
                    v = getv(e)
                    if isinstance(v, (SPtr, Ptr)):
                        out.append(("a node %s" % (e,), E.addr(cur, v) > 0))
                        out.append(("grouped %s %s" % (k, e), f_tree(E.addr(cur, v)) == fold(q)))
            return out
        E.cand_hooks.append(cand)
        st.pc.append(fold(p) == t0)
        ctx.cover(E, st.clone(), "an operator", W.is_(p, "OPERATOR_IS"))
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::parsePostfix") + r"\(.*\)$"), [W.this, W.cell, SPtr(base)], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), W.is_(W.at(s), "BRACKET_OPEN")), "after a term: refused only if a part is")
                continue
            once = z3.Or(*[W.is_(p, k) for k in ONCE])
            for k, f in ONCE.items():
                ctx.require(E, s, z3.Implies(W.is_(p, k), z3.And(E.addr(s, o[1]) == W.node(f, p, t0), W.at(s) == W.nxt(f, p, t0))), "after a term: %s ends it" % k)
            ctx.require(E, s, z3.Implies(z3.Not(once), z3.And(z3.Not(W.is_(W.at(s), *OPS)), W.tree(s, o[1]) == fold(W.at(s)))), "after a term: operators apply in the order written")
    return [Unit("operators after a term", TG + "::parsePostfix", run)]


TEXTS = (("CONST_BOOLEAN", "bool", "stringToBool", z3.BoolSort()), ("CONST_DOUBLE", "double", "stringToDouble", F64), ("CONST_FLOAT", "float", "stringToFloat", F32),
         ("CONST_INTEGER", "int", "stringToInt", z3.BitVecSort(64)), ("CONST_INTEGER", "int64", "stringToInt", z3.BitVecSort(64)), ("CONST_LITERAL", "string", None, Str))


def number(E, P, fn, sort):
    """what a text stands for is left to the function that reads it"""
    f = z3.Function("read " + fn, Str, sort)

    def read(E, st, a, ins):
        v = f(E.get_str(st, a[0]))
        return [(st, ("ret", z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if sort == z3.BoolSort() else v))]
    E.contracts[one(P, r"Utils::Tools::%s\(.*\)$" % fn)] = read
    return f


def term_units():
    us = []
    for kind, T, fn, sort in TEXTS:
        def run(ctx, kind=kind, T=T, fn=fn, sort=sort):
            W = Parser(ctx)
            E, P, st, p = W.E, W.P, W.st, W.p0
            L = lay(P)
            st.pc.append(W.is_(p, kind))
            st.pc.append(p + 1 < W.n)
            v = number(E, P, fn, sort)(W.text(p)) if fn else W.text(p)
            if kind == "CONST_INTEGER":
                fits = z3.And(v >= -(1 << 31), v < 1 << 31)
                st.pc.append(fits if T == "int" else z3.Not(fits))
            ctx.cover(E, st.clone(), "such a literal")
            for s, o in ctx.call(E, st, one(P, re.escape(TG + "::parseTerm") + r"\(.*\)$"), [W.this, W.cell], own=False):
                ctx.require(E, s, o[0] == "ret" and isinstance(o[1], Ptr), "literal: is a term")
                if o[0] != "ret" or not isinstance(o[1], Ptr):
                    continue
                et = P.enum(AST + "Expression::ExpressionType::E")
                ctx.require(E, s, W.field(s, o[1], "Expression", "mExpressionType", ir.I32) == et["LiteralExpression"], "literal: is a literal")
                ctx.require(E, s, W.field(s, o[1], "Expression", "mResultType", Str) == strconst(L.tn[T]), "literal: is of its type")
                ctx.require(E, s, holds_value(E, s, o[1].rid, T, v, L, P.field(AST + "LiteralExpression", "mValue")), "literal: has its value")
                ctx.require(E, s, W.at(s) == p + 1, "literal: reading goes on after it")
        us.append(Unit("literal " + T, TG + "::parseTerm", run))

    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        lits = [k for k, *_ in TEXTS]
        st.pc.append(z3.Not(W.is_(p, *lits)))
        st.pc.append(p + 1 < W.n)
        T = z3.BoolVal(True)
        par = W.is_(p, "PARENTHESIS_OPEN")
        end = W.nxt("expression", p + 1)
        kinds = [(W.is_(p, "IDENTIFIER"), W.node("process_identifier", p, T), W.nxt("process_identifier", p, T)),
                 (W.is_(p, "KEYWORD"), W.node("process_expression_keyword", p), W.nxt("process_expression_keyword", p)),
                 (par, W.node("expression", p + 1), end + 1)]
        ctx.cover(E, st.clone(), "a parenthesis", par)
        st.pc.append(end + 1 < W.n)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::parseTerm") + r"\(.*\)$"), [W.this, W.cell], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(z3.Or(*[c for c, _, _ in kinds])), z3.And(par, z3.Not(W.is_(end, "PARENTHESIS_CLOSE")))), "term: refused only if it is none")
                continue
            for c, x, q in kinds:
                ctx.require(E, s, z3.Implies(c, z3.And(E.addr(s, o[1]) == x, W.at(s) == q)), "term: what it is decides how it is read")
            ctx.require(E, s, z3.Or(*[c for c, _, _ in kinds]), "term: nothing else is one")
            ctx.require(E, s, z3.Implies(par, W.is_(end, "PARENTHESIS_CLOSE")), "term: parentheses enclose a whole expression")
    return us + [Unit("terms", TG + "::parseTerm", run)]


class Form:
    """how a statement is written: parts are read in turn, each from the token after the one before it"""

    def __init__(self, W):
        self.W, self.p, self.ok, self.room, self.parts, self.where = W, W.p0, [], [], {}, z3.BoolVal(True)

    def need(self, c):
        self.ok.append(z3.Implies(self.where, c))

    def step(self):
        self.p = self.p + 1
        self.room.append(self.p < self.W.n)

    def mark(self, name):
        self.need(self.W.is_(self.p, name))
        self.step()

    def part(self, field, name, *flags):
        x = [z3.BoolVal(f) for f in flags]
        W = self.W
        old = self.parts.get(field, z3.IntVal(0))
        self.parts[field] = z3.If(self.where, W.node(name, self.p, *x), old) if field else old
        r = W.node(name, self.p, *x)
        self.p = W.nxt(name, self.p, *x)
        return r

    def when(self, cond, then):
        """the part is there only if cond holds at this token"""
        w, p = self.where, self.p
        c = cond(p)
        self.where = z3.And(w, c)
        then()
        self.p = z3.If(c, self.p, p)
        self.where = w

    def word(self, text):
        return lambda p: z3.And(self.W.is_(p, "KEYWORD"), self.W.text(p) == strconst(text))


def f_assert(f):
    f.mark("PARENTHESIS_OPEN")
    f.part("mExpression", "expression")
    f.parts["mMessage"] = z3.IntVal(0)

    def message():
        f.step()
        f.part("mMessage", "expression")
    f.when(lambda p: f.W.is_(p, "COMMA"), message)
    f.mark("PARENTHESIS_CLOSE")


def f_jump(f):
    f.need(f.W.allowed)
    f.mark("SEMICOLON")


def f_one(f):
    f.part("mExpression", "expression")
    f.mark("SEMICOLON")


def f_call(f):
    f.mark("PARENTHESIS_OPEN")
    f.part("mExpression", "expression")
    f.mark("PARENTHESIS_CLOSE")
    f.mark("SEMICOLON")


def f_value(f):
    f.mark("PARENTHESIS_OPEN")
    f.part("mExpression", "expression")
    f.mark("PARENTHESIS_CLOSE")


def f_if(f):
    f.mark("PARENTHESIS_OPEN")
    f.part("mCondition", "expression")
    f.mark("PARENTHESIS_CLOSE")
    f.part("mIfBlock", "process_statement", False)
    f.parts["mElseBlock"] = z3.IntVal(0)

    def other():
        f.step()
        f.part("mElseBlock", "process_statement", False)
    f.when(f.word("else"), other)


def f_while(f):
    f.mark("PARENTHESIS_OPEN")
    f.part("mCondition", "expression")
    f.mark("PARENTHESIS_CLOSE")
    f.part("mStatement", "process_statement", True)


def f_for(f):
    f.mark("PARENTHESIS_OPEN")
    for field, name, flags, end in (("mInitialization", "process_statement", (False,), "SEMICOLON"), ("mCondition", "expression", (), "SEMICOLON"),
                                    ("mIteration", "process_statement", (True,), "PARENTHESIS_CLOSE")):
        f.parts[field] = z3.IntVal(0)
        f.when(lambda p: z3.Not(f.W.is_(p, end)), lambda: f.part(field, name, *flags))
        f.step()
    f.part("mStatement", "process_statement", True)


def f_return(f):
    W = f.W
    f.parts["mExpression"] = z3.IntVal(0)
    got = [strconst("void")]

    def value():
        x = f.part("mExpression", "expression")
        got[0] = f_rtype(f_tree(x))
    first = f.p
    f.when(lambda p: z3.Not(W.is_(p, "SEMICOLON")), value)
    f.need(W.returns == z3.If(W.is_(first, "SEMICOLON"), strconst("void"), got[0]))
    f.mark("SEMICOLON")


def f_throw(f):
    f.parts["mExpression"] = z3.IntVal(0)
    f.when(lambda p: z3.Not(f.W.is_(p, "SEMICOLON")), lambda: f.part("mExpression", "expression"))
    f.mark("SEMICOLON")


FORMS = {"assert": ("AssertStatement", f_assert), "break": ("BreakStatement", f_jump), "continue": ("ContinueStatement", f_jump), "delete": ("DeleteStatement", f_one),
         "exit": ("ExitStatement", f_call), "print": ("PrintStatement", f_call), "if": ("IfStatement", f_if), "while": ("WhileStatement", f_while),
         "for": ("ForStatement", f_for), "return": ("ReturnStatement", f_return), "throw": ("ThrowStatement", f_throw),
         "streval": ("StringEvalExpression", f_value), "typeid": ("TypeidExpression", f_value)}
LEAVES = {"break": "Break", "continue": "Continue", "exit": "ExitProgram", "return": "Return", "throw": "Throw"}


def form_units():
    us = []
    for k, (cls, form) in FORMS.items():
        def run(ctx, k=k, cls=cls, form=form):
            W = Parser(ctx)
            E, P, st, p = W.E, W.P, W.st, W.p0
            W.statements()
            cf = P.enum("Slang::Runtime::ControlFlow::E")
            st.w(W.this.rid).cells[P.field(TG, "mControlFlow")] = (z3.BitVecVal(cf["Normal"], 32), 4)
            f = Form(W)
            form(f)
            ok = z3.And(*f.ok)
            st.pc += f.room                              # the source does not end within a statement
            ctx.cover(E, st.clone(), "one", ok)
            for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_" + k) + r"\(.*\)$"), [W.this, W.cell], own=False):
                if o[0] != "ret":
                    ctx.require(E, s, z3.Or(W.refused(s), z3.Not(ok)), k + ": refused only if written otherwise")
                    continue
                ctx.require(E, s, ok, k + ": accepted only as it is to be written")
                ctx.require(E, s, W.at(s) == f.p, k + ": reading goes on after it")
                x = o[1]
                if not isinstance(x, Ptr):
                    ctx.require(E, s, False, k + ": is its own statement")
                    continue
                kind, en = ("Expression", "mExpressionType") if cls.endswith("Expression") else ("Statement", "mStatementType")
                ctx.require(E, s, W.field(s, x, kind, en, ir.I32) == P.enum(AST + kind + "::" + kind + "Type::E")[cls], k + ": is of its kind")
                for field, v in f.parts.items():
                    ctx.require(E, s, E.addr(s, W.field(s, x, cls, field)) == v, "%s: its part %s" % (k, field[1:].lower()))
                if kind == "Statement":
                    tok = E.padd(x, P.field(AST + "Statement", "mToken"))
                    for off, what in ((W.L.pos + W.L.line, "line"), (W.L.pos + W.L.col, "column")):
                        ctx.require(E, s, to_bv(E.load(s, E.padd(tok, off), ir.I32), 32) == W.part(off, p), "%s: its %s" % (k, what))
                    ctx.require(E, s, E.get_str(s, E.padd(tok, W.L.pos + W.L.file)) == W.part(W.L.pos + W.L.file, p), k + ": its file")
                if k in LEAVES:
                    now = to_bv(E.load(s, Ptr(W.this.rid, P.field(TG, "mControlFlow")), ir.I32), 32)
                    ctx.require(E, s, now == cf[LEAVES[k]], k + ": is known to leave the block")
                ctx.require(E, s, s.ghost["scopes"] == 0 if not isinstance(s.ghost["scopes"], z3.ExprRef) else s.ghost["scopes"] == 0, k + ": names it declares end with it")
        us.append(Unit("form of " + k, TG + "::process_" + k, run))
    return us


def choice_units():
    """which kind of statement or expression a word or mark starts"""
    us = []
    for fn, words in (("process_keyword", Parser.KEYWORDS), ("process_expression_keyword", Parser.EXPKEYS)):
        def run(ctx, fn=fn, words=words):
            W = Parser(ctx)
            E, P, st, p = W.E, W.P, W.st, W.p0
            W.statements()
            st.pc.append(p + 1 < W.n)
            ctx.cover(E, st.clone(), "one", W.text(p) == strconst(words[0]))
            for s, o in ctx.call(E, st, one(P, re.escape(TG + "::" + fn) + r"\(.*\)$"), [W.this, W.cell], own=False):
                some = z3.Or(*[W.text(p) == strconst(k) for k in words])
                if o[0] != "ret":
                    ctx.require(E, s, z3.Or(W.refused(s), z3.Not(some)), "word: refused only if it starts nothing")
                    continue
                ctx.require(E, s, some, "word: starts something")
                for k in words:
                    ctx.require(E, s, z3.Implies(W.text(p) == strconst(k), z3.And(E.addr(s, o[1]) == W.node("process_" + k, p + 1), W.at(s) == W.nxt("process_" + k, p + 1))), "word: %s starts its statement" % k)
        us.append(Unit("choice of " + fn[8:], TG + "::" + fn, run))

    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        W.statements()
        loop = ctx.sym("loop", z3.BoolSort())
        no = z3.BoolVal(False)
        name = W.is_(p, "IDENTIFIER")
        asg = W.part(W.L.cat, p + 1) == W.L.num("c", "Assignment")
        S = "process_scope"
        kinds = [(W.is_(p, "BRACKET_CURLY_OPEN"), W.node(S, p, loop, no), W.nxt(S, p, loop, no) + 1, "a block"),
                 (z3.And(name, asg), W.node("process_assignment", p), W.nxt("process_assignment", p), "an assignment"),
                 (z3.And(name, z3.Not(asg)), W.node("process_identifier", p, no), W.nxt("process_identifier", p, no), "a name"),
                 (W.is_(p, "KEYWORD"), W.node("process_keyword", p), W.nxt("process_keyword", p), "a keyword"),
                 (W.is_(p, "PARENTHESIS_OPEN"), W.node("expression", p), W.nxt("expression", p), "an expression"),
                 (W.is_(p, "SEMICOLON"), z3.IntVal(0), p + 1, "nothing")]
        st.pc.append(p + 1 < W.n)
        ctx.cover(E, st.clone(), "a block", kinds[0][0])
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_statement") + r"\(.*\)$"), [W.this, W.cell, z3.If(loop, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))], own=False):
            some = z3.Or(*[k[0] for k in kinds])
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(some)), "statement: refused only if it is none")
                continue
            ctx.require(E, s, some, "statement: is one")
            for c, x, q, lab in kinds:
                ctx.require(E, s, z3.Implies(c, z3.And(E.addr(s, o[1]) == x, W.at(s) == q)), "statement: " + lab)
    us.append(Unit("choice of statement", TG + "::process_statement", run))
    return us


def ternary_unit():
    def run(ctx):
        W = Parser(ctx, inline=("processTernaryOperator",))
        E, P, st, p = W.E, W.P, W.st, W.p0
        base = z3.Int("base")
        st.pc.append(base > 0)
        short = W.is_(p + 1, "COLON")
        mid = z3.If(short, p + 1, W.nxt("expression", p + 1))
        first = z3.If(short, base, W.node("expression", p + 1))
        second = W.node("expression", mid + 1)
        ok = z3.And(W.is_(mid, "COLON"), f_rtype(f_tree(first)) == f_rtype(f_tree(second)))
        st.pc += [p + 1 < W.n, mid + 1 < W.n]
        ctx.cover(E, st.clone(), "a short one", short)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::processTernaryOperator") + r"\(.*\)$"), [W.this, W.cell, SPtr(base)], own=False):
            if o[0] != "ret":
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(ok)), "choice between two: refused only if written otherwise")
                continue
            ctx.require(E, s, ok, "choice between two: both are of the same type")
            if not isinstance(o[1], Ptr):
                ctx.require(E, s, False, "choice between two: is a node of its own")
                continue
            ctx.require(E, s, W.field(s, o[1], "Expression", "mExpressionType", ir.I32) == P.enum(AST + "Expression::ExpressionType::E")["TernaryExpression"], "choice between two: is of its kind")
            for f, v in (("mCondition", base), ("mFirst", first), ("mSecond", second)):
                ctx.require(E, s, E.addr(s, W.field(s, o[1], "TernaryExpression", f)) == v, "choice between two: its " + f[1:].lower())
            ctx.require(E, s, W.field(s, o[1], "Expression", "mResultType", Str) == f_rtype(f_tree(first)), "choice between two: its type")
            ctx.require(E, s, W.at(s) == W.nxt("expression", mid + 1), "choice between two: reading goes on after it")
    return [Unit("choice between two", TG + "::processTernaryOperator", run)]


class Listed:
    """nodes collected while tokens are read: how many, and which, when reading has come to token q"""

    def __init__(self, W, name, size=8):
        self.W = W
        self.i = skolem()                                 # any place in the list
        self.n, self.a = z3.Function(name + ".n", IntS, IntS), z3.Function(name + ".at", IntS, z3.ArraySort(IntS, IntS))

    def grows(self, q, q2, x, cond=None):
        """definition: x is added between q and q2"""
        add = z3.And(self.n(q2) == self.n(q) + 1, self.a(q2) == z3.Store(self.a(q), self.n(q), x))
        return add if cond is None else z3.If(cond, add, self.kept(q, q2))

    def kept(self, q, q2):
        return z3.And(self.n(q2) == self.n(q), self.a(q2) == self.a(q))

    def empty(self, q):
        return self.n(q) == 0

    def has(self, x, q):
        return z3.Implies(z3.And(self.i >= 0, self.i < self.n(q)), z3.Select(x, self.i) == z3.Select(self.a(q), self.i))


def placed(W, L, define, values=(), end=None):
    """loop invariants: what has been collected follows from the tokens read"""
    def cand(E, st0, cur, hv, fr, getv):
        out = []
        ks = [k for k in hv if k[0] != "ghost"]
        for k in ks:
            it = getv(k)
            if not isinstance(it, It) or it.rid != W.list:
                continue
            q = it.pos
            cur.pc.append(define(q))
            out.append(("place %s" % (k,), z3.And(q >= W.p0, q <= (W.n if end is None else end))))
            out.append(("many %s" % (k,), L.n(q) >= 0))
            for k2 in ks:
                i2 = getv(k2)
                if k2 != k and isinstance(i2, It) and i2.rid == W.list:
                    out.append(("next %s %s" % (k, k2), i2.pos == q + 1))
            for e in ks:
                v = getv(e)
                if isinstance(v, SeqV) and v.esize == 8:
                    out.append(("listed n %s %s" % (k, e), v.n == L.n(q)))
                    out.append(("listed %s %s" % (k, e), L.has(E.field_arr(v, 0, IntS), q)))
                elif isinstance(v, (SPtr, Ptr)):
                    for f in values:
                        out.append(("value %s %s" % (k, e), E.addr(cur, v) == f(q)))
        return out
    W.E.cand_hooks.append(cand)


def seq_unit():
    """a block: its statements in the order written"""
    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        W.statements()
        W.to_end = True
        L = Listed(W, "statements")
        S, no = "process_statement", z3.BoolVal(False)
        end = z3.Int("end")
        st.pc += [end >= p, end <= W.n, L.empty(p)]
        more = lambda q: z3.And(q != end, z3.Not(W.is_(q, "ENDOFFILE")))

        def define(q):
            d = z3.Implies(more(q), z3.And(W.nxt(S, q, no) <= end, L.grows(q, W.nxt(S, q, no), W.node(S, q, no), W.node(S, q, no) != 0)))
            E.lazy[d.get_id()] = d
            return d
        placed(W, L, define, end=end)
        fn = one(P, re.escape(TG + "::process") + r"\(std::_List_const_iterator<Slang::Token>&, .*\)$")
        ctx.cover(E, st.clone(), "a statement", more(p))
        for s, o in ctx.call(E, st, fn, [W.this, W.cell, It(W.list, 0, pos=end)], own=False):
            if o[0] != "ret":
                ctx.require(E, s, W.refused(s), "block: refused only if a statement is")
                continue
            q = W.at(s)
            s.pc.append(define(q))
            ctx.require(E, s, z3.Not(more(q)), "block: is read to its end")
            x = o[1]
            if isinstance(x, Ptr) and x.rid != 0:
                c = E.container(s, E.padd(x, P.field(AST + "Statements", "mNodes")), "list", cinfo(E, "list", ["Slang::AST::Node*"]))
                ctx.require(E, s, W.field(s, x, "Statement", "mStatementType", ir.I32) == P.enum(AST + "Statement::StatementType::E")["Statements"], "block: is a block")
                ctx.require(E, s, z3.And(c.n == L.n(q), L.n(q) >= 1), "block: has all its statements")
                ctx.require(E, s, L.has(E.field_arr(c, 0, IntS), q), "block: in the order written")
            else:
                ctx.require(E, s, z3.And(E.addr(s, x) == 0, L.n(q) == 0), "block: nothing if it has no statements")
    return [Unit("block", TG + "::process", run)]


def named(W, cls, f, *fields):
    """a new node of a list goes by the parts it was made of: no two of them are made of the same"""
    E, P = W.E, W.P
    for d, ns in P.bydem.items():
        if not re.match(re.escape(AST + cls + "::" + cls) + r"\(Slang::Token", d):
            continue
        for s in ns:
            def ctor(E, st, a, ins, s=s):
                E.inlined.add(s)
                out = []
                for s2, o in E.run(st, P.lookup(s), a, 1):
                    if o[0] == "ret":
                        s2.pc.append(E.addr(s2, a[0]) == f(*[E.addr(s2, W.field(s2, a[0], cls, x)) for x in fields]))
                    out.append((s2, o))
                return out
            E.contracts[s] = ctor


def collected(ctx, W, s, x, cls, field, elem, L, q, k):
    E = W.E
    c = E.container(s, E.padd(x, W.P.field(AST + cls, field)), "list", cinfo(E, "list", [AST + elem + "*"]))
    ctx.require(E, s, c.n == L.n(q), k + ": has all its branches")
    ctx.require(E, s, L.has(E.field_arr(c, 0, IntS), q), k + ": in the order written")


def is_kind(ctx, W, s, x, cls, k):
    if not isinstance(x, Ptr):
        ctx.require(W.E, s, False, k + ": is its own statement")
        return False
    ctx.require(W.E, s, W.field(s, x, "Statement", "mStatementType", ir.I32) == W.P.enum(AST + "Statement::StatementType::E")[cls], k + ": is of its kind")
    return True


def switch_unit():
    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        W.statements()
        L = Listed(W, "cases")
        yes, case = z3.BoolVal(True), z3.Function("case.node", IntS, IntS, IntS)
        named(W, "CaseStatement", case, "mCaseExpression", "mCaseBlock")
        other = z3.Function("default.node", IntS, IntS)
        word = lambda q, t: z3.And(W.is_(q, "KEYWORD"), W.text(q) == strconst(t))
        X = lambda q: W.nxt("expression", q)
        B = lambda q: W.nxt("process_scope", q, yes, yes)
        block = lambda q: W.node("process_scope", q, yes, yes)
        close = lambda q: W.is_(q, "BRACKET_CURLY_CLOSE")
        p1 = X(p + 1)
        p2 = p1 + 2                                   # the first branch
        head = z3.And(W.is_(p, "PARENTHESIS_OPEN"), W.is_(p1, "PARENTHESIS_CLOSE"), W.is_(p1 + 1, "BRACKET_CURLY_OPEN"))
        st.pc += [p2 < W.n, L.empty(p2), other(p2) == 0]

        def define(q):
            c = B(X(q + 1) + 1) + 1
            o = B(q + 2) + 1
            d = z3.And(
                z3.Implies(z3.Not(close(q)), q + 2 < W.n),             # the source does not end within a statement
                z3.Implies(word(q, "case"), z3.And(X(q + 1) + 1 < W.n, c < W.n, L.grows(q, c, case(W.node("expression", q + 1), block(X(q + 1) + 1))), other(c) == other(q))),
                z3.Implies(word(q, "default"), z3.And(o < W.n, L.kept(q, o), other(o) == block(q + 2))))
            E.lazy[d.get_id()] = d
            return d
        placed(W, L, define, values=(other,))
        ctx.cover(E, st.clone(), "one", head)
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_switch") + r"\(.*\)$"), [W.this, W.cell], own=False):
            q = W.at(s)
            if o[0] != "ret":
                l = s.ghost.get("last", -1)
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(head),
                                        z3.Not(z3.Or(word(q, "case"), word(q, "default"), close(q))),
                                        z3.And(word(q, "default"), other(q) != 0),
                                        z3.And(word(q - 1, "default"), z3.Not(W.is_(q, "COLON"))),
                                        z3.And(word(l - 1, "case"), q == X(l), z3.Not(W.is_(q, "COLON"))),
                                        z3.And(q == B(l), z3.Not(close(q)))), "switch: refused only if written otherwise")
                continue
            ctx.require(E, s, z3.And(head, close(q - 1)), "switch: accepted only as it is to be written")
            x = o[1]
            if is_kind(ctx, W, s, x, "SwitchStatement", "switch"):
                ctx.require(E, s, E.addr(s, W.field(s, x, "SwitchStatement", "mExpression")) == W.node("expression", p + 1), "switch: its value")
                ctx.require(E, s, E.addr(s, W.field(s, x, "SwitchStatement", "mDefaultStatement")) == other(q - 1), "switch: its default")
                collected(ctx, W, s, x, "SwitchStatement", "mCaseStatements", "CaseStatement", L, q - 1, "switch")
    return [Unit("form of switch", TG + "::process_switch", run)]


def try_unit():
    def run(ctx):
        W = Parser(ctx)
        E, P, st, p = W.E, W.P, W.st, W.p0
        W.statements()
        nothing = lambda E, st, a, i: [(st, ("ret", a[0]))]
        W.on(re.escape(TG + "::process_type") + r"\(.*\)", lambda E, st, a, i: W.sub("process_type", a[1], st))

        def prepare(E, st, a, i):
            bad = st.clone()
            bad.ghost["err"] = 1                      # no such type
            return E.throw(bad, EXC_TI) + [(st, ("ret", None))]
        W.on(r"Slang::Repository::prepareType\(.*\)", prepare)
        W.on(r"Slang::PrototypeConstraints::~?PrototypeConstraints\(.*\)", nothing)
        # which exceptions a method may still throw is decided elsewhere
        W.on(r"std::set<std::string, .*>::erase\(std::string const&\)", lambda E, st, a, i: [(st, ("ret", z3.BitVecVal(0, 64)))])
        W.on(r"void std::set<std::string, .*>::insert<.*>\(.*\)", lambda E, st, a, i: [(st, ("ret", None))])
        L = Listed(W, "catches")
        no, catch = z3.BoolVal(False), z3.Function("catch.node", IntS, IntS, IntS)
        named(W, "CatchStatement", catch, "mTypeDeclaration", "mStatements")
        final = z3.Function("finally.node", IntS, IntS)
        at = z3.Function("catch.block", IntS, IntS)
        kind = z3.Function("catch.type", IntS, IntS)
        word = lambda q, t: W.text(q) == strconst(t)
        T = lambda q: W.nxt("process_type", q)
        B = lambda q: W.nxt("process_scope", q, no, no)
        block = lambda q: W.node("process_scope", q, no, no)
        close = lambda q: W.is_(q, "BRACKET_CURLY_CLOSE")
        p1 = B(p) + 1
        st.pc += [L.empty(p1), final(p1) == 0]

        def define(q):
            c, f = B(at(q)) + 1, B(q + 1) + 1
            d = z3.Implies(q < W.n, z3.And(
                at(q) == z3.If(W.is_(q + 1, "PARENTHESIS_OPEN"), T(q + 2) + 1, q + 1),
                kind(q) == z3.If(W.is_(q + 1, "PARENTHESIS_OPEN"), W.node("process_type", q + 2), 0),
                z3.Implies(word(q, "catch"), z3.And(at(q) < W.n, c <= W.n, q + 2 < W.n, L.grows(q, c, catch(kind(q), block(at(q)))), final(c) == final(q))),
                z3.Implies(word(q, "finally"), z3.And(q + 1 < W.n, f <= W.n, L.kept(q, f), final(f) == block(q + 1)))))
            E.lazy[d.get_id()] = d
            return d
        placed(W, L, define, values=(final,))
        ctx.cover(E, st.clone(), "one", W.is_(p, "BRACKET_CURLY_OPEN"))
        for s, o in ctx.call(E, st, one(P, re.escape(TG + "::process_try") + r"\(.*\)$"), [W.this, W.cell], own=False):
            q = W.at(s)
            if o[0] != "ret":
                l = s.ghost.get("last", -1)
                ctx.require(E, s, z3.Or(W.refused(s), z3.Not(W.is_(p, "BRACKET_CURLY_OPEN")), z3.Not(close(q)),
                                        z3.And(word(q + 1, "finally"), final(q + 1) != 0),
                                        z3.And(l >= 2, word(l - 2, "catch"), z3.Not(W.is_(T(l), "PARENTHESIS_CLOSE")))), "try: refused only if written otherwise")
                continue
            ctx.require(E, s, z3.And(W.is_(p, "BRACKET_CURLY_OPEN"), close(q - 1)), "try: accepted only as it is to be written")
            ctx.require(E, s, z3.Or(q >= W.n, z3.Not(z3.Or(word(q, "catch"), word(q, "finally")))), "try: all its branches are read")
            ctx.require(E, s, s.ghost["scopes"] == 0, "try: names it declares end with it")
            x = o[1]
            if is_kind(ctx, W, s, x, "TryStatement", "try"):
                ctx.require(E, s, E.addr(s, W.field(s, x, "TryStatement", "mTryBlock")) == block(p), "try: its block")
                ctx.require(E, s, E.addr(s, W.field(s, x, "TryStatement", "mFinallyBlock")) == final(q), "try: its finally block")
                collected(ctx, W, s, x, "TryStatement", "mCatchStatements", "CatchStatement", L, q, "try")
    return [Unit("form of try", TG + "::process_try", run)]
