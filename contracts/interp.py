"""Contracts of the statement and expression interpreter.

Language values are abstract here (sort Val): what an operator computes is the business of the operator contracts;
these contracts say which parts are evaluated, in which order, with which values, how control leaves and
that the scope and frame stacks are left as found.  Every function is specified by a monitor over the calls
it makes (evaluate, execute, operators, ...) plus a condition on its exit; a sub-evaluation is represented by the
contract of `evaluate`, a sub-statement by the contract of `visit`.
"""
import re
import z3
from engine.sem import *
from engine.sem import Obl
from engine.vals import *
from engine.verify import Unit, SpecError
from engine import ir
from .objects import lay, OBJ

Val = z3.DeclareSort("Val")
I32 = ir.IntT(32)
v_none = z3.Const("v_none", Val)
truth = z3.Function("truth", Val, z3.BoolSort())
v_bool = z3.Function("v_bool", z3.BoolSort(), Val)
v_str = z3.Function("v_str", Str, Val)
f_text = z3.Function("text", Val, Str)
f_type = z3.Function("typename", Val, Str)
f_outer = z3.Function("outerface", Val, Str)
f_inst = z3.Function("instanceof", Val, Str, z3.BoolSort())
f_tag = z3.Function("tag", Val, z3.BitVecSort(32))
f_cast = z3.Function("cast", Val, Str, Val)
_fns = {}

TI = "Slang::AST::TreeInterpreter::"
CF_TI = "_ZTIN5Slang7Runtime11ControlFlow1EE"
EXC_TI = "_ZTIN5Slang6Common10Exceptions9ExceptionE"

EVAL = ["evaluate", "evaluateAssignmentExpression", "evaluateBinaryExpression", "evaluateBooleanBinaryExpression",
        "evaluateCopyExpression", "evaluateIsExpression", "evaluateLiteral", "evaluateMethodExpression", "evaluateNewExpression",
        "evaluateScopeExpression", "evaluateStringEvalExpression", "evaluateSymbolExpression", "evaluateTernaryExpression",
        "evaluateTypeCastExpression", "evaluateTypeidExpression", "evaluateUnaryExpression"]
EXEC = ["process", "visit", "visitAssert", "visitAssignment", "visitBreak", "visitContinue", "visitDelete", "visitExit",
        "visitExpression", "visitFor", "visitForeach", "visitIf", "visitOperator", "visitPrint", "visitReturn", "visitStatement",
        "visitStatements", "visitSwitch", "visitThrow", "visitTry", "visitTypeDeclaration", "visitTypeInference", "visitWhile"]
BINOPS = ["bitand", "bitcomplement", "bitor", "plus", "divide", "modulo", "multiply", "subtract", "shift_left", "shift_right"]
CMPOPS = ["equal", "greater", "greater_equal", "less", "less_equal"]
UNOPS = ["decrement", "increment", "minus", "not", "plus", "validate"]


def ufn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fns:
        _fns[k] = z3.Function(name, *sorts)
    return _fns[k]


def op2(name, a, b):
    return ufn("op_" + name, Val, Val, Val)(a, b)


def cmp2(name, a, b):
    return ufn("cmp_" + name, Val, Val, z3.BoolSort())(a, b)


def op1(name, a):
    return ufn("un_" + name, Val, Val)(a)


class World:
    """interpreter state of one unit and the contracts of everything the function under proof calls"""

    def __init__(self, ctx, spec, aspects, inline=()):
        self.ctx, self.P, self.spec, self.aspects = ctx, ctx.P, spec, aspects
        P = self.P
        self.L = lay(P)
        self.cf = P.enum("Slang::Runtime::ControlFlow::E")
        self.E = ctx.engine()
        self.inline = set(inline)
        self.names = {}
        spec.W = self
        f = lambda c, n: P.field("Slang::" + c, n)
        T = "AST::TreeInterpreter"
        self.o_cf, self.o_frame, self.o_thread = f(T, "mControlFlow"), f(T, "mFrame"), f(T, "mThread")
        self.o_mem, self.o_repo, self.o_dbg = f(T, "mMemory"), f(T, "mRepository"), f(T, "mDebugger")
        self.o_stack = f("StackFrame", "mScopeStack")
        self.o_retval = f("StackFrame", "mReturnValue")
        self.o_exc = f("Thread", "mExceptionData") + P.field("Slang::Runtime::ExceptionData", "mData")
        self.o_frames = f("Thread", "mStackFrames")
        self.o_scope = f("StackFrame::Scope", "mScope")
        self.o_iscope = P.base_offset(OBJ, "Slang::IScope")
        self.o_symbol = P.base_offset(OBJ, "Slang::Symbol")
        self.install()
        self.setup()

    # ---------------------------------------------------------------- state
    def setup(self):
        E, P = self.E, self.P
        st = self.st = State(E)
        self.this = E.sym_region(st, "interp", size=P.class_size("Slang::AST::TreeInterpreter"))
        self.frame = E.sym_region(st, "frame", size=P.class_size("Slang::StackFrame"))
        self.thread = E.sym_region(st, "thread", size=P.class_size("Slang::Thread"))
        self.repo = E.sym_region(st, "repository")
        self.memory = E.sym_region(st, "memory")
        w = st.w(self.this)
        w.cells[self.o_cf] = (z3.BitVecVal(self.cf["Normal"], 32), 4)
        for off, rid in ((self.o_frame, self.frame), (self.o_thread, self.thread), (self.o_repo, self.repo), (self.o_mem, self.memory)):
            w.cells[off] = (Ptr(rid, 0), 8)
        n = z3.Int("scopes")
        st.assume(z3.And(n >= 1, n < 1 << 30))
        self.scopes0 = SeqV("scopes", n, kind="list", esize=16, lv=None)
        st.w(self.frame).cells[self.o_stack] = (self.scopes0, 24)
        st.assume(z3.Select(z3.Const("scopes.f%d" % self.o_scope, z3.ArraySort(IntS, IntS)), n - 1) > 0)
        m = z3.Int("frames")
        st.assume(z3.And(m >= 1, m < 1 << 30))
        fr = SeqV("frames", m, kind="list", esize=8, lv=None)
        fr = fr.with_(fields={0: z3.Store(z3.Const("frames.f0", z3.ArraySort(IntS, IntS)), m - 1, E.addr(st, Ptr(self.frame, 0)))})
        self.frames0 = fr
        st.w(self.thread).cells[self.o_frames] = (fr, 24)
        st.ghost["q"] = self.qid("start")
        st.ghost["err"] = 0
        st.ghost["want"] = z3.IntVal(self.cf["Normal"])

    def qid(self, name):
        """monitor states are small integers in the ghost state"""
        return self.names.setdefault(name, len(self.names))

    def qname(self, i):
        return next(k for k, v in self.names.items() if v == i)

    def states(self, st):
        """states with a definite monitor state"""
        q = st.ghost["q"]
        if isinstance(q, int):
            return [st]
        out = []
        for i in sorted(self.names.values()):
            if self.E.feasible(st, q == i):
                s = st.clone()
                s.assume(q == i)
                s.ghost["q"] = i
                out.append(s)
        return out

    def node(self, cls, name="node", st=None):
        """a syntax tree node of the given class"""
        st = st or self.st
        P = self.P
        q = "Slang::AST::" + cls
        rid = self.E.sym_region(st, name, cls=[P.ti(q)], size=P.class_size(q))
        return rid

    def off(self, cls, field):
        return self.P.field("Slang::AST::" + cls, field)

    def ptr(self, st, rid, cls, field):
        return self.E.load(st, Ptr(rid, self.off(cls, field)), ir.PTR)

    def obj(self, name, st=None):
        st = st or self.st
        return self.E.sym_region(st, name, cls=[self.P.ti(OBJ)], size=self.L.size)

    # ---------------------------------------------------------------- abstract values
    def val(self, st, p):
        """abstract value of the Object at p"""
        return self.aval(st, self.E.padd(p, self.L.value))

    def aval(self, st, p):
        E = self.E
        p = E.resolve_ptr(st, p, "value read")
        if isinstance(p, EPtr):
            c = E.container(st, cloc(p))
            return z3.simplify(z3.Select(E.field_arr(c, p.off, Val), p.idx))
        r = st.mem[p.rid]
        e = r.cells.get(p.off)
        if e is not None and isinstance(e[0], z3.ExprRef) and e[0].sort() == Val:
            return e[0]
        if e is None and r.base is not None:
            v = z3.Const("%s.%d" % (r.base, p.off), Val)
            st.w(p.rid).cells[p.off] = (v, self.L.av_size)
            return v
        if e is not None and isinstance(e[0], StrV):
            # a value built by the code itself from a string
            return v_str(e[0].t)
        raise Unsupported("no abstract value at %s+%d" % (r.name, p.off))

    def setval(self, st, p, v):
        self.setaval(st, self.E.padd(p, self.L.value), v)

    def setaval(self, st, p, v):
        E = self.E
        p = E.resolve_ptr(st, p, "value write")
        if isinstance(p, EPtr):
            return E.estore(st, p, v)
        w = st.w(p.rid)
        E._clear(w, p.off, self.L.av_size)
        w.cells[p.off] = (v, self.L.av_size)

    def strat(self, st, p):
        return self.E.get_str(st, p)

    def excaddr(self, st):
        return self.E.addr(st, self.E.load(st, Ptr(self.thread, self.o_exc), ir.PTR))

    def topptr(self, st):
        """the innermost scope"""
        c = self.stack(st)
        v = z3.simplify(z3.Select(self.E.field_arr(c, self.o_scope, IntS), c.end - 1))
        return self.E.ptr_from(st, v)

    def topobj(self, st):
        """the innermost scope, being an object"""
        return self.E.padd(self.topptr(st), -self.o_iscope)

    def topaddr(self, st):
        return self.E.addr(st, self.topobj(st))

    def sym_obj(self, st, p):
        return self.E.padd(p, -self.o_symbol)

    def flow(self, st):
        return to_bv(self.E.load(st, Ptr(self.this, self.o_cf), I32), 32)

    def setflow(self, st, v):
        if isinstance(v, str):
            v = z3.BitVecVal(self.cf[v], 32)
        self.E.store(st, Ptr(self.this, self.o_cf), v, I32)

    def flowint(self, st):
        return to_iv(self.E.load(st, Ptr(self.this, self.o_cf), I32)).t

    def isflow(self, st, name):
        return self.flowint(st) == self.cf[name]

    def stack(self, st, rid=None):
        return self.E.container(st, Ptr(rid or self.frame, self.o_stack))

    def depth(self, st, rid=None):
        c = self.stack(st, rid)
        return z3.simplify(c.n)

    def need(self, st, aspect, cond, label):
        """obligation of one aspect of the specification (others are proved by the units claiming them)"""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if aspect in self.aspects:
            self.E.oblige(st, cond, "post", label)
        return self.E.feasible(st)

    def c_told(self, st, a, n):
        """the debugger is told where the program is"""
        if "debug" in self.aspects:
            E, P = self.E, self.P
            o = P.field("Slang::Token", "mPosition")
            tok = (E.get_str(st, E.padd(a[2], o + P.field("Slang::Common::Position", "mFile"))),
                   to_bv(E.load(st, E.padd(a[2], o + P.field("Slang::Common::Position", "mLine")), I32), 32))
            st.ghost[("told",)] = st.ghost.get(("told",), ()) + ((n, E.addr(st, a[1])) + tok,)
        return self.ret(st)

    def peq(self, st, a, b):
        return self.E.icmp(st, "eq", a, b)

    def split(self, st, cond):
        """feasible (state, truth) pairs"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        for c, b in ((cond, True), (z3.Not(cond), False)):
            if self.E.feasible(st, c):
                s = st.clone()
                s.assume(c)
                out.append((s, b))
        return out

    def havoc(self, st, res=None, exec_=False):
        """user code ran: everything it can reach changes, the interpreter's own locals do not"""
        E = self.E
        for rid, r in list(st.mem.items()):
            if r.dead or (r.kind == "alloca" and ("escaped", rid) not in st.ghost) or r.kind == "const":
                continue
            for off, (v, sz) in list(r.cells.items()):
                if isinstance(v, z3.ExprRef) and v.sort() == Val and not st.ghost.get(("ast", rid)):
                    if rid == self.frame and not exec_:
                        continue
                    st.w(rid).cells[off] = (z3.Const(fresh_name("v"), Val), sz)
        x = z3.Int(fresh_name("excdata"))
        st.assume(x >= 0)
        E.store(st, Ptr(self.thread, self.o_exc), SPtr(x), ir.PTR)

    def fresh_obj(self, st, name):
        rid = st.new("heap", base=fresh_name(name), name=name, size=self.L.size)
        st.w(rid).classes = frozenset([self.P.ti(OBJ)])
        return rid

    # ---------------------------------------------------------------- contracts
    def install(self):
        E, P = self.E, self.P
        C = E.contracts

        def on(rx, fn, must=True):
            ss = [s for d, ns in P.bydem.items() if re.fullmatch(rx, d) for s in ns]
            if not ss and must:
                raise SpecError("no function matching %s" % rx)
            for s in ss:
                C[s] = fn
        N = re.escape
        O = N("Slang::Runtime::Object")
        for k in EVAL:
            if k not in self.inline:
                on(N(TI + k) + r"\(.*\)", lambda E, st, a, i, k=k: self.each(self.c_eval, st, k, a), must=False)
        for k in EXEC:
            if k not in self.inline:
                on(N(TI + k) + r"\(.*\)", lambda E, st, a, i, k=k: self.each(self.c_exec, st, k, a), must=False)
        on(O + r"::Object\(\)", lambda E, st, a, i: self.ret(st, None, lambda: self.setval(st, a[0], v_none)))
        on(O + r"::Object\(" + O + r" const&\)", lambda E, st, a, i: self.c_copy(st, a))
        on(O + r"::operator=\(" + O + r" const&\)", lambda E, st, a, i: self.c_copy(st, a, asg=True))
        on(O + r"::~Object\(\)", lambda E, st, a, i: self.ret(st))
        T = r"Slang::Runtime::(?:Bool|Double|Float|Int16|Int32|Int64|String|User|Void|Enumeration)Type"
        on(T + r"::~\w+\(\)", lambda E, st, a, i: self.ret(st))
        for k in ("Bool", "Double", "Float", "Int16", "Int32", "Int64", "String"):
            q = r"Slang::Runtime::%sType::%sType" % (k, k)
            on(q + r"\(Slang::Runtime::AtomicValue const&\)", lambda E, st, a, i, k=k: self.ret(
                st, None, lambda: self.setval(st, a[0], ufn("as_" + k, Val, Val)(self.aval(st, a[1])))))
            on(q + r"\(" + O + r" const&\)", lambda E, st, a, i: self.c_copy(st, a), must=False)
        on(N("Slang::Runtime::BoolType::BoolType(bool)"), lambda E, st, a, i: self.ret(
            st, None, lambda: self.setval(st, a[0], v_bool(self.as_bool(a[1])))))
        on(N("Slang::Runtime::StringType::StringType(std::string const&)"), lambda E, st, a, i: self.ret(
            st, None, lambda: self.setval(st, a[0], v_str(E.get_str(st, a[1])))))
        for k, s in (("Int32", "int"), ("Int64", "long"), ("Int16", "short"), ("Float", "float"), ("Double", "double")):
            on(N("Slang::Runtime::%sType::%sType(%s)" % (k, k, s)), lambda E, st, a, i, k=k: self.ret(
                st, None, lambda: self.setval(st, a[0], self.lit(k, a[1]))), must=False)
        on(N("Slang::Runtime::isTrue(") + O + r" const[&*]\)", lambda E, st, a, i: [(st, ("ret", truth(self.val(st, a[0]))))])
        for k in BINOPS:
            on(N("Slang::Runtime::operator_binary_%s(" % k) + r".*\)", lambda E, st, a, i, k=k: self.each(self.c_binop, st, k, a))
        for k in CMPOPS:
            on(N("Slang::Runtime::operator_binary_%s(" % k) + r".*\)", lambda E, st, a, i, k=k: self.each(self.c_cmp, st, k, a))
        for k in UNOPS:
            on(N("Slang::Runtime::operator_unary_%s(" % k) + r".*\)", lambda E, st, a, i, k=k: self.each(self.c_unop, st, k, a))
        on(N("Slang::Runtime::operator_binary_assign(") + r".*\)", lambda E, st, a, i: self.each(self.c_assign, st, a))
        on(N("Slang::Runtime::typecast(") + r".*\)", lambda E, st, a, i: self.c_cast(st, a))
        on(O + r"::getValue\(\) const", lambda E, st, a, i: self.c_getvalue(st, a, i))
        on(O + r"::setValue\(.*\)", lambda E, st, a, i: self.ret(st, None, lambda: self.setval(st, a[0], self.aval(st, a[1]))))
        on(O + r"::assign\(.*\)", lambda E, st, a, i: self.c_copy(st, a))
        on(O + r"::isInstanceOf\(.*\) const", lambda E, st, a, i: self.each(self.c_isinst, st, a))
        on(O + r"::QualifiedTypename\(\) const", lambda E, st, a, i: self.c_name(st, a, f_type))
        on(O + r"::QualifiedOuterface\(\) const", lambda E, st, a, i: self.c_name(st, a, f_outer))
        on(O + r"::getReference\(\) const", lambda E, st, a, i: self.c_getref(st, a, i))
        AV = N("Slang::Runtime::AtomicValue")
        on(AV + r"::AtomicValue\(" + AV + r" const&\)", lambda E, st, a, i: self.c_acopy(st, a))
        on(AV + r"::operator=\(" + AV + r" const&\)", lambda E, st, a, i: self.c_acopy(st, a))
        on(AV + r"::AtomicValue\(std::string\)", lambda E, st, a, i: self.ret(
            st, None, lambda: self.setaval(st, a[0], v_str(E.get_str(st, a[1])))))
        on(AV + r"::~AtomicValue\(\)", lambda E, st, a, i: self.ret(st))
        on(AV + r"::toStdString\(\) const", lambda E, st, a, i: self.ret(
            st, None, lambda: E.set_str(st, a[0], f_text(self.aval(st, a[1])))))
        on(AV + r"::toBool\(\) const", lambda E, st, a, i: [(st, ("ret", truth(self.aval(st, a[0]))))])
        for k in ("notify", "notifyEnter", "notifyExit", "notifyExceptionCatch", "notifyExceptionThrow"):
            on(r"Slang::Core::Debugger::" + k + r"\(.*\)", lambda E, st, a, i, k=k: self.c_told(st, a, k))
        on(r"Slang::Repository::create(Instance|Reference)\(.*\)", lambda E, st, a, i: self.each(self.c_create, st, a))
        on(N("Slang::Thread::exception(Slang::Runtime::Object*, ") + r".*\)", lambda E, st, a, i: self.each(self.c_setexc, st, a))
        on(N(TI + "printExpression") + r"\(.*\) const", lambda E, st, a, i: self.ret(
            st, None, lambda: E.set_str(st, a[0], z3.Const(fresh_name("printed"), Str))))
        on(r"Utils::Printer::Instance\(\)", lambda E, st, a, i: [(st, ("ret", Ptr(self.printer(st), 0)))])
        on(r"Utils::Printer::print\(std::string const&, std::string const&, unsigned int\) const|Utils::Printer::print\(.*\)",
           lambda E, st, a, i: self.each(self.c_print, st, a))
        on(N(TI + "resolveLValue") + r"\(.*\) const", lambda E, st, a, i: self.each(self.c_lvalue, st, a))
        on(r"Slang::StackFrame::pushScope\(.*\)", lambda E, st, a, i: self.c_pushscope(st, a))
        on(AV + r"::type\(\) const", lambda E, st, a, i: [(st, ("ret", f_tag(self.aval(st, a[0]))))])
        on(r"Slang::\S+::setMutability\(.*\)", lambda E, st, a, i: self.thrown(st) + [(st, ("ret", None))])
        on(r"Slang::(MethodScope|SymbolScope)::define\(.*\)", lambda E, st, a, i: self.c_define(st, a))
        on(r"Slang::(MethodScope|SymbolScope)::resolve\(.*\) const", lambda E, st, a, i: self.c_resolve(st, a))
        self.E.virtual_hook = self.vhook

    def each(self, fn, st, *a):
        out = []
        for s in self.states(st):
            out += fn(s, *a)
        return out

    def printer(self, st):
        e = st.ghost.get("printer")
        if e is None:
            e = self.E.sym_region(st, "printer")
            st.ghost["printer"] = e
        return e

    def lit(self, k, v):
        if isinstance(v, IV):
            v = to_bv(v)
        return ufn("lit_" + k, v.sort(), Val)(v)

    def as_bool(self, v):
        if isinstance(v, z3.BoolRef):
            return v
        return z3.simplify(to_bv(v) != 0)

    def ret(self, st, v=None, fx=None):
        if fx:
            fx()
        return [(st, ("ret", v))]

    def local(self, st, p):
        """the object is the function's own result or a local of it"""
        p = self.E.resolve_ptr(st, p) if isinstance(p, SPtr) else p
        return isinstance(p, Ptr) and (p.rid == getattr(self, "res", None) or st.mem[p.rid].kind == "alloca")

    def escaping(self, st, ptr):
        p = self.E.resolve_ptr(st, ptr) if isinstance(ptr, SPtr) else ptr
        if isinstance(p, Ptr) and p.rid and st.mem[p.rid].kind == "alloca":
            st.ghost[("escaped", p.rid)] = True

    def c_pushscope(self, st, a):
        if isinstance(a[1], Ptr):
            self.escaping(st, a[1])
        return None

    def c_copy(self, st, a, asg=False):
        v = self.val(st, a[1])
        r = self.spec.on_copy(st, a[0], a[1], v) if asg else None
        self.setval(st, a[0], v)
        return [(st, ("ret", a[0]))]

    def c_acopy(self, st, a):
        self.setaval(st, a[0], self.aval(st, a[1]))
        return [(st, ("ret", a[0]))]

    def c_getvalue(self, st, a, ins):
        self.setaval(st, a[0], self.val(st, a[1]))
        return [(st, ("ret", None))]

    def c_name(self, st, a, f):
        v = f(self.val(st, a[-1]))
        rid = st.new("heap", name="typename")
        st.w(rid).cells[0] = (StrV(v), 32)
        if len(a) == 2:
            self.E.set_str(st, a[0], v)
            return [(st, ("ret", None))]
        return [(st, ("ret", Ptr(rid, 0)))]

    def c_getref(self, st, a, ins):
        rid = st.new("heap", base=fresh_name("ref"), name="reference")
        return [(st, ("ret", Ptr(rid, 0)))]

    def thrown(self, st):
        """outcome: some runtime error of the implementation"""
        s = st.clone()
        s.ghost["err"] = 1
        return self.E.throw(s, EXC_TI)

    def raised(self, st, e):
        """outcome: the slang program throws / exits inside an expression"""
        rid = st.new("heap", name="control flow")
        st.w(rid).cells[0] = (z3.BitVecVal(self.cf[e], 32), 4)
        return self.E.throw(st, CF_TI, Ptr(rid, 0))

    def c_eval(self, st, name, a):
        E = self.E
        node, res = a[1], a[2]
        spec = self.spec
        if not self.need(st, "flow", self.isflow(st, "Normal"), "%s: an expression is only evaluated in normal control flow" % spec.fn):
            return []
        out = []
        for st in spec.eval_pre(st, name, node, res, a):
            if not E.feasible(st):
                continue
            # value
            s = st.clone()
            self.havoc(s)
            v = z3.Const(fresh_name("e"), Val)
            self.setval(s, res, v)
            for s2 in spec.eval_post(s, name, node, res, v):
                out.append((s2, ("ret", None)))
            for e in ("Throw", "ExitProgram"):
                s = st.clone()
                self.havoc(s)
                self.setval(s, res, z3.Const(fresh_name("e"), Val))
                x = z3.BitVec(fresh_name("cf"), 32)
                s.assume(z3.Or(x == self.cf["Normal"], x == self.cf[e]))
                self.setflow(s, x)
                if e == "Throw":
                    self.newexc(s)
                for s2 in spec.eval_raised(s, name, node, e):
                    out += self.raised(s2, e)
            s = st.clone()
            self.havoc(s)
            out += self.thrown(s)
        return out

    def newexc(self, st):
        x = z3.Int(fresh_name("exc"))
        st.assume(x > 0)
        self.E.store(st, Ptr(self.thread, self.o_exc), SPtr(x), ir.PTR)

    def c_isinst(self, st, a):
        c = f_inst(self.val(st, a[0]), self.E.get_str(st, a[1]))
        out = []
        for s, b in self.spec.on_isinst(st, a[0], self.E.get_str(st, a[1]), c):
            out.append((s, ("ret", z3.BoolVal(b) if isinstance(b, bool) else b)))
        return out

    def c_exec(self, st, name, a):
        E = self.E
        node = a[1]
        spec = self.spec
        isnull = self.peq(st, node, NULL)
        if name != "visitTypeDeclaration" and E.decide(st, isnull):
            return [(s, ("ret", None)) for s in spec.exec_null(st, name, node)]
        if name != "visitTypeDeclaration":
            if not self.need(st, "flow", self.isflow(st, "Normal"), "%s: a statement is only executed in normal control flow" % spec.fn):
                return []
        out = []
        for st in spec.exec_pre(st, name, node):
            if not E.feasible(st):
                continue
            for e in spec.exec_flows(name) or self.cf:
                s = st.clone()
                self.havoc(s, exec_=True)
                rv = None
                if name.startswith("visitType"):
                    if e not in ("Normal", "Throw", "ExitProgram"):
                        continue
                    rv = Ptr(self.fresh_obj(s, "declared"), 0) if e == "Normal" else NULL
                    if e != "Normal":
                        self.setflow(s, e)
                else:
                    self.setflow(s, e)
                if e == "Throw":
                    self.newexc(s)
                for s2 in spec.exec_post(s, name, node, e, rv):
                    out.append((s2, ("ret", rv)))
            s = st.clone()
            self.havoc(s, exec_=True)
            out += self.thrown(s)
        return out

    def c_binop(self, st, k, a):
        x, y = self.val(st, a[0]), self.val(st, a[1])
        out = []
        for s in self.spec.on_op(st, k, a, (x, y)):
            out += self.thrown(s)
            self.setval(s, a[0], op2(k, x, y))
            out.append((s, ("ret", None)))
        return out

    def c_unop(self, st, k, a):
        x = self.val(st, a[0])
        out = []
        for s in self.spec.on_op(st, "unary_" + k, a, (x,)):
            out += self.thrown(s)
            self.setval(s, a[0], op1(k, x))
            out.append((s, ("ret", None)))
        return out

    def c_cmp(self, st, k, a):
        x, y = self.val(st, a[0]), self.val(st, a[1])
        c = cmp2(k, x, y)
        out = []
        for s in self.spec.on_cmp(st, k, a, (x, y)):
            out += self.thrown(s)
            for s2, b in self.split(s, c):
                for s3 in self.spec.cmp_post(s2, k, b):
                    out.append((s3, ("ret", z3.BoolVal(b))))
        return out

    def converted(self, st, dst, v):
        """value of dst after v has been assigned: a variable keeps its type, a temporary takes the value as it is"""
        return v if self.local(st, dst) else ufn("converted", Val, Val, Val)(self.val(st, dst), v)

    def c_assign(self, st, a):
        v = self.val(st, a[1])
        out = []
        for s in self.spec.on_assign(st, a[0], a[1], v):
            out += self.thrown(s)
            self.setval(s, a[0], self.converted(s, a[0], v))
            out.append((s, ("ret", None)))
        return out

    def c_cast(self, st, a):
        v = f_cast(self.val(st, a[0]), self.E.get_str(st, a[1]))
        out = self.thrown(st)
        self.setval(st, a[0], v)
        return out + [(st, ("ret", None))]

    def c_create(self, st, a):
        out = self.thrown(st)
        rid = self.fresh_obj(st, "created")
        for s in self.spec.on_create(st, Ptr(rid, 0), a):
            out.append((s, ("ret", Ptr(rid, 0))))
        return out

    def c_setexc(self, st, a):
        self.E.store(st, Ptr(self.thread, self.o_exc), a[1], ir.PTR)
        out = []
        for s in self.spec.on_setexc(st, a[1]):
            out.append((s, ("ret", None)))
        return out

    def c_print(self, st, a):
        t = self.E.get_str(st, a[1])
        return [(s, ("ret", None)) for s in self.spec.on_print(st, t)]

    def c_lvalue(self, st, a):
        out = self.thrown(st)
        isnull = self.peq(st, a[2], NULL)
        if not self.E.feasible(st, z3.Not(isnull)):
            return out
        st.assume(z3.Not(isnull))
        x = z3.Int(fresh_name("lvalue"))
        rid = self.E.sym_region(st, fresh_name("lvalue"), cls=[self.P.ti(OBJ)], size=self.L.size, addr=x)
        for s in self.spec.on_lvalue(st, Ptr(rid, 0), a[2]):
            out.append((s, ("ret", Ptr(rid, 0))))
        return out

    def vhook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        names = {re.sub(r"\(.*", "", E.P.demangle(n)).split("::")[-1] for n in impls}
        if len(names) == 1 or all(n.startswith("~") for n in names):
            n = next(iter(names)) if len(names) == 1 else "~"
            if n.startswith("~"):
                return [(st, ("ret", None))]
            if n == "define":
                return self.c_define(st, args)
            if n == "resolve":
                return self.c_resolve(st, args)
            if n == "print":
                return self.each(self.c_print, st, args)
        return None

    def c_define(self, st, a):
        return [(s, ("ret", None)) for s0 in self.states(st) for s in self.spec.on_define(s0, a[0], a[1], a[2])]

    def c_resolve(self, st, a):
        x = z3.Int(fresh_name("sym"))
        st.assume(x >= 0)
        return [(s, ("ret", SPtr(x))) for s in self.spec.on_resolve(st, a, x)]

    # ---------------------------------------------------------------- running
    def run(self, fn, args, st=None):
        sym = self.fn_symbol(fn)
        outs = self.ctx.call(self.E, st or self.st, sym, args)
        if not outs:
            raise SpecError("no path through " + fn)
        sp = self.spec
        seen = set()
        for s, o in [(s, o) for s0, o in outs for s in self.states(s0)]:
            if not self.E.feasible(s):
                continue
            kind = o[0]
            if o[0] == "unreachable":
                self.need(s, "flow", False, "%s: ends" % sp.fn)
                continue
            if o[0] == "throw" and o[1] == CF_TI:
                kind = "raise"
                e = self.E.load(s, o[2], I32)
                seen.add("raise")
                self.balanced(s)
                sp.exit_raise(s, to_bv(e, 32))
            elif o[0] == "throw":
                if not s.ghost.get("err"):
                    seen.add("own error")
                    sp.exit_error(s, o[1])
            else:
                seen.add("ret")
                self.balanced(s)
                sp.exit_ret(s, o[1])
        self.seen = seen
        return outs

    def balanced(self, s):
        if "balance" not in self.aspects:
            return
        sp = self.spec
        self.need(s, "balance", self.peq(s, self.E.load(s, Ptr(self.this, self.o_frame), ir.PTR), Ptr(self.frame, 0)),
                  "%s: the current call frame is the same afterwards" % sp.fn)
        self.need(s, "balance", self.depth(s) == self.scopes0.n, "%s: as many scopes afterwards as before" % sp.fn)
        c = self.E.container(s, Ptr(self.thread, self.o_frames))
        self.need(s, "balance", c.n == self.frames0.n, "%s: as many call frames afterwards as before" % sp.fn)

    def fn_symbol(self, fn):
        c = [d for d in self.P.bydem if re.fullmatch(re.escape(TI + fn) + r"\(.*\)( const)?", d)]
        if len(c) != 1:
            raise SpecError("expected one function %s, found %s" % (fn, c))
        return self.P.find(c[0])


class Spec:
    """default monitor: every event that a specification does not mention is not allowed"""
    fn = "?"
    is_eval = False     # may leave by throwing Throw/ExitProgram

    def bad(self, st, what):
        self.W.need(st, "flow", False, "%s: %s" % (self.fn, what))
        return []

    def told(self, st, what, cls="Statement"):
        """the debugger, if there is one, was told exactly once, with the node's token and the current scope"""
        W, E, P = self.W, self.W.E, self.W.P
        if "debug" not in W.aspects:
            return
        g = [x for x in st.ghost.get(("told",), ()) if x[0] == what]
        dbg = E.addr(st, E.load(st, Ptr(W.this, W.o_dbg), ir.PTR))
        W.need(st, "debug", z3.If(dbg != 0, z3.BoolVal(len(g) == 1), z3.BoolVal(len(g) == 0)), "%s: the debugger is told once" % self.fn)
        o = W.off(cls, "mToken") + P.field("Slang::Token", "mPosition")
        f = E.get_str(st, Ptr(W.n, o + P.field("Slang::Common::Position", "mFile")))
        l = to_bv(E.load(st, Ptr(W.n, o + P.field("Slang::Common::Position", "mLine")), I32), 32)
        for n, sc, f2, l2 in g[:1]:
            W.need(st, "debug", z3.And(f == f2, l == l2), "%s: the debugger is told file and line" % self.fn)
            W.need(st, "debug", sc == E.addr(st, W.topptr(st)), "%s: the debugger is told the current scope" % self.fn)

    def q(self, st):
        return self.W.qname(st.ghost["q"])

    def go(self, st, q, want=None):
        st.ghost["q"] = self.W.qid(q)
        if want is not None:
            st.ghost["want"] = z3.IntVal(self.W.cf[want])
        return [st]

    def goexec(self, st, q, node, null):
        """next is the execution of node; nothing to do when there is none"""
        out = []
        for s, isnull in self.W.split(st, self.W.peq(st, node, NULL)):
            out += null(s) if isnull else self.go(s, q)
        return out

    def eval_pre(self, st, name, node, res, a):
        return self.bad(st, "evaluates nothing else")

    def eval_post(self, st, name, node, res, v):
        return [st]

    def eval_raised(self, st, name, node, e):
        """an evaluated part throws or exits: that is how this function has to end"""
        return self.go(st, "raised", e)

    def exec_pre(self, st, name, node):
        return self.bad(st, "executes nothing else")

    def exec_post(self, st, name, node, e, rv):
        return [st]

    def exec_null(self, st, name, node):
        return [st]

    def on_op(self, st, k, a, vals):
        return self.bad(st, "applies no other operator")

    def on_cmp(self, st, k, a, vals):
        return self.bad(st, "applies no other comparison")

    def cmp_post(self, st, k, b):
        return [st]

    def on_assign(self, st, dst, src, v):
        W = self.W
        if not W.local(st, dst):
            return self.bad(st, "assigns nothing else")
        return [st]

    def on_copy(self, st, dst, src, v):
        return [st]

    def on_create(self, st, p, a):
        return [st]

    def on_setexc(self, st, p):
        return self.bad(st, "throws no exception of its own")

    def on_print(self, st, t):
        return self.bad(st, "prints nothing else")

    def on_lvalue(self, st, p, sym):
        return [st]

    def on_isinst(self, st, p, name, c):
        return [(st, c)]

    def exec_flows(self, name):
        """control flows a part can end with (all unless the syntax excludes some)"""
        return None

    def on_define(self, st, scope, name, sym):
        return self.bad(st, "defines no other variable")

    def on_resolve(self, st, a, x):
        return [st]

    # ---- exits
    def exit_ret(self, st, v):
        W = self.W
        if self.is_eval:
            if not W.need(st, "flow", self.q(st) != "raised", "%s: a thrown exception or exit inside is passed on" % self.fn):
                return
            W.need(st, "flow", W.isflow(st, "Normal"), "%s: control flow is normal after a value was computed" % self.fn)
            self.done(st, v)
            return
        self.done(st, v)
        W.need(st, "flow", W.flowint(st) == st.ghost["want"], "%s: control flow afterwards is the one the executed parts left" % self.fn)

    def exit_raise(self, st, e):
        W = self.W
        if not self.is_eval:
            W.need(st, "flow", False, "%s: no control flow exception leaves a statement" % self.fn)
            return
        if W.need(st, "flow", self.q(st) == "raised", "%s: throws or exits only if a part of it did" % self.fn):
            W.need(st, "flow", to_iv(e).t == st.ghost["want"], "%s: passes on the same control flow" % self.fn)

    def exit_error(self, st, ti):
        self.W.need(st, "flow", self.may_fail(st, ti), "%s: raises no error of its own" % self.fn)

    def may_fail(self, st, ti):
        return False

    def done(self, st, v):
        """everything that has to happen did happen when the function returns"""
        pass
