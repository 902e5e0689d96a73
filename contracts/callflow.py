"""Method calls in the interpreter: evaluating and passing arguments, the frame of a call, its parameters and its result."""
import z3
from .interp import *
from .stmts import NodeSpec, ExprSpec, LInfo
from engine.stl import cinfo
from .calls import Lists, METHOD, PARAM, opaque

f_ref = z3.Function("reference", Val, z3.BitVecSort(32))
f_deref = z3.Function("object_at", z3.BitVecSort(32), Val)
f_target = z3.Function("called_method", IntS, IntS)
METHSYM = "Slang::MethodSymbol"
EXT = "Slang::Extensions::ExtensionMethod"


class CallWorld(World):
    """additionally: contracts of what a call is made of"""

    def install(self):
        World.install(self)
        E, P = self.E, self.P
        C = E.contracts
        self.S = Lists(E)
        N = re.escape

        def on(rx, fn, must=True):
            ss = [s for d, ns in P.bydem.items() if re.fullmatch(rx, d) for s in ns]
            if not ss and must:
                raise SpecError("no function matching %s" % rx)
            for s in ss:
                if s not in self.inline:
                    C[s] = fn
        for k, fn in (("execute", self.c_execute), ("initialize", self.c_initialize)):
            if k not in self.inline:
                on(N(TI + k) + r"\(.*\)", lambda E, st, a, i, fn=fn: self.each(fn, st, a))
        on(N(TI + "resolveMethod") + r"\(.*\) const", lambda E, st, a, i: self.each(self.c_method, st, a))
        on(N(TI + "getEnclosingMethodScope") + r"\(.*\) const", lambda E, st, a, i: self.c_enclosing(st, a))
        on(r"Slang::Runtime::Object::getReference\(\) const", lambda E, st, a, i: self.c_refof(st, a))
        on(r"Slang::Parameter::CreateRuntime\(.*\)", lambda E, st, a, i: self.c_parameter(st, a))
        on(r"Slang::Parameter::~Parameter\(\)", lambda E, st, a, i: self.ret(st), must=False)
        L = r"(?:auto |void |\S+& )?std::(?:__cxx11::)?list<%s, std::allocator<%s ?> ?>::"
        p, o = PARAM, OBJ
        push = r"(?:push_back|emplace_back)(?:<.*>)?\(.*\)"
        on(L % (p, p) + push, lambda E, st, a, i: self.each(self.c_pass, st, a))
        on(L % (o, o) + push, lambda E, st, a, i: self.c_room(st, a))
        M = N(METHOD)
        on(M + r"::Method\(" + M + r" const&, bool\)", lambda E, st, a, i: self.each(self.c_copymethod, st, a))
        on(M + r"::~Method\(\)", lambda E, st, a, i: self.ret(st))
        on(M + r"::mergeParameters\(.*\) const", lambda E, st, a, i: self.each(self.c_merge, st, a))
        on(N(OBJ) + r"::Constructor\(.*\)", lambda E, st, a, i: self.each(self.c_construct, st, a))
        on(r"Slang::Memory::get\(.*\)(?: const)?", lambda E, st, a, i: self.c_memget(st, a))
        on(r"Slang::\S+::setMutability\(.*\)", lambda E, st, a, i: self.c_mutability(st, a))
        on(r"Slang::Thread::exception\(Slang::Runtime::ExceptionData\)", lambda E, st, a, i: self.c_excdata(st, a))
        on(r"Slang::Runtime::ExceptionData::ExceptionData\(Slang::Runtime::Object\*,.*\)", lambda E, st, a, i: self.c_newexc(st, a))
        on(r"Slang::Runtime::ExceptionData::operator=\(Slang::Runtime::ExceptionData(?: const&|&&)\)", lambda E, st, a, i: self.c_copyexc(st, a), must=False)
        on(r"Slang::Runtime::ExceptionData::ExceptionData\(Slang::Runtime::ExceptionData(?: const&|&&)\)", lambda E, st, a, i: self.c_copyexc(st, a), must=False)
        on(r"Slang::Runtime::ExceptionData::~ExceptionData\(\)", lambda E, st, a, i: self.ret(st), must=False)
        opaque(E, [r"Slang::AST::\w+::toString\(\) const$", r"Slang::.*::getFullScopeName\(\) const$"])
        self.o_data = P.field("Slang::Runtime::ExceptionData", "mData")

    # ---------------------------------------------------------------- helpers
    def region(self, st, p):
        p = self.E.resolve_ptr(st, p) if isinstance(p, SPtr) else p
        return p.rid if isinstance(p, Ptr) else None

    def put(self, st, p, off, v, t):
        self.E.store(st, self.E.padd(p, off), v, t)

    # ---------------------------------------------------------------- contracts
    def c_newexc(self, st, a):
        self.put(st, a[0], self.o_data, a[1], ir.PTR)
        return [(st, ("ret", None))]

    def c_copyexc(self, st, a):
        self.put(st, a[0], self.o_data, self.E.load(st, self.E.padd(a[1], self.o_data), ir.PTR), ir.PTR)
        return [(st, ("ret", a[0]))]

    def c_excdata(self, st, a):
        self.E.store(st, Ptr(self.thread, self.o_exc), self.E.load(st, self.E.padd(a[1], self.o_data), ir.PTR), ir.PTR)
        return [(st, ("ret", None))]

    def c_refof(self, st, a):
        rid = st.new("heap", name="reference")
        st.w(rid).cells[0] = (f_ref(self.val(st, a[-1])), 4)
        if len(a) == 2:
            self.E.store(st, a[0], f_ref(self.val(st, a[-1])), I32)
            return [(st, ("ret", None))]
        return [(st, ("ret", Ptr(rid, 0)))]

    def refarg(self, st, x):
        """a reference passed by value: its number or the place it is stored at"""
        return to_bv(x, 32) if not isinstance(x, (Ptr, SPtr, EPtr)) else to_bv(self.E.load(st, x, I32), 32)

    def c_parameter(self, st, a):
        S = self.S
        w = self.region(st, a[0])
        st.ghost[("note", "param", w)] = (self.E.get_str(st, a[1]), self.aval(st, a[2]), self.refarg(st, a[3]))
        return [(st, ("ret", None))]

    def c_pass(self, st, a):
        """one more argument is passed"""
        g = st.ghost.get(("note", "param", self.region(st, a[1])))
        if g is None or len(a) != 2:
            raise Unsupported("argument that was not made by Parameter::CreateRuntime")
        c = self.E.container(st, a[0], "list", self.S.info)
        out = []
        for s in self.spec.on_pass(st, *g):
            self.E.set_container(s, a[0], c.with_(n=z3.simplify(c.n + 1)))
            out.append((s, ("ret", NULL)))
        return out

    def c_room(self, st, a):
        """a place for one more temporary object"""
        if len(a) != 1:
            raise Unsupported("temporary object made from another one")
        c = self.E.container(st, a[0], "list", LInfo(self.L.size))
        arr = self.E.field_arr(c, self.L.value, Val)
        c = c.with_(n=z3.simplify(c.n + 1), fields=dict(c.fields, **{}) | {self.L.value: z3.Store(arr, c.end, v_none)})
        self.E.set_container(st, a[0], c)
        return [(st, ("ret", EPtr(a[0], z3.simplify(c.end - 1), 0) if False else NULL))]

    def c_enclosing(self, st, a):
        x = ufn("enclosing_methods", IntS, IntS)(self.E.addr(st, a[1]))
        st.assume(x >= 0)
        return [(st, ("ret", SPtr(x)))]

    def c_method(self, st, a):
        """this, scope, name, arguments, visibility -> the method found or none"""
        E, P = self.E, self.P
        out = self.thrown(st)
        out = out if not isinstance(out, tuple) else [out]
        for s in self.spec.on_lookup(st, a[1], a[2], a[3]):
            if not E.feasible(s):
                continue
            n = s.clone()
            for s2 in self.spec.not_found(n):
                out.append((s2, ("ret", NULL)))
            for cls, ext in ((METHOD, 0), (EXT, 1)):
                m = s.clone()
                rid = E.sym_region(m, fresh_name("method"), cls=[P.ti(cls)], size=P.class_size(METHOD))
                m.w(rid).cells[P.field(METHOD, "mIsExtensionMethod")] = (z3.BitVecVal(ext, 8), 1)
                for s2 in self.spec.found(m, Ptr(rid, 0), ext):
                    out.append((s2, ("ret", Ptr(rid, P.base_offset(METHOD, METHSYM)))))
        return out

    def flows(self, st, res):
        """a call ran: every way it can end"""
        out = []
        for e in self.cf:
            s = st.clone()
            self.havoc(s)
            if res is not None and not self.E.decide(s, self.peq(s, res, NULL)):
                self.setval(s, res, z3.Const(fresh_name("r"), Val))
            self.setflow(s, e)
            if e == "Throw":
                self.newexc(s)
            out.append((s, e))
        return out

    def c_execute(self, st, a):
        out = []
        for s0 in self.spec.on_call(st, a[1], a[2], a[3], a[4]):
            for s, e in self.flows(s0, a[4]):
                for s2 in self.spec.call_post(s, e, self.val(s, a[4])):
                    out.append((s2, ("ret", z3.BitVecVal(self.cf[e], 32))))
            s = s0.clone()
            self.havoc(s)
            out += self.thrown(s)
        return out

    def c_construct(self, st, a):
        out = []
        for s0 in self.spec.on_construct(st, a[0], a[1]):
            for s, e in self.flows(s0, None):
                for s2 in self.spec.call_post(s, e, self.val(s, a[0])):
                    out.append((s2, ("ret", z3.BitVecVal(self.cf[e], 32))))
            s = s0.clone()
            self.havoc(s)
            out += self.thrown(s)
        return out

    def c_extension(self, st, a):
        out = []
        for s0 in self.spec.on_extension(st, a[0], a[1], a[2]):
            s = s0.clone()
            v = z3.Const(fresh_name("r"), Val)
            self.setval(s, a[2], v)
            for s2 in self.spec.call_post(s, "Normal", v):
                out.append((s2, ("ret", z3.BitVecVal(self.cf["Normal"], 32))))
            s = s0.clone()
            for s2 in self.spec.call_post(s, "Throw", v_none):
                out += self.E.throw(s2, EXC_TI)
        return out

    def vhook(self, E, st, sc, slot, args, ins, depth, fr, impls):
        names = {re.sub(r"\(.*", "", E.P.demangle(n)).split("::")[-1] for n in impls}
        if names == {"execute"} and len(args) == 3:
            return self.each(self.c_extension, st, args)
        p = args[0]
        if isinstance(p, Ptr) and self.P.ti(EXT) in (st.mem[p.rid].classes or ()) and len(args) == 3 and not impls:
            return self.each(self.c_extension, st, args)
        if names == {"what"}:
            rid = st.new("heap", base=fresh_name("what"), name="what")
            return [(st, ("ret", Ptr(rid, 0)))]
        return World.vhook(self, E, st, sc, slot, args, ins, depth, fr, impls)

    def c_copymethod(self, st, a):
        out = []
        for s in self.spec.on_copymethod(st, a[0], a[1]):
            out.append((s, ("ret", None)))
        return out

    def c_merge(self, st, a):
        out = self.thrown(st)
        for s in self.spec.on_merge(st, a[0], a[1], a[2]):
            self.S.fresh(s, self.region(s, a[0]), a[0].off, fresh_name("bound"))
            out.append((s, ("ret", None)))
        return out

    def c_initialize(self, st, a):
        E, P = self.E, self.P
        out = self.thrown(st)
        for s in self.spec.on_initialize(st, a[1], a[2]):
            f = E.sym_region(s, fresh_name("callframe"), size=P.class_size("Slang::StackFrame"))
            s.w(f).cells[self.o_stack] = (SeqV(fresh_name("callscopes"), z3.IntVal(1), kind="list", esize=16, lv=cinfo(E, "list", ["Slang::StackFrame::Scope"]).lv), 24)
            n = z3.IntVal(1)
            s.w(f).cells[P.field("Slang::StackFrame", "mTokenStack")] = (SeqV(fresh_name("calltokens"), n, kind="list", esize=24, lv=None), 24)
            c = E.container(s, Ptr(self.thread, self.o_frames))
            arr = E.field_arr(c, 0, IntS)
            c = c.with_(n=z3.simplify(c.n + 1), fields=dict(c.fields) | {0: z3.Store(arr, c.end, E.addr(s, Ptr(f, 0)))})
            s.w(self.thread).cells[self.o_frames] = (c, 24)
            st_ = s.w(self.this).cells
            st_[self.o_frame] = (Ptr(f, 0), 8)
            s.ghost["callframe"] = f
            cst = self.stack(s, f)
            i = z3.simplify(cst.end - 1)
            allow = P.field("Slang::StackFrame::Scope", "mAllowDelete")
            s.assume(z3.Select(E.field_arr(cst, allow, z3.BitVecSort(8)), i) == 0)
            out.append((s, ("ret", None)))
        return out

    def c_memget(self, st, a):
        rid = self.fresh_obj(st, "target")
        self.setval(st, Ptr(rid, 0), f_deref(self.refarg(st, a[1])))
        return [(st, ("ret", Ptr(rid, 0)))]

    def c_mutability(self, st, a):
        r = self.region(st, self.E.padd(a[0], 0))
        out = self.thrown(st)
        st.ghost[("note", "mut", r)] = to_bv(a[1], 32)
        return out + [(st, ("ret", None))]


class ArgSpec(ExprSpec):
    """arguments are evaluated left to right, each once, and passed with type, value and reference"""

    def begin(self, st):
        st.ghost["k"] = z3.IntVal(0)
        st.ghost["v"] = v_none
        st.ghost["x"] = v_none

        def cand(E, st0, cur, hv, fr, getv):
            # as many arguments in a list as have been passed
            if ("ghost", "k") not in hv:
                return []
            return [("passed %s" % (k,), getv(k).n == getv(("ghost", "k"))) for k in hv if isinstance(getv(k), SeqV)]
        self.W.E.cand_hooks.append(cand)
        return [st]

    def nodes(self, st):
        return self.W.E.container(st, Ptr(self.margs, self.W.off("MethodExpression", "mParams")), "list", LInfo(8))

    def nth(self, st, k):
        c = self.nodes(st)
        return self.W.E.ptr_from(st, z3.simplify(z3.Select(self.W.E.field_arr(c, 0, IntS), c.lo + k)))

    def eval_pre(self, st, name, node, res, a):
        W = self.W
        if self.q(st) != "start":
            return self.bad(st, "arguments are evaluated before the call")
        k = st.ghost["k"]
        ok = W.need(st, "flow", k < self.nodes(st).n, "%s: only its own arguments are evaluated" % self.fn)
        ok = ok and W.need(st, "flow", W.peq(st, node, self.nth(st, k)), "%s: arguments are evaluated left to right, each once" % self.fn)
        return [st] if ok else []

    def eval_post(self, st, name, node, res, v):
        st.ghost["v"] = v
        return self.go(st, "pass")

    def on_pass(self, st, type, value, ref):
        W = self.W
        if self.q(st) != "pass":
            return self.bad(st, "every evaluated argument is passed once")
        v = st.ghost["v"]
        ok = W.need(st, "flow", type == f_outer(v), "%s: an argument is passed with its type" % self.fn)
        ok = ok and W.need(st, "flow", value == v, "%s: an argument is passed with its value" % self.fn)
        ok = ok and W.need(st, "flow", ref == f_ref(v), "%s: an argument is passed with its reference" % self.fn)
        if not ok:
            return []
        st.ghost["k"] = z3.simplify(st.ghost["k"] + 1)
        return self.go(st, "start")

    def all_passed(self, st, args):
        W = self.W
        ok = self.q(st) in ("start", "again", "found") or self.bad(st, "arguments are passed before the call")
        ok = ok and W.need(st, "flow", st.ghost["k"] == self.nodes(st).n, "%s: every argument is passed" % self.fn)
        c = W.E.container(st, args)
        return ok and W.need(st, "flow", c.n == st.ghost["k"], "%s: all arguments and nothing else are passed" % self.fn)

    def call_post(self, st, e, v):
        st.ghost["x"] = v
        return self.go(st, "raised", e) if e in ("Throw", "ExitProgram") else self.go(st, "called")

    def done(self, st, v):
        if self.W.need(st, "flow", self.q(st) == "called", "%s: the method is called" % self.fn):
            self.result(st, st.ghost["x"], "its value is the one the method returned")


class CallSpec(ArgSpec):
    fn, cls = "method call", "MethodExpression"

    @property
    def margs(self):
        return self.W.n

    def on_lookup(self, st, scope, name, args):
        W = self.W
        q = self.q(st)
        if not self.all_passed(st, args):
            return []
        ok = self.is_(st, name, "mSymbolExpression", "the called name is looked up")
        top = W.topptr(st)
        if q == "start":
            ok = ok and W.need(st, "flow", W.peq(st, scope, top), "method call: the name is looked up from the innermost scope")
        elif q == "again":
            x = ufn("enclosing_methods", IntS, IntS)(W.E.addr(st, top))
            ok = ok and W.need(st, "flow", W.E.addr(st, scope) == x, "method call: then from the scope holding the methods")
        else:
            return self.bad(st, "looks the name up once more")
        return [st] if ok else []

    def not_found(self, st):
        return self.go(st, "again") if self.q(st) == "start" else self.go(st, "raised", "Throw")

    def found(self, st, m, ext):
        st.ghost["method"] = m
        st.ghost["ext"] = ext
        return self.go(st, "found")

    def same_call(self, st, m, args, res):
        W = self.W
        if self.q(st) != "found":
            return self.bad(st, "one method is called, the one found")
        ok = self.all_passed(st, args)
        ok = ok and W.need(st, "flow", W.peq(st, m, st.ghost["method"]), "method call: the method found is called")
        return ok and W.need(st, "flow", W.peq(st, res, Ptr(W.res, 0)), "method call: the result goes to the requested place")

    def on_call(self, st, self_, m, args, res):
        W = self.W
        if not self.same_call(st, m, args, res):
            return []
        E = W.E
        par = E.load(st, E.padd(st.ghost["method"], W.P.field(METHOD, "mParent")), ir.PTR)
        p = E.resolve_ptr(st, par) if isinstance(par, SPtr) and E.decide(st, E.icmp(st, "ne", par, NULL)) else par
        none = isinstance(self_, Ptr) and self_.rid == 0
        if none:
            other = isinstance(p, Ptr) and p.rid and not any(W.P.derives(c, W.P.ti(OBJ)) for c in st.mem[p.rid].classes or [W.P.ti(OBJ)])
            ok = z3.Or(E.icmp(st, "eq", par, NULL), z3.BoolVal(bool(other)))
        else:
            ok = E.addr(st, self_) + W.o_iscope == E.addr(st, par)
        if not W.need(st, "flow", ok, "method call: it is called on the object it belongs to"):
            return []
        return [st] if W.need(st, "flow", st.ghost["ext"] == 0, "method call: a method written in the language is interpreted") else []

    def on_extension(self, st, m, args, res):
        return [st] if self.same_call(st, m, args, res) else []

    def exit_raise(self, st, e):
        ExprSpec.exit_raise(self, st, e)


class NewSpec(ArgSpec):
    fn, cls = "new expression", "NewExpression"

    @property
    def margs(self):
        return self.W.inner

    def on_create(self, st, p, a):
        W = self.W
        if self.q(st) != "start":
            return self.bad(st, "one object is created")
        st.ghost["made"] = W.val(st, p)
        st.ghost["madetype"] = W.E.get_str(st, a[1])
        return [st]

    def on_construct(self, st, obj, args):
        W = self.W
        if not self.all_passed(st, args):
            return []
        ok = W.need(st, "flow", W.peq(st, obj, Ptr(W.res, 0)), "new expression: the constructor of the new object is called")
        ok = ok and W.need(st, "value", W.val(st, obj) == st.ghost.get("made", v_none), "new expression: the result refers to the new object")
        return [st] if ok else []

    def may_fail(self, st, ti):
        return True


class ExecSpec(NodeSpec):
    """execute: a call runs the method's statements once in a frame of its own, with its parameters, and hands over the returned value"""
    fn = "method execution"

    def begin(self, st):
        st.ghost["rv"] = v_none
        st.ghost["res0"] = self.W.val(st, Ptr(self.W.res, 0))
        return [st]

    def on_copymethod(self, st, dst, src):
        W = self.W
        if self.q(st) != "start" or not W.need(st, "flow", W.peq(st, src, Ptr(W.m, 0)), "method execution: the scope of the call is that of the method"):
            return self.bad(st, "one scope per call")
        st.ghost["scope"] = W.region(st, dst)
        return self.go(st, "scope")

    def on_define(self, st, scope, name, sym):
        W = self.W
        ok = self.q(st) == "scope" or self.bad(st, "defines no other variable")
        if not ok:
            return []
        st.ghost["this"] = 1
        ok = W.need(st, "flow", W.E.get_str(st, name) == strconst("this"), "method execution: defines nothing but `this`")
        ok = ok and W.need(st, "flow", W.E.addr(st, sym) == W.self_ + W.o_symbol, "method execution: `this` is the object the method is called on")
        return [st] if ok else []

    def on_merge(self, st, dst, m, args):
        W = self.W
        if self.q(st) != "scope":
            return self.bad(st, "parameters are bound once")
        ok = W.need(st, "flow", W.peq(st, m, Ptr(W.m, 0)), "method execution: parameters are bound by the called method")
        ok = ok and W.need(st, "flow", W.peq(st, args, Ptr(W.args, 0)), "method execution: the passed arguments are bound")
        st.ghost["merged"] = W.region(st, dst)
        return self.go(st, "merged") if ok else []

    def on_initialize(self, st, scope, params):
        W = self.W
        if self.q(st) != "merged":
            return self.bad(st, "the frame of the call is set up once, with bound parameters")
        ok = W.need(st, "flow", W.region(st, scope) == st.ghost["scope"], "method execution: parameters live in the scope of the call")
        ok = ok and W.need(st, "flow", W.region(st, params) == st.ghost["merged"], "method execution: the bound parameters are defined")
        ok = ok and W.need(st, "flow", W.self_ == 0 if not st.ghost.get("this") else z3.BoolVal(True), "method execution: `this` is defined")
        return self.go(st, "ready") if ok else []

    def exec_pre(self, st, name, node):
        W = self.W
        if self.q(st) != "ready":
            return self.bad(st, "the statements of the method run once, inside its frame")
        return [st] if W.need(st, "flow", W.peq(st, node, W.root(st)), "method execution: the method's own statements run") else []

    def exec_null(self, st, name, node):
        return self.ran(st, "Normal")

    def exec_post(self, st, name, node, e, rv):
        return self.ran(st, e)

    def ran(self, st, e):
        W = self.W
        st.ghost["rv"] = W.val(st, Ptr(st.ghost["callframe"], W.o_retval))
        st.ghost["res0"] = W.val(st, Ptr(W.res, 0))
        return self.go(st, "ran", e)

    def done(self, st, v):
        W = self.W
        if not W.need(st, "flow", self.q(st) == "ran", "method execution: the method's statements run"):
            return
        W.need(st, "flow", to_iv(v).t == st.ghost["want"], "method execution: reports how the statements ended")
        void = W.type == strconst("void")
        now = W.val(st, Ptr(W.res, 0))
        W.need(st, "value", z3.Implies(z3.And(W.res_given, z3.Not(void)), now == st.ghost["rv"]), "method execution: the result is the returned value")
        W.need(st, "value", z3.Implies(void, now == st.ghost["res0"]), "method execution: a method without value leaves the result alone")

    def may_fail(self, st, ti):
        return z3.Or(self.W.mptr == 0, self.W.abstract)


class InitSpec(NodeSpec):
    """initialize: every named parameter becomes a variable of the call's scope, in a new frame"""
    fn = "parameters"

    def begin(self, st):
        W = self.W
        self.f_next = z3.Function("next_named", IntS, IntS)
        c, S = W.params, W.S
        i = z3.Int("i!named")
        nm = z3.Select(W.E.field_arr(c, S.name, Str), i)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c.n), self.f_next(i) == z3.If(nm == EMPTY, self.f_next(i + 1), i)), patterns=[nm]))
        st.assume(self.f_next(c.n) == c.n)
        st.ghost["g"] = self.f_next(z3.IntVal(0))

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            if ("ghost", "g") not in hv:
                return out
            g = getv(("ghost", "g"))
            for k in hv:
                v = getv(k)
                if isinstance(v, It):
                    out.append(("next parameter at %s" % (k,), g == self.f_next(v.pos)))
            return out
        W.E.cand_hooks.append(cand)
        return [st]

    def on_create(self, st, p, a):
        st.ghost[("note", "made", p.rid)] = self.W.E.get_str(st, a[1])
        return [st]

    def on_define(self, st, scope, name, sym):
        W, S = self.W, self.W.S
        E = W.E
        c = W.params
        g = st.ghost["g"]
        o = W.sym_obj(st, sym)
        r = W.region(st, o)
        at = lambda off: z3.Select(E.field_arr(c, off, S.sort[off]), g)
        ok = W.need(st, "flow", g < c.n, "parameters: only the declared ones are defined")
        ok = ok and W.need(st, "flow", E.icmp(st, "eq", scope, Ptr(W.scope, 0)), "parameters: defined in the scope of the call")
        ok = ok and W.need(st, "flow", E.get_str(st, name) == at(S.name), "parameters: every named one is defined once, in order")
        t = st.ghost.get(("note", "made", r))
        ok = ok and W.need(st, "flow", t is not None and t == at(S.type), "parameters: a variable of the declared type")
        m = st.ghost.get(("note", "mut", r))
        ok = ok and W.need(st, "flow", m is not None and m == at(S.mut), "parameters: constant or not as declared")
        ref = at(S.ref)
        val = z3.Select(E.field_arr(c, S.vstr, Val), g)
        ok = ok and W.need(st, "value", W.val(st, o) == z3.If(ref != 0, f_deref(ref), val), "parameters: the value is the one passed")
        if not ok:
            return []
        st.ghost["g"] = self.f_next(z3.simplify(g + 1))
        return [st]

    def done(self, st, v):
        W, E, P = self.W, self.W.E, self.W.P
        W.need(st, "flow", st.ghost["g"] == W.params.n, "parameters: every named one is defined")
        c = E.container(st, Ptr(W.thread, W.o_frames))
        W.need(st, "flow", c.n == W.frames0.n + 1, "parameters: one more call frame")
        top = E.ptr_from(st, z3.simplify(z3.Select(E.field_arr(c, 0, IntS), c.end - 1)))
        W.need(st, "flow", W.peq(st, E.load(st, Ptr(W.this, W.o_frame), ir.PTR), top), "parameters: the new frame is the current one")
        s = E.container(st, E.padd(top, W.o_stack))
        W.need(st, "flow", s.n == 1, "parameters: the new frame has one scope")
        W.need(st, "flow", z3.Select(E.field_arr(s, W.o_scope, IntS), s.end - 1) == E.addr(st, Ptr(W.scope, 0)), "parameters: the new frame's scope is that of the call")


def world_unit(fn, spec, make, name=None, inline=(), aspects=("flow", "value"), expect=("ret",), timeout=240):
    def run(ctx):
        sp = spec()
        W = CallWorld(ctx, sp, set(aspects), inline=inline)
        a = make(W, sp, W.st)
        ctx.cover(W.E, W.st.clone(), "precondition of " + sp.fn)
        seen = set()
        for s in sp.begin(W.st):
            if W.E.feasible(s):
                W.run(fn, a, s)
                seen |= W.seen
        miss = [e for e in expect if e not in seen]
        if miss:
            raise SpecError("%s: no path ends in %s" % (fn, miss))
    return Unit(name or fn, TI + fn, run, case="every call", timeout=timeout)


def call_setup(W, sp, st):
    W.n = W.node("MethodExpression")
    W.res = W.obj("result")
    return [Ptr(W.this, 0), Ptr(W.n, 0), Ptr(W.res, 0)]


def new_setup(W, sp, st):
    W.n = W.node("NewExpression")
    W.inner = W.node("MethodExpression", "inner")
    st.w(W.n).cells[W.off("NewExpression", "mExpression")] = (Ptr(W.inner, 0), 8)
    W.res = W.obj("result")
    return [Ptr(W.this, 0), Ptr(W.n, 0), Ptr(W.res, 0)]


def exec_setup(W, sp, st):
    P, E = W.P, W.E
    W.m = E.sym_region(st, "method", cls=[P.ti(METHOD)], size=P.class_size(METHOD))
    W.args = E.sym_region(st, "args")
    W.res = W.obj("result")
    W.selfobj = W.obj("self")
    W.mptr = z3.IntVal(1)
    W.self_ = E.addr(st, Ptr(W.selfobj, 0))
    W.res_given = z3.BoolVal(True)
    W.root = lambda s: E.load(s, Ptr(W.m, P.field(METHOD, "mRootNode")), ir.PTR)
    W.type = E.get_str(st, Ptr(W.m, P.field(METHOD, "mReturnType") + P.field("Slang::Common::TypeDeclaration", "mCombinedName")))
    W.abstract = to_bv(E.load(st, Ptr(W.m, P.base_offset(METHOD, METHSYM) + P.base_offset(METHSYM, "Slang::MethodAttributes")
                                      + P.field("Slang::MethodAttributes", "mMemoryLayout")), I32), 32) == P.enum("Slang::MemoryLayout::E")["Abstract"]
    return [Ptr(W.this, 0), Ptr(W.selfobj, 0), Ptr(W.m, 0), Ptr(W.args, 0), Ptr(W.res, 0)]


def free_setup(W, sp, st):
    """a call without object and without a place for the result"""
    a = exec_setup(W, sp, st)
    W.self_ = z3.IntVal(0)
    W.res_given = z3.BoolVal(False)
    a[1] = a[4] = NULL
    return a


def init_setup(W, sp, st):
    P, E = W.P, W.E
    W.scope = E.sym_region(st, "callscope", cls=[P.ti(METHOD)], size=P.class_size(METHOD))
    pl = E.sym_region(st, "params")
    W.params = W.S.fresh(st, pl, 0, "params")
    return [Ptr(W.this, 0), Ptr(W.scope, 0), Ptr(pl, 0)]


def call_units(aspects):
    A = dict(aspects=aspects)
    RR = ("ret", "raise")
    u = {"call": world_unit("evaluateMethodExpression", CallSpec, call_setup, expect=RR, inline=("evaluateMethodExpression",), **A),
         "new": world_unit("evaluateNewExpression", NewSpec, new_setup, expect=RR, inline=("evaluateNewExpression",), **A),
         "execute": world_unit("execute", ExecSpec, exec_setup, name="execute on an object", inline=("execute",), **A),
         "execute free": world_unit("execute", ExecSpec, free_setup, name="execute without object", inline=("execute",), **A)}
    if "flow" in aspects:
        u["initialize"] = world_unit("initialize", InitSpec, init_setup, inline=("initialize",), aspects=set(aspects) - {"balance"})
    return u
