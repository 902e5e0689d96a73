"""The call stack: frames of a thread, scopes of a frame."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .ops import as_bool
from .values import one
from .text import room

SF = "Slang::StackFrame"
SC = "Slang::StackFrame::Scope"
TH = "Slang::Thread"
THS = "Slang::Threads"
MANY = 1 << 30


class Stack:
    """a list seen as a stack of records"""

    def __init__(self, E, st, rid, off, elem, name, fields):
        self.E, self.rid, self.off = E, rid, off
        self.info = cinfo(E, "list", [elem])
        self.fields = fields            # offset -> sort
        n = z3.Int(name + ".depth")
        st.pc.append(z3.And(n >= 0, n < MANY))
        self.c0 = SeqV(name, n, kind="list", esize=self.info.esize, lv=self.info.lv)
        st.w(rid).cells[off] = (self.c0, E.CSIZE["list"])

    def now(self, s):
        return self.E.container(s, Ptr(self.rid, self.off))

    def at(self, c, f, i):
        return z3.Select(self.E.field_arr(c, f, self.fields[f]), c.lo + i)

    def below(self, s, n):
        """the lowest n records are what they were"""
        c, i = self.now(s), z3.Int(fresh_name("i"))
        return z3.And(*[z3.Implies(z3.And(i >= 0, i < n), self.at(c, f, i) == self.at(self.c0, f, i)) for f in self.fields])

    def same(self, s):
        return z3.And(self.now(s).n == self.c0.n, self.below(s, self.c0.n))


def fields(P):
    return {P.field(SC, "mScope"): IntS, P.field(SC, "mAllowDelete"): z3.BitVecSort(8), P.field(SC, "mAllowBreakAndContinue"): z3.BitVecSort(8)}


class Frame:
    def __init__(self, ctx, E, st, name="frame", addr=None):
        P = self.P = ctx.P
        self.rid = E.sym_region(st, name, size=P.class_size(SF), addr=addr)
        self.scopes = Stack(E, st, self.rid, P.field(SF, "mScopeStack"), SC, name + ".scopes", fields(P))
        self.oscope, self.odel, self.obrk = list(fields(P))
        n = z3.Int(name + ".tokenlists")
        st.pc.append(z3.And(n >= 0, n < MANY))
        self.otok = P.field(SF, "mTokenStack")
        self.tok0 = SeqV(name + ".tokens", n, kind="list", esize=24, lv=cinfo(E, "list", ["std::list<Slang::Token, std::allocator<Slang::Token> >"]).lv)
        st.w(self.rid).cells[self.otok] = (self.tok0, E.CSIZE["list"])

    def tokens(self, E, s):
        return E.container(s, Ptr(self.rid, self.otok))


def watch_delete(E, P):
    """objects destroyed by the code under proof, in order"""
    def hook(E, s, sc, slot, args, ins, depth, fr, impls):
        d = [P.dem.get(i, "") for i in impls or []]
        if d and all(re.search(r"::~\w+\(\)$", x) for x in d):
            s.ghost[("gone",)] = s.ghost.get(("gone",), ()) + (E.addr(s, args[0]),)
            return [(s, ("ret", None))]
        return None
    E.virtual_hook = hook


def gone(s):
    return s.ghost.get(("gone",), ())


def bit(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def flag8(x):
    return z3.Extract(0, 0, x) == 1


def frame_units():
    def push(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        F = Frame(ctx, E, st)
        S = F.scopes
        x, d, b = z3.Int("scope"), z3.Bool("deletable"), z3.Bool("breakable")
        st.pc.append(x > 0)
        ctx.cover(E, st.clone(), "scopes below", S.c0.n > 1)
        for s, o in ctx.call(E, st, one(P, SF + r"::pushScope\(.*\)$"), [Ptr(F.rid, 0), SPtr(x), bit(d), bit(b)]):
            ctx.require(E, s, o[0] == "ret", "entering a scope: ends normally")
            if o[0] != "ret":
                continue
            c = S.now(s)
            ctx.require(E, s, c.n == S.c0.n + 1, "entering a scope: one scope more")
            ctx.require(E, s, S.below(s, S.c0.n), "entering a scope: the scopes below are kept")
            ctx.require(E, s, S.at(c, F.oscope, S.c0.n) == x, "entering a scope: it is the innermost one")
            ctx.require(E, s, z3.And(flag8(S.at(c, F.odel, S.c0.n)) == d, flag8(S.at(c, F.obrk, S.c0.n)) == b), "entering a scope: with the given rights")

    def pop(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        F = Frame(ctx, E, st)
        S = F.scopes
        st.pc.append(S.c0.n >= 1)
        top = S.c0.n - 1
        x, d = S.at(S.c0, F.oscope, top), S.at(S.c0, F.odel, top)
        st.pc.append(x > 0)
        st.pc.append(z3.Or(d == 0, d == 1))
        watch_delete(E, P)
        ctx.cover(E, st.clone(), "owned scope", d == 1)
        for s, o in ctx.call(E, st, one(P, SF + r"::popScope\(\)$"), [Ptr(F.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "leaving a scope: ends normally")
            if o[0] != "ret":
                continue
            c = S.now(s)
            ctx.require(E, s, c.n == top, "leaving a scope: one scope less")
            ctx.require(E, s, S.below(s, top), "leaving a scope: the scopes below are kept")
            g = gone(s)
            if g:
                ctx.require(E, s, z3.And(len(g) == 1, g[0] == x, d == 1), "leaving a scope: only an owned one is destroyed, once")
            else:
                ctx.require(E, s, d == 0, "leaving a scope: an owned one is destroyed")

    def current(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        F = Frame(ctx, E, st)
        S = F.scopes
        st.pc.append(S.c0.n >= 1)
        top = S.c0.n - 1
        for s, o in ctx.call(E, st.clone(), one(P, SF + r"::getScope\(\) const$"), [Ptr(F.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "current scope: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, E.addr(s, o[1]) == S.at(S.c0, F.oscope, top), "current scope: the one entered last")
                ctx.require(E, s, S.same(s), "current scope: asking changes nothing")
        for s, o in ctx.call(E, st.clone(), one(P, SF + r"::allowBreakAndContinue\(\) const$"), [Ptr(F.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "current scope: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, as_bool(o[1]) == flag8(S.at(S.c0, F.obrk, top)), "current scope: break and continue are allowed as stated when it was entered")

    def make(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        level, x = z3.BitVec("level", 64), z3.Int("scope")
        st.pc.append(z3.And(x > 0, z3.ULT(level, 1 << 32)))
        L = cinfo(E, "list", ["Slang::Parameter"])
        r = E.sym_region(st, "params")
        n = z3.Int("params.count")
        st.pc.append(z3.And(n >= 0, n < MANY))
        st.w(r).cells[0] = (SeqV("params", n, kind="list", esize=L.esize, lv=L.lv), E.CSIZE["list"])
        no_object(E, P)
        this = room(E, st)
        for s, o in ctx.call(E, st, one(P, SF + r"::StackFrame\(.*\)$"), [this, level, SPtr(x), Ptr(r, 0)]):
            ctx.require(E, s, o[0] == "ret", "new frame: ends normally")
            if o[0] != "ret":
                continue
            f = lambda n: E.padd(this, P.field(SF, n))
            ctx.require(E, s, to_bv(E.load(s, f("mLevel"), ir.I32), 32) == z3.Extract(31, 0, level), "new frame: its depth")
            ctx.require(E, s, E.addr(s, E.load(s, f("mScope"), ir.PTR)) == x, "new frame: its method")
            ctx.require(E, s, E.container(s, f("mScopeStack"), "list", cinfo(E, "list", [SC])).n == 0, "new frame: no scope entered")
            ctx.require(E, s, E.container(s, f("mParameters"), "list", L).n == n, "new frame: its parameters")
    return [Unit("StackFrame::pushScope", SF + "::pushScope", push), Unit("StackFrame::popScope", SF + "::popScope", pop),
            Unit("StackFrame::getScope", SF + "::getScope", current), Unit("StackFrame::StackFrame", SF + "::StackFrame", make)]


def no_object(E, P):
    """the frame's return value is an object of its own; building and ending it is its contract"""
    for d in ("Slang::Runtime::Object::Object()", "Slang::Runtime::Object::~Object()"):
        E.contracts[P.find(d)] = lambda E, s, a, i: [(s, ("ret", None))]


class Calls:
    """a thread with any number of frames"""

    def __init__(self, ctx):
        P = self.P = ctx.P
        E = self.E = ctx.engine()
        st = self.st = State(E)
        self.rid = E.sym_region(st, "thread", size=P.class_size(TH))
        self.stack = Stack(E, st, self.rid, P.field(TH, "mStackFrames"), SF + "*", "frames", {0: IntS})
        no_object(E, P)


def thread_units():
    def push(ctx):
        P = ctx.P
        C = Calls(ctx)
        E, st, S = C.E, C.st, C.stack
        x = z3.Int("scope")
        st.pc.append(x > 0)
        t, p = E.sym_region(st, "tokens"), E.sym_region(st, "params")
        L = cinfo(E, "list", ["Slang::Parameter"])
        T = cinfo(E, "list", ["Slang::Token"])
        for r, i, nm in ((t, T, "tok"), (p, L, "par")):
            n = z3.Int(nm + ".count")
            st.pc.append(z3.And(n >= 0, n < MANY))
            st.w(r).cells[0] = (SeqV(nm, n, kind="list", esize=i.esize, lv=i.lv), E.CSIZE["list"])
        ctx.cover(E, st.clone(), "frames below", S.c0.n > 1)
        for s, o in ctx.call(E, st, one(P, TH + r"::pushFrame\(.*\)$"), [Ptr(C.rid, 0), SPtr(x), Ptr(t, 0), Ptr(p, 0)]):
            ctx.require(E, s, o[0] == "ret", "entering a method: ends normally")
            if o[0] != "ret":
                continue
            c = S.now(s)
            ctx.require(E, s, c.n == S.c0.n + 1, "entering a method: one frame more")
            ctx.require(E, s, S.below(s, S.c0.n), "entering a method: the callers' frames are kept")
            new = z3.simplify(S.at(c, 0, S.c0.n))
            f = E.resolve_ptr(s, SPtr(new))
            if not isinstance(f, Ptr):
                raise SpecError("the new frame is not an object created by the call")
            i = z3.Int(fresh_name("i"))
            ctx.require(E, s, s.mem[f.rid].kind == "heap", "entering a method: it gets a frame of its own")
            at = lambda n: E.padd(f, P.field(SF, n))
            ctx.require(E, s, to_bv(E.load(s, at("mLevel"), ir.I32), 32) == z3.Int2BV(S.c0.n, 32), "entering a method: the frame's number is its depth")
            ctx.require(E, s, E.addr(s, E.load(s, at("mScope"), ir.PTR)) == x, "entering a method: the frame belongs to it")
            sc = E.container(s, at("mScopeStack"), "list", cinfo(E, "list", [SC]))
            osc, odel, obrk = list(fields(P))
            g = lambda off, so: z3.Select(E.field_arr(sc, off, so), sc.lo)
            ctx.require(E, s, z3.And(sc.n == 1, g(osc, IntS) == x), "entering a method: its scope is the only one entered")
            ctx.require(E, s, z3.Not(flag8(g(odel, z3.BitVecSort(8)))), "entering a method: the caller keeps its scope")
            ctx.require(E, s, z3.Not(flag8(g(obrk, z3.BitVecSort(8)))), "entering a method: it cannot be left by break or continue")
            ctx.require(E, s, E.container(s, at("mTokenStack"), "list", cinfo(E, "list", ["std::list<Slang::Token, std::allocator<Slang::Token> >"])).n == 1, "entering a method: its code")

    def pop(ctx):
        P = ctx.P
        C = Calls(ctx)
        E, st, S = C.E, C.st, C.stack
        st.pc.append(S.c0.n >= 1)
        top = S.at(S.c0, 0, S.c0.n - 1)
        F = Frame(ctx, E, st, "top", addr=top)
        K = F.scopes
        st.pc.append(z3.And(K.c0.n >= 1, F.tok0.n >= 1))
        d = K.at(K.c0, F.odel, K.c0.n - 1)
        st.pc.append(d == 0)
        watch_delete(E, P)
        free = [0]

        def ended(E, s, a, i):
            s.ghost[("ended",)] = s.ghost.get(("ended",), ()) + (E.addr(s, a[0]),)
            return [(s, ("ret", None))]
        E.contracts[one(P, SF + r"::~StackFrame\(\)$")] = ended
        ctx.cover(E, st.clone(), "frames below", S.c0.n > 1)
        for s, o in ctx.call(E, st, one(P, TH + r"::popFrame\(\)$"), [Ptr(C.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "leaving a method: ends normally")
            if o[0] != "ret":
                continue
            c = S.now(s)
            ctx.require(E, s, c.n == S.c0.n - 1, "leaving a method: one frame less")
            ctx.require(E, s, S.below(s, S.c0.n - 1), "leaving a method: the callers' frames are kept")
            e = s.ghost.get(("ended",), ())
            ctx.require(E, s, z3.And(len(e) == 1, *[x == top for x in e]), "leaving a method: its frame ends, once")
            ctx.require(E, s, not gone(s), "leaving a method: the caller's scope is not destroyed")

    def current(ctx):
        P = ctx.P
        C = Calls(ctx)
        E, st, S = C.E, C.st, C.stack
        n = S.c0.n
        ctx.cover(E, st.clone(), "no frame", n == 0)
        for s, o in ctx.call(E, st, one(P, TH + r"::currentFrame\(\) const$"), [Ptr(C.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "current frame: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, E.addr(s, o[1]) == z3.If(n == 0, z3.IntVal(0), S.at(S.c0, 0, n - 1)), "current frame: the one entered last, none without a call")
                ctx.require(E, s, S.same(s), "current frame: asking changes nothing")

    def nth(ctx):
        P = ctx.P
        C = Calls(ctx)
        E, st, S = C.E, C.st, C.stack
        i = ctx.sym("number", z3.BitVecSort(32))
        k = z3.BV2Int(i)
        ctx.cover(E, st.clone(), "known frame", k < S.c0.n)
        for s, o in ctx.call(E, st, one(P, TH + r"::frame\(unsigned int\) const$"), [Ptr(C.rid, 0), i]):
            ctx.require(E, s, o[0] == "ret", "frame by number: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, E.addr(s, o[1]) == z3.If(k < S.c0.n, S.at(S.c0, 0, k), z3.IntVal(0)), "frame by number: the frame of that depth, or none")
                ctx.require(E, s, S.same(s), "frame by number: asking changes nothing")

    def count(ctx):
        P = ctx.P
        C = Calls(ctx)
        E, st, S = C.E, C.st, C.stack
        for s, o in ctx.call(E, st, one(P, TH + r"::getNumFrames\(\) const$"), [Ptr(C.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "number of frames: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, to_bv(o[1], 32) == z3.Int2BV(S.c0.n, 32), "number of frames: one per call not left yet")
    return [Unit("Thread::pushFrame", TH + "::pushFrame", push), Unit("Thread::popFrame", TH + "::popFrame", pop), Unit("Thread::currentFrame", TH + "::currentFrame", current),
            Unit("Thread::frame", TH + "::frame", nth), Unit("Thread::getNumFrames", TH + "::getNumFrames", count)]
