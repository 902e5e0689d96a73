"""The debugger: conditions, breakpoints and where a program stops."""
import os
import re
import z3
from engine import ir
from engine.program import REPO
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo, AnyS
from engine.verify import Unit, SpecError
from .objects import OBJ, lay
from .ops import as_bool
from .values import one
from .text import text_arg, room

CO = "Slang::Core::"
COND, BP, DBG, POS = CO + "Condition", CO + "BreakPoint", CO + "Debugger", "Slang::Common::Position"
SPELL = {"==": "Equals", ">": "Greater", ">=": "GreaterEqual", "<": "Less", "<=": "LessEqual", "!=": "Unequal"}
OPS = {"Equals": "equal", "Greater": "greater", "GreaterEqual": "greater_equal", "Less": "less", "LessEqual": "less_equal"}
BV32 = z3.BitVecSort(32)
f_key = z3.Function("key2", Str, BV32, AnyS)


class Lay:
    def __init__(self, P):
        self.left, self.right, self.type = (P.field(COND, "m" + x) for x in ("Left", "Right", "Type"))
        self.types = P.enum(COND + "::Type::E")
        self.cond, self.file, self.line = (P.field(BP, "m" + x) for x in ("Condition", "Filename", "Line"))
        self.pfile, self.pline = P.field(POS, "mFile"), P.field(POS, "mLine")
        self.points = P.field(DBG, "mBreakPoints")
        self.next = P.field(DBG, "mNextAction")
        self.receiver = P.field(DBG, "mReceiver")
        self.onthrow, self.oncatch = P.field(DBG, "mBreakOnExceptionThrow"), P.field(DBG, "mBreakOnExceptionCatch")
        self.actions = P.enum(CO + "IDebugger::NextAction::E")


class Point:
    """a breakpoint of the pre-state"""

    def __init__(self, ctx, E, st, name, rid=None, off=0):
        P = ctx.P
        L = self.L = Lay(P)
        self.off = off
        self.rid = E.sym_region(st, name, size=P.class_size(BP)) if rid is None else rid
        self.left, self.right, self.file = (z3.Const("%s.%s" % (name, x), Str) for x in ("left", "right", "file"))
        self.type, self.line = z3.BitVec(name + ".type", 32), z3.BitVec(name + ".line", 32)
        st.pc.append(z3.ULT(self.type, len(L.types)))
        c = st.w(self.rid).cells
        c[off + L.cond + L.left] = (StrV(self.left), 32)
        c[off + L.cond + L.right] = (StrV(self.right), 32)
        c[off + L.cond + L.type] = (self.type, 4)
        c[off + L.file] = (StrV(self.file), 32)
        c[off + L.line] = (self.line, 4)

    def ptr(self):
        return Ptr(self.rid, self.off)

    def terms(self):
        return [self.left, self.right, self.type, self.file, self.line]


def point_at(E, s, p, L):
    """the parts of the breakpoint at p"""
    g = lambda o: E.get_str(s, E.padd(p, o))
    n = lambda o: to_bv(E.load(s, E.padd(p, o), ir.IntT(32)), 32)
    return [g(L.cond + L.left), g(L.cond + L.right), n(L.cond + L.type), g(L.file), n(L.line)]


def same(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def position(ctx, E, st, name):
    P = ctx.P
    L = Lay(P)
    rid = E.sym_region(st, name, size=P.class_size(POS))
    f, l = z3.Const(name + ".file", Str), z3.BitVec(name + ".line", 32)
    st.w(rid).cells[L.pfile] = (StrV(f), 32)
    st.w(rid).cells[L.pline] = (l, 4)
    return rid, f, l


def condition_units():
    def run_eval(ctx, given):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        c = E.sym_region(st, "condition", size=P.class_size(COND))
        t = z3.BitVec("operator", 32)
        st.w(c).cells[L.type] = (t, 4)
        st.pc.append(z3.ULT(t, len(L.types)))
        so = P.base_offset(OBJ, "Slang::Symbol")
        objs, args = [], []
        for n, g in zip(("left", "right"), given):
            r = E.sym_region(st, n, cls=[P.ti(OBJ)], size=P.class_size(OBJ))
            objs.append(r)
            args.append(Ptr(r, so) if g else NULL)
        lr = [E.addr(st, Ptr(r, 0)) for r in objs]
        cmps = {o: z3.Function("holds_" + o, IntS, IntS, z3.BoolSort()) for o in OPS.values()}
        for x, y in (lr, lr[::-1]):
            # agreed by the contracts of the comparisons (C03)
            st.pc.append(cmps["less_equal"](x, y) == z3.Or(cmps["less"](x, y), cmps["equal"](x, y)))
            st.pc.append(cmps["greater_equal"](x, y) == z3.Or(cmps["greater"](x, y), cmps["equal"](x, y)))
        for o in OPS.values():
            sym = one(P, r"Slang::Runtime::operator_binary_%s\(Slang::Runtime::Object\*, Slang::Runtime::Object(?: const)?\*\)$" % o)

            def apply(E, s, a, ins, o=o):
                return [(s, ("ret", cmps[o](E.addr(s, a[0]), E.addr(s, a[1]))))]
            E.contracts[sym] = apply
        want = z3.BoolVal(True)
        if all(given):
            for n, o in OPS.items():
                want = z3.If(t == L.types[n], cmps[o](*lr), want)
            want = z3.If(t == L.types["Unequal"], z3.Not(cmps["equal"](*lr)), want)
        for s, o in ctx.call(E, st, one(P, COND + r"::evaluate\(.*\) const$"), [Ptr(c, 0)] + args):
            ctx.require(E, s, o[0] == "ret", "condition: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, as_bool(o[1]) == want, "condition: holds exactly when its comparison does")

    def build(ctx, text):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        c = E.sym_region(st, "condition", size=P.class_size(COND))
        l, r = z3.Const("left", Str), z3.Const("right", Str)
        a = text_arg(E, st, l, "l")
        b = text_arg(E, st, r, "r")
        if text:
            op = z3.Const("spelling", Str)
            want = z3.BitVecVal(L.types["Invalid"], 32)
            for sp, n in SPELL.items():
                want = z3.If(op == strconst(sp), z3.BitVecVal(L.types[n], 32), want)
            for sp in SPELL:
                ctx.cover(E, st.clone(), "operator " + sp, op == strconst(sp))
            m, fn = text_arg(E, st, op, "op"), one(P, COND + r"::Condition\(std::string, std::string const&, std::string\)$")
        else:
            want = m = z3.BitVec("operator", 32)
            fn = one(P, COND + r"::Condition\(std::string, Slang::Core::Condition::Type::E, std::string\)$")
        for s, o in ctx.call(E, st, fn, [Ptr(c, 0), a, m, b]):
            ctx.require(E, s, o[0] == "ret", "making a condition: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, to_bv(E.load(s, Ptr(c, L.type), ir.IntT(32)), 32) == want, "making a condition: the operator is the one spelt")
                ctx.require(E, s, z3.And(E.get_str(s, Ptr(c, L.left)) == l, E.get_str(s, Ptr(c, L.right)) == r), "making a condition: the operands are the given ones")

    def valid(ctx):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        c = E.sym_region(st, "condition", size=P.class_size(COND))
        t = z3.BitVec("operator", 32)
        l, r = z3.Const("left", Str), z3.Const("right", Str)
        st.pc.append(z3.ULT(t, len(L.types)))
        st.w(c).cells.update({L.type: (t, 4), L.left: (StrV(l), 32), L.right: (StrV(r), 32)})
        for s, o in ctx.call(E, st.clone(), one(P, COND + r"::isValid\(\) const$"), [Ptr(c, 0)]):
            ctx.require(E, s, o[0] == "ret" and as_bool(o[1]) == (t != L.types["Invalid"]), "condition: without operator there is none")
        for n, x in (("lhs", l), ("rhs", r)):
            for s, o in ctx.call(E, st.clone(), one(P, COND + "::%s" % n + r"\(\) const$"), [Ptr(c, 0)]):
                ctx.require(E, s, o[0] == "ret" and E.get_str(s, o[1]) == x, "condition: operand as given")
        for s, o in ctx.call(E, st.clone(), one(P, COND + r"::type\(\) const$"), [Ptr(c, 0)]):
            ctx.require(E, s, o[0] == "ret" and to_bv(o[1], 32) == t, "condition: operator as given")
    fn = COND + "::evaluate(Symbol*, Symbol*) const"
    return [Unit("evaluate both operands", fn, lambda ctx: run_eval(ctx, (True, True)), case="two operands"),
            Unit("evaluate left missing", fn, lambda ctx: run_eval(ctx, (False, True)), case="left operand missing"),
            Unit("evaluate right missing", fn, lambda ctx: run_eval(ctx, (True, False)), case="right operand missing"),
            Unit("Condition from text", COND + "::Condition(string, string, string)", lambda ctx: build(ctx, True)),
            Unit("Condition from operator", COND + "::Condition(string, Type, string)", lambda ctx: build(ctx, False)),
            Unit("Condition parts", COND, valid)]


def point_units():
    def from_position(ctx):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        pos, f, l = position(ctx, E, st, "position")
        b = E.sym_region(st, "point", size=P.class_size(BP))
        for s, o in ctx.call(E, st, one(P, BP + r"::BreakPoint\(Slang::Common::Position const&\)$"), [Ptr(b, 0), Ptr(pos, 0)]):
            ctx.require(E, s, o[0] == "ret", "breakpoint at a position: ends normally")
            if o[0] == "ret":
                x = point_at(E, s, Ptr(b, 0), L)
                ctx.require(E, s, z3.And(x[3] == f, x[4] == l), "breakpoint at a position: has its file and line")
                ctx.require(E, s, x[2] == L.types["Invalid"], "breakpoint at a position: no condition")

    def order(ctx, what):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        a = Point(ctx, E, st, "a")
        if what == "position":
            b, f, l = position(ctx, E, st, "position")
            bp = Ptr(b, 0)
        else:
            b = Point(ctx, E, st, "b")
            f, l, bp = b.file, b.line, b.ptr()
        alike = z3.And(a.file == f, a.line == l)
        if what == "less":
            want = z3.If(a.file == f, z3.ULT(a.line, l), f_lt(a.file, f))
            fn = one(P, BP + r"::operator<\(Slang::Core::BreakPoint const&\) const$")
        else:
            want = alike
            fn = one(P, BP + r"::operator==\(%s const&\) const$" % ("Slang::Common::Position" if what == "position" else "Slang::Core::BreakPoint"))
        for s, o in ctx.call(E, st, fn, [a.ptr(), bp]):
            ctx.require(E, s, o[0] == "ret", "breakpoints: comparing ends normally")
            if o[0] != "ret":
                continue
            if what == "less":
                # any total order of file and line will do, as long as it looks at nothing else; the text order of files is the shipped one
                ctx.require(E, s, as_bool(o[1]) == want, "breakpoints: ordered by file, then line")
            else:
                ctx.require(E, s, as_bool(o[1]) == want, "breakpoints: same exactly when file and line agree")

    def parts(ctx):
        P = ctx.P
        L = Lay(P)
        E = ctx.engine()
        st = State(E)
        a = Point(ctx, E, st, "a")
        for n, x in (("getFilename", a.file), ("getLine", a.line)):
            for s, o in ctx.call(E, st.clone(), one(P, BP + "::%s" % n + r"\(\) const$"), [a.ptr()]):
                got = None if o[0] != "ret" else E.get_str(s, o[1]) if n == "getFilename" else to_bv(o[1], 32)
                ctx.require(E, s, got is not None and got == x, "breakpoint: file and line as given")
        for s, o in ctx.call(E, st.clone(), one(P, BP + r"::getCondition\(\) const$"), [a.ptr()]):
            ctx.require(E, s, o[0] == "ret", "breakpoint: reading the condition ends normally")
            if o[0] == "ret":
                x = point_at(E, s, E.padd(o[1], -L.cond), L)
                ctx.require(E, s, same(x[:3], a.terms()[:3]), "breakpoint: condition as given")
        b = Point(ctx, E, st, "b")
        for s, o in ctx.call(E, st, one(P, BP + r"::setCondition\(.*\)$"), [a.ptr(), E.padd(b.ptr(), L.cond)]):
            ctx.require(E, s, o[0] == "ret", "breakpoint: setting the condition ends normally")
            if o[0] == "ret":
                x = point_at(E, s, a.ptr(), L)
                ctx.require(E, s, same(x, b.terms()[:3] + a.terms()[3:]), "breakpoint: setting the condition keeps file and line")
    return [Unit("BreakPoint at position", BP + "::BreakPoint(Position)", from_position),
            Unit("BreakPoint less", BP + "::operator<", lambda ctx: order(ctx, "less")),
            Unit("BreakPoint equal", BP + "::operator==", lambda ctx: order(ctx, "equal")),
            Unit("BreakPoint at", BP + "::operator==(Position)", lambda ctx: order(ctx, "position")),
            Unit("BreakPoint parts", BP, parts)]


class Dbg:
    """a debugger with any set of breakpoints"""

    def __init__(self, ctx, E, st):
        P = self.P = ctx.P
        L = self.L = Lay(P)
        E.key_leaves[BP] = (L.file, L.line)
        self.E, self.st = E, st
        self.rid = E.sym_region(st, "debugger", size=P.class_size(DBG))
        i = self.info = cinfo(E, "set", [BP])
        n = z3.Int("points.n")
        st.pc.append(z3.And(n >= 0, n < 1 << 30))
        self.c0 = MapV("points", n, z3.Const("points.dom", z3.ArraySort(AnyS, z3.BoolSort())), kind="set", ks=i.ks, lv=i.lv, kl=i.kl)
        st.w(self.rid).cells[L.points] = (self.c0, E.CSIZE["set"])
        self.next = z3.BitVec("next", 32)
        st.pc.append(z3.ULT(self.next, len(L.actions)))
        st.w(self.rid).cells[L.next] = (self.next, 4)
        self.recv = z3.Int("receiver")
        st.pc.append(self.recv >= 0)
        st.w(self.rid).cells[L.receiver] = (SPtr(self.recv), 8)
        self.onthrow, self.oncatch = z3.Bool("stop_at_throw"), z3.Bool("stop_at_catch")
        one8 = lambda b: z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        st.w(self.rid).cells[L.onthrow] = (one8(self.onthrow), 1)
        st.w(self.rid).cells[L.oncatch] = (one8(self.oncatch), 1)
        self.pf, self.pl = z3.Const("probe.file", Str), z3.BitVec("probe.line", 32)

    def distinct(self, f, l):
        """breakpoints of different file or line are different"""
        k = f_key(f, l) == f_key(self.pf, self.pl)
        self.st.pc.append(k == z3.And(f == self.pf, l == self.pl))

    def set_now(self, s):
        return self.E.container(s, Ptr(self.rid, self.L.points))

    def has(self, c, f, l):
        return z3.Select(c.dom, f_key(f, l))

    def value(self, c, f, l):
        L, k = self.L, f_key(f, l)
        g = lambda o, srt: z3.Select(self.E.field_arr(c, o, srt), k)
        return [g(L.cond + L.left, Str), g(L.cond + L.right, Str), g(L.cond + L.type, BV32), g(L.file, Str), g(L.line, BV32)]

    def kept(self, s, but):
        """the probe's breakpoint is what it was, unless it is the given one"""
        c = self.set_now(s)
        return z3.Implies(z3.Not(but), z3.And(self.has(c, self.pf, self.pl) == self.has(self.c0, self.pf, self.pl),
                                              z3.Implies(self.has(self.c0, self.pf, self.pl), same(self.value(c, self.pf, self.pl), self.value(self.c0, self.pf, self.pl)))))


def receiver_slots():
    """what the calls of the receiver's interface stand for, in the order of its declaration"""
    for root, ds, fs in os.walk(os.path.join(REPO, "Projects", "Core", "Debugger")):
        for f in fs:
            if f == "IReceiver.h":
                t = re.sub(r"//.*|/\*(?:.|\n)*?\*/", "", open(os.path.join(root, f), errors="replace").read())
                out, n = {}, 0
                for m in re.finditer(r"virtual\s+(~?)[^;{(]*?(\w+)\s*\(", t):
                    if m.group(1) or re.search(r"virtual\s+~", m.group(0)):
                        n += 2
                    else:
                        out[n] = m.group(2)
                        n += 1
                return out
    raise SpecError("the receiver's interface is gone")


def watch(E, L, D):
    slots = receiver_slots()

    def hook(E, s, sc, slot, args, ins, depth, fr, impls):
        n = slots.get(slot)
        if n is None:
            raise SpecError("unknown call of the receiver")
        s.ghost[("stops",)] = s.ghost.get(("stops",), ()) + ((n, E.addr(s, args[0]), E.addr(s, args[1]), tuple(point_at(E, s, args[2], L))),)
        return [(s, ("ret", z3.BitVec(fresh_name("answer"), 32)))]
    E.virtual_hook = hook


def stops(s):
    return s.ghost.get(("stops",), ())


def debugger_units():
    def change(ctx, what):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        D = Dbg(ctx, E, st)
        b = Point(ctx, E, st, "point")
        D.distinct(b.file, b.line)
        here = z3.And(b.file == D.pf, b.line == D.pl)
        had = D.has(D.c0, b.file, b.line)
        ctx.cover(E, st.clone(), "there already", had)
        ctx.cover(E, st.clone(), "not there", z3.Not(had))
        for s, o in ctx.call(E, st, one(P, DBG + r"::%s\(.*\)$" % (what + "BreakPoint")), [Ptr(D.rid, 0), b.ptr()]):
            ctx.require(E, s, o[0] == "ret", what + " breakpoint: ends normally")
            if o[0] != "ret":
                continue
            c = D.set_now(s)
            if what == "add":
                ctx.require(E, s, D.has(c, b.file, b.line), "setting a breakpoint: it is set")
                ctx.require(E, s, same(D.value(c, b.file, b.line), b.terms()), "setting a breakpoint: with its condition")
                ctx.require(E, s, as_bool(o[1]), "setting a breakpoint: reported as set")
            else:
                ctx.require(E, s, z3.Not(D.has(c, b.file, b.line)), "removing a breakpoint: it is not set any more")
                ctx.require(E, s, as_bool(o[1]) == had, "removing a breakpoint: tells whether it was set")
            ctx.require(E, s, D.kept(s, here), what + " breakpoint: every other one is kept")

    def ask(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        D = Dbg(ctx, E, st)
        b = Point(ctx, E, st, "point")
        for s, o in ctx.call(E, st.clone(), one(P, DBG + r"::isBreakPoint\(.*\) const$"), [Ptr(D.rid, 0), b.ptr()]):
            ctx.require(E, s, o[0] == "ret" and as_bool(o[1]) == D.has(D.c0, b.file, b.line), "asking for a breakpoint: whether one is set there")
            ctx.require(E, s, D.kept(s, z3.BoolVal(False)), "asking for a breakpoint: changes nothing")
        for s, o in ctx.call(E, st, one(P, DBG + r"::clearBreakPoints\(\)$"), [Ptr(D.rid, 0)]):
            ctx.require(E, s, o[0] == "ret" and z3.Not(D.has(D.set_now(s), D.pf, D.pl)), "removing all breakpoints: none is set any more")

    def note(ctx, fn, name, when):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        D = Dbg(ctx, E, st)
        L = D.L
        watch(E, L, D)
        tok = E.sym_region(st, "token", size=P.class_size("Slang::Token"))
        off = P.field("Slang::Token", "mPosition")
        f, l = z3.Const("token.file", Str), z3.BitVec("token.line", 32)
        st.w(tok).cells[off + L.pfile] = (StrV(f), 32)
        st.w(tok).cells[off + L.pline] = (l, 4)
        scope = z3.Int("scope")
        st.pc.append(scope >= 0)
        there = D.has(D.c0, f, l)
        A = lambda n: D.next == L.actions[n]
        want = z3.And(D.recv > 0, when(D, A, there))
        ctx.cover(E, st.clone(), "stops", want)
        ctx.cover(E, st.clone(), "goes on", z3.Not(want))
        for s, o in ctx.call(E, st, one(P, DBG + "::" + fn + r"\(.*\)$"), [Ptr(D.rid, 0), SPtr(scope), Ptr(tok, 0)]):
            ctx.require(E, s, o[0] == "ret", fn + ": ends normally")
            if o[0] != "ret":
                continue
            g = stops(s)
            ctx.require(E, s, z3.If(want, z3.BoolVal(len(g) == 1), z3.BoolVal(len(g) == 0)), fn + ": stops exactly when asked to")
            for n, r, sc, x in g[:1]:
                ctx.require(E, s, z3.And(n == fn, r == D.recv, sc == scope), fn + ": the receiver is told what happened and where")
                ctx.require(E, s, z3.And(x[3] == f, x[4] == l), fn + ": the receiver is given file and line")
                if fn == "notify":
                    k = z3.And(A("WaitForBreakPoint"), there)
                    ctx.require(E, s, z3.Implies(k, same(x, D.value(D.c0, f, l))), fn + ": the receiver is given the breakpoint set there")
            ctx.require(E, s, D.kept(s, z3.BoolVal(False)), fn + ": the breakpoints stay as they are")

    def mode(ctx):
        P = ctx.P
        for fn, a in (("resume", "WaitForBreakPoint"), ("resumeWithoutBreaks", "None"), ("stepInto", "StepInto"), ("stepOut", "StepOut"), ("stepOver", "StepOver")):
            E = ctx.engine()
            st = State(E)
            D = Dbg(ctx, E, st)
            for s, o in ctx.call(E, st, one(P, DBG + "::" + fn + r"\(\)$"), [Ptr(D.rid, 0)]):
                ctx.require(E, s, o[0] == "ret" and to_bv(E.load(s, Ptr(D.rid, D.L.next), ir.IntT(32)), 32) == D.L.actions[a], fn + ": decides where to stop next")
                ctx.require(E, s, D.kept(s, z3.BoolVal(False)), fn + ": the breakpoints stay as they are")
            E = ctx.engine()
        for fn, off in (("breakOnExceptionThrow", "onthrow"), ("breakOnExceptionCatch", "oncatch")):
            E = ctx.engine()
            st = State(E)
            D = Dbg(ctx, E, st)
            b = z3.Bool("wanted")
            for s, o in ctx.call(E, st, one(P, DBG + "::" + fn + r"\(.*\)$"), [Ptr(D.rid, 0), z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))]):
                for x in ("onthrow", "oncatch"):
                    v = z3.Extract(0, 0, to_bv(E.load(s, Ptr(D.rid, getattr(D.L, x)), ir.IntT(8)), 8)) == 1
                    ctx.require(E, s, v == (b if x == off else getattr(D, x)), fn + ": asks for these stops and no others")
        for fn in ("registerReceiver", "unregisterReceiver"):
            E = ctx.engine()
            st = State(E)
            D = Dbg(ctx, E, st)
            r = z3.Int("other")
            st.pc.append(r > 0)
            for s, o in ctx.call(E, st, one(P, DBG + "::" + fn + r"\(.*\)$"), [Ptr(D.rid, 0), SPtr(r)]):
                now = E.addr(s, E.load(s, Ptr(D.rid, D.L.receiver), ir.PTR))
                ok = D.recv == (0 if fn == "registerReceiver" else r)
                ctx.require(E, s, as_bool(o[1]) == ok, fn + ": succeeds exactly when it is its turn")
                ctx.require(E, s, now == z3.If(ok, r if fn == "registerReceiver" else z3.IntVal(0), D.recv), fn + ": one receiver at a time")
    N = [("notify", lambda D, A, there: z3.Or(A("StepOver"), z3.And(A("WaitForBreakPoint"), there))),
         ("notifyEnter", lambda D, A, there: A("StepInto")), ("notifyExit", lambda D, A, there: A("StepOut")),
         ("notifyExceptionThrow", lambda D, A, there: D.onthrow), ("notifyExceptionCatch", lambda D, A, there: D.oncatch)]
    return [Unit("addBreakPoint", DBG + "::addBreakPoint", lambda ctx: change(ctx, "add")),
            Unit("removeBreakPoint", DBG + "::removeBreakPoint", lambda ctx: change(ctx, "remove")),
            Unit("isBreakPoint", DBG + "::isBreakPoint", ask),
            Unit("stepping", DBG + "::step*", mode)] + [
            Unit(fn, DBG + "::" + fn, lambda ctx, fn=fn, w=w: note(ctx, fn, fn, w)) for fn, w in N]
