"""The heap: counting references, giving out addresses, destroying objects."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import cinfo
from engine.verify import Unit, SpecError
from .objects import OBJ, lay
from .ops import as_bool
from .values import one

MEM = "Slang::Memory"
REF = "Slang::Runtime::Reference"
COUNT = "Slang::Memory::RefCount"
A32 = z3.BitVecSort(32)


class Heap:
    """the table of living objects: address -> number of references, object"""

    def __init__(self, ctx, name="memory"):
        P = self.P = ctx.P
        E = self.E = ctx.engine()
        st = self.st = State(E)
        self.ctx = ctx
        self.rid = E.sym_region(st, name, size=P.class_size(MEM))
        self.omap, self.onext = P.field(MEM, "mMemory"), P.field(MEM, "mNextAddress")
        self.info = cinfo(E, "map", [REF, COUNT])
        v = self.info.voff
        self.oc, self.oo = v + P.field(COUNT, "mCount"), v + P.field(COUNT, "mObject")
        self.m0 = self.map(st)
        self.next0 = self.next(st)
        self.lay = lay(P)
        st.pc.append(self.inv(st))

    def map(self, st):
        return self.E.container(st, Ptr(self.rid, self.omap), "map", self.info)

    def next(self, st):
        return to_bv(self.E.load(st, Ptr(self.rid, self.onext), ir.I32), 32)

    def has(self, m, k):
        return z3.Select(m.dom, k)

    def count(self, m, k):
        return z3.Select(self.E.field_arr(m, self.oc, A32), k)

    def obj(self, m, k):
        return z3.Select(self.E.field_arr(m, self.oo, IntS), k)

    def inv(self, st):
        """addresses in use are not null and were given out before"""
        m, k = self.map(st), z3.BitVec(fresh_name("k"), 32)
        return z3.And(self.next(st) != 0, z3.ForAll([k], z3.Implies(self.has(m, k), z3.And(k != 0, z3.ULT(k, self.next(st))))))

    def entry(self, m, k, m2, k2):
        return z3.And(self.count(m, k) == self.count(m2, k2), self.obj(m, k) == self.obj(m2, k2))

    def same(self, m, old, but=None):
        """no entry changed except that of address but"""
        k = z3.BitVec(fresh_name("k"), 32)
        r = z3.And(self.has(m, k) == self.has(old, k), z3.Implies(self.has(old, k), self.entry(m, k, old, k)))
        return r if but is None else z3.Implies(k != but, r)

    def ref(self, st, name="address"):
        """an argument: a reference"""
        a = self.ctx.sym(name, A32)
        r = self.E.sym_region(st, name + "ref", size=self.P.class_size(REF))
        st.w(r).cells[self.P.field(REF, "mAddress")] = (a, 4)
        return a, Ptr(r, 0)

    def scramble(self, s, keep):
        """other code ran: any entry may have changed, only those of keep(old, new) are known"""
        old = self.map(s)
        n = z3.Int(fresh_name("count"))
        b = fresh_name("memory")
        new = MapV(b, n, z3.Const(b + ".dom", z3.ArraySort(A32, z3.BoolSort())), kind="map", ks=self.info.ks, lv=self.info.lv, kl=self.info.kl)
        s.pc.append(n >= 0)
        self.E.set_container(s, Ptr(self.rid, self.omap), new)
        nx = z3.BitVec(fresh_name("next"), 32)
        s.pc.append(z3.UGE(nx, self.next(s)))
        self.E.store(s, Ptr(self.rid, self.onext), nx, ir.I32)
        s.pc.append(self.inv(s))
        s.pc.append(keep(old, new))


def fn(P, name):
    return one(P, r"Slang::Memory::%s\(.*\)(?: const)?$" % name)


def table_units():
    def add(ctx):
        H = Heap(ctx)
        E, st = H.E, H.st
        a, p = H.ref(st)
        ctx.cover(E, st.clone(), "known address", H.has(H.m0, a))
        ctx.cover(E, st.clone(), "unknown address", z3.And(a != 0, z3.Not(H.has(H.m0, a))))
        for s, o in ctx.call(E, st, fn(ctx.P, "add"), [Ptr(H.rid, 0), p]):
            m = H.map(s)
            if o[0] != "ret":
                ctx.require(E, s, z3.And(a != 0, z3.Not(H.has(H.m0, a))), "taking a reference: refused only for an address not in use")
                ctx.require(E, s, H.same(m, H.m0), "taking a reference: a refused one changes nothing")
                continue
            ctx.require(E, s, z3.Or(a == 0, H.has(H.m0, a)), "taking a reference: refused for an address not in use")
            ctx.require(E, s, H.same(m, H.m0, a), "taking a reference: other objects are not affected")
            ctx.require(E, s, z3.Implies(a == 0, H.same(m, H.m0)), "taking a reference: null is never counted")
            ctx.require(E, s, z3.Implies(a != 0, z3.And(H.has(m, a), H.count(m, a) == H.count(H.m0, a) + 1, H.obj(m, a) == H.obj(H.m0, a))),
                        "taking a reference: counted once, for the same object")
            ctx.require(E, s, H.next(s) == H.next0, "taking a reference: gives out no address")

    def get(ctx):
        H = Heap(ctx)
        E, st = H.E, H.st
        a, p = H.ref(st)
        ctx.cover(E, st.clone(), "known address", H.has(H.m0, a))
        for s, o in ctx.call(E, st, fn(ctx.P, "get"), [Ptr(H.rid, 0), p]):
            ctx.require(E, s, o[0] == "ret", "looking an object up: ends normally")
            if o[0] == "ret":
                r = E.addr(s, o[1])
                ctx.require(E, s, r == z3.If(H.has(H.m0, a), H.obj(H.m0, a), 0), "looking an object up: the object at that address, or none")
                ctx.require(E, s, H.same(H.map(s), H.m0), "looking an object up: changes nothing")

    def new(ctx):
        P = ctx.P
        H = Heap(ctx)
        E, st = H.E, H.st
        ob = E.sym_region(st, "object", cls=[P.ti(OBJ)], size=H.lay.size)
        last = z3.BitVecVal(-1, 32)
        ctx.cover(E, st.clone(), "addresses left", H.next0 != last)
        for s, o in ctx.call(E, st, fn(P, "newObject"), [Ptr(H.rid, 0), Ptr(ob, 0)]):
            m = H.map(s)
            if o[0] != "ret":
                ctx.require(E, s, H.next0 == last, "new object: refused only when there is no address left")
                ctx.require(E, s, H.same(m, H.m0), "new object: a refused one changes nothing")
                continue
            r = to_bv(E.load(s, o[1], ir.I32), 32)
            ctx.require(E, s, r != 0, "new object: never at the null address")
            ctx.require(E, s, z3.Not(H.has(H.m0, r)), "new object: never at an address still in use")
            ctx.require(E, s, H.same(m, H.m0, r), "new object: other objects are not affected")
            ctx.require(E, s, z3.And(H.has(m, r), H.count(m, r) == 0, H.obj(m, r) == E.addr(s, Ptr(ob, 0))), "new object: reachable at its address, not referenced yet")
            ctx.require(E, s, to_bv(E.load(s, Ptr(ob, H.lay.ref + P.field(REF, "mAddress")), ir.I32), 32) == r, "new object: knows its address")
            ctx.require(E, s, H.inv(s), "new object: addresses are given out in order")

    def init(ctx):
        P = ctx.P
        H = Heap(ctx)
        E = H.E
        st = State(E)
        from .text import room
        this = room(E, st)
        for s, o in ctx.call(E, st, one(P, r"Slang::Memory::Memory\(\)$"), [this]):
            ctx.require(E, s, o[0] == "ret", "empty heap: ends normally")
            if o[0] == "ret":
                m = E.container(s, E.padd(this, H.omap), "map", H.info)
                k = z3.BitVec(fresh_name("k"), 32)
                ctx.require(E, s, z3.Not(H.has(m, k)), "empty heap: no object")
                ctx.require(E, s, to_bv(E.load(s, E.padd(this, H.onext), ir.I32), 32) != 0, "empty heap: the first address is not null")

    return [Unit("Memory::add", MEM + "::add", add), Unit("Memory::get", MEM + "::get", get), Unit("Memory::newObject", MEM + "::newObject", new),
            Unit("Memory::Memory", MEM + "::Memory", init)]


def remove_unit():
    def run(ctx):
        P = ctx.P
        H = Heap(ctx)
        E, st = H.E, H.st
        a, p = H.ref(st)
        known = H.has(H.m0, a)
        c0, o0 = H.count(H.m0, a), H.obj(H.m0, a)
        st.pc.append(z3.Implies(known, z3.And(c0 != 0, o0 >= 0)))
        kept = z3.BitVec("kept", 32)         # references to the object its destructor leaves behind
        st.pc.append(z3.ULT(kept, 1 << 30))
        for w, c in (("last reference", z3.And(known, c0 == 1, o0 != 0)), ("other references left", z3.And(known, c0 == 2)), ("unknown address", z3.And(a != 0, z3.Not(known)))):
            ctx.cover(E, st.clone(), w, c)
        g = ("gone",)

        def event(s, what):
            s.ghost[g] = s.ghost.get(g, ()) + (what,)

        def destructor(E, s, args, ins):
            m = H.map(s)
            x = E.addr(s, args[0])
            ctx.require(E, s, x == o0, "destroying: only the object at that address")
            ctx.require(E, s, z3.And(H.has(m, a), H.obj(m, a) == o0, H.count(m, a) != 0), "destroying: the object is held while its destructor runs", kind="pre")
            ctx.require(E, s, not s.ghost.get(g), "destroying: the destructor runs once, before the object is freed")
            c = H.count(m, a)
            H.scramble(s, lambda old, new: z3.And(H.has(new, a), H.obj(new, a) == o0, H.count(new, a) == c + kept))
            event(s, "destructor")
            return [(s, ("ret", z3.BitVec(fresh_name("flow"), 32)))]

        def free(E, s, args):
            x = E.addr(s, args[0])
            ctx.require(E, s, x == o0, "destroying: only the object at that address")
            ctx.require(E, s, s.ghost.get(g) == ("destructor",), "destroying: the object is freed once, after its destructor")
            H.scramble(s, lambda old, new: z3.And(H.has(new, a) == H.has(old, a), H.entry(new, a, old, a)))
            event(s, "free")
            s.ghost[("after",)] = H.map(s)
            return [(s, ("ret", None))]

        E.contracts[one(P, r"Slang::Runtime::Object::Destructor\(\)$")] = destructor

        def hook(E, s, sc, slot, args, ins, depth, fr, impls):
            d = [P.dem.get(i, "") for i in impls or []]
            if d and all(re.search(r"::~\w+\(\)$", x) for x in d):
                return free(E, s, args)
            return None
        E.virtual_hook = hook
        last = z3.And(known, c0 == 1, o0 != 0)
        for s, o in ctx.call(E, st, fn(P, "remove"), [Ptr(H.rid, 0), p]):
            m = H.map(s)
            ev = s.ghost.get(g, ())
            if o[0] != "ret":
                ctx.require(E, s, z3.And(a != 0, z3.Not(known)), "dropping a reference: refused only for an address not in use")
                ctx.require(E, s, H.same(m, H.m0), "dropping a reference: a refused one changes nothing")
                continue
            ctx.require(E, s, z3.Or(a == 0, known), "dropping a reference: refused for an address not in use")
            if not ev:
                ctx.require(E, s, z3.Not(z3.And(a != 0, last)), "dropping a reference: the last one destroys the object")
                ctx.require(E, s, H.same(m, H.m0, a), "dropping a reference: other objects are not affected")
                ctx.require(E, s, z3.Implies(a == 0, H.same(m, H.m0)), "dropping a reference: null is never freed")
                ctx.require(E, s, z3.Implies(z3.And(a != 0, c0 != 1), z3.And(H.has(m, a), H.obj(m, a) == o0, H.count(m, a) == c0 - 1)), "dropping a reference: counted once, the object stays")
                continue
            ctx.require(E, s, z3.And(a != 0, last), "dropping a reference: only the last one destroys the object")
            if ev == ("destructor", "free"):
                ctx.require(E, s, kept == 0, "destroying: an object that is still referenced stays")
                ctx.require(E, s, z3.Not(H.has(m, a)), "destroying: the address is free afterwards")
                ctx.require(E, s, H.same(m, s.ghost[("after",)], a), "destroying: other objects are not affected")
            else:
                ctx.require(E, s, kept != 0, "destroying: an object that is no longer referenced is freed")
                ctx.require(E, s, z3.And(H.has(m, a), H.obj(m, a) == o0, H.count(m, a) == kept), "destroying: references taken by the destructor count")
    return [Unit("Memory::remove", MEM + "::remove", run)]


def reference_units():
    us = []
    for opn, want in (("operator<", lambda x, y: z3.ULT(x, y)), ("operator==", lambda x, y: x == y)):
        def run(ctx, opn=opn, want=want):
            P = ctx.P
            E = ctx.engine()
            st = State(E)
            v = []
            for n in "ab":
                r = E.sym_region(st, n, size=P.class_size(REF))
                x = ctx.sym(n + "!address", A32)
                st.w(r).cells[P.field(REF, "mAddress")] = (x, 4)
                v.append((x, Ptr(r, 0)))
            for s, o in ctx.call(E, st, one(P, re.escape(REF + "::" + opn) + r"\(.*\) const$"), [v[0][1], v[1][1]]):
                ctx.require(E, s, o[0] == "ret", "comparing references: ends normally")
                if o[0] == "ret":
                    ctx.require(E, s, as_bool(o[1]) == want(v[0][0], v[1][0]), "comparing references: by their address")
        us.append(Unit("Reference::" + opn, REF + "::" + opn, run))
    return us


# ---- variables holding references -------------------------------------------------------------------------------------
f_at = z3.Function("object_at", A32, IntS)


class Var:
    """a variable (or temporary) that may refer to a heap object; the heap is known by its contract"""

    def __init__(self, ctx):
        P = self.P = ctx.P
        E = self.E = ctx.engine()
        st = self.st = State(E)
        self.ctx = ctx
        self.lay = lay(P)
        self.oref = self.lay.ref + P.field(REF, "mAddress")
        self.rid, self.old = self.make(st, "variable")
        mem = E.sym_region(st, "memory", size=P.class_size(MEM))
        E.contracts[one(P, r"Slang::Controller::memory\(\) const$")] = lambda E, s, a, i: [(s, ("ret", Ptr(mem, 0)))]
        ctl = [d for d in P.bydem if re.match(r".*Controller::Instance\(\)$", d)]
        for d in ctl:
            E.contracts[P.find(d)] = lambda E, s, a, i: [(s, ("ret", Ptr(mem, 0)))]
        E.contracts[fn(P, "add")] = self.add
        E.contracts[fn(P, "remove")] = self.remove
        E.contracts[fn(P, "get")] = self.get

    def make(self, st, name):
        rid = self.E.sym_region(st, name, cls=[self.P.ti(OBJ)], size=self.lay.size)
        a = self.ctx.sym(name + "!address", A32)
        st.w(rid).cells[self.oref] = (a, 4)
        st.w(rid).cells[self.lay.sealed] = (z3.BitVecVal(0, 8), 1)
        return rid, a

    def address(self, s, rid):
        return to_bv(self.E.load(s, Ptr(rid, self.oref), ir.I32), 32)

    def this(self, s, rid):
        return self.E.addr(s, self.E.load(s, Ptr(rid, self.lay.this), ir.PTR))

    def arg(self, s, p):
        return to_bv(self.E.load(s, self.E.padd(p, self.P.field(REF, "mAddress")), ir.I32), 32)

    def events(self, s):
        return s.ghost.get(("refs",), ())

    def note(self, s, *e):
        s.ghost[("refs",)] = self.events(s) + (e,)

    def add(self, E, s, a, i):
        self.note(s, "take", self.arg(s, a[1]))
        return [(s, ("ret", None))]

    def remove(self, E, s, a, i):
        self.note(s, "drop", self.arg(s, a[1]), self.address(s, self.rid), self.this(s, self.rid) if self.watch else None)
        return [(s, ("ret", None))]

    watch = True

    def get(self, E, s, a, i):
        r = f_at(self.arg(s, a[1]))
        s.pc.append(r >= 0)
        return [(s, ("ret", SPtr(r)))]

    def rebound(self, s, new, lab):
        """the variable gave up its old reference for the new one"""
        ctx, E = self.ctx, self.E
        this = z3.If(new != 0, f_at(new), E.addr(s, Ptr(self.rid, 0)))
        ctx.require(E, s, self.address(s, self.rid) == new, lab + ": holds the new reference")
        ctx.require(E, s, self.this(s, self.rid) == this, lab + ": stands for the object referred to, or for itself")
        k = z3.BitVec(fresh_name("address"), 32)
        n = lambda kind: sum([z3.If(z3.And(e[0] == kind, e[1] == k), 1, 0) for e in self.events(s)], z3.IntVal(0))
        once = lambda x: z3.If(z3.And(k == x, x != 0), 1, 0)
        ctx.require(E, s, z3.Implies(k != 0, n("take") - n("drop") == once(new) - once(self.old)), lab + ": the new reference is counted, the old one no longer")
        ctx.require(E, s, z3.Implies(k != 0, n("drop") <= once(self.old)), lab + ": no other reference is dropped")
        taken = z3.BoolVal(False)
        for e in self.events(s):
            if e[0] == "take":
                taken = z3.Or(taken, e[1] == new)
            else:
                ctx.require(E, s, z3.Implies(e[1] != 0, z3.And(z3.Or(new == 0, taken, e[1] != new), e[2] == new, e[3] == this)),
                            lab + ": the new reference is held before the old one is dropped")


def var_units():
    def assign(ctx):
        V = Var(ctx)
        E, st = V.E, V.st
        a = ctx.sym("address", A32)
        r = E.sym_region(st, "newref", size=ctx.P.class_size(REF))
        st.w(r).cells[ctx.P.field(REF, "mAddress")] = (a, 4)
        ctx.cover(E, st.clone(), "same object again", z3.And(a == V.old, a != 0))
        for s, o in ctx.call(E, st, one(ctx.P, r"Slang::Runtime::Object::assignReference\(.*\)$"), [Ptr(V.rid, 0), Ptr(r, 0)]):
            ctx.require(E, s, o[0] == "ret", "rebinding: ends normally")
            if o[0] == "ret":
                V.rebound(s, a, "rebinding")

    us = [Unit("Object::assignReference", OBJ + "::assignReference", assign)]

    def set_reference(ctx):
        V = Var(ctx)
        E, st = V.E, V.st
        a = ctx.sym("address", A32)
        r = E.sym_region(st, "newref", size=ctx.P.class_size(REF))
        st.w(r).cells[ctx.P.field(REF, "mAddress")] = (a, 4)
        for s, o in ctx.call(E, st, one(ctx.P, r"Slang::Runtime::Object::setReference\(.*\)$"), [Ptr(V.rid, 0), Ptr(r, 0)]):
            ctx.require(E, s, o[0] == "ret" and not V.events(s), "placing an object: takes no reference")
            if o[0] == "ret":
                ctx.require(E, s, V.address(s, V.rid) == a, "placing an object: it knows its address")
    us.append(Unit("Object::setReference", OBJ + "::setReference", set_reference))

    for fnn, what in (("operator=", "copying"), ("assign", "assigning")):
        for same in (False, True):
            def copy(ctx, fnn=fnn, what=what, same=same):
                P = ctx.P
                V = Var(ctx)
                E, st, L = V.E, V.st, V.lay
                if same:
                    other, src = V.rid, V.old
                else:
                    other, src = V.make(st, "source")
                isref = z3.Bool("source!isref")
                st.w(other).cells[L.isref] = (z3.If(isref, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 1)
                this0 = V.this(st, V.rid)
                view0 = view(E, st, other, L)
                value0 = value(E, st, other, L)
                if fnn == "assign":
                    E.contracts[one(P, r"Slang::Runtime::Object::getValue\(\) const$")] = value_of
                    E.contracts[one(P, r"Slang::Runtime::Object::setValue\(.*\)$")] = store_value
                for s, o in ctx.call(E, st, one(P, re.escape(OBJ + "::" + fnn) + r"\(Slang::Runtime::Object const&\)$"), [Ptr(V.rid, 0), Ptr(other, 0)]):
                    ctx.require(E, s, o[0] == "ret", what + ": ends normally")
                    if o[0] != "ret":
                        continue
                    if same:
                        ctx.require(E, s, not V.events(s), what + ": a variable to itself touches no reference")
                        ctx.require(E, s, z3.And(V.address(s, V.rid) == V.old, V.this(s, V.rid) == this0), what + ": a variable to itself keeps its reference")
                        ctx.require(E, s, equal(view(E, s, V.rid, L), view0), what + ": a variable to itself keeps what it is")
                        continue
                    ctx.require(E, s, equal(view(E, s, V.rid, L), view0), what + ": the variable becomes of the source's kind")
                    ctx.require(E, s, equal(view(E, s, other, L), view0), what + ": the source is not changed")
                    if fnn == "operator=":
                        ctx.require(E, s, equal(value(E, s, V.rid, L), value0), what + ": the source's value")
                        V.rebound(s, src, what)
                        continue
                    if E.decide(s, isref):
                        V.rebound(s, src, what)
                        ctx.require(E, s, ("stored",) not in s.ghost, what + ": a reference is passed on, no value")
                    else:
                        ctx.require(E, s, not V.events(s), what + ": a plain value touches no reference")
                        ctx.require(E, s, s.ghost.get(("stored",)) == (V.rid, other), what + ": a plain value is stored")
            us.append(Unit("Object::%s%s" % (fnn, " itself" if same else ""), OBJ + "::" + fnn, copy, case="to itself" if same else ""))

    for heap in (False, True):
        def gone(ctx, heap=heap):
            P = ctx.P
            V = Var(ctx)
            V.watch = False
            E, st, L = V.E, V.st, V.lay
            if heap:
                st.w(V.rid).cells[L.this] = (Ptr(V.rid, 0), 8)
            else:
                t = z3.Int("object")
                st.pc.append(z3.And(t >= 0, t != E.addr(st, Ptr(V.rid, 0))))
                st.w(V.rid).cells[L.this] = (SPtr(t), 8)
            for c in ("Slang::MethodScope", "Slang::ObjectSymbol"):
                d = [x for x in P.bydem if re.match(re.escape(c) + r"::~\w+\(\)$", x)]
                for x in d:
                    for f in P.bydem[x]:
                        E.contracts[f.name if hasattr(f, "name") else f] = lambda E, s, a, i: [(s, ("ret", None))]
            for s, o in ctx.call(E, st, one(P, r"Slang::Runtime::Object::~Object\(\)$"), [Ptr(V.rid, 0)]):
                ctx.require(E, s, o[0] == "ret", "end of a variable: ends normally")
                ev = V.events(s)
                if heap:
                    ctx.require(E, s, not ev, "end of a heap object: its own address is not counted")
                else:
                    ctx.require(E, s, z3.And(len(ev) == 1, *[z3.And(e[0] == "drop", e[1] == V.old) for e in ev]), "end of a variable: its reference is dropped once")
        us.append(Unit("Object::~Object " + ("heap" if heap else "variable"), OBJ + "::~Object", gone, case="heap object" if heap else "variable"))
    return us


def value_of(E, s, a, i):
    src = E.resolve_ptr(s, a[1])
    s.ghost[("value",)] = src.rid
    return [(s, ("ret", None))]


def store_value(E, s, a, i):
    dst = E.resolve_ptr(s, a[0])
    if ("stored",) in s.ghost:
        raise Unsupported("value stored twice")
    s.ghost[("stored",)] = (dst.rid, s.ghost.get(("value",)))
    return [(s, ("ret", None))]


def view(E, s, rid, L):
    """what kind of object a variable is"""
    P = E.P
    out = [E.get_str(s, Ptr(rid, o)) for o in (L.qtype, L.tname)]
    out += [z3.Extract(0, 0, to_bv(E.load(s, Ptr(rid, o), ir._INTS[8]), 8)) for o in (L.atomic, L.isref)]
    out.append(to_bv(E.load(s, Ptr(rid, L.bptype), ir.I32), 32))
    out.append(E.addr(s, E.load(s, Ptr(rid, L.blueprint), ir.PTR)))
    return out


def value(E, s, rid, L):
    o = L.value
    return [E.get_str(s, Ptr(rid, o + L.av_str)), to_bv(E.load(s, Ptr(rid, o + L.av_type), ir.I32), 32), to_bv(E.load(s, Ptr(rid, o + L.av_val), ir.I64), 64)]


def equal(x, y):
    return z3.And(*[a == b for a, b in zip(x, y)])


# ---- the end of a scope, of the heap ------------------------------------------------------------------------------------
class Ends:
    """counts how often one arbitrary owned thing is destroyed while its owner ends"""

    def __init__(self, ctx, E, st, target):
        self.ctx, self.E, self.P, self.target = ctx, E, ctx.P, target
        st.ghost["destroyed"] = z3.IntVal(0)
        self.facts = []
        self.parts = []         # (container of the pre-state, position of the target in it or None, where it is stored, key of the target)
        E.virtual_hook = self.hook
        E.cand_hooks.append(self.cand)

    def hook(self, E, s, sc, slot, args, ins, depth, fr, impls):
        d = [self.P.dem.get(i, "") for i in impls or []]
        if not d or not all(re.search(r"::~\w+\(\)$", x) for x in d):
            return None
        p = args[0]
        x = E.addr(s, p)
        s.ghost["destroyed"] = s.ghost["destroyed"] + z3.If(x == self.target, 1, 0)
        self.freed(s, x)
        return [(s, ("ret", None))]

    def freed(self, s, x):
        pass

    def listed(self, st, m, key, name, about=lambda k: z3.BoolVal(True)):
        """positions of a keyed container: every key once; about: what is known of a contained key.

        Stated for the given key here and for the position reached wherever a loop is cut."""
        idx = z3.Function(name + ".position", m.ks, IntS)
        self.facts.append(lambda p: z3.Implies(z3.And(p >= 0, p < m.n), z3.And(idx(z3.Select(m.enum, p)) == p, z3.Select(m.dom, z3.Select(m.enum, p)), about(z3.Select(m.enum, p)))))
        st.pc += [self.facts[-1](z3.IntVal(i)) for i in range(3)]
        st.pc.append(z3.Implies(z3.Select(m.dom, key), z3.And(idx(key) >= 0, idx(key) < m.n, z3.Select(m.enum, idx(key)) == key, about(key))))
        return idx(key)

    def cand(self, E, st0, cur, hv, fr, getv):
        out = []
        g = getv(("ghost", "destroyed")) if ("ghost", "destroyed") in hv else None
        for k in hv:
            v = getv(k) if k[0] != "ghost" else None
            if isinstance(v, It) and v.pos is not None:
                p = v.pos
            elif isinstance(v, EPtr) and v.idx.sort() == IntS:
                p = v.idx
            elif isinstance(v, IV) or isinstance(v, z3.BitVecRef) and v.size() >= 32:
                p = to_iv(v).t if not isinstance(v, IV) else v.t
                out.append(("counted %s" % (k,), p >= 0))
            else:
                continue
            cur.pc += [f(p) for f in self.facts]
            for n, (m, at, where, key, mine) in enumerate(self.parts):
                past = at < p
                if g is not None:
                    out.append(("destroyed so far %s %d" % (k, n), g == z3.If(z3.And(mine, past), 1, 0)))
                out += self.more(E, st0, cur, getv, k, n, p)
                if where is not None:
                    c = E.container(cur, where)
                    if isinstance(c, MapV) and c.ks == key.sort():
                        out.append(("left over %s %d" % (k, n), z3.Select(c.dom, key) == z3.And(z3.Select(m.dom, key), z3.Not(past))))
        return out

    def more(self, E, st0, cur, getv, k, n, p):
        return []


def end_units():
    from . import scopes
    us = []
    for cls, what in (("Slang::SymbolScope", "name"), ("Slang::MethodScope", "name"), ("Slang::MethodScope", "method")):
        def run(ctx, cls=cls, what=what):
            P = ctx.P
            E = ctx.engine()
            st = State(E)
            sc = scopes.Scope(ctx, E, st, cls)
            owner = z3.Function("owned_as", IntS, Str)
            kind = z3.Function("owned_kind", IntS, IntS)
            key = ctx.sym("name", Str)
            symbol = lambda k: z3.And(owner(sc.at(sc.syms0, k)) == k, kind(sc.at(sc.syms0, k)) == 1, sc.at(sc.syms0, k) > 0)
            if what == "name":
                target = sc.at(sc.syms0, key)
                st.pc.append(sc.has(sc.syms0, key))
            else:
                target = z3.Int("method")
                st.pc.append(z3.And(target > 0, z3.Select(sc.meth0.dom, target)))
            N = Ends(ctx, E, st, target)
            borrowed = z3.Or(key == strconst("this"), key == strconst("base") if cls.endswith("MethodScope") else False)
            where = Ptr(sc.rid, sc.osyms)
            N.parts.append((sc.syms0, N.listed(st, sc.syms0, key, "names", symbol), where, key, z3.And(what == "name", z3.Not(borrowed))))
            if cls.endswith("MethodScope"):
                mk = target if what == "method" else z3.Int("somemethod")
                N.parts.append((sc.meth0, N.listed(st, sc.meth0, mk, "methods", lambda k: z3.And(kind(k) == 2, k > 0)), Ptr(sc.rid, sc.ometh), mk, z3.BoolVal(what == "method")))
                if what == "method":
                    st.pc.append(kind(target) == 2)
            ctx.cover(E, st.clone(), "two owned", sc.syms0.n > 1)
            for s, o in ctx.call(E, st, P.find(scopes.one_of(P, cls, "deinit")), [Ptr(sc.rid, 0)]):
                ctx.require(E, s, o[0] == "ret", "end of a scope: ends normally")
                if o[0] != "ret":
                    continue
                n = s.ghost["destroyed"]
                ctx.require(E, s, n == (z3.If(borrowed, 0, 1) if what == "name" else 1), "end of a scope: everything defined in it is destroyed exactly once, what it borrows is not")
                if what == "name":
                    ctx.require(E, s, z3.Not(sc.has(sc.map(s, sc.osyms), key)), "end of a scope: no name is left")
        us.append(Unit("deinit %s, a %s" % (cls.split("::")[-1], what), cls + "::deinit", run, case="an arbitrary %s" % what))
    return us


METHOD = "Slang::Common::Method"


def heap_end_unit():
    def run(ctx):
        P = ctx.P
        H = Heap(ctx)
        E, st = H.E, H.st
        key = ctx.sym("address", A32)
        owner = z3.Function("object_address", IntS, A32)
        st.pc.append(H.has(H.m0, key))
        target = H.obj(H.m0, key)
        N = Ends(ctx, E, st, target)
        known = lambda k: z3.And(owner(H.obj(H.m0, k)) == k, H.obj(H.m0, k) > 0)
        at = N.listed(st, H.m0, key, "addresses", known)
        N.parts.append((H.m0, at, None, key, z3.BoolVal(True)))

        other = ctx.sym("other_address", A32)
        j = z3.Int("j!once")
        e = z3.Select(H.m0.enum, j)
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < H.m0.n), z3.Function("addresses.position", A32, IntS)(e) == j), patterns=[e]))
        oat = N.listed(st, H.m0, other, "addresses", known)

        def freed(s, x):
            m = H.map(s)
            ctx.require(E, s, z3.Implies(H.has(m, other), H.obj(m, other) != x), "end of the heap: an object being destroyed is no longer reachable")
        N.freed = freed

        def more(E, st0, cur, getv, k, n, p):
            m = H.map(cur)
            out = [("detached %s %d" % (k, i), z3.Implies(H.has(H.m0, q), H.obj(m, q) == z3.If(w < p, z3.IntVal(0), H.obj(H.m0, q)))) for i, (q, w) in enumerate(((key, at), (other, oat)))]
            j = z3.Int("j!kept")
            e = z3.Select(H.m0.enum, j)
            out.append(("to come %s" % (k,), z3.ForAll([j], z3.Implies(z3.And(j >= p, j < H.m0.n), H.obj(m, e) == H.obj(H.m0, e)), patterns=[e])))
            for rid, r in cur.mem.items():
                for off, e in r.cells.items():
                    if isinstance(e[0], SeqV) and e[0].kind == "vector":
                        x = z3.Select(E.field_arr(e[0], 0, IntS), j)
                        out.append(("kept %s %s %s" % (k, rid, off), z3.And(e[0].n == p, e[0].lo == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), x == H.obj(H.m0, z3.Select(H.m0.enum, j))), patterns=[x]))))
            return out
        N.more = more
        ctx.cover(E, st.clone(), "two objects", H.m0.n > 1)
        for s, o in ctx.call(E, st, fn(P, "deinit"), [Ptr(H.rid, 0)]):
            ctx.require(E, s, o[0] == "ret", "end of the heap: ends normally")
            if o[0] == "ret":
                ctx.require(E, s, s.ghost["destroyed"] == 1, "end of the heap: every object is destroyed exactly once")
                ctx.require(E, s, z3.Not(H.has(H.map(s), key)), "end of the heap: no address is left")
    return [Unit("Memory::deinit", MEM + "::deinit", run)]


def instance_unit():
    """is the object of a type: its own or one of the types it inherits from"""
    f_is = z3.Function("is_instance", IntS, Str, z3.BoolSort())

    def run(ctx):
        P, E = ctx.P, ctx.engine()
        st = State(E)
        rid = E.sym_region(st, "object", cls=[P.ti(OBJ)], size=P.class_size(OBJ))
        t = ctx.sym("type", Str)
        tr = E.sym_region(st, "typestr")
        st.w(tr).cells[0] = (StrV(t), 32)
        fn = one(P, re.escape(OBJ) + r"::isInstanceOf\(.*\) const$")
        st.w(rid).cells[P.field(OBJ, "mThis")] = (Ptr(rid, 0), 8)
        q = E.get_str(st, Ptr(rid, P.field(OBJ, "mQualifiedTypename")))
        at = P.field(OBJ, "mInheritance")
        info = cinfo(E, "map", ["Slang::Designtime::Ancestor", OBJ + "*"])
        c0 = E.container(st, Ptr(rid, at), "map", info)
        k = z3.Const("k!inst", c0.ks)
        kid = z3.Select(E.field_arr(c0, info.voff, IntS), k)
        st.pc.append(z3.ForAll([k], kid > 0, patterns=[kid]))       # addInheritance refuses null

        def rec(E, s, a, ins):
            E.oblige(s, E.get_str(s, a[1]) == t, "spec", "instance: inherited types are asked for the same type")
            return [(s, ("ret", f_is(E.addr(s, a[0]), E.get_str(s, a[1]))))]
        E.contracts[fn] = rec

        def child(c, j):
            k = z3.Select(c.enum, j)
            return f_is(z3.Select(E.field_arr(c, info.voff, IntS), k), t)

        def cand(E, st0, cur, hv, fr, getv):
            out = []
            for k in hv:
                it = getv(k) if k[0] != "ghost" else None
                if isinstance(it, It) and it.pos is not None and (it.rid, it.coff) == (rid, at):
                    c = E.container(cur, Ptr(rid, at))
                    j = z3.Int("j!inst")
                    out.append(("asked %s" % (k,), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it.pos), z3.Not(child(c, j))), patterns=[z3.Select(c.enum, j)])))
                    out.append(("range %s" % (k,), z3.And(it.pos >= 0, it.pos <= c.n)))
            return out
        E.cand_hooks.append(cand)
        ctx.cover(E, st.clone(), "precondition")
        for s, o in ctx.call(E, st, fn, [Ptr(rid, 0), Ptr(tr, 0)], own=False):
            ctx.require(E, s, o[0] == "ret", "instance: ends normally")
            if o[0] != "ret":
                continue
            r = as_bool(o[1])
            i = z3.Int("i!inst")
            c = E.container(s, Ptr(rid, at))
            some = z3.Exists([i], z3.And(i >= 0, i < c.n, child(c, i)), patterns=[z3.Select(c.enum, i)])
            ctx.require(E, s, r == z3.And(t != EMPTY, z3.Or(q == t, some)), "instance: exactly its own type and those it inherits from")
    return [Unit("Object::isInstanceOf", OBJ + "::isInstanceOf", run)]
