"""Symbolic semantics of the lowered code: one pass over every path of a function
produces its verification conditions.

Memory is a set of disjoint regions; a cell holds a scalar, a pointer or the
abstract value of a library object.  Calls are replaced by the callee's contract
when it has one, by a library model, or by the callee's own body.
"""
import re
import struct
import time
import z3

from . import ir
from .ir import (Reg, CInt, CFloat, CNull, CUndef, CZero, CGlobal, CAgg, CBytes, CExpr, IntT, FloatT, PtrT, VoidT,
                 ArrT, StructT, NamedT, VecT, resolve, size_of, field_offset)
from .vals import *


class Unsupported(Exception):
    """the code does something this verifier has no rule for -> error of the check, never a verdict"""


class Fork(Exception):
    """the current instruction depends on an undecided condition: re-run it under each alternative"""

    def __init__(self, conds, fx=None):
        self.conds = conds
        self.fx = fx or [None] * len(conds)


class Budget(Exception):
    pass


class Region:
    __slots__ = ("cells", "base", "kind", "classes", "dead", "owner", "name", "zero", "addr", "size", "sclass", "data", "heap")

    def __init__(self, kind, base=None, name="", size=None):
        self.cells = {}
        self.kind, self.base, self.name, self.size = kind, base, name, size
        self.classes = None
        self.dead = False
        self.owner = None
        self.zero = False
        self.addr = None
        self.sclass = None
        self.data = None
        self.heap = False

    def copy(self):
        r = Region.__new__(Region)
        r.cells = dict(self.cells)
        r.kind, r.base, r.classes, r.dead, r.name, r.zero, r.addr, r.size = (
            self.kind, self.base, self.classes, self.dead, self.name, self.zero, self.addr, self.size)
        r.sclass = self.sclass
        r.data = self.data
        r.heap = self.heap
        r.owner = None
        return r


_quant = {}


ITERATOR = re.compile(r"std::_(List|Rb_tree)(?:_const)?_iterator<")


def algorithm(d):
    """the name of a library algorithm without the iterator type it returns"""
    if not ITERATOR.match(d):
        return d
    n = 0
    for j, c in enumerate(d):
        if c in "<(":
            n += 1
        elif c in ">)" and d[j - 1] != "-":
            n -= 1
            if n == 0:
                rest = d[j + 1:]
                return rest.lstrip() if rest.startswith(" std::") else d
    return d


def fast_add(s, cs):
    """s.add for formulas known to be Boolean"""
    ref = s.ctx.ref()
    for c in cs:
        z3.z3core.Z3_solver_assert(ref, s.solver, c.as_ast())


def has_quantifier(e):
    r = _quant.get(e.get_id())
    if r is None:
        seen, stack, q = set(), [e], False
        while stack and not q:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            q = z3.is_quantifier(x) and not x.is_lambda()
            stack.extend(x.children())
        r = _quant[e.get_id()] = (q, e)
    return r[0]


def pre_str(r, off):
    if r.heap:
        return z3.Function("pre%dS" % off, IntS, Str)(r.addr)
    return z3.Const("%s.%d" % (r.base, off), Str)


class State:
    __slots__ = ("mem", "pc", "events", "ghost", "ptrs", "caught", "E", "_own", "depth", "notes", "inherited")

    def __init__(self, E):
        self.E = E
        self.mem = {}
        self.pc = []
        self.events = []
        self.ghost = {}
        self.ptrs = {}
        self.caught = []
        self._own = object()
        self.depth = 0
        self.notes = []

    def clone(self):
        s = State.__new__(State)
        s.E = self.E
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.ptrs = dict(self.ptrs)
        s.caught = list(self.caught)
        s._own = object()
        self._own = object()
        s.depth = self.depth
        s.notes = list(self.notes)
        return s

    # ---- regions
    def new(self, kind, base=None, name="", size=None):
        rid = self.E.next_rid()
        r = Region(kind, base, name, size)
        r.owner = self._own
        self.mem[rid] = r
        return rid

    def w(self, rid):
        r = self.mem[rid]
        if r.owner is not self._own:
            r = r.copy()
            r.owner = self._own
            self.mem[rid] = r
        return r

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.pc.append(x)
        else:
            self.pc.append(c)

    def event(self, *e):
        self.events.append(e)


def sort_of(t):
    t = resolve(t)
    if isinstance(t, IntT):
        return z3.BoolSort() if t.w == 1 else z3.BitVecSort(t.w)
    if isinstance(t, FloatT):
        return fp_sort(t.k)
    if isinstance(t, PtrT):
        return IntS
    raise Unsupported("sort of %r" % t)


class Obl:
    __slots__ = ("pc", "cond", "kind", "label", "where", "result", "model", "backend", "secs", "st", "ctx")

    def __init__(self, pc, cond, kind, label, where, st=None):
        self.pc, self.cond, self.kind, self.label, self.where, self.st = pc, cond, kind, label, where, st
        self.result = None
        self.model = None
        self.backend = None
        self.secs = 0
        self.ctx = None


class Frame:
    __slots__ = ("fn", "regs", "block", "prev", "idx", "lctx", "allocas")

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.block = None
        self.prev = None
        self.idx = 0
        self.lctx = ()
        self.allocas = []

    def copy(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.block, f.prev, f.idx, f.lctx = self.block, self.prev, self.idx, self.lctx
        f.allocas = list(self.allocas)
        return f


_skolem = {}


def skolem_goal(c, pos=True):
    """to be proved (pos) or assumed: bound variables that stand for an arbitrary value become constants"""
    if not has_quantifier(c):
        return c
    if z3.is_quantifier(c):
        if c.is_forall() != pos:
            return c
        k = c.get_id()
        if k not in _skolem:
            _skolem[k] = (c, [z3.Const("sk!%d.%s" % (len(_skolem), c.var_name(i).split("!")[0]), c.var_sort(i)) for i in range(c.num_vars())])
        vs = _skolem[k][1]
        return skolem_goal(z3.substitute_vars(c.body(), *reversed(vs)), pos)
    if z3.is_not(c):
        return z3.Not(skolem_goal(c.arg(0), not pos))
    if z3.is_and(c):
        return z3.And(*[skolem_goal(x, pos) for x in c.children()])
    if z3.is_or(c):
        return z3.Or(*[skolem_goal(x, pos) for x in c.children()])
    if z3.is_implies(c):
        return z3.Implies(skolem_goal(c.arg(0), not pos), skolem_goal(c.arg(1), pos))
    return c


class Engine:
    MAXPATHS = 6000
    MAXDEPTH = 60

    def __init__(self, prog):
        self.P = prog
        self._rid = 0
        self.obls = []
        self.models = {}
        self.model_rx = []
        self.contracts = {}     # symbol -> apply function
        self.inline_deny = None
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self._mcache = {}
        self.loopspec = {}
        self.unroll = 4
        self.deadline = None
        self.axioms_used = {}
        self.loopinv = {}
        self.bounded = []
        self.cur_where = ""
        self._fcache = {}
        self.packs = {}
        self.loop_policy = None
        self.unroll_max = 6
        self.peel_max = 40
        self.quiet = 0
        self.loops_cut = []
        self.loop_obligations = 0
        self.cand_hooks = []
        self.lazy = {}
        self.light = False            # loops: no quantified invariants but those of the specification
        self.axiom_hooks = []
        self.alias_split = False
        self.globals_init = {}
        self.paths = 0
        self.solver_s = 0.0
        self.q = 0
        self.safety = True
        self.global_hook = None
        self.virtual_hook = None
        self.key_leaves = {}          # class -> offsets of the parts its order looks at
        from . import stl
        stl.install(self)

    def next_rid(self):
        self._rid += 1
        return self._rid

    # ------------------------------------------------------------- solving
    def axioms(self, exprs):
        """definitional facts about the abstract string terms occurring in exprs"""
        from .axioms import collect
        return collect(exprs)

    def check(self, cs, timeout=3000, qtimeout=None):
        """sat/unsat/unknown of a conjunction"""
        key = tuple(sorted(c.get_id() for c in cs))
        r = self._fcache.get(key)
        if r is not None:
            return r[0]
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t0 = time.time()
        cs = self.expand(cs)
        ax = self.axioms(cs)
        plain = [c for c in cs if not has_quantifier(c)]
        r = "sat"
        for part, tmo in (((plain, timeout), (cs, qtimeout or timeout)) if len(plain) < len(cs) else ((cs, timeout),)):
            s = z3.Solver()
            s.set("timeout", tmo)
            fast_add(s, part)
            fast_add(s, ax)
            r = str(s.check())
            if r == "unsat":
                break
        self.solver_s += time.time() - t0
        self.q += 1
        self._fcache[key] = (r, list(cs))
        return r

    def expand(self, cs):
        out = []
        for c in cs:
            k = self.loopinv.get(c.get_id())
            if k is None:
                out.append(c)
            else:
                out.extend(k[1])
        return out

    def feasible(self, st, c=None):
        # definitions of the specification do not cut paths off
        cs = [x for x in st.pc if x.get_id() not in self.lazy] if self.lazy else list(st.pc)
        if c is not None:
            c = z3.simplify(c)
            if z3.is_true(c):
                c = None
            elif z3.is_false(c):
                return False
            else:
                cs.append(c)
        return self.check(cs, qtimeout=500) != "unsat"

    def entails(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return self.check(list(st.pc) + [z3.Not(skolem_goal(c))]) == "unsat"

    def entailed(self, st, named):
        """names of the facts that hold in st; facts are tried together, and those a model refutes are left out"""
        out, rest = set(), []
        for n, c in named:
            c = z3.simplify(c)
            if z3.is_true(c):
                out.add(n)
            elif not z3.is_false(c):
                rest.append((n, c, skolem_goal(c)))
        single = [x for x in rest if has_quantifier(x[2])]
        group = [x for x in rest if not has_quantifier(x[2])]
        if len(group) < 4:
            single, group = rest, []
        if group:
            pc = self.expand(list(st.pc))
            plain = [c for c in pc if not has_quantifier(c)]
            ax = self.axioms(pc + [g for _, _, g in group])
            s = z3.Solver()
            s.set("timeout", 5000)
            fast_add(s, plain)
            fast_add(s, ax)
            t0 = time.time()
            while group:
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                s.push()
                s.add(z3.Or(*[z3.Not(g) for _, _, g in group]))
                r = str(s.check())
                self.q += 1
                if r == "unsat":
                    out.update(n for n, _, _ in group)
                    break
                wrong = []
                if r == "sat":
                    m = s.model()
                    wrong = [x for x in group if z3.is_false(m.eval(x[2], model_completion=True))]
                s.pop()
                if not wrong:
                    single += group
                    break
                if len(plain) < len(pc):
                    single += wrong
                ids = {x[0] for x in wrong}
                group = [x for x in group if x[0] not in ids]
            self.solver_s += time.time() - t0
        for n, c, _ in single:
            if self.entails(st, c):
                out.add(n)
        return out

    def oblige(self, st, cond, kind, label):
        """record obligation, then assume it"""
        c = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        o = Obl(list(st.pc), c, kind, label, self.cur_where, st)
        self.obls.append(o)
        if not z3.is_true(c):
            if z3.is_false(c):
                st.pc.append(z3.BoolVal(False))
            else:
                st.pc.append(c)

    def decide(self, st, c):
        """truth value of c on this path; forks if open"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ids = {x.get_id() for x in st.pc}
        if c.get_id() in ids:
            return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in ids:
            return False
        t, f = self.feasible(st, c), self.feasible(st, nc)
        if t and f:
            raise Fork([c, nc])
        if t:
            return True
        if f:
            return False
        raise Fork([])  # path is dead

    # ------------------------------------------------------------- memory
    def addr(self, st, p):
        """integer term for a pointer value"""
        if isinstance(p, Ptr):
            if p.rid == 0:
                return z3.IntVal(p.off)
            r = st.mem[p.rid]
            if r.addr is not None:
                return r.addr + p.off if p.off else r.addr
            return z3.IntVal(-p.rid * (1 << 20) + p.off)
        if isinstance(p, SPtr):
            return p.t + p.off if p.off else p.t
        if isinstance(p, FnPtr):
            return z3.Int("fn!" + p.name)
        raise Unsupported("address of %r" % (p,))

    def ptr_from(self, st, t):
        t = z3.simplify(t)
        if isinstance(t, z3.IntNumRef):
            v = t.as_long()
            if v == 0:
                return NULL
            if v < 0:
                rid = (-v + (1 << 20) - 1) >> 20
                off = v + rid * (1 << 20)
                return Ptr(rid, off)
        return SPtr(t)

    def resolve_ptr(self, st, p, what="dereference"):
        """make a pointer concrete enough to access memory"""
        if isinstance(p, (EPtr, CPtr, LPtr, VPtr)):
            return p
        if isinstance(p, Ptr):
            if p.rid == 0:
                self.oblige(st, False, "safety", "null pointer " + what)
                raise Fork([])
            r = st.mem.get(p.rid)
            if r is None or r.dead:
                self.oblige(st, False, "safety", "use of dead object (%s)" % (r.name if r else "local variable"))
                raise Fork([])
            return p
        if isinstance(p, SPtr):
            t = z3.simplify(p.t)
            q = self.ptr_from(st, t)
            if isinstance(q, Ptr):
                return self.resolve_ptr(st, Ptr(q.rid, q.off + p.off), what)
            key = t.get_id()
            e = st.ptrs.get(key)
            if e is not None:
                return Ptr(e[0], p.off)
            if not self.entails(st, t != 0):
                self.oblige(st, t != 0, "safety", "null pointer " + what)
                if not self.feasible(st):
                    raise Fork([])
            # must/may alias with materialised regions
            for k, (rid, tt) in list(st.ptrs.items()):
                if st.mem[rid].kind != "sym" or not tt.sort() == t.sort():
                    continue
                eq = z3.simplify(t == tt)
                if z3.is_false(eq):
                    continue
                if self.entails(st, eq):
                    st.ptrs[key] = (rid, t)
                    return Ptr(rid, p.off)
                if self.alias_split and self.feasible(st, eq):
                    raise Fork([eq, t != tt])
            neg = [rid for rid in st.mem if st.mem[rid].addr is None and st.mem[rid].kind in ("heap", "alloca", "global")]
            if not self.entails(st, t >= 0):
                # may point to a region created on this path
                for rid in neg:
                    a = z3.IntVal(-rid * (1 << 20))
                    if self.feasible(st, t == a):
                        raise Fork([t == a, t != a])
            rid = st.new("sym", base=fresh_name("m"), name=str(t)[:60])
            r = st.w(rid)
            r.addr = t
            r.base = "[%s]" % t if len(str(t)) < 80 else r.base
            r.heap = True
            for k, (rid2, tt) in st.ptrs.items():
                if st.mem[rid2].kind == "sym":
                    st.pc.append(t != tt)
            st.ptrs[key] = (rid, t)
            self.assumptions.add("separation: objects reached through different pointer fields are distinct unless the contract says otherwise")
            return Ptr(rid, p.off)
        if isinstance(p, It):
            return p
        raise Unsupported("deref of %r" % (p,))

    def sym_region(self, st, name, cls=None, size=None, addr=None):
        """a fresh object of the pre-state"""
        rid = st.new("sym", base=name, name=name, size=size)
        r = st.w(rid)
        a = addr if addr is not None else z3.Int("&" + name)
        r.addr = a
        if cls:
            r.classes = frozenset(cls)
        st.pc.append(a > 0)
        for k, (rid2, tt) in st.ptrs.items():
            st.pc.append(a != tt)
        st.ptrs[a.get_id()] = (rid, a)
        return rid

    def default_value(self, t, name):
        t = resolve(t)
        if isinstance(t, IntT):
            return z3.Bool(name) if t.w == 1 else z3.BitVec(name, t.w)
        if isinstance(t, FloatT):
            return z3.FP(name, fp_sort(t.k))
        if isinstance(t, PtrT):
            return SPtr(z3.Int(name))
        raise Unsupported("value of %r" % t)

    def pre_value(self, r, off, t):
        """what a not yet accessed field held before the call; a function of the address for objects reached by pointer"""
        if r.heap:
            f = z3.Function("pre%d%s" % (off, sort_of(t)), IntS, sort_of(t))(r.addr)
            return SPtr(f) if isinstance(resolve(t), PtrT) else f
        return self.default_value(t, "%s.%d%s" % (r.base, off, "" if not isinstance(t, FloatT) else t.k[0]))

    def zero_value(self, t):
        t = resolve(t)
        if isinstance(t, IntT):
            return z3.BoolVal(False) if t.w == 1 else z3.BitVecVal(0, t.w)
        if isinstance(t, FloatT):
            return z3.FPVal(0.0, fp_sort(t.k))
        if isinstance(t, PtrT):
            return NULL
        if isinstance(t, StructT):
            return tuple(self.zero_value(e) for e in t.elems)
        if isinstance(t, ArrT):
            return tuple(self.zero_value(t.t) for _ in range(t.n))
        raise Unsupported("zero %r" % t)

    def coerce(self, st, v, t):
        """reinterpret loaded value v as type t of the same size"""
        t = resolve(t)
        if isinstance(v, Undef):
            return self.default_value(t, fresh_name("undef"))
        if isinstance(t, PtrT):
            if isinstance(v, (Ptr, SPtr, EPtr, CPtr, LPtr, It, VPtr, VFn, FnPtr)):
                return v
            if isinstance(v, z3.BitVecNumRef) and v.as_long() == 0:
                return NULL
            raise Unsupported("pointer from %r" % (v,))
        if isinstance(t, IntT):
            if isinstance(v, IV):
                if v.w == t.w:
                    return v
                if t.w < v.w:
                    return self.trunc(v, t.w)
            if isinstance(v, z3.BoolRef):
                if t.w == 1:
                    return v
                return to_bv(v, t.w)
            if isinstance(v, z3.BitVecRef):
                if v.size() == t.w:
                    return v
                if v.size() > t.w:
                    if t.w == 1:
                        return z3.simplify(z3.Extract(0, 0, v) == 1)
                    return z3.simplify(z3.Extract(t.w - 1, 0, v))
            if isinstance(v, z3.FPRef):
                b = z3.fpToIEEEBV(v)
                if b.size() == t.w:
                    return z3.simplify(b)
                if b.size() > t.w:
                    return z3.simplify(z3.Extract(t.w - 1, 0, b))
            if isinstance(v, (Ptr, SPtr)):
                if isinstance(v, Ptr) and v.rid == 0:
                    return z3.BitVecVal(v.off, t.w)
                return IV(self.addr(st, v), t.w, 0, (1 << t.w) - 1)
        if isinstance(t, FloatT):
            s = fp_sort(t.k)
            if isinstance(v, z3.FPRef):
                if v.sort() == s:
                    return v
                if s == F32:
                    return z3.fpBVToFP(z3.Extract(31, 0, z3.fpToIEEEBV(v)), F32)
            if isinstance(v, IV):
                v = v.bv()
            if isinstance(v, z3.BitVecRef):
                w = 32 if s == F32 else 64
                if v.size() == w:
                    return z3.simplify(z3.fpBVToFP(v, s))
                if v.size() > w:
                    return z3.simplify(z3.fpBVToFP(z3.Extract(w - 1, 0, v), s))
        raise Unsupported("reinterpret %r as %r" % (v, t))

    def vsize(self, v):
        if isinstance(v, (z3.BitVecRef,)):
            return max(1, v.size() // 8)
        if isinstance(v, z3.BoolRef):
            return 1
        if isinstance(v, IV):
            return max(1, v.w // 8)
        if isinstance(v, z3.FPRef):
            return 4 if v.sort() == F32 else 8
        return 8

    def load(self, st, p, t):
        t = resolve(t)
        if isinstance(t, StructT):
            return tuple(self.load(st, self.padd(p, field_offset(t, i)), e) for i, e in enumerate(t.elems))
        if isinstance(t, ArrT):
            es = size_of(t.t)
            return tuple(self.load(st, self.padd(p, i * es), t.t) for i in range(t.n))
        p = self.resolve_ptr(st, p, "read")
        if isinstance(p, EPtr):
            return self.eload(st, p, t)
        if isinstance(p, CPtr):
            s = self.get_str(st, p.base)
            return self.char_at(st, s, p.pos)
        if isinstance(p, LPtr):
            return self.char_at(st, p.s, p.pos)
        if isinstance(p, VPtr):
            return VFn(p.rid, p.off, p.slot)
        r = st.mem[p.rid]
        off = p.off
        size = size_of(t)
        e = r.cells.get(off)
        if e is not None:
            v, vs = e
            if type(v) is tuple and v[0] == "lazy":
                v = self.const(st, v[2], v[1], v[3])
                st.w(p.rid).cells[off] = (v, vs)
            if vs == size and not isinstance(v, (StrV, SeqV, MapV, StreamV, Opaque)):
                return self.coerce(st, v, t)
            if isinstance(v, (StrV, SeqV, MapV, StreamV, Opaque)):
                raise Unsupported("raw read of library object in %s+%d" % (r.name, off))
            if vs > size:
                return self.coerce(st, v, t)
        # covering cell
        for o, (v, vs) in r.cells.items():
            if o < off < o + vs:
                if isinstance(v, (StrV, SeqV, MapV, StreamV, Opaque)):
                    raise Unsupported("raw read inside library object %s+%d" % (r.name, off))
                if off + size <= o + vs:
                    b = to_bv(v) if not isinstance(v, z3.FPRef) else z3.fpToIEEEBV(v)
                    if isinstance(b, z3.BitVecRef):
                        sh = (off - o) * 8
                        return self.coerce(st, z3.simplify(z3.Extract(sh + size * 8 - 1, sh, b)), t)
        # composed of smaller cells
        if isinstance(t, IntT) and t.w > 8:
            parts = []
            o = off
            ok = True
            while o < off + size:
                c = r.cells.get(o)
                if c is None or isinstance(c[0], (StrV, SeqV, MapV, Ptr, SPtr)) or o + c[1] > off + size:
                    ok = False
                    break
                parts.append(to_bv(c[0]) if not isinstance(c[0], z3.FPRef) else z3.fpToIEEEBV(c[0]))
                o += c[1]
            if ok and parts:
                return z3.simplify(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])
        if r.kind == "const":
            return self.const_read(st, r, off, t)
        if r.zero:
            return self.zero_value(t)
        if r.base is not None:
            v = self.pre_value(r, off, t)
            if isinstance(v, SPtr):
                st.pc.append(v.t >= 0)
            w = st.w(p.rid)
            w.cells[off] = (v, size)
            return v
        v = self.default_value(t, fresh_name("uninit"))
        st.w(p.rid).cells[off] = (v, size)
        return v

    def load_vptr(self, st, p, ti):
        """vtable pointer of an object whose static class is ti"""
        p = self.resolve_ptr(st, p, "virtual call")
        if not isinstance(p, Ptr):
            raise Unsupported("virtual call on container element")
        r = st.mem[p.rid]
        e = r.cells.get(p.off)
        if e is not None:
            return e[0]
        if r.base is None and r.classes is None:
            raise Unsupported("virtual call on unconstructed object " + r.name)
        self.static_class(st, p, ti)
        return VPtr(p.rid, p.off)

    def static_class(self, st, p, ti):
        r = st.mem[p.rid]
        old = (r.sclass or {}).get(p.off)
        if old is None or (old != ti and self.P.derives(ti, old)):
            w = st.w(p.rid)
            w.sclass = dict(w.sclass or {})
            w.sclass[p.off] = ti

    def dyn_classes(self, st, p):
        """possible dynamic classes of the object at p (None: unknown), exact when constructed on this path"""
        r = st.mem[p.rid]
        e = r.cells.get(p.off)
        if e is not None and isinstance(e[0], Ptr):
            n = st.mem[e[0].rid].name
            if n.startswith("_ZTV"):
                return frozenset(["_ZTI" + n[4:]])
        if r.classes is not None:
            return r.classes
        sc = (r.sclass or {}).get(p.off)
        if sc is not None:
            return frozenset(c for c in self.P.subclasses(sc) if self.P.vtable(c) and not self.P.is_abstract(c))
        return None

    def eload(self, st, p, t):
        c = self.container(st, cloc(p))
        sort = sort_of(t)
        if isinstance(c, MapV) and self.key_field(c, p.off, t):
            return self.from_key(st, p.idx, t, c)
        arr = self.field_arr(c, p.off, sort)
        v = z3.simplify(z3.Select(arr, p.idx))
        if isinstance(resolve(t), PtrT):
            q = self.ptr_from(st, v)
            if isinstance(q, SPtr) and not self._has_store(v):
                st.pc.append(v >= 0)
            return q
        return v

    def _has_store(self, v):
        return "store" in v.sexpr()[:4000] or "ite" in v.sexpr()[:4000]

    def key_field(self, c, off, t):
        return c.kind in ("map", "set", "uset") and off < c.kl

    def from_key(self, st, k, t, c):
        if isinstance(resolve(t), PtrT):
            q = self.ptr_from(st, k)
            if isinstance(q, SPtr) and z3.is_const(c.dom):
                st.pc.append(k >= 0)
            return q
        return k

    def field_arr(self, c, off, sort):
        e = c.fields.get(off)
        if e is not None:
            if e.sort().range() == sort:
                return e
            raise Unsupported("element field %d read as %s, holds %s" % (off, sort, e.sort().range()))
        ks = IntS if isinstance(c, SeqV) else c.ks
        return z3.Const("%s.f%d" % (c.base, off), z3.ArraySort(ks, sort))

    def estore(self, st, p, v):
        c = self.container(st, cloc(p))
        if isinstance(v, StrV):
            t = v.t
        elif isinstance(v, (Ptr, SPtr, FnPtr)):
            t = self.addr(st, v)
        elif isinstance(v, IV):
            t = to_bv(v)
        else:
            t = v
        if isinstance(c, MapV) and p.off < c.kl:
            return
        arr = self.field_arr(c, p.off, t.sort())
        f = dict(c.fields)
        f[p.off] = z3.Store(arr, p.idx, t)
        self.set_container(st, cloc(p), c.with_(fields=f))

    CSIZE = {"list": 24, "vector": 24, "map": 48, "set": 48, "uset": 56}

    def container(self, st, p, kind=None, info=None):
        """container value stored at p (creating the symbolic one of the pre-state on first use)"""
        p = self.resolve_ptr(st, p, "container access")
        if isinstance(p, EPtr):
            c = self.container(st, cloc(p))
            v = z3.simplify(z3.Select(self.field_arr(c, p.off, AnyS), p.idx))
            return self.unpack(st, v, kind, info)
        if not isinstance(p, Ptr):
            raise Unsupported("container at %r" % (p,))
        r = st.mem[p.rid]
        e = r.cells.get(p.off)
        if e is not None:
            if isinstance(e[0], (SeqV, MapV)):
                return e[0]
            if isinstance(e[0], z3.ExprRef) and e[0].sort() == AnyS:
                return self.unpack(st, e[0], kind, info)
            raise Unsupported("container expected at %s+%d: %r" % (r.name, p.off, e[0]))
        if kind is None:
            raise Unsupported("container of unknown kind at %s+%d" % (r.name, p.off))
        if r.base is None:
            raise Unsupported("container not constructed at %s+%d" % (r.name, p.off))
        b = "%s.%d" % (r.base, p.off)
        v = self.sym_container(st, b, kind, info)
        st.w(p.rid).cells[p.off] = (v, self.CSIZE[kind])
        return v

    def unpack(self, st, v, kind=None, info=None):
        e = self.packs.get(v.get_id())
        if e is not None:
            return e[1]
        if kind is None:
            raise Unsupported("nested container of unknown kind")
        c = self.sym_container(st, "{%s}" % v.sexpr() if len(v.sexpr()) < 100 else fresh_name("c"), kind, info)
        self.packs[v.get_id()] = (v, c)
        return c

    def pack(self, c):
        k = z3.Const(fresh_name("pack"), AnyS)
        self.packs[k.get_id()] = (k, c)
        return k

    def sym_container(self, st, b, kind, info):
        n = z3.Int(b + ".n")
        st.pc.append(n >= 0)
        st.pc.append(n < (1 << 31))
        if kind in ("list", "vector"):
            return SeqV(b, n, kind=kind, esize=info.esize, lv=info.lv)
        return MapV(b, n, z3.Const(b + ".dom", z3.ArraySort(info.ks, z3.BoolSort())), kind=kind, ks=info.ks, lv=info.lv,
                    kl=info.kl)

    def set_container(self, st, p, v):
        p = self.resolve_ptr(st, p, "container write")
        if isinstance(p, EPtr):
            return self.estore(st, p, self.pack(v))
        w = st.w(p.rid)
        sz = self.CSIZE[v.kind]
        e = w.cells.get(p.off)
        if e is None or not isinstance(e[0], (SeqV, MapV)):
            self._clear(w, p.off, sz)
        w.cells[p.off] = (v, sz)

    def _clear(self, w, off, size):
        for o in [o for o, (v, vs) in w.cells.items() if o < off + size and off < o + vs]:
            v, vs = w.cells.pop(o)
            # keep untouched parts of partially overwritten scalars
            if (o < off or o + vs > off + size) and isinstance(v, (z3.BitVecRef, z3.FPRef, IV)):
                b = to_bv(v) if not isinstance(v, z3.FPRef) else z3.fpToIEEEBV(v)
                if o < off:
                    w.cells[o] = (z3.simplify(z3.Extract((off - o) * 8 - 1, 0, b)), off - o)
                if o + vs > off + size:
                    k = off + size - o
                    w.cells[off + size] = (z3.simplify(z3.Extract(vs * 8 - 1, k * 8, b)), o + vs - off - size)

    def store(self, st, p, v, t):
        t = resolve(t)
        if isinstance(v, tuple):
            if isinstance(t, StructT):
                for i, e in enumerate(t.elems):
                    self.store(st, self.padd(p, field_offset(t, i)), v[i], e)
            else:
                es = size_of(t.t)
                for i in range(t.n):
                    self.store(st, self.padd(p, i * es), v[i], t.t)
            return
        p = self.resolve_ptr(st, p, "write")
        if isinstance(p, EPtr):
            return self.estore(st, p, v)
        if isinstance(p, CPtr):
            s = self.get_str(st, p.base)
            self.set_str(st, p.base, self.str_set(st, s, p.pos, to_iv(v).t))
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store to %r" % (p,))
        r = st.mem[p.rid]
        if r.kind == "const":
            raise Unsupported("store to constant " + r.name)
        w = st.w(p.rid)
        size = size_of(t)
        e = w.cells.get(p.off)
        if e is None or e[1] != size:
            self._clear(w, p.off, size)
        if w.sclass and p.off in w.sclass:
            w.sclass = {k: x for k, x in w.sclass.items() if k != p.off}
        w.cells[p.off] = (v, size)

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.rid, p.off + k)
        if isinstance(p, SPtr):
            return SPtr(p.t, p.off + k)
        if isinstance(p, EPtr):
            return EPtr(p.rid, p.coff, p.idx, p.off + k)
        if isinstance(p, VPtr):
            return VPtr(p.rid, p.off, p.slot + k // 8)
        if isinstance(p, CPtr):
            return CPtr(p.base, z3.simplify(p.pos + k))
        if isinstance(p, LPtr):
            return LPtr(p.s, z3.simplify(p.pos + k))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    # ------------------------------------------------------------- strings
    def get_str(self, st, p):
        p = self.resolve_ptr(st, p, "string access")
        if isinstance(p, EPtr):
            c = self.container(st, cloc(p))
            if isinstance(c, MapV) and p.off == 0 and c.kl != 0:
                if p.idx.sort() != Str:
                    raise Unsupported("string part of a composite key")
                return p.idx
            return z3.simplify(z3.Select(self.field_arr(c, p.off, Str), p.idx))
        if not isinstance(p, Ptr):
            raise Unsupported("string at %r" % (p,))
        r = st.mem[p.rid]
        e = r.cells.get(p.off)
        if e is not None:
            if isinstance(e[0], StrV):
                return e[0].t
            raise Unsupported("string expected at %s+%d, found %r" % (r.name, p.off, e[0]))
        if r.base is None:
            raise Unsupported("string not constructed at %s+%d" % (r.name, p.off))
        t = pre_str(r, p.off)
        st.w(p.rid).cells[p.off] = (StrV(t), 32)
        return t

    def set_str(self, st, p, t):
        p = self.resolve_ptr(st, p, "string write")
        if isinstance(p, EPtr):
            return self.estore(st, p, StrV(t))
        w = st.w(p.rid)
        e = w.cells.get(p.off)
        if e is None or not isinstance(e[0], StrV):
            self._clear(w, p.off, 32)
        w.cells[p.off] = (StrV(t), 32)

    def char_at(self, st, s, pos):
        """character value (0..255) at pos; the terminating NUL at pos == length"""
        pos = z3.simplify(pos)
        b = const_of(s)
        if b is not None and isinstance(pos, z3.IntNumRef):
            i = pos.as_long()
            if 0 <= i < len(b):
                return z3.BitVecVal(b[i], 8)
            if i == len(b):
                return z3.BitVecVal(0, 8)
        n = self.slen(s)
        if isinstance(n, z3.IntNumRef) or True:
            inb = z3.simplify(z3.And(pos >= 0, pos < n))
            if z3.is_true(inb) or self.entails(st, inb):
                return IV(f_at(s, pos), 8, 0, 255)
            self.oblige(st, z3.And(pos >= 0, pos <= n), "safety", "string index within bounds")
            return IV(z3.If(pos < n, f_at(s, pos), z3.IntVal(0)), 8, 0, 255)

    def slen(self, s):
        b = const_of(s)
        if b is not None:
            return z3.IntVal(len(b))
        return f_len(s)

    def scat(self, a, b):
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return strconst(ca + cb)
        if ca == b"":
            return b
        if cb == b"":
            return a
        # right-associate so that equal concatenations are equal terms
        if a.decl().eq(f_cat):
            return self.scat(a.arg(0), self.scat(a.arg(1), b))
        if ca is not None and b.decl().eq(f_cat):
            cb0 = const_of(b.arg(0))
            if cb0 is not None:
                return self.scat(strconst(ca + cb0), b.arg(1))
        return f_cat(a, b)

    def str_set(self, st, s, pos, code):
        pos = z3.simplify(pos)
        return f_set(s, pos, z3.simplify(code))

    def cstr(self, st, p):
        """abstract string for a const char*"""
        p = self.resolve_ptr(st, p, "C string read")
        if isinstance(p, LPtr):
            if isinstance(p.pos, z3.IntNumRef) and p.pos.as_long() == 0:
                return p.s
            return f_sub(p.s, p.pos, self.slen(p.s) - p.pos)
        if isinstance(p, CPtr):
            s = self.get_str(st, p.base)
            if isinstance(z3.simplify(p.pos), z3.IntNumRef) and z3.simplify(p.pos).as_long() == 0:
                return s
            return f_sub(s, p.pos, self.slen(s) - p.pos)
        if isinstance(p, Ptr):
            b = self.const_bytes(st, p)
            if b is not None:
                k = b.find(b"\0")
                return strconst(b[:k] if k >= 0 else b)
            r = st.mem[p.rid]
            if r.base is not None:
                return z3.Const("cstr(%s.%d)" % (r.base, p.off), Str)
        raise Unsupported("C string at %r" % (p,))

    def const_bytes(self, st, p):
        r = st.mem.get(p.rid)
        if r is None:
            return None
        if r.data is not None:
            return r.data[p.off:]
        # array of constant i8 cells
        out = bytearray()
        o = p.off
        while True:
            e = r.cells.get(o)
            if e is None or cint(e[0]) is None or e[1] != 1:
                return None
            v = cint(e[0])
            if v == 0:
                return bytes(out)
            out.append(v)
            o += 1

    # ------------------------------------------------------------- constants
    def global_ptr(self, st, name, mod):
        """pointer to global variable; loads its initialiser into the state on first use"""
        f = self.P.lookup(name, mod)
        if f is not None:
            return FnPtr(name, mod)
        m = mod if (mod is not None and name in mod.gtext and not re.match(r"external|extern_weak|available", mod.gtext[name])) else self.P.gdef.get(name)
        key = ("g", name, id(m) if m is not None and re.match(r"(internal|private)", m.gtext.get(name, "")) else 0)
        rid = st.ptrs.get(key)
        if rid is not None:
            return Ptr(rid[0], 0)
        if m is None:
            if name in self.P.dem and ("(" in self.P.dem[name] or name in (mod.decls if mod else ())):
                return FnPtr(name, mod)
            if mod is not None and name in mod.decls:
                return FnPtr(name, mod)
            rid = st.new("global", base="@" + name, name=name)
            st.ptrs[key] = (rid, z3.IntVal(-rid * (1 << 20)))
            return Ptr(rid, 0)
        if self.global_hook:
            h = self.global_hook(st, name, m)
            if h is not None:
                st.ptrs[key] = (h, z3.IntVal(-h * (1 << 20)))
                return Ptr(h, 0)
        t, v, ext = m.global_init(name)
        const = bool(re.search(r"\bconstant\b", m.gtext[name][:160]))
        rid = st.new("const" if const else "global", name=name)
        st.ptrs[key] = (rid, z3.IntVal(-rid * (1 << 20)))
        w = st.w(rid)
        dyn = None
        if not const:
            dyn = self.dyn_init(name, m)
        if dyn is not None:
            w.cells.update(dyn)
        elif not const:
            w.base = "@" + name
            w.kind = "global"
            if self._effectively_const(name, m):
                w.base = None
                self._init(st, w, 0, t, v, m)
        else:
            self._init(st, w, 0, t, v, m)
        return Ptr(rid, 0)

    def _effectively_const(self, name, m):
        """internal global never stored to anywhere in its module (e.g. static const char* X)"""
        if not re.match(r"(internal|private)", m.gtext[name]):
            return False
        c = getattr(m, "_stored", None)
        if c is None:
            c = set()
            for f in m.functions.values():
                if f._body:
                    for ln in f._body:
                        s = ln.strip()
                        if s.startswith("store "):
                            mm = re.search(r", ptr @([-a-zA-Z$._0-9]+)", s)
                            if mm:
                                c.add(mm.group(1))
                else:
                    for b in f.blocks.values():
                        for i in b:
                            if i.op == "store" and isinstance(i.args[1], CGlobal):
                                c.add(i.args[1].name)
            m._stored = c
        return name not in c

    def dyn_init(self, name, m):
        """run the module's dynamic initialiser of one global and return its cells"""
        key = (name, id(m))
        if key in self.globals_init:
            return self.globals_init[key]
        self.globals_init[key] = None
        rx = re.compile(r"@" + re.escape(name) + r"\b")
        for fn in m.functions.values():
            if not fn.name.startswith("__cxx_global_var_init"):
                continue
            txt = fn._body if fn._body is not None else getattr(fn, "_text", [])
            if any(rx.search(l) and ("call " in l or "store " in l or "invoke " in l) and "__cxa_atexit" not in l for l in txt):
                fn._text = list(txt)
                st = State(self)
                t, v, ext = m.global_init(name)
                rid = st.new("global", name=name)
                st.w(rid).zero = True
                internal = bool(re.match(r"(internal|private)", m.gtext.get(name, "")))
                st.ptrs[("g", name, id(m) if internal else 0)] = (rid, z3.IntVal(-rid * (1 << 20)))
                save = (self.obls, self.cur_where, self.contracts)
                self.contracts = {}
                try:
                    outs = self.run(st, fn, [])
                finally:
                    self.obls, self.cur_where, self.contracts = save
                if len(outs) == 1 and outs[0][1][0] == "ret":
                    cells = dict(outs[0][0].mem[rid].cells)
                    if all(not isinstance(c[0], (Ptr, EPtr)) for c in cells.values()):
                        self.globals_init[key] = cells
                        self.assumptions.add("namespace-scope objects keep the value their initialiser gives them")
                        return cells
        return None

    def _init(self, st, w, off, t, v, m):
        t = resolve(t)
        if v is None:
            return
        if isinstance(v, CBytes):
            if off == 0 and not w.cells:
                w.data = v.data
            else:
                for i, b in enumerate(v.data):
                    w.cells[off + i] = (z3.BitVecVal(b, 8), 1)
            return
        if isinstance(v, CZero):
            if isinstance(t, ArrT) and isinstance(resolve(t.t), IntT) and resolve(t.t).w == 8 and off == 0:
                w.data = b"\0" * t.n
                return
            w.zero = True
            return
        if isinstance(v, CAgg):
            for i, (et, ev) in enumerate(v.elems):
                o = field_offset(t, i) if isinstance(t, StructT) else i * size_of(t.t)
                self._init(st, w, off + o, et, ev, m)
            return
        if isinstance(v, CUndef):
            return
        # scalars: evaluated lazily to avoid loading everything reachable
        w.cells[off] = (("lazy", t, v, m), size_of(t))

    def const_read(self, st, r, off, t):
        if r.data is not None:
            size = size_of(t)
            d = r.data[off:off + size]
            if len(d) == size and isinstance(resolve(t), IntT):
                return z3.BitVecVal(int.from_bytes(d, "little"), resolve(t).w)
        if r.zero:
            return self.zero_value(t)
        raise Unsupported("constant read %s+%d" % (r.name, off))

    def const(self, st, v, t, mod):
        if isinstance(v, CInt):
            w = resolve(v.t).w
            return z3.BoolVal(bool(v.v)) if w == 1 else z3.BitVecVal(v.v, w)
        if isinstance(v, CFloat):
            s = fp_sort(v.t.k)
            if v.v is None:
                raise Unsupported("x87 constant")
            b = struct.unpack(">Q", struct.pack(">d", v.v))[0]
            f = z3.fpBVToFP(z3.BitVecVal(b, 64), F64)
            if s == F32:
                b = struct.unpack(">I", struct.pack(">f", v.v))[0]
                f = z3.fpBVToFP(z3.BitVecVal(b, 32), F32)
            return z3.simplify(f)
        if isinstance(v, CNull):
            return NULL
        if isinstance(v, CUndef):
            tt = resolve(t)
            if isinstance(tt, (StructT, ArrT)):
                es = tt.elems if isinstance(tt, StructT) else [tt.t] * tt.n
                return tuple(self.const(st, CUndef(e), e, mod) for e in es)
            return self.default_value(t, fresh_name("undef"))
        if isinstance(v, CZero):
            return self.zero_value(t)
        if isinstance(v, CGlobal):
            return self.global_ptr(st, v.name, mod)
        if isinstance(v, CExpr):
            if v.op == "gep":
                p = self.const(st, v.args[0][1], v.args[0][0], mod)
                return self.gep(st, v.src, p, [(ty, self.const(st, a, ty, mod)) for ty, a in v.args[1:]])
            if v.op in ("bitcast", "addrspacecast"):
                return self.const(st, v.args[0][1], v.args[0][0], mod)
            if v.op == "inttoptr":
                a = v.args[0][1]
                if isinstance(a, CInt):
                    return Ptr(0, a.v)
        if isinstance(v, CAgg):
            return tuple(self.const(st, e, et, mod) for et, e in v.elems)
        raise Unsupported("constant %r" % (v,))

    def val(self, st, fr, v, t):
        if isinstance(v, Reg):
            try:
                return fr.regs[v.name]
            except KeyError:
                raise Unsupported("undefined register %s in %s" % (v.name, fr.fn.name))
        return self.const(st, v, t, fr.fn.mod)

    # ------------------------------------------------------------- gep
    def gep(self, st, src, p, idx):
        off = 0
        t = src
        sym = None
        for k, (ty, v) in enumerate(idx):
            if k == 0:
                es = size_of(t)
            else:
                rt = resolve(t)
                if isinstance(rt, StructT):
                    i = cint(v)
                    off += field_offset(rt, i)
                    t = rt.elems[i]
                    continue
                t = rt.t
                es = size_of(t)
            i = cint(v)
            if i is not None:
                w = v.size() if isinstance(v, z3.BitVecRef) else v.w
                if i >= 1 << (w - 1):
                    i -= 1 << w
                off += i * es
            else:
                if sym is not None:
                    raise Unsupported("two symbolic indices")
                sym = (v, es)
        if sym is None:
            if isinstance(p, EPtr) and off and len(idx) == 1 and p.off == 0 and self._is_vec(st, p):
                return EPtr(p.rid, p.coff, z3.simplify(p.idx + off // size_of(src)), 0)
            if isinstance(p, (CPtr, LPtr)) or off:
                return self.padd(p, off)
            return p
        v, es = sym
        k = to_iv(v).signed()
        if isinstance(p, (CPtr, LPtr)) and es == 1:
            np = z3.simplify(p.pos + k + off)
            return CPtr(p.base, np) if isinstance(p, CPtr) else LPtr(p.s, np)
        if isinstance(p, EPtr) and len(idx) == 1 and p.off == 0 and self._is_vec(st, p):
            return EPtr(p.rid, p.coff, z3.simplify(p.idx + k), p.off + off)
        if isinstance(p, Ptr):
            b = self.const_bytes(st, p) if es == 1 else None
            if b is not None:
                kk = b.find(b"\0")
                return LPtr(strconst(b[:kk] if kk >= 0 else b), z3.simplify(k + off))
        raise Unsupported("symbolic index into %r" % (p,))

    def _is_vec(self, st, p):
        c = self.container(st, cloc(p))
        return isinstance(c, SeqV) and c.kind == "vector"

    # ------------------------------------------------------------- integer ops
    def trunc(self, v, w):
        if isinstance(v, IV):
            if w == 1:
                return z3.simplify(v.t % 2 == 1)
            if v.of is not None and v.of.w >= w:
                return v.of if v.of.w == w else self.trunc(v.of, w)
            if v.hi < (1 << w):
                return IV(v.t, w, v.lo, v.hi)
            return IV(z3.simplify(v.t % (1 << w)), w, 0, (1 << w) - 1)
        if w == 1:
            return z3.simplify(z3.Extract(0, 0, v) == 1)
        return z3.simplify(z3.Extract(w - 1, 0, v))

    def binop(self, st, op, a, b, t):
        t = resolve(t)
        if isinstance(t, FloatT):
            f = {"fadd": fp_add, "fsub": fp_sub, "fmul": fp_mul, "fdiv": fp_div}.get(op)
            if f is None:
                fr = z3.Function("frem%d" % (32 if a.sort() == F32 else 64), a.sort(), a.sort(), a.sort())
                return fr(a, b)
            return f(a, b)
        w = t.w
        if w == 1:
            a, b = (x if isinstance(x, z3.BoolRef) else x == 1 for x in (a, b))
            if op in ("xor", "add", "sub"):
                return z3.simplify(z3.Xor(a, b))
            if op in ("and", "mul"):
                return z3.simplify(z3.And(a, b))
            if op == "or":
                return z3.simplify(z3.Or(a, b))
            raise Unsupported("i1 " + op)
        if isinstance(a, IV) or isinstance(b, IV):
            if op in ("add", "sub", "mul") and (isinstance(a, IV) or cint(a) is not None) and (
                    isinstance(b, IV) or cint(b) is not None):
                x, y = to_iv(a), to_iv(b)
                M = 1 << w
                if op == "add":
                    # adding a negative constant
                    k = cint(b)
                    if k is not None and k >= M // 2:
                        k -= M
                        return iv_wrap(x.t + k, w, x.lo + k, x.hi + k)
                    return iv_wrap(x.t + y.t, w, x.lo + y.lo, x.hi + y.hi)
                if op == "sub":
                    return iv_wrap(x.t - y.t, w, x.lo - y.hi, x.hi - y.lo)
                if x.hi * y.hi < M:
                    return iv_wrap(x.t * y.t, w, x.lo * y.lo, x.hi * y.hi)
            k = cint(b)
            if op in ("udiv", "sdiv", "urem", "srem") and isinstance(a, IV) and k and k < 1 << (w - 1) and a.hi < 1 << (w - 1):
                if op[1:] == "div":
                    return IV(z3.simplify(a.t / k), w, a.lo // k, a.hi // k)
                return IV(z3.simplify(a.t % k), w, 0, k - 1)
            if op == "and" and k is not None and (k & (k + 1)) == 0:
                return IV(z3.simplify(to_iv(a).t % (k + 1)), w, 0, k)
            a, b = to_bv(a), to_bv(b)
        if op in ("sdiv", "srem", "udiv", "urem"):
            self.oblige(st, b != 0, "safety", "no division by zero (%s)" % op)
            if op[0] == "s":
                mn = z3.BitVecVal(1 << (w - 1), w)
                self.oblige(st, z3.Not(z3.And(a == mn, b == z3.BitVecVal(-1, w))), "safety",
                            "no overflowing division (%s)" % op)
            if op[0] == "s":
                r = narrow_div(op, a, b)
                if r is not None:
                    return z3.simplify(r)
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b),
             "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b), "and": lambda: a & b,
             "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
             "ashr": lambda: a >> b}[op]
        if op in ("shl", "lshr", "ashr"):
            self.oblige(st, z3.ULT(b, w), "safety", "shift amount below width (%s)" % op)
        return z3.simplify(f())

    def icmp(self, st, pred, a, b):
        if isinstance(a, (Ptr, SPtr, EPtr, CPtr, LPtr, It, FnPtr, VPtr)) or isinstance(b, (Ptr, SPtr, EPtr, CPtr, LPtr, It, FnPtr)):
            return self.ptrcmp(st, pred, a, b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a = a if isinstance(a, z3.BoolRef) else a == 1
            b = b if isinstance(b, z3.BoolRef) else b == 1
            if pred == "eq":
                return z3.simplify(a == b)
            if pred == "ne":
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported("i1 compare " + pred)
        if isinstance(a, IV) or isinstance(b, IV):
            a, b = to_iv(a), to_iv(b)
            if pred in ("eq", "ne"):
                r = a.t == b.t
                return z3.simplify(r if pred == "eq" else z3.Not(r))
            if pred[0] == "u":
                x, y = a.t, b.t
            else:
                x, y = a.signed(), b.signed()
            o = pred[1:]
            return z3.simplify({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[o])
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pred]
        return z3.simplify(f())

    def ptrcmp(self, st, pred, a, b):
        if pred not in ("eq", "ne"):
            if isinstance(a, CPtr) and isinstance(b, CPtr) and a.base == b.base:
                x, y = a.pos, b.pos
                return z3.simplify({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
            raise Unsupported("pointer order")
        e = self.ptreq(st, a, b)
        e = z3.BoolVal(e) if isinstance(e, bool) else z3.simplify(e)
        return e if pred == "eq" else z3.simplify(z3.Not(e))

    def ptreq(self, st, a, b):
        if isinstance(a, CPtr) and isinstance(b, CPtr):
            return a.pos == b.pos if self.ptreq(st, a.base, b.base) is True else False
        if isinstance(a, LPtr) and isinstance(b, LPtr):
            return z3.And(a.s == b.s, a.pos == b.pos)
        if isinstance(a, EPtr) and isinstance(b, EPtr):
            if same_loc(a, b) and a.off == b.off:
                return a.idx == b.idx
            return False
        if isinstance(a, It) and isinstance(b, It):
            return self.iteq(st, a, b)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                return a.off == b.off
            ra, rb = st.mem.get(a.rid), st.mem.get(b.rid)
            if ra is not None and rb is not None and ra.addr is not None and rb.addr is not None:
                return ra.addr + a.off == rb.addr + b.off if a.off == b.off else False
            return False
        if isinstance(a, (Ptr, SPtr)) and isinstance(b, (Ptr, SPtr)):
            if isinstance(b, SPtr):
                a, b = b, a
            if isinstance(b, Ptr) and b.rid == 0:
                if a.off:
                    return False
                return a.t == 0
            return self.addr(st, a) == self.addr(st, b)
        return False

    def iteq(self, st, a, b):
        if not same_loc(a, b):
            raise Unsupported("comparing iterators of different containers")
        if a.pos is not None and b.pos is not None:
            return a.pos == b.pos
        c = self.container(st, cloc(a))
        cend = c.end if isinstance(c, SeqV) else c.n
        ea = a.end if a.end is not None else a.pos == cend
        eb = b.end if b.end is not None else b.pos == cend
        if a.key is None or b.key is None:
            # one of them is end()
            if a.key is None and a.pos is None:
                return z3.And(ea, eb)
            if b.key is None and b.pos is None:
                return z3.And(ea, eb)
            return z3.And(ea, eb)
        return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), a.key == b.key))

    def fcmp(self, pred, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b),
                "le": z3.fpLEQ(a, b)}
        if pred == "ord":
            return z3.Not(nan)
        if pred == "uno":
            return nan
        if pred == "one":
            return z3.And(z3.Not(nan), z3.Not(base["eq"]))
        if pred == "une":
            return z3.Or(nan, z3.Not(base["eq"]))
        if pred[0] == "o":
            return base[pred[1:]]
        return z3.Or(nan, base[pred[1:]])

    def cast(self, st, op, v, frm, to):
        to = resolve(to)
        frm = resolve(frm)
        if op == "trunc":
            return self.trunc(v, to.w)
        if op in ("zext", "sext"):
            if isinstance(v, z3.BoolRef):
                one = 1 if op == "zext" else (1 << to.w) - 1
                return z3.simplify(z3.If(v, z3.BitVecVal(one, to.w), z3.BitVecVal(0, to.w)))
            if isinstance(v, IV):
                if op == "zext" or v.hi < 1 << (v.w - 1):
                    return IV(v.t, to.w, v.lo, v.hi)
                return IV(z3.If(v.t >= 1 << (v.w - 1), v.t + (1 << to.w) - (1 << v.w), v.t), to.w, 0, (1 << to.w) - 1, v)
            n = to.w - v.size()
            return z3.simplify(z3.ZeroExt(n, v) if op == "zext" else z3.SignExt(n, v))
        if op in ("sitofp", "uitofp"):
            s = fp_sort(to.k)
            if isinstance(v, z3.BoolRef):
                v = to_bv(v, 8)
            v = to_bv(v)
            return z3.simplify(z3.fpSignedToFP(RNE, v, s) if op == "sitofp" else z3.fpUnsignedToFP(RNE, v, s))
        if op in ("fptosi", "fptoui"):
            bv = z3.BitVecSort(to.w)
            return z3.simplify(z3.fpToSBV(RTZ, v, bv) if op == "fptosi" else z3.fpToUBV(RTZ, v, bv))
        if op in ("fpext", "fptrunc"):
            s = fp_sort(to.k)
            return fp_trunc(v, s)
        if op == "bitcast":
            return self.coerce(st, v, to)
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.rid == 0:
                return z3.BitVecVal(v.off, to.w)
            if isinstance(v, (CPtr, EPtr, It, LPtr)):
                return v  # kept as pointer; only differences are taken
            return IV(self.addr(st, v), to.w, 0, (1 << to.w) - 1)
        if op == "inttoptr":
            k = cint(v)
            if k is not None:
                return Ptr(0, k)
            if isinstance(v, (CPtr, EPtr, It, LPtr)):
                return v
            if isinstance(v, IV):
                return self.ptr_from(st, v.t)
        raise Unsupported("cast %s" % op)

    # ------------------------------------------------------------- execution
    def run(self, st, fn, args, depth=0):
        """all outcomes of fn: list of (state, outcome)"""
        fn.parse()
        if depth > self.MAXDEPTH:
            raise Unsupported("call depth in %s" % fn.name)
        fr = Frame(fn)
        if len(args) < len(fn.params):
            raise Unsupported("argument count for %s" % fn.name)
        for (t, n, at), v in zip(fn.params, args):
            fr.regs[n] = v
        fr.block = fn.order[0]
        work = [(st, fr)]
        outs = []
        loops = fn.loops()
        from .loops import enter_loop
        while work:
            st, fr = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted in %s" % fn.name)
            self._exec(st, fr, work, outs, depth, loops, enter_loop)
            if len(outs) + len(work) > self.MAXPATHS:
                raise Unsupported("too many paths in %s" % fn.name)
        return outs

    def _goto(self, st, fr, target, work, outs, depth, loops, enter_loop):
        """transfer control; returns True to continue in place"""
        fr.prev = fr.block
        # leaving loops
        while fr.lctx and target not in loops[fr.lctx[-1][0]]:
            fr.lctx = fr.lctx[:-1]
        fr.block = target
        fr.idx = 0
        if target in loops:
            return enter_loop(self, st, fr, target, work, outs, depth, loops)
        return True

    def _exec(self, st, fr, work, outs, depth, loops, enter_loop):
        fn = fr.fn
        while True:
            blk = fn.blocks[fr.block]
            ins = blk[fr.idx]
            try:
                snap = None
                if ins.op in ("call", "invoke"):
                    snap = st.clone()
                    nobl = len(self.obls)
                    res = self._call_ins(st, fr, ins, depth)
                    if res is not None:
                        # several outcomes
                        first = True
                        for s2, out in res:
                            f2 = fr.copy()
                            if out[0] == "ret":
                                if ins.res is not None:
                                    f2.regs[ins.res] = out[1]
                                if ins.op == "invoke":
                                    if self._goto(s2, f2, ins.x[0], work, outs, depth, loops, enter_loop):
                                        work.append((s2, f2))
                                else:
                                    f2.idx += 1
                                    work.append((s2, f2))
                            elif out[0] == "throw":
                                if ins.op == "invoke":
                                    sel = self._lpad_select(fn, ins.x[1], out)
                                    if sel is None:
                                        self._leave(s2, f2)
                                        outs.append((s2, out))
                                    else:
                                        f2.regs["%exc"] = (out, sel)
                                        if self._goto(s2, f2, ins.x[1], work, outs, depth, loops, enter_loop):
                                            work.append((s2, f2))
                                else:
                                    self._leave(s2, f2)
                                    outs.append((s2, out))
                            else:
                                outs.append((s2, out))
                        return
                    continue
                nobl = len(self.obls)
                if ins.op in ("load", "store"):
                    pass
                r = self._step(st, fr, ins, work, outs, depth, loops, enter_loop)
                if r is False:
                    return
                if r == "next":
                    fr.idx += 1
            except Fork as f:
                base = snap if snap is not None else st
                if snap is not None:
                    # obligations recorded before the fork stay (they hold on the un-forked path)
                    pass
                for c, fx in zip(f.conds, f.fx):
                    s2 = base.clone()
                    if c is not None:
                        if isinstance(c, bool):
                            if not c:
                                continue
                        else:
                            s2.assume(c)
                    if fx is not None:
                        fx(s2)
                    work.append((s2, fr.copy()))
                return

    def _lpad_select(self, fn, label, out):
        """selector value for a landing pad or None when the exception passes through"""
        for ins in fn.blocks[label]:
            if ins.op == "landingpad":
                lp = ins
                break
            if ins.op != "phi":
                raise Unsupported("landing pad layout")
        cleanup = False
        for k, v in lp.x:
            if k == "cleanup":
                cleanup = True
            elif k == "catch":
                if isinstance(v, CNull):
                    return ("catch", None)
                if out[1] is None:
                    continue
                if v.name == out[1] or v.name in self.P.ancestors(out[1]) or (
                        v.name == "_ZTISt9exception" and self._std_exc(out[1])):
                    return ("catch", v.name)
        return ("cleanup", None) if cleanup else None

    def _std_exc(self, ti):
        return ti.startswith("_ZTISt")

    def typeid(self, name):
        if not hasattr(self, "_tids"):
            self._tids = {}
        return self._tids.setdefault(name, len(self._tids) + 1)

    def _step(self, st, fr, ins, work, outs, depth, loops, enter_loop):
        op = ins.op
        regs = fr.regs
        V = lambda v, t: self.val(st, fr, v, t)
        if op == "alloca":
            n = 1
            if ins.args[0] is not None:
                n = cint(V(ins.args[0], ir.I64)) or 1
            rid = st.new("alloca", name=ins.res, size=size_of(ins.t) * n)
            regs[ins.res] = Ptr(rid, 0)
            fr.allocas.append(rid)
            return "next"
        if op == "load":
            self.cur_where = self.where(fr, ins)
            p = V(ins.args[0], ir.PTR)
            regs[ins.res] = self.load(st, p, ins.t) if ins.x is None else self.load_vptr(st, p, ins.x)
            return "next"
        if op == "store":
            self.cur_where = self.where(fr, ins)
            self.store(st, V(ins.args[1], ir.PTR), V(ins.args[0], ins.t), ins.t)
            return "next"
        if op == "gep":
            p = V(ins.args[0][1], ir.PTR)
            regs[ins.res] = self.gep(st, ins.t, p, [(t, V(v, t)) for t, v in ins.args[1:]])
            return "next"
        if op == "bin":
            self.cur_where = self.where(fr, ins)
            a, b = V(ins.args[0], ins.t), V(ins.args[1], ins.t)
            if ins.x == "sub" and isinstance(a, (CPtr, EPtr, It, LPtr)):
                regs[ins.res] = self.ptrdiff(st, a, b)
            else:
                regs[ins.res] = self.binop(st, ins.x, a, b, ins.t)
            return "next"
        if op == "icmp":
            regs[ins.res] = self.icmp(st, ins.x, V(ins.args[0], ins.t), V(ins.args[1], ins.t))
            return "next"
        if op == "fcmp":
            regs[ins.res] = z3.simplify(self.fcmp(ins.x, V(ins.args[0], ins.t), V(ins.args[1], ins.t)))
            return "next"
        if op == "fneg":
            regs[ins.res] = z3.fpNeg(V(ins.args[0], ins.t))
            return "next"
        if op == "cast":
            regs[ins.res] = self.cast(st, ins.x[0], V(ins.args[0], ins.t), ins.t, ins.x[1])
            return "next"
        if op == "br":
            return True if self._goto(st, fr, ins.x[0], work, outs, depth, loops, enter_loop) else False
        if op == "condbr":
            c = V(ins.args[0], ir.I1)
            if not isinstance(c, z3.BoolRef):
                c = c == 1
            c = z3.simplify(c)
            if z3.is_true(c):
                t = ins.x[0]
            elif z3.is_false(c):
                t = ins.x[1]
            else:
                nc = z3.simplify(z3.Not(c))
                a, b = self.feasible(st, c), self.feasible(st, nc)
                if a and b:
                    s2, f2 = st.clone(), fr.copy()
                    s2.assume(nc)
                    if self._goto(s2, f2, ins.x[1], work, outs, depth, loops, enter_loop):
                        work.append((s2, f2))
                    st.assume(c)
                    t = ins.x[0]
                elif a:
                    st.assume(c)
                    t = ins.x[0]
                elif b:
                    st.assume(nc)
                    t = ins.x[1]
                else:
                    return False
            return True if self._goto(st, fr, t, work, outs, depth, loops, enter_loop) else False
        if op == "switch":
            v = V(ins.args[0], ins.t)
            d, cs = ins.x
            k = cint(v)
            w = resolve(ins.t).w
            if k is not None:
                for cv, lab in cs:
                    if cv % (1 << w) == k:
                        return True if self._goto(st, fr, lab, work, outs, depth, loops, enter_loop) else False
                return True if self._goto(st, fr, d, work, outs, depth, loops, enter_loop) else False
            rest = []
            bylab = {}
            for cv, lab in cs:
                c = self.icmp(st, "eq", v, z3.BitVecVal(cv, w))
                bylab.setdefault(lab, []).append(c)
                rest.append(z3.Not(c))
            alts = [(z3.Or(*c) if len(c) > 1 else c[0], lab) for lab, c in bylab.items()]
            alts.append((z3.And(*rest), d))
            for c, lab in alts:
                if self.feasible(st, c):
                    s2, f2 = st.clone(), fr.copy()
                    s2.assume(c)
                    if self._goto(s2, f2, lab, work, outs, depth, loops, enter_loop):
                        work.append((s2, f2))
            return False
        if op == "ret":
            v = V(ins.args[0], ins.t) if ins.args else None
            self._leave(st, fr)
            outs.append((st, ("ret", v)))
            return False
        if op == "unreachable":
            outs.append((st, ("unreachable",)))
            return False
        if op == "landingpad":
            out, sel = regs["%exc"]
            k = 0
            if sel[0] == "catch":
                k = self.typeid(sel[1])
            regs[ins.res] = (out[2], z3.BitVecVal(k, 32))
            st.ghost["%inflight"] = out
            return "next"
        if op == "resume":
            v = V(ins.args[0], ins.t)
            out = regs.get("%exc")
            # identify the exception by its object pointer
            e = st.ghost.get(("exc", v[0].rid if isinstance(v[0], Ptr) else str(v[0])))
            self._leave(st, fr)
            outs.append((st, e if e is not None else out[0]))
            return False
        if op == "phi":
            # evaluate all phis of the block together
            blk = fr.fn.blocks[fr.block]
            new = {}
            i = fr.idx
            while i < len(blk) and blk[i].op == "phi":
                for v, b in blk[i].x:
                    if b == fr.prev:
                        new[blk[i].res] = V(v, blk[i].t)
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            regs.update(new)
            fr.idx = i
            return True
        if op == "select":
            c = V(ins.args[0], ir.I1)
            a, b = V(ins.args[1], ins.t), V(ins.args[2], ins.t)
            c = z3.simplify(c if isinstance(c, z3.BoolRef) else c == 1)
            if z3.is_true(c):
                regs[ins.res] = a
            elif z3.is_false(c):
                regs[ins.res] = b
            elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                regs[ins.res] = z3.If(c, a, b)
            else:
                regs[ins.res] = a if self.decide(st, c) else b
            return "next"
        if op == "extractvalue":
            v = V(ins.args[0], ins.t)
            for i in ins.x:
                v = v[i]
            regs[ins.res] = v
            return "next"
        if op == "insertvalue":
            v = list(V(ins.args[0], ins.t))
            if len(ins.x) != 1:
                raise Unsupported("nested insertvalue")
            v[ins.x[0]] = V(ins.args[1], resolve(ins.t).elems[ins.x[0]])
            regs[ins.res] = tuple(v)
            return "next"
        if op == "freeze":
            regs[ins.res] = V(ins.args[0], ins.t)
            return "next"
        raise Unsupported("instruction " + op)

    def _leave(self, st, fr):
        for rid in fr.allocas:
            st.mem.pop(rid, None)

    def ptrdiff(self, st, a, b):
        if isinstance(a, CPtr) and isinstance(b, CPtr) and a.base == b.base:
            return iv_wrap(a.pos - b.pos, 64, -(1 << 62), 1 << 62)
        if isinstance(a, LPtr) and isinstance(b, LPtr):
            return iv_wrap(a.pos - b.pos, 64, -(1 << 62), 1 << 62)
        if isinstance(a, EPtr) and isinstance(b, EPtr) and same_loc(a, b):
            es = self.container(st, cloc(a)).esize
            return iv_wrap((a.idx - b.idx) * es, 64, -(1 << 62), 1 << 62)
        raise Unsupported("pointer difference")

    def where(self, fr, ins):
        ln = fr.fn.mod.line_of(ins.dbg) if ins.dbg else None
        return "%s:%s" % (getattr(fr.fn.mod, "src", "?"), ln)

    # ------------------------------------------------------------- calls
    def _call_ins(self, st, fr, ins, depth):
        cal, cargs = ins.args
        regs = fr.regs
        name = None
        self.cur_where = self.where(fr, ins)
        if isinstance(cal, CGlobal):
            name = cal.name
            if name.startswith("llvm."):
                v = self.intrinsic(st, fr, name, cargs, ins)
                if ins.res is not None:
                    regs[ins.res] = v
                fr.idx += 1
                return None
        args = [self.val(st, fr, v, t) if v is not None else None for t, v, at in cargs]
        if name is None:
            f = self.val(st, fr, cal, ir.PTR)
            if isinstance(f, FnPtr):
                name = f.name
            elif isinstance(f, VFn):
                return self.virtual(st, fr, ins, f, args, depth)
            else:
                raise Unsupported("call through %r in %s" % (f, fr.fn.name))
        return self.invoke(st, name, args, depth, fr.fn.mod, ins)

    def virtual(self, st, fr, ins, f, args, depth):
        r = st.mem[f.rid]
        sc = (r.sclass or {}).get(f.off)
        classes = r.classes
        if classes is None:
            if sc is None:
                raise Unsupported("virtual call on object of unknown class in %s" % fr.fn.name)
            classes = frozenset(c for c in self.P.subclasses(sc) if not self.P.is_abstract(c) and self.P.vtable(c))
        impls = {}
        for c in classes:
            # offset of the subobject inside the dynamic object; region offset equals it when region starts at the
            # complete object
            # (or at the subobject the pointer was declared to point to)
            so = self.P.ancestors(c).get(sc) if sc is not None else None
            n = self.P.vfunc(c, f.off if so is None else so, f.slot)
            if n is None:
                continue
            impls.setdefault(n, set()).add(c)
        if self.virtual_hook:
            h = self.virtual_hook(self, st, sc, f.slot, args, ins, depth, fr, impls)
            if h is not None:
                return h
        if sc is not None:
            base = self.P.vfunc(sc, 0, f.slot) or None
            if base is not None and base in self.contracts:
                return self.invoke(st, base, args, depth, fr.fn.mod, ins)
        if not impls:
            raise Unsupported("no implementation for virtual slot %d of %s" % (f.slot, sc))
        if len(impls) == 1:
            return self.invoke(st, next(iter(impls)), args, depth, fr.fn.mod, ins)
        if len(impls) > 16:
            raise Unsupported("virtual call with %d implementations (slot %d of %s) in %s" % (len(impls), f.slot, sc, fr.fn.name))

        def setc(cs):
            def fx(s):
                s.w(f.rid).classes = frozenset(cs)
            return fx
        raise Fork([True] * len(impls), [setc(cs) for n, cs in sorted(impls.items())])

    def invoke(self, st, name, args, depth, mod, ins=None):
        """call a function by symbol: contract, model, or body"""
        rname = name
        while rname in self.P.alias and rname not in self.contracts:
            rname = self.P.alias[rname]
        c = self.contracts.get(name) or self.contracts.get(rname)
        if c is not None:
            r = c(self, st, args, ins)
            if r is not None:
                self.used_contracts.add(name)
                return r
        m = self.model_for(name)
        if m is not None:
            self.used_models.add(name)
            r = m(self, st, args, ins)
            if isinstance(r, list):
                return r
            return [(st, ("ret", r))]
        f = self.P.lookup(name, mod)
        if f is None:
            raise Unsupported("no body, contract or model for %s" % self.P.demangle(name))
        if self.inline_deny and self.inline_deny(name):
            raise Unsupported("needs a contract: %s" % self.P.demangle(name))
        self.inlined.add(name)
        w = self.cur_where
        r = self.run(st, f, args, depth + 1)
        self.cur_where = w
        return r

    def model_for(self, name):
        if name in self._mcache:
            return self._mcache[name]
        m = self.models.get(name)
        if m is None:
            d = algorithm(self.P.demangle(name))
            for rx, fn in self.model_rx:
                mm = rx.match(d)
                if mm:
                    m = (lambda E, st, a, i, fn=fn, mm=mm: fn(E, st, a, i, mm))
                    break
        self._mcache[name] = m
        return m

    def throw(self, st, ti, ptr=None):
        if ptr is None:
            rid = st.new("heap", base=fresh_name("exc"), name="exception")
            ptr = Ptr(rid, 0)
        out = ("throw", ti, ptr)
        if isinstance(ptr, Ptr):
            st.ghost[("exc", ptr.rid)] = out
        return [(st, out)]

    # ------------------------------------------------------------- intrinsics
    def intrinsic(self, st, fr, name, cargs, ins):
        V = lambda i: self.val(st, fr, cargs[i][1], cargs[i][0])
        if name.startswith(("llvm.type.test", "llvm.public.type.test")):
            v = V(0)
            if isinstance(v, VPtr):
                pass
            return z3.BoolVal(True)
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = cint(V(2))
            if n is None:
                raise Unsupported("memcpy of symbolic size")
            self.copy_bytes(st, V(0), V(1), n)
            return None
        if name.startswith("llvm.memset"):
            n = cint(V(2))
            b = cint(V(1))
            if n is None or b is None:
                raise Unsupported("memset")
            p = self.resolve_ptr(st, V(0), "memset")
            if not isinstance(p, Ptr):
                raise Unsupported("memset target")
            w = st.w(p.rid)
            self._clear(w, p.off, n)
            if b == 0 and n > 64:
                w.zero = True
            else:
                for i in range(n):
                    w.cells[p.off + i] = (z3.BitVecVal(b, 8), 1)
            return None
        if name.startswith("llvm.eh.typeid.for"):
            a = cargs[0][1]
            return z3.BitVecVal(self.typeid(a.name if isinstance(a, CGlobal) else None), 32)
        if name.startswith("llvm.trap"):
            self.oblige(st, False, "safety", "trap reached")
            raise Fork([])
        if name.startswith("llvm.expect"):
            return V(0)
        if name.startswith("llvm.fabs"):
            return z3.fpAbs(V(0))
        mm = re.match(r"llvm\.(floor|ceil|trunc|rint|nearbyint|roundeven|round)\.f", name)
        if mm:
            return z3.fpRoundToIntegral(INTEGRAL[mm.group(1)], V(0))
        if name.startswith("llvm.sqrt.f"):
            return z3.fpSqrt(RNE, V(0))
        if name.startswith("llvm.fma.f"):
            return z3.fpFMA(RNE, V(0), V(1), V(2))
        if name.startswith("llvm.copysign.f"):
            return fp_copysign(V(0), V(1))
        mm = re.match(r"llvm\.(maxnum|minnum)\.f(\d+)", name)
        if mm:
            n = {"maxnum": "fmax", "minnum": "fmin"}[mm.group(1)] + {"64": "", "32": "f"}[mm.group(2)]
            return fp_uf(n, V(0), V(1))
        if name.startswith("llvm.abs.i"):
            v = to_bv(V(0))
            return z3.If(v < 0, -v, v)
        if name.startswith("llvm.fmuladd"):
            return z3.fpAdd(RNE, z3.fpMul(RNE, V(0), V(1)), V(2))
        if name.startswith(("llvm.stacksave",)):
            return NULL
        if name.startswith(("llvm.stackrestore", "llvm.va_start", "llvm.va_end", "llvm.invariant")):
            return None
        mm = re.match(r"llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if mm:
            a, b = to_bv(V(0)), to_bv(V(1))
            w = int(mm.group(3))
            sg = mm.group(1) == "s"
            o = mm.group(2)
            r = {"add": a + b, "sub": a - b, "mul": a * b}[o]
            if o == "add":
                ok = z3.And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b) if sg else True)
            elif o == "sub":
                ok = z3.And(z3.BVSubNoOverflow(a, b) if sg else True, z3.BVSubNoUnderflow(a, b, sg))
            else:
                ok = z3.And(z3.BVMulNoOverflow(a, b, sg), z3.BVMulNoUnderflow(a, b) if sg else True)
            return (z3.simplify(r), z3.simplify(z3.Not(ok)))
        mm = re.match(r"llvm\.(smax|smin|umax|umin)\.i(\d+)", name)
        if mm:
            a, b = to_bv(V(0)), to_bv(V(1))
            c = {"smax": a > b, "smin": a < b, "umax": z3.UGT(a, b), "umin": z3.ULT(a, b)}[mm.group(1)]
            return z3.simplify(z3.If(c, a, b))
        raise Unsupported("intrinsic " + name)

    def copy_bytes(self, st, d, s, n):
        d = self.resolve_ptr(st, d, "copy target")
        s = self.resolve_ptr(st, s, "copy source")
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            r = st.mem[s.rid]
            if n == 0:
                return
            cells = {o - s.off: c for o, c in r.cells.items() if s.off <= o and o + c[1] <= s.off + n}
            if r.data is not None:
                for i in range(n):
                    cells[i] = (z3.BitVecVal(r.data[s.off + i], 8), 1)
            covered = sum(c[1] for c in cells.values())
            if covered < n and r.base is not None:
                # fill scalar gaps of the symbolic source, word by word
                o = 0
                while o < n:
                    if o in cells:
                        o += cells[o][1]
                        continue
                    step = 8 if (s.off + o) % 8 == 0 and all(k not in cells for k in range(o, min(o + 8, n))) and o + 8 <= n else \
                        4 if (s.off + o) % 4 == 0 and all(k not in cells for k in range(o, min(o + 4, n))) and o + 4 <= n else 1
                    v = self.load(st, Ptr(s.rid, s.off + o), ir._INTS[step * 8])
                    cells[o] = (v, step)
                    o += step
            w = st.w(d.rid)
            self._clear(w, d.off, n)
            for o, c in cells.items():
                w.cells[d.off + o] = c
            return
        # element wise with 8/4-byte integers
        if isinstance(s, EPtr) or isinstance(d, EPtr):
            self.copy_elem(st, d, s, n)
            return
        raise Unsupported("copy %r <- %r" % (d, s))

    def copy_elem(self, st, d, s, n):
        """copy n bytes where one side is a container element: field by field as known on the source side"""
        if isinstance(s, EPtr):
            c = self.container(st, cloc(s))
            sorts = {o: c.fields[o].sort().range() for o in c.fields}
            if c.lv:
                from . import stl
                for o, k in c.lv:
                    sorts.setdefault(o, stl.leaf_sort(k))
            offs = sorted(o for o in sorts if s.off <= o < s.off + n)
            for o in offs:
                arr = self.field_arr(c, o, sorts[o])
                v = z3.simplify(z3.Select(arr, s.idx))
                if v.sort() == Str:
                    self.set_str(st, self.padd(d, o - s.off), v)
                elif v.sort() == IntS:
                    self.store(st, self.padd(d, o - s.off), self.ptr_from(st, v), ir.PTR)
                else:
                    tt = FloatT("float") if v.sort() == F32 else FloatT("double") if v.sort() == F64 else IntT(v.size())
                    self.store(st, self.padd(d, o - s.off), v, tt)
            covered = offs
            if not covered and n in (1, 2, 4, 8):
                v = self.load(st, s, ir._INTS[n * 8])
                self.store(st, d, v, ir._INTS[n * 8])
                return
            if not covered:
                raise Unsupported("copy of untyped container element")
            return
        r = st.mem[s.rid]
        done = 0
        for o, (v, vs) in sorted(r.cells.items(), key=lambda x: x[0]):
            if s.off <= o and o + vs <= s.off + n:
                self.estore(st, self.padd(d, o - s.off), v)
                done += vs
        if done == 0 and n in (1, 2, 4, 8):
            v = self.load(st, s, ir._INTS[n * 8])
            self.estore(st, d, v)
