"""Loops: peeled while their control is decided, otherwise cut at the header by an inductive invariant.

The invariant is found by havocking the cells the body changes and keeping the
largest set of candidate facts that is preserved by one iteration (checked by the solver).
"""
import re
import z3
from . import ir
from .vals import *
from . import sem


class Rec:
    def __init__(self, header):
        self.header = header
        self.backs = []
        self.exits = 0
        self.analysis = True


def enter_loop(E, st, fr, header, work, outs, depth, loops):
    """called on every transfer to a loop header; True -> continue executing this state in place"""
    if fr.lctx and fr.lctx[-1][0] == header:
        h, mode, rec = fr.lctx[-1]
        if mode == "cut":
            rec.backs.append((st, fr))
            return False
        # unrolled/peeled iteration
        fr.lctx = fr.lctx[:-1]
        return new_iteration(E, st, fr, header, work, outs, depth, loops, rec + 1)
    return new_iteration(E, st, fr, header, work, outs, depth, loops, 0)


def body_run(E, st, fr, header, depth, loops, rec, keep=None):
    """one symbolic iteration from (st, fr) at header; fills rec.backs; states leaving go to keep (work, outs) or are dropped"""
    f2 = fr.copy()
    f2.lctx = fr.lctx + ((header, "cut", rec),)
    work = [(st, f2)]
    outs = []
    nctx = len(f2.lctx)
    left = []
    while work:
        s, f = work.pop()
        if len(f.lctx) < nctx:
            left.append((s, f))
            continue
        E._exec(s, f, work, outs, depth, loops, enter_loop)
        if len(work) + len(left) + len(outs) > E.MAXPATHS:
            raise sem.Unsupported("too many paths in loop of %s" % fr.fn.name)
    return left, outs


def new_iteration(E, st, fr, header, work, outs, depth, loops, count):
    fn = fr.fn
    pol = E.loop_policy(fn, header) if E.loop_policy else None
    if pol == "unroll":
        if count > E.unroll_max:
            E.bounded.append("%s: loop unrolled %d times" % (E.P.demangle(fn.name), E.unroll_max))
            return False
        fr.lctx = fr.lctx + ((header, "peel", count),)
        return True
    if count < E.peel_max and fixed_range(E, st, fr, header):
        fr.lctx = fr.lctx + ((header, "peel", count),)
        return True
    # peel while the exit decision is forced
    rec = Rec(header)
    nob = len(E.obls)
    E.quiet += 1
    try:
        s0 = st.clone()
        left, o = body_run(E, s0, fr, header, depth, loops, rec)
    finally:
        E.quiet -= 1
    del E.obls[nob:]
    if not rec.backs or (not left and not o and count < E.peel_max):
        # loop is left for sure (or continues for sure): one plain iteration
        fr.lctx = fr.lctx + ((header, "peel", count),)
        return True
    return cut(E, st, fr, header, work, outs, depth, loops, rec)


def fixed_range(E, st, fr, header):
    """the loop runs over an array of known extent: its head compares two known places in one object"""
    regs = {}
    for ins in fr.fn.blocks[header]:
        if ins.op == "load" and ins.x is None and isinstance(ins.t, ir.PtrT) and isinstance(ins.args[0], ir.Reg):
            p = fr.regs.get(ins.args[0].name)
            if not isinstance(p, Ptr) or p.rid == 0:
                return False
            regs[ins.res] = E.load(st, p, ins.t)
        elif ins.op == "icmp":
            v = [regs.get(a.name) if isinstance(a, ir.Reg) else None for a in ins.args]
            return all(isinstance(x, Ptr) and x.rid for x in v) and v[0].rid == v[1].rid
        else:
            return False
    return False


def diff_cells(E, before, after, mod):
    """cells of regions existing before that differ afterwards -> mod {rid: {off: size}}"""
    ch = False
    for rid, r in before.mem.items():
        r2 = after.mem.get(rid)
        if r2 is None or r2 is r:
            continue
        for off, (v, sz) in r2.cells.items():
            e = r.cells.get(off)
            if e is not None and same(e[0], v):
                continue
            if e is None and r.base is not None and is_lazy(E, r, off, v):
                continue
            if e is None and r.kind == "const":
                continue
            m = mod.setdefault(rid, {})
            if off not in m:
                m[off] = sz
                ch = True
        for off in r.cells:
            if off not in r2.cells:
                m = mod.setdefault(rid, {})
                if off not in m:
                    m[off] = r.cells[off][1]
                    ch = True
        if r2.dead and not r.dead:
            mod.setdefault(rid, {})["dead"] = 0
    for k in set(before.ghost) | set(after.ghost):
        if isinstance(k, tuple) and k and k[0] in ("exc", "find"):
            continue
        if k == "%inflight":
            continue
        a, b = before.ghost.get(k), after.ghost.get(k)
        if a is b or isinstance(k, tuple) and k[0] == "note" and k[-1] not in before.mem:
            continue
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and z3.simplify(a).eq(z3.simplify(b)):
            continue
        if a is None and isinstance(k, tuple) and k[0] == "stream":
            continue
        if not (isinstance(k, tuple) and k[0] == "note") and a == b:
            continue
        m = mod.setdefault("ghost", {})
        if k not in m:
            m[k] = 0
            ch = True
    return ch


def new_objects(E, before, after, mark0, mark):
    """objects first reached in an iteration must not be written to, unless they exist only in that iteration"""
    for rid, r in after.mem.items():
        if rid in before.mem or not r.heap:
            continue
        if any(int(k) > mark for c in consts_of(r.addr) for k in re.findall(r"!(\d+)", c.decl().name())):
            continue
        for off, (v, sz) in r.cells.items():
            if not is_lazy(E, r, off, v):
                if any(int(k) > mark0 for c in consts_of(r.addr) for k in re.findall(r"!(\d+)", c.decl().name())):
                    raise sem.Unsupported("loop writes to the object %s reached in it" % r.name)
                # the same object in every iteration: it belongs to the state before the loop
                E.resolve_ptr(before, SPtr(r.addr))
                return True
    return False


def is_lazy(E, r, off, v):
    """value is just the lazily named pre-state value"""
    if r.heap and isinstance(v, (StrV, SPtr, z3.ExprRef)):
        t = v if isinstance(v, z3.ExprRef) else v.t
        return (z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(r.addr) and re.match(r"pre%d\D" % off, t.decl().name()) is not None
                and not getattr(v, "off", 0))
    n = "%s.%d" % (r.base, off)
    if isinstance(v, StrV):
        return str(v.t) == n
    if isinstance(v, SPtr):
        return str(v.t) == n and v.off == 0
    if isinstance(v, (SeqV, MapV)):
        return v.base == n and not v.fields and str(v.n) == n + ".n"
    if isinstance(v, z3.ExprRef):
        return str(v) in (n, n + "f", n + "d")
    return False


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return False
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, StrV):
        return a.t.eq(b.t)
    if isinstance(a, Ptr):
        return a == b
    if isinstance(a, SPtr):
        return a.off == b.off and a.t.eq(b.t)
    if isinstance(a, IV):
        return a.w == b.w and a.t.eq(b.t)
    if isinstance(a, It):
        return same_loc(a, b) and same_opt(a.pos, b.pos) and same_opt(a.key, b.key) and same_opt(a.end, b.end)
    if isinstance(a, EPtr):
        return same_loc(a, b) and a.off == b.off and a.idx.eq(b.idx)
    if isinstance(a, CPtr):
        return a.base == b.base and a.pos.eq(b.pos)
    if isinstance(a, SeqV):
        return a.base == b.base and a.n.eq(b.n) and a.lo.eq(b.lo) and same_fields(a, b)
    if isinstance(a, MapV):
        return a.base == b.base and a.n.eq(b.n) and a.dom.eq(b.dom) and same_fields(a, b)
    if isinstance(a, FnPtr):
        return a.name == b.name
    if isinstance(a, VPtr):
        return (a.rid, a.off, a.slot) == (b.rid, b.off, b.slot)
    return False


def same_opt(x, y):
    if x is None or y is None:
        return x is y
    return x.eq(y)


def same_fields(a, b):
    return set(a.fields) == set(b.fields) and all(a.fields[k].eq(b.fields[k]) for k in a.fields)


def havoc_value(E, st, v, vals, tag):
    """fresh value shaped like v (vals: values seen at back edges)"""
    n = fresh_name("h." + tag)
    if isinstance(v, StrV):
        return StrV(z3.Const(n, Str))
    if isinstance(v, IV) or (isinstance(v, z3.BitVecNumRef) and v.size() > 8):
        w = v.w if isinstance(v, IV) else v.size()
        t = z3.Int(n)
        st.pc.append(z3.And(t >= 0, t < (1 << w)))
        return IV(t, w, 0, (1 << w) - 1)
    if isinstance(v, z3.BitVecRef):
        return z3.BitVec(n, v.size())
    if isinstance(v, z3.BoolRef):
        return z3.Bool(n)
    if isinstance(v, z3.FPRef):
        return z3.FP(n, v.sort())
    if isinstance(v, It):
        others = [x for x in vals if isinstance(x, It)]
        if v.pos is not None and all(x.pos is not None for x in others):
            t = z3.Int(n)
            return It(v.rid, v.coff, pos=t)
        raise sem.Unsupported("loop changes a lookup iterator")
    if isinstance(v, EPtr):
        if v.idx.sort() == IntS:
            return EPtr(v.rid, v.coff, z3.Int(n), v.off)
        return EPtr(v.rid, v.coff, z3.Const(n, v.idx.sort()), v.off)
    if isinstance(v, CPtr):
        return CPtr(v.base, z3.Int(n))
    if isinstance(v, LPtr):
        return LPtr(v.s, z3.Int(n))
    if isinstance(v, (Ptr, SPtr)):
        t = z3.Int(n)
        return SPtr(t)
    if isinstance(v, SeqV):
        m = z3.Int(n + ".n")
        st.pc.append(m >= 0)
        return SeqV(n, m, kind=v.kind, esize=v.esize, lv=v.lv, lo=v.lo if kept_shape(v, vals) else z3.Int(n + ".lo"))
    if isinstance(v, MapV):
        if kept_shape(v, vals):
            return MapV(n, v.n, v.dom, kind=v.kind, ks=v.ks, enum=v.enum, lv=v.lv, kl=v.kl)
        m = z3.Int(n + ".n")
        st.pc.append(m >= 0)
        return MapV(n, m, z3.Const(n + ".dom", z3.ArraySort(v.ks, z3.BoolSort())), kind=v.kind, ks=v.ks, lv=v.lv, kl=v.kl)
    if isinstance(v, Undef) or v is None:
        return None
    if isinstance(v, z3.ExprRef):
        return z3.Const(n, v.sort())
    raise sem.Unsupported("cannot generalise %r over a loop" % (v,))


def kept_shape(v, vals):
    """what no iteration seen so far changed of a container: where a sequence starts, the keys of a map"""
    if isinstance(v, SeqV):
        return all(x.lo.eq(v.lo) for x in vals if isinstance(x, SeqV))
    if isinstance(v, MapV):
        return all(x.n.eq(v.n) and x.dom.eq(v.dom) and x.enum.eq(v.enum) for x in vals if isinstance(x, MapV))
    return None


def cut(E, st, fr, header, work, outs, depth, loops, rec0):
    fn = fr.fn
    mod = {}
    for s, f in rec0.backs:
        diff_cells(E, st, s, mod)
    samples = {}

    def add_samples(backs):
        for s, f in backs:
            for rid, m in mod.items():
                if rid == "ghost":
                    continue
                r = s.mem.get(rid)
                if r is None:
                    continue
                for off in m:
                    if off in r.cells:
                        samples.setdefault((rid, off), []).append(r.cells[off][0])
            occasion(s)

    def occasion(s):
        """concrete values of changed cells seen together with each value of a changed monitor state"""
        qs = [(k, s.ghost[k]) for k in mod.get("ghost", {}) if isinstance(s.ghost.get(k), int)]
        for k, a in qs:
            for rid, m in mod.items():
                for off in m:
                    if rid == "ghost":
                        key, v = ("ghost", off), s.ghost.get(off)
                        if off == k or isinstance(v, int):
                            continue
                    else:
                        r = s.mem.get(rid)
                        key, v = (rid, off), (r.cells[off][0] if r is not None and off in r.cells else None)
                    vs = samples.setdefault(("imp", k, a), {}).setdefault(key, set())
                    if concrete(v) is not None:
                        vs.add(concrete(v))
    occasion(st)
    add_samples(rec0.backs)

    def havoc():
        h = st.clone()
        hv = {}
        for rid, m in mod.items():
            if rid == "ghost":
                for k in m:
                    v = h.ghost.get(k)
                    if isinstance(k, tuple) and k[0] == "note":
                        h.ghost.pop(k, None)
                    elif isinstance(v, z3.ExprRef):
                        nv = z3.Const(fresh_name("g"), v.sort())
                        h.ghost[k] = nv
                        hv[("ghost", k)] = (v, nv)
                    elif isinstance(v, int):
                        nv = z3.Int(fresh_name("g"))
                        h.ghost[k] = nv
                        hv[("ghost", k)] = (z3.IntVal(v), nv)
                    elif v is None:
                        h.ghost[k] = ("unknown",)
                    else:
                        raise sem.Unsupported("ghost %r changes in loop" % (k,))
                continue
            w = h.w(rid)
            for off, sz in m.items():
                if off == "dead":
                    w.dead = True
                    continue
                e = w.cells.get(off)
                if e is None:
                    # not initialised before the loop: value only meaningful inside one iteration
                    smp = samples.get((rid, off), [])
                    if w.base is None or w.kind == "alloca":
                        for o2 in [o for o in w.cells if o < off + sz and off < o + w.cells[o][1]]:
                            w.cells.pop(o2)
                        continue
                    nv = havoc_value(E, h, smp[0], smp, "%s+%s" % (w.name, off)) if smp else None
                    if nv is None:
                        continue
                    w.cells[off] = (nv, sz)
                    hv[(rid, off)] = (None, nv)
                    continue
                smp = samples.get((rid, off), [])
                # representation with the more general shape
                v0 = e[0]
                nv = havoc_value(E, h, v0, smp, "%s+%s" % (w.name, off))
                if nv is None:
                    w.cells.pop(off)
                    continue
                w.cells[off] = (nv, e[1])
                hv[(rid, off)] = (v0, nv)
        h.events = h.events + [("loop", header)]
        return h, hv

    cands = None
    for rnd in range(60):
        mark = fresh_mark()
        h, hv = havoc()
        allc = candidates(E, st, h, hv, fr, samples)
        if cands is None:
            # must hold on entry
            cands = E.entailed(st, [(n, c0) for n, c0, c1 in allc])
        else:
            cands = {n for n, c0, c1 in allc if n in cands} | E.entailed(st, [(n, c0) for n, c0, c1 in allc if n not in cands and n not in dropped])
        if rnd == 0:
            dropped = set()
        for n, c0, c1 in allc:
            if n in cands:
                h.pc.append(c1)
        rec = Rec(header)
        mark2 = fresh_mark()
        nob = len(E.obls)
        E.quiet += 1
        try:
            left, o = body_run(E, h.clone(), fr, header, depth, loops, rec)
        finally:
            E.quiet -= 1
        del E.obls[nob:]
        grew = False
        for s, f in rec.backs:
            if new_objects(E, st, s, mark, mark2):
                grew = True
            if diff_cells(E, h, s, mod):
                grew = True
        shapes = {k: kept_shape(v[0], samples.get(k, [])) for k, v in hv.items() if k[0] != "ghost"}
        add_samples(rec.backs)
        if grew or any(kept_shape(hv[k][0], samples.get(k, [])) != x for k, x in shapes.items()):
            continue
        if "gen" not in samples and not E.light:
            samples["gen"] = generalise(E, st, h, hv, rec.backs, mark)
            if samples["gen"]:
                continue
        bad = set()
        for s, f in rec.backs:
            back = {n: c for n, c in back_candidates(E, st, h, hv, s, fr, samples)}
            ask = [(n, back[n]) for n in sorted(cands - bad) if back.get(n) is not None]
            bad |= cands - E.entailed(s, ask)
        if not bad:
            break
        cands -= bad
        dropped |= bad
    else:
        raise sem.Unsupported("no inductive loop invariant found in %s" % fn.name)
    E.loops_cut.append((fn.name, header, sorted(cands)))
    # the invariant is inductive: record the (already discharged) obligations and continue behind the loop
    E.loop_obligations += len(cands) * (1 + len(rec.backs))
    h, hv = havoc()
    for n, c0, c1 in candidates(E, st, h, hv, fr, samples):
        if n in cands:
            h.pc.append(c1)
    rec = Rec(header)
    left, o = body_run(E, h, fr, header, depth, loops, rec)
    for s, f in left:
        work.append((s, f))
    outs.extend(o)
    return False


def consts_of(e):
    seen, out, stack = set(), {}, [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        stack.extend(x.children())
    return list(out.values())


def raw_index(v):
    """the integer a position-like value is made of"""
    if isinstance(v, IV):
        return v.t
    if isinstance(v, z3.BitVecNumRef):
        return z3.IntVal(v.as_long())
    return None if isinstance(v, z3.ArithRef) else numeric(v)


def cell(s, key):
    if key[0] == "ghost":
        return s.ghost.get(key[1])
    r = s.mem.get(key[0])
    e = r.cells.get(key[1]) if r is not None else None
    return e[0] if e is not None else None


def generalise(E, st0, h, hv, backs, mark):
    """facts established by one iteration about its own position, to be tried for all positions passed so far.

    -> [(name, key of the running position, its first value, +1|-1, f(j, current value of a cell))]"""
    if not backs:
        return []
    drv = []
    for key, (v0, nv) in hv.items():
        if key[0] == "ghost" or v0 is None:
            continue
        x, x0 = raw_index(nv), raw_index(v0)
        if x is None or x0 is None or not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        for c in (1, -1):
            ok = True
            for s, f in backs:
                xb = cell(s, key)
                xb = raw_index(xb) if xb is not None else None
                if xb is None or not E.entails(s, xb == x + c):
                    ok = False
                    break
            if ok:
                drv.append((key, x, x0, c))
                break
    cut = shortened(E, h, hv, backs, mark)
    if not drv:
        return cut
    # positions that move along until they reach the end of their sequence
    lag = []
    for key, (v0, nv) in hv.items():
        if key[0] == "ghost" or v0 is None or any(key == d[0] for d in drv) or not isinstance(nv, (It, EPtr)):
            continue
        y, y0 = raw_index(nv), raw_index(v0)
        end = seq_end(E, h, nv)
        if y is None or y0 is None or end is None or not (z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        ys = [raw_index(cell(s, key)) if cell(s, key) is not None else None for s, f in backs]
        if all(b is not None and E.entails(s, z3.Or(b == y, b == y + 1)) for b, (s, f) in zip(ys, backs)):
            lag.append((y, y0, end))
    vars_ = {x.get_id() for _, x, _, _ in drv} | {y.get_id() for y, _, _ in lag}

    def moved(x, x0, c):
        """all running positions in terms of the position J of x"""
        to = [(y, y0 + cy * c * (J - x0)) for _, y, y0, cy in drv if not y.eq(x)] + [(x, J)]
        for y, y0, end in lag:
            k = y0 + c * (J - x0)
            to.append((y, z3.If(k < end, k, end)))
        return to

    def allowed(e):
        for c in consts_of(e):
            m = re.findall(r"!(\d+)", c.decl().name())
            if m and max(map(int, m)) > mark and c.get_id() not in vars_:
                return False
        return True

    J = z3.Int("j!gen")
    paths = []
    for s, f in backs:
        lits = s.pc[len(h.pc):]
        # fresh names standing for a known term
        sub = []
        for l in lits:
            if z3.is_eq(l):
                for a, b in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not allowed(a) and allowed(b):
                        sub.append((a, b))
        lits = [z3.substitute(l, *sub) if sub else l for l in lits]
        lits = [l for l in lits if allowed(l) and not sem.has_quantifier(l)]
        pushed = {}
        for key, (v0, nv) in hv.items():
            if not isinstance(nv, SeqV) or not isinstance(v0, SeqV):
                continue
            b = cell(s, key)
            if not isinstance(b, SeqV):
                continue
            for off, arr in b.fields.items():
                arr = z3.simplify(arr)
                old = E.field_arr(nv, off, arr.sort().range())
                if z3.is_app_of(arr, z3.Z3_OP_STORE) and arr.arg(0).eq(old):
                    val = z3.substitute(arr.arg(2), *sub) if sub else arr.arg(2)
                    if allowed(val):
                        pushed[(key, off)] = (arr.arg(1), val)
        for key, (v0, nv) in hv.items():
            b = cell(s, key)
            if not (isinstance(nv, StrV) and isinstance(v0, StrV) and isinstance(b, StrV)):
                continue
            t = b.t
            if t.decl().eq(f_cat) and t.arg(0).eq(nv.t):
                u = t.arg(1)
                k = const_of(u)
                val = u.arg(0) if u.decl().eq(f_unit) else z3.IntVal(k[0]) if k is not None and len(k) == 1 else None
                at = None
            elif t.decl().eq(f_set) and t.arg(0).eq(nv.t):
                at, val = t.arg(1), t.arg(2)
            else:
                continue
            if val is None:
                continue
            # the text is as before the loop where the loop has not been yet
            val = z3.substitute(val, *(sub + [(nv.t, v0.t)]))
            if allowed(val) and (at is None or allowed(at)):
                pushed[(key, "chr")] = (at, val)
        paths.append((lits, pushed))
    common = set(paths[0][1])
    for l, p in paths:
        common &= set(p)
    if not common and not all(l for l, p in paths):
        return cut
    out = cut
    for key, x, x0, c in drv[:3]:
        to = moved(x, x0, c)

        def f(j, getv, key=key, x0=x0, c=c, to=to):
            ds = []
            for lits, pushed in paths:
                cs = [z3.substitute(l, *to) for l in lits]
                for ck, off in common:
                    cur, v0 = getv(ck), hv[ck][0]
                    if off == "chr":
                        if not isinstance(cur, StrV):
                            return None
                        at, val = pushed[(ck, off)]
                        at = E.slen(v0.t) + c * (J - x0) if at is None else z3.substitute(at, *to)
                        cs.append(f_at(cur.t, at) == z3.substitute(val, *to))
                        continue
                    if not isinstance(cur, SeqV):
                        return None
                    val = z3.substitute(pushed[(ck, off)][1], *to)
                    cs.append(z3.Select(E.field_arr(cur, off, val.sort()), v0.lo + v0.n + c * (J - x0)) == val)
                ds.append(z3.And(*cs))
            return z3.substitute(z3.Or(*ds), (J, j))
        out.append(("passed %s" % (key,), key, x0, c, f))
    seqs = {}
    for ck, off in common:
        if off == "chr":
            out += text_facts(E, hv, ck, drv, paths, J)
            for key, x, x0, c in drv[:3]:
                out.append(("length %s %s" % (ck, key), key, x0, c, ("length", ck)))
                out.append(("ahead %s %s" % (ck, key), key, x0, c, ("ahead", ck)))
            out.append(("head %s" % (ck,), None, None, 0, ("head", ck)))
            continue
        seqs.setdefault(ck, {})[off] = paths[0][1][(ck, off)][1].sort()
    for ck, offs in seqs.items():
        for key, x, x0, c in drv[:3]:
            out.append(("grown %s %s" % (ck, key), key, x0, c, ("grown", ck)))
        out.append(("kept %s" % (ck,), None, None, 0, ("kept", ck, offs)))
    return out


def seq_end(E, st, v):
    """end position of the sequence an iterator belongs to"""
    try:
        c = E.container(st, cloc(v))
    except sem.Unsupported:
        return None
    return c.end if isinstance(c, SeqV) else None


def shortened(E, h, hv, backs, mark):
    """texts that lose their last character in every iteration: what is known about each character taken away"""
    out = []
    for key, (v0, nv) in hv.items():
        if not (isinstance(v0, StrV) and isinstance(nv, StrV)):
            continue
        n = E.slen(nv.t)
        K = z3.Int("k!cut")
        ds = []
        for s, f in backs:
            b = cell(s, key)
            if not (isinstance(b, StrV) and b.t.decl().eq(f_sub) and b.t.arg(0).eq(nv.t) and E.entails(s, z3.And(b.t.arg(1) == 0, b.t.arg(2) == n - 1))):
                ds = None
                break
            lits = [z3.substitute(z3.substitute(l, (n, K)), (nv.t, v0.t)) for l in s.pc[len(h.pc):]]
            fresh = lambda l: any(max([int(m) for m in re.findall(r"!(\d+)", c.decl().name())] or [0]) > mark for c in consts_of(l))
            ds.append(z3.And(*[l for l in lits if not fresh(l) and not sem.has_quantifier(l)]))
        if ds:
            out.append(("cut %s" % (key,), None, None, 0, ("cut", key, lambda j, ds=ds, K=K: z3.substitute(z3.Or(*ds), (K, j + 1)))))
    return out


def text_facts(E, hv, ck, drv, paths, J):
    """what was written into a text, told by position in the text"""
    out = []
    v0 = hv[ck][0]
    n0 = E.slen(v0.t)
    for key, x, x0, c in drv[:3]:
        to = [(y, y0 + cy * c * (J - x0)) for _, y, y0, cy in drv if not y.eq(x)] + [(x, J)]
        ds, shift, appended = [], None, None
        for lits, pushed in paths:
            at, val = pushed[(ck, "chr")]
            app = at is None
            # position of the character written while the running position is J
            d = z3.simplify(n0 - c * x0) if app else z3.simplify(z3.substitute(at, *to) - c * J)
            if any(z.eq(J) for z in consts_of(d)) or shift is not None and not (shift.eq(d) and appended == app):
                ds = None
                break
            shift, appended = d, app
            ds.append((lits, val))
        if not ds:
            continue

        def f(i, cur, ds=ds, to=to, shift=shift, c=c):
            j = c * (i - shift)
            return z3.substitute(z3.Or(*[z3.And(*([z3.substitute(l, *to) for l in lits] + [f_at(cur, i) == z3.substitute(val, *to)])) for lits, val in ds]), (J, j))
        out.append(("text %s %s" % (ck, key), key, x0, c, ("text", ck, f, shift, appended)))
    return out


def gen_candidates(E, hv, gens, getv):
    out = []
    for name, key, x0, c, f in gens:
        if key is not None:
            x = getv(key)
            x = raw_index(x) if x is not None else None
            if x is None:
                continue
        if isinstance(f, tuple):
            cur, v0 = getv(f[1]), hv[f[1]][0]
            if isinstance(cur, StrV):
                n0, i = E.slen(v0.t), z3.Int("i!kept")
                same = f_at(cur.t, i) == f_at(v0.t, i)
                if f[0] == "cut":
                    out.append((name, z3.BoolVal(True) if cur.t.eq(v0.t) else z3.ForAll([i], z3.Implies(z3.And(i >= E.slen(cur.t), i < n0), f[2](i)))))
                elif f[0] == "length":
                    out.append((name, E.slen(cur.t) - n0 == c * (x - x0)))
                elif cur.t.eq(v0.t):
                    out.append((name, z3.BoolVal(True)))
                elif f[0] == "text":
                    lo, hi = f[3] + c * x0, f[3] + c * x
                    rng = z3.And(i >= lo, i < hi) if c > 0 or f[4] else z3.And(i <= lo, i > hi)
                    out.append((name, z3.ForAll([i], z3.Implies(rng, f[2](i, cur.t)))))
                elif f[0] == "head":
                    out.append((name, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), same))))
                else:
                    out.append((name, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0, i >= x if c > 0 else i <= x), same))))
                continue
            if not isinstance(cur, SeqV):
                continue
            if f[0] == "grown":
                out.append((name, cur.n - v0.n == c * (x - x0)))
                continue
            i = z3.Int("i!kept")
            cs = [z3.Select(E.field_arr(cur, off, so), i) == z3.Select(E.field_arr(v0, off, so), i) for off, so in f[2].items()]
            if all(z3.is_true(z3.simplify(k)) for k in cs):
                out.append((name, z3.BoolVal(True)))
            else:
                out.append((name, z3.ForAll([i], z3.Implies(z3.And(i >= v0.lo, i < v0.lo + v0.n), z3.And(*cs)))))
            continue
        j = z3.Int("j!passed")
        body = f(j, getv)
        if body is None:
            continue
        rng = z3.And(j >= x0, j < x) if c > 0 else z3.And(j <= x0, j > x)
        out.append((name, z3.BoolVal(True) if x.eq(x0) else z3.ForAll([j], z3.Implies(rng, body))))
    return out


def concrete(v):
    if isinstance(v, IV):
        v = z3.simplify(v.t)
        return v.as_long() if isinstance(v, z3.IntNumRef) else None
    if isinstance(v, (z3.BitVecNumRef, z3.IntNumRef)):
        return v.as_long()
    if isinstance(v, z3.BoolRef) and (z3.is_true(v) or z3.is_false(v)):
        return z3.is_true(v)
    return None


def equals(v, x):
    if isinstance(v, IV):
        return v.t == x
    if isinstance(v, z3.BitVecRef):
        return v == z3.BitVecVal(x, v.size())
    if isinstance(v, z3.ArithRef):
        return v == x
    if isinstance(v, z3.BoolRef):
        return v == z3.BoolVal(bool(x))
    return None


def state_candidates(samples, getv):
    """disjunctive facts: which monitor states occur, and what changed cells hold in each of them"""
    out = []
    seen = {}
    for key in samples:
        if key[0] == "imp" and key != "gen":
            seen.setdefault(key[1], set()).add(key[2])
    for k, vals in seen.items():
        q = getv(("ghost", k))
        if not isinstance(q, z3.ArithRef):
            continue
        out.append(("%s in %s" % (k, sorted(vals)), z3.Or(*[q == a for a in sorted(vals)])))
        for a in vals:
            for key, vs in samples[("imp", k, a)].items():
                if not 0 < len(vs) <= 6:
                    continue
                v = getv(key)
                if v is None:
                    continue
                c = [equals(v, x) for x in sorted(vs)]
                if None not in c:
                    out.append(("%s=%s=>%s in %s" % (k, a, key, sorted(vs)), z3.Implies(q == a, z3.Or(*c))))
    return out


def plain_int(v):
    if isinstance(v, IV):
        return v.t
    if isinstance(v, z3.BitVecNumRef):
        return z3.IntVal(v.as_long())
    return v if isinstance(v, z3.ArithRef) else None


def numeric(v):
    if isinstance(v, z3.ArithRef):
        return v
    if isinstance(v, IV):
        return v.signed()
    if isinstance(v, z3.BitVecNumRef):
        return to_iv(v).signed()
    if isinstance(v, It) and v.pos is not None:
        return v.pos
    if isinstance(v, EPtr) and v.idx.sort() == IntS:
        return v.idx
    if isinstance(v, (CPtr, LPtr)):
        return v.pos
    return None


def rel_candidates(E, st0, cur, key, v0, v):
    """facts relating the current value v of a changed cell to its value v0 at loop entry"""
    out = []
    x0, x = numeric(v0) if v0 is not None else None, numeric(v)
    if x0 is not None and x is not None:
        out.append(("%s>=init" % (key,), x >= x0))
        out.append(("%s<=init" % (key,), x <= x0))
    if isinstance(v, (It, EPtr)):
        try:
            c = E.container(cur, cloc(v))
            if isinstance(c, SeqV):
                out.append(("%s>=lo" % (key,), x >= c.lo))
                out.append(("%s<=end" % (key,), x <= c.end))
                out.append(("%s<end" % (key,), x < c.end))
            elif x is not None:
                out.append(("%s>=0" % (key,), x >= 0))
                out.append(("%s<=n" % (key,), x <= c.n))
        except sem.Unsupported:
            pass
    if isinstance(v, CPtr):
        s = E.get_str(cur, v.base)
        out.append(("%s<=len" % (key,), x <= E.slen(s)))
        out.append(("%s>=0" % (key,), x >= 0))
    if isinstance(v, StrV) and isinstance(v0, StrV):
        n, i = E.slen(v.t), z3.Int("i!kept")
        out.append(("%s.len==init" % (key,), n == E.slen(v0.t)))
        out.append(("%s.len<=init" % (key,), n <= E.slen(v0.t)))
        out.append(("%s prefix of init" % (key,), z3.BoolVal(True) if v.t.eq(v0.t) else
                    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, i < E.slen(v0.t)), f_at(v.t, i) == f_at(v0.t, i)))))
        for k, r in list(st0.ghost.items()):
            if isinstance(k, tuple) and k and k[0] == "find":
                out.append(("%s.len>%s" % (key, r.sexpr()), n > r))
    if isinstance(v, SPtr):
        out.append(("%s!=0" % (key,), v.t != 0))
        out.append(("%s>=0" % (key,), v.t >= 0))
    if isinstance(v, Ptr) and v.rid:
        out.append(("%s!=0" % (key,), z3.BoolVal(True)))
        out.append(("%s>=0" % (key,), E.addr(cur, v) >= 0))
    if isinstance(v, SeqV) and v0 is not None:
        out.append(("%s.n>=init" % (key,), v.n >= v0.n))
        out.append(("%s.n==init" % (key,), v.n == v0.n))
        out.append(("%s.lo==init" % (key,), v.lo == v0.lo))
    if isinstance(v, z3.BitVecRef) and isinstance(v0, z3.BitVecRef):
        out.append(("%s==init" % (key,), v == v0))
    if isinstance(v, z3.BoolRef) and isinstance(v0, z3.BoolRef):
        out.append(("%s==init" % (key,), v == v0))
    if isinstance(v, z3.ArithRef) and isinstance(v0, z3.ArithRef):
        out.append(("%s==init" % (key,), v == v0))
        out.append(("%s>=init" % (key,), v >= v0))
    return out


def all_candidates(E, st0, cur, hv, fr, getv, samples):
    out = state_candidates(samples, lambda k: getv(k) if k in hv else None)
    nums = []
    for key, (v0, nv) in hv.items():
        v = getv(key)
        if v is None:
            continue
        out += rel_candidates(E, st0, cur, key, v0, v)
        x, x0 = numeric(v), numeric(v0) if v0 is not None else None
        if x is not None and x0 is not None:
            nums.append((key, x, x0, v))
    for i in range(len(nums)):
        for j in range(i):
            (k1, a, a0, v), (k2, b, b0, w) = nums[i], nums[j]
            out.append(("%s-%s" % (k1, k2), a - a0 == b - b0))
            for (kx, x, x0, vx), (ky, y, y0, vy) in ((nums[i], nums[j]), (nums[j], nums[i])):
                if isinstance(hv[kx][1], (It, EPtr)) and isinstance(hv[ky][1], (It, EPtr)):
                    end = seq_end(E, st0, hv[ky][0])
                    if end is not None:
                        out.append(("%s lags %s" % (ky, kx), y == z3.If(y0 + x - x0 < end, y0 + x - x0, end)))
            if isinstance(hv[k1][1], IV) != isinstance(hv[k2][1], IV):
                u, t = plain_int(v), plain_int(w)
                if u is not None and t is not None:
                    out.append(("%s=%s" % (k1, k2), u == t))
    out += gen_candidates(E, hv, samples.get("gen", ()), getv)
    if E.light:
        out = [(n, c) for n, c in out if not sem.has_quantifier(c)]
    for h in E.cand_hooks:
        out += h(E, st0, cur, hv, fr, getv)
    return out


def candidates(E, st0, h, hv, fr, samples):
    """(name, fact at entry, fact in the havocked state)"""
    def get0(key):
        return hv[key][0]

    def get1(key):
        return hv[key][1]
    a0 = dict(all_candidates(E, st0, st0, hv, fr, get0, samples))
    a1 = dict(all_candidates(E, st0, h, hv, fr, get1, samples))
    return [(n, a0[n], a1[n]) for n in a1 if n in a0]


def back_candidates(E, st0, h, hv, s, fr, samples):
    def getb(key):
        if key[0] == "ghost":
            v = s.ghost.get(key[1])
            return z3.IntVal(v) if isinstance(v, int) else v
        r = s.mem.get(key[0])
        e = r.cells.get(key[1]) if r is not None else None
        return e[0] if e is not None else None
    return all_candidates(E, st0, s, hv, fr, getb, samples)
