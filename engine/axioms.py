"""Ground instances of the defining facts of the abstract string operations."""
import itertools
import z3
from .vals import *

MAXLEN = 1 << 56
f_diff = z3.Function("str.diff", Str, Str, IntS)
_cache = {}
_keep = []


def mentions_at(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f_at):
            return True
        stack.extend(x.children())
    return False


def subterms(e):
    """Str-sorted subterms, at-applications and lt-applications of an expression (cached)"""
    k = e.get_id()
    r = _cache.get(k)
    if r is not None:
        return r
    _keep.append(e)
    strs, ats, lts, eqs = {}, {}, {}, {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            if mentions_at(x.body()):
                eqs["at"] = True
            continue
        if z3.is_app(x):
            if x.sort() == Str:
                strs[i] = x
            d = x.decl()
            if d.eq(f_at):
                ats[i] = x
            elif d.eq(f_lt):
                lts[i] = x
            elif x.num_args() == 2 and z3.is_eq(x) and x.arg(0).sort() == Str:
                eqs[i] = x
            elif z3.is_distinct(x) and x.num_args() == 2 and x.arg(0).sort() == Str:
                eqs[i] = x
            stack.extend(x.children())
    r = (strs, ats, lts, eqs)
    _cache[k] = r
    return r


_inst = {}
_small = [z3.IntVal(i) for i in range(64)]


def inst(key, make):
    """instances belonging to the terms with these ids, built once (the terms are kept alive)"""
    r = _inst.get(key)
    if r is None:
        r = _inst[key] = make()
    return r


def eq_facts(e):
    """two texts of the same length that differ do so at some position"""
    a, b = e.arg(0), e.arg(1)
    for x, y in ((a, b), (b, a)):
        k = const_of(x)
        if k is not None and len(k) <= 64:
            return [(x == y) == z3.And(f_len(y) == len(k), *[f_at(y, z3.IntVal(i)) == c for i, c in enumerate(k)])], None, e
    d = f_diff(a, b)
    return [z3.Or(a == b, f_len(a) != f_len(b), z3.And(d >= 0, d < f_len(a), f_at(a, d) != f_at(b, d)))], d, e


def collect(exprs):
    strs, ats, lts, eqs = {}, {}, {}, {}
    for e in exprs:
        a, b, c, q = subterms(e)
        strs.update(a)
        ats.update(b)
        lts.update(c)
        eqs.update(q)
    if not strs:
        return []
    out = []
    consts = []
    uses_len = True
    cats, subs, units, sets = [], [], [], []
    for t in strs.values():
        b = const_of(t)
        if b is not None:
            consts.append((t, b))
            out += inst(("len", t.get_id()), lambda: [f_len(t) == len(b)])
            continue
        d = t.decl()
        out.append(f_len(t) >= 0)
        out.append((f_len(t) == 0) == (t == EMPTY))
        if d.eq(f_cat):
            a, b2 = t.children()
            out.append(f_len(t) == f_len(a) + f_len(b2))
            out.append(z3.Implies(a == EMPTY, t == b2))
            out.append(z3.Implies(b2 == EMPTY, t == a))
            cats.append(t)
        elif d.eq(f_sub):
            s, p, n = t.children()
            out.append(z3.Implies(z3.And(p >= 0, n >= 0, p + n <= f_len(s)), f_len(t) == n))
            out.append(z3.Implies(z3.And(p == 0, n == f_len(s)), t == s))
            subs.append(t)
        elif d.eq(f_unit):
            out.append(f_len(t) == 1)
            out.append(f_at(t, z3.IntVal(0)) == t.arg(0))
            units.append(t)
        elif d.eq(f_lower):
            out.append(f_len(t) == f_len(t.arg(0)))
            sets.append(t)
        elif d.eq(f_set):
            out.append(f_len(t) == f_len(t.arg(0)))
            sets.append(t)
        else:
            out.append(f_len(t) <= MAXLEN)
    if EMPTY.get_id() not in strs:
        consts.append((EMPTY, b""))
        out.append(f_len(EMPTY) == 0)
    if len(consts) > 1:
        out.append(z3.Distinct(*[t for t, _ in consts]))
    # characters
    idx = {}
    quantified = eqs.pop("at", False)
    for x in ats.values():
        out.append(z3.And(x >= 0, x <= 255))
        idx[x.arg(1).get_id()] = x.arg(1)
    if ats or quantified and eqs:
        for t, b in consts:
            if len(b) <= 64:
                out += inst(("chars", t.get_id()), lambda: [z3.And(*[f_at(t, z3.IntVal(k)) == ch for k, ch in enumerate(b)])] if b else [])
        # two texts of the same length that differ do so at some position
        for e in eqs.values():
            a, b = e.arg(0), e.arg(1)
            if EMPTY.eq(a) or EMPTY.eq(b):
                continue
            for k in (const_of(a), const_of(b)):
                if k is not None and len(k) <= 12:
                    for z in range(len(k)):
                        idx[_small[z].get_id()] = _small[z]
            fs, d, _ = inst(("eq", e.get_id()), lambda: eq_facts(e))
            out += fs
            if d is not None:
                idx[d.get_id()] = d
        todo = [(t, i) for t in cats + subs + sets for i in idx.values()]
        done = set()
        while todo and len(done) < 4000:
            t, i = todo.pop()
            k = (t.get_id(), i.get_id())
            if k in done:
                continue
            done.add(k)
            _keep.append(i)
            d = t.decl()
            if d.eq(f_cat):
                a, b2 = t.children()
                j = z3.simplify(i - f_len(a))
                out.append(z3.Implies(z3.And(i >= 0, i < f_len(t)), f_at(t, i) == z3.If(i < f_len(a), f_at(a, i), f_at(b2, j))))
                nxt = [(a, i), (b2, j)]
            elif d.eq(f_lower):
                x = f_at(t.arg(0), i)
                out.append(z3.Implies(z3.And(i >= 0, i < f_len(t)), f_at(t, i) == z3.If(z3.And(x >= 65, x <= 90), x + 32, x)))
                nxt = [(t.arg(0), i)]
            elif d.eq(f_set):
                s, p, c = t.children()
                out.append(z3.Implies(z3.And(i >= 0, i < f_len(t)), f_at(t, i) == z3.If(i == p, c, f_at(s, i))))
                nxt = [(s, i)]
            else:
                s, p, n = t.children()
                j = z3.simplify(p + i)
                out.append(z3.Implies(z3.And(i >= 0, i < n, p >= 0, p + n <= f_len(s)), f_at(t, i) == f_at(s, j)))
                nxt = [(s, j)]
            for x, j in nxt:
                if any(x.decl().eq(g) for g in (f_cat, f_sub, f_set, f_lower)):
                    todo.append((x, j))
    # order
    if lts:
        ts = {}
        for x in lts.values():
            for y in x.children():
                ts[y.get_id()] = y
        L = list(ts.values())
        for a, b in itertools.combinations(L, 2):
            ca, cb = const_of(a), const_of(b)
            if ca is not None and cb is not None:
                out.append(f_lt(a, b) == (ca < cb))
                out.append(f_lt(b, a) == (cb < ca))
            else:
                out.append(z3.PbEq([(f_lt(a, b), 1), (f_lt(b, a), 1), (a == b, 1)], 1))
        for a in L:
            out.append(z3.Not(f_lt(a, a)))
        if len(L) <= 8:
            for a, b, c in itertools.permutations(L, 3):
                out.append(z3.Implies(z3.And(f_lt(a, b), f_lt(b, c)), f_lt(a, c)))
    return out
