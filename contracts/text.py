"""Text helpers: trimming, splitting, quotes, case, file names and the tokens of a configuration line."""
import re
import z3
from engine import ir
from engine.sem import *
from engine.vals import *
from engine.stl import f_has
from engine.verify import Unit, SpecError
from .values import one

TOOLS = "Utils::Tools::"
QUOTES = (ord('"'), ord("'"))


def text_arg(E, st, t, name):
    r = E.sym_region(st, fresh_name(name))
    st.w(r).cells[0] = (StrV(t), 32)
    return Ptr(r, 0)


def room(E, st, name="result"):
    """uninitialised storage of a returned string"""
    return Ptr(E.sym_region(st, fresh_name(name)), 0)


def chars(ctx, E, s, got, n, at, label):
    """got has n characters, the i-th being at(i)"""
    i = z3.Int(fresh_name("i"))
    ctx.require(E, s, E.slen(got) == n, label + ": length")
    ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < n), f_at(got, i) == at(i)), label + ": characters")


def part(ctx, E, s, got, src, frm, n, label):
    """got is the part of src of n characters from position frm"""
    chars(ctx, E, s, got, n, lambda i: f_at(src, frm + i), label)


def skolem(name="i"):
    return z3.Int(fresh_name(name))


def trim_units():
    us = []
    for side in ("Left", "Right", ""):
        def run(ctx, side=side):
            E = ctx.engine()
            st = State(E)
            s0, t0 = ctx.sym("text", Str), ctx.sym("set", Str)
            fn = one(ctx.P, TOOLS + r"stringTrim%s\(.*\)$" % side)
            res = room(E, st)
            src, tp = text_arg(E, st, s0, "source"), text_arg(E, st, t0, "set")
            has = lambda c: f_has(t0, c)
            ctx.cover(E, st.clone(), "precondition", E.slen(s0) > 3)
            for s, o in ctx.call(E, st, fn, [res, src, tp]):
                ctx.require(E, s, o[0] == "ret", "trim: ends normally")
                if o[0] != "ret":
                    continue
                r = E.get_str(s, res)
                n, m = E.slen(s0), E.slen(r)
                i = skolem()
                ctx.require(E, s, z3.And(E.get_str(s, src) == s0, E.get_str(s, tp) == t0), "trim: arguments stay as they are")
                if side == "Left":
                    k = n - m
                elif side == "Right":
                    k = z3.IntVal(0)
                else:
                    # start of the kept part: its first character is the first one outside the set
                    k = z3.Int(fresh_name("start"))
                    s.pc.append(z3.And(k >= 0, k <= n, z3.Or(k == n, z3.Not(has(f_at(s0, k))))))
                    j = z3.Int("j!start")
                    s.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), has(f_at(s0, j))), patterns=[f_at(s0, j)]))
                    k = z3.If(k == n, z3.IntVal(0), k)
                ctx.require(E, s, z3.And(m <= n, k >= 0, k + m <= n), "trim: never longer than before")
                ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < m), f_at(r, i) == f_at(s0, k + i)), "trim: keeps the rest unchanged")
                if side != "Right":
                    ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < (k if side == "" else n - m)), has(f_at(s0, i))), "trim: removes nothing else at the front")
                    ctx.require(E, s, z3.Implies(m > 0, z3.Not(has(f_at(r, z3.IntVal(0))))), "trim: removes everything to be removed at the front")
                if side != "Left":
                    ctx.require(E, s, z3.Implies(z3.And(i >= k + m, i < n), has(f_at(s0, i))), "trim: removes nothing else at the end")
                    ctx.require(E, s, z3.Implies(m > 0, z3.Not(has(f_at(r, m - 1)))), "trim: removes everything to be removed at the end")
        us.append(Unit("trim" + side, TOOLS + "stringTrim" + side, run))
    return us


def split_units():
    us = []
    for fn in ("split", "splitBy"):
        for alias in (False, True) if fn == "splitBy" else (False,):
            def run(ctx, fn=fn, alias=alias):
                E = ctx.engine()
                st = State(E)
                s0 = ctx.sym("text", Str)
                src = text_arg(E, st, s0, "source")
                a = text_arg(E, st, z3.Const("before0", Str), "before")
                b = src if alias else text_arg(E, st, z3.Const("after0", Str), "after")
                args = [src]
                sep = z3.IntVal(ord("."))
                if fn == "splitBy":
                    sep = ctx.sym("separator", IntS)
                    st.pc.append(z3.And(sep >= 0, sep <= 255))
                    args.append(IV(sep, 8, 0, 255))
                ctx.cover(E, st.clone(), "precondition", E.slen(s0) > 3)
                for s, o in ctx.call(E, st, one(ctx.P, TOOLS + fn + r"\(.*\)$"), args + [a, b]):
                    ctx.require(E, s, o[0] == "ret", "split: ends normally")
                    if o[0] != "ret":
                        continue
                    p, c = E.get_str(s, a), E.get_str(s, b)
                    n, k = E.slen(s0), E.slen(p)
                    i = skolem()
                    part(ctx, E, s, p, s0, z3.IntVal(0), k, "split: first part")
                    ctx.require(E, s, z3.And(k <= n, z3.Implies(z3.And(i >= 0, i < k), f_at(s0, i) != sep)), "split: the first part ends before the first separator")
                    ctx.require(E, s, z3.Implies(k < n, f_at(s0, k) == sep), "split: the first part reaches up to the separator")
                    part(ctx, E, s, c, s0, k + 1, z3.If(k < n, n - k - 1, z3.IntVal(0)), "split: second part")
                    if not alias:
                        ctx.require(E, s, E.get_str(s, src) == s0, "split: the text stays as it is")
            us.append(Unit("%s%s" % (fn, " in place" if alias else ""), TOOLS + fn, run))
    return us


def simple(name, fn, args, spec, label):
    """string -> string function: spec(E, ctx, s, text, result)"""
    def run(ctx):
        E = ctx.engine()
        st = State(E)
        s0 = ctx.sym("text", Str)
        res = room(E, st)
        ctx.cover(E, st.clone(), "precondition", E.slen(s0) > 3)
        for s, o in ctx.call(E, st, one(ctx.P, fn + r"\(.*\)$"), [res, text_arg(E, st, s0, "source")]):
            ctx.require(E, s, o[0] == "ret", label + ": ends normally")
            if o[0] == "ret":
                spec(E, ctx, s, s0, E.get_str(s, res))
    return Unit(name, fn, run)


def extract_unit():
    def spec(E, ctx, s, t, r):
        n = E.slen(t)
        first, last = f_at(t, z3.IntVal(0)), f_at(t, n - 1)
        quoted = z3.And(n >= 2, first == last, z3.Or(*[first == q for q in QUOTES]))
        part(ctx, E, s, r, t, z3.IntVal(1), z3.If(quoted, n - 2, z3.IntVal(0)), "quotes: exactly what lies between matching quotes")
    return [simple("extract", TOOLS + "extract", 1, spec, "quotes")]


def upper(c):
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def lower(c):
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def case_units():
    def low(E, ctx, s, t, r):
        chars(ctx, E, s, r, E.slen(t), lambda i: lower(f_at(t, i)), "lower case")

    def compare(ctx, nocase):
        E = ctx.engine()
        st = State(E)
        a, b = ctx.sym("a", Str), ctx.sym("b", Str)
        fn = one(ctx.P, TOOLS + "StringCompare%s" % ("I" if nocase else "") + r"\(.*\)$")
        up = upper if nocase else (lambda c: c)
        ctx.cover(E, st.clone(), "precondition", z3.And(E.slen(a) > 3, E.slen(b) == E.slen(a)))
        for s, o in ctx.call(E, st, fn, [text_arg(E, st, a, "a"), text_arg(E, st, b, "b")]):
            ctx.require(E, s, o[0] == "ret", "comparison: ends normally")
            if o[0] != "ret":
                continue
            i = skolem()
            r = to_bv(o[1], 1) == 1
            ctx.require(E, s, z3.Implies(r, z3.And(E.slen(a) == E.slen(b), z3.Implies(z3.And(i >= 0, i < E.slen(a)), up(f_at(a, i)) == up(f_at(b, i))))), "comparison: equal texts agree everywhere")
            j = z3.Int("j!all")
            agree = z3.And(E.slen(a) == E.slen(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < E.slen(a)), up(f_at(a, j)) == up(f_at(b, j))), patterns=[f_at(a, j)]))
            ctx.require(E, s, z3.Implies(z3.Not(r), z3.Not(agree)), "comparison: different texts differ somewhere")
    return [simple("toLowerCase", TOOLS + "toLowerCase", 1, low, "lower case"),
            Unit("StringCompareI", TOOLS + "StringCompareI", lambda ctx: compare(ctx, True)),
            Unit("StringCompare", TOOLS + "StringCompare", lambda ctx: compare(ctx, False))]


def file_units():
    def ext(E, ctx, s, t, r):
        tail(E, ctx, s, t, r, (ord("."),), z3.IntVal(0), "file extension")

    def tail(E, ctx, s, t, r, seps, none, label):
        """the part behind the last separator"""
        n, m, i = E.slen(t), E.slen(r), skolem()
        sep = lambda c: z3.Or(*[c == x for x in seps])
        ctx.require(E, s, m <= n, label + ": no longer than the name")
        found = z3.And(m < n, sep(f_at(t, n - m - 1)))
        if none is None:
            # without separator: everything
            ctx.require(E, s, z3.Or(m == n, found), label + ": starts behind a separator")
            ctx.require(E, s, z3.Implies(z3.And(i >= n - m, i < n), z3.Not(sep(f_at(t, i)))), label + ": starts behind the last separator")
            ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < m), f_at(r, i) == f_at(t, n - m + i)), label + ": characters")
        else:
            j = z3.Int("j!no")
            nosep = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(sep(f_at(t, j)))), patterns=[f_at(t, j)])
            ctx.require(E, s, z3.Or(found, z3.And(m == 0, nosep)), label + ": starts behind a separator, nothing if there is none")
            ctx.require(E, s, z3.Implies(z3.And(found, i >= n - m, i < n), z3.Not(sep(f_at(t, i)))), label + ": starts behind the last separator")
            ctx.require(E, s, z3.Implies(z3.And(i >= 0, i < m), f_at(r, i) == f_at(t, n - m + i)), label + ": characters")

    def name(E, ctx, s, t, r):
        tail(E, ctx, s, t, r, (ord("/"), ord("\\")), None, "file name")

    def path(E, ctx, s, t, r):
        n, m, i = E.slen(t), E.slen(r), skolem()
        sep = lambda c: z3.Or(c == ord("/"), c == ord("\\"))
        j = z3.Int("j!no")
        nosep = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(sep(f_at(t, j)))), patterns=[f_at(t, j)])
        part(ctx, E, s, r, t, z3.IntVal(0), m, "folder")
        ctx.require(E, s, z3.And(m <= n, z3.Or(z3.And(m == n, nosep), z3.And(m > 0, sep(f_at(t, m - 1))))), "folder: ends with a separator, the whole name if there is none")
        ctx.require(E, s, z3.Implies(z3.And(i >= m, i < n), z3.Not(sep(f_at(t, i)))), "folder: reaches up to the last separator")

    def noext(E, ctx, s, t, r):
        n, m, i = E.slen(t), E.slen(r), skolem()
        dot = ord(".")
        j = z3.Int("j!no")
        part(ctx, E, s, r, t, z3.IntVal(0), m, "name without extension")
        cut = z3.And(m < n - 1, f_at(t, m) == dot)
        ctx.require(E, s, z3.And(m <= n, z3.Or(m == n, cut)), "name without extension: ends before a dot")
        ctx.require(E, s, z3.Implies(z3.And(m < n, i > m, i < n), f_at(t, i) != dot), "name without extension: ends before the last dot")
        nodot = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - 1), f_at(t, j) != dot), patterns=[f_at(t, j)])
        ctx.require(E, s, z3.Implies(m == n, z3.Or(n == 0, f_at(t, n - 1) == dot, nodot)), "name without extension: unchanged only without extension")
    F = TOOLS + "Files::"
    return [simple("ExtractFileExt", F + "ExtractFileExt", 1, ext, "file extension"), simple("ExtractFilename", F + "ExtractFilename", 1, name, "file name"),
            simple("ExtractPathname", F + "ExtractPathname", 1, path, "folder"), simple("RemoveFileExt", F + "RemoveFileExt", 1, noext, "name without extension")]


def indent_unit():
    def run(ctx):
        E = ctx.engine()
        st = State(E)
        level = ctx.sym("level", IntS)
        st.pc.append(z3.And(level >= 0, level < 1 << 32))
        res = room(E, st)
        ctx.cover(E, st.clone(), "precondition", level > 3)
        for s, o in ctx.call(E, st, one(ctx.P, TOOLS + r"indent\(.*\)$"), [res, IV(level, 32, 0, (1 << 32) - 1)]):
            ctx.require(E, s, o[0] == "ret", "indentation: ends normally")
            if o[0] == "ret":
                chars(ctx, E, s, E.get_str(s, res), level, lambda i: z3.IntVal(9), "indentation")
    return [Unit("indent", TOOLS + "indent", run)]


def string_units():
    return trim_units() + split_units() + extract_unit() + case_units() + file_units() + indent_unit()


def trimmed(E, st, a, ins):
    """contract of trimming at both ends, as proved by its unit"""
    t, d = E.get_str(st, a[1]), E.get_str(st, a[2])
    b = const_of(d)
    has = (lambda c: z3.Or(*[c == x for x in sorted(set(b))])) if b else (lambda c: f_has(d, c))
    n, k, m, j = E.slen(t), z3.Int(fresh_name("from")), z3.Int(fresh_name("kept")), z3.Int("j!trim")
    st.pc.append(z3.And(k >= 0, m >= 0, k + m <= n))
    st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, z3.Or(j < k, j >= k + m)), has(f_at(t, j))), patterns=[f_at(t, j)]))
    st.pc.append(z3.Implies(m > 0, z3.And(z3.Not(has(f_at(t, k))), z3.Not(has(f_at(t, k + m - 1))))))
    E.set_str(st, a[0], f_sub(t, k, m))
    return [(st, ("ret", None))]


def lowered(E, st, a, ins):
    E.set_str(st, a[0], f_lower(E.get_str(st, a[1])))
    return [(st, ("ret", None))]


def truth_unit():
    def run(ctx):
        E = ctx.engine()
        E.contracts[one(ctx.P, TOOLS + r"stringTrim\(.*\)$")] = trimmed
        E.contracts[one(ctx.P, TOOLS + r"toLowerCase\(.*\)$")] = lowered
        st = State(E)
        t = ctx.sym("text", Str)
        n = E.slen(t)
        k, j = z3.Int("start"), z3.Int("j")
        blank = lambda i: f_at(t, i) == 32
        st.pc.append(z3.And(k >= 0, k <= n, z3.Or(k == n, z3.Not(blank(k)))))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), blank(j)), patterns=[f_at(t, j)]))
        rest = lambda m: z3.ForAll([j], z3.Implies(z3.And(j >= m, j < n), blank(j)), patterns=[f_at(t, j)])
        word = lambda w: z3.And(k + len(w) <= n, *[lower(f_at(t, k + i)) == ord(c) for i, c in enumerate(w)], rest(k + len(w)))
        ctx.cover(E, st.clone(), "the word false", word("false"))
        for s, o in ctx.call(E, st, one(ctx.P, TOOLS + r"stringToBool\(.*\)$"), [text_arg(E, st, t, "source")]):
            ctx.require(E, s, o[0] == "ret", "truth of a text: ends normally")
            if o[0] != "ret":
                continue
            r = to_bv(o[1], 1) == 1
            no = z3.Or(k == n, word("\n"), word("false"))
            ctx.require(E, s, z3.Implies(r, z3.Not(no)), "truth of a text: blank texts and the word false are false")
            ctx.require(E, s, z3.Implies(z3.Not(r), no), "truth of a text: everything else is true")
    return [Unit("stringToBool", TOOLS + "stringToBool", run)]


def token_units():
    TK = "Utils::Tokenizer"

    def run(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        t, d = ctx.sym("text", Str), ctx.sym("delimiters", Str)
        f = lambda n: P.field(TK, n)
        this = E.sym_region(st, "tokenizer", cls=[P.ti(TK)] if P.ti(TK) else None, size=P.class_size(TK))
        w = st.w(this)
        old = z3.Const("token0", Str)
        off = ctx.sym("offset", IntS)
        n = E.slen(t)
        st.pc.append(z3.And(off >= 0, off <= n))
        for k, v, sz in (("mString", StrV(t), 32), ("mDelimiters", StrV(d), 32), ("mToken", StrV(old), 32), ("mOffset", IV(off, 64, 0, (1 << 63) - 1), 8)):
            w.cells[f(k)] = (v, sz)
        has = lambda i: f_has(d, f_at(t, i))
        ctx.cover(E, st.clone(), "precondition", n > 3)
        for s, o in ctx.call(E, st, one(P, TK + r"::hasNext\(\)$"), [Ptr(this, 0)]):
            ctx.require(E, s, o[0] == "ret", "next word: ends normally")
            if o[0] != "ret":
                continue
            r = to_bv(o[1], 1) == 1
            tok, pos = E.get_str(s, Ptr(this, f("mToken"))), to_iv(E.load(s, Ptr(this, f("mOffset")), ir.I64)).t
            m, i = E.slen(tok), skolem()
            ctx.require(E, s, z3.And(E.get_str(s, Ptr(this, f("mString"))) == t, E.get_str(s, Ptr(this, f("mDelimiters"))) == d), "next word: text and delimiters stay as they are")
            ctx.require(E, s, z3.And(pos >= off, pos <= n), "next word: moves forward within the text")
            ctx.require(E, s, z3.Implies(z3.And(z3.Not(r), i >= off, i < n), has(i)), "next word: none only if nothing but delimiters is left")
            ctx.require(E, s, z3.Implies(z3.Not(r), pos == n), "next word: none means the text is used up")
            ctx.require(E, s, z3.Implies(r, z3.And(m > 0, pos - m >= off)), "next word: is not empty")
            ctx.require(E, s, z3.Implies(z3.And(r, i >= 0, i < m), z3.And(f_at(tok, i) == f_at(t, pos - m + i), z3.Not(has(pos - m + i)))), "next word: consists of characters that are no delimiters")
            ctx.require(E, s, z3.Implies(z3.And(r, i >= off, i < pos - m), has(i)), "next word: is the next one")
            ctx.require(E, s, z3.Implies(z3.And(r, pos < n), has(pos)), "next word: is complete")

    def ctor(ctx):
        P = ctx.P
        E = ctx.engine()
        st = State(E)
        t, d = ctx.sym("text", Str), ctx.sym("delimiters", Str)
        this = Ptr(E.sym_region(st, "tokenizer"), 0)
        std = z3.Const("standard", Str)
        st.pc.append(std == strconst(" \t\n\r;"))
        g = [k for k in P.dem if P.dem[k] == TK + "::DELIMITERS"]
        E.global_text = {x: std for x in g}
        for s, o in ctx.call(E, st, one(P, TK + r"::Tokenizer\(std::string, .*\)$"), [this, text_arg(E, st, t, "t"), text_arg(E, st, d, "d")]):
            ctx.require(E, s, o[0] == "ret", "words of a text: ends normally")
            ctx.require(E, s, E.get_str(s, Ptr(this.rid, P.field(TK, "mString"))) == t, "words of a text: of the given text")
            ctx.require(E, s, to_iv(E.load(s, Ptr(this.rid, P.field(TK, "mOffset")), ir.I64)).t == 0, "words of a text: from its start")
            dd = E.get_str(s, Ptr(this.rid, P.field(TK, "mDelimiters")))
            ctx.require(E, s, z3.Implies(d != EMPTY, dd == d), "words of a text: separated by the given delimiters")
    return [Unit("Tokenizer::hasNext", TK + "::hasNext", run), Unit("Tokenizer", TK + "::Tokenizer", ctor)]
