"""Reader for the textual LLVM IR that clang-18 emits (opaque pointers).

Functions are parsed on demand.  Nothing is dropped except debug intrinsics,
metadata attachments, attributes and lifetime markers.
"""
import re
import struct as _struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ()


class IntT(Type):
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return "i%d" % self.w


class FloatT(Type):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k


class PtrT(Type):
    def __repr__(self):
        return "ptr"


class VoidT(Type):
    def __repr__(self):
        return "void"


class ArrT(Type):
    __slots__ = ("n", "t")

    def __init__(self, n, t):
        self.n, self.t = n, t

    def __repr__(self):
        return "[%d x %r]" % (self.n, self.t)


class VecT(ArrT):
    def __repr__(self):
        return "<%d x %r>" % (self.n, self.t)


class StructT(Type):
    __slots__ = ("elems", "packed", "name")

    def __init__(self, elems, packed=False, name=None):
        self.elems, self.packed, self.name = elems, packed, name

    def __repr__(self):
        return self.name or "{%s}" % ",".join(map(repr, self.elems))


class FuncT(Type):
    def __init__(self, ret, params, va):
        self.ret, self.params, self.va = ret, params, va


class NamedT(Type):
    __slots__ = ("mod", "name")

    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __repr__(self):
        return "%" + self.name

    def resolve(self):
        return self.mod.struct(self.name)


PTR, VOID = PtrT(), VoidT()
I1, I8, I16, I32, I64 = IntT(1), IntT(8), IntT(16), IntT(32), IntT(64)
_INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}
FLOAT, DOUBLE = FloatT("float"), FloatT("double")
_FSIZE = {"half": 2, "float": 4, "double": 8, "x86_fp80": 16, "fp128": 16}
OPAQUE = StructT([], name="opaque")


def resolve(t):
    while isinstance(t, NamedT):
        t = t.resolve()
    return t


_szcache = {}


def align_of(t):
    t = resolve(t)
    if isinstance(t, IntT):
        s = (t.w + 7) // 8
        a = 1
        while a < s:
            a *= 2
        return min(a, 16)
    if isinstance(t, FloatT):
        return _FSIZE[t.k]
    if isinstance(t, PtrT):
        return 8
    if isinstance(t, VecT):
        return size_of(t)
    if isinstance(t, ArrT):
        return align_of(t.t)
    if isinstance(t, StructT):
        if t.packed or not t.elems:
            return 1
        return max(align_of(e) for e in t.elems)
    raise IRError("align_of %r" % t)


def size_of(t):
    t = resolve(t)
    if isinstance(t, IntT):
        s = (t.w + 7) // 8
        a = align_of(t)
        return (s + a - 1) // a * a
    if isinstance(t, FloatT):
        return _FSIZE[t.k]
    if isinstance(t, PtrT):
        return 8
    if isinstance(t, VecT):
        return t.n * size_of(t.t)
    if isinstance(t, ArrT):
        return t.n * size_of(t.t)
    if isinstance(t, StructT):
        if t in _szcache:
            return _szcache[t]
        o = 0
        for e in t.elems:
            if not t.packed:
                a = align_of(e)
                o = (o + a - 1) // a * a
            o += size_of(e)
        if not t.packed:
            a = align_of(t)
            o = (o + a - 1) // a * a
        _szcache[t] = o
        return o
    raise IRError("size_of %r" % t)


def field_offset(t, idx):
    t = resolve(t)
    o = 0
    for i, e in enumerate(t.elems):
        if not t.packed:
            a = align_of(e)
            o = (o + a - 1) // a * a
        if i == idx:
            return o
        o += size_of(e)
    raise IRError("field %d of %r" % (idx, t))


# ---------------------------------------------------------------- values
class Reg:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "%" + self.name


class CInt:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return "%r %d" % (self.t, self.v)


class CFloat:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class CNull:
    pass


class CUndef:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class CZero:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class CGlobal:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __repr__(self):
        return "@" + self.name


class CAgg:
    __slots__ = ("t", "elems")

    def __init__(self, t, elems):
        self.t, self.elems = t, elems  # elems: [(type, value)]


class CBytes:
    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data


class CExpr:
    __slots__ = ("op", "t", "args", "src")

    def __init__(self, op, t, args, src=None):
        self.op, self.t, self.args, self.src = op, t, args, src


class Instr:
    __slots__ = ("op", "res", "t", "args", "x", "dbg")

    def __init__(self, op, res=None, t=None, args=(), x=None):
        self.op, self.res, self.t, self.args, self.x = op, res, t, args, x
        self.dbg = None

    def __repr__(self):
        return "<%s %s = %r %r>" % (self.op, self.res, self.args, self.x)


_TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![a-zA-Z0-9_.]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?(?:0x[KHLMR]?[0-9A-Fa-f]+|[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|[0-9]+))
 |(?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = _TOK.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i:].strip() == "":
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        k = r.lastgroup
        v = r.group(k)
        if k == "dots":
            k = "p"
        out.append((k, v))
        i = r.end()
    return out


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if "\\" in s:
            s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
    return s


def unescape(s):
    """c"..." body -> bytes"""
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


_PATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "signext",
          "zeroext", "inreg", "nest", "immarg", "nofree", "swiftself", "noext", "allocptr", "allocalign", "writable",
          "nofpclass", "dead_on_unwind", "swifterror"}
_PATTR_ARG = {"dereferenceable", "dereferenceable_or_null", "align", "byval", "sret", "byref", "elementtype",
              "preallocated", "inalloca", "alignstack", "range"}
_FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nuw", "nsw", "exact", "inbounds", "nneg",
        "disjoint", "samesign", "volatile", "inrange", "nusw"}
_CC = {"ccc", "fastcc", "coldcc", "tailcc", "dso_local", "dso_preemptable", "linkonce_odr", "weak_odr", "internal",
       "external", "private", "available_externally", "hidden", "protected", "default", "unnamed_addr",
       "local_unnamed_addr", "weak", "linkonce", "extern_weak", "thread_local", "externally_initialized", "common",
       "appending"}
_BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd",
        "fsub", "fmul", "fdiv", "frem"}
_CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
         "bitcast", "addrspacecast"}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.mod, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r got %r (%r)" % (v, self.peek(), self.t))

    def done(self):
        return self.i >= len(self.t)

    # -- types
    def type(self):
        k, v = self.next()
        if k == "id":
            if v[0] == "i" and v[1:].isdigit():
                w = int(v[1:])
                t = _INTS.get(w) or _INTS.setdefault(w, IntT(w))
            elif v == "ptr":
                t = PTR
                if self.accept("addrspace"):
                    self.expect("(")
                    self.next()
                    self.expect(")")
            elif v == "void":
                t = VOID
            elif v in _FSIZE:
                t = FLOAT if v == "float" else DOUBLE if v == "double" else FloatT(v)
            elif v in ("label", "metadata", "token"):
                t = VOID
            else:
                raise IRError("type %r" % v)
        elif k == "loc":
            t = NamedT(self.mod, unq(v))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ArrT(n, e)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = StructT(self._tlist("}"), packed=True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = VecT(n, e)
        elif v == "{":
            t = StructT(self._tlist("}"))
        else:
            raise IRError("type %r in %r" % ((k, v), self.t))
        while self.peek()[1] == "(" and self._looks_func():
            self.next()
            ps, va = [], False
            while not self.accept(")"):
                if self.accept("..."):
                    va = True
                else:
                    ps.append(self.type())
                    self.attrs()
                self.accept(",")
            t = FuncT(t, ps, va)
        return t

    def _looks_func(self):
        # function type only appears before a callee in call/invoke: "T (args) @f(" or "T (args) %f("
        d = 0
        j = self.i
        while j < len(self.t):
            v = self.t[j][1] if self.t[j][0] == "p" else None
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ("glob", "loc")
            j += 1
        return False

    def _tlist(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type())
            self.accept(",")
        return r

    def attrs(self):
        d = {}
        while True:
            k, v = self.peek()
            if k == "id" and v in _PATTR:
                self.next()
            elif k == "id" and v in _PATTR_ARG:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                else:
                    self.expect("(")
                    if v in ("byval", "sret", "byref", "elementtype"):
                        d[v] = self.type()
                        self.expect(")")
                    else:
                        dep = 1
                        while dep:
                            x = self.next()[1]
                            dep += (x == "(") - (x == ")")
            elif k == "attr" or k == "str":
                self.next()
            else:
                return d

    # -- values
    def value(self, t):
        k, v = self.next()
        if k == "loc":
            return Reg(unq(v))
        if k == "glob":
            return CGlobal(unq(v), self.mod)
        if k == "num":
            rt = resolve(t)
            if isinstance(rt, FloatT):
                if v.startswith("0x"):
                    if v[2] in "KHLMR":
                        return CFloat(rt, None)
                    return CFloat(rt, _struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0])
                return CFloat(rt, float(v))
            return CInt(rt, int(v))
        if k == "str":
            return CBytes(unescape(v[2:-1]))
        if k == "id":
            if v == "true":
                return CInt(I1, 1)
            if v == "false":
                return CInt(I1, 0)
            if v == "null":
                return CNull()
            if v in ("undef", "poison"):
                return CUndef(t)
            if v == "zeroinitializer":
                return CZero(t)
            if v == "none":
                return CNull()
            if v == "getelementptr":
                while self.peek()[1] in _FMF:
                    self.next()
                    if self.peek()[1] == "(" and False:
                        pass
                self.expect("(")
                src = self.type()
                self.expect(",")
                args = []
                while not self.accept(")"):
                    if self.peek()[1] == "inrange":
                        self.next()
                    ty = self.type()
                    args.append((ty, self.value(ty)))
                    self.accept(",")
                return CExpr("gep", PTR, args, src)
            if v in _CAST:
                self.expect("(")
                ty = self.type()
                a = self.value(ty)
                self.expect("to")
                to = self.type()
                self.expect(")")
                return CExpr(v, to, [(ty, a)])
            if v in _BIN or v in ("icmp", "select"):
                while self.peek()[1] in _FMF:
                    self.next()
                pred = None
                if v == "icmp":
                    pred = self.next()[1]
                self.expect("(")
                args = []
                while not self.accept(")"):
                    ty = self.type()
                    args.append((ty, self.value(ty)))
                    self.accept(",")
                return CExpr(v, args[0][0], args, pred)
            if v == "blockaddress" or v == "dso_local_equivalent":
                raise IRError(v)
        if v == "{" or v == "[" or v == "<":
            end = {"{": "}", "[": "]", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next()
                end = "}"
                packed = True
            es = []
            while not self.accept(end):
                ty = self.type()
                es.append((ty, self.value(ty)))
                self.accept(",")
            if packed:
                self.expect(">")
            return CAgg(t, es)
        raise IRError("value %r in %r" % ((k, v), self.t))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Function:
    def __init__(self, mod, name, header, body_lines):
        self.mod, self.name = mod, name
        self.header, self._body = header, body_lines
        self._parsed = False
        self.params = None

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        m = re.search(r" !dbg !(\d+)", h)
        self.dbg = int(m.group(1)) if m else None
        # header: define <attrs> ret @name(params) ...
        toks = tokenize(h[len("define"):].split(" personality ")[0].split(" !dbg ")[0].rstrip("{ "))
        p = P(self.mod, toks)
        while True:
            k, v = p.peek()
            if k == "id" and v in _CC:
                p.next()
            else:
                break
        p.attrs()
        self.ret = p.type()
        assert p.next()[0] == "glob"
        p.expect("(")
        self.params = []
        self.va = False
        while not p.accept(")"):
            if p.accept("..."):
                self.va = True
                continue
            t = p.type()
            at = p.attrs()
            k, v = p.peek()
            if k == "loc":
                p.next()
                nm = unq(v)
            else:
                nm = str(len(self.params))
            self.params.append((t, nm, at))
            p.accept(",")
        self.blocks = {}
        self.order = []
        cur = None
        lines = self._body
        i = 0
        nl = len(lines)
        while i < nl:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', ln)
                if m:
                    cur = m.group(1) or m.group(2)
                    self.blocks[cur] = []
                    self.order.append(cur)
                    continue
            if cur is None:
                cur = "entry" if False else str(len(self.params))
                self.blocks[cur] = []
                self.order.append(cur)
            if "@llvm.dbg." in s or s.startswith("#dbg_"):
                continue
            # multi line: switch [..], invoke .. to label, landingpad clauses
            op = s.split(" = ", 1)[1] if " = " in s[:400] and s[0] == "%" else s
            if op.startswith("switch ") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            elif op.startswith("invoke ") or " invoke " in op[:40]:
                s += " " + lines[i].strip()
                i += 1
            elif op.startswith("landingpad"):
                while i < nl and lines[i].strip().split(" ")[0] in ("cleanup", "catch", "filter", "cleanup,"):
                    s += " " + lines[i].strip()
                    i += 1
            ins = self._instr(s)
            if ins is not None:
                self.blocks[cur].append(ins)
        self._body = None
        for b in self.blocks.values():
            for k in range(len(b) - 1):
                i, j = b[k], b[k + 1]
                if (i.op == "load" and j.op == "call" and isinstance(j.args[0], CGlobal)
                        and "type.test" in j.args[0].name and isinstance(j.args[1][0][1], Reg)
                        and j.args[1][0][1].name == i.res):
                    i.x = "_ZTI" + j.args[1][1][1][4:]
        return self

    def _instr(self, s):
        dbg = None
        j = s.find(", !")
        # strip trailing metadata attachments (never inside strings in instructions)
        if j >= 0:
            m = re.search(r"!dbg !(\d+)", s[j:])
            if m:
                dbg = int(m.group(1))
            s = s[:j]
        p = P(self.mod, tokenize(s))
        res = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            res = unq(p.next()[1])
            p.next()
        k, op = p.next()
        ins = self._mk(p, op, res)
        if ins is not None:
            ins.res = res
            ins.dbg = dbg
        return ins

    def _mk(self, p, op, res):
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op in _BIN:
            while p.peek()[1] in _FMF:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr("bin", t=t, args=(a, b), x=op)
        if op == "fneg":
            while p.peek()[1] in _FMF:
                p.next()
            t = p.type()
            return Instr("fneg", t=t, args=(p.value(t),))
        if op in ("icmp", "fcmp"):
            while p.peek()[1] in _FMF:
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr(op, t=t, args=(a, b), x=pred)
        if op in _CAST:
            while p.peek()[1] in _FMF:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect("to")
            return Instr("cast", t=t, args=(a,), x=(op, p.type()))
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = None
            if p.accept(","):
                if p.peek()[1] != "align":
                    nt = p.type()
                    n = p.value(nt)
            return Instr("alloca", t=t, args=(n,))
        if op == "load":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            return Instr("load", t=t, args=(p.value(pt),))
        if op == "store":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            return Instr("store", t=t, args=(v, p.value(pt)))
        if op == "getelementptr":
            while p.peek()[1] in _FMF:
                p.next()
            t = p.type()
            args = []
            while p.accept(","):
                ty = p.type()
                args.append((ty, p.value(ty)))
            return Instr("gep", t=t, args=args)
        if op in ("call", "invoke"):
            while p.peek()[1] in _FMF or p.peek()[1] in _CC:
                p.next()
            p.attrs()
            rt = p.type()
            va = False
            if isinstance(rt, FuncT):
                va = rt.va
                rt = rt.ret
            if p.peek()[1] == "asm":
                raise IRError("asm")
            cal = p.value(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                t = p.type()
                at = p.attrs()
                if p.peek()[0] == "meta":
                    p.next()
                    x = None
                    if p.peek()[0] == "str":
                        x = p.next()[1].strip('"')
                    args.append((t, x, at))
                else:
                    args.append((t, p.value(t), at))
                p.accept(",")
            if isinstance(cal, CGlobal) and cal.name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume",
                                                                  "llvm.experimental.noalias")):
                return None
            x = None
            if op == "invoke":
                p.attrs()
                while p.peek()[1] != "to":
                    p.next()
                p.expect("to")
                p.expect("label")
                n = unq(p.next()[1])
                p.expect("unwind")
                p.expect("label")
                u = unq(p.next()[1])
                x = (n, u)
            return Instr(op, t=rt, args=(cal, args), x=x)
        if op == "br":
            if p.accept("label"):
                return Instr("br", x=(unq(p.next()[1]),))
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = unq(p.next()[1])
            p.expect(",")
            p.expect("label")
            b = unq(p.next()[1])
            return Instr("condbr", args=(c,), x=(a, b))
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = unq(p.next()[1])
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cs.append((cv.v, unq(p.next()[1])))
            return Instr("switch", t=t, args=(v,), x=(d, cs))
        if op == "ret":
            t = p.type()
            if isinstance(t, VoidT):
                return Instr("ret", t=t)
            return Instr("ret", t=t, args=(p.value(t),))
        if op == "resume":
            t = p.type()
            return Instr("resume", t=t, args=(p.value(t),))
        if op == "unreachable":
            return Instr("unreachable")
        if op == "landingpad":
            t = p.type()
            cl = []
            while not p.done():
                k = p.next()[1]
                if k == "cleanup":
                    cl.append(("cleanup", None))
                else:
                    ty = p.type()
                    cl.append((k, p.value(ty)))
                p.accept(",")
            return Instr("landingpad", t=t, x=cl)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = unq(p.next()[1])
                p.expect("]")
                inc.append((v, b))
                if not p.accept(","):
                    break
            return Instr("phi", t=t, x=inc)
        if op == "select":
            while p.peek()[1] in _FMF:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            b = p.value(t)
            return Instr("select", t=t, args=(c, a, b))
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Instr("extractvalue", t=t, args=(v,), x=idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Instr("insertvalue", t=t, args=(v, v2), x=idx)
        if op == "freeze":
            t = p.type()
            return Instr("freeze", t=t, args=(p.value(t),))
        if op in ("atomicrmw", "cmpxchg", "fence"):
            raise IRError(op)
        raise IRError("instr %s" % op)

    def loops(self):
        """natural loop headers: target of a back edge in DFS order -> set of blocks in loop"""
        if hasattr(self, "_loops"):
            return self._loops
        succ = {}
        for b in self.order:
            ins = self.blocks[b][-1] if self.blocks[b] else None
            s = []
            if ins is not None:
                if ins.op in ("br", "condbr"):
                    s = list(ins.x)
                elif ins.op == "switch":
                    s = [ins.x[0]] + [c[1] for c in ins.x[1]]
                elif ins.op == "invoke":
                    s = list(ins.x)
            succ[b] = s
        state = {}
        back = []
        entry = self.order[0]
        stack = [(entry, iter(succ[entry]))]
        state[entry] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if state.get(n, 0) == 0:
                    state[n] = 1
                    stack.append((n, iter(succ[n])))
                    break
                elif state[n] == 1:
                    back.append((b, n))
            else:
                state[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for n in ss:
                pred.setdefault(n, []).append(b)
        loops = {}
        for src, h in back:
            body = loops.setdefault(h, {h})
            work = [src]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, []))
        self._loops = loops
        self._succ = succ
        return loops


class Module:
    def __init__(self, path, text=None):
        self.path = path
        self.functions = {}
        self.decls = set()
        self._structs = {}
        self._structtext = {}
        self.gtext = {}
        self.gcache = {}
        self.meta = {}
        self.metacache = {}
        self._scan(text if text is not None else open(path, encoding="latin-1").read())

    def _scan(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == "%":
                k = ln.find(" = type ")
                self._structtext[unq(ln[:k])] = ln[k + 8:]
            elif c == "@":
                m = re.match(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+)) = ', ln)
                self.gtext[m.group(1) or m.group(2)] = ln[m.end():]
            elif c == "d":
                if ln.startswith("define"):
                    m = re.search(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+))\(', ln)
                    nm = m.group(1) or m.group(2)
                    j = i
                    while lines[j] != "}":
                        j += 1
                    self.functions[nm] = Function(self, nm, ln, lines[i:j])
                    i = j + 1
                elif ln.startswith("declare"):
                    m = re.search(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+))\(', ln)
                    self.decls.add(m.group(1) or m.group(2))
            elif c == "!":
                k = ln.find(" = ")
                if k > 0 and ln[1:k].isdigit():
                    self.meta[int(ln[1:k])] = ln[k + 3:]

    def struct(self, name):
        r = self._structs.get(name)
        if r is None:
            txt = self._structtext[name]
            if txt.strip() == "opaque":
                r = StructT([], name="opaque:" + name)
            else:
                p = P(self, tokenize(txt))
                r = p.type()
                r = StructT(r.elems, r.packed, name) if isinstance(r, StructT) else r
            self._structs[name] = r
        return r

    def global_init(self, name):
        """-> (type, value|None, is_external)"""
        if name in self.gcache:
            return self.gcache[name]
        s = self.gtext[name]
        k = re.search(r", (?:comdat|align|!dbg|section)\b", s)
        ext = bool(re.match(r"(?:external|extern_weak|available_externally)\b", s))
        # cut trailing attributes outside of strings
        if not 'c"' in s and k:
            s = s[:k.start()]
        toks = tokenize(re.sub(r'(c"(?:[^"\\]|\\.)*").*$', r"\1", s) if 'c"' in s and s.count('c"') == 1 and not "{" in s.split('c"')[0] else s)
        p = P(self, toks)
        while True:
            kk, v = p.peek()
            if v in ("global", "constant"):
                p.next()
                break
            p.next()
            if v == "thread_local" and p.peek()[1] == "(":
                p.next(), p.next(), p.next()
        t = p.type()
        val = None
        if not ext and not p.done():
            val = p.value(t)
        r = (t, val, ext)
        self.gcache[name] = r
        return r

    # --- debug info -------------------------------------------------
    def md(self, n):
        r = self.metacache.get(n)
        if r is None:
            s = self.meta[n]
            m = re.match(r"(distinct )?!(DI\w+)?[({]", s)
            d = {"_": m.group(2) if m else None}
            if m and m.group(2):
                body = s[m.end():-1]
                for mm in re.finditer(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|!(\d+)|([^,]+))', body):
                    k = mm.group(1)
                    if mm.group(2) is not None:
                        d[k] = mm.group(2)
                    elif mm.group(3) is not None:
                        d[k] = ("!", int(mm.group(3)))
                    else:
                        v = mm.group(4)
                        d[k] = int(v) if re.fullmatch(r"-?\d+", v) else v
            else:
                d["list"] = [int(x) for x in re.findall(r"!(\d+)", s)]
            self.metacache[n] = d
            r = d
        return r

    def line_of(self, n):
        try:
            while True:
                d = self.md(n)
                if d["_"] == "DILocation":
                    return d.get("line")
                return d.get("line")
        except Exception:
            return None
