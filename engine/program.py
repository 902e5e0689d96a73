"""Lowers the /repo sources with clang on every run and links the modules."""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = shutil.which("clang++-18") or shutil.which("clang++") or "clang++-18"
FLAGS = ["-w", "-g", "-std=c++14", "-DDEBUG", "-DLOG_LEVEL=3", "-DUSE_LIBC_EXTENSION", "-DUSE_SYSTEM_EXTENSION",
         "-O0", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-Xclang", "-disable-O0-optnone",
         "-fno-discard-value-names", "-S", "-emit-llvm"]
STRT = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"


class BuildError(Exception):
    pass


def sources(extra=()):
    out = []
    for d in ("Projects/Core", "Projects/Utils") + tuple(extra):
        base = os.path.join(REPO, d)
        if os.path.isfile(base):
            out.append(base)
            continue
        for r, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    out.append(os.path.join(r, f))
    return out


def compile_all(files, outdir):
    inc = ["-I%s/Projects/%s" % (REPO, d) for d in ("Core", "Utils", "Extensions")] + ["-I%s/Projects" % REPO]

    def one(f):
        o = os.path.join(outdir, hashlib.sha1(f.encode()).hexdigest()[:16] + ".ll")
        r = subprocess.run([CLANG] + FLAGS + inc + ["-o", o, f], capture_output=True, text=True)
        return f, o, r.returncode, r.stderr

    res = {}
    bad = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, o, rc, err in ex.map(one, files):
            if rc:
                bad.append((f, err[-2000:]))
            else:
                res[f] = o
    return res, bad


LOCAL = re.compile(r"::(?:\$_\d+|\{lambda\(.*\)#\d+\}|'lambda\d*'(?:\(.*\))?)::")


class Program:
    def __init__(self, extra=(), required=()):
        t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="slangvc.")
        try:
            files = sources(extra)
            res, bad = compile_all(files, self.tmp)
            if bad:
                raise BuildError("cannot lower %s:\n%s" % (bad[0][0], bad[0][1]))
            self.modules = []
            self.nfiles = len(files)
            for f in files:
                m = ir.Module(res[f])
                m.src = os.path.relpath(f, REPO)
                self.modules.append(m)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.func = {}
        self.alias = {}
        self.gdef = {}
        self.local = {}
        for m in self.modules:
            for n, f in m.functions.items():
                if re.match(r"define (?:internal|private)", f.header):
                    continue
                if n not in self.func:
                    self.func[n] = f
            for n, t in m.gtext.items():
                if " alias " in t[:120]:
                    mm = re.search(r"ptr @(?:\"([^\"]*)\"|([-a-zA-Z$._0-9]+))", t)
                    self.alias.setdefault(n, mm.group(1) or mm.group(2))
                elif not re.match(r"(?:external|extern_weak|internal|private)\b", t):
                    self.gdef.setdefault(n, m)
        self._demangle()
        self._classes()
        self.load_s = time.time() - t0

    # ------------------------------------------------------------ names
    def _demangle(self):
        names = set(self.func) | set(self.alias)
        for m in self.modules:
            names |= set(m.functions) | m.decls
        names = sorted(names)
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        self.dem = {}
        self.bydem = {}
        for a, b in zip(names, r.stdout.split("\n")):
            b = b.replace("[abi:cxx11]", "").replace(STRT, "std::string").replace("std::string >", "std::string>")
            b = b.replace("std::__cxx11::", "std::")
            self.dem[a] = b
            if not LOCAL.search(b):                          # functions within functions have no contracts: they are followed where called
                self.bydem.setdefault(b, []).append(a)

    def demangle(self, n):
        r = self.dem.get(n)
        if r is None:
            b = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
            r = b.replace("[abi:cxx11]", "").replace(STRT, "std::string").replace("std::__cxx11::", "std::")
            self.dem[n] = r
        return r

    def find(self, dem):
        """mangled symbol(s) with a body for a demangled signature (prefers complete-object variants)"""
        c = [n for n in self.bydem.get(dem, []) if self.lookup(n)]
        if not c:
            raise KeyError(dem)
        c.sort(key=lambda n: ("C1E" not in n and "D1E" not in n, n))
        return c[0]

    def search(self, rx):
        rx = re.compile(rx)
        return sorted(n for d, ns in self.bydem.items() if rx.search(d) for n in ns if self.lookup(n))

    def lookup(self, name, mod=None):
        if mod is not None and name in mod.functions:
            return mod.functions[name]
        f = self.func.get(name)
        if f:
            return f
        a = self.alias.get(name)
        if a:
            return self.lookup(a, mod)
        return None

    # ------------------------------------------------------------ classes
    def _classes(self):
        self.bases = {}   # _ZTI -> [( _ZTI base, offset)]
        self.derived = {}
        for m in self.modules:
            for n, t in m.gtext.items():
                if not n.startswith("_ZTI") or n in self.bases:
                    continue
                if re.match(r"(?:external|available)", t):
                    continue
                refs = re.findall(r"@(_ZT[A-Za-z0-9_$.]+)", t)
                if not refs:
                    continue
                kind = refs[0]
                if "__si_class_type_info" in kind:
                    self.bases[n] = [(refs[2], 0)]
                elif "__vmi_class_type_info" in kind:
                    bl = re.findall(r"ptr @(_ZTI[A-Za-z0-9_$.]+), i64 (-?\d+)", t)
                    self.bases[n] = [(b, int(o) >> 8) for b, o in bl]
                else:
                    self.bases[n] = []
        self._anc = {}

    def ancestors(self, ti):
        """ti itself and all transitive bases -> offset of the base subobject"""
        r = self._anc.get(ti)
        if r is None:
            r = {ti: 0}
            for b, o in self.bases.get(ti, []):
                for a, ao in self.ancestors(b).items():
                    r.setdefault(a, o + ao)
            self._anc[ti] = r
        return r

    def base_offset(self, q, base):
        """offset of the base class subobject in class q"""
        return self.ancestors(self.ti(q))[self.ti(base)]

    def derives(self, ti, base):
        return base in self.ancestors(ti)

    def subclasses(self, base):
        return frozenset(t for t in self.bases if base in self.ancestors(t))

    @staticmethod
    def mangle_class(q):
        parts = q.split("::")
        s = "".join("%d%s" % (len(p), p) for p in parts)
        return s if len(parts) == 1 else "N" + s + "E"

    def ti(self, q):
        return "_ZTI" + self.mangle_class(q)

    def vtable(self, ti):
        """-> list of groups: (offset_to_top, [entries]) where entries are symbol names or None"""
        if not hasattr(self, "_vt"):
            self._vt = {}
        if ti in self._vt:
            return self._vt[ti]
        n = "_ZTV" + ti[4:]
        m = self.gdef.get(n)
        if m is None:
            for mm in self.modules:
                if n in mm.gtext and not mm.gtext[n].startswith("external"):
                    m = mm
                    break
        groups = []
        if m is not None:
            t, v, ext = m.global_init(n)
            for et, ev in v.elems:
                ents = []
                for pt, pv in ev.elems:
                    ents.append(pv)
                def off(x):
                    if isinstance(x, ir.CNull):
                        return 0
                    if isinstance(x, ir.CExpr) and x.op == "inttoptr":
                        return x.args[0][1].v
                    return 0
                names = [e.name if isinstance(e, ir.CGlobal) else None for e in ents[2:]]
                groups.append((off(ents[0]), names))
        self._vt[ti] = groups
        return groups

    def vfunc(self, ti, suboff, slot):
        """function symbol in slot of the vtable used by the subobject at suboff in an object of dynamic class ti"""
        for off, names in self.vtable(ti):
            if off == -suboff:
                return names[slot] if slot < len(names) else None
        return None

    def is_abstract(self, ti):
        g = self.vtable(ti)
        return any("__cxa_pure_virtual" == n for _, ns in g for n in ns)

    # ------------------------------------------------------------ debug info: field offsets by name
    def _qual(self, m, k):
        parts = []
        while k is not None:
            d = m.md(k)
            if d["_"] in ("DIFile", "DICompileUnit"):
                break
            if "name" in d:
                parts.append(d["name"])
            sc = d.get("scope")
            k = sc[1] if isinstance(sc, tuple) else None
        return "::".join(reversed(parts))

    def _dbgindex(self):
        if hasattr(self, "_dix"):
            return
        self._dix = {}
        for m in self.modules:
            for k, s in m.meta.items():
                if "DICompositeType" in s[:32] and ", elements:" in s and "FwdDecl" not in s:
                    mm = re.search(r'name: "([^"]*)"', s)
                    if mm:
                        self._dix.setdefault(mm.group(1), []).append((m, k))

    def _dbgclass(self, q):
        self._dbgindex()
        if not hasattr(self, "_dc"):
            self._dc = {}
        if q not in self._dc:
            base = q.split("::")[-1] if "<" not in q else q[q.rindex("::", 0, q.index("<")) + 2:]
            for m, k in self._dix.get(base, []):
                if self._qual(m, k) == q:
                    self._dc[q] = (m, k)
                    break
            else:
                raise KeyError("class " + q)
        return self._dc[q]

    def class_size(self, q):
        m, k = self._dbgclass(q)
        return m.md(k)["size"] // 8

    def members(self, q):
        """name -> (offset, module, type metadata) including inherited members"""
        m, k = self._dbgclass(q)
        return self._members(m, k)

    def _members(self, m, k):
        out = {}
        d = m.md(k)
        if "elements" not in d or not isinstance(d["elements"], tuple):
            return out
        for e in m.md(d["elements"][1])["list"]:
            ed = m.md(e)
            if ed["_"] != "DIDerivedType":
                continue
            off = ed.get("offset", 0) // 8
            if ed["tag"] == "DW_TAG_inheritance":
                b = ed["baseType"][1]
                for n, (o, mm, tt) in self._members(*self._complete(m, b)).items():
                    out.setdefault(n, (off + o, mm, tt))
            elif ed["tag"] == "DW_TAG_member" and "name" in ed and "DIFlagStaticMember" not in str(ed.get("flags", "")):
                out[ed["name"]] = (off, m, ed["baseType"][1])
        return out

    def _complete(self, m, k):
        d = m.md(k)
        if "elements" in d:
            return m, k
        try:
            return self._dbgclass(self._qual(m, k))
        except KeyError:
            return m, k

    def field(self, q, name):
        if not hasattr(self, "_fc"):
            self._fc = {}
        key = (q, name)
        if key not in self._fc:
            mem = self.members(q)
            if name not in mem:
                raise KeyError("%s::%s" % (q, name))
            self._fc[key] = mem[name][0]
        return self._fc[key]

    def enum(self, q):
        """enumerator name -> value"""
        ident = '"_ZTS%s"' % self.mangle_class(q)
        for m in self.modules:
            for k, s in m.meta.items():
                if "DW_TAG_enumeration_type" in s[:64] and ident in s:
                    out = {}
                    for e in m.md(m.md(k)["elements"][1])["list"]:
                        ed = m.md(e)
                        out[ed["name"]] = ed["value"]
                    return out
        raise KeyError("enum " + q)

    def struct_of(self, q):
        """IR struct type of class q from some module"""
        for m in self.modules:
            for pre in ("class.", "struct."):
                if pre + q in m._structtext and m._structtext[pre + q].strip() != "opaque":
                    return ir.NamedT(m, pre + q)
        raise KeyError("struct " + q)
