"""Runs concrete inputs against the real code, built from /repo's working tree outside /repo."""
import concurrent.futures
import hashlib
import os
import shutil
import subprocess
import tempfile

from .program import REPO, sources

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = shutil.which("g++") or shutil.which("clang++-18")
FLAGS = ["-w", "-std=c++14", "-DDEBUG", "-DLOG_LEVEL=3", "-DUSE_LIBC_EXTENSION", "-DUSE_SYSTEM_EXTENSION", "-O0", "-fPIC"]


class Build:
    """objects of the current tree in a scratch directory"""

    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="slangrp.")
        self.objs = None
        self.exes = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def _cc(self, f, o):
        inc = ["-I%s/Projects/%s" % (REPO, d) for d in ("Core", "Utils", "Extensions")] + ["-I%s/Projects" % REPO]
        r = subprocess.run([CXX] + FLAGS + inc + ["-c", "-o", o, f], capture_output=True, text=True)
        return r.returncode == 0, r.stderr[-1500:]

    def _many(self, fs):
        jobs = [(f, os.path.join(self.tmp, hashlib.sha1(f.encode()).hexdigest()[:16] + ".o")) for f in fs]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (f, o), (ok, err) in zip(jobs, ex.map(lambda j: self._cc(*j), jobs)):
                if not ok:
                    raise RuntimeError("cannot build %s: %s" % (f, err))
        return [o for f, o in jobs]

    def lib(self):
        if self.objs is None:
            self.objs = self._many(sources(("Projects/Extensions",)))
            self.ar = os.path.join(self.tmp, "libslang.a")
            subprocess.run(["ar", "rcs", self.ar] + self.objs, check=True)
        return self.ar

    def exe(self, name):
        """driver by file name under /verif/replay, or 'slang' for the interpreter itself"""
        if name not in self.exes:
            ar = self.lib()
            src = os.path.join(REPO, "Projects/slang/main.cpp") if name == "slang" else os.path.join(HERE, "replay", name)
            o = self._many([src])[0]
            e = os.path.join(self.tmp, "x_" + os.path.basename(name).replace(".", "_"))
            r = subprocess.run([CXX, "-o", e, o, "-Wl,--start-group", ar, "-Wl,--end-group", "-ldl", "-lpthread"],
                               capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("link %s: %s" % (name, r.stderr[-1500:]))
            self.exes[name] = e
        return self.exes[name]

    def run(self, name, args=(), stdin="", timeout=20, cwd=None):
        e = self.exe(name)
        env = dict(os.environ, SLANG_LIBRARY=os.path.join(REPO, "Projects/Library"))
        d = tempfile.mkdtemp(prefix="run.", dir=self.tmp)
        try:
            r = subprocess.run([e] + list(args), input=stdin, capture_output=True, text=True, timeout=timeout, env=env,
                               cwd=cwd or d, errors="replace")
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            o = e.stdout or ""
            return "timeout", o if isinstance(o, str) else o.decode("utf-8", "replace"), ""

    def script(self, text, timeout=20):
        """run a slang program -> (rc, stdout)"""
        p = os.path.join(self.tmp, "s%s.os" % hashlib.sha1(text.encode()).hexdigest()[:12])
        with open(p, "w") as f:
            f.write(text)
        rc, out, err = self.run("slang", [p], timeout=timeout)
        return rc, out.split("Stack trace:\n")[0]
