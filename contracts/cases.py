"""Concrete inputs for helper functions, tried against the real code after an obligation failed (never to decide)."""
import itertools
import re


def hexs(s):
    return s.encode("latin-1").hex() or "-"


TEXTS = ["", " ", "  ", "a", " a", "a ", " a b ", "  ab  ", "\ta\n", "a.b", ".", "..", "a.", ".b", "a.b.c", "aa.bb.cc", "AbC", "ABC", "abc", "aBc ", "false", " False ", "FALSE", "\n",
         " \n ", "0", "falsefalse", "xfalse", "\"\"", "\"", "'", "''", "\"a\"", "'a'", "\"a'", "'a\"", "a\"", "\"a\"b\"", "\"a b", "\xe9\xc9z", "z@[`{", "a/b", "/a/b.c", "a\\b/c.d.e", "/", "dir.x/file",
         "dir.x/file.", "x.tar.gz", "a;b", "a b;c\td", ";;a;;", " ;\n", "name type value", "name type value more", "a\r\nb", "aXbXc", "XX", "a-b+c"]
SETS = [" ", "a", " a", "ab", "", "\t\n "]


def trim(s, t, l, r):
    return (s.lstrip(t) if l else s).rstrip(t) if r and t else (s.lstrip(t) if l and t else s)


def before(s, c):
    i = s.find(c)
    return (s, "") if i < 0 else (s[:i], s[i + 1:])


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def upper(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def words(s, d):
    return [w for w in re.split("[" + re.escape(d) + "]+", s) if w]


def text_cases():
    out = []

    def add(fn, args, expect):
        out.append((fn + "".join(" " + hexs(a) for a in args), expect))
    for s in TEXTS:
        for t in SETS:
            add("trimLeft", (s, t), hexs(trim(s, t, 1, 0)))
            add("trimRight", (s, t), hexs(trim(s, t, 0, 1)))
            add("trim", (s, t), hexs(trim(s, t, 1, 1)))
        add("split", (s,), "%s %s" % tuple(map(hexs, before(s, "."))))
        for c in ".X+- ":
            add("splitBy", (s, c), "%s %s" % tuple(map(hexs, before(s, c))))
            add("splitInPlace", (s, c), "%s %s" % tuple(map(hexs, before(s, c))))
        q = len(s) >= 2 and s[0] == s[-1] and s[0] in "\"'"
        add("extract", (s,), hexs(s[1:-1] if q else ""))
        add("lower", (s,), hexs(lower(s)))
        add("truth", (s,), "0" if lower(s.strip(" ")) in ("", "\n", "false") else "1")
        i = s.rfind(".")
        add("ext", (s,), hexs(s[i + 1:] if i >= 0 else ""))
        add("noext", (s,), hexs(s[:i] if 0 <= i < len(s) - 1 else s))
        j = max(s.rfind("/"), s.rfind("\\"))
        add("file", (s,), hexs(s[j + 1:]))
        add("path", (s,), hexs(s[:j + 1] if j >= 0 else s))
        for d in (" ", ";", " ;", "ab"):
            add("words", (s, d), "".join(hexs(w) + " " for w in words(s, d)) + ".")
        w = words(s, " \t\n\r;")
        add("words", (s, ""), "".join(hexs(x) + " " for x in w) + ".")
        add("line", (s,), "%s %s %s" % ((hexs(w[0]), hexs(w[1]), hexs(" ".join(w[2:]))) if len(w) > 1 else ("-", "-", "-")))
    for a, b in itertools.product(TEXTS[:34], repeat=2):
        add("same", (a, b), str(int(a == b)))
        add("sameNoCase", (a, b), str(int(upper(a) == upper(b))))
    for n in (0, 1, 2, 3, 9):
        add("indent", (str(n),), hexs("\t" * n))
    for s, v in (("", 0), ("0", 0), ("12", 12), ("-7", -7), ("9223372036854775807", 2 ** 63 - 1), ("4294967296", 2 ** 32), ("12abc", 12)):
        add("int", (s,), str(v))
    return [("text", out)]


VERS = ["", "0.0.0", "1.0.0", "1.0.1", "1.1.0", "2.0.0", "1.10.0", "1.9.0", "1.2.3", "1.2.10", "1.0.0-a", "1.0.0-b", "1.0.0-alpha", "1.0.0-alpha+001", "1.0.0+001", "1.0.0+002", "1.0.0-b+001", "1.0.1-a",
        "1", "1.2", "10.20.30-rc.1+build.5", "1.0.0-rc-1", "1.2.3-x+y+z", "0.0.1", "0.1.0", "0.0.0-a", "300.400.500", "2147483647.0.1"]


def parse(t):
    if not t:
        return (0, 0, 0, "", "")
    major, r = before(t, ".")
    minor, r = before(r, ".")
    x, meta = before(r, "+")
    fix, label = before(x, "-")
    return (int(major or 0), int(minor or 0), int(fix or 0), label, meta)


def show(v):
    return "%d.%d.%d" % v[:3] + ("-" + v[3] if v[3] else "") + ("+" + v[4] if v[4] else "")


def key(v):
    return v[:3] + (v[3] == "", v[3], v[4])


def version_cases():
    out = []
    for a, b in itertools.product(VERS, repeat=2):
        x, y = parse(a), parse(b)
        lt, gt, eq = key(x) < key(y), key(y) < key(x), x == y
        out.append(("ver %s %s" % (hexs(a), hexs(b)), "%d%d%d%d %d%d%d" % (lt, gt, eq, not eq, lt, eq, not eq)))
        z = y if b else x
        out.append(("verassign %s %s" % (hexs(a), hexs(b)), hexs(show(z)) + (" 1" if b and any(z) else " 0")))
    for a in VERS:
        x = parse(a)
        out.append(("verprint " + hexs(a), hexs(show(x)) + (" 1" if any(x) else " 0")))
    return [("text", out)]


INTS = {"int16": 16, "int": 32, "int64": 64}
NUMBERS = {"bool": [0, 1], "int16": [0, 1, -1, 7, 255, 256, -256, 32767, -32768], "int": [0, 1, -1, 65535, 65536, 70000, -40000, 2147483647, -2147483648, 256, 1 << 16],
           "int64": [0, 1, -1, 1 << 16, 1 << 32, (1 << 32) + 5, (1 << 53) + 1, -(1 << 40), (1 << 63) - 1, -(1 << 63), 16777217], "enum": [0, 1, 5, 70000],
           "float": [0.0, 0.5, -0.5, 1.0, 1.5, -2.75, 0.1, 100.0, 1024.25, 65536.0, 1e-7, 16777216.0, 3e9], "double": [0.0, 0.25, -0.25, 0.5, -0.5, 1.0, 2.9, -2.9, 0.1, 10.0, 100.25, 1e10, 16777217.0, 1e-9, 4294967296.0]}
READ = ["", "0", "1", "-1", "12", "007", "70000", "4294967297", "1.5", "-2.25", "100", "false", " FALSE", "true", "x", "3 4", " 5", "1e3"]


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def bits(t, v):
    import struct
    if t == "string":
        return hexs(v)
    if t == "double":
        return str(struct.unpack("Q", struct.pack("d", v))[0])
    if t == "float":
        return str(struct.unpack("I", struct.pack("f", v))[0])
    if t == "enum":
        return str(v % (1 << 64))
    return str(v % (1 << INTS.get(t, 64)))


def real_text(v):
    t = "%f" % v
    return t.rstrip("0").rstrip(".")


def as_text(t, v):
    return v if t == "string" else real_text(v) if t in ("float", "double") else str(int(v))


def wrap(v, w):
    v %= 1 << w
    return v - (1 << w) if v >> (w - 1) else v


def as_type(u, v, t):
    """value v of type u as a t; None when the rule leaves it open"""
    if t == "string":
        return as_text(u, v)
    if u == "string":
        if t == "bool":
            return int(lower(v.strip(" ")) not in ("", "\n", "false"))
        m = re.match(r"\s*([-+]?\d+)" if t in INTS else r"\s*([-+]?\d+(\.\d+)?(e[-+]?\d+)?)", v)
        if t in INTS:
            return wrap(int(m.group(1)) if m else 0, INTS[t])
        return f32(float(m.group(1) if m else 0)) if t == "float" else float(m.group(1) if m else 0)
    if t == "bool":
        return int(v != 0)
    if t in INTS:
        return wrap(int(v), INTS[t])
    return f32(v) if t == "float" else float(v)


def pairs():
    for u in list(NUMBERS) + ["string"]:
        for v in NUMBERS.get(u, READ):
            v = f32(v) if u == "float" else v
            for t in ("bool", "int16", "int", "int64", "float", "double", "string"):
                yield u, v, t


def conversion_cases():
    out = []
    for u, v, t in pairs():
        w = as_type(u, v, t)
        r = "string " + hexs(w) if t == "string" else "value %s %s" % (t, bits(t, w))
        out.append(("cast %s %s %s" % (t, u, bits(u, v)), r))
        for old in ("0", "1"):
            if t != "string":
                out.append(("binary assign %s %s %s %s" % (t, bits(t, int(old)), u, bits(u, v)), r))
                out.append(("opassign %s %s %s %s" % (t, bits(t, int(old)), u, bits(u, v)), r))
            else:
                out.append(("binary assign string %s %s %s" % (hexs(old), u, bits(u, v)), r))
        out.append(("make %s %s %s" % (t, u, bits(u, v)), r))
        if t not in ("int16", "int"):
            out.append(("read %s %s %s" % (t, u, bits(u, v)), r if t == "string" else "stored " + r[6:]))
    return [("ops", out)]


def string_cases():
    import operator
    out = []
    words = ["", "a", "b", "ab", "abc", "abd", "B", "aa", "10", "9", "1", "0", "1.5", "\xc3\xa9", "-1"]
    for x in words:
        for u, v in [("string", w) for w in words] + [(u, f32(v) if u == "float" else v) for u in NUMBERS for v in NUMBERS[u]]:
            y = as_text(u, v)
            for op in ("plus", "shift_left"):
                out.append(("binary %s string %s %s %s" % (op, hexs(x), u, bits(u, v)), "string " + hexs(x + y)))
            for op, f in (("less", operator.lt), ("less_equal", operator.le), ("greater", operator.gt), ("greater_equal", operator.ge), ("equal", operator.eq)):
                out.append(("binary %s string %s %s %s" % (op, hexs(x), u, bits(u, v)), "bool %d" % f(x, y)))
    return [("ops", out)]


def debugger_cases():
    import operator
    out = []
    ops = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
    for o in list(ops) + ["=", "=<", "!"]:
        for a, b in ((1, 2), (2, 1), (3, 3), (-1, 1)):
            out.append(("cond %s %d %d" % (o, a, b), "%d%d1" % (ops[o](a, b) if o in ops else 1, o in ops)))
    for x, y in itertools.product((("a", 1), ("a", 2), ("b", 1), ("ab", 3)), repeat=2):
        out.append(("eq %s %d %s %d" % (x + y), "%d%d%d%d" % (x == y, x == y, x < y, y < x)))
    seqs = ["add a 1 has a 1 has a 2 has b 1 go a 1 go a 2 go b 1 rm a 1 has a 1 go a 1", "add a 1 cadd a 1 go a 1 add a 1 go a 1", "add a 1 add a 2 add b 1 rm a 2 has a 1 has a 2 has b 1",
            "rm a 1", "add a 1 rm a 2 has a 1", "add a 1 add b 2 clear x 0 has a 1 has b 2 go a 1", "over x 0 go a 1 add a 1 go a 1 into x 0 go a 1 enter a 1 exit a 1 out x 0 enter a 1 exit a 2",
            "free x 0 add a 1 go a 1 throw a 1 catch a 1", "onthrow x 1 throw a 1 catch a 2 oncatch x 1 throw a 1 catch a 2 onthrow x 0 throw a 1 catch a 2", "unreg x 0 add a 1 go a 1"]
    for q in seqs:
        w = q.split()
        pts, mode, ot, oc, log = {}, "resume", False, False, ""
        for c, f, l in zip(w[::3], w[1::3], w[2::3]):
            k = (f, int(l))
            at = "(%s:%s)" % (f, l)
            if c in ("add", "cadd"):
                pts[k] = c == "cadd"
                log += "+"
            elif c == "rm":
                log += "+" if pts.pop(k, None) is not None else "-"
            elif c == "has":
                log += str(int(k in pts))
            elif c == "clear":
                pts = {}
            elif c in ("resume", "free", "into", "out", "over"):
                mode = c
            elif c == "onthrow":
                ot = l == "1"
            elif c == "oncatch":
                oc = l == "1"
            elif c == "go":
                log += "stop" + at if mode == "over" else "stop(%s:%s%s)" % (f, l, "?" if pts[k] else "") if mode == "resume" and k in pts else ""
            elif c == "enter":
                log += c + at if mode == "into" else ""
            elif c == "exit":
                log += c + at if mode == "out" else ""
            elif c == "throw":
                log += c + at if ot else ""
            elif c == "catch":
                log += c + at if oc else ""
            elif c == "unreg":
                log += "..++"
        out.append(("dbg " + q, log))
    return [("debugger", out)]


def frame_cases():
    out = []
    for n in (0, 1, 2, 17, 255, 256, 257, 300, 70000):
        out.append(("depth %d" % n, "%d %d %d %d" % (n, n, n, n)))
    return [("frames", out)]


def lex(text):
    """tokens of a source text by the rules of the language: (kind, text, line); numbers with a point left out"""
    from .lexer import MARKS, WORDS, EQUALS, PAIRS, SUFFIX, DELIM, BLANKS
    known = {w: t for c, t, o, ws in WORDS for w in ws.split()}
    out, word, line, i = [], "", 1, 0

    def put(w):
        if w in BLANKS:
            return
        kind = MARKS[w][1] if w in MARKS else known.get(w)
        text_ = w
        if kind is None:
            if len(w) > 1 and w[0] == w[-1] == '"':
                kind, text_ = "CONST_LITERAL", w[1:-1]
            elif w.isdigit():
                kind = "CONST_INTEGER"
            elif w[:-1].isdigit() and w[-1] in SUFFIX:
                kind, text_ = SUFFIX[w[-1]], w[:-1]
            else:
                kind = "IDENTIFIER"
        out.append((kind, text_, line))

    while i < len(text):
        c = text[i]
        if text[i:i + 2] in ("//", "/*") or c == "#":
            if word:
                put(word)
                word = ""
            stop = "*/" if text[i:i + 2] == "/*" else "\n"
            end = text.find(stop, i + 2 if stop == "*/" else i)
            end = len(text) if end < 0 else end + 2 if stop == "*/" else end
            line += text.count("\n", i, end)
            i = end
            continue
        if c == '"':
            word += c
            i += 1
            while i < len(text) and text[i] != '"':
                if text[i] == "\\":
                    i += 1
                line += text[i:i + 1] == "\n"
                word += text[i:i + 1]
                i += 1
            put(word + '"' if i < len(text) else word)
            word = ""
            i += 1
            continue
        if c in DELIM:
            if word:
                put(word)
            word = ""
            put(c)
        else:
            word += c
        line += c == "\n"
        i += 1
    if word:
        put(word)
    for table in (EQUALS, PAIRS):
        done = []
        for t in out:
            hit = table.get((done[-1][0], t[0])) if done else None
            if hit:
                done[-1] = (hit[1], hit[2], done[-1][2])
            else:
                done.append(t)
        out = done
    return out


def lexer_cases():
    from .lexer import MARKS, WORDS
    words = [w for c, t, o, ws in WORDS for w in ws.split() if w != "operator"]
    texts = ["", " ", "a", "ab", "x1", "_y", "1", "42", "7i", "8d", "9f", "12x", "i", "d", "f", "1i2", '""', '"a"', '"a b"', '"a', "a\"b", "~", "'",
             "a#c$b", "a #c$b", "#c$b", "#$b", "a//c$b", "a //c$b", "//c$b", "a/*c*/b", "a /*c*/ b", "a /*c$d*/ b", "a/**/b", "a/***/b", "a/*/b*/c",
             "3/**/*2", "a /* c */// d$b", "a /*c*//*d*/ b", "a/b", "a / b", "a/b/c", "a*/b", "/* // */ a", "// /*$a", "# /*$a", '"//" a', '"/*" a', '"#" a',
             '"a\\"b" c', '"a\\\\" c', '"a$b" c', '"a\\$b" c', "a$b$c", "a$$b", "/*$$*/a", '"a;b"', "a;b", "a b", "a\tb", "if(a)b", "ifa", "aif", "If", "int", "a=b"]
    texts += words + [w + "x" for w in words] + [w + ";" for w in words] + [w[:-1] + " " for w in words if len(w) > 3]
    texts += [c * n + s for n in (9, 10, 11, 17, 33, 65, 257) for c in "17a" for s in ("", "d", "f", "i", ";")] + ['"%s" b' % ("ab " * n) for n in (50, 100)]
    texts += ['"x%sy" b' % m for m in sorted(MARKS) + ["//", "/*", "*/", "#", "'", " ", "x#", "/ /"]]
    marks = sorted(MARKS)
    texts += marks + ["a" + m + "b" for m in marks] + [m + n for m in marks for n in marks if m + n not in ("//", "/*")]
    texts += [m + n + k for m in "=!<>+-&|./" for n in "=!<>+-&|." for k in "=!<>+-&|."]
    texts += [m + n + k + "=" for m in "=!<>+&" for n in "=!&." for k in "=&."]
    return [("lexer", [(t, "".join("%s:%s:%d " % (k, x.replace("\n", "$"), n) for k, x, n in lex(t.replace("$", "\n"))).strip()) for t in texts])]


CASES = {"C16": lexer_cases, "C21": frame_cases, "C19": debugger_cases, "C05": string_cases, "C06": conversion_cases, "C17": version_cases, "C18": text_cases}


def for_property(pid):
    """-> [(driver, [(line, expected answer)])]"""
    return CASES[pid]() if pid in CASES else []
