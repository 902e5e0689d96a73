#!/usr/bin/env python3
"""writes /verif/seeded/<id> from a description on stdin"""
import os, subprocess, sys
CPP = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
g++ -w -std=c++14 -IProjects/Utils -IProjects -o "$tmp/demo" "$here/demo.cpp" Projects/Utils/SemVer/Version.cpp Projects/Utils/Parsers/*.cpp Projects/Utils/Tools/Strings.cpp Projects/Utils/Tools/Files.cpp
"$tmp/demo"
rc=$?
rm -r "$tmp"
exit $rc
'''
DBG = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
libs=$(ls _build/lib/*.a | grep -v -i -E 'test|slangapp')
g++ -w -std=c++17 -IProjects/Core -IProjects/Utils -IProjects -o "$tmp/demo" "$here/demo.cpp" -Wl,--start-group $libs -Wl,--end-group -ldl -lpthread
timeout 20 "$tmp/demo"
rc=$?
rm -r "$tmp"
exit $rc
'''
spec = eval(sys.stdin.read())
import json
for sid, s in spec.items():
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = "/repo/" + f
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\r\n", "\n").replace("\n", "\r\n"), new.replace("\r\n", "\n").replace("\n", "\r\n")
        assert t.count(old) == 1, (sid, f, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True, capture_output=True)
    open(d + "/patch.diff", "wb").write(diff)
    if "script" in s:
        open(d + "/demo.os", "w").write(s["script"])
        open(d + "/expected.txt", "w").write(s["expect"])
        open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export SLANG_LIBRARY=$PWD/Projects/Library
out=$(timeout 60 ./_build/bin/slang/slang "$here/demo.os" 2>&1)
rc=$?
out=$(echo "$out" | sed '/^Stack trace/,$d')
[ "$out" = "$(cat "$here/expected.txt")" ] && [ $rc -eq %d ]
''' % s.get("rc", 0))
    else:
        open(d + "/demo.sh", "w").write(s["demo"])
        for fn, txt in s.get("files", {}).items():
            open(d + "/" + fn, "w").write(txt)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("made", sid)
