#!/usr/bin/env python3
"""after all checks ran: writes contracts/proved.txt, the functions whose contract some check proves, and prints the contracts only assumed"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
proved, used = {}, {}
for f in sorted(glob.glob(ROOT + "/evidence/C*.json")):
    d = json.load(open(f))
    for fn in d["coverage"]["functions_under_contract"]:
        proved.setdefault(fn, []).append(d["property"])
    for fn in d["coverage"]["contracts_used_at_calls"]:
        used.setdefault(fn, []).append(d["property"])
with open(ROOT + "/contracts/proved.txt", "w") as f:
    for fn in sorted(proved):
        f.write("%s\t%s\n" % (",".join(proved[fn]), fn))
for fn in sorted(used):
    if fn not in proved:
        print("assumed", ",".join(used[fn]), fn)
print(len(proved), "functions under contract")
