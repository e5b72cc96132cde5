#!/usr/bin/env python3
# Creates /verif/seeded/<id>/ from a spec file (python: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FLAGS)
# and confirms it with seed.sh.
import json, os, subprocess, sys, tempfile, shutil
ns = {"FLAGS": "-O1", "DEMO_SH": None, "ENV": ""}
exec(open(sys.argv[1]).read() if len(sys.argv) > 1 else sys.stdin.read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
try:
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm b", shell=True, check=True)
    for f, old, new in ns["EDITS"]:
        p = f"{w}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
finally:
    shutil.rmtree(w)
if ns.get("DEMO"): open(f"{d}/demo.cpp", "w").write(ns["DEMO"].lstrip())
sh = ns["DEMO_SH"] or f"""#!/bin/bash
# cwd is the repository; builds a small program against its sources and runs it in a scratch folder.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
/usr/bin/clang++-18 -std=c++20 {ns['FLAGS']} -g -fno-exceptions -fno-rtti -DRPP_RELWITHDEBINFO_BUILD -w -pthread -I"$R" \\
  "$D/demo.cpp" "$R/rpp/impl/unify.cpp" "$R/rpp/pos/unify.cpp" -o "$W/demo" || exit 3
cd "$W" && {ns['ENV']} timeout 120 ./demo
"""
open(f"{d}/demo.sh", "w").write(sh)
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
subprocess.run(["bash", "/verif/tools/seed.sh", ns["ID"]])
