#!/usr/bin/env python3
"""tools/mut.py PROPS MUTATIONS.txt: each mutation 'file ||| old ||| new [||| nth]' is applied to a scratch copy, the checks run on it."""
import os
import shutil
import subprocess
import sys
import tempfile

props = sys.argv[1].split(",")
for ln in open(sys.argv[2]).read().split("\n%%\n"):
    if not ln.strip():
        continue
    fs = [x for x in ln.split("|||")]
    path, old, new = fs[0].strip(), fs[1].strip("\n"), fs[2].strip("\n")
    old, new = old.strip(" ") if "\n" not in old else old, new.strip(" ") if "\n" not in new else new
    nth = int(fs[3]) if len(fs) > 3 else 0
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        r = os.path.join(d, "r")
        os.makedirs(r)
        for sub in ("ormatex_py", "src", "examples", "tests", "docs"):
            if os.path.isdir("/repo/" + sub):
                shutil.copytree("/repo/" + sub, os.path.join(r, sub))
        for sub in os.listdir("/repo"):
            if os.path.isfile("/repo/" + sub):
                shutil.copy("/repo/" + sub, r)
        s = open(os.path.join(r, path)).read()
        parts = s.split(old)
        if len(parts) < nth + 2:
            print("NOT FOUND", old)
            continue
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(os.path.join(r, path), "w").write(s)
        for p in props:
            o = subprocess.run(["python3-vt", "-m", "ormacheck.run", "--property", p, "--root", r, "--no-evidence"], cwd="/verif", capture_output=True, text=True)
            v = [x for x in o.stdout.splitlines() if x.startswith("  [") or "ANALYSIS" in x]
            print(("caught " if o.returncode == 1 else "rc%d    " % o.returncode), p, "|", " ".join(old.split())[-50:], "->", " ".join(new.split())[-50:], "|", v[0][:150] if v else o.stdout.strip().splitlines()[-1][:120] if o.stdout.strip() else o.stderr[-200:])
    finally:
        shutil.rmtree(d)
