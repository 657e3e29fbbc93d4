#!/usr/bin/env python3
"""tools/gmut.py FILE [WORKERS]: mutants separated by '%%' lines: '@C01,C07 note' line, then edits 'path', '<<<', old, '===', new, '>>>'."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def one(block):
    head = block.strip("\n").split("\n", 1)[0]
    props, note = (head[1:].split(" ", 1) + [""])[:2]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        r = os.path.join(d, "r")
        os.makedirs(r)
        for sub in ("ormatex_py", "src", "examples", "tests", "docs"):
            if os.path.isdir("/repo/" + sub):
                shutil.copytree("/repo/" + sub, os.path.join(r, sub))
        for sub in os.listdir("/repo"):
            if os.path.isfile("/repo/" + sub):
                shutil.copy("/repo/" + sub, r)
        for path, old, new in re.findall(r"^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>", block, re.S | re.M):
            s = open(os.path.join(r, path)).read()
            if s.count(old) < 1:
                return "NOTFOUND " + note + " :: " + old[:80]
            open(os.path.join(r, path), "w").write(s.replace(old, new, 1))
            if path.endswith(".py"):
                compile(s.replace(old, new, 1), path, "exec")
        out = []
        for p in props.split(","):
            try:
                o = subprocess.run(["nice", "python3-vt", "-m", "ormacheck.run", "--property", p, "--root", r, "--no-evidence", "--jobs", "2"],
                                   cwd=os.environ.get("V", "/verif"), capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                out.append("timeout " + p)
                continue
            v = [x for x in o.stdout.splitlines() if x.startswith("  [") or "ANALYSIS" in x]
            out.append("%s %s | %s" % ("caught" if o.returncode == 1 else "MISSED" if o.returncode == 0 else "rc%d" % o.returncode, p,
                                       v[0][:170] if v else (o.stdout.strip().splitlines() or [o.stderr[-200:]])[-1][:140]))
        return "%-34s %s" % (note[:34], " // ".join(out))
    except SyntaxError as e:
        return "SYNTAX " + note + str(e)
    finally:
        shutil.rmtree(d)


blocks = [b for b in re.split(r"\n%%\n", open(sys.argv[1]).read()) if b.strip()]
with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 3) as ex:
    for x in ex.map(one, blocks):
        print(x, flush=True)
