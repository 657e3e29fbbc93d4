#!/usr/bin/env python3
"""Plant one bug: python3 tools/mkseed.py SPEC.py
SPEC.py defines id, property, file, edits=[(old,new),...] (or files={file:[(old,new)]}), demo (python text),
needs, breaks.  Works in a scratch copy under /tmp, keeps /verif/seeded/<id> only when the change builds, passes the
stable tests, and the demonstration separates it from the unchanged tree."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd /repo (or a copy of it)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
tmp=$(mktemp -d) && trap 'rm -rf "$tmp"' EXIT
export MPLCONFIGDIR="$tmp" SCRATCH="$tmp"
/opt/venv/bin/python "$here/demo.py"
"""


def main(spec):
    s = runpy.run_path(spec)
    sid = s["id"]
    sc = "/tmp/sc_" + sid
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", sc])
    try:
        subprocess.check_call(["git", "-C", sc, "checkout", "-q", "--", "."])
        files = s.get("files") or {s["file"]: s["edits"]}
        d = "/tmp/seed_" + sid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)

        def demo():
            r = subprocess.run(["bash", d + "/demo.sh"], cwd=sc, capture_output=True, text=True, timeout=300)
            return r.returncode, (r.stdout + r.stderr)[-1500:]
        rc0, out0 = demo()
        if rc0:
            print(sid, "REJECT: demo fails on the unchanged tree", out0)
            return 1
        for f, eds in files.items():
            t = open(os.path.join(sc, f)).read()
            for old, new in eds:
                if t.count(old) != 1:
                    print(sid, "REJECT: text found %d times: %r" % (t.count(old), old))
                    return 1
                t = t.replace(old, new)
            open(os.path.join(sc, f), "w").write(t)
        rc1, out1 = demo()
        if not rc1:
            print(sid, "REJECT: demo does not fail", out1)
            return 1
        patch = subprocess.run(["git", "-C", sc, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(patch)
        env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
                   MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONPATH=sc)
        xml = "/tmp/seed_%s.xml" % sid
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=600",
                        "--deselect", "tests/test_rust_py.py::test_arnoldi_rs", "--junitxml=" + xml, "tests"], cwd=sc, env=env,
                       capture_output=True, timeout=1500)
        ok = set()
        for tc in ET.parse(xml).getroot().iter("testcase"):
            if not [c for c in tc if c.tag in ("failure", "error", "skipped")]:
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        os.remove(xml)
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
        if missing:
            print(sid, "REJECT: fails", sorted(missing))
            return 1
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = os.path.join(V, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(sid, "KEPT; demo output:", out1.strip().splitlines()[-1:])
        # run the claimed check on the patched copy
        r = subprocess.run(["python3-vt", "-m", "ormacheck.run", "--property", s["property"], "--root", sc, "--no-evidence"], cwd=V, capture_output=True, text=True)
        print(sid, "check exit", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:3])
        return 0
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == "__main__":
    rc = 0
    for sp in sys.argv[1:]:
        try:
            rc |= main(sp)
        except Exception as e:
            print(sp, "ERROR", type(e).__name__, e)
            rc = 1
    sys.exit(rc)
