"""Per-property check driver: obligations -> verdict, evidence, exit code."""
import argparse
import importlib
import json
import os
import re
import pickle
import sys
import time
import traceback
import warnings

from . import driver
from .driver import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
sys.setrecursionlimit(20000)


class Finding:
    def __init__(self, key, text, detail=""):
        self.key, self.text, self.detail = key, text, detail


class Ctx:
    def __init__(self, prop, root=None, worker=0, workers=1):
        self.prop = prop
        self.worker, self.workers = worker, workers
        self.index = 0             # running number of obligation groups
        self.grouped = False
        self.root = root or REPO
        self.project = Project(self.root)
        self.reports = []
        self.findings = []
        self.rules = []            # AST rules: (rule, instances, samples)
        self.undecided = []
        self.assumptions = []
        self.errors = []
        self.gone = None
        self.thorough = True                    # cheap enough for every run
        self.deep = TIER == "thorough"

    # ---- value-number obligations
    def ob(self, name, entry, ref, contracts=None, setup=None, hints=(), pre=None, stubs=None,
           lazy_threads=False, limit=96, unroll=12, nmodels=None, budget=120, tol=1e-10, key=None, mtol=None):
        if not self.grouped and not self.mine():
            return None
        t0 = time.time()
        rep, parts = Report(name), []
        try:
            parts, und = explore(entry, self.project, contracts, stubs, lazy_threads, limit, unroll, setup, budget)
            rep.undecided = und
            compare(rep, parts, ref, hints=hints, nmodels=nmodels, pre=pre, tol=tol, mtol=mtol)
            if not rep.violations and (und and "partition limit" in und[-1] or parts and rep.proved + rep.tested == 0):
                more = guided(entry, self.project, name, contracts, stubs, lazy_threads, unroll, setup, min(budget, 60),
                              hints, nmodels, pre, seen=[frozenset(p.decisions.items()) for p in parts])
                compare(rep, more, ref, hints=hints, nmodels=nmodels, pre=pre, tol=tol, mtol=mtol)
                parts += more
        except AnchorMissing as e:
            # the interface it is stated about is gone: no verdict here (the run is broken if nothing else is left)
            rep.undecided.append("vanished: %s" % e)
            self.gone = str(e)
        except Undecidable as e:
            rep.undecided.append("comparison: %s" % e)
        except Exception as e:
            # a construct the analyser does not handle never becomes a verdict
            rep.undecided.append("analyser: %s: %s" % (type(e).__name__, e))
            if os.environ.get("ORMA_DEBUG"):
                traceback.print_exc()
        rep.wall = time.time() - t0
        rep.parts = parts
        rep.index = self.index
        self.reports.append(rep)
        for path, text, d in rep.violations[:1]:
            self.findings.append(Finding(key or name, text, self.site(rep)))
        return rep

    def mine(self):
        """obligation groups are dealt out to the worker processes"""
        self.index += 1
        return self.index % self.workers == self.worker

    def site(self, rep):
        out = []
        for q, (p, ln) in list(rep.funcs.items()):
            if p and p.startswith(self.root):
                out.append("%s:%d %s" % (os.path.relpath(p, self.root), ln, q.split(".")[-1]))
        return "; ".join(out[:40])

    # ---- syntactic / flow rules
    def rule(self, name, instances, bad, floor=1, samples=None):
        """instances: list of strings analysed; bad: list of (key, text)."""
        self.rules.append((name, list(instances), len(bad)))
        for key, text in bad:
            self.findings.append(Finding("%s" % key, text))
        if len(instances) < floor:
            raise AnchorMissing("rule %r matched %d sites, at least %d expected" % (name, len(instances), floor))

    def note_undecided(self, name, why):
        self.undecided.append("%s: %s" % (name, why))

    def violate(self, key, text):
        self.findings.append(Finding(key, text))


def load_known():
    out = []
    if os.path.isfile(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("known: "):
                body = ln[len("known: "):]
                fields = {}
                head, _, desc = body.partition(" :: ")
                for tok in head.split():
                    k, _, v = tok.partition("=")
                    fields[k] = v
                out.append((fields.get("property"), fields.get("key"), desc))
    return out


def run_worker(ctx, mod):
    """-> None or the name of a vanished anchor"""
    try:
        mod.run(ctx)
    except AnchorMissing as e:
        return str(e)
    except Exception as e:
        ctx.note_undecided("analysis", "%s: %s" % (type(e).__name__, e))
        if os.environ.get("ORMA_DEBUG"):
            traceback.print_exc()
    return None


def run_parallel(ctx, mod, jobs):
    if jobs <= 1 or getattr(mod, "SERIAL", False):
        return run_worker(ctx, mod)
    kids = []
    for w in range(jobs):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                c = Ctx(ctx.prop, ctx.root, w, jobs)
                gone = run_worker(c, mod)
                for rep in c.reports:
                    rep.violations = [(p, t, None) for p, t, _ in rep.violations]
                    rep.parts = None
                    rep.contract_uses = {str(k): v for k, v in rep.contract_uses.items()}
                blob = pickle.dumps((gone, c.reports, c.findings, c.rules, c.undecided, c.assumptions))
                with os.fdopen(wr, "wb") as fp:
                    fp.write(blob)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        os.close(wr)
        kids.append((w, pid, r))
    gone = None
    for w, pid, r in kids:
        with os.fdopen(r, "rb") as fp:
            blob = fp.read()
        os.waitpid(pid, 0)
        try:
            g, reps, finds, rules, und, ass = pickle.loads(blob)
        except Exception as e:
            ctx.note_undecided("worker %d" % w, "no result (%s)" % e)
            continue
        gone = gone or g
        ctx.reports += reps
        ctx.findings += finds
        for x in rules:
            if x in ctx.rules:
                continue
            i = next((i for i, y in enumerate(ctx.rules) if y[0] == x[0]), None)
            if i is None:
                ctx.rules.append(x)
            else:              # one rule dealt out to several workers
                y = ctx.rules[i]
                ctx.rules[i] = (x[0], y[1] + [z for z in x[1] if z not in y[1]], y[2] + x[2])
        for x in und:
            if x not in ctx.undecided:
                ctx.undecided.append(x)
        for x in ass:
            if x not in ctx.assumptions:
                ctx.assumptions.append(x)
    ctx.reports.sort(key=lambda rep: rep.index)
    return gone


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--root", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("ORMA_JOBS", "0")) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    warnings.simplefilter("ignore")
    t0 = time.time()
    prop = a.property
    mod = importlib.import_module("ormacheck.checks." + prop.lower())
    ctx = Ctx(prop, a.root)
    gone = run_parallel(ctx, mod, a.jobs)
    if gone:
        ctx.note_undecided("anchor", "vanished: %s" % gone)
    if not any(r.status() != "undecided" for r in ctx.reports) and not ctx.rules and not ctx.findings:
        print("ANALYSIS-BROKEN property=%s nothing could be decided: %s" % (prop, gone or "; ".join(u for r in ctx.reports for u in r.undecided[:1])[:300]))
        return 2
    wall = time.time() - t0
    known = [k for k in load_known() if k[0] == prop]
    seen, viol, kf = set(), [], []
    for f in ctx.findings:
        k = f.key.replace(" ", "_")
        hit = next((x for x in known if x[1] == k), None)
        if hit:
            if hit not in kf:
                kf.append(hit)
        elif k not in seen:
            seen.add(k)
            viol.append((k, f))
    ev = evidence(ctx, mod, viol, kf, wall)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
    for x in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, x[1], x[2]))
    if a.verbose:
        for r in ctx.reports:
            print("  %-9s %-52s parts=%d proved=%d tested=%d unwit=%d %.1fs" % (r.status(), r.name, r.partitions, r.proved, r.tested, r.unwitnessed, getattr(r, "wall", 0)))
            for u in r.undecided[:3]:
                print("      undecided:", u)
        for n, inst, nb in ctx.rules:
            print("  rule %-50s instances=%d bad=%d" % (n, len(inst), nb))
        for u in ctx.undecided:
            print("  undecided:", u)
    n_ok = sum(1 for r in ctx.reports if r.status() == "holds") + sum(1 for r in ctx.rules if r[2] == 0)
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1fs)" % (
        prop, len(ctx.reports) + len(ctx.rules), n_ok,
        sum(1 for r in ctx.reports if r.status() == "undecided") + len(ctx.undecided), len(kf), len(viol), wall))
    if viol:
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % prop)
        with open(rp, "w") as fp:
            for k, f in viol:
                fp.write("[%s] %s\n    analysed: %s\n" % (k, f.text, f.detail))
        for k, f in viol:
            print("  [%s] %s" % (k, f.text))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


LISTED = 400


def families(reports):
    """every obligation, grouped by its name with the sizes left out"""
    g = {}
    for r in reports:
        f = g.setdefault(re.sub(r"[0-9]+", "#", r.name), {"obligations": 0, "held": 0, "partitions": 0, "scalars": 0})
        f["obligations"] += 1
        f["held"] += r.status() == "holds"
        f["partitions"] += r.partitions
        f["scalars"] += r.scalars
    rows = sorted(g.items(), key=lambda x: -x[1]["obligations"])
    return [{"family": k, **v} for k, v in rows[:1200]]


def evidence(ctx, mod, viol, kf, wall):
    funcs = {}
    for r in ctx.reports:
        for q, (p, ln) in r.funcs.items():
            if p and p.startswith(ctx.root):
                funcs[q] = "%s:%d" % (os.path.relpath(p, ctx.root), ln)
    obl = len(ctx.reports) + len(ctx.rules)
    holds = sum(1 for r in ctx.reports if r.status() == "holds") + sum(1 for r in ctx.rules if r[2] == 0)
    samples = []
    for r in ctx.reports[:6]:
        samples.append({"obligation": r.name, "status": r.status(), "partitions": r.partitions, "equal_by_value_number": r.proved,
                        "equal_by_identity_test": r.tested})
    for n, inst, nb in ctx.rules[:6]:
        samples.append({"rule": n, "instances": inst[:5], "violating": nb})
    cov = {
        "explanation": getattr(mod, "__doc__", "") or ctx.prop,
        "rule": getattr(mod, "RULE", "every obligation is derived from the current source of the repository; see DESIGN.md"),
        "obligations": obl,
        "discharged": holds,
        "partitions": sum(r.partitions for r in ctx.reports),
        "partitions_equal_by_value_number": sum(r.proved for r in ctx.reports),
        "partitions_equal_by_identity_test": sum(r.tested for r in ctx.reports),
        "partitions_unwitnessed": sum(r.unwitnessed for r in ctx.reports),
        "partitions_outside_bound": sum(r.bounded for r in ctx.reports),
        "scalars_compared": sum(r.scalars for r in ctx.reports),
        "valuations": sum(r.models for r in ctx.reports),
        "call_sites_evaluated": sum(r.calls for r in ctx.reports),
        "rule_instances": sum(len(i) for _, i, _ in ctx.rules),
        "functions_analysed": sorted("%s (%s)" % x for x in funcs.items()),
        "obligation_families": families(ctx.reports) if len(ctx.reports) > LISTED else [],
        "obligation_results": [{"name": r.name, "status": r.status(), "partitions": r.partitions, "proved": r.proved,
                                "tested": r.tested, "unwitnessed": r.unwitnessed, "undecided": r.undecided[:4],
                                "contracts": r.contract_uses, "wall_s": round(getattr(r, "wall", 0), 2)}
                               for i, r in enumerate(ctx.reports) if i < LISTED or r.status() != "holds"][:3 * LISTED],
        "rule_results": [{"rule": n, "instances": len(i), "violating": b, "sites": i[:60]} for n, i, b in ctx.rules],
        "undecided": ctx.undecided,
        "known_findings": [k[1] for k in kf],
        "violations": [{"key": k, "text": f.text} for k, f in viol],
        "samples": samples or [{"note": "no obligation"}],
        "checker_cmd": "python3-vt -m ormacheck.run --property %s" % ctx.prop,
        "trusted_base": ["the abstract interpreter and library models of /verif/ormacheck", "CPython ast", "reference formulas in /verif/ormacheck/theory.py and checks/"],
    }
    return {"property": ctx.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
            "wall_s": round(wall, 3), "violations": len(viol)}
