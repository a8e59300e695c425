"""Obligation bookkeeping, evidence files, known findings and exit codes."""
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obls = []          # (rule, key, ok, msg, loc)
        self.units = set()
        self.functions = set()
        self.assumptions = []
        self.notes = []
        self.broken = []
        self.floors = {}
        self.rules = {}

    # ------------------------------------------------------------- recording
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, ok, msg="", loc=None):
        """one obligation: rule instance `key` (stable name of the construct)"""
        self.obls.append((rule, key, bool(ok), str(msg), self.loc(loc)))
        return bool(ok)

    def loc(self, l):
        if l is None:
            return ""
        if isinstance(l, (tuple, list)):
            f = str(l[0])
            i = f.find("src/lambdapic")
            return "%s:%s" % (f[i:] if i >= 0 else f, l[1])
        return str(l)

    def break_(self, msg):
        self.broken.append(msg)

    def need(self, cond, msg):
        """an anchor that must exist for the analysis to mean anything"""
        if not cond:
            self.broken.append(msg)
        return bool(cond)

    def floor(self, rule, n):
        self.floors[rule] = n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---------------------------------------------------------------- finish
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                m = re.match(r"finding:\s+property=(\S+)\s+rule=(\S+)\s+key=(\S+)\s+(.*)", ln.strip())
                if m and m.group(1) == self.pid:
                    out[(m.group(2), m.group(3))] = m.group(4)
        return out

    def python_units(self):
        """files of the analysed functions"""
        try:
            from .world import world
            idx = {}
            for m in world().pkg.mods.values():
                for f in m.funcs.values():
                    idx.setdefault(f.qual, set()).add(f.file)
                for k in m.classes.values():
                    for f in k.methods.values():
                        idx.setdefault(f.qual, set()).add(f.file)
            for f in self.functions:
                if len(idx.get(f, ())) == 1:
                    self.units |= idx[f]
        except Exception:
            pass

    def finish(self):
        known = self.known()
        self.python_units()
        viol = [o for o in self.obls if not o[2]]
        counts = {}
        for o in self.obls:
            counts[o[0]] = counts.get(o[0], 0) + 1
        for r, n in self.floors.items():
            if counts.get(r, 0) < n:
                self.broken.append("rule %s: only %d instances analysed, expected at least %d" % (r, counts.get(r, 0), n))
        listed, new = [], []
        for o in viol:
            k = (o[0], re.sub(r"\s+", "_", o[1]))
            (listed if k in known else new).append(o)
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "static analysis of the current source: " + "; ".join("%s = %s" % kv for kv in sorted(self.rules.items())),
                "units": sorted(self.rel(u) for u in self.units),
                "functions": sorted(self.functions),
                "functions_analysed": len(self.functions),
                "obligations": len(self.obls),
                "obligations_discharged": len(self.obls) - len(viol),
                "instances_per_rule": counts,
                "known_findings": len(listed),
                "broken": self.broken,
                "instances": [{"rule": o[0], "construct": o[1], "ok": o[2], "where": o[4]} for o in self.obls[:400]],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d units, %d functions, %d obligations %s in %.1fs" % (
            self.pid, len(self.units), len(self.functions), len(self.obls), counts, wall))
        for o in listed:
            k = (o[0], re.sub(r"\s+", "_", o[1]))
            print("KNOWN-FINDING: property=%s %s [%s %s]" % (self.pid, known[k], o[0], o[1]))
        if new:
            rp = os.path.join(evd, "%s.violation.json" % self.pid)
            with open(rp, "w") as f:
                json.dump([{"rule": o[0], "rule_text": self.rules.get(o[0], ""), "construct": o[1], "message": o[3], "where": o[4]} for o in new], f, indent=1)
            for o in new[:20]:
                print("  violated %s: %s at %s: %s" % (o[0], o[1], o[4], o[3][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.broken:
            for b in self.broken:
                print("ANALYSIS-BROKEN property=%s %s" % (self.pid, b))
            return 2
        return 0

    def rel(self, u):
        i = u.find("src/lambdapic")
        return u[i:] if i >= 0 else u


def run(pid, tier, fn):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    try:
        fn(c)
    except Exception as e:
        traceback.print_exc()
        c.broken.append("%s: %s" % (type(e).__name__, e))
    return c.finish()


def pmap(fn, jobs, nproc=None):
    """[(True, fn(job))] computed in one forked process per job; (False, message) for a job that fails"""
    import pickle
    import shutil
    import tempfile
    nproc = nproc or os.cpu_count() or 4
    tmp = tempfile.mkdtemp(prefix="vstatic")
    sys.stdout.flush()
    sys.stderr.flush()
    todo = list(range(len(jobs)))[::-1]
    live = set()
    try:
        while todo or live:
            while todo and len(live) < nproc:
                i = todo.pop()
                pid = os.fork()
                if pid == 0:
                    try:
                        try:
                            res = (True, fn(jobs[i]))
                        except BaseException as e:
                            res = (False, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                        with open(os.path.join(tmp, "%d" % i), "wb") as f:
                            pickle.dump(res, f)
                    finally:
                        os._exit(0)
                live.add(pid)
            pid, _ = os.wait()
            live.discard(pid)
        out = []
        for i in range(len(jobs)):
            fp = os.path.join(tmp, "%d" % i)
            if os.path.exists(fp):
                with open(fp, "rb") as f:
                    out.append(pickle.load(f))
            else:
                out.append((False, "worker died"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
