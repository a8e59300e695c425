"""Which iterations of a parallel loop touch which memory.

The recorder sees every element access made while the abstract interpreter follows the iterations of a parallel loop one
after the other. Accesses of one phase (between two barriers) conflict when two different iterations touch the same element,
one of them writes it, and they are not both inside the same critical section or atomic update."""
from .alg import *


def ekey(key):
    if isinstance(key, tuple):
        out = []
        for k in key:
            if isinstance(k, Poly) and k.const() is not None:
                out.append(int(k.const()))
            else:
                return None
        return tuple(out)
    return key if isinstance(key, str) else None


class Race:
    def __init__(self):
        self.idx = None          # position in the distributed loops, outermost first
        self.live = False        # inside an iteration
        self.want = 0            # collapsed loops still to be entered
        self.team = 0
        self.par = None
        self.log = {}
        self.found = {}
        self.regions = {}        # location -> [iterations, accesses]
        self.base_team = None

    # ------------------------------------------------------------- structure
    def open(self, par):
        """a distributed loop is entered; its level, or None inside an iteration (nested regions run serially)"""
        if self.idx is not None:
            return None
        loc = par[2] if isinstance(par, tuple) and len(par) > 2 else None
        self.par = (par, loc)
        n = 1
        if isinstance(par, tuple):
            for nm, x in par[1]:
                if nm == "collapse" and x.isdigit():
                    n = int(x)
        self.want = n - 1
        self.idx = [0]
        self.regions.setdefault(loc, [0, 0])
        return 0

    def deeper(self):
        if self.idx is None or self.want <= 0:
            return None
        self.want -= 1
        self.idx.append(0)
        return len(self.idx) - 1

    def step(self, lvl, k):
        del self.idx[lvl + 1:]
        self.idx[lvl] = k
        self.live = True
        if self.par[1] in self.regions:
            self.regions[self.par[1]][0] += 1

    def leave(self, lvl, collapse=0):
        if lvl:
            del self.idx[lvl:]
            self.want += 1
            return
        par, loc = self.par
        self.idx, self.live, self.want, self.par = None, False, 0, None
        if not (isinstance(par, tuple) and any(nm == "nowait" for nm, x in par[1])):
            self.barrier()

    def barrier(self):
        for base, els in self.log.items():
            star = els.get(None, {})
            for k, acc in els.items():
                if k is not None and star:
                    acc = dict(acc)
                    for t, v in star.items():
                        acc.setdefault(t, [])
                        acc[t] = acc[t] + v
                if len(acc) < 2 and ("team",) not in acc:
                    continue
                self.compare(base, k, acc)
        self.log = {}

    def compare(self, base, k, acc):
        ws = [(t, a) for t, v in acc.items() for a in v if a[0] == "w"]
        for t, a in ws:
            for t2, v in acc.items():
                if t2 == t and t != ("team",):
                    continue
                for b in v:
                    if a[1] and a[1] == b[1]:
                        continue
                    if (a[2] & b[2]) is FALSE:
                        continue
                    self.found.setdefault((a[3], b[3], b[0]), (base, k, t, t2, a, b))
                    return

    # ------------------------------------------------------------- accesses
    def touch(self, it, base, key, mode, pc, loc):
        if not self.live and not self.team:
            return
        t = tuple(self.idx) if self.live else ("team",)
        sync = tuple(x for x in getattr(it, "sync_ctx", ()) if x in ("Critical", "Atomic", "Single", "Master", "Masked"))
        v = self.log.setdefault(base, {}).setdefault(ekey(key), {}).setdefault(t, [])
        e = (mode, sync, pc, loc)
        if not any(x[0] == mode and x[1] == sync and x[2] is pc for x in v):
            v.append(e)
            if self.live:
                self.regions[self.par[1]][1] += 1

    def fresh(self, base):
        """storage created inside an iteration belongs to it"""
        self.log.pop(base, None)

    def report(self):
        out = []
        for base, k, t, t2, a, b in self.found.values():
            out.append((a[3], "iterations %s and %s %s the same element %s of %s (%s and %s)" % (
                "/".join(map(str, t)), "/".join(map(str, t2)), "both write" if b[0] == "w" else "write and read", k, base, where(a[3]), where(b[3]))))
        return out


def where(loc):
    return "%s:%s" % (str(loc[0]).split("lambdapic/")[-1], loc[1]) if isinstance(loc, tuple) else str(loc)
