"""Obligation ledger, evidence, known findings, verdict."""
import json, os, sys, time, traceback
from .prog import VERIF, Broken, tree_hash

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    """entries `KNOWN property=<id> key=<key> <text>` and `fixed: property=...` (which suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                key, _, text = rest.partition(" :: ")
                out[key.strip()[len("key="):]] = text
    return out


class Check:
    def __init__(self, pid, level="proof", rule=""):
        self.pid = pid; self.level = level; self.rule = rule
        self.obs = []          # (key, ok, where, detail)
        self.stats = {}
        self.assumptions = []
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.trusted = ["Clang 18 front end (name resolution, template instantiation, CFG construction)",
                        "/verif/arx abstract interpreter and its summaries of the C++ standard library"]
        self.samples = []
        self.explanation = ""

    def ob(self, key, ok, where="", detail=""):
        """one obligation; key identifies it stably (no line numbers)"""
        self.obs.append((key, bool(ok), where, detail))
        return ok

    def floor(self, what, n, least):
        self.stats[what] = n
        if n < least:
            raise Broken("analysis broken: only %d %s found, expected at least %d" % (n, what, least))

    def stat(self, k, v):
        self.stats[k] = v

    def spread(self, items, f, *counters):
        """[f(x) for x in items] over processes; obligations and the runs and paths of the worlds given are collected here"""
        from .par import pmap
        items = list(items)

        def one(x):
            n = len(self.obs); had = [(w.runs, w.paths) for w in counters]
            r = f(x)
            new = [(k, ok, str(w), str(d)) for k, ok, w, d in self.obs[n:]]
            return r, new, [(w.runs - a, w.paths - b) for w, (a, b) in zip(counters, had)]
        n = len(self.obs)
        res = pmap(one, items)
        del self.obs[n:]
        out = []
        for r, new, cnt in res:
            out.append(r); self.obs.extend(new)
            for w, (a, b) in zip(counters, cnt):
                w.runs += a; w.paths += b
        return out

    def finish(self):
        kn = known(self.pid)
        bad = {}
        for key, ok, where, detail in self.obs:
            if not ok and key not in bad:
                bad[key] = (where, detail)
        unlisted = [(k, v) for k, v in bad.items() if k not in kn]
        listed = [(k, v) for k, v in bad.items() if k in kn]
        total = len(self.obs); good = sum(1 for o in self.obs if o[1])
        cov = {"obligations": total, "discharged": good,
               "checker_cmd": "python3 /verif/run.py %s" % self.pid, "trusted_base": self.trusted,
               "rule": self.rule, "analysed": self.stats, "tree": tree_hash(),
               "samples": [{"obligation": k, "holds": ok, "where": w} for k, ok, w, d in self.obs[:12]],
               "known_findings_reported": [k for k, _ in listed]}
        if self.level == "other":
            cov["explanation"] = self.explanation or self.rule
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, (w, d) in listed:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.pid, kn[k], k, w))
        if unlisted:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
            with open(rp, "w") as fh:
                for k, (w, d) in unlisted:
                    fh.write("%s\n  at %s\n  %s\n" % (k, w, d))
            for k, (w, d) in unlisted[:20]:
                print("  %s\n    at %s\n    %s" % (k, w, d))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (self.pid, total, good, time.time() - self.t0))
        return 0


def main(pid, fn):
    try:
        return fn()
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
