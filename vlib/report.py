"""Obligation bookkeeping, verdicts, evidence files and known findings."""
import json, os, sys, time
from .build import AnalysisError, VERIF


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.counts = {}          # kind -> [checked, discharged]
        self.viol = []            # dict(key, rule, where, what, path)
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.trusted = []
        self.analysed = {}
        self._seen = set()
        self.broken = []

    # an obligation: one instance of a rule at one construct
    def ob(self, kind, ok, where="", what="", key=None, path=None, sample=None):
        c = self.counts.setdefault(kind, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            s = self.samples.setdefault(kind, [])
            if len(s) < 4 and (sample or what):
                s.append("%s: %s" % (where, sample or what))
        else:
            k = key or what
            if (kind, k) in self._seen:
                return ok
            self._seen.add((kind, k))
            self.viol.append(dict(rule=kind, where=where, what=what, key="%s|%s" % (kind, k), path=path))
        return ok

    def floor(self, kind, n):
        """fail as broken analysis when a rule has (almost) no instances left"""
        got = self.counts.get(kind, [0, 0])[0]
        if got < n:
            self.broken.append("rule '%s' matched %d instances (expected at least %d): the anchors it needs are gone" % (kind, got, n))

    def need(self, what, least, got):
        self.did(what, got)
        if got < least:
            self.broken.append("%s: %d found (expected at least %d): the anchors it needs are gone" % (what, got, least))

    def did(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding:"):
                    head, _, txt = line[8:].partition(" -- ")
                    prop, _, key = head.strip().partition(" key=")
                    if prop.strip() == "property=" + self.prop:
                        out[key.strip()] = txt.strip()
        return out

    def finish(self, level, explanation):
        kn = self.known()
        bad = []
        for v in self.viol:
            if v["key"] in kn:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v["where"], v["what"]))
            else:
                bad.append(v)
        if self.broken and not bad:
            raise AnalysisError("; ".join(self.broken))
        ev = os.environ.get("LDT_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        obl = sum(c[0] for c in self.counts.values())
        dis = sum(c[1] for c in self.counts.values())
        cov = {"obligations": obl, "discharged": dis,
               "checker_cmd": "python3 check.py %s --tier %s" % (self.prop, self.tier),
               "rules": {k: {"instances": c[0], "discharged": c[1]} for k, c in sorted(self.counts.items())},
               "analysed": self.analysed,
               "explanation": explanation,
               "samples": [x for k in sorted(self.samples) for x in self.samples[k]][:60],
               "trusted_base": ["clang 18 front end", "tool/extract.cpp", "vlib/*.py", "/usr/include headers"] + self.trusted}
        if self.notes:
            cov["notes"] = self.notes
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 3), "violations": len(bad)}
        if self.viol:
            rec["coverage"]["reported"] = self.viol
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(rec, f, indent=1)
        for k, c in sorted(self.counts.items()):
            print("  %-46s %5d obligations, %5d discharged" % (k, c[0], c[1]))
        for k, n in sorted(self.analysed.items()):
            print("  analysed %-37s %5d" % (k, n))
        if bad:
            rp = os.path.join(ev, self.prop + ".replay.txt")
            with open(rp, "w") as f:
                f.write("# re-decide with: python3 /verif/check.py %s\n" % self.prop)
                for v in bad:
                    f.write("%s\n  rule: %s\n  %s\n  key: %s\n" % (v["where"], v["rule"], v["what"], v["key"]))
                    if v.get("path"):
                        f.write("  path: %s\n" % v["path"])
            for v in bad:
                print("%s: [%s] %s" % (v["where"], v["rule"], v["what"]))
                if v.get("path"):
                    print("    path: %s" % v["path"])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("property %s holds on everything analysed (%d obligations, %.1f s)" % (self.prop, obl, time.time() - self.t0))
        return 0
