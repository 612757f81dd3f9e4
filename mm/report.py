"""Verdicts, known findings, replay files and evidence."""
import json
import os
import time

from . import extract as X

KNOWN = os.path.join(X.VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}        # key -> dict
        self.inst = {}        # rule -> set of instance names
        self.floors = {}
        self.rules = {}
        self.notes = []
        self.analysed = set()  # pattern locations of analysed functions

    def rule(self, rid, text):
        self.rules[rid] = text

    def instance(self, rid, name, loc=None):
        self.inst.setdefault(rid, set()).add(name)
        if loc:
            self.analysed.add(loc)

    def fn(self, f):
        self.analysed.add(f.loc if hasattr(f, "loc") else f)

    def floor(self, rid, n):
        self.floors[rid] = n

    def violation(self, key, msg, loc="", trace=None):
        """key: stable identification (construct, not line number)"""
        if key not in self.viol:
            self.viol[key] = {"key": key, "message": msg, "where": loc, "trace": trace or []}

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------------
    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.strip()
                if line.startswith("known: "):
                    head, _, what = line[7:].partition(" -- ")
                    p = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                    if p.get("property") == self.prop:
                        res[p["key"]] = what
        return res

    def finish(self, prog):
        broken = []
        for rid, n in self.floors.items():
            got = len(self.inst.get(rid, ()))
            if got < n:
                broken.append("rule %s matched %d instances, expected at least %d" % (rid, got, n))
        known = self.known()
        new = [v for k, v in sorted(self.viol.items()) if k not in known]
        old = [v for k, v in sorted(self.viol.items()) if k in known]
        self.evidence(prog, new, old, broken)
        for v in old:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, known[v["key"]], v["key"], v["where"]))
        if new:
            os.makedirs(os.path.join(X.VERIF, "out"), exist_ok=True)
            rp = os.path.join(X.VERIF, "out", "%s.replay.json" % self.prop)
            with open(rp, "w", encoding="utf-8") as f:
                json.dump({"property": self.prop, "violations": new, "rules": self.rules,
                           "replay": "cd /verif && ./check.py %s" % self.prop}, f, indent=1, ensure_ascii=False)
            for v in new:
                print("%s: %s\n  key: %s" % (v["where"], v["message"], v["key"]))
                for t in v["trace"]:
                    print("    " + t)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN: " + b)
            return 2
        print("OK property=%s: %d rule instances, %d functions analysed, %.1f s" %
              (self.prop, sum(len(x) for x in self.inst.values()), len(self.analysed), time.time() - self.t0))
        return 0

    def evidence(self, prog, new, old, broken):
        os.makedirs(os.path.join(X.VERIF, "evidence"), exist_ok=True)
        tot = sum(len(x) for x in self.inst.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the resolved program (clang AST with all template instantiations of the "
                               "listed translation units); rules: " + "; ".join("%s: %s" % kv for kv in sorted(self.rules.items())),
                "translation_units": prog.tus if prog else [],
                "source_files_parsed": len([f for f in prog.files if not f.startswith("/verif")]) if prog else 0,
                "functions_with_body": sum(1 for f in prog.fns.values() if f.has_body) if prog else 0,
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:400],
                "obligations": tot,
                "instances": {k: sorted(v)[:200] for k, v in sorted(self.inst.items())},
                "instance_counts": {k: len(v) for k, v in sorted(self.inst.items())},
                "floors": self.floors,
                "known_findings": [v["key"] for v in old],
                "notes": self.notes + broken,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(X.VERIF, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
