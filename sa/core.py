"""Shared machinery of the checks: the analysed program, obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import mir  # noqa: E402
from engine import Engine, Incomplete, pp  # noqa: E402
import q as Q  # noqa: E402

CRATE = "cargo_call_stack"


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.j = mir.load()
        self.obligations = []
        self.bad = []
        self.samples = []
        self.cov = {}
        self.notes = []
        self.bodies = set()
        self.engines = []

    # ---- engine
    def engine(self, reset=False):
        E = Engine(self.j)
        E.phase_reset = reset
        self.engines.append(E)
        return E

    def body(self, path):
        """key of the body with this path (crate-relative)"""
        p = CRATE + "::" + path if not path.startswith("<") else path
        for b in self.j["bodies"]:
            if b["path"] == p or b["key"] == p:
                return b["key"]
        for b in self.j["bodies"]:
            if b["path"] == path:
                return b["key"]
        raise Incomplete("anchor not found: " + path)

    def has(self, path):
        try:
            self.body(path)
            return True
        except Incomplete:
            return False

    # ---- results
    def ok(self, rule, what):
        self.obligations.append((rule, what))
        if len(self.samples) < 40:
            self.samples.append("%s: %s" % (rule, what))

    def violate(self, key, msg, where=None):
        if not any(k == key for k, _, _ in self.bad):
            self.bad.append((key, msg, where))

    def need(self, cond, rule, what, msg=None, where=None, key=None):
        if cond:
            self.ok(rule, what)
        else:
            self.violate(key or "%s/%s" % (rule, what), msg or what, where)
        return bool(cond)


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2])
                out.append((d["property"], d["key"], l[9:].split(" ", 2)[2] if l[9:].count(" ") >= 2 else ""))
    return out


def run(prop, tier, check, level="other"):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ctx = None
    try:
        ctx = Ctx(prop, tier)
        check(ctx)
        if not ctx.obligations and not ctx.bad:
            ctx.violate("nothing-analysed", "the check discharged no obligation at all")
    except mir.CompileError as e:
        print("the crate does not build:\n" + str(e)[-1500:])
        ctx = ctx or _Empty(prop, tier)
        ctx.violate("does-not-build", "the crate in %s does not compile" % mir.REPO)
    except Incomplete as e:
        ctx = ctx or _Empty(prop, tier)
        ctx.violate("analysis-incomplete", "analysis incomplete: %s" % e)
    except Exception:
        traceback.print_exc()
        ctx = ctx or _Empty(prop, tier)
        ctx.violate("analysis-failed", "the analysis failed: " + traceback.format_exc()[-1200:])
    kf = {k: w for p, k, w in known_findings() if p == prop}
    new = []
    for key, msg, where in ctx.bad:
        if key.replace(" ", "_") in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[key.replace(" ", "_")] or key))
        else:
            new.append((key, msg, where))
    funcs = sorted({x for E in ctx.engines for x in E.stats["bodies"]} | ctx.bodies)
    rules = {}
    for r, _ in ctx.obligations:
        rules[r] = rules.get(r, 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "explanation": "Static analysis of the MIR of the crate in %s (current working tree). %d obligations discharged: %s. "
                           "%d function bodies interpreted abstractly (%d basic blocks, %d loops, %d inlined calls)." % (
                               mir.REPO, len(ctx.obligations), ", ".join("%s x%d" % x for x in sorted(rules.items())) or "none",
                               len(funcs), sum(E.stats["blocks"] for E in ctx.engines), sum(len(E.stats["loops"]) for E in ctx.engines),
                               sum(E.stats["calls"] for E in ctx.engines)),
            "obligations": len(ctx.obligations),
            "rules": rules,
            "functions": funcs,
            "samples": ctx.samples,
        },
        "assumptions": ["library calls behave as modelled in sa/models.py", "arithmetic on u64/i64 byte counts does not overflow"] + ctx.notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "what": m, "where": str(w)} for k, m, w in ctx.bad],
    }
    ev["coverage"].update(ctx.cov)
    if getattr(ctx, "engines", None):
        inc = sorted({m for E in ctx.engines for m in E.incomplete})
        if inc:
            ev["coverage"]["imprecision"] = inc[:20]
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rep = os.path.join(VERIF, "evidence", prop + ".report.txt")
        with open(rep, "w") as f:
            for key, msg, where in new:
                f.write("[%s]\n  %s\n  at %s\n" % (key, msg, where))
        for key, msg, where in new[:20]:
            print("%s: %s%s" % (key, msg[:600], " (at %s)" % (where,) if where else ""))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s: %d obligations hold (%s), %.1fs" % (prop, len(ctx.obligations), tier, time.time() - t0))
    return 0


class _Empty(Ctx):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations, self.bad, self.samples, self.cov, self.notes = [], [], [], {}, []
        self.bodies, self.engines = set(), []
