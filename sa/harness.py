"""Runs one check: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import absint as A
import ceelib as C
import ir


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = {}            # rule -> number of obligations
        self.viol = {}           # key -> dict
        self.samples = []
        self.funcs = set()
        self.callsites = set()
        self.paths = 0
        self.notes = []
        self.assumptions = []
        self.label = None

    # --- rule instances
    def ob(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def check(self, ok, rule, key, msg, where=None):
        """one obligation; key identifies the construct (without the unit label)"""
        self.ob(rule)
        if not ok:
            self.fail(rule, key, msg, where)
        return ok

    def fail(self, rule, key, msg, where=None):
        k = "%s:%s" % (rule, key)
        v = self.viol.setdefault(k, {"key": k, "rule": rule, "msg": msg, "where": where, "units": []})
        if self.label and self.label not in v["units"]:
            v["units"].append(self.label)

    def need(self, cond, msg):
        if not cond:
            raise C.Broken(msg)

    def must(self, cond, msg):
        """without this nothing else of the property can hold"""
        if not cond:
            self.fail("works", msg, msg)
            raise C.Broken(msg)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def used(self, it):
        """account for an interpreter's work"""
        self.funcs |= {(self.label, m, f) for m, f in it.funcs_seen}
        self.callsites |= {(self.label,) + c for c in it.calls_seen}
        self.paths += it.npaths


def parallel(ctx, jobs, procs=None):
    """run independent rule instances job(ctx) in forked workers and add up what they report"""
    import multiprocessing as mp
    if len(jobs) <= 1 or os.environ.get("CEE_SERIAL"):
        for j in jobs:
            try:
                j(ctx)
            except A.Wrong as e:
                ctx.fail("works", "ends" if isinstance(e, A.NoEnd) else "use", str(e), e.where)
        return
    mpc = mp.get_context("fork")
    todo = mpc.Value("i", 0)

    def work(conn):
        out = []
        while True:
            with todo.get_lock():
                i = todo.value
                todo.value += 1
            if i >= len(jobs):
                break
            c = Ctx(ctx.pid, ctx.tier)
            c.label = ctx.label
            err = None
            try:
                jobs[i](c)
            except A.Wrong as e:
                c.fail("works", "ends" if isinstance(e, A.NoEnd) else "use", str(e), e.where)
            except (C.Broken, A.AnalysisError, ir.IRError) as e:
                err = "%s: %s" % (type(e).__name__, e)
            except Exception:
                err = traceback.format_exc()
            out.append((i, c.obl, c.viol, c.samples, c.funcs, c.callsites, c.paths, c.notes, err))
        conn.send(out)
        conn.close()

    ps = []
    for _ in range(min(procs or 8, len(jobs), max(1, os.cpu_count() or 1))):
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=work, args=(b,))
        p.start()
        b.close()
        ps.append((p, a))
    res = []
    lost = False
    for p, a in ps:
        try:
            res += a.recv()
        except EOFError:
            lost = True
        p.join()
    errs = []
    for i, obl, viol, samples, funcs, sites, paths, notes, err in sorted(res, key=lambda x: x[0]):
        for k, n in obl.items():
            ctx.ob(k, n)
        for k, v in viol.items():
            o = ctx.viol.setdefault(k, v)
            for u in v["units"]:
                if u not in o["units"]:
                    o["units"].append(u)
        for x in samples:
            ctx.sample(x)
        ctx.funcs |= funcs
        ctx.callsites |= sites
        ctx.paths += paths
        ctx.notes += notes
        if err:
            errs.append(err)
    if errs:
        raise C.Broken(errs[0])
    if lost:
        raise C.Broken("a worker ended without a result")


def known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=P01 key=<key> :: text
                body = l[len("finding: "):]
                head, _, text = body.partition(" :: ")
                pid = head.split("property=")[1].split()[0]
                key = head.split("key=")[1].strip()
                out[(pid, key)] = text
    return out


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    import importlib
    ctx = Ctx(pid, tier)
    mod = None
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ctx)
        minimum = getattr(mod, "MIN", {})
        for rule, n in minimum.items():
            if ctx.obl.get(rule, 0) < n and not ctx.viol:
                raise C.Broken("rule %s matched %d instances, expected at least %d" % (rule, ctx.obl.get(rule, 0), n))
        broken = None
    except A.Wrong as e:
        ctx.fail("works", "ends" if isinstance(e, A.NoEnd) else "use", str(e), e.where)
        broken = None
    except (C.Broken, A.AnalysisError, ir.IRError) as e:
        broken = "%s: %s" % (type(e).__name__, e)
    except Exception:
        broken = traceback.format_exc()
    kn = known()
    new, old = [], []
    for k, v in sorted(ctx.viol.items()):
        if (pid, k) in kn:
            old.append((k, v, kn[(pid, k)]))
        else:
            new.append((k, v))
    evdir = os.environ.get("CEE_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    total = sum(ctx.obl.values())
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cov = {
        "explanation": getattr(mod, "EXPLAIN", (mod and mod.__doc__) or "").strip(),
        "rules": ctx.obl,
        "obligations_checked": total,
        "functions_analysed": len(ctx.funcs),
        "call_sites_seen": len(ctx.callsites),
        "abstract_paths": ctx.paths,
        "samples": ctx.samples or ["(none)"],
        "known_findings": [k for k, _, _ in old],
        "violations": [dict(v) for k, v in new],
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    if broken:
        cov["broken"] = broken
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "violations": len(new),
          "assumptions": getattr(mod, "ASSUME", []) + COMMON_ASSUME}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("CEE_FUNCS"):
        with open(os.environ["CEE_FUNCS"], "a") as f:
            f.writelines("%s %s %s %s\n" % (pid, l, m, n) for l, m, n in sorted(ctx.funcs, key=str))
    print("%s (%s): %d obligations, %d rules, %d functions, %d abstract paths, %.1fs" %
          (pid, tier, total, len(ctx.obl), len(ctx.funcs), ctx.paths, time.time() - t0))
    for k, v, text in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, k))
    if new:
        rp = os.path.join(evdir, pid + ".replay.txt")
        with open(rp, "w") as f:
            for k, v in new:
                f.write("property %s\nrule     %s\ninstance %s\nunits    %s\nwhere    %s\nwhat     %s\n\n" %
                        (pid, v["rule"], k, ",".join(v["units"]), v["where"], v["msg"]))
            if broken:
                f.write("analysis also stopped early: %s\n" % broken)
        for k, v in new[:20]:
            print("  [%s] %s: %s (%s)" % (k, v["where"], v["msg"], ",".join(v["units"])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 3
    return 0


COMMON_ASSUME = [
    "clang 18 -O0 IR of the C sources is the program (the same sources gcc builds)",
    "malloc/realloc succeed; sizes and counts stay below 2^31",
    "a pointer of one struct-field type does not alias a field of another type",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
