"""P02: marking reaches everything an object holds."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

MIN = {"mark": 60, "reach": 60}
EXPLAIN = ("The mark action of every object class (found through its constructor) is analysed for both marks on a symbolic object; "
           "tree walks are abstracted to one iteration per node. Rule mark: the object's own gc_mark becomes the mark. "
           "Rule reach: cee_trace(x, action) is called for every pointer the object holds: all elements 0..size-1 of arrays, every "
           "tree node's key, each fixed slot, and every managed object its constructor stores in it; nothing else is visited.")
ASSUME = ["the tree walkers visit every node (decided by P08)", "the object graph is acyclic"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        C.with_walk(c.prog)
        cls = K.classes(c)
        H = K.holdings(c)
        done = set()
        for n, parts in H.items():
            d = cls[n]
            for mark in (0, 1):
                one(ctx, c, n, d, parts, mark)
            done.add(d["trace"])
        for n, d in cls.items():
            ctx.must(d["trace"] in done, "objects made by %s have a mark action no rule covers" % n)


def one(ctx, c, n, d, parts, mark):
    ta = const(c.TMARK + mark)
    s = K.shaped(c, d["off"], "inner")
    it = c.interp(opaque=K.opaque(c.prog) - K.WALKERS)
    ps = [p for p in it.run(d["trace"], [s.p, ta], s.st) if p.kind == "ret"]
    ctx.used(it)
    f = c.prog.find(d["trace"])
    w0 = "%s:%d (%s)" % (f.loc() + (d["trace"],))
    key = n
    ctx.must(ps, "the mark action of %s never returns" % n)
    for p in ps:
        m = c.bits(it, p.st, s.X, c.MARK)
        ctx.check(m == mark, "mark", key, "marking with %d leaves gc_mark=%s" % (mark, m), w0)

        def hit(e):
            a = K.visits(c, e, {"cee_trace"})
            return a

        for e in C.flat(p.ev):
            a = hit(e)
            if a is not None and a[1] is not ta:
                ctx.fail("reach", key + "/action", "passes action %r on instead of the mark action" % (a[1],), e.where())
            if e.kind == "call" and e.name in K.DELETERS | K.COUNTERS:
                ctx.fail("reach", key + "/effect", "marking calls %s" % e.name, e.where())
            if e.kind == "free":
                ctx.fail("reach", key + "/effect", "marking frees memory", e.where())
        claimed = set()
        for part in parts:
            if part[0] == "fixed":
                slot = vadd(s.p, const(part[1]))
                x = it.reduce(p.st, it.load(p.st, slot, 8, None, "ptr"))
                got = [e for e in C.flat(p.ev) if hit(e) is not None and C.strip(hit(e)[0]) in (C.strip(x), C.ld(slot))]
                claimed |= {id(e) for e in got}
                ok = bool(got) or x is ZERO
                ctx.check(ok, "reach", "%s/slot%d" % (key, part[1]), "the object at offset %d is not marked" % part[1], w0)
            elif part[0] == "array":
                base = part[1](it, s)
                cnt = K.count_of(c, it, s, part)

                def ahit(e):
                    a = hit(e)
                    if a is None:
                        return None
                    x = C.strip(a[0]).single()
                    return x.args[0] if x is not None and x.kind == "ld" else None
                cov = C.covers(it, p.st, [e for e in p.ev if id(e) not in claimed], ahit, base, cnt)
                ctx.check(cov.ok, "reach", key + "/elements", cov.why, w0)
            else:
                loops = K.tree_loops(p)
                ctx.check(len(loops) == 1, "reach", key + "/walk", "the tree is walked %d times" % len(loops), w0)
                for l in loops:
                    for evs, nxt, s2, env in l.lp["iters"]:
                        root, node = K.node_of(evs)
                        ctx.check(C.strip(root) is C.ld(s.p), "reach", key + "/root", "walks %r, not the object's tree" % root, w0)
                        k = sum(1 for e in C.flat(evs) if hit(e) is not None and C.strip(hit(e)[0]) is C.ld(node))
                        ctx.check(k >= 1, "reach", key + "/node", "a tree node's element is not marked", w0)
        ctx.sample("%s mark=%d: %d path(s), holdings %s" % (n, mark, len(ps), [x[:2] if x[0] == "fixed" else x[0] for x in parts]))
