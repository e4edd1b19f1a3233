"""P06: deleting a container applies its policy to each element exactly once."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, vscale, ZERO
from checks import core as K

MIN = {"policy": 20, "delete": 60, "clear": 6}
EXPLAIN = ("For every container class the delete action (following) is analysed once per deletion policy, the policy field(s) - found as "
           "the fields the constructor fills from its policy argument - holding that constant. Rule delete: under DEL_RC every element "
           "gets exactly one cee_del_ref, under DEL exactly one cee_del, under NOOP none; nothing else is released; objects the "
           "container made for itself (a map's pairs and key list, a dict's lists) get exactly one cee_del. Rule policy: each "
           "constructor records the policy it is given (RC when it is given none). Rule clear: cee_set_clear does the same and empties "
           "the set.")
ASSUME = ["the tree walkers visit every node once (P08)"]

SLOTS = {"cee_tuple_mk_e": 2, "cee_triple_mk_e": 3, "cee_quadruple_mk_e": 4, "cee_env_mk_e": 2}
MANAGED = ["cee_list_mk_e", "cee_stack_mk_e", "cee_set_mk_e", "cee_tuple_mk_e", "cee_triple_mk_e", "cee_quadruple_mk_e", "cee_n_tuple_mk",
           "cee_tagged_mk_e", "cee_env_mk_e", "cee_map_mk_e", "cee_dict_mk_e", "cee_closure_mk"]
RELEASE = {"cee_del", "cee_del_ref"}


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        cls = K.classes(c)
        H = K.holdings(c)
        pols = K.policies(c)
        C.with_walk(c.prog)
        for n in MANAGED:
            d = cls[n]
            offs = pols.get(n, [])
            if n in ("cee_map_mk_e", "cee_dict_mk_e", "cee_closure_mk"):
                one(ctx, c, n, d, H[n], [], None, "own")
                continue
            ok = record(ctx, c, n, d, offs)
            if not ok:
                continue
            if n in SLOTS:
                tri = (c.RC, c.DEL, c.NOOP)
                for a in range(3):
                    for b in (0, 1, 2):
                        pm = {o[:2]: tri[(a + b * i + (i // 2)) % 3] for i, o in enumerate(offs)}
                        one(ctx, c, n, d, H[n], offs, pm, "slots")
            else:
                for pol in (c.RC, c.DEL, c.NOOP):
                    one(ctx, c, n, d, H[n], offs, pol, "all")
            if any(o[1] for o in offs):
                index(ctx, c, n, d, offs)
        defaults(ctx, c, pols)
        dict_lists(ctx, c, pols)
        for pol in (c.RC, c.DEL, c.NOOP):
            clear(ctx, c, cls["cee_set_mk_e"], pols.get("cee_set_mk_e", []), pol)


def record(ctx, c, n, d, offs):
    f = d["fn"]
    w0 = "%s:%d (%s)" % (f.loc() + (n,))
    want = SLOTS.get(n, 1)
    offs.sort(key=lambda o: repr(o[2]) if o[1] else o[2].single().args[0].c if o[2].single().kind == "ld" else 0)
    good = []
    for o, stride, v in offs:
        x = v.single()
        if n in ("cee_list_mk_e", "cee_stack_mk_e", "cee_set_mk_e", "cee_tagged_mk_e"):
            ok = x.kind == "arg" and x.args[0] == 1
        elif n in SLOTS:
            ok = x.kind == "ld" and len(x.args[0].t) == 1 and x.args[0].t[0][0].kind == "arg" and x.args[0].c == 4 * len(good)
        else:
            # element i takes policy i
            ok = stride == 4 and x.kind == "ld" and sum(k for y, k in x.args[0].t if y.kind not in ("arg", "heap")) == 4 and x.args[0].c == 0
        if ok:
            good.append((o, stride, v))
    ctx.check(len(good) == want == len(offs), "policy", n, "does not record the policy it is given (%s)" % (offs,), w0)
    return len(good) == want == len(offs)


def defaults(ctx, c, pols):
    """the constructors without a policy argument use reference counting for every element"""
    cls = K.classes(c)
    base = {"cee_list_mk": "cee_list_mk_e", "cee_stack_mk": "cee_stack_mk_e", "cee_set_mk": "cee_set_mk_e", "cee_tuple_mk": "cee_tuple_mk_e",
            "cee_triple_mk": "cee_triple_mk_e", "cee_tagged_mk": "cee_tagged_mk_e", "cee_env_mk": "cee_env_mk_e", "cee_map_mk": "cee_map_mk_e",
            "cee_dict_mk": "cee_dict_mk_e", "cee_n_tuple_mk": "cee_n_tuple_mk"}
    for n, b in base.items():
        f = c.fn(n)
        w0 = "%s:%d (%s)" % (f.loc() + (n,))
        it = c.interp(opaque=K.opaque(c.prog) | ({b} if b != n else {"cee_n_tuple_v"} if False else set()))
        for p in it.run(n):
            if p.kind != "ret":
                continue
            if b != n:
                e = [x for x in C.flat(p.ev) if x.kind == "call" and x.name == b]
                bad = None
                if len(e) != 1 or p.ret is not e[0].ret:
                    bad = "is not the result of %s" % b
                else:
                    a = e[0].args[1]
                    if a.is_const():
                        bad = None if a is const(c.RC) else "uses policy %r" % a
                    else:
                        k = {"cee_tuple_mk_e": 2, "cee_triple_mk_e": 3, "cee_env_mk_e": 2, "cee_map_mk_e": 2}[b]
                        vs = [pol_at(c, it, p, e[0], vadd(a, const(4 * i))) for i in range(k)]
                        bad = None if all(v is const(c.RC) for v in vs) else "uses policies %s" % vs
                ctx.check(not bad, "policy", n, bad or "", w0)
            else:
                # n_tuple: the policies copied into the object are all RC
                offs = pols.get(n, [])
                src = [s for o, st, s in offs]
                bad = None
                if len(src) != 1:
                    bad = "records no policies"
                else:
                    h = [y for y, k in src[0].single().args[0].t if y.kind == "heap"]
                    st = [x for x in C.flat(p.ev) if x.kind == "store" and x.size == 4 and h and any(y is h[0] or (y.kind == "heap" and h and y.args[1] == h[0].args[1] and y.args[0] != h[0].args[0] and False) for y, k in x.addr.t)]
                    hs = [x for x in C.flat(p.ev) if x.kind == "store" and x.size == 4 and any(y.kind == "heap" for y, k in x.addr.t) and x.val.is_const()]
                    if not hs or any(x.val is not const(c.RC) for x in hs):
                        bad = "does not use reference counting for its elements"
                ctx.check(not bad, "policy", n, bad or "", w0)
        ctx.used(it)


def pol_at(c, it, p, call, addr):
    v = it.reduce(p.st, it.load(p.st, addr, 4, None, "i32"))
    if v.is_const():
        return v
    x = v.single()
    if x is not None and x.kind == "ld":
        g = x.args[0].t[0][0] if len(x.args[0].t) == 1 else None
        if g is not None and g.kind == "glob":
            cv = it.prog.const_load(g.args[0], x.args[0].c, 4, True)
            if cv is not None:
                return cv if isinstance(cv, A.V) else const(cv)
    # local arrays were handed to the constructor: what was stored in them before
    for e in C.flat(p.ev):
        if e is call:
            break
        if e.kind == "store" and e.addr is addr:
            v = e.val
        if e.kind == "memset" and vsub(addr, e.dst).is_const() and vsub(addr, e.dst).c >= 0 and e.val is ZERO:
            v = ZERO
        if e.kind == "copy" and e.dst is not None and vsub(addr, e.dst).is_const() and 0 <= vsub(addr, e.dst).c:
            v = it.load(p.st, vadd(e.src, vsub(addr, e.dst)), 4, None, "i32")
    return v


def dict_lists(ctx, c, pols):
    """a dict's elements live in lists that carry the dict's policy"""
    f = c.fn("cee_dict_mk_e")
    w0 = "%s:%d (cee_dict_mk_e)" % f.loc()
    it = c.interp(opaque=K.opaque(c.prog) | {"cee_list_mk_e", "cee_list_mk"})
    subs = K.classes(c)["cee_dict_mk_e"]["subs"]
    n = 0
    for p in it.run("cee_dict_mk_e"):
        if p.kind != "ret" or p.ret is None or not p.ret.t:
            continue
        calls = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_list_mk_e"]
        for o in subs:
            v = it.reduce(p.st, it.load(p.st, vadd(p.ret, const(o)), 8, None, "ptr"))
            e = [x for x in calls if x.ret is v]
            ok = len(e) == 1 and e[0].args[1].single() is not None and e[0].args[1].single().kind == "arg" and e[0].args[1].single().args[0] == 1
            ctx.check(ok, "policy", "cee_dict_mk_e/list%d" % n, "a list of the dict does not carry the dict's policy", w0)
            n += 1
    ctx.check(n >= 2, "policy", "cee_dict_mk_e", "the dict has %d lists of elements" % n, w0)
    ctx.used(it)


def one(ctx, c, n, d, parts, offs, pol, mode):
    s = K.shaped(c, d["off"], "inner")
    it = c.interp(opaque=(K.opaque(c.prog) - K.WALKERS) - {"cee_del_e"})
    if pol is not None:
        it.lazy = K.policy_lazy(c, s, offs, pol)
    ps = [p for p in it.run(d["trace"], [s.p, const(c.FOLLOW)], s.st) if p.kind == "ret"]
    ctx.used(it)
    f = c.prog.find(d["trace"])
    w0 = "%s:%d (%s)" % (f.loc() + (d["trace"],))
    key = n
    ctx.must(ps, "the delete action of %s never returns" % n)
    exp = {c.RC: "cee_del_ref", c.DEL: "cee_del", c.NOOP: None}

    def rel(e):
        if e.kind == "call" and e.name in RELEASE:
            return e.name, C.strip(e.args[0])
        return None
    for p in ps:
        claimed = set()
        freed = [i for i, e in enumerate(p.ev) if e.kind == "free"]
        fx = [x for x in parts if x[0] == "fixed"]
        for i, part in enumerate(fx):
            slot = vadd(s.p, const(part[1]))
            got = [e for e in C.flat(p.ev) if rel(e) and rel(e)[1] is C.ld(slot)]
            claimed |= {id(e) for e in got}
            if part[1] in d["subs"]:
                want = "cee_del"
            elif mode == "slots":
                want = exp[pol[offs[i][:2]]]
            elif mode == "all":
                want = exp[pol]
            else:
                want = None        # a closure does not own its environment
            isnull = it.reduce(p.st, it.load(p.st, slot, 8, None, "ptr")) is ZERO
            names = [e.name for e in got]
            ok = names == ([want] if want else []) or (isnull and not names)
            ctx.check(ok, "delete", "%s/slot%d" % (key, part[1]), "the object at offset %d gets %s instead of %s under policy %s" %
                      (part[1], names, want, pol), w0)
        for part in parts:
            if part[0] == "array":
                want = exp[pol]
                base = part[1](it, s)
                cnt = K.count_of(c, it, s, part)

                def ahit(e):
                    r = rel(e)
                    if r is None or (want and r[0] != want):
                        return None
                    x = r[1].single()
                    return x.args[0] if x is not None and x.kind == "ld" else None
                other = [e for e in C.flat(p.ev) if rel(e) and id(e) not in claimed and (want is None or rel(e)[0] != want)]
                ctx.check(not other, "delete", key + "/other", "under policy %s an element gets %s" % (pol, other and other[0].name), w0)
                if want:
                    cov = C.covers(it, p.st, [e for e in p.ev if id(e) not in claimed], ahit, base, cnt)
                    ctx.check(cov.ok, "delete", key + "/elements", "under policy %s: %s" % (pol, cov.why), w0)
                claimed |= {id(e) for e in C.flat(p.ev) if rel(e)}
            elif part[0] == "tree":
                want = exp[pol] if pol is not None else "cee_del"
                for l in K.tree_loops(p):
                    for evs, nxt, s2, env in l.lp["iters"]:
                        root, node = K.node_of(evs)
                        got = [e for e in C.flat(evs) if rel(e)]
                        claimed |= {id(e) for e in got}
                        ok = [rel(e)[0] for e in got] == ([want] if want else []) and all(rel(e)[1] is C.ld(node) for e in got)
                        ctx.check(ok, "delete", key + "/node", "under policy %s a tree element gets %s instead of %s" %
                                  (pol, [e.name for e in got], want), w0)
                    claimed |= {id(e) for e in C.flat(l.exit) if rel(e)}
                if want:
                    ctx.check(len(K.tree_loops(p)) == 1, "delete", key + "/walk", "the tree is walked %d times" % len(K.tree_loops(p)), w0)
        rest = [e for e in C.flat(p.ev) if rel(e) and id(e) not in claimed]
        ctx.check(not rest, "delete", key + "/else", "releases %r, which it does not hold" % (rest and rest[0].args[0],), w0)
    ctx.sample("%s policy %s: %d path(s)" % (n, pol if pol is not None else "-", len(ps)))


def index(ctx, c, n, d, offs):
    """element i is released with policy i"""
    s = K.shaped(c, d["off"], "inner")
    it = c.interp(opaque=(K.opaque(c.prog) - K.WALKERS))
    f = c.prog.find(d["trace"])
    w0 = "%s:%d (%s)" % (f.loc() + (d["trace"],))
    for p in it.run(d["trace"], [s.p, const(c.FOLLOW)], s.st):
        if p.kind != "ret":
            continue
        for e in C.flat(p.ev):
            if e.kind == "call" and e.name == "cee_del_e":
                a, x = C.strip(e.args[0]).single(), C.strip(e.args[1]).single()
                ok = a is not None and x is not None and a.kind == "ld" and x.kind == "ld"
                if ok:
                    ra = vsub(vsub(a.args[0], C.strip(s.p)), const(offs[0][0]))
                    rx = vsub(x.args[0], C.strip(s.p))
                    ok = vscale(ra, 2) is rx
                ctx.check(ok, "delete", n + "/index", "element at %r is released with the policy at %r" % (e.args[1], e.args[0]), w0)
    ctx.used(it)


def clear(ctx, c, d, offs, pol):
    f = c.fn("cee_set_clear")
    w0 = "%s:%d (cee_set_clear)" % f.loc()
    s = K.shaped(c, d["off"], "inner")
    it = c.interp(opaque=(K.opaque(c.prog) - K.WALKERS) - {"cee_del_e"})
    it.lazy = K.policy_lazy(c, s, offs, pol)
    exp = {c.RC: "cee_del_ref", c.DEL: "cee_del", c.NOOP: None}[pol]
    for p in it.run("cee_set_clear", [s.p], s.st):
        if p.kind != "ret":
            continue
        ls = K.tree_loops(p)
        ctx.check(len(ls) == 1, "clear", "cee_set_clear/walk", "the set's tree is destroyed %d times" % len(ls), w0)
        for l in ls:
            for evs, nxt, s2, env in l.lp["iters"]:
                root, node = K.node_of(evs)
                got = [e for e in C.flat(evs) if e.kind == "call" and e.name in RELEASE]
                ok = [e.name for e in got] == ([exp] if exp else []) and all(C.strip(e.args[0]) is C.ld(node) for e in got) \
                    and C.strip(root) is C.ld(s.p)
                ctx.check(ok, "clear", "cee_set_clear/node", "under policy %d an element gets %s instead of %s" % (pol, [e.name for e in got], exp), w0)
        root = it.reduce(p.st, it.load(p.st, s.p, 8, None, "ptr"))
        ctx.check(root is ZERO, "clear", "cee_set_clear/root", "the destroyed tree is still the set's tree", w0)
        n = [q.ret for q in c.interp().run("cee_set_size", [s.p], p.st) if q.kind == "ret"]
        ctx.check(n and all(x is ZERO for x in n), "clear", "cee_set_clear/size", "a cleared set has size %s" % n, w0)
    ctx.used(it)
