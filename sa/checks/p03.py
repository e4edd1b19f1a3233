"""P03: a collection deletes exactly the unmarked objects; roots and contexts."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

MIN = {"phase": 8, "sweep": 8, "alternate": 8, "root": 20}
EXPLAIN = ("cee_state_gc is analysed for next_mark 0 and 1 and for objects carrying either mark (the flag byte of every chained object is "
           "seeded with it). Rule phase: the state is marked with MARK+next_mark before anything is deleted. Rule sweep: the walk over "
           "the trace chain starts at an end of it, advances along links read before the object is deleted, runs to the other end, and "
           "deletes (without following) an object iff its mark differs. Rule alternate: next_mark flips. Rule root: roots and contexts "
           "are added, found and removed through the set/map that the state's mark action visits.")
ASSUME = ["marking does not change the chain", "each object's delete action unlinks it (P01)"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        nm = c.L.off("cee_state", "next_mark")
        for mark in (0, 1):
            for obj in (0, 1):
                gc(ctx, c, nm, mark, obj)
        roots(ctx, c)


def gc(ctx, c, nm, mark, objmark):
    cls = K.classes(c)
    d = cls["cee_state_mk"]
    f = c.fn("cee_state_gc")
    w0 = "%s:%d (cee_state_gc)" % f.loc()
    it = c.interp(loads=True)
    st = A.State()
    blk = K.obj("ST")
    T = vadd(blk, const(d["off"]))
    own = vadd(T, const(-c.SECT))
    K.put(st, vadd(T, const(nm)), const(mark), 4, ("struct.cee_state", nm), "i32")
    bo, w = c.MARK

    def lazy(itp, s, addr, size, tag):
        if size != 1:
            return None
        if addr is own:
            return const(mark << (bo % 8))      # the state itself was just marked
        return const(objmark << (bo % 8))
    it.lazy = lazy
    ta = const(c.TMARK + mark)
    ps = [p for p in it.run("cee_state_gc", [T], st) if p.kind == "ret"]
    ctx.used(it)
    ctx.must(ps, "cee_state_gc never returns")
    key = "cee_state_gc"
    T_ = lambda e: K.visits(c, e, {"cee_trace"})
    for p in ps:
        v = it.reduce(p.st, it.load(p.st, vadd(T, const(nm)), 4, ("struct.cee_state", nm), "i32"))
        ctx.check(v is const(1 - mark), "alternate", key, "after a collection with mark %d the next mark is %r" % (mark, v), w0)
        # phase: first visit is the mark of the state
        flat = [e for e in C.flat(p.ev) if T_(e) is not None or (e.kind == "call" and e.name in K.DELETERS) or e.kind in ("free", "icall")]
        ok = bool(flat) and T_(flat[0]) is not None and T_(flat[0])[0] is T and T_(flat[0])[1] is ta
        ctx.check(ok, "phase", key, "a collection does not start by marking from the state with the current mark", w0)
        marks = [e for e in p.ev if T_(e) is not None and T_(e)[0] is T and T_(e)[1] is ta]
        loops = [e for e in p.ev if e.kind == "loop"]
        bad = sweep(ctx, c, it, p, loops, T, own, mark, objmark, T_, flat[1:] if ok else flat)
        ctx.check(not bad, "sweep", key, bad or "", w0)


def sweep(ctx, c, it, p, loops, T, own, mark, objmark, T_, dels):
    if len(loops) != 1:
        return "the chain is walked by %d loops" % len(loops)
    lp = loops[0].lp
    heads = {av(a): i for a, i in lp["phis"].values()}
    heads.update({av(x): None for x in lp["mem"].values()})
    if len(lp["phis"]) < 1:
        return "the walk does not advance"
    cur = None
    inl = [x for itx in lp["iters"] for x in C.flat(itx[0])] + list(C.flat(loops[0].exit))
    for e in dels:
        if not any(e is x for x in inl):
            return "deletes an object outside the walk over the chain (%s)" % e.where()
    for evs, nxt, s2, env in lp["iters"]:
        fl = list(C.flat(evs))
        # which phi is the cursor: advances by its own link
        for nme, (a, init) in lp["phis"].items():
            for off, fwd in ((c.NEXT, True), (c.PREV, False)):
                if C.strip(nxt[nme]) is C.ld(vadd(av(a), const(off))):
                    if cur is not None and cur[:3] != (nme, off, fwd):
                        return "the walk advances along different links"
                    cur = (nme, off, fwd, a, init)
    if cur is None:
        return "no cursor advances along the chain"
    nme, off, fwd, a, init = cur
    i0 = C.strip(init)
    if fwd:
        if i0 is not own and i0 is not C.ld(vadd(own, const(c.NEXT))):
            return "the walk starts at %r, not at the start of the chain" % init
    elif i0 is not C.ld(vadd(T, const(c.TAIL))):
        return "the walk starts at %r, not at the end of the chain" % init
    # leaving the loop: the end was reached
    x = it.reduce(p.st, av(a))
    end = x is ZERO or (not fwd and (x is own))
    if not end and it.known(p.st, ("eq", av(a), own)) is not True and it.known(p.st, ("eq", own, av(a))) is not True:
        k = it.canon(p.st, "eq", av(a), ZERO, True)
        kk = k[0] if isinstance(k[0], bool) else it.known(p.st, k[0])
        if kk is not True:
            return "the walk can stop before the end of the chain"
    for evs, nxt, s2, env in lp["iters"]:
        if C.strip(nxt[nme]) is not C.ld(vadd(av(a), const(off))):
            return "an iteration advances to %r" % nxt[nme]
        fl = list(C.flat(evs))
        hit = [k for k, e in enumerate(fl) if T_(e) is not None or (e.kind == "call" and e.name in K.DELETERS)]
        rd = [k for k, e in enumerate(fl) if e.kind == "load" and e.addr is vadd(av(a), const(off))]
        want = 1 if objmark != mark else 0
        if len(hit) != want:
            return "an object marked %d is deleted %d times by a collection with mark %d" % (objmark, len(hit), mark)
        for k in hit:
            e = fl[k]
            if T_(e) is None or T_(e)[0] is not vadd(av(a), const(c.SECT)) or T_(e)[1] is not const(c.NO_FOLLOW):
                return "an unreachable object is deleted as %r" % e
            if not rd or rd[0] > k or rd[-1] > k:
                return "the link to the next object is read after the object is deleted"
    return None


def roots(ctx, c):
    cls = K.classes(c)
    d = cls["cee_state_mk"]
    L = c.L
    ro, co = L.off("cee_state", "roots"), L.off("cee_state", "contexts")
    T = K.obj("STATE")
    fns = {"cee_set_add", "cee_set_remove", "cee_set_find", "cee_map_add", "cee_map_add_e", "cee_map_remove", "cee_map_find"}
    want = {
        "cee_state_add_gc_root": ({"cee_set_add"}, ro, 1),
        "cee_state_remove_gc_root": ({"cee_set_remove"}, ro, 1),
        "cee_state_add_context": ({"cee_map_add", "cee_map_add_e"}, co, 2),
        "cee_state_remove_context": ({"cee_map_remove"}, co, 1),
        "cee_state_get_context": ({"cee_map_find"}, co, 1),
    }
    for n, (ops, off, k) in want.items():
        f = c.fn(n)
        it = c.interp(opaque=K.opaque(c.prog) | fns)
        w0 = "%s:%d (%s)" % (f.loc() + (n,))
        args = [T] + [it.arg(f, i) for i in range(1, len(f.params))]
        for p in it.run(n, args):
            if p.kind != "ret":
                continue
            calls = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in fns]
            ok = len(calls) == 1 and calls[0].name in ops and C.strip(calls[0].args[0]) is C.ld(vadd(T, const(off))) and \
                all(calls[0].args[1 + i] is args[1 + i] for i in range(k))
            if ok and calls[0].name == "cee_map_add_e":
                ok = calls[0].args[4] is ZERO
            ctx.check(ok, "root", n, "does not apply %s to its argument on the state's %s: %s" %
                      ("/".join(sorted(ops)), "roots" if off == ro else "contexts", [repr(x) for x in calls]), w0)
            if n == "cee_state_get_context":
                ctx.check(calls and p.ret is calls[0].ret, "root", n + "/result", "does not return what it found", w0)
        ctx.used(it)
    # construction: roots is a set of unmanaged elements ordered by address, contexts a map by key text
    it = c.interp(opaque=K.opaque(c.prog) | {"cee_set_mk_e", "cee_set_mk", "cee_map_mk", "cee_map_mk_e", "cee_stack_mk", "cee_stack_mk_e"})
    f = c.fn("cee_state_mk")
    w0 = "%s:%d (cee_state_mk)" % f.loc()
    for p in it.run("cee_state_mk"):
        if p.kind != "ret":
            continue
        mk = {e.ret: e for e in C.flat(p.ev) if e.kind == "call"}
        r = it.reduce(p.st, it.load(p.st, vadd(p.ret, const(ro)), 8, ("struct.cee_state", ro), "ptr"))
        x = it.reduce(p.st, it.load(p.st, vadd(p.ret, const(co)), 8, ("struct.cee_state", co), "ptr"))
        nm = it.reduce(p.st, it.load(p.st, vadd(p.ret, const(L.off("cee_state", "next_mark"))), 4, None, "i32"))
        e = mk.get(r)
        ok = e is not None and e.name == "cee_set_mk_e" and e.args[0] is p.ret and e.args[1] is const(c.NOOP)
        ctx.check(ok, "root", "cee_state_mk/roots", "roots is not a set of unmanaged elements of this state: %r" % (e or r), w0)
        if ok:
            s = e.args[2].single()
            ctx.check(s is not None and s.kind == "fn", "root", "cee_state_mk/cmp", "roots has no fixed order", w0)
            if s is not None and s.kind == "fn":
                order(ctx, c, s.args[0])
        e = mk.get(x)
        ok = e is not None and e.name in ("cee_map_mk", "cee_map_mk_e") and e.args[0] is p.ret and e.args[-1].single() is not None \
            and e.args[-1].single().kind == "fn" and e.args[-1].single().args[0] == "strcmp"
        ctx.check(ok, "root", "cee_state_mk/contexts", "contexts is not a map by key text of this state: %r" % (e or x), w0)
        ctx.check(nm is const(1), "root", "cee_state_mk/mark", "a new state starts with mark %r, the mark new objects carry" % nm, w0)
    ctx.used(it)


def order(ctx, c, fn):
    """the order of roots: 0 exactly for the same address, antisymmetric"""
    it = c.interp()
    f = c.fn(fn)
    w0 = "%s:%d (%s)" % (f.loc() + (fn,))
    a, b = av(A.atom("arg", 0, "a")), av(A.atom("arg", 1, "b"))
    r = {}
    for x, y, nm in ((ZERO, const(8), "lt"), (const(8), ZERO, "gt"), (const(8), const(8), "eq")):
        vs = {p.ret for p in it.run(fn, [vadd(x, const(4096)), vadd(y, const(4096))]) if p.kind == "ret"}
        r[nm] = vs.pop() if len(vs) == 1 else None
    ctx.used(it)
    ok = all(v is not None and v.is_const() for v in r.values()) and r["eq"].c == 0 and r["lt"].c * r["gt"].c < 0
    ctx.check(ok, "root", "order", "the order of roots is not consistent with address identity: %s" % r, w0)
