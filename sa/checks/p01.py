"""
Effect analysis of every public constructor, of every object class's delete action, of every operation that may move an
object, and of state deletion: on each path the final abstract heap must be a consistent trace chain.
"""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

EXPLAIN = """Rules: (linked) on every path of every public core function each object it creates is, when the function
returns, on its state's chain exactly once with consistent forward/backward links, ends the chain properly and carries
clean collector fields; (unlink) each object class's delete action, for the object at the end / in the middle / before the
end of the chain, leaves its neighbours linked, frees the object's block and everything only it owns exactly once and
touches nothing afterwards; (own) a non-following delete reaches no other object; (move) operations that may move an
object keep the chain consistent; (state) deleting a state deletes every chained object without following and then the
state; (leak) temporary storage is released or handed over on every path.  Inputs, sizes, chains are symbolic."""

MIN = {"linked": 80, "unlink": 150, "own": 45, "move": 12, "state": 2, "leak": 90}

TREES = ("cee_map_mk_e", "cee_set_mk_e")
HASHES = ("cee_dict_mk_e",)


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        cls = K.classes(c)
        for n in K.public(c.prog, "core"):
            if c.prog.find(n).ret.kind == "ptr" and ("_mk" in n or n.startswith("cee_boxed_from_")):
                ctx.must(n in cls, "%s gives no object with a header and a trace action" % n)
        linked(ctx, c)
        traces = {}
        for n, d in cls.items():
            traces.setdefault(d["trace"], []).append((n, d))
        state_trace = cls["cee_state_mk"]["trace"] if "cee_state_mk" in cls else None
        ctx.must(state_trace, "cee_state_mk creates no object")
        for t, users in sorted(traces.items()):
            if t != state_trace:
                unlink(ctx, c, t, users)
        move(ctx, c, cls)
        state(ctx, c, cls["cee_state_mk"])


def linked(ctx, c):
    for n in K.public(c.prog, "core"):
        f = c.prog.find(n)
        it = c.interp()
        it.lazy = c.lazy_chain()
        ps = it.run(n)
        ctx.used(it)
        for p in ps:
            for e in K.problems(p):
                ctx.fail("linked", n + "/" + e.kind, "%s of %r" % (e.kind, e.d.get("addr", e.d.get("p"))), e.where())
            leak(ctx, c, n, it, p)
            if p.kind != "ret":
                continue
            made = c.created(p)
            if made:
                check_chain(ctx, c, n, it, p, made)


def check_chain(ctx, c, n, it, p, made):
    st = p.st
    freed = [q for q, e in st.freed]
    sects = {}
    for s, h, e in made:
        sects[s] = (h, e)
    gone = set()
    for s, (h, e) in sects.items():
        if any(q.t and q.t[0][0] is h for q in freed):
            gone.add(s)
    eaten = set()
    for e in p.ev:
        if e.kind == "call" and e.name in K.DELETERS:
            for a in e.args:
                for s in sects:
                    if vsub(a, s).is_const():
                        eaten.add(s)
    states = {}
    for s in sects:
        if s in gone:
            continue
        T = c.field(it, st, s, c.STATE)
        if T is ZERO and vadd(s, const(c.SECT)) in [c.field(it, st, x, c.STATE) for x in sects]:
            T = vadd(s, const(c.SECT))          # the state's own record
        states.setdefault(T, []).append(s)
    for T, mine in states.items():
        key = n
        where = sects[mine[0]][1].where()
        if T.is_const():
            ctx.check(False, "linked", key, "the object records no state", where)
            continue
        cur = c.tail(it, st, T)
        seen = []
        bad = None
        nxt = None
        own = vadd(T, const(-c.SECT))
        while cur in sects and len(seen) < 50:
            if cur in gone:
                bad = "a freed object is still on the chain"
                break
            seen.append(cur)
            fw = c.field(it, st, cur, c.NEXT)
            if nxt is None:
                if fw is not ZERO:
                    bad = "the last object of the chain has successor %r" % fw
                    break
            elif fw is not nxt:
                bad = "an object's successor is %r, not the object linked behind it" % fw
                break
            nxt = cur
            if cur is own:
                break
            cur = c.field(it, st, cur, c.PREV)
        else:
            if seen and not bad:
                fw = c.field(it, st, cur, c.NEXT)
                if fw is not nxt:
                    bad = "the previous end of the chain does not point to the new object"
                s = cur.single()
                if not bad and not (s is not None and s.kind == "heap" and s.args[1] == "end"):
                    bad = "the new objects are linked behind %r, not behind the previous end of the chain" % cur
        if not bad:
            for s in mine:
                k = seen.count(s)
                if k != 1 and s not in eaten:
                    bad = "an object it creates is on the chain %d times" % k
            if len(set(seen)) != len(seen):
                bad = "the chain is cyclic"
        ctx.check(not bad, "linked", key, bad or "", where)
        for s in mine:
            if s in eaten:
                continue
            for nm, b in (("retained", c.RET), ("gc_mark", c.MARK)):
                v = c.bits(it, st, s, b)
                ctx.check(v == 0, "linked", n + "/" + nm, "new object starts with %s=%s" % (nm, v), sects[s][1].where())
            v = c.field(it, st, s, c.INDEG, 2)
            ctx.check(v is ZERO, "linked", n + "/in_degree", "new object starts with in_degree %r" % v, sects[s][1].where())
        ctx.sample("%s: chain through %d new object(s) of state %r consistent" % (n, len(mine), T))


def leak(ctx, c, n, it, p):
    """every block allocated on a path is freed, returned, stored, or handed to another function"""
    if p.kind != "ret":
        return
    for e in C.flat(p.ev):
        if e.kind not in ("alloc", "realloc"):
            continue
        h = e.ret.t[0][0]

        def refers(v):
            return v is not None and any(x is h for x, k in v.t)
        ok = refers(p.ret)
        for x in C.flat(p.ev):
            if ok:
                break
            if x.kind == "free" and refers(x.p):
                ok = True
            elif x.kind == "realloc" and refers(x.old):
                ok = True
            elif x.kind in ("store",) and refers(x.val):
                b = it.base_of(x.addr)
                if not (b is not None and b.kind == "alloca"):
                    ok = True
            elif x.kind in ("call", "icall", "rcall") and any(refers(a) for a in x.args):
                if x.kind != "call" or (x.d.get("defined") and x.name in (K.DELETERS | K.musl(c.prog))):
                    ok = True
        ctx.check(ok, "leak", "%s/%s" % (n, e.fn if e.kind == "alloc" else "realloc"),
                  "memory obtained here is neither released nor handed over on a path", e.where())


def unlink(ctx, c, t, users):
    offs = {d["off"] for _, d in users}
    ctx.need(len(offs) == 1, "objects with delete action %s start at different offsets %s" % (t, offs))
    off = offs.pop()
    aux = sorted({a for _, d in users for a in d["aux"]})
    names = [n for n, _ in users]
    cn = t
    for act, an in ((c.NO_FOLLOW, "no-follow"), (c.FOLLOW, "follow")):
        for kind in K.SHAPES:
            s = K.shaped(c, off, kind)
            s2 = K.relinked(c, s)
            it = c.interp(loads=True, models=relinking(c, s2))
            ps = it.run(t, [s.p, const(act)], s.st)
            inloop = any(loops_deleting(p) for p in ps)
            if inloop:
                s = K.shaped(c, off, kind)
                it = c.interp(loads=True)
                ps = it.run(t, [s.p, const(act)], s.st)
            ctx.used(it)
            key = "%s/%s" % (t, an)
            f = c.prog.find(t)
            w0 = "%s:%d (%s)" % (f.loc() + (t,))
            ctx.check(bool([p for p in ps if p.kind == "ret"]), "unlink", key + "/returns", "the delete action never returns", w0)
            for p in ps:
                if p.kind != "ret":
                    continue
                for e in K.problems(p):
                    ctx.fail("unlink", key + "/" + e.kind, "%s of %r" % (e.kind, e.d.get("addr", e.d.get("p"))), e.where())
                moved = any(e.kind == "relink" for e in p.ev)
                bad = K.unlinked(c, it, p.st, s2 if moved else s)
                ctx.check(not bad, "unlink", key + "/chain", "object (%s of chain): %s" % (kind, bad), w0)
                frees = [e for e in C.flat(p.ev) if e.kind == "free"]
                k = sum(1 for e in frees if e.p is s.block)
                ctx.check(k == 1, "unlink", key + "/block", "the object's block is freed %d times on a path" % k,
                          frees[-1].where() if frees else w0)
                for a in aux:
                    v = C.ld(vadd(s.p, const(a)), "ptr")
                    k = sum(1 for e in frees if C.strip(e.p) is v)
                    ctx.check(k == 1, "unlink", key + "/aux", "the block it owns (at offset %d) is freed %d times" % (a, k), w0)
                if inloop:
                    stale(ctx, c, key, p, s)
                if any(n in TREES for n in names):
                    r = C.ld(s.p, "ptr")
                    calls = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "musl_tdestroy" and C.strip(e.args[1]) is r]
                    ctx.check(len(calls) == 1, "unlink", key + "/tree", "its search tree is destroyed %d times" % len(calls), w0)
                if any(n in HASHES for n in names):
                    calls = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "musl_hdestroy_r" and e.args[0] is s.p]
                    ctx.check(len(calls) == 1, "unlink", key + "/table", "its hash table is destroyed %d times" % len(calls), w0)
                if act == c.NO_FOLLOW:
                    for e in C.flat(p.ev):
                        touch = None
                        if e.kind == "call" and e.name in (K.DELETERS | K.COUNTERS | K.TRACERS):
                            touch = e.name
                        elif e.kind == "icall":
                            touch = "an indirect call"
                        elif e.kind == "call" and e.name in ("musl_tdestroy", "musl_twalk") and e.args[2] is not ZERO:
                            touch = "an element callback"
                        if touch:
                            ctx.fail("own", key, "a delete that must not follow reaches other objects through %s" % touch, e.where())
                    ctx.ob("own")


def deletes(e):
    return e.kind == "call" and (e.name in K.DELETERS or (e.name == "musl_tdestroy" and e.args[2] is not ZERO))


def loops_deleting(p):
    return any(e.kind == "loop" and any(deletes(x) for i in e.lp["iters"] for x in C.flat(i[0])) for e in p.ev)


def relinking(c, s2):
    """deleting other objects changes which objects are next to this one on the chain"""
    def model(it, I, name, args, st):
        it.emit(st, "call", I, name=name, args=args, ret=ZERO, defined=True)
        if (name in K.DELETERS or args[2] is not ZERO) and s2.linked(it, st):
            s2.apply(st)
            it.emit(st, "relink", I)
        return [("ret", ZERO, st)]
    return {n: model for n in list(K.DELETERS) + ["musl_tdestroy"]}


def stale(ctx, c, key, p, s):
    """neighbour links read before other objects are deleted must not be used after it"""
    flat = list(C.flat(p.ev))
    first = last = None
    links = {vadd(s.X, const(c.PREV)), vadd(s.X, const(c.NEXT)), vadd(s.T, const(c.TAIL))}
    for i, e in enumerate(flat):
        if e.kind == "load" and e.addr in links and first is None:
            first = i
        if e.kind == "store" and e.tag in (("struct.cee_sect", c.NEXT), ("struct.cee_sect", c.PREV), ("struct.cee_state", c.TAIL)):
            last = i
    if first is None or last is None:
        return
    for e in flat[first:last]:
        if (e.kind == "call" and (e.name in K.DELETERS or (e.name == "musl_tdestroy" and e.args[2] is not ZERO))) or e.kind == "icall":
            ctx.fail("unlink", key + "/stale", "links read before deleting other objects are used after it", e.where())
            break
    ctx.ob("unlink")


MOVERS = {"cee_str_add": [None, av(A.atom("arg", 1, "c"))], "cee_str_catf": None, "cee_str_replace": None}


def move(ctx, c, cls):
    d = cls.get("cee_str_mk")
    ctx.must(d, "cee_str_mk creates no object")
    lo, w = c.RES
    for n in ("cee_str_add", "cee_str_catf", "cee_str_replace"):
        f = c.fn(n)
        for meth in (1, 2):
            for kind in K.SHAPES:
                s = K.shaped(c, d["off"], kind, bits=(meth << (lo % 8)))
                it = c.interp()
                args = [s.p] + [it.arg(f, i) for i in range(1, len(f.params))]
                ps = it.run(n, args, s.st)
                ctx.used(it)
                key = "%s/method%d" % (n, meth)
                for p in ps:
                    if p.kind != "ret":
                        continue
                    for e in K.problems(p):
                        ctx.fail("move", key + "/" + e.kind, "%s of %r" % (e.kind, e.d.get("addr", e.d.get("p"))), e.where())
                    moved(ctx, c, key, it, p, s)


def moved(ctx, c, key, it, p, s):
    w = p.ev[-1].where() if p.ev else key
    if p.ret is s.p:
        ok = c.tail(it, p.st, s.T) is s.Q and c.field(it, p.st, s.X, c.PREV) is s.P and c.field(it, p.st, s.X, c.NEXT) is s.N
        ctx.check(ok, "move", key, "the object stayed in place but its links changed", w)
        return
    if p.ret is ZERO:
        return
    Y = vadd(p.ret, const(-c.SECT))
    gone = any(vsub(q, s.block).is_const() for q, e in p.st.freed)
    # expected chain after the operation, forward
    chain = [s.P] + ([] if gone else [s.X]) + ([s.N] if s.kind != "tail" else [])
    if s.kind == "inner":
        segs = [chain, [s.Q, Y]]
    else:
        segs = [chain + [Y]]
    bad = None
    for seg in segs:
        for a, b in zip(seg, seg[1:]):
            if c.field(it, p.st, a, c.NEXT) is not b:
                bad = "successor of %r is %r, not %r" % (a, c.field(it, p.st, a, c.NEXT), b)
            elif c.field(it, p.st, b, c.PREV) is not a:
                bad = "predecessor of %r is %r, not %r" % (b, c.field(it, p.st, b, c.PREV), a)
            if bad:
                break
    if not bad and c.field(it, p.st, Y, c.NEXT) is not ZERO:
        bad = "the moved object's successor is %r although it is last" % c.field(it, p.st, Y, c.NEXT)
    if not bad and c.tail(it, p.st, s.T) is not Y:
        bad = "the chain does not end with the moved object"
    if not bad and c.field(it, p.st, Y, c.STATE) is not s.T:
        bad = "the moved object belongs to %r" % c.field(it, p.st, Y, c.STATE)
    if not bad and not gone:
        nb = vsub(p.ret, vsub(s.p, s.block))
        cp = [e for e in p.ev if e.kind == "copy" and e.dst is nb and e.src is s.block]
        if len(cp) != 1 or C.strip(cp[0].n) is not C.ld(vadd(s.X, const(c.BLK))):
            bad = "the moved object is not a copy of the whole original block"
    ctx.check(not bad, "move", key, "moving the object (%s of chain): %s" % (s.kind, bad), w)


def state(ctx, c, d):
    """deleting a state: delete the end of the chain, without following, until only the state is left; then free it"""
    t = d["trace"]
    blk = K.obj("ST")
    T = vadd(blk, const(d["off"]))
    own = vadd(T, const(-c.SECT))
    ta = vadd(T, const(c.TAIL))

    def model(it, I, name, args, st):
        it.emit(st, "call", I, name=name, args=args, ret=ZERO, defined=True)
        st.mem[ta] = (av(A.atom("ret", it.fresh(), "tail")), 8, ("struct.cee_state", c.TAIL), "ptr")
        return [("ret", ZERO, st)]
    it = c.interp(models={"cee_trace": model, "cee_del": model, "cee_del_e": model, "cee_del_ref": model})
    st = A.State()
    K.put(st, ta, av(A.atom("heap", K._uid[0] - 5, "tail0")), 8, ("struct.cee_state", c.TAIL), "ptr")
    st.mem[ta] = (av(A.atom("ret", -7, "tail0")), 8, ("struct.cee_state", c.TAIL), "ptr")
    ps = [p for p in it.run(t, [T, const(c.FOLLOW)], st) if p.kind == "ret"]
    ctx.used(it)
    f = c.prog.find(t)
    w0 = "%s:%d (%s)" % (f.loc() + (t,))
    ctx.must(ps, "deleting a state never returns")
    for p in ps:
        bad = None
        where = w0
        frees = [e for e in C.flat(p.ev) if e.kind == "free"]
        if [e.p for e in frees if e.p is blk] != [blk]:
            bad = "the state's own block is freed %d times" % len([e for e in frees if e.p is blk])
        for e in K.problems(p):
            bad = "%s of %r" % (e.kind, e.d.get("addr", e.d.get("p")))
            where = e.where()
        for e in C.flat(p.ev):
            if e.kind == "free" and e.p is not blk:
                bad, where = "frees %r" % e.p, e.where()
            if e.kind == "call" and e.name in K.DELETERS | K.TRACERS:
                if e.name != "cee_trace" or e.args[1] is not const(c.NO_FOLLOW):
                    bad, where = "deletes a chained object in a way that follows its pointers", e.where()
            if e.kind == "icall":
                if len(e.args) < 2 or e.args[1] is not const(c.NO_FOLLOW):
                    bad, where = "deletes a chained object in a way that follows its pointers", e.where()
        loops = [e for e in p.ev if e.kind == "loop"]
        if not bad and len(loops) != 1:
            # without a loop only correct when the chain is known to be empty
            end = it.reduce(p.st, it.load(p.st, ta, 8, ("struct.cee_state", c.TAIL), "ptr"))
            if end is not own:
                bad = "the chained objects are not deleted"
        if not bad and loops:
            lp = loops[0].lp
            for evs, nxt, s2, env in lp["iters"]:
                calls = [e for e in C.flat(evs) if e.kind == "call" and e.name == "cee_trace" or e.kind == "icall"]
                if len(calls) != 1:
                    bad = "an iteration deletes %d objects" % len(calls)
                    break
            # leaving the loop: the end of the chain must be the state's own record
            end = it.reduce(p.st, it.load(p.st, ta, 8, ("struct.cee_state", c.TAIL), "ptr"))
            if not bad and end is not own and vsub(C.strip(end), own) is not ZERO:
                k = it.canon(p.st, "eq", end, own)
                kk = k[0] if isinstance(k[0], bool) else it.known(p.st, k[0])
                if kk is not True:
                    bad = "stops before only the state itself is left on the chain (end is %r)" % end
            # each deleted object is the current end of the chain
            if not bad:
                for evs, nxt, s2, env in lp["iters"]:
                    heads = [av(a) for a in lp["mem"].values()] + [av(a) for a, i in lp["phis"].values()]
                    for e in evs:
                        if e.kind == "call" and e.name == "cee_trace":
                            x = vadd(e.args[0], const(-c.SECT))
                            if not any(x is h for h in heads):
                                bad, where = "deletes %r, which is not the end of the chain" % x, e.where()
        ctx.check(not bad, "state", t, bad or "", where)
