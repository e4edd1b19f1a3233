"""P04: the primitives that count references and apply deletion policies."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

MIN = {"count": 100, "release": 100, "null": 12, "observe": 4}
EXPLAIN = ("Each primitive (cee_incr_indegree, cee_decr_indegree, cee_del_e, cee_del_ref, cee_del, cee_trace, get_in_degree) is analysed for "
           "every policy and every abstract header state (retained 0/1 x in_degree 0, 1, 2, n). Rule count: the final in_degree and "
           "retained bit equal the reference table and no other header bit changes. Rule release: the object's delete action is "
           "invoked, following, exactly when the reference table says so. Rule null: a NULL object is left alone.")
ASSUME = ["in_degree does not exceed its 16 bits"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        for pol in (c.RC, c.DEL, c.NOOP):
            for ret in (0, 1):
                for deg in (0, 1, 2, None):
                    table(ctx, c, pol, ret, deg)
        null(ctx, c)
        observe(ctx, c)


def start(c, ret, deg, other=0):
    st = A.State()
    p = vadd(K.obj("o"), const(128))
    sect = vadd(p, const(-c.SECT))
    bo, w = c.RET
    K.put(st, vadd(sect, const(bo // 8)), const((ret << (bo % 8)) | (other & ~(1 << (bo % 8)))), 1, ("struct.cee_sect", bo // 8), "i8")
    d = const(deg) if deg is not None else None
    if d is not None:
        K.put(st, vadd(sect, const(c.INDEG)), d, 2, ("struct.cee_sect", c.INDEG), "i16")
    return st, p, sect


def want(c, fn, pol, ret, deg):
    """-> (delta of in_degree, retained, deletions) for known in_degree; None = the operation is reported as an error"""
    rc = (0 if ret else 1)
    dec = (-1 if deg else 0)
    if fn == "incr":
        return {c.RC: (rc, ret, 0), c.DEL: (0, 1, 0), c.NOOP: (0, ret, 0)}[pol]
    if fn == "decr":
        if pol == c.DEL:
            return (0, 0, 0) if ret else None
        return {c.RC: (0 if ret else dec, ret, 0), c.NOOP: (0, ret, 0)}[pol]
    if fn == "del_ref":
        gone = not ret and deg in (0, 1)
        return (dec, ret, 1 if gone else 0)
    if fn == "del_e":
        return {c.RC: want(c, "del_ref", pol, ret, deg), c.DEL: (0, ret, 1), c.NOOP: (0, ret, 0)}[pol]


FN = {"incr": "cee_incr_indegree", "decr": "cee_decr_indegree", "del_e": "cee_del_e", "del_ref": "cee_del_ref"}


def table(ctx, c, pol, ret, deg):
    for k, n in FN.items():
        if k == "del_ref" and pol != c.RC:
            continue
        f = c.fn(n)
        w0 = "%s:%d (%s)" % (f.loc() + (n,))
        bo, w = c.RET
        for other in (0, 0x55 & ~(1 << (bo % 8))):
            st, p, sect = start(c, ret, deg, other)
            it = c.interp(opaque=K.musl(c.prog))
            if deg is None:
                # "n": some value >= 3
                n0 = it.load(st, vadd(sect, const(c.INDEG)), 2, ("struct.cee_sect", c.INDEG), "i16")
                st.le = st.le + (vsub(const(3), A.op("zext", 16, n0)), vsub(const(3), n0))
            else:
                n0 = const(deg)
            args = [p] if k == "del_ref" else [const(pol), p]
            key = "%s/policy%d" % (n, pol)
            exp = want(c, k, pol, ret, deg if deg is not None else 3)
            for q in it.run(n, args, st):
                if q.kind != "ret":
                    ctx.check(exp is None, "count", key + "/abort", "aborts although the operation is valid (retained %d, in_degree %s)" % (ret, deg), w0)
                    continue
                if exp is None:
                    # giving up ownership nobody holds: reported or ignored, never counted
                    exp2 = (0, 0, 0)
                else:
                    exp2 = exp
                ev = [e for e in C.flat(q.ev) if e.kind == "icall"]
                dels = [e for e in ev if C.strip(e.fn) is C.ld(vadd(sect, const(c.TRACE)))]
                good = [e for e in dels if e.args[0] is p and e.args[1] is const(c.FOLLOW)]
                okd = len(ev) == len(dels) == len(good) == exp2[2]
                ctx.check(okd, "release", key, "deletes the object %d times instead of %d (retained %d, in_degree %s)" %
                          (len(ev), exp2[2], ret, deg), w0)
                if exp2[2]:
                    # once it is deleted nothing of it may be touched
                    fl = list(C.flat(q.ev))
                    i = fl.index(ev[0]) if ev else len(fl)
                    late = [e for e in fl[i + 1:] if e.kind == "store" and vsub(e.addr, sect).is_const()]
                    ctx.check(not late, "release", key + "/after", "writes to the object after deleting it", w0)
                    if k == "del_e" or k == "del_ref":
                        continue        # the counters of a deleted object do not matter
                v = it.reduce(q.st, it.load(q.st, vadd(sect, const(c.INDEG)), 2, ("struct.cee_sect", c.INDEG), "i16"))
                d = delta(it, q.st, v, n0, deg)
                ctx.check(d == exp2[0], "count", key, "changes in_degree by %s instead of %d (retained %d, in_degree %s)" %
                          (d, exp2[0], ret, "n" if deg is None else deg), w0)
                b = it.reduce(q.st, it.load(q.st, vadd(sect, const(bo // 8)), 1, ("struct.cee_sect", bo // 8), "i8"))
                ctx.check(b is const((exp2[1] << (bo % 8)) | other), "count", key + "/bits",
                          "leaves header bits %r instead of retained=%d and the others unchanged" % (b, exp2[1]), w0)
            ctx.used(it)


def delta(it, st, v, n0, deg):
    if deg is not None:
        return v.c - deg if v.is_const() else repr(v)
    for k in (0, 1, -1):
        if v is vadd(n0, const(k)):
            return k
    a = v.single()
    if a is not None and a.kind == "op":        # trunc(zext(n)+k)
        for k in (0, 1, -1):
            if any(isinstance(x, A.V) and (x is vadd(A.op("zext", 16, n0), const(k)) or x is vadd(n0, const(k))) for x in a.args):
                return k
    return repr(v)


def null(ctx, c):
    for n, args in (("cee_del", [ZERO]), ("cee_del_ref", [ZERO]), ("cee_trace", [ZERO, const(c.TMARK)]), ("cee_trace", [ZERO, const(c.FOLLOW)]),
                    ("cee_del_e", [const(c.RC), ZERO]), ("cee_del_e", [const(c.DEL), ZERO]),
                    *[(fn, [const(o), ZERO]) for fn in ("cee_incr_indegree", "cee_decr_indegree") for o in (c.RC, c.DEL, c.NOOP)]):
        f = c.fn(n)
        it = c.interp(opaque=K.musl(c.prog), loads=True)
        w0 = "%s:%d (%s)" % (f.loc() + (n,))
        for p in it.run(n, args):
            bad = [e for e in C.flat(p.ev) if e.kind in ("icall", "free") or (e.kind in ("load", "store") and e.addr.is_const())]
            ctx.check(p.kind == "ret" and not bad, "null", n, "touches a NULL object", w0)
        ctx.used(it)


def observe(ctx, c):
    st, p, sect = start(c, 0, 7)
    it = c.interp(opaque=K.musl(c.prog))
    for q in it.run("get_in_degree", [p], st):
        ctx.check(q.ret is const(7), "observe", "get_in_degree", "returns %r for an object with in_degree 7" % q.ret)
    ctx.used(it)
    # cee_del / cee_trace hand the object and the action to the object's own action
    for n, args, act in (("cee_del", [p], c.FOLLOW), ("cee_trace", [p, const(c.NO_FOLLOW)], c.NO_FOLLOW),
                         ("cee_trace", [p, const(c.TMARK + 1)], c.TMARK + 1)):
        it = c.interp(opaque=K.musl(c.prog))
        for q in it.run(n, args, st):
            ev = [e for e in C.flat(q.ev) if e.kind == "icall"]
            ok = len(ev) == 1 and C.strip(ev[0].fn) is C.ld(vadd(sect, const(c.TRACE))) and ev[0].args[0] is p and ev[0].args[1] is const(act)
            ctx.check(ok, "observe", n, "does not run the object's own action with %d" % act)
        ctx.used(it)
