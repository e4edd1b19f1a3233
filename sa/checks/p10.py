"""P10: products, closures and environments give back what they were built from."""
import itertools
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S

MIN = {"slots": 40, "state": 20, "policy": 12, "call": 6, "find": 40}
EXPLAIN = ("Rule slots: the abstract effect of every product constructor (tuple, triple, quadruple, n-tuple of 0 to 16 elements, tagged value, "
           "environment, closure, singleton) on opaque arguments leaves each argument in its slot of the object returned; an n-tuple of more than 16 "
           "elements does not return. Rule state: cee_get_state of the object any core constructor returns is that constructor's state, on "
           "every abstract path. Rule policy: after cee_tuple_update_del_policy the deletion of the tuple releases that element under the new and the other "
           "under its old policy. Rule call: cee_closure_call makes one indirect call, to the closure's function, with the state, environment, "
           "count and a list of the given arguments in order, and returns its result. Rule find: cee_env_find on every chain of up to three "
           "environments (with and without variables, the key bound in any subset of them) gives the innermost value.")
ASSUME = ["maps find what they hold (P09)"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        slots(ctx, c)
        state(ctx, c)
        policy(ctx, c)
        call(ctx, c)
        find(ctx, c)


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


def guarded(ctx, w, f):
    try:
        r = f()
    except S.Many as e:
        r = str(e)
    if not r and w.bad:
        r = "%s at %s" % w.bad[0]
    ctx.used(w.it)
    return r


def pols(w, c, n):
    o = K.obj("o")
    for i in range(n):
        K.put(w.st, vadd(o, const(4 * i)), const(c.RC), 4, None, "i32")
    return o


def slots(ctx, c):
    L = c.L
    t = lambda m: L.off("cee_tagged", m)
    e = lambda m: L.off("cee_env", m)
    k = lambda m: L.off("cee_closure", m)
    s = lambda m: L.off("cee_singleton", m)
    seq = lambda n: [8 * i for i in range(n)]
    cases = []
    for n, nm in ((2, "tuple"), (3, "triple"), (4, "quadruple")):
        cases.append(("cee_%s_mk" % nm, lambda w, a: [w.state] + a, seq(n)))
        cases.append(("cee_%s_mk_e" % nm, lambda w, a, n=n: [w.state, pols(w, c, n)] + a, seq(n)))
    for n in range(17):
        cases.append(("cee_n_tuple_mk", lambda w, a, n=n: [w.state, n] + a, seq(n)))
    cases += [("cee_tagged_mk", lambda w, a: [w.state] + a, [t("tag"), t("ptr")]),
              ("cee_tagged_mk_e", lambda w, a: [w.state, c.RC] + a, [t("tag"), t("ptr")]),
              ("cee_env_mk", lambda w, a: [w.state] + a, [e("outer"), e("vars")]),
              ("cee_env_mk_e", lambda w, a: [w.state, pols(w, c, 2)] + a, [e("outer"), e("vars")]),
              ("cee_closure_mk", lambda w, a: [w.state] + a, [k("env"), k("vfun")])]
    for fn, mk, offs in cases:
        if not c.has(fn):
            ctx.need(fn == "cee_quadruple_mk", "%s is not defined" % fn)
            continue
        w = S.World(c)

        def one():
            w.state = w.call("cee_state_mk", 4)
            args = [w.obj("a%d" % i) for i in range(len(offs))]
            r = w.call(fn, *mk(w, args))
            if r is None or r is ZERO:
                return "returns %r" % r
            got = [w.read(vadd(r, const(o))) for o in offs]
            for i, (g, a) in enumerate(zip(got, args)):
                if g is not a:
                    return "slot %d of %d holds %r instead of argument %d" % (i, len(offs), g, i)
        bad = guarded(ctx, w, one)
        ctx.check(not bad, "slots", fn, bad or "", where(c, fn))
    # too many elements
    w = S.World(c)
    w.state = w.call("cee_state_mk", 4)
    w.aborted = False

    def many():
        w.call("cee_n_tuple_mk", w.state, 17, *[w.obj("a%d" % i) for i in range(17)])
        if not w.aborted:
            return "an n-tuple of 17 elements is created in room for 16"
    bad = guarded(ctx, w, many)
    ctx.check(not bad, "slots", "cee_n_tuple_mk/limit", bad or "", where(c, "cee_n_tuple_mk"))
    if c.has("cee_singleton_init"):
        w = S.World(c)

        def single():
            mem = w.obj("mem")
            tag, val = w.obj("tag"), w.obj("val")
            r = w.call("cee_singleton_init", mem, tag, val)
            if r is None or w.read(vadd(r, const(s("tag")))) is not tag or w.read(vadd(r, const(s("val")))) is not val:
                return "the singleton does not carry its tag and value"
        bad = guarded(ctx, w, single)
        ctx.check(not bad, "slots", "cee_singleton_init", bad or "", where(c, "cee_singleton_init"))


def state(ctx, c):
    for fn, d in sorted(K.classes(c).items()):
        if fn == "cee_state_mk":
            continue
        it = c.interp()
        it.lazy = c.lazy_chain()
        f = d["fn"]
        args = [it.arg(f, i) for i in range(len(f.params))]
        st0 = None
        # the state is the argument of type struct cee_state *
        for i, (nm, ty) in enumerate(f.params):
            if (f.varnames.get(nm) or [""])[0] in ("s", "st", "state"):
                st0 = i
        bad = None
        n = 0
        for p in it.run(fn, args):
            if p.kind != "ret" or p.ret is None or not p.ret.t or p.ret.t[0][0].kind != "heap":
                continue
            n += 1
            q = [x for x in it.run("cee_get_state", [p.ret], p.st) if x.kind == "ret"]
            if len(q) != 1 or (q[0].ret is not args[0] and not (q[0].ret in args)):
                bad = "cee_get_state gives %r for the object %s creates" % ([x.ret for x in q], fn)
        ctx.used(it)
        ctx.must(n, "%s creates nothing" % fn)
        if st0 is None and bad:
            continue        # derived objects take the state of their source
        ctx.check(not bad, "state", fn, bad or "", where(c, fn))


def policy(ctx, c):
    all_ = (c.RC, c.DEL, c.NOOP)
    for a, b in itertools.product(all_, all_):
        for i in (0, 1):
            new = [x for x in all_ if x not in (a, b)] or [b if i == 0 else a]
            w = S.World(c)
            w.it.opaque = {"cee_del_e", "cee_del_ref", "cee_incr_indegree", "cee_decr_indegree"}

            def one():
                w.state = w.call("cee_state_mk", 4)
                o = K.obj("o")
                K.put(w.st, o, const(a), 4, None, "i32")
                K.put(w.st, vadd(o, const(4)), const(b), 4, None, "i32")
                x, y = w.obj("x"), w.obj("y")
                t = w.call("cee_tuple_mk_e", w.state, o, x, y)
                w.call("cee_tuple_update_del_policy", t, i, new[0])
                want = {(new[0] if i == 0 else a, x), (new[0] if i == 1 else b, y)}
                w.call("cee_del", t)
                got = {(e.args[0].c if e.args[0].is_const() else None, e.args[1]) for e in w.ev if e.kind == "call" and e.name == "cee_del_e"}
                ref = {(c.RC, e.args[0]) for e in w.ev if e.kind == "call" and e.name == "cee_del_ref"}
                got, want = [{q for q in g if q[0] != c.NOOP} for g in (got | ref, want)]
                if got != want:
                    return "deleting the tuple releases %s instead of %s" % (sorted(map(repr, got)), sorted(map(repr, want)))
            bad = guarded(ctx, w, one)
            ctx.check(not bad, "policy", "cee_tuple_update_del_policy", bad or "", where(c, "cee_tuple_update_del_policy"))


def call(ctx, c):
    fn = "cee_closure_call"
    for n, ret in itertools.product((0, 1, 2, 3, 5, 8), (K.obj("result"), ZERO)):
        seen = []

        def target(it, I, name, args, st):
            ap = args[3] if len(args) > 3 else None
            got = []
            if ap is not None:
                gp = it.reduce(st, it.load(st, ap, 4, None, "i32"))
                area = it.reduce(st, it.load(st, vadd(ap, const(8)), 8, None, "ptr"))
                for i in range(n):
                    got.append(it.reduce(st, it.load(st, vadd(area, const(8 * i)), 8, None, "ptr")) if gp is const(48) else None)
            seen.append((list(args[:3]), got))
            return [("ret", ret, st)]
        w = S.World(c, models={"sa_target": target})

        def one():
            w.state = w.call("cee_state_mk", 4)
            env = w.obj("env")
            cl = w.call("cee_closure_mk", w.state, env, av(A.atom("fn", "sa_target")))
            xs = [w.obj("x%d" % i) for i in range(n)]
            del seen[:]
            other = w.obj("caller")
            r = w.call(fn, other, cl, n, *xs)
            if len(seen) != 1:
                return "the function is called %d times" % len(seen)
            a, got = seen[0]
            if a[0] is not other or a[1] is not env or a[2] is not const(n):
                return "the function is called with %s" % a
            if any(g is not x for g, x in zip(got, xs)):
                return "the function sees the arguments %s" % got
            if r is not ret:
                return "returns %r instead of the function's result" % r
        bad = guarded(ctx, w, one)
        ctx.check(not bad, "call", fn, bad or "", where(c, fn))


def find(ctx, c):
    fn = "cee_env_find"
    for depth in range(0, 4):
        for kinds in itertools.product(("none", "miss", "hit"), repeat=depth):
            vals = {}
            asked = []

            def mfind(it, I, name, args, st):
                asked.append(tuple(args))
                return [("ret", vals.get(args[0], ZERO), st)]
            w = S.World(c, models={"cee_map_find": mfind})

            def one():
                w.state = w.call("cee_state_mk", 4)
                env = ZERO
                want = ZERO
                maps = []
                for i, k in enumerate(kinds):       # outermost first
                    m = ZERO
                    if k != "none":
                        m = w.obj("m%d" % i)
                        maps.append(m)
                        if k == "hit":
                            vals[m] = want = w.obj("v%d" % i)
                    env = w.call("cee_env_mk", w.state, env, m)
                key = w.obj("key")
                r = w.call(fn, env, key)
                if r is not want:
                    return "gives %r instead of %r for environments %s (outermost first)" % (r, want, "/".join(kinds))
                if any(a[0] is ZERO or a[1] is not key for a in asked):
                    return "asks %s" % asked
            bad = guarded(ctx, w, one)
            ctx.check(not bad, "find", fn, bad or "", where(c, fn))
