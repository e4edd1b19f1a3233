"""P34: core objects that hold each other are freed exactly with the last holder, and operations on them leave nothing else behind."""
import absint as A
from absint import av, const, vadd, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import p33
from harness import parallel

MIN = {"whole": 500, "clean": 200, "freed": 400, "collected": 400}
EXPLAIN = ("Lists, stacks, tuples, triples, maps, sets, tagged values, blocks and environments that own their elements by counting are built from managed objects, also shared and nested ones, in a "
           "world where deletion is real; every public operation is interpreted on them and what the holders reach is followed through the abstract heap. Rules: whole - nothing that a holder "
           "reaches is freed, nothing is freed twice or used after it was freed, and deleting one holder leaves what the others reach as it was; clean - an operation leaves no new object on the "
           "state that nothing reaches; freed - when the holders are deleted one after the other, in either order, all that only they reached is freed; collected - two collections with one of them "
           "as a root keep all it reaches and free the rest.")
ASSUME = ["malloc succeeds", "containers of up to 4 elements stand for all sizes (P07-P09)"]


class C(p33.R):
    def __init__(self, c):
        p33.R.__init__(self, c)

    def clone(self):
        return p33.R.clone(self)

    def e(self, text):
        return self.managed(text)

    def cmp(self):
        return av(A.atom("fn", "strcmp"))

    def value(self, h):
        """what h reaches, and where it is held"""
        st = self.st
        number, out, todo = {}, [], []

        def see(v):
            for a, k in v.t:
                if a.kind == "heap" and a not in number:
                    number[a] = len(number)
                    todo.append(a)
            return v
        see(h)
        while todo:
            b = todo.pop(0)
            cells = sorted((x for x in st.mem.near(b) if x.t and any(y is b for y, k in x.t)), key=lambda x: x.c)
            sect = [a.c - st.mem[a][2][1] for a in cells if st.mem[a][2] and st.mem[a][2][0] == "struct.cee_sect"]
            for a in cells:
                v, size, tag, ty = st.mem[a]
                if sect and sect[0] <= a.c < sect[0] + self.c.L.size("cee_sect"):
                    continue
                if size == 8 and any(x.kind == "heap" for x, k in v.t):
                    out.append((number[b], a.c, see(v)))
        return out


class Rules(p33.Rules):
    WORLD = C


def mk_list(w, *es):
    l = w.call("cee_list_mk", w.state, 1)
    for e in es:
        w.call("cee_list_append", l, e)
    return l


def also(w, e):
    """what is counted by another list"""
    return [e, mk_list(w, e)] if e.t else []


def mk_stack(w, *es):
    s = w.call("cee_stack_mk", w.state, 4)
    for e in es:
        w.call("cee_stack_push", s, e)
    return s


def mk_set(w, *es):
    s = w.call("cee_set_mk", w.state, w.cmp())
    for e in es:
        w.call("cee_set_add", s, e)
    return s


def mk_map(w, *kvs):
    m = w.call("cee_map_mk", w.state, w.cmp())
    for k, v in kvs:
        w.call("cee_map_add", m, k, v)
    return m


TEXTS = "bdacf"


def elems(w, n):
    return [w.e(t) for t in TEXTS[:n]]


def cases(c, thorough):
    out = []

    def add(fn, what, setup, op):
        if all(c.has(f) for f in fn.split("/")):
            out.append((fn.split("/")[0], what, setup, op))
    top = 5 if thorough else 4
    two0 = lambda w: [w.e("p"), w.e("q")]
    for n in range(top):
        L = lambda w, n=n: [mk_list(w, *elems(w, n))]
        L1 = lambda w, n=n: [mk_list(w, *elems(w, n))] + also(w, w.e("x"))
        d = "%d elements" % n
        add("cee_list_append", d, L1, lambda w, l, e, o: w.call("cee_list_append", l, e) and None)
        add("cee_list_append", d + ", twice the same", L1, lambda w, l, e, o: (w.call("cee_list_append", l, e), w.call("cee_list_append", l, e)) and None)
        for i in range(n + 1):
            add("cee_list_insert", "%s at %d" % (d, i), L1, lambda w, l, e, o, i=i: w.call("cee_list_insert", l, i, e) and None)
        for i in range(n):
            def removed(w, l, i=i):
                e = w.items(l)[i]
                w.call("cee_list_remove", l, i)
                return [l] + also(w, e)
            add("cee_list_remove", "%s at %d" % (d, i), L, removed)
        add("cee_list_iterate", d, L, lambda w, l: w.call("cee_list_iterate", l, w.obj("ctx"), S.ACTF) and None)
        for m in (0, 2):
            add("cee_list_merge", "%s and %d" % (d, m), lambda w, n=n, m=m: [mk_list(w, *elems(w, n)), mk_list(w, *[w.e(t) for t in "xy"[:m]])],
                lambda w, l, k: w.call("cee_list_merge", l, k) and None)
        add("cee_list_merge", "%s with itself" % d, L, lambda w, l: w.call("cee_list_merge", l, l) and None)
        T = lambda w, n=n: [mk_stack(w, *elems(w, n))]
        add("cee_stack_push", d, lambda w, n=n: [mk_stack(w, *elems(w, n))] + also(w, w.e("x")), lambda w, s, e, o: w.call("cee_stack_push", s, e) and None)
        add("cee_stack_pop", d, T, lambda w, s: [s] + also(w, pop(w, s)))
        add("cee_stack_pop", d + ", pushed again", T, lambda w, s: (lambda e: (e.t and w.call("cee_stack_push", s, e)) and None)(pop(w, s)))
        add("cee_stack_top", d, T, lambda w, s: w.call("cee_stack_top", s, 0) and None)
        E = lambda w, n=n: [mk_set(w, *elems(w, n))]
        for t in TEXTS[:n] + "x":
            add("cee_set_add", "%s and %s" % (d, t), lambda w, n=n, t=t: [mk_set(w, *elems(w, n))] + also(w, w.e(t)), lambda w, s, e, o: w.call("cee_set_add", s, e) and None)
            add("cee_set_remove", "%s without %s" % (d, t), E, lambda w, s, t=t: [s] + also(w, w.call("cee_set_remove", s, w.str(t))))
            add("cee_set_find", "%s and %s" % (d, t), E, lambda w, s, t=t: w.call("cee_set_find", s, w.str(t)) and None)
        add("cee_set_values", d, E, lambda w, s: [s, w.call("cee_set_values", s)])
        add("cee_set_clone", d, E, lambda w, s: [s, w.call("cee_set_clone", s)])
        add("cee_set_clear", d, E, lambda w, s: w.call("cee_set_clear", s) and None)
        add("cee_set_iterate", d, E, lambda w, s: w.call("cee_set_iterate", s, w.obj("ctx"), S.ACTF) and None)
        add("cee_set_union_set", d + " and others", lambda w, n=n: [mk_set(w, *elems(w, n)), mk_set(w, w.e("d"), w.e("y"))], lambda w, a, b: [a, b, w.call("cee_set_union_set", w.state, a, b)])

        def shared(w, n=n):
            es = elems(w, n)
            return [mk_set(w, *es), mk_set(w, *(es[:1] + [w.e("y")]))]
        add("cee_set_union_set", d + " and shared", shared, lambda w, a, b: [a, b, w.call("cee_set_union_set", w.state, a, b)])
        M = lambda w, n=n: [mk_map(w, *[(w.e(t), w.e(t.upper())) for t in TEXTS[:n]])]
        M1 = lambda w, n=n: [mk_map(w, *[(w.e(t), w.e(t.upper())) for t in TEXTS[:n]]), w.e("V")]
        for t in TEXTS[:n] + "x":
            add("cee_map_add", "%s, %s" % (d, t), M1, lambda w, m, v, t=t: added(w, m, v, t))
            add("cee_map_remove", "%s, %s" % (d, t), M, lambda w, m, t=t: [m] + also(w, w.call("cee_map_remove", m, w.str(t))))
            add("cee_map_find", "%s, %s" % (d, t), M, lambda w, m, t=t: w.call("cee_map_find", m, w.str(t)) and None)
            for z in "zb":
                add("cee_map_rename", "%s, %s to %s" % (d, t, z), M, lambda w, m, t=t, z=z: renamed(w, m, t, z))
        for fn in ("cee_map_keys", "cee_map_values", "cee_map_insertion_ordered_keys", "cee_map_clone"):
            add(fn, d, M, lambda w, m, fn=fn: [m, w.call(fn, m)])
        add("cee_map_iterate", d, M, lambda w, m: w.call("cee_map_iterate", m, w.obj("ctx"), S.ACTF) and None)
        add("cee_map_merge", d, lambda w, n=n, M=M: M(w, n) + [mk_map(w, (w.e("d"), w.e("W")), (w.e("y"), w.e("Y")))], lambda w, m, o: w.call("cee_map_merge", m, o, ZERO, ZERO) and None)
    # containers that own their elements alone
    own = lambda w: w.c.en["CEE_DP_DEL"]

    def dp2(w):
        p = w.obj("policies")
        for i in range(2):
            K.put(w.st, vadd(p, const(4 * i)), const(own(w)), 4, None, "i32")
        return p
    for n in range(3):
        d = "%d elements of its own" % n

        def L(w, n=n):
            l = w.call("cee_list_mk_e", w.state, own(w), 1)
            for e in elems(w, n):
                w.call("cee_list_append", l, e)
            return [l, w.e("x")]

        def T(w, n=n):
            s = w.call("cee_stack_mk_e", w.state, own(w), 4)
            for e in elems(w, n):
                w.call("cee_stack_push", s, e)
            return [s, w.e("x")]

        def E(w, n=n):
            s = w.call("cee_set_mk_e", w.state, own(w), w.cmp())
            for e in elems(w, n):
                w.call("cee_set_add", s, e)
            return [s]

        def M(w, n=n):
            m = w.call("cee_map_mk_e", w.state, dp2(w), w.cmp())
            for t in TEXTS[:n]:
                w.call("cee_map_add", m, w.e(t), w.e(t.upper()))
            return [m]
        add("cee_list_append", d, L, lambda w, l, e: w.call("cee_list_append", l, e) and None)
        for i in range(n + 1):
            add("cee_list_insert", "%s at %d" % (d, i), L, lambda w, l, e, i=i: w.call("cee_list_insert", l, i, e) and None)
        add("cee_stack_push", d, T, lambda w, s, e: w.call("cee_stack_push", s, e) and None)
        add("cee_stack_pop", d, T, lambda w, s, e: [s, e, pop(w, s)])
        add("cee_set_clear", d, E, lambda w, s: w.call("cee_set_clear", s) and None)
        for t in TEXTS[:n] + "x":
            add("cee_set_add", "%s and %s" % (d, t), lambda w, n=n, t=t, E=E: E(w) + [w.e(t)], lambda w, s, e: w.call("cee_set_add", s, e) and None)
            add("cee_set_remove", "%s without %s" % (d, t), E, lambda w, s, t=t: [s, w.call("cee_set_remove", s, w.str(t))])
            add("cee_map_add", "%s, %s" % (d, t), M, lambda w, m, t=t: added(w, m, w.e("V"), t))
            add("cee_map_remove", "%s, %s" % (d, t), M, lambda w, m, t=t: [m, w.call("cee_map_remove", m, w.str(t))])

    def pair(w, a, b):
        return [w.call("cee_tuple_mk_e", w.state, dp2(w), a, b)]
    add("cee_tuple_mk_e", "of its own", two0, pair)
    add("cee_tagged_mk_e", "of its own", lambda w: [w.e("p")], lambda w, a: [a, w.call("cee_tagged_mk_e", w.state, own(w), 5, a)])
    # containers of what others own
    def none(w):
        p = w.obj("policies")
        for i in range(2):
            K.put(w.st, vadd(p, const(4 * i)), const(w.c.en["CEE_DP_NOOP"]), 4, None, "i32")
        return p

    def borrow(mk, fill):
        def f(w, *es):
            x = mk(w)
            for e in es:
                fill(w, x, e)
            w.call("cee_del", x)
            return list(es)
        return f
    noop = lambda w: w.c.en["CEE_DP_NOOP"]
    for n in (1, 3):
        es = lambda w, n=n: elems(w, n)
        d = "%d borrowed elements" % n
        add("cee_list_mk_e", d, es, borrow(lambda w: w.call("cee_list_mk_e", w.state, noop(w), 1), lambda w, x, e: w.call("cee_list_append", x, e)))
        add("cee_stack_mk_e", d, es, borrow(lambda w: w.call("cee_stack_mk_e", w.state, noop(w), 4), lambda w, x, e: w.call("cee_stack_push", x, e)))
        add("cee_set_mk_e", d, es, borrow(lambda w: w.call("cee_set_mk_e", w.state, noop(w), w.cmp()), lambda w, x, e: w.call("cee_set_add", x, e)))
        add("cee_map_mk_e", d, es, borrow(lambda w: w.call("cee_map_mk_e", w.state, none(w), w.cmp()), lambda w, x, e: w.call("cee_map_add", x, e, e)))
        add("cee_tuple_mk_e", d, es, borrow(lambda w: mk_list(w), lambda w, x, e: w.call("cee_list_append", x, w.call("cee_tuple_mk_e", w.state, none(w), e, e))))
        add("cee_tagged_mk_e", d, es, borrow(lambda w: mk_list(w), lambda w, x, e: w.call("cee_list_append", x, w.call("cee_tagged_mk_e", w.state, noop(w), 3, e))))
    # one object in several places
    add("cee_list_append/cee_map_add", "one object in a list, a map and a stack", lambda w: [mk_list(w), mk_map(w), mk_stack(w), w.e("v"), w.e("k")], everywhere)
    add("cee_map_add", "one object as key and value", lambda w: [mk_map(w), w.e("k")], lambda w, m, k: w.call("cee_map_add", m, k, k) and None)
    add("cee_map_add", "one value under two keys", lambda w: [mk_map(w), w.e("k"), w.e("l"), w.e("v")], lambda w, m, k, l, v: (w.call("cee_map_add", m, k, v), w.call("cee_map_add", m, l, v)) and None)
    add("cee_map_add", "a value again under its key", lambda w: [mk_map(w), w.e("k"), w.e("v")], again)
    add("cee_map_remove", "the key in a list as well", lambda w: [mk_map(w), mk_list(w), w.e("k"), w.e("v")], keyed)
    two = lambda w: [w.e("p"), w.e("q")]
    add("cee_tuple_mk", "two objects", two, lambda w, a, b: [a, b, w.call("cee_tuple_mk", w.state, a, b)])
    add("cee_tuple_mk", "one object twice", lambda w: [w.e("p")], lambda w, a: [a, w.call("cee_tuple_mk", w.state, a, a)])
    add("cee_tuple_mk", "in two tuples", two, lambda w, a, b: [a, b, w.call("cee_tuple_mk", w.state, a, b), w.call("cee_tuple_mk", w.state, b, ZERO)])
    add("cee_triple_mk", "three objects", lambda w: elems(w, 3), lambda w, a, b, c: [a, b, c, w.call("cee_triple_mk", w.state, a, b, c)])
    add("cee_n_tuple_mk", "two objects", two, lambda w, a, b: [a, b, w.call("cee_n_tuple_mk", w.state, 2, a, b)])
    add("cee_tagged_mk", "an object", lambda w: [w.e("p")], lambda w, a: [a, w.call("cee_tagged_mk", w.state, 5, a)])
    add("cee_tagged_mk", "nothing", lambda w: [], lambda w: [w.call("cee_tagged_mk", w.state, 5, ZERO)])
    add("cee_tagged_mk", "one object in two", lambda w: [w.e("p")], lambda w, a: [a, w.call("cee_tagged_mk", w.state, 5, a), w.call("cee_tagged_mk", w.state, 6, a)])

    def env(w, m):
        e = w.call("cee_env_mk", w.state, ZERO, m)
        return [m, e, w.call("cee_env_mk", w.state, e, m)]
    add("cee_env_mk", "in an environment", lambda w: [mk_map(w, (w.e("k"), w.e("v")))], env)
    # containers in containers
    def nest(w, a):
        l = mk_list(w, a, a)
        m = mk_map(w, (w.e("k"), l))
        t = w.call("cee_tuple_mk", w.state, m, l)
        return [a, l, m, t, mk_set(w, a), mk_stack(w, t)]
    add("cee_list_mk", "nested in others", lambda w: [w.e("v")], nest)
    for fn, args in (("cee_list_mk", [0]), ("cee_list_mk", [3]), ("cee_stack_mk", [3]), ("cee_block_mk", [8]), ("cee_block_mk_nonzero", [8])):
        add(fn, "alone", lambda w: [], lambda w, fn=fn, args=args: [w.call(fn, w.state, *args)])
    for fn in ("cee_set_mk", "cee_map_mk"):
        add(fn, "alone", lambda w: [], lambda w, fn=fn: [w.call(fn, w.state, w.cmp())])
    # the counts by hand
    add("cee_incr_indegree/cee_decr_indegree", "up and down", lambda w: [mk_list(w, w.e("v"))], counted)
    return out


def added(w, m, v, t):
    """the map takes the key over, also when it has one like it"""
    old = w.call("cee_map_add", m, w.e(t), v)
    return [m, v] + also(w, old)


def again(w, m, k, v):
    w.call("cee_map_add", m, k, v)
    w.call("cee_map_add", m, w.e("k"), v)


def renamed(w, m, t, z):
    k = w.e(z)
    r = w.call("cee_map_rename", m, w.str(t), k)
    return [m] + ([k] if r is ZERO else [])


def pop(w, s):
    e = w.call("cee_stack_pop", s)
    n = w.call("cee_stack_size", s)
    K.put(w.st, vadd(s, const(8 * n.c)), ZERO, 8, None, "ptr")       # what is above the top does not count
    return e


def everywhere(w, l, m, s, v, k):
    w.call("cee_list_append", l, v)
    w.call("cee_map_add", m, k, v)
    w.call("cee_stack_push", s, v)


def keyed(w, m, l, k, v):
    w.call("cee_map_add", m, k, v)
    w.call("cee_list_append", l, k)
    return [m, l, k, w.call("cee_map_remove", m, w.str("k"))]


def counted(w, l):
    e = w.items(l)[0]
    rc = w.c.en["CEE_DP_DEL_RC"]
    w.call("cee_incr_indegree", rc, e)
    w.call("cee_decr_indegree", rc, e)


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        todo = cases(c, ctx.tier == "thorough")
        for i in range(0, len(todo), 12):
            def job(x, part=todo[i:i + 12]):
                for a in part:
                    Rules(x, c).case(*a)
            jobs.append(job)
        parallel(ctx, jobs)
