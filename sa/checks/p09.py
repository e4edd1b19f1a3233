"""P09: maps, sets and dicts hold exactly what was put into them."""
import itertools
import absint as A
import ceelib as C
from absint import av, const, vadd, ZERO
from checks import core as K
from checks import shape as S
from harness import parallel

MIN = {"map": 300, "set": 150, "dict": 30, "null": 10}
EXPLAIN = ("Public map, set and dict operations are analysed abstractly on materialised containers of 0 to 3 entries (4 in the thorough "
           "tier), built from the abstract transformers of the constructor and of insertion in every order, with opaque keys and values; the key "
           "an operation is given takes every place in the order of the stored keys (equal to each, or between any two). After each "
           "operation the container is observed through its whole public interface and compared with an association list. Rule map: "
           "add, add_e with merging, find, remove, rename, keys, values, insertion order, iterate, merge, clone. Rule set: add, find, "
           "remove, clear, size, empty, values, iterate, union, clone. Rule dict: add and find, with colliding hashes and across growth of "
           "the table. Rule null: a NULL container is treated as documented.")
ASSUME = ["keys are compared consistently", "containers of up to 4 entries stand for all sizes (the search tree itself: P08)", "values are not NULL"]


def run(ctx):
    top = 4 if ctx.tier == "thorough" else 3
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for n in range(top + 1):
            for perm in itertools.permutations(range(n)):
                jobs.append(lambda x, perm=perm: Maps(x, c).run(perm, top))
                jobs.append(lambda x, perm=perm: Sets(x, c).run(perm))
        jobs.reverse()
        jobs.append(lambda x: dicts(x, c))
        jobs.append(lambda x: null(x, c))
        parallel(ctx, jobs)


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


class Base:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c

    def check(self, rule, key, fn, bad):
        self.ctx.check(not bad, rule, key, bad or "", where(self.c, fn))

    def world(self, rule, fn, w, build):
        """run build(w); a call with no single outcome is a violation of the construct itself"""
        try:
            r = build(w)
        except S.Many as e:
            r = str(e)
        if not r and w.bad:
            r = "%s at %s" % w.bad[0]
        self.ctx.used(w.it)
        return r


class Maps(Base):
    def build(self, perm):
        w = S.World(self.c)
        w.state = w.call("cee_state_mk", 4)
        pol = K.obj("pol")
        for i in (0, 1):
            K.put(w.st, vadd(pol, const(4 * i)), const(self.c.RC), 4, None, "i32")
        w.m = w.call("cee_map_mk_e", w.state, pol, S.CMPF)
        w.pol = pol
        w.model = []            # (key, value) in insertion order
        keys = [w.key("k%d" % i, 2 * i + 1) for i in range(len(perm))]
        for i in perm:
            v = w.obj("v%d" % i)
            r = w.call("cee_map_add", w.m, keys[i], v)
            w.model.append((keys[i], v))
            if r is not ZERO:
                w.bad.append(("cee_map_add returns %r for a new key" % r, ""))
        w.keys = keys
        return w

    def differs(self, w0, m, model):
        """compare everything observable of map m with the model"""
        w = w0.clone()
        n = w.call("cee_map_size", m)
        if n is None or not n.is_const() or n.c != len(model):
            return "its size is %r instead of %d" % (n, len(model))
        for k, v in model:
            k2 = w.key("q", w.rank[k])
            r = w.call("cee_map_find", m, k2)
            if r is not v:
                return "finding a stored key gives %r instead of its value" % r
        for rk in range(0, 2 * len(w.keys) + 3):
            if rk not in [w.rank[k] for k, v in model]:
                k2 = w.key("q", rk)
                r = w.call("cee_map_find", m, k2)
                if r is not ZERO:
                    return "finding a key that is not stored gives %r" % r
        ks = w.items(w.call("cee_map_keys", m))
        if ks is None or len(ks) != len(model) or any(not any(k is x for x, v in model) for k in ks) or len(set(map(id, ks))) != len(ks):
            return "its list of keys is %s" % ks
        vs = w.items(w.call("cee_map_values", m))
        if vs is None or sorted(map(id, vs)) != sorted(id(v) for k, v in model):
            return "its list of values is %s" % vs
        os = w.items(w.call("cee_map_insertion_ordered_keys", m))
        if os is None or len(os) != len(model) or any(a is not b for a, (b, v) in zip(os, model)):
            return "its keys in insertion order are %s instead of %s" % (os, [k for k, v in model])
        w.acts = []
        x = w.obj("ctx")
        r = w.call("cee_map_iterate", m, x, S.ACTF)
        if r is not ZERO:
            return "iterating returns %r although no callback failed" % r
        if any(a[0] is not x for a in w.acts):
            return "the callback gets another context"
        if sorted((id(a[1]), id(a[2])) for a in w.acts) != sorted((id(k), id(v)) for k, v in model):
            return "iterating visits %s" % [(a[1], a[2]) for a in w.acts]
        return None

    def run(self, perm, top):
        n = len(perm)
        tag = "%d entries" % n
        w0 = self.build(perm)
        bad = w0.bad and w0.bad[0][0] or self.world("map", "cee_map_add", w0, lambda w: self.differs(w, w.m, w.model))
        self.check("map", "add", "cee_map_add", bad and "after adding %d entries: %s" % (n, bad))
        if bad:
            return
        for rank in range(0, 2 * n + 1):
            old = [(k, v) for k, v in w0.model if w0.rank[k] == rank]
            self.op(w0, "cee_map_add", rank, old, self.add)
            self.op(w0, "cee_map_add_e", rank, old, self.add_e)
            self.op(w0, "cee_map_remove", rank, old, self.remove)
            self.op(w0, "cee_map_remove", rank, old, self.remove_stored)
            self.op(w0, "cee_map_remove", rank, old, self.again)
            for r2 in range(0, 2 * n + 1):
                self.op(w0, "cee_map_rename", rank, old, lambda w, k, o: self.rename(w, k, o, r2))
        for stop in range(n):
            self.op(w0, "cee_map_iterate", 0, [], lambda w, k, o: self.stop(w, stop))
        self.op(w0, "cee_map_clone", 0, [], self.clone)
        if n < top:
            for ranks in itertools.combinations(range(2 * n + 1), min(2, 2 * n + 1)):
                self.op(w0, "cee_map_merge", 0, [], lambda w, k, o: self.merge(w, ranks, False))
                self.op(w0, "cee_map_merge", 0, [], lambda w, k, o: self.merge(w, ranks, True))

    def op(self, w0, fn, rank, old, f):
        w = w0.clone()
        key = w.key("key", rank)
        bad = self.world("map", fn, w, lambda w: f(w, key, old))
        self.check("map", fn + "/" + getattr(f, "__name__", "x").replace("<lambda>", "op"), fn, bad)

    def add(self, w, key, old):
        v = w.obj("nv")
        r = w.call("cee_map_add", w.m, key, v)
        want = old[0][1] if old else ZERO
        if r is not want:
            return "returns %r instead of %r" % (r, want)
        return self.differs(w, w.m, self.put(w.model, key, v, old))

    def put(self, model, key, v, old):
        if old:
            return [(k, v if k is old[0][0] else x) for k, x in model]
        return model + [(key, v)]

    def add_e(self, w, key, old):
        v, mv, x = w.obj("nv"), w.obj("merged"), w.obj("ctx")
        w.acts = []
        w.merge_ret = mv
        r = w.call("cee_map_add_e", w.m, key, v, x, S.MERGEF)
        if old:
            if len(w.acts) != 1 or w.acts[0][0] is not x or w.acts[0][1] is not old[0][1] or w.acts[0][2] is not v:
                return "the merge function is called with %s" % w.acts
        elif w.acts:
            return "the merge function is called for a new key"
        want = old[0][1] if old else ZERO
        if r is not want:
            return "returns %r instead of %r" % (r, want)
        return self.differs(w, w.m, self.put(w.model, key, mv if old else v, old))

    def remove(self, w, key, old):
        r = w.call("cee_map_remove", w.m, key)
        want = old[0][1] if old else ZERO
        if r is not want:
            return "returns %r instead of %r" % (r, want)
        return self.differs(w, w.m, [(k, v) for k, v in w.model if not old or k is not old[0][0]])

    def remove_stored(self, w, key, old):
        """removal through the very key that is stored"""
        return self.remove(w, old[0][0], old) if old else None

    def again(self, w, key, old):
        """a removed key can be added again and is then the youngest"""
        if not old:
            return None
        w.call("cee_map_remove", w.m, key)
        v = w.obj("nv")
        r = w.call("cee_map_add", w.m, key, v)
        if r is not ZERO:
            return "adding a removed key again returns %r" % r
        return self.differs(w, w.m, [(k, x) for k, x in w.model if k is not old[0][0]] + [(key, v)])

    def rename(self, w, key, old, r2):
        new = w.key("new", r2)
        r = w.call("cee_map_rename", w.m, key, new)
        if not old:
            if r is not ZERO:
                return "renaming a key that is not stored returns %r" % r
            return self.differs(w, w.m, w.model)
        if r is None or not r.is_const() or r.c == 0:
            return "renaming a stored key returns %r" % r
        v = old[0][1]
        rest = [(k, x) for k, x in w.model if k is not old[0][0]]
        ex = [(k, x) for k, x in rest if w.rank[k] == r2]
        return self.differs(w, w.m, self.put(rest, new, v, ex))

    def stop(self, w, at):
        one = const(7)
        w.acts = []
        w.act_ret = lambda i, a: one if i == at else ZERO
        r = w.call("cee_map_iterate", w.m, ZERO, S.ACTF)
        if r is not one:
            return "returns %r when a callback returned 7" % r
        if len(w.acts) != at + 1:
            return "calls back %d more times after a failure" % (len(w.acts) - at - 1)
        return None

    def clone(self, w, key, old):
        m2 = w.call("cee_map_clone", w.m)
        if m2 is w.m or m2 is ZERO:
            return "returns %r" % m2
        bad = self.differs(w, w.m, w.model)
        if bad:
            return "the original is changed: " + bad
        # the clone holds the same pairs (its insertion order is that of the walk)
        n = w.call("cee_map_size", m2)
        if n is None or not n.is_const() or n.c != len(w.model):
            return "the clone's size is %r" % n
        for k, v in w.model:
            if w.call("cee_map_find", m2, k) is not v:
                return "the clone does not hold the same value"
        v = w.obj("nv")
        k = w.key("fresh", 99)
        w.call("cee_map_add", m2, k, v)
        if w.call("cee_map_find", m2, k) is not v:
            return "a pair added to the clone is not found"
        return self.differs(w, w.m, w.model)

    def merge(self, w, ranks, withf):
        src = w.call("cee_map_mk_e", w.state, w.pol, S.CMPF)
        model = list(w.model)
        mv, x = w.obj("merged"), w.obj("ctx")
        add = []
        for r in ranks:
            k, v = w.key("s%d" % r, r), w.obj("sv%d" % r)
            w.call("cee_map_add", src, k, v)
            add.append((k, v))
        w.acts = []
        w.merge_ret = mv
        w.call("cee_map_merge", w.m, src, x, S.MERGEF if withf else ZERO)
        fresh = []
        hits = []
        for k, v in add:
            ex = [q for q in model if w.rank[q[0]] == w.rank[k]]
            if ex:
                hits.append((ex[0][1], v))
                model = [(q, (mv if withf else v) if q is ex[0][0] else y) for q, y in model]
            else:
                fresh.append((k, v))
        if withf and sorted((id(a[1]), id(a[2])) for a in w.acts) != sorted((id(a), id(b)) for a, b in hits):
            return "the merge function is called with %s" % w.acts
        if withf and any(a[0] is not x for a in w.acts):
            return "the merge function gets another context"
        bad = None
        for order in itertools.permutations(fresh):
            bad = self.differs(w, w.m, model + list(order))
            if not bad:
                break
        if bad:
            return bad
        bad = self.same(w, src, add)
        return bad and "the source is changed: " + bad

    def same(self, w, m, model):
        n = w.call("cee_map_size", m)
        if n is None or not n.is_const() or n.c != len(model):
            return "size %r" % n
        for k, v in model:
            if w.call("cee_map_find", m, k) is not v:
                return "a value differs"
        return None


class Sets(Base):
    def build(self, perm):
        w = S.World(self.c)
        w.state = w.call("cee_state_mk", 4)
        w.m = w.call("cee_set_mk_e", w.state, self.c.RC, S.CMPF)
        w.keys = [w.key("k%d" % i, 2 * i + 1) for i in range(len(perm))]
        w.model = []
        for i in perm:
            w.call("cee_set_add", w.m, w.keys[i])
            w.model.append(w.keys[i])
        return w

    def differs(self, w0, m, model):
        w = w0.clone()
        n = w.call("cee_set_size", m)
        if n is None or not n.is_const() or n.c != len(model):
            return "its size is %r instead of %d" % (n, len(model))
        e = w.call("cee_set_empty", m)
        if e is None or not e.is_const() or bool(e.c) != (not model):
            return "empty is reported as %r" % e
        top = max([w.rank[k] for k in w.rank] + [1])
        for r in range(0, min(top, 12) + 2):
            k2 = w.key("q", r)
            want = [k for k in model if w.rank[k] == r]
            g = w.call("cee_set_find", m, k2)
            if g is not (want[0] if want else ZERO):
                return "finding an element gives %r instead of %r" % (g, want)
        vs = w.items(w.call("cee_set_values", m))
        if vs is None or sorted(map(id, vs)) != sorted(map(id, model)):
            return "its list of values is %s" % vs
        w.acts = []
        x = w.obj("ctx")
        w.call("cee_set_iterate", m, x, S.ACTF)
        if any(a[0] is not x for a in w.acts):
            return "the callback gets another context"
        if sorted(id(a[1]) for a in w.acts) != sorted(map(id, model)):
            return "iterating visits %s" % [a[1] for a in w.acts]
        return None

    def run(self, perm):
        n = len(perm)
        w0 = self.build(perm)
        bad = w0.bad and w0.bad[0][0] or self.world("set", "cee_set_add", w0, lambda w: self.differs(w, w.m, w.model))
        self.check("set", "add", "cee_set_add", bad and "after adding %d elements: %s" % (n, bad))
        if bad:
            return
        for rank in range(0, 2 * n + 1):
            old = [k for k in w0.model if w0.rank[k] == rank]
            for f, fn in ((self.add, "cee_set_add"), (self.same, "cee_set_add"), (self.remove, "cee_set_remove"), (self.again, "cee_set_remove"),
                          (self.other, "cee_set_clone")):
                w = w0.clone()
                key = w.key("key", rank)
                bad = self.world("set", fn, w, lambda w: f(w, key, old))
                self.check("set", fn + "/" + f.__name__, fn, bad)
        for f, fn in ((self.clear, "cee_set_clear"), (self.clone, "cee_set_clone")):
            w = w0.clone()
            bad = self.world("set", fn, w, lambda w: f(w))
            self.check("set", fn, fn, bad)
        if self.c.has("cee_set_union_set"):
            for ranks in itertools.combinations(range(2 * n + 1), min(2, 2 * n + 1)):
                w = w0.clone()
                bad = self.world("set", "cee_set_union_set", w, lambda w: self.union(w, ranks))
                self.check("set", "cee_set_union_set", "cee_set_union_set", bad)
            bad = self.world("set", "cee_set_union_set", w0.clone(), self.mixed)
            self.check("set", "cee_set_union_set/mixed", "cee_set_union_set", bad)

    def add(self, w, key, old):
        w.call("cee_set_add", w.m, key)
        return self.differs(w, w.m, w.model if old else w.model + [key])

    def same(self, w, key, old):
        """adding the very element that is stored"""
        if not old:
            return None
        w.call("cee_set_add", w.m, old[0])
        return self.differs(w, w.m, w.model)

    def remove(self, w, key, old):
        r = w.call("cee_set_remove", w.m, key)
        if r is not (old[0] if old else ZERO):
            return "returns %r instead of %r" % (r, old)
        return self.differs(w, w.m, [k for k in w.model if not old or k is not old[0]])

    def again(self, w, key, old):
        if not old:
            return None
        w.call("cee_set_remove", w.m, key)
        w.call("cee_set_add", w.m, key)
        return self.differs(w, w.m, [k for k in w.model if k is not old[0]] + [key])

    def other(self, w, key, old):
        """a clone is independent of the original"""
        s2 = w.call("cee_set_clone", w.m)
        if old:
            w.call("cee_set_remove", s2, key)
            return self.differs(w, w.m, w.model) or self.differs(w, s2, [k for k in w.model if k is not old[0]])
        w.call("cee_set_add", s2, key)
        return self.differs(w, w.m, w.model) or self.differs(w, s2, w.model + [key])

    def clear(self, w):
        w.call("cee_set_clear", w.m)
        bad = self.differs(w, w.m, [])
        if bad:
            return bad
        k = w.key("fresh", 5)
        w.call("cee_set_add", w.m, k)
        return self.differs(w, w.m, [k])

    def clone(self, w):
        s2 = w.call("cee_set_clone", w.m)
        return "returns the set itself" if s2 is w.m else self.differs(w, w.m, w.model) or self.differs(w, s2, w.model)

    def mixed(self, w):
        """sets ordered differently have no union"""
        w.it.models["sa_other"] = w._cmp
        s2 = w.call("cee_set_mk_e", w.state, self.c.RC, av(A.atom("fn", "sa_other")))
        w.call("cee_set_add", s2, w.key("odd", 1))
        w.aborted = False
        r = w.call("cee_set_union_set", w.state, w.m, s2)
        return None if w.aborted or r is ZERO else "joins sets with different comparison functions"

    def union(self, w, ranks):
        s2 = w.call("cee_set_mk_e", w.state, self.c.RC, S.CMPF)
        model = list(w.model)
        mine = []
        for r in ranks:
            k = w.key("s%d" % r, r)
            w.call("cee_set_add", s2, k)
            mine.append(k)
            if not any(w.rank[q] == r for q in model):
                model.append(k)
        u = w.call("cee_set_union_set", w.state, w.m, s2)
        return self.differs(w, u, model) or self.differs(w, w.m, w.model) or self.differs(w, s2, mine)


def cstr(w, text):
    """a NUL terminated string with known bytes"""
    p = K.obj("s")
    for i, ch in enumerate(text.encode() + b"\0"):
        K.put(w.st, vadd(p, const(i)), const(ch - 256 if ch > 127 else ch), 1, None, "i8")
    w.text[p] = text
    return p


def strings(texts):
    def strcmp(it, I, name, args, st):
        a, b = texts.get(args[0]), texts.get(args[1])
        if a is None or b is None:
            return None
        return [("ret", const((a > b) - (a < b)), st)]
    return {"strcmp": strcmp}


def dicts(ctx, c):
    texts = {}
    # Aa and BB collide under the multiplicative hash; others fall into the same slots of small tables
    names = ["Aa", "BB", "a", "i", "q", "y", "AaAa", "BBBB", "AaBB", "x"]
    for size in (0, 1, 4, 10):
        for n in (0, 1, 3, 6, 7, 8, 10):
            w = S.World(c, models=strings(texts))
            w.text = texts
            w.it.models["fprintf"] = lambda it, I, name, args, st: [("ret", ZERO, st)]
            w.it.models["strerror"] = lambda it, I, name, args, st: [("ret", K.obj("msg"), st)]
            bad = None
            fn = "cee_dict_add"
            try:
                s = w.call("cee_state_mk", 4)
                d = w.call("cee_dict_mk_e", s, c.RC, size)
                ctx.must(d is not None and d is not ZERO, "a dict is not created")
                want = {}
                for i in range(n):
                    k, v = cstr(w, names[i]), w.obj("v%d" % i)
                    w.call("cee_dict_add", d, k, v)
                    want[names[i]] = v
                for x in names:
                    r = w.call("cee_dict_find", d, cstr(w, x))
                    if r is not want.get(x, ZERO):
                        bad = "finding %s among %d entries (size %d) gives %r" % ("a stored key" if x in want else "a key that is not stored", n, size, r)
                        fn = "cee_dict_find"
                        break
            except S.Many as e:
                bad = str(e)
            if not bad and w.bad:
                bad = "%s at %s" % w.bad[0]
            ctx.used(w.it)
            ctx.check(not bad, "dict", fn, bad or "", where(c, fn))


def null(ctx, c):
    for fn, args, want in (("cee_map_size", [ZERO], ZERO), ("cee_map_find", [ZERO, 1], ZERO), ("cee_map_remove", [ZERO, 1], ZERO),
                           ("cee_map_iterate", [ZERO, ZERO, S.ACTF], ZERO), ("cee_set_size", [ZERO], ZERO), ("cee_set_find", [ZERO, 1], ZERO),
                           ("cee_set_remove", [ZERO, 1], ZERO), ("cee_set_empty", [ZERO], A.ONE), ("cee_set_iterate", [ZERO, ZERO, S.ACTF], None)):
        w = S.World(c)
        w.it.loads = True
        args = [w.key("k", 1) if a == 1 else a for a in args]
        bad = None
        try:
            r = w.call(fn, *args)
            if want is not None and r is not want:
                bad = "returns %r for a NULL container" % r
            if w.acts:
                bad = "calls back for a NULL container"
            if [e for e in w.ev if e.kind in ("load", "store") and e.addr.is_const()]:
                bad = "reads through a NULL container"
        except S.Many:
            bad = "does not return one result for a NULL container"
        ctx.used(w.it)
        ctx.check(not bad, "null", fn, bad or "", where(c, fn))
