"""P29: objects of every kind, held by each other in any way, live exactly as long as something holds them."""
import itertools

import absint as A
from absint import av, const, vadd, ZERO, ONE
from checks import core as K
from checks import shape as S
from harness import parallel

MIN = {"alive": 3000, "gone": 1000, "whole": 500, "owned": 300}
EXPLAIN = ("Graphs of objects of every kind, nested in every kind at every place, shared and unshared, are built abstractly by the public constructors on a materialised heap; then collections, additions between "
           "collections, roots and contexts taken away, deletions and the deletion of the state are applied. Each block obtained is attributed to the object it was obtained for. Rule alive: after each collection no block of "
           "an object that a root or context reaches is freed and it reads as before. Rule gone: an object that nothing reaches is freed by the second collection. Rule whole: after the state is deleted every block is freed, "
           "once. Rule owned: deleting containers that own their elements frees an element exactly with the last container that has it (DEL_RC), with the first (DEL), or not at all (NOOP).")
ASSUME = ["malloc succeeds", "object graphs without cycles"]


class G(S.World):
    def __init__(self, c, order=1):
        self.bytes = {}
        m = {n: self._cmpstr for n in ("strcmp",)}
        for n in ("fprintf", "printf"):
            m[n] = lambda it, I, name, args, st: [("ret", ZERO, st)]
        m["strerror"] = lambda it, I, name, args, st: [("ret", K.obj("msg"), st)]
        S.World.__init__(self, c, real=True, models=m, exact=4000)
        self.dir = order
        self.it.assume = self._assume
        self.own = {}            # object -> blocks
        self.freed = []
        self.kinds = {}          # object -> (kind, elements)
        self.problem = None
        self.state = None
        self.state = self.make("state", lambda: self.do("cee_state_mk", 4))
        self.roots = []

    def clone(self):
        raise A.AnalysisError("not cloned")

    def _assume(self, it, st, key):
        """addresses of different blocks are ordered one way or the other"""
        if key[0] == "le0" and len(key[1].t) == 2:
            (a, x), (b, y) = key[1].t
            if (x, y) in ((1, -1), (-1, 1)) and a.kind == b.kind == "heap":
                return (x * (a.id - b.id)) * self.dir < 0
        if key[0] in ("ult", "ule") and len(key) == 3:
            a, b = key[1].b, key[2].b
            if a is not None and b is not None and a is not b:
                return (a.id < b.id) == (self.dir > 0)
        return None

    def _cmpstr(self, it, I, name, args, st):
        a, b = self.bytes.get(args[0]), self.bytes.get(args[1])
        if a is None or b is None:
            self.bad.append(("compares something that is no key", I.loc()))
            return [("ret", ONE, st)]
        return [("ret", const((a > b) - (a < b)), st)]

    # --- calls; blocks obtained belong to `self.who`
    def do(self, fn, *args):
        r = self.call(fn, *args)
        mine = self.own.setdefault(self.who, [])
        for e in self.ev:
            if e.kind in ("alloc", "realloc"):
                mine.append(e.ret)
            p = e.old if e.kind == "realloc" else e.p if e.kind == "free" else ZERO
            if p.t:
                self.free(p)
                if p in mine and fn not in ("cee_del", "cee_state_gc"):
                    mine.remove(p)           # replaced by another block
        if self.bad and not self.problem:
            self.problem = "%s at %s in %s" % (self.bad[0] + (fn,))
        return r

    def free(self, p):
        if p in self.freed and not self.problem:
            self.problem = "frees a block twice"
        self.freed.append(p)

    def make(self, kind, f, elems=()):
        self.who = "new"
        r = f()
        if r is None or not r.t:
            raise S.Many("making a %s gives %r" % (kind, r))
        self.own[r] = self.own.pop("new", [])
        self.kinds[r] = [kind, list(elems)]
        self.rank[r] = len(self.kinds)
        return r

    def on(self, o, fn, *args):
        self.who = o
        return self.do(fn, *args)

    def pols(self, p, n):
        o = K.obj("o")
        for i in range(n):
            K.put(self.st, vadd(o, const(4 * i)), const(p[i] if isinstance(p, tuple) else p), 4, None, "i32")
        return o

    # --- kinds
    def leaf(self, i=0):
        if i % 3 == 0:
            return self.make("boxed", lambda: self.do("cee_boxed_from_i32", self.state, 5))
        if i % 3 == 1:
            return self.make("block", lambda: self.do("cee_block_mk", self.state, 8))
        return self.make("tuple", lambda: self.do("cee_tuple_mk", self.state, ZERO, ZERO), [])

    def name(self, text):
        """a managed string"""
        k = self.make("block", lambda: self.do("cee_block_mk", self.state, 8))
        for i, ch in enumerate(text.encode() + b"\0"):
            K.put(self.st, vadd(k, const(i)), const(ch), 1, None, "i8")
        self.bytes[k] = text
        self.kinds[k][0] = "name"
        return k

    def build(self, kind, es, pol=None):
        s, en = self.state, ()
        e = "" if pol is None else "_e"
        one = () if pol is None else (pol,)
        n = len(es)
        arr = lambda k: () if pol is None else (self.pols(pol, k),)
        if kind in ("list", "stack"):
            cap = {"list": 1, "stack": n + 2}[kind]
            o = self.make(kind, lambda: self.do("cee_%s_mk%s" % (kind, e), s, *one, cap), es)
            for x in es:
                self.on(o, "cee_list_append" if kind == "list" else "cee_stack_push", o, x)
        elif kind == "set":
            o = self.make(kind, lambda: self.do("cee_set_mk%s" % e, s, *one, S.CMPF), es)
            for x in es:
                self.on(o, "cee_set_add", o, x)
        elif kind == "map":
            o = self.make(kind, lambda: self.do("cee_map_mk%s" % e, s, *arr(2), S.CMPF), es)
            for k, v in zip(es[::2], es[1::2]):
                self.on(o, "cee_map_add", o, k, v)
        elif kind == "dict":
            o = self.make(kind, lambda: self.do("cee_dict_mk%s" % e, s, *one, 1), es)
            for k, v in zip(es[::2], es[1::2]):
                self.on(o, "cee_dict_add", o, k, v)
        elif kind in ("tuple", "triple", "quadruple"):
            if kind == "quadruple" and not self.c.has("cee_quadruple_mk"):
                e, pol = "_e", self.c.RC if pol is None else pol
                arr = lambda k: (self.pols(pol, k),)
            o = self.make(kind, lambda: self.do("cee_%s_mk%s" % (kind, e), s, *arr(n), *es), es)
        elif kind == "n_tuple":
            if not self.c.has("cee_n_tuple_mk_e"):
                e, arr = "", lambda k: ()
            o = self.make(kind, lambda: self.do("cee_n_tuple_mk%s" % e, s, n, *arr(n), *es), es)
        elif kind == "tagged":
            o = self.make(kind, lambda: self.do("cee_tagged_mk%s" % e, s, *one, 7, es[0]), es)
        elif kind == "env":
            o = self.make(kind, lambda: self.do("cee_env_mk%s" % e, s, *arr(2), *es), es)
        else:
            o = self.make(kind, lambda: self.do("cee_closure_mk", s, es[0], S.ACTF), es)
        return o

    def add(self, o, x):
        """another element, if the kind takes one"""
        kind, es = self.kinds[o]
        if kind in ("list", "stack", "set"):
            self.on(o, {"list": "cee_list_append", "stack": "cee_stack_push", "set": "cee_set_add"}[kind], o, x)
            es.append(x)
        elif kind == "map":
            k = self.leaf()
            self.on(o, "cee_map_add", o, k, x)
            es += [k, x]
        elif kind == "dict":
            k = self.name("new")
            self.on(o, "cee_dict_add", o, k, x)
            es += [k, x]
        else:
            return False
        return True

    def drop(self, o):
        """takes one element away, if the kind can; the element"""
        kind, es = self.kinds[o]
        if kind == "list" and es:
            self.on(o, "cee_list_remove", o, 0)
            return es.pop(0)
        if kind == "stack" and es:
            self.on(o, "cee_stack_pop", o)
            return es.pop()
        if kind == "set" and es:
            self.on(o, "cee_set_remove", o, es[0])
            return es.pop(0)
        if kind == "map" and es:
            self.on(o, "cee_map_remove", o, es[0])
            x = es[1]
            del es[:2]
            return x
        return None

    def reads(self, o):
        """what is wrong with the contents of o"""
        kind, es = self.kinds[o]
        c, L = self.c, self.c.L
        n = len(es)
        if kind in ("boxed", "block", "name", "state"):
            return None
        if kind == "list":
            got = self.items(o)
        elif kind == "stack":
            if self.on(o, "cee_stack_size", o) is not const(n):
                return "the number of elements"
            got = [self.on(o, "cee_stack_top", o, n - 1 - i) for i in range(n)]
        elif kind == "set":
            if self.on(o, "cee_set_size", o) is not const(n):
                return "the number of elements"
            got = [self.on(o, "cee_set_find", o, x) for x in es]
        elif kind == "map":
            if self.on(o, "cee_map_size", o) is not const(n // 2):
                return "the number of keys"
            got = sum(([k, self.on(o, "cee_map_find", o, k)] for k in es[::2]), [])
        elif kind == "dict":
            got = sum(([k, self.on(o, "cee_dict_find", o, k)] for k in es[::2]), [])
        else:
            offs = {"tagged": lambda: [L.off("cee_tagged", "ptr")], "env": lambda: [L.off("cee_env", "outer"), L.off("cee_env", "vars")],
                    "closure": lambda: [L.off("cee_closure", "env")]}.get(kind, lambda: [8 * i for i in range(n)])()
            got = [self.ptr(vadd(o, const(x))) for x in offs]
        return None if got == list(es) else "the elements"

    # --- expectation
    def reach(self, o, out):
        if o in self.kinds and o not in out:
            out.append(o)
            for x in self.kinds[o][1]:
                self.reach(x, out)

    def alive(self):
        out = [self.state]
        for r in self.roots:
            self.reach(r, out)
        return out

    def show(self, o):
        k, es = self.kinds[o]
        return k + ("" if not es else "(%s)" % ", ".join(self.show(x) if x in self.kinds else "NULL" for x in es))


class Story:
    def __init__(self, ctx, c, order):
        self.ctx, self.c = ctx, c
        self.g = G(c, order)

    def fail(self, rule, kind, msg):
        fn = "cee_state_gc"
        f = self.c.fn(fn)
        self.ctx.check(False, rule, kind, msg, "%s:%d (%s)" % (f.loc() + (fn,)))
        return False

    def judge(self, what, old, subject):
        """after a collection: nothing alive is freed, it reads as before, and what was garbage two collections ago is gone"""
        g, ctx = self.g, self.ctx
        if g.problem:
            return self.fail("alive", subject, "%s (%s)" % (g.problem, what))
        live = g.alive()
        for o in live:
            ctx.ob("alive")
            lost = [b for b in g.own.get(o, []) if b in g.freed and o is not g.state]
            if lost:
                return self.fail("alive", subject, "a %s that is held is freed %s" % (g.show(o), what))
            bad = g.reads(o)
            if bad or g.problem:
                return self.fail("alive", subject, "a %s that is held changes %s %s" % (g.show(o), bad or g.problem, what))
        for o in list(old):
            if o in live:
                continue
            ctx.ob("gone")
            if any(b not in g.freed for b in g.own.get(o, [])):
                return self.fail("gone", subject, "a %s that nothing holds is not freed by two collections %s" % (g.show(o), what))
        return True

    def gc(self, what, old, subject):
        self.g.on(self.g.state, "cee_state_gc", self.g.state)
        return self.judge(what, old, subject)

    def end(self, subject):
        g = self.g
        g.on(g.state, "cee_del", g.state)
        if g.problem:
            return self.fail("whole", subject, "deleting the state %s" % g.problem)
        left = [o for o, bs in g.own.items() if any(b not in g.freed for b in bs)]
        if left:
            return self.fail("whole", subject, "the state is deleted and keeps a %s" % g.show(left[0]))
        self.ctx.ob("whole")
        return True


ARITY = {"list": 3, "stack": 2, "set": 3, "map": 4, "dict": 4, "tuple": 2, "triple": 3, "quadruple": 4, "n_tuple": 5, "tagged": 1, "env": 2, "closure": 1}


def fill(g, kind, pos=None, x=None, off=0):
    """elements for a container of the kind, x at the place pos; None if x cannot be there"""
    n = ARITY[kind]
    if kind == "env":
        outer = x if pos == 0 else ZERO
        if pos == 0 and g.kinds[x][0] != "env" or pos == 1 and g.kinds[x][0] != "map":
            return None
        return [outer, x if pos == 1 else g.build("map", [g.leaf(off), g.leaf(off + 1)])]
    if kind == "closure":
        if pos == 0:
            return [x] if g.kinds[x][0] == "env" else None
        return [g.build("env", [ZERO, g.build("map", [g.leaf(off), g.leaf(off + 1)])])]
    es = []
    for i in range(n):
        if i == pos:
            if kind == "dict" and i % 2 == 0:
                return None
            es.append(x)
        elif kind == "dict" and i % 2 == 0:
            es.append(g.name("k%d" % i))
        else:
            es.append(g.leaf(off + i))
    return es


def collected(ctx, c, outer, pos, inner, order, variant):
    s = Story(ctx, c, order)
    g = s.g
    subject = "%s in %s" % (inner, outer)
    try:
        junk0 = g.leaf(1)
        x = g.build(inner, fill(g, inner))
        es = fill(g, outer, pos, x, 1)
        if es is None:
            return
        y = g.build(outer, es)
        key = None
        if variant & 1:
            key = g.name("ctx")
            g.on(g.state, "cee_state_add_context", g.state, key, y)
            g.roots += [key, y]
        else:
            g.on(g.state, "cee_state_add_gc_root", g.state, y)
            g.roots.append(y)
        # garbage: one that shares an element with what is held, one that does not
        shared = g.kinds[x][1][-1]
        j1 = g.build("tuple", [shared, x])
        j2 = g.build(inner, fill(g, inner, None, None, 2))
        junk = list(g.kinds)
        ok = s.gc("after the first collection", [], subject)
        if ok and variant & 2:
            n = g.leaf(2)
            g.add(y, n)
            g.add(x, n)
            g.build("list", [n])
        if ok and variant & 4:
            g.drop(x)
        if ok and variant & 16:
            # from now on only a container made after the collection holds the old objects
            z = g.build(outer, fill(g, outer, pos, x, 2))
            g.on(g.state, "cee_state_add_gc_root", g.state, z)
            if key is None:
                g.on(g.state, "cee_state_remove_gc_root", g.state, y)
                g.roots = [z]
            else:
                g.on(g.state, "cee_state_remove_context", g.state, key)
                key = None
                g.roots = [z]
            y = z
        if ok and variant & 8:
            return s.end(subject) if s.judge("before the state is deleted", [], subject) else None
        ok = ok and s.gc("after the second collection", [] if variant & 16 else [o for o in junk if o not in (x, y)] if not variant & 4 else [junk0, j1, j2], subject)
        junk = list(g.kinds)
        ok = ok and s.gc("after the third collection", [], subject) and s.gc("after the fourth collection", junk, subject)
        if not ok:
            return
        if key is not None:
            r = g.on(g.state, "cee_state_get_context", g.state, key)
            if r is not y:
                return s.fail("alive", subject, "the context is %r" % r)
            g.on(g.state, "cee_state_remove_context", g.state, key)
            g.roots = []
        else:
            g.on(g.state, "cee_state_remove_gc_root", g.state, y)
            g.roots = []
        ok = s.gc("after the root is taken away", [], subject) and s.gc("after the root is taken away", junk, subject)
        if ok:
            z = g.build(inner, fill(g, inner))
            g.on(g.state, "cee_state_add_gc_root", g.state, z)
            g.roots = [z]
            ok = s.gc("when the state is used again", [], subject)
        return ok and s.end(subject)
    except S.Many as e:
        s.fail("alive", subject, str(e))
    finally:
        ctx.used(g.it)


def owned(ctx, c, kind, pol, nested, order, first):
    """two containers share an element; both are deleted, in either order"""
    s = Story(ctx, c, order)
    g = s.g
    subject = "%s owns" % kind

    def fail(msg):
        f = c.fn("cee_del")
        ctx.check(False, "owned", subject, "%s (policy %d)" % (msg, pol), "%s:%d (cee_del)" % f.loc())
    try:
        es = fill(g, kind)
        a = g.build(kind, es, pol)
        inner = None
        if nested:
            inner = a
            a = g.build("tuple", [a, g.leaf()], pol)
        share = es[-1]
        b = g.build("list", [share], c.RC if pol == c.RC else c.NOOP)
        if g.problem:
            return fail(g.problem)
        gone = lambda o: all(x in g.freed for x in g.own.get(o, []))
        partly = lambda o: any(x in g.freed for x in g.own.get(o, []))
        mine = [o for o in es if o in g.kinds]
        todo = [a, b] if first else [b, a]
        deleted = []
        for o in todo:
            g.on(o, "cee_del", o)
            deleted.append(o)
            if g.problem:
                return fail("deleting a %s: %s" % (g.show(o), g.problem))
            dead = set(deleted)
            if pol != c.NOOP and a in dead:
                dead |= set(g.kinds[a][1]) if nested else set()
                for e in mine:
                    if pol == c.DEL or e is not share or b in dead:
                        dead.add(e)
            for q in g.kinds:
                if q is g.state or q in subs(g, mine):
                    continue
                ctx.ob("owned")
                if q in dead and not gone(q):
                    return fail("a %s is left when a %s is deleted" % (g.show(q), g.show(o)))
                if q not in dead and partly(q):
                    return fail("a %s is freed when a %s is deleted" % (g.show(q), g.show(o)))
            if o is b and pol == c.RC and not first and gone(share):
                return fail("the shared element is freed too early")
        s.end(subject)
    except S.Many as e:
        fail(str(e))
    finally:
        ctx.used(g.it)


def mixed(ctx, c, kind, pols, first):
    """a container that owns its elements in different ways; those counted are shared with a list"""
    s = Story(ctx, c, 1)
    g = s.g
    subject = "%s owns" % kind

    def fail(msg):
        f = c.fn("cee_del")
        ctx.check(False, "owned", subject, "%s (policies %s)" % (msg, pols), "%s:%d (cee_del)" % f.loc())
    try:
        es = fill(g, kind)
        if kind == "env":
            es[0] = g.build("env", [ZERO, g.build("map", [g.leaf(), g.leaf(1)])])
        per = [pols[i % len(pols)] for i in range(len(es))]
        a = g.build(kind, es, tuple(pols))
        b = g.build("list", [e for e, p in zip(es, per) if p != c.DEL], c.RC)
        if g.problem:
            return fail(g.problem)
        deleted = []
        for o in [a, b] if first else [b, a]:
            g.on(o, "cee_del", o)
            deleted.append(o)
            if g.problem:
                return fail("deleting a %s: %s" % (g.show(o), g.problem))
            for e, p in zip(es, per):
                ctx.ob("owned")
                want = a in deleted if p == c.DEL else len(deleted) == 2 if p == c.RC else b in deleted
                bs = g.own.get(e, [])
                if want and not all(x in g.freed for x in bs) or not want and any(x in g.freed for x in bs):
                    return fail("a %s is %s when a %s is deleted" % (g.show(e), "left" if want else "freed", g.show(o)))
        s.end(subject)
    except S.Many as e:
        fail(str(e))
    finally:
        ctx.used(g.it)


def subs(g, mine):
    """what the elements themselves hold"""
    out = []
    for e in mine:
        for x in g.kinds[e][1]:
            g.reach(x, out)
    return out


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        k = 0
        for outer in ARITY:
            for inner in ARITY:
                for pos in range(ARITY[outer]):
                    if outer in ("env", "closure") and (outer, pos, inner) not in (("env", 0, "env"), ("env", 1, "map"), ("closure", 0, "env")) or outer == "dict" and pos % 2 == 0:
                        continue
                    k += 1
                    for v in [v for v in range(32) if (v ^ k) & 1] if thorough else (k % 8 + 16 * (k // 5 % 2), 8 + (k + 3) % 8)[:2 if k % 4 == 0 else 1]:
                        jobs.append(lambda x, a=(outer, pos, inner, 1 - 2 * (k // 2 % 2), v): collected(x, c, *a))
        for kind in ARITY:
            if kind == "closure":
                continue
            for pol in (c.RC, c.DEL, c.NOOP) if kind != "n_tuple" or c.has("cee_n_tuple_mk_e") else (c.RC,):
                for nested in (0, 1):
                    for first in (0, 1):
                        if pol == c.DEL and not first:
                            continue
                        jobs.append(lambda x, a=(kind, pol, nested, 1, first): owned(x, c, *a))
        three = (c.RC, c.DEL, c.NOOP)
        for kind, n in ("map", 2), ("tuple", 2), ("triple", 3), ("quadruple", 4), ("env", 2):
            for pols in itertools.product(three, repeat=n):
                if len(set(pols)) == 1 or n == 4 and not thorough and len(set(pols[:2])) + len(set(pols[2:])) == 4 and pols[0] == c.NOOP:
                    continue
                for first in (0, 1):
                    jobs.append(lambda x, a=(kind, pols, first): mixed(x, c, *a))
        parallel(ctx, jobs)
