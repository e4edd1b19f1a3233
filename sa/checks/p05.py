"""P05: storing an element takes one reference under the container's policy, removing it gives that one back."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, vscale, ZERO
from checks import core as K

MIN = {"take": 150, "give": 40, "swap": 12, "derive": 20}
EXPLAIN = ("Every operation that stores or removes an element is analysed once per deletion policy, the policy field(s) of the container "
           "(those its delete action consults, found through the constructor) holding that constant. Rule take: on each path that "
           "stores x there is exactly one cee_incr_indegree(policy, x); on paths that do not store, none. Rule give: on each path that "
           "removes x exactly one cee_decr_indegree(policy, x). Rule swap: replacing a map value takes the new and gives back the old "
           "one, and the pair left in the map still carries the map's policies. Rule derive: lists and sets derived from a map or set "
           "count their elements unless the source leaves them unmanaged.")
ASSUME = ["elements are not NULL", "tree search returns the node of an equal element or a new node holding the key (P08)"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        X = Ops(ctx, c)
        for pol in (c.RC, c.DEL, c.NOOP):
            X.seq(pol)
            X.set(pol)
            X.products(pol)
            for p2 in (c.RC, c.DEL, c.NOOP):
                X.map(pol, p2)
                X.env(pol, p2)
        X.derived()
        X.dict()


class Ops:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.cls = K.classes(c)
        self.pols = K.policies(c)

    def start(self, ctor, pol):
        d = self.cls[ctor]
        s = K.shaped(self.c, d["off"], "inner")
        offs = self.pols.get(ctor, [])
        self.ctx.need(offs or ctor in ("cee_dict_mk_e",), "constructor %s records no policy" % ctor)
        return s, K.policy_lazy(self.c, s, offs, pol)

    def go(self, fn, s, args, lazy, models=None, opaque=()):
        it = self.c.interp(models=models or {}, opaque=K.opaque(self.c.prog) | set(opaque))
        it.lazy = lazy
        ps = [p for p in it.run(fn, args, s.st) if p.kind == "ret"]
        self.ctx.used(it)
        f = self.c.fn(fn)
        self.w = "%s:%d (%s)" % (f.loc() + (fn,))
        self.ctx.must(ps, "%s never returns" % fn)
        return it, ps

    def count(self, p, name, pol, x):
        """(matching, all) calls of incr/decr"""
        al = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == name]
        ok = [e for e in al if e.args[0] is const(pol) and C.strip(e.args[1]) is C.strip(x)]
        return len(ok), len(al)

    def take(self, key, p, pol, xs, gives=()):
        """exactly one incr per x, exactly one decr per give; nothing else (no-op under NOOP)"""
        c, ctx = self.c, self.ctx
        for rule, name, want in (("take", "cee_incr_indegree", list(xs)), ("give", "cee_decr_indegree", list(gives))):
            al = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == name and e.args[0] is not const(c.NOOP)]
            exp = [(po, C.strip(x)) for po, x in want if po != c.NOOP]
            got = [(e.args[0].c if e.args[0].is_const() else e.args[0], C.strip(e.args[1])) for e in al]
            ok = sorted(map(repr, got)) == sorted(map(repr, exp)) and all(any(g[0] == x[0] and g[1] is x[1] for x in exp) for g in got)
            ctx.check(ok, rule, key, "%s is applied to %s instead of %s" % (name, got, exp), self.w)

    # ---- list, stack
    def seq(self, pol):
        c, ctx = self.c, self.ctx
        for fn, k in (("cee_list_append", 1), ("cee_list_insert", 2)):
            s, lazy = self.start("cee_list_mk_e", pol)
            f = c.fn(fn)
            e = K.obj("e")
            args = [s.p] + ([av(A.atom("arg", 1, "index"))] if k == 2 else []) + [e]
            it, ps = self.go(fn, s, args, lazy)
            for p in ps:
                if fn == "cee_list_insert" and not any(x.kind == "store" and x.val is e for x in C.flat(p.ev)):
                    self.take(fn, p, pol, [])       # an insertion that was refused
                    continue
                self.take(fn, p, pol, [(pol, e)])
        s, lazy = self.start("cee_list_mk_e", pol)
        i = av(A.atom("arg", 1, "index"))
        it, ps = self.go("cee_list_remove", s, [s.p, i], lazy)
        for p in ps:
            if p.ret is ZERO:
                self.take("cee_list_remove/refused", p, pol, [])
                continue
            base = C.ld(s.p)
            x = None
            for e in C.flat(p.ev):
                if e.kind == "call" and e.name == "cee_decr_indegree":
                    x = C.strip(e.args[1])
            ok = pol == c.NOOP or (x is not None and x.single() is not None and x.single().kind == "ld" and
                                   vsub(x.single().args[0], base) is vscale(i, 8))
            ctx.check(ok, "give", "cee_list_remove/which", "gives back %r, not the element removed" % x, self.w)
            if x is not None:
                self.take("cee_list_remove", p, pol, [], [(pol, x)])
        s, lazy = self.start("cee_stack_mk_e", pol)
        e = K.obj("e")
        it, ps = self.go("cee_stack_push", s, [s.p, e], lazy)
        for p in ps:
            stored = any(x.kind == "store" and x.val is e for x in C.flat(p.ev))
            ctx.check(stored == (p.ret is not ZERO), "take", "cee_stack_push/result", "reports %r although the element was%s stored" %
                      (p.ret, "" if stored else " not"), self.w)
            self.take("cee_stack_push", p, pol, [(pol, e)] if stored else [])
        s, lazy = self.start("cee_stack_mk_e", pol)
        it, ps = self.go("cee_stack_pop", s, [s.p], lazy)
        for p in ps:
            self.take("cee_stack_pop", p, pol, [], [] if p.ret is ZERO else [(pol, p.ret)])

    # ---- products: constructors
    def products(self, pol):
        c, ctx = self.c, self.ctx
        for fn, k in (("cee_tuple_mk_e", 2), ("cee_triple_mk_e", 3), ("cee_quadruple_mk_e", 4), ("cee_tagged_mk_e", 1)):
            es = [K.obj("e%d" % i) for i in range(k)]
            st = A.State()
            T = K.obj("T")
            o = K.obj("o")
            for i in range(k):
                K.put(st, vadd(o, const(4 * i)), const(pol), 4, None, "i32")
            it = c.interp()
            T_ = c.lazy_chain()
            it.lazy = lambda itp, s, a, sz, tg: const(pol) if sz == 4 and any(x is o.single() for x, kk in a.t) else T_(itp, s, a, sz, tg)
            if fn == "cee_tagged_mk_e":
                args = [T, const(pol), av(A.atom("arg", 2, "tag")), es[0]]
            else:
                args = [T, o] + es
            f = c.fn(fn)
            self.w = "%s:%d (%s)" % (f.loc() + (fn,))
            ps = [p for p in it.run(fn, args, st) if p.kind == "ret"]
            ctx.used(it)
            for p in ps:
                if k == 1:
                    self.take(fn, p, pol, [(pol, es[0])])
                    continue
                # a loop over the elements (or one call per element)
                def hit(e):
                    if e.kind == "call" and e.name == "cee_incr_indegree":
                        if e.args[0] is not const(pol):
                            return None
                        x = C.strip(e.args[1]).single()
                        if x is not None and x.kind == "ld":
                            return x.args[0]
                        for i, y in enumerate(es):
                            if e.args[1] is y:
                                return vadd(p.ret, const(8 * i))
                    return None
                if pol == c.NOOP and not any(e.kind == "call" and e.name in K.COUNTERS for e in C.flat(p.ev)):
                    ctx.ob("take")
                    continue
                cov = C.covers(it, p.st, p.ev, hit, p.ret, const(k))
                ctx.check(cov.ok, "take", fn, "under policy %d: %s" % (pol, cov.why), self.w)
                stray = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in K.COUNTERS and hit(e) is None]
                ctx.check(not stray, "take", fn + "/stray", "takes a reference with another policy or on another object: %r" % stray[:1], self.w)
        fn = "cee_n_tuple_mk"
        if pol == c.RC:
            it = c.interp()
            f = c.fn(fn)
            self.w = "%s:%d (%s)" % (f.loc() + (fn,))
            for p in it.run(fn):
                if p.kind != "ret":
                    continue
                al = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in K.COUNTERS]
                loops = [e for e in p.ev if e.kind == "loop" and any(x.kind == "call" and x.name == "cee_incr_indegree" for i in e.lp["iters"] for x in C.flat(i[0]))]
                ok = len(loops) == 1 and all(sum(1 for x in C.flat(i[0]) if x.kind == "call" and x.name == "cee_incr_indegree") == 1 for i in loops[0].lp["iters"])
                ctx.check(ok, "take", fn, "does not take one reference per element", self.w)
                for l in loops:
                    for evs, nxt, s2, env in l.lp["iters"]:
                        for x in C.flat(evs):
                            if x.kind == "call" and x.name == "cee_incr_indegree":
                                st_ = [y for y in C.flat(evs) if y.kind == "store" and y.val is x.args[1] and y.size == 8 and
                                       any(b is p.ret.t[0][0] for b, kk in y.addr.t)]
                                a = it.reduce(s2, x.args[1]).single()
                                ok = bool(st_) or (a is not None and a.kind == "ld" and any(b is p.ret.t[0][0] for b, kk in a.args[0].t))
                                ctx.check(ok, "take", fn + "/which", "takes a reference on %r, not on the element it stores" % x.args[1], self.w)
            ctx.used(it)

    def env(self, pa, pb):
        c, ctx = self.c, self.ctx
        st = A.State()
        T, o = K.obj("T"), K.obj("o")
        K.put(st, o, const(pa), 4, None, "i32")
        K.put(st, vadd(o, const(4)), const(pb), 4, None, "i32")
        it = c.interp()
        it.lazy = c.lazy_chain()
        a, b = K.obj("outer"), K.obj("vars")
        f = c.fn("cee_env_mk_e")
        self.w = "%s:%d (cee_env_mk_e)" % f.loc()
        for x, y in ((a, b), (a, ZERO), (ZERO, b)):
            for p in it.run("cee_env_mk_e", [T, o, x, y], st):
                if p.kind == "ret":
                    self.take("cee_env_mk_e", p, pa, ([(pa, x)] if x is not ZERO else []) + ([(pb, y)] if y is not ZERO else []))
        ctx.used(it)

    # ---- set
    def tree(self, holder):
        """models of the tree functions: found / not found"""
        c = self.c
        N, N2 = K.obj("node"), K.obj("newnode")
        E = K.obj("existing")
        self.E, self.N, self.N2 = E, N, N2

        def tfind(it, I, name, args, st):
            it.emit(st, "call", I, name=name, args=args, ret=None, defined=True)
            if "found" in st.facts:
                return [("ret", N if st.facts["found"] else ZERO, st)]
            s2 = st.copy()
            st.facts["found"] = True
            K.put(st, N, E, 8, None, "ptr")
            s2.facts["found"] = False
            return [("ret", N, st), ("ret", ZERO, s2)]

        def tsearch(it, I, name, args, st):
            it.emit(st, "call", I, name=name, args=args, ret=None, defined=True)
            outs = []
            if st.facts.get("found") in (None, False):
                s2 = st.copy()
                s2.facts["found"] = False
                s2.facts["inserted"] = True
                K.put(s2, N2, args[1], 8, None, "ptr")
                outs.append(("ret", N2, s2))
            if st.facts.get("found") in (None, True):
                st.facts["found"] = True
                K.put(st, N, E, 8, None, "ptr")
                outs.append(("ret", N, st))
            return outs

        def tdelete(it, I, name, args, st):
            it.emit(st, "call", I, name=name, args=args, ret=None, defined=True)
            st.facts["deleted"] = True
            return [("ret", K.obj("parent"), st)]
        return {"musl_tfind": tfind, "musl_tsearch": tsearch, "musl_tdelete": tdelete}

    def set(self, pol):
        c, ctx = self.c, self.ctx
        v = K.obj("val")
        # adding, with the element itself / another equal one / none already there
        for same in (False, True):
            s, lazy = self.start("cee_set_mk_e", pol)
            m = self.tree(s)
            if same:
                self.E = v
                m = self.tree_same(v)
            it, ps = self.go("cee_set_add", s, [s.p, v], lazy, m)
            for p in ps:
                ins = p.st.facts.get("inserted", False)
                self.take("cee_set_add", p, pol, [(pol, v)] if ins else [])
        s, lazy = self.start("cee_set_mk_e", pol)
        m = self.tree(s)
        it, ps = self.go("cee_set_remove", s, [s.p, v], lazy, m)
        for p in ps:
            ok = bool(p.st.facts.get("found")) == bool(p.st.facts.get("deleted"))
            ctx.check(ok, "give", "cee_set_remove/tree", "the element is gone from the tree: %s, was there: %s" %
                      (p.st.facts.get("deleted"), p.st.facts.get("found")), self.w)
            self.take("cee_set_remove", p, pol, [], [(pol, self.E)] if p.st.facts.get("found") else [])

    def tree_same(self, v):
        m = self.tree(None)
        N, N2 = self.N, self.N2

        def tfind(it, I, name, args, st):
            it.emit(st, "call", I, name=name, args=args, ret=None, defined=True)
            K.put(st, N, v, 8, None, "ptr")
            return [("ret", N, st)]
        return dict(m, musl_tfind=tfind, musl_tsearch=tfind)

    # ---- map
    def map(self, kp, vp):
        c, ctx = self.c, self.ctx
        pol = {}
        offs = self.pols["cee_map_mk_e"]
        ctx.need(len(offs) == 2, "cee_map_mk_e records %d policies" % len(offs))
        tup = self.cls["cee_tuple_mk_e"]
        toff = self.pols["cee_tuple_mk_e"][0][0]
        for o, stride, src in offs:
            pol[(o, stride)] = kp if src.single().args[0].c == 0 else vp
        key, val = K.obj("key"), K.obj("value")

        def existing(st):
            E = K.obj("pair")
            p = vadd(E, const(tup["off"]))
            K.put(st, vadd(p, const(toff)), const(kp), 4, None, "i32")
            K.put(st, vadd(p, const(toff + 4)), const(vp), 4, None, "i32")
            ok, ov = K.obj("oldkey"), K.obj("oldval")
            K.put(st, p, ok, 8, None, "ptr")
            K.put(st, vadd(p, const(8)), ov, 8, None, "ptr")
            return p, ok, ov
        for merge in (False, True):
            d = self.cls["cee_map_mk_e"]
            s = K.shaped(c, d["off"], "inner")
            s.lazy = K.policy_lazy(c, s, offs, pol)
            m = self.tree(s)
            pair, okey, oval = existing(s.st)
            m = self.retree(m, pair)
            T_ = c.lazy_chain()

            def lazy(it, st, a, sz, tg, s=s):
                r = s.lazy(it, st, a, sz, tg)
                return r if r is not None else T_(it, st, a, sz, tg)
            mf = av(A.atom("fn", "user_merge")) if merge else ZERO
            ext = {"user_merge": lambda it, I, n, a, st: [("ret", K.obj("merged"), st)]}
            mv = K.obj("merged")
            ext["user_merge"] = lambda it, I, n, a, st: [("ret", mv, st)]
            it, ps = self.go("cee_map_add_e", s, [s.p, key, val, av(A.atom("arg", 3, "ctx")), mf], lazy, dict(m, **ext),
                             opaque={"cee_list_append"})
            for p in ps:
                self.added(p, it, merge, key, val, mv, pair, okey, oval, kp, vp, tup, toff)
        # remove
        d = self.cls["cee_map_mk_e"]
        s = K.shaped(c, d["off"], "inner")
        s.lazy = K.policy_lazy(c, s, offs, pol)
        m = self.tree(s)
        pair, okey, oval = existing(s.st)
        m = self.retree(m, pair)
        it, ps = self.go("cee_map_remove", s, [s.p, key], lambda i, st, a, sz, tg: s.lazy(i, st, a, sz, tg), m,
                         opaque={"cee_list_remove", "cee_list_size"})
        for p in ps:
            if not p.st.facts.get("found"):
                self.take("cee_map_remove/none", p, vp, [])
                ctx.check(p.ret is ZERO, "give", "cee_map_remove/none", "returns %r for a key it does not have" % p.ret, self.w)
                continue
            self.give_pair("cee_map_remove", p, it, pair, [(kp, okey), (vp, oval)], toff, kp, vp)
            ctx.check(p.ret is oval, "give", "cee_map_remove/result", "returns %r, not the removed value" % p.ret, self.w)
            ctx.check(bool(p.st.facts.get("deleted")), "give", "cee_map_remove/tree", "the pair stays in the tree", self.w)

    def give_pair(self, key, p, it, pair, want, toff, kp, vp):
        """the pair is deleted exactly once and its elements are given back exactly once, directly or by the pair"""
        c, ctx = self.c, self.ctx
        dels = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in ("cee_del", "cee_del_ref") and C.strip(e.args[0]) is C.strip(pair)]
        ctx.check(len(dels) == 1, "give", key + "/pair", "the removed pair is deleted %d times" % len(dels), self.w)
        dec = [(e.args[0], C.strip(e.args[1])) for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_decr_indegree" and
               e.args[0] is not const(c.NOOP)]
        rest = []
        for i, (po, x) in enumerate(want):
            pv = it.reduce(p.st, it.load(p.st, vadd(pair, const(toff + 4 * i)), 4, None, "i32"))
            mine = [q for q in dec if q[1] is x]
            n = len(mine) + (0 if pv is const(c.NOOP) else 1)
            ok = n == (0 if po == c.NOOP else 1) and all(q[0] is const(po) for q in mine)
            ctx.check(ok, "give", key + "/elem%d" % i, "element %d is given back %d times (policy %d; the deleted pair would apply %r)" %
                      (i, n, po, pv), self.w)
            rest += mine
        ctx.check(len(rest) == len(dec), "give", key + "/other", "gives back an object it does not remove", self.w)

    def retree(self, m, E):
        N = self.N

        def wrap(f):
            def g(it, I, name, args, st):
                outs = f(it, I, name, args, st)
                for k, v, s in outs:
                    if v is N:
                        K.put(s, N, E, 8, None, "ptr")
                return outs
            return g
        return {k: wrap(f) for k, f in m.items()}

    def added(self, p, it, merge, key, val, mv, pair, okey, oval, kp, vp, tup, toff):
        c, ctx = self.c, self.ctx
        made = c.created(p)
        # pairs created on the way
        pairs = [vadd(x[0], const(c.SECT)) for x in made if x[2].val.single().args[0] == tup["trace"]]
        ins = p.st.facts.get("inserted", False)
        inc = [(e.args[0], e.args[1]) for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_incr_indegree" and e.args[0] is not const(c.NOOP)]
        dec = [(e.args[0], e.args[1]) for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_decr_indegree" and e.args[0] is not const(c.NOOP)]
        # constructor loops name elements by their slot in the pair
        bal = {}

        def note(po, x, d):
            for t in pairs:
                r = vsub(C.strip(x), C.strip(t))
            a = C.strip(x).single()
            bal.setdefault((po, C.strip(x)), 0)
            bal[(po, C.strip(x))] += d
        fld = lambda t, i: it.reduce(p.st, it.load(p.st, vadd(t, const(8 * i)), 8, None, "ptr"))
        fpol = lambda t, i: it.reduce(p.st, it.load(p.st, vadd(t, const(toff + 4 * i)), 4, None, "i32"))
        if ins:
            w = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "musl_tsearch"]
            t = w[-1].args[1] if w else None
            ctx.check(t in pairs, "take", "cee_map_add/pair", "the tree is given %r, not a new pair" % t, self.w)
            if t not in pairs:
                return
            dels = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in K.DELETERS]
            ctx.check(not dels, "take", "cee_map_add/kept", "the inserted pair is deleted", self.w)
            ctx.check(fld(t, 1) is val, "take", "cee_map_add/value", "the new pair's value is %r" % fld(t, 1), self.w)
            for i, (po, x) in enumerate(((kp, key), (vp, val))):
                pv = final_policy(it, p, t, toff, i, po)
                ctx.check(pv, "take", "cee_map_add/policy%d" % i, "element %d of the new pair is left with policy %r instead of %d" % (i, fpol(t, i), po), self.w)
            n = refs(c, p, t, key, 0, kp)
            ctx.check(n == (0 if kp == c.NOOP else 1), "take", "cee_map_add/key", "takes %s references on the key (policy %d)" % (n, kp), self.w)
            n = refs(c, p, t, val, 1, vp)
            ctx.check(n == (0 if vp == c.NOOP else 1), "take", "cee_map_add/val", "takes %s references on the value (policy %d)" % (n, vp), self.w)
            return
        # the key exists
        new = fld(pair, 1)
        want = mv if merge else val
        ctx.check(new is want, "swap", "cee_map_add/value", "the map now holds %r instead of %r" % (new, want), self.w)
        ctx.check(fld(pair, 0) is okey, "swap", "cee_map_add/key", "the pair's key changed", self.w)
        ctx.check(p.ret is oval, "swap", "cee_map_add/result", "returns %r, not the value replaced" % p.ret, self.w)
        for i, po in ((0, kp), (1, vp)):
            ctx.check(fpol(pair, i) is const(po), "swap", "cee_map_add/policy%d" % i, "the pair is left with policy %r" % fpol(pair, i), self.w)
        # what remains after the temporary pairs, deleted once each, have given back what their policies say
        back = {}
        for t in pairs:
            dels = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in ("cee_del", "cee_del_ref") and e.args[0] is t]
            ctx.check(len(dels) == 1, "swap", "cee_map_add/temp", "the unused pair is deleted %d times" % len(dels), self.w)
            for i in (0, 1):
                x = fld(t, i)
                if not final_policy(it, p, t, toff, i, c.NOOP):
                    back[x] = back.get(x, 0) + 1
                    ctx.check(final_policy(it, p, t, toff, i, (kp, vp)[i]), "swap", "cee_map_add/temp%d" % i,
                              "the unused pair gives back element %d with policy %r" % (i, fpol(t, i)), self.w)
        for nm, x, po, want_n in (("new", want, vp, 1), ("old", oval, vp, -1), ("key", key, kp, 0), ("oldkey", okey, kp, 0)) + \
                ((("given", val, vp, 0),) if merge else ()):
            n = refs(c, p, None, x, 0, po)
            if not isinstance(n, str):
                n -= back.get(x, 0)
            w_ = 0 if po == c.NOOP else want_n
            ctx.check(n == w_, "swap", "cee_map_add/" + nm, "changes the references on %r by %s instead of %d" % (x, n, w_), self.w)

    # ---- containers derived from maps and sets
    def derived(self):
        c, ctx = self.c, self.ctx
        for fn, ctor, which in (("cee_map_keys", "cee_map_mk_e", 0), ("cee_map_values", "cee_map_mk_e", 4),
                                ("cee_map_insertion_ordered_keys", "cee_map_mk_e", 0), ("cee_set_values", "cee_set_mk_e", None)):
            offs = self.pols[ctor]
            for pol in (c.RC, c.DEL, c.NOOP):
                d = self.cls[ctor]
                s = K.shaped(c, d["off"], "inner")
                # the other policy gets a different value
                other = c.NOOP if pol != c.NOOP else c.RC
                pm = {}
                for o, stride, src in offs:
                    a = src.single()
                    pm[(o, stride)] = pol if which is None or a.args[0].c == which else other
                lz = K.policy_lazy(c, s, offs, pm)
                it, ps = self.go(fn, s, [s.p], lz, opaque={"cee_list_mk_e", "cee_list_mk", "cee_list_append", "cee_list_size", "cee_use_realloc"})
                want = c.NOOP if pol == c.NOOP else c.RC
                for p in ps:
                    mk = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in ("cee_list_mk_e", "cee_list_mk") and e.ret is p.ret]
                    got = None
                    if len(mk) == 1:
                        got = mk[0].args[1] if mk[0].name == "cee_list_mk_e" else const(c.RC)
                    ctx.check(got is const(want), "derive", fn, "elements under policy %d are listed under policy %r instead of %d" % (pol, got, want), self.w)
                    if len(mk) == 1:
                        ctx.check(C.strip(mk[0].args[0]) is s.T, "derive", fn + "/state", "the list belongs to %r, not to the container's state" % mk[0].args[0], self.w)
        # union, clones
        for pol in (c.RC, c.DEL, c.NOOP):
            s, lazy = self.start("cee_set_mk_e", pol)
            it, ps = self.go("cee_set_clone", s, [s.p], lazy, opaque={"cee_set_mk_e", "cee_set_mk", "cee_set_iterate"})
            for p in ps:
                mk = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_set_mk_e" and e.ret is p.ret]
                ctx.check(len(mk) == 1 and mk[0].args[1] is const(pol), "derive", "cee_set_clone", "a clone does not have its source's policy", self.w)
            offs = self.pols["cee_map_mk_e"]
            d = self.cls["cee_map_mk_e"]
            s = K.shaped(c, d["off"], "inner")
            it, ps = self.go("cee_map_clone", s, [s.p], None, opaque={"cee_map_mk_e", "cee_map_mk", "cee_map_merge"})
            for p in ps:
                mk = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_map_mk_e" and e.ret is p.ret]
                ok = len(mk) == 1
                if ok:
                    for o, stride, src in offs:
                        k = src.single().args[0].c
                        a = vadd(mk[0].args[1], const(k))
                        v = it.load(p.st, a, 4, None, "i32")
                        if C.strip(a) is not vadd(s.p, const(o)) and C.strip(v) is not C.ld(vadd(s.p, const(o))):
                            ok = False
                ctx.check(ok, "derive", "cee_map_clone", "a clone does not have its source's policies", self.w)
            s, lazy = self.start("cee_set_mk_e", pol)
            s2 = K.obj("s2")
            it, ps = self.go("cee_set_union_set", s, [K.obj("T2"), s.p, s2], lazy,
                             opaque={"cee_set_mk_e", "cee_set_mk", "cee_set_values", "cee_list_size", "cee_set_add"})
            want = c.NOOP if pol == c.NOOP else c.RC
            for p in ps:
                mk = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in ("cee_set_mk_e", "cee_set_mk") and e.ret is p.ret]
                if p.ret is ZERO:
                    continue
                got = None
                if len(mk) == 1:
                    got = mk[0].args[1] if mk[0].name == "cee_set_mk_e" else const(c.RC)
                ctx.check(got is const(want), "derive", "cee_set_union_set", "a union of elements under policy %d has policy %r" % (pol, got), self.w)

    def dict(self):
        """a dict stores the key and the value by appending them to its lists"""
        c, ctx = self.c, self.ctx
        d = self.cls["cee_dict_mk_e"]
        s = K.shaped(c, d["off"], "inner")
        k, v = K.obj("key"), K.obj("value")
        it, ps = self.go("cee_dict_add", s, [s.p, k, v], None, opaque={"cee_list_append"})
        for p in ps:
            al = [e for e in C.flat(p.ev) if e.kind == "call" and e.name == "cee_list_append"]
            lists = {C.strip(e.args[0]) for e in al}
            ok = sorted(repr(e.args[1]) for e in al) == sorted([repr(k), repr(v)]) and lists == {C.ld(vadd(s.p, const(o))) for o in d["subs"]}
            ctx.check(ok, "take", "cee_dict_add", "key and value are not appended once each to the dict's two lists", self.w)
            cnt = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in K.COUNTERS]
            ctx.check(not cnt, "take", "cee_dict_add/extra", "takes another reference beside its lists", self.w)


def refs(c, p, t, x, slot, pol, only_slot=False):
    """net references taken on element x"""
    n = 0
    for e in C.flat(p.ev):
        if e.kind == "call" and e.name in K.COUNTERS and e.args[1] is x and e.args[0] is not const(c.NOOP):
            if pol is not None and e.args[0] is not const(pol):
                return "%d (with policy %r)" % (n + 1, e.args[0])
            n += 1 if e.name == "cee_incr_indegree" else -1
    return n


def final_policy(it, p, t, toff, i, want):
    """policy slot i of pair t ends as `want`"""
    v = it.reduce(p.st, it.load(p.st, vadd(t, const(toff + 4 * i)), 4, None, "i32"))
    return v is const(want)
