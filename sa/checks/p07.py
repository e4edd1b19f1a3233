"""P07: lists and stacks hold exactly the sequence of elements put into them."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, vscale, ZERO
from checks import core as K

MIN = {"list": 28, "shift": 6, "bounds": 8, "iterate": 8, "stack": 30, "room": 6}
EXPLAIN = ("List and stack operations are analysed on a symbolic container whose size and capacity are symbols with 0 <= size <= capacity "
           "(for stacks, header fields that follow the element count at a fixed distance are inferred from the constructor and shown "
           "inductive). Rule list: the size observed through cee_list_size, the slot an element is stored in, what is returned. Rule shift: "
           "insertion moves each element one slot up starting from the end, removal one slot down starting at the index; no other slot "
           "is written. Rule bounds: refused operations change nothing; writes stay inside the allocated capacity. Rule iterate: the callback sees "
           "every element with its index, in order, until it returns non-zero. Rule stack: LIFO slots. Rule room: capacity matches the memory obtained.")
ASSUME = ["sizes stay below 2^31"]


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        L = Seq(ctx, c)
        L.make()
        L.append()
        L.insert()
        L.remove()
        L.iterate()
        L.merge()
        L.null()
        S = Stack(ctx, c)
        S.run()


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


class Base:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.cls = K.classes(c)

    def obs(self, fn, p, st):
        """value an observer returns in a state"""
        vs = []
        for q in self.c.interp().run(fn, [p], st):
            if q.kind == "ret":
                vs.append(q.ret)
        self.ctx.must(vs, "%s never returns" % fn)
        return vs[0] if all(v is vs[0] for v in vs) else None

    def eq(self, it, st, a, b):
        if a is None or b is None:
            return False
        d = it.reduce(st, vsub(a, b))
        return d is ZERO

    def quiet(self, p, s):
        """no store outside locals, no counters"""
        return not [e for e in C.flat(p.ev) if e.kind in ("free", "realloc", "memset", "copy") or
                    (e.kind == "store" and not is_local(e.addr)) or (e.kind == "call" and e.name in K.COUNTERS | K.DELETERS)]


def is_local(a):
    return any(x.kind == "alloca" for x, k in a.t)


class Seq(Base):
    def start(self):
        c = self.c
        s = K.shaped(c, self.cls["cee_list_mk_e"]["off"], "inner")
        n, cap = self.obs("cee_list_size", s.p, s.st), self.obs("cee_list_capacity", s.p, s.st)
        self.ctx.need(n is not None and cap is not None and not n.is_const(), "list size/capacity are not read from the list")
        s.n, s.cap = n, cap
        s.st.le = s.st.le + (vsub(n, cap), vscale(n, -1))
        it = c.interp()
        s.base = it.load(s.st, s.p, 8, ("struct.cee_list", 0), "ptr")
        return s

    def go(self, fn, s, args, **kw):
        it = self.c.interp(**kw)
        self.w = where(self.c, fn)
        ps = [p for p in it.run(fn, args, s.st) if p.kind == "ret"]
        self.ctx.used(it)
        self.ctx.must(ps, "%s never returns" % fn)
        return it, ps

    def mem(self, it, p, s):
        """final element array, and whether it was moved"""
        b = it.reduce(p.st, it.load(p.st, s.p, 8, ("struct.cee_list", 0), "ptr"))
        return b

    def room(self, key, it, p, s):
        """the array has room for the observed capacity, capacity covers the size, old elements kept"""
        ctx = self.ctx
        b = self.mem(it, p, s)
        n, cap = self.obs("cee_list_size", s.p, p.st), self.obs("cee_list_capacity", s.p, p.st)
        re = [e for e in C.flat(p.ev) if e.kind in ("realloc", "alloc")]
        if b is s.base:
            ctx.check(not re and self.eq(it, p.st, cap, s.cap), "room", key + "/kept", "capacity becomes %r although the memory is the same" % cap, self.w)
        else:
            e = [x for x in re if x.ret is b]
            ok = len(e) == 1 and it.implies_le0(p.st, vsub(vscale(cap, 8), e[0].size))
            ctx.check(ok, "room", key + "/grown", "capacity %r but %s bytes" % (cap, e and e[0].size), self.w)
            if e and e[0].kind == "realloc":
                ctx.check(e[0].old is s.base, "room", key + "/old", "reallocates %r" % e[0].old, self.w)
            elif e:
                cp = [x for x in C.flat(p.ev) if x.kind == "copy" and x.dst is b and x.src is s.base]
                fr = [x for x in C.flat(p.ev) if x.kind == "free" and x.p is s.base]
                ctx.check(len(cp) == 1 and it.implies_le0(p.st, vsub(vscale(s.n, 8), cp[0].n)) and len(fr) == 1, "room", key + "/copied",
                          "the elements are not carried over to the new memory", self.w)
        st = p.st
        if truth(it, st, it.canon(st, "eq", s.n, s.cap)) is True:
            st = st.copy()
            st.le = st.le + (vsub(s.n, s.cap), vsub(s.cap, s.n))
        z = truth(it, st, it.canon(st, "eq", s.cap, ZERO))
        if z is False:
            st = st.copy()
            st.le = st.le + (vsub(A.ONE, s.cap),)
        d = vsub(n, cap)
        ok = it.implies_le0(st, d)
        if not ok:
            # size < capacity before: known from size <= capacity and size != capacity
            k = it.canon(p.st, "eq", s.n, s.cap)
            kv = k[0] if isinstance(k[0], bool) else it.known(p.st, k[0])
            if len(k) > 1 and k[1] is False and isinstance(kv, bool):
                kv = not kv
            ok = kv is False and self.eq(it, p.st, cap, s.cap) and self.eq(it, p.st, n, vadd(s.n, A.ONE))
        ctx.check(ok, "bounds", key + "/capacity", "size %r can exceed capacity %r" % (n, cap), self.w)
        return b, n

    def stores(self, p, s, b):
        """stores into the element array (including inside loops)"""
        out = []
        for e in C.flat(p.ev):
            if e.kind == "store" and not is_local(e.addr):
                at = {x for x, k in e.addr.t}
                if (b.single() in at) or (s.base.single() in at) or C.strip(s.base).single() in {y for x in at for y in C.strip(av(x)).atoms()} and s.block.single() not in at:
                    out.append(e)
        return out

    def make(self):
        c, ctx = self.c, self.ctx
        w = where(c, "cee_list_mk_e")
        it = c.interp()
        for p in it.run("cee_list_mk_e"):
            if p.kind != "ret":
                continue
            cap = av(A.atom("arg", 2, c.fn("cee_list_mk_e").varnames.get(c.fn("cee_list_mk_e").params[2][0], ["cap"])[0]))
            ctx.check(self.obs("cee_list_size", p.ret, p.st) is ZERO, "list", "mk/size", "a new list is not empty", w)
            cp = self.obs("cee_list_capacity", p.ret, p.st)
            b = it.reduce(p.st, it.load(p.st, p.ret, 8, ("struct.cee_list", 0), "ptr"))
            al = [e for e in C.flat(p.ev) if e.kind == "alloc" and e.ret is b]
            ctx.check(len(al) == 1 and it.implies_le0(p.st, vsub(vscale(cp, 8), al[0].size)), "room", "mk", "a new list of capacity %r has memory %r" %
                      (cp, al and al[0].size), w)
        ctx.used(it)

    def append(self):
        c, ctx = self.c, self.ctx
        s = self.start()
        e = K.obj("e")
        it, ps = self.go("cee_list_append", s, [s.p, e])
        for p in ps:
            b, n = self.room("append", it, p, s)
            ctx.check(self.eq(it, p.st, n, vadd(s.n, A.ONE)), "list", "append/size", "appending changes the size to %r" % n, self.w)
            sts = self.stores(p, s, b)
            ok = len(sts) == 1 and sts[0].val is e and vsub(sts[0].addr, b) is vscale(s.n, 8)
            ctx.check(ok, "list", "append/slot", "stores %s" % [(x.addr, x.val) for x in sts], self.w)

    def moves(self, it, p, s, b):
        """[(kind, lp/ev)] bulk moves within the array"""
        out = []
        for e in p.ev:
            if e.kind == "loop" and any(x.kind == "store" and not is_local(x.addr) for i in e.lp["iters"] for x in C.flat(i[0])):
                out.append(("loop", e))
            if e.kind == "copy":
                out.append(("copy", e))
        return out

    def shift(self, key, it, p, s, b, up, lo, hi):
        """
        elements lo..hi-1 each move by one slot (up: i -> i+1, else i -> i-1), none lost
        """
        ctx = self.ctx
        mv = self.moves(it, p, s, b)
        d = 1 if up else -1
        if not mv:
            ok = it.implies_le0(p.st, vsub(hi, lo))
            return None if ok else "the elements behind the index are not moved"
        if len(mv) > 1:
            return "%d bulk moves" % len(mv)
        kind, e = mv[0]
        sb = C.strip(b)
        if kind == "copy":
            src, dst, n = vsub(e.src, b), vsub(e.dst, b), e.n
            if e.fn != "memmove":
                return "overlapping elements are moved with %s" % e.fn
            if vsub(dst, src) is not const(8 * d) or not self.eq(it, p.st, src, vscale(lo, 8)) or not self.eq(it, p.st, n, vscale(vsub(hi, lo), 8)):
                return "moves %r bytes from offset %r to %r" % (n, src, dst)
            return None
        lp = e.lp
        res = None
        for evs, nxt, s2, env in lp["iters"]:
            st = [x for x in C.flat(evs) if x.kind == "store" and not is_local(x.addr)]
            if len(st) != 1:
                return "an iteration writes %d slots" % len(st)
            to = vsub(C.strip(st[0].addr), sb)
            v = C.strip(st[0].val).single()
            if v is None or v.kind not in ("ld", "lmem"):
                return "an iteration stores %r" % st[0].val
            fr = v.args[0] if v.kind == "ld" else C.strip(v.args[1])
            # elements carried over by realloc are still named after their old place
            fr = vsub(fr, sb if sb.single() in C.strip(fr).atoms() else C.strip(s.base))
            if vsub(to, fr) is not const(8 * d):
                return "an iteration moves the element at %r to %r" % (fr, to)
            ph = {a: (nm, i) for nm, (a, i) in lp["phis"].items()}
            m0 = A.subst(fr, {a: C.strip(i) for a, (nm, i) in ph.items()})
            m1 = A.subst(fr, {a: C.strip(nxt[nm]) for a, (nm, i) in ph.items()})
            if vsub(m1, fr) is not const(-8 * d):
                return "successive iterations advance by %r: later moves read overwritten slots" % vsub(m1, fr)
            first = vscale(vsub(hi, A.ONE), 8) if up else vscale(lo, 8)
            if not self.eq(it, p.st, m0, C.strip(first)):
                return "the first element moved is at %r instead of %r" % (m0, first)
            # stays within, and does not stop early
            if up:
                if not C.stripped_le0(it, s2, vsub(vscale(C.strip(lo), 8), fr)):
                    return "moves an element below the index"
                if not C.stripped_le0(it, p.st, vsub(fr, vscale(vsub(C.strip(lo), A.ONE), 8))):
                    return "stops before the element at the index is moved"
            else:
                if not C.stripped_le0(it, s2, vsub(fr, vscale(vsub(C.strip(hi), A.ONE), 8))):
                    return "reads an element beyond the end"
                if not C.stripped_le0(it, p.st, vsub(vscale(C.strip(hi), 8), fr)):
                    return "stops before the last element is moved"
        return res

    def insert(self):
        c, ctx = self.c, self.ctx
        s = self.start()
        e = K.obj("e")
        i = av(A.atom("arg", 1, "index"))
        s.st.le = s.st.le + (vsub(i, s.n), vscale(i, -1))
        it, ps = self.go("cee_list_insert", s, [s.p, i, e])
        for p in ps:
            b, n = self.room("insert", it, p, s)
            ctx.check(self.eq(it, p.st, n, vadd(s.n, A.ONE)), "list", "insert/size", "inserting changes the size to %r" % n, self.w)
            bad = self.shift("insert", it, p, s, b, True, i, s.n)
            ctx.check(not bad, "shift", "insert", bad or "", self.w)
            fin = [x for x in p.ev if x.kind == "store" and x.val is e]
            ok = len(fin) == 1 and vsub(fin[0].addr, b) is vscale(i, 8)
            if ok:
                lps = [k for k, x in enumerate(p.ev) if x.kind in ("loop", "copy")]
                ok = not lps or p.ev.index(fin[0]) > max(lps)
            ctx.check(ok, "list", "insert/slot", "the element is not stored at its index after the others moved", self.w)
            extra = [x for x in p.ev if x.kind == "store" and x in self.stores(p, s, b) and x.val is not e and not in_loop(p, x)]
            ctx.check(not extra, "shift", "insert/extra", "another slot is written", self.w)
        # outside the list
        for cond, nm in ((lambda: (vsub(vadd(s.n, A.ONE), i),), "beyond"), (lambda: (vadd(i, A.ONE),), "negative")):
            s = self.start()
            s.st.le = s.st.le + cond()
            it, ps = self.go("cee_list_insert", s, [s.p, i, e])
            for p in ps:
                if nm == "negative" and not it.implies_le0(p.st, vadd(i, A.ONE)):
                    continue
                if contradicts(it, p.st, i, nm, s):
                    continue
                ctx.check(self.quiet(p, s), "bounds", "insert/" + nm, "an index outside the list changes memory", self.w)

    def remove(self):
        c, ctx = self.c, self.ctx
        i = av(A.atom("arg", 1, "index"))
        s = self.start()
        s.st.le = s.st.le + (vsub(vadd(i, A.ONE), s.n), vscale(i, -1))
        it, ps = self.go("cee_list_remove", s, [s.p, i])
        for p in ps:
            ctx.check(nonzero(it, p.st, p.ret), "list", "remove/result", "returns %r for an index in the list" % p.ret, self.w)
            n = self.obs("cee_list_size", s.p, p.st)
            ctx.check(self.eq(it, p.st, n, vsub(s.n, A.ONE)), "list", "remove/size", "removing changes the size to %r" % n, self.w)
            b = self.mem(it, p, s)
            ctx.check(b is s.base, "list", "remove/memory", "the elements moved elsewhere", self.w)
            bad = self.shift("remove", it, p, s, b, False, vadd(i, A.ONE), s.n)
            ctx.check(not bad, "shift", "remove", bad or "", self.w)
            # stores outside the shift may only hit the index itself before, or the freed last slot after
            lps = [k for k, x in enumerate(p.ev) if x.kind in ("loop", "copy")]
            for k, x in enumerate(p.ev):
                if x.kind == "store" and x in self.stores(p, s, b) and not in_loop(p, x):
                    o = C.strip(vsub(x.addr, b))
                    okb = (o is vscale(i, 8) and (not lps or k < min(lps))) or o is vscale(vsub(C.strip(s.n), A.ONE), 8) and (not lps or k > max(lps))
                    ctx.check(okb, "shift", "remove/extra", "writes the slot at %r" % o, self.w)
        for cond, nm in ((lambda: (vsub(s.n, i), vscale(i, -1)), "beyond"), (lambda: (vadd(i, A.ONE),), "negative")):
            s = self.start()
            s.st.le = s.st.le + cond()
            it, ps = self.go("cee_list_remove", s, [s.p, i])
            for p in ps:
                if contradicts(it, p.st, i, nm, s):
                    continue
                ctx.check(self.quiet(p, s) and p.ret is ZERO, "bounds", "remove/" + nm, "an index outside the list is not refused (%r)" % p.ret, self.w)

    def iterate(self):
        c, ctx = self.c, self.ctx
        s = self.start()
        f = av(A.atom("arg", 2, "f"))
        x = av(A.atom("arg", 1, "ctx"))
        it, ps = self.go("cee_list_iterate", s, [s.p, x, f])
        for p in ps:
            bad = self.iter_path(it, p, s, f, x)
            ctx.check(not bad, "iterate", "cee_list_iterate", bad or "", self.w)

    def iter_path(self, it, p, s, f, x):
        def hit(e):
            if e.kind == "icall" and e.fn is f:
                a = C.strip(e.args[1]).single()
                return a.args[0] if a is not None and a.kind == "ld" else e.args[1]
            return None
        calls = [e for e in C.flat(p.ev) if hit(e) is not None]
        base = C.ld(s.p)
        for e in calls:
            if e.args[0] is not x:
                return "the callback gets context %r" % e.args[0]
            if vsub(hit(e), base) is not vscale(C.strip(e.args[2]), 8):
                return "the callback gets element %r with index %r" % (e.args[1], e.args[2])
        loops = [e for e in p.ev if e.kind == "loop"]
        if len(loops) > 1:
            return "%d loops" % len(loops)
        if not loops:
            return None if not calls and p.ret is ZERO and it.implies_le0(p.st, s.n) else "the elements are not visited"
        l = loops[0]
        part = [e for e in C.flat(l.exit) if hit(e) is not None]
        if part:
            # stopped by the callback: it returned non-zero and that is the result
            if len(part) != 1:
                return "the callback runs %d times in the last round" % len(part)
            r = part[0].ret
            if p.ret is not r and C.strip(p.ret) is not C.strip(r):
                return "stops after a callback but returns %r" % p.ret
            if not nonzero(it, p.st, r):
                return "stops although the callback did not ask for it"
            q = pos_of(l, hit, base)
            return None
        cov = C.covers(it, p.st, [e for e in p.ev], hit, base, s.n)
        if not cov.ok:
            return cov.why
        if cov_dir(l, hit) != 8:
            return "elements are not visited in index order"
        for evs, nxt, s2, env in l.lp["iters"]:
            for e in C.flat(evs):
                if hit(e) is not None and nonzero(it, s2, e.ret):
                    return "goes on although the callback returned non-zero"
                if hit(e) is not None and not iszero(it, s2, e.ret):
                    return "goes on without looking at what the callback returned"
        if not iszero(it, p.st, p.ret) and not last_zero(it, p, l, hit):
            return "returns %r although no callback returned non-zero" % p.ret
        return None

    def merge(self):
        c, ctx = self.c, self.ctx
        s = self.start()
        d = K.obj("dest")
        it, ps = self.go("cee_list_merge", s, [d, s.p], opaque=K.opaque(c.prog) | {"cee_list_append"})
        for p in ps:
            def hit(e):
                if e.kind == "call" and e.name == "cee_list_append":
                    a = C.strip(e.args[1]).single()
                    return a.args[0] if a is not None and a.kind == "ld" else e.args[1]
                return None
            bad = [e for e in C.flat(p.ev) if hit(e) is not None and e.args[0] is not d]
            ctx.check(not bad, "iterate", "merge/dest", "appends to %r" % (bad and bad[0].args[0]), self.w)
            cov = C.covers(it, p.st, p.ev, hit, C.ld(s.p), s.n)
            ctx.check(cov.ok, "iterate", "cee_list_merge", cov.why, self.w)
            for l in p.ev:
                if l.kind == "loop":
                    ctx.check(cov_dir(l, hit) == 8, "iterate", "merge/order", "elements are not appended in order", self.w)

    def null(self):
        c, ctx = self.c, self.ctx
        for fn, args in (("cee_list_size", [ZERO]), ("cee_list_capacity", [ZERO]), ("cee_list_remove", [ZERO, ZERO]),
                         ("cee_list_iterate", [ZERO, ZERO, av(A.atom("arg", 2, "f"))])):
            it = c.interp(loads=True)
            for p in it.run(fn, args):
                bad = [e for e in C.flat(p.ev) if e.kind in ("load", "store") and e.addr.is_const() or e.kind == "icall"]
                ctx.check(p.kind == "ret" and p.ret is ZERO and not bad, "list", fn + "/null", "a NULL list is not treated as empty", where(c, fn))
            ctx.used(it)


def in_loop(p, x):
    return any(e.kind == "loop" and any(x is y for i in e.lp["iters"] for y in C.flat(i[0])) for e in p.ev)


def contradicts(it, st, i, nm, s):
    """the path assumes the index is in range although the precondition says it is not"""
    if nm == "negative":
        return it.implies_le0(st, vscale(i, -1))
    return it.implies_le0(st, vadd(vsub(i, s.n), A.ONE)) and it.implies_le0(st, vsub(vadd(s.n, ZERO), i))


def nonzero(it, st, v):
    v = it.reduce(st, v)
    if v.is_const():
        return v.c != 0
    k = it.canon(st, "eq", v, ZERO)
    return truth(it, st, k) is False


def iszero(it, st, v):
    v = it.reduce(st, v)
    if v.is_const():
        return v.c == 0
    k = it.canon(st, "eq", v, ZERO)
    return truth(it, st, k) is True


def truth(it, st, k):
    if isinstance(k, str):
        return k == "T"
    key, pol = k
    if isinstance(key, bool):
        return key
    v = it.known(st, key)
    if v is None:
        return None
    return v if pol else not v


def pos_of(l, hit, base):
    return None


def cov_dir(l, hit):
    """stride of the visits of a loop"""
    lp = l.lp
    ph = {a: nm for nm, (a, i) in lp["phis"].items()}
    for evs, nxt, s2, env in lp["iters"]:
        for e in C.flat(evs):
            h = hit(e)
            if h is not None:
                h = C.strip(h)
                d = vsub(A.subst(h, {a: C.strip(nxt[nm]) for a, nm in ph.items()}), h)
                return d.c if not d.t else None
    return None


def last_zero(it, p, l, hit):
    """the returned value is the last callback's result, which was zero whenever the loop went on, and starts as zero"""
    r = p.ret.single()
    for nm, (a, init) in l.lp["phis"].items():
        if r is a:
            return init is ZERO and all(iszero(it, x[2], x[1][nm]) for x in l.lp["iters"])
    return False


class Stack(Base):
    def run(self):
        c, ctx = self.c, self.ctx
        d = self.cls["cee_stack_mk_e"]
        # invariants: fields that start k above the size and move with it
        inv = []
        w = where(c, "cee_stack_mk_e")
        it = c.interp()
        fields = {}
        capf = None
        for p in it.run("cee_stack_mk_e"):
            if p.kind != "ret":
                continue
            ctx.check(self.obs("cee_stack_size", p.ret, p.st) is ZERO, "stack", "mk/size", "a new stack is not empty", w)
            for a, e in p.st.mem.items():
                if e[1] == 8 and len(a.t) == 1 and a.t[0][0] is p.ret.t[0][0]:
                    o = vsub(a, p.ret).c
                    if o < -c.SECT:
                        fields[o] = e[0]
            al = [e for e in C.flat(p.ev) if e.kind == "alloc" and e.ret.single() is p.ret.t[0][0]]
            sz = [a for a in c.fn("cee_stack_mk_e").params]
            n = it.arg(c.fn("cee_stack_mk_e"), 2)
            ok = len(al) == 1 and it.implies_le0(p.st, vsub(vadd(const(d["off"]), vscale(n, 8)), al[0].size))
            ctx.check(ok, "room", "stack/mk", "a stack of %r elements has %s bytes" % (n, al and al[0].size), w)
            for o, v in fields.items():
                if v is n:
                    capf = o
        ctx.used(it)
        ctx.need(capf is not None, "no field of a stack records its capacity")
        s0 = K.shaped(c, d["off"], "inner")
        U0 = self.obs("cee_stack_size", s0.p, s0.st)
        ua = U0.single().args[0] if U0.single() is not None and U0.single().kind == "ld" else None
        ctx.need(ua is not None, "the stack's size is not a field of it")
        uo = vsub(ua, s0.p).c
        inv = [(o, v.c - fields[uo].c) for o, v in fields.items() if v.is_const() and o != uo and o != capf]

        def start():
            s = K.shaped(c, d["off"], "inner")
            s.n = self.obs("cee_stack_size", s.p, s.st)
            it = c.interp()
            s.cap = it.load(s.st, vadd(s.p, const(capf)), 8, None, "i64")
            s.st.le = s.st.le + (vsub(s.n, s.cap), vscale(s.n, -1))
            K.put(s.st, vadd(s.p, const(uo)), s.n, 8, None, "i64")
            K.put(s.st, vadd(s.p, const(capf)), s.cap, 8, None, "i64")
            for o, k in inv:
                K.put(s.st, vadd(s.p, const(o)), vadd(s.n, const(k)), 8, None, "i64")
            return s

        def fld(it, p, s, o):
            return it.reduce(p.st, it.load(p.st, vadd(s.p, const(o)), 8, None, "i64"))

        def keep(key, it, p, s, n2):
            n = self.obs("cee_stack_size", s.p, p.st)
            ctx.check(self.eq(it, p.st, n, n2), "stack", key + "/size", "the size becomes %r instead of %r" % (n, n2), self.w)
            ctx.check(self.eq(it, p.st, fld(it, p, s, capf), s.cap), "stack", key + "/capacity", "the capacity changes", self.w)
            for o, k in inv:
                v = fld(it, p, s, o)
                ctx.check(self.eq(it, p.st, v, vadd(n2, const(k))), "stack", key + "/inv", "a header field no longer follows the size: %r" % v, self.w)
        e = K.obj("e")
        nth = av(A.atom("arg", 1, "nth"))

        def go(fn, args, pre=()):
            s = start()
            s.st.le = s.st.le + tuple(f(s) for f in pre)
            it = c.interp()
            self.w = where(c, fn)
            ps = [p for p in it.run(fn, [s.p] + args, s.st) if p.kind == "ret"]
            ctx.used(it)
            ctx.must(ps, "%s never returns" % fn)
            return s, it, ps
        room = lambda s: vadd(vsub(s.n, s.cap), A.ONE)
        full = lambda s: vsub(s.cap, s.n)
        some = lambda s: vsub(A.ONE, s.n)
        none = lambda s: s.n
        # push
        s, it, ps = go("cee_stack_push", [e], [room])
        live = 0
        for p in ps:
            if eqknown(it, p.st, s.n, s.cap):
                continue            # infeasible: full
            live += 1
            sts = [x for x in C.flat(p.ev) if x.kind == "store" and not is_local(x.addr) and vsub(x.addr, s.p).t or (x.kind == "store" and x.val is e)]
            ok = len(sts) == 1 and sts[0].val is e and vsub(sts[0].addr, s.p) is vscale(s.n, 8)
            ctx.check(ok, "stack", "push/slot", "stores %s" % [(x.addr, x.val) for x in sts], self.w)
            ctx.check(nonzero(it, p.st, p.ret), "stack", "push/result", "reports failure although there is room", self.w)
            keep("push", it, p, s, vadd(s.n, A.ONE))
        ctx.need(live, "pushing onto a stack with room is not analysed")
        s, it, ps = go("cee_stack_push", [e], [full])
        for p in ps:
            if eqknown(it, p.st, s.n, s.cap) is False:
                continue
            ctx.check(p.ret is ZERO and self.quiet(p, s), "bounds", "push/full", "pushing onto a full stack is not refused", self.w)
        # pop
        s, it, ps = go("cee_stack_pop", [], [some])
        for p in ps:
            if iszero(it, p.st, s.n):
                continue
            ctx.check(C.strip(p.ret) is C.ld(vadd(s.p, vscale(vsub(C.strip(s.n), A.ONE), 8))), "stack", "pop/slot", "returns %r, not the last element" % p.ret, self.w)
            keep("pop", it, p, s, vsub(s.n, A.ONE))
        s, it, ps = go("cee_stack_pop", [], [none])
        for p in ps:
            if nonzero(it, p.st, s.n):
                continue
            ctx.check(p.ret is ZERO and self.quiet(p, s), "bounds", "pop/empty", "popping an empty stack is not refused", self.w)
        # top
        s, it, ps = go("cee_stack_top", [nth], [lambda s: vadd(vsub(nth, s.n), A.ONE), lambda s: vscale(nth, -1)])
        for p in ps:
            if iszero(it, p.st, s.n) or it.implies_le0(p.st, vsub(s.n, nth)):
                continue
            ctx.check(C.strip(p.ret) is C.ld(vadd(s.p, vscale(vsub(vsub(C.strip(s.n), A.ONE), nth), 8))), "stack", "top/slot", "returns %r, not the nth element from the top" % p.ret, self.w)
            keep("top", it, p, s, s.n)
        s, it, ps = go("cee_stack_top", [nth], [lambda s: vsub(s.n, nth), lambda s: vscale(nth, -1)])
        for p in ps:
            if it.implies_le0(p.st, vadd(vsub(nth, s.n), A.ONE)):
                continue
            ctx.check(p.ret is ZERO, "bounds", "top/beyond", "returns %r for an element that is not there" % p.ret, self.w)
        # empty / full
        for fn, pre, val in (("cee_stack_empty", none, 1), ("cee_stack_empty", some, 0), ("cee_stack_full", full, 1), ("cee_stack_full", room, 0)):
            s, it, ps = go(fn, [], [pre])
            for p in ps:
                r = truthv(it, p.st, p.ret, s)
                ctx.check(r is None or r == bool(val), "stack", fn, "returns %r" % p.ret, self.w)
                ctx.check(r is not None, "stack", fn + "/known", "does not follow from size and capacity: %r" % p.ret, self.w)
                ctx.check(self.quiet(p, s), "stack", fn + "/quiet", "changes the stack", self.w)


def eqknown(it, st, a, b):
    return truth(it, st, it.canon(st, "eq", a, b))


def truthv(it, st, v, s):
    v = it.reduce(st, v)
    if v.is_const():
        return v.c != 0
    return it.truth(st, v)
