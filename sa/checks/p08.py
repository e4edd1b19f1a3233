"""P08: the search tree behind maps and sets."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

MIN = {"find": 60, "insert": 60, "delete": 60, "balance": 100, "visit": 30, "destroy": 30}
EXPLAIN = ("The tree functions are analysed abstractly on materialised heap shapes: every height-balanced tree of up to three levels "
           "(four in the thorough tier, a spread of them), with symbolic keys and a comparison function whose outcome is left open "
           "(all three signs are followed at every comparison; no path is widened). Rule find: the node returned is the one whose key "
           "compared equal, NULL after a search that ran off the tree. Rule insert/delete: afterwards the in-order sequence of keys is "
           "the old one with the new key at the place the comparisons lead to / without the deleted key; one node is allocated / freed, "
           "and searching again takes the same turns. Rule balance: every node's height field is right and siblings differ by at most "
           "one. Rule visit: the walker calls the action once per node as leaf, or once each as preorder, postorder, endorder. "
           "Rule destroy: every node is freed once, after its key was handed to the callback (when there is one).")
ASSUME = ["the comparison function is a total order that does not change while elements are stored"]

CMP = "sa_cmp"
ACT = "sa_act"


class Lay:
    pass


def layout(ctx, c):
    """key, child and height offsets of a node, from what an insertion into an empty tree writes"""
    it = interp(c)
    st = A.State()
    root = K.obj("root")
    K.put(st, root, ZERO, 8, None, "ptr")
    key = K.obj("key")
    ps = [p for p in it.run("musl_tsearch", [K.obj("cxt"), key, root, av(A.atom("fn", CMP))], st) if p.kind == "ret"]
    ctx.need(len(ps) == 1, "insertion into an empty tree has %d outcomes" % len(ps))
    p = ps[0]
    al = [e for e in C.flat(p.ev) if e.kind == "alloc"]
    ctx.need(len(al) == 1 and al[0].ret is p.ret, "insertion into an empty tree does not return its new node")
    L = Lay()
    L.key = L.h = None
    L.kids = []
    for a, e in sorted(p.st.mem.items(), key=lambda x: x[0].c):
        if len(a.t) == 1 and a.t[0][0] is p.ret.single():
            if e[0] is key:
                L.key = a.c
            elif e[0] is ZERO and e[1] == 8:
                L.kids.append(a.c)
            elif e[0] is A.ONE:
                L.h, L.hs = a.c, e[1]
    ctx.need(L.key == 0 and len(L.kids) == 2 and L.h is not None, "a tree node is not a key, two children and a height")
    return L


def interp(c, **kw):
    def cmp(it, I, name, args, st):
        out = []
        for v in (-1, 0, 1):
            s = st.copy() if v < 1 else st
            it.emit(s, "cmp", I, cxt=args[0], a=args[1], b=args[2], val=v)
            out.append(("ret", const(v), s))
        return out

    def act(it, I, name, args, st):
        it.emit(st, "act", I, args=args)
        return [("ret", ZERO, st)]
    it = c.interp(opaque=set(), models={CMP: cmp, ACT: act})
    it.exact = 40
    it.prog.override = {}
    return it


def shapes(h):
    """balanced trees of exactly height h: None or (left, right)"""
    if h == 0:
        return [None]
    a, b = shapes(h - 1), shapes(h - 2) if h >= 2 else []
    return [(l, r) for l in a for r in a] + [(l, r) for l in a for r in b] + [(l, r) for l in b for r in a]


def height(s):
    return 0 if s is None else 1 + max(height(s[0]), height(s[1]))


class Tree:
    def __init__(self, L, shape):
        self.L = L
        self.st = A.State()
        self.root = K.obj("rootp")
        self.nodes, self.keys = [], []
        self.kid = {}
        self.top = self.build(shape, 0)
        K.put(self.st, self.root, self.top, 8, None, "ptr")
        self.shape = shape

    def build(self, s, lvl):
        if s is None:
            return ZERO
        l = self.build(s[0], lvl + 1)
        n, k = K.obj("n%d" % len(self.nodes)), K.obj("k%d" % len(self.nodes))
        self.nodes.append(n)
        self.keys.append(k)
        r = self.build(s[1], lvl + 1)
        L = self.L
        K.put(self.st, vadd(n, const(L.key)), k, 8, None, "ptr")
        for o, v in zip(L.kids, (l, r)):
            K.put(self.st, vadd(n, const(o)), v, 8, None, "ptr")
        K.put(self.st, vadd(n, const(L.h)), const(height(s)), L.hs, None, "i%d" % (8 * L.hs))
        self.kid[n] = (l, r)
        return n

    def key(self, n):
        return self.keys[self.nodes.index(n)]


def read(it, st, L, root):
    """(in-order [(node, key)], problem)"""
    out = []
    bad = []

    def go(n, depth):
        if n is ZERO:
            return 0
        if depth > 12 or n.single() is None or n.single().kind != "heap":
            bad.append("a child pointer is %r" % n)
            return 0
        if any(n is x for x, k in out):
            bad.append("a node is in the tree twice")
            return 0
        g = lambda o, sz=8: it.reduce(st, it.load(st, vadd(n, const(o)), sz, None, "ptr" if sz == 8 else "i%d" % (8 * sz)))
        hl = go(g(L.kids[0]), depth + 1)
        out.append((n, g(L.key)))
        hr = go(g(L.kids[1]), depth + 1)
        h = g(L.h, L.hs)
        if not h.is_const() or h.c != 1 + max(hl, hr):
            bad.append("the height of a node is recorded as %r instead of %d" % (h, 1 + max(hl, hr)))
        if abs(hl - hr) > 1:
            bad.append("siblings differ by %d in height" % abs(hl - hr))
        return 1 + max(hl, hr)
    top = it.reduce(st, it.load(st, root, 8, None, "ptr"))
    go(top, 0)
    return out, bad


def search(tr, p, key, cxt):
    """follow the comparisons of a path: (place in the in-order sequence, equal node or None, problem)"""
    n = tr.top
    lo, hi = 0, len(tr.nodes)
    for e in p.ev:
        if e.kind != "cmp":
            continue
        if e.cxt is not cxt:
            return None, None, "the comparison gets context %r" % e.cxt
        if n is ZERO:
            return None, None, "a comparison after the search ran off the tree"
        k = tr.key(n)
        sw = e.a is not key
        x, y = (e.b, e.a) if sw else (e.a, e.b)
        if x is not key or y is not k:
            return None, None, "compares %r with %r instead of the key with the node reached" % (e.a, e.b)
        v = -e.val if sw else e.val
        i = tr.nodes.index(n)
        if v == 0:
            return i, n, None
        tr.turn = tr.turn if tr.turn is not None else 1
        if v < 0:
            hi = i
            n = tr.kid[n][0]
        else:
            lo = i + 1
            n = tr.kid[n][1]
    if n is not ZERO:
        return None, None, "the search stops before it reaches the end of the tree"
    return lo, None, None


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        L = layout(ctx, c)
        orient(ctx, c, L)
        todo = []
        for h in range(0, 4):
            todo += shapes(h)
        if ctx.tier == "thorough":
            todo += shapes(4)
        else:
            todo += shapes(4)[::45]
        for s in todo:
            one(ctx, c, L, s)


def orient(ctx, c, L):
    """the first child offset is the side smaller keys go to (from a search in a two node tree)"""
    for first in (0, 1):
        tr = Tree(L, ((None, None), (None, None)))
        key = K.obj("key")
        for p in interp(c).run("musl_tfind", [K.obj("cxt"), key, tr.root, av(A.atom("fn", CMP))], tr.st):
            cs = [e for e in p.ev if e.kind == "cmp"]
            if len(cs) == 2 and (cs[0].val < 0) == (cs[0].a is key):
                other = cs[1].b if cs[1].a is key else cs[1].a
                if other is tr.keys[2]:
                    L.kids.reverse()
                return


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


def one(ctx, c, L, shape):
    cxt, key = K.obj("cxt"), K.obj("key")
    fnc = av(A.atom("fn", CMP))
    n = "%d nodes" % count(shape)
    # ---- find
    tr = Tree(L, shape)
    tr.turn = None
    it = interp(c)
    w = where(c, "musl_tfind")
    for p in it.run("musl_tfind", [cxt, key, tr.root, fnc], tr.st):
        if p.kind != "ret":
            continue
        i, eq, bad = search(tr, p, key, cxt)
        want = eq if eq is not None else ZERO
        if not bad and p.ret is not want:
            bad = "returns %r although the search %s" % (p.ret, "found the key" if eq is not None else "found nothing")
        if not bad and [e for e in C.flat(p.ev) if e.kind in ("store", "alloc", "free") and not local(e)]:
            bad = "changes the tree"
        ctx.check(not bad, "find", "musl_tfind", "%s (%s)" % (bad, n), w)
    ctx.used(it)
    # ---- insert
    tr = Tree(L, shape)
    tr.turn = None
    it = interp(c)
    w = where(c, "musl_tsearch")
    for p in it.run("musl_tsearch", [cxt, key, tr.root, fnc], tr.st):
        if p.kind != "ret":
            continue
        i, eq, bad = search(tr, p, key, cxt)
        seq, hb = read(it, p.st, L, tr.root)
        old = list(zip(tr.nodes, tr.keys))
        al = [e for e in C.flat(p.ev) if e.kind == "alloc"]
        fr = [e for e in C.flat(p.ev) if e.kind == "free"]
        if not bad:
            if eq is not None:
                if p.ret is not eq:
                    bad = "returns %r instead of the node with an equal key" % p.ret
                elif al or fr or not same(seq, old):
                    bad = "changes the tree although it holds an equal key"
            else:
                want = old[:i] + [(p.ret, key)] + old[i:]
                if len(al) != 1 or fr or al[0].ret is not p.ret:
                    bad = "returns %r after %d allocations" % (p.ret, len(al))
                elif not same(seq, want):
                    bad = "the keys in order are %s instead of %s" % ([k for x, k in seq], [k for x, k in want])
        ctx.check(not bad, "insert", "musl_tsearch", "%s (%s)" % (bad, n), w)
        ctx.check(not hb, "balance", "musl_tsearch", "%s (%s)" % (hb and hb[0], n), w)
    ctx.used(it)
    # ---- delete
    tr = Tree(L, shape)
    tr.turn = None
    it = interp(c)
    w = where(c, "musl_tdelete")
    for p in it.run("musl_tdelete", [cxt, key, tr.root, fnc], tr.st):
        if p.kind != "ret":
            continue
        i, eq, bad = search(tr, p, key, cxt)
        seq, hb = read(it, p.st, L, tr.root)
        old = list(zip(tr.nodes, tr.keys))
        al = [e for e in C.flat(p.ev) if e.kind == "alloc"]
        fr = [e for e in C.flat(p.ev) if e.kind == "free"]
        pr = K.problems(p)
        if not bad:
            if pr:
                bad = "%s of a node" % pr[0].kind
            elif eq is None:
                if p.ret is not ZERO:
                    bad = "returns %r although no key is equal" % p.ret
                elif al or fr or not same(seq, old):
                    bad = "changes the tree although no key is equal"
            else:
                want = tr.keys[:i] + tr.keys[i + 1:]
                if al or len(fr) != 1 or not any(fr[0].p is x for x in tr.nodes):
                    bad = "frees %s" % [e.p for e in fr]
                elif any(x is fr[0].p for x, k in seq):
                    bad = "the freed node is still in the tree"
                elif len(seq) != len(want) or any(k is not q for (x, k), q in zip(seq, want)):
                    bad = "the keys in order are %s instead of %s" % ([k for x, k in seq], want)
                else:
                    par = next((x for x in tr.nodes if any(k is tr.nodes[i] for k in tr.kid[x])), None)
                    if par is not None and p.ret is not par:
                        bad = "returns %r instead of the node above" % p.ret
                    elif p.ret is not ZERO and not any(x is p.ret for x, k in seq):
                        bad = "returns %r, which is no node of the tree" % p.ret
        ctx.check(not bad, "delete", "musl_tdelete", "%s (%s)" % (bad, n), w)
        ctx.check(not hb, "balance", "musl_tdelete", "%s (%s)" % (hb and hb[0], n), w)
    ctx.used(it)
    # ---- walk
    tr = Tree(L, shape)
    it = interp(c)
    w = where(c, "musl_twalk")
    en = c.en
    for p in it.run("musl_twalk", [cxt, tr.top, av(A.atom("fn", ACT))], tr.st):
        if p.kind != "ret":
            continue
        bad = visit(tr, p, cxt, en)
        ctx.check(not bad, "visit", "musl_twalk", "%s (%s)" % (bad, n), w)
    ctx.used(it)
    # ---- destroy
    w = where(c, "musl_tdestroy")
    for cb in (av(A.atom("fn", ACT)), ZERO):
        tr = Tree(L, shape)
        it = interp(c, )
        for p in it.run("musl_tdestroy", [cxt, tr.top, cb], tr.st):
            if p.kind != "ret":
                continue
            fr = [e.p for e in C.flat(p.ev) if e.kind == "free"]
            ac = [e.args for e in C.flat(p.ev) if e.kind == "act"]
            bad = None
            pr = K.problems(p)
            if pr:
                bad = "%s of a node" % pr[0].kind
            elif sorted(map(id, fr)) != sorted(map(id, tr.nodes)):
                bad = "frees %d of %d nodes" % (len(fr), len(tr.nodes))
            elif cb is not ZERO and sorted(id(a[1]) for a in ac) != sorted(map(id, tr.keys)):
                bad = "hands %d of %d keys to the callback" % (len(ac), len(tr.keys))
            elif any(a[0] is not cxt for a in ac):
                bad = "the callback gets another context"
            ctx.check(not bad, "destroy", "musl_tdestroy", "%s (%s)" % (bad, n), w)
        ctx.used(it)


def visit(tr, p, cxt, en):
    pre, post, end, leaf = (en.get(k, i) for i, k in enumerate(("preorder", "postorder", "endorder", "leaf")))
    acts = [e.args for e in p.ev if e.kind == "act"]
    if [e for e in C.flat(p.ev) if e.kind in ("store", "alloc", "free") and not local(e)]:
        return "changes the tree"
    got = {}
    for i, a in enumerate(acts):
        if a[0] is not cxt:
            return "the action gets context %r" % a[0]
        if not any(a[1] is n for n in tr.nodes):
            return "the action gets %r" % a[1]
        if not a[2].is_const():
            return "the visit kind is %r" % a[2]
        got.setdefault(a[1], []).append((a[2].c, i))
    order = []
    for n in tr.nodes:
        ks = [k for k, i in got.get(n, [])]
        l, r = tr.kid[n]
        if l is ZERO and r is ZERO:
            if ks != [leaf]:
                return "a leaf is visited as %s" % ks
            order.append(got[n][0][1])
        else:
            if ks != [pre, post, end]:
                return "an inner node is visited as %s" % ks
            order.append(got[n][1][1])
    if order != sorted(order):
        return "the nodes are not visited in order"
    return None


def local(e):
    return e.kind == "store" and any(a.kind == "alloca" for a, k in e.addr.t)


def same(a, b):
    return len(a) == len(b) and all(x is y and k is q for (x, k), (y, q) in zip(a, b))


def count(s):
    return 0 if s is None else 1 + count(s[0]) + count(s[1])
