"""P28: the hash table, linear search and queue of the musl part hold what was entered."""
import absint as A
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks.p09 import where
from harness import parallel

MIN = {"table": 400, "release": 30, "array": 60, "queue": 60}
EXPLAIN = ("The functions of musl-hsearch.c, musl-lsearch.c and musl-insque.c are analysed on materialised tables, arrays and queues with opaque contents. Rule table: after every entry each key - with equal and different "
           "hashes, also after the table has grown - is found with the data first entered under it, and no other. Rule release: destroying a table frees each block it took exactly once. Rule array: linear search "
           "returns the first element that compares equal, otherwise finds nothing or appends the key. Rule queue: the chain is the expected sequence in both directions.")
ASSUME = ["calloc succeeds"]
NAMES = ["Aa", "BB", "", "a", "i", "q", "y", "AaAa", "BBBB", "AaBB", "\x80", "x", "xx", "C#", "Bb", "CC", "k" * 40]


class H(S.World):
    def __init__(self, c):
        self.text = {}
        m = {n: self._strcmp for n in ("strcmp", "strcoll")}
        m.update({"strlen": self._strlen, "memcmp": self._memcmp, "bcmp": self._memcmp, "strncmp": self._memcmp})
        S.World.__init__(self, c, models=m, exact=4000)
        self.state = None

    def cstr(self, text):
        p = K.obj("s")
        b = text.encode("latin1") + b"\0"
        for i, ch in enumerate(b):
            K.put(self.st, vadd(p, const(i)), const(ch - 256 if ch > 127 else ch), 1, None, "i8")
        self.text[p] = b[:-1]
        return p

    def _strcmp(self, it, I, name, args, st):
        a, b = self.text.get(args[0]), self.text.get(args[1])
        if a is None or b is None:
            self.bad.append(("compares something that is no key", I.loc()))
            return [("ret", ONE, st)]
        return [("ret", const((a > b) - (a < b)), st)]

    def _strlen(self, it, I, name, args, st):
        return [("ret", const(len(self.text[args[0]])), st)] if args[0] in self.text else None

    def _memcmp(self, it, I, name, args, st):
        a, b = self.text.get(args[0]), self.text.get(args[1])
        if a is None or b is None or not args[2].is_const():
            return None
        a, b = (a + b"\0")[:args[2].c], (b + b"\0")[:args[2].c]
        return [("ret", const((a > b) - (a < b)), st)]


def table(ctx, c, size, n, keys, shared):
    """n keys entered into a table made for `size`; shared: the one table without a name"""
    w = H(c)
    bad, fn = None, "musl_hsearch" if shared else "musl_hsearch_r"
    en = c.en
    FIND, ENTER = en.get("FIND", 0), en.get("ENTER", 1)
    tab = None if shared else K.obj("table")
    out = K.obj("ret")
    taken, freed = [], []

    def note():
        for e in w.ev:
            if e.kind == "alloc":
                taken.append(e.ret)
            elif e.kind == "free" and e.p.t:
                freed.append(e.p)
            elif e.kind == "realloc":
                freed.append(e.old)
                taken.append(e.ret)

    def search(key, data, act):
        if shared:
            r = w.call("musl_hsearch", key, data, const(act))
            note()
            return r, ONE if r is not None and r.t else ZERO
        K.put(w.st, out, av(A.atom("arg", 1996, "old")), 8, None, "ptr")
        k = w.call("musl_hsearch_r", key, data, const(act), out, tab)
        note()
        return w.ptr(out), k
    try:
        if tab is not None:
            K.put(w.st, tab, ZERO, 8, None, "ptr")
        r = w.call("musl_hcreate", size) if shared else w.call("musl_hcreate_r", size, tab)
        note()
        if r is None or r is ZERO or not r.is_const():
            bad, fn = "making a table for %d gives %r" % (size, r), "musl_hcreate" if shared else "musl_hcreate_r"
        want = {}
        for i, k in enumerate(keys[:n]):
            if bad:
                break
            p, v = w.cstr(k), w.obj("v%d" % i)
            e, ok = search(p, v, ENTER)
            ctx.ob("table")
            new = k not in want
            if new:
                want[k] = (p, v)
            if e is None or not e.t or ok is None or ok is ZERO:
                bad = "entry %d gives %r and %r" % (i + 1, e, ok)
            elif any(e.b is not None and e.b is q.b for q, _ in w.st.freed):
                bad = "entry %d is given at a place already freed" % (i + 1)
            elif (w.ptr(e), w.ptr(vadd(e, const(8)))) != want[k]:
                bad = "entry %d (%s key) is given as %r: %r" % (i + 1, "new" if new else "known", w.ptr(e), w.ptr(vadd(e, const(8))))
            for x in (list(dict.fromkeys(keys)) if i in (0, 5, 6, n - 1) else ()):
                if bad:
                    break
                e, ok = search(w.cstr(x), w.obj("other"), FIND)
                ctx.ob("table")
                if x in want:
                    if e is None or not e.t or ok is ZERO or (w.ptr(e), w.ptr(vadd(e, const(8)))) != want[x]:
                        bad = "a key among %d entries is not found with its data" % (i + 1)
                elif e is not ZERO or ok is not ZERO:
                    bad = "a key that was not entered gives %r and %r among %d entries" % (e, ok, i + 1)
        if not bad:
            for _ in range(2):
                w.call("musl_hdestroy") if shared else w.call("musl_hdestroy_r", tab)
                note()
            lost = [x for x in taken if x not in freed]
            twice = [x for x in freed if freed.count(x) > 1]
            ctx.check(not lost and not twice, "release", "musl_hdestroy" if shared else "musl_hdestroy_r",
                      "%s after %d entries" % ("keeps memory" if lost else "frees twice", n), where(c, "musl_hdestroy" if shared else "musl_hdestroy_r"))
    except S.Many as e:
        bad = str(e)
    if not bad and w.bad:
        bad = "%s at %s" % w.bad[0]
    ctx.used(w.it)
    ctx.check(not bad, "table", fn, bad or "", where(c, fn))


def array(ctx, c, n, at, fn, width):
    """n elements; the key equals those at the places `at`; what lies behind them is no element"""
    w = H(c)
    base, cnt = K.obj("base"), K.obj("count")
    els = [K.obj("e%d" % i) for i in range(n)]
    room = K.obj("room")
    behind = K.obj("behind")
    for i, e in enumerate(els + [room, behind]):
        K.put(w.st, vadd(base, const(8 * i)), e, 8, None, "ptr")
        if i < n:
            w.rank[e] = 5 if i in at else 10 + i
    K.put(w.st, cnt, const(n), 8, None, "i64")
    key = K.obj("key")
    w.rank[key] = 5
    ks = [av(A.atom("arg", 1900 + i, "key%d" % i)) for i in range(width // 8 + 1)]
    old = [av(A.atom("arg", 1920 + i, "old%d" % i)) for i in range(width // 8 + 1)]
    for i in range(width // 8 + 1):
        K.put(w.st, vadd(key, const(8 * i)), ks[i], 8, None, "i64")
        K.put(w.st, vadd(room, const(8 * i)), old[i], 8, None, "i64")
    bad = None
    try:
        r = w.call(fn, key, base, cnt, width, S.CMPF)
        k = w.read(cnt)
        add = not at and fn == "musl_lsearch"
        if r is not (els[at[0]] if at else room if add else ZERO):
            bad = "gives %r" % r
        elif k is not const(n + (1 if add else 0)):
            bad = "leaves the count %r" % k
        elif [w.ptr(vadd(base, const(8 * i))) for i in range(n + 2)] != els + [room, behind]:
            bad = "changes the array"
        elif [w.read(vadd(room, const(8 * i))) for i in range(width // 8 + 1)] != (ks[:-1] if add else old[:-1]) + old[-1:]:
            bad = "stores something else than the key"
    except S.Many as e:
        bad = str(e)
    if not bad and w.bad:
        bad = "%s at %s" % w.bad[0]
    ctx.used(w.it)
    ctx.check(not bad, "array", fn, "%s for %d elements, equal ones at %r" % (bad, n, list(at)), where(c, fn))


def queue(ctx, c, n, hist):
    """hist: positions of insertion (behind which element), then elements removed"""
    w = H(c)
    q, bad, fn = [], None, "musl_insque"
    els = []

    def wrong():
        for i, e in enumerate(q):
            nx, pv = w.ptr(e), w.ptr(vadd(e, const(8)))
            if nx is not (q[i + 1] if i + 1 < len(q) else ZERO):
                return "element %d of %d is followed by %r" % (i, len(q), nx)
            if pv is not (q[i - 1] if i else ZERO):
                return "element %d of %d is preceded by %r" % (i, len(q), pv)
    try:
        for k, pos in enumerate(hist):
            e = K.obj("q%d" % k)
            for i in range(3):
                K.put(w.st, vadd(e, const(8 * i)), av(A.atom("arg", 1800 + 3 * k + i, "junk")), 8, None, "ptr")
            w.call("musl_insque", e, q[pos] if q else ZERO)
            q.insert(pos + 1 if q else 0, e)
            els.append((e, av(A.atom("arg", 1800 + 3 * k + 2, "junk"))))
            ctx.ob("queue")
            bad = bad or wrong()
        for drop in range(n):
            if bad or not q:
                break
            fn = "musl_remque"
            w2 = w.clone()
            q2 = list(q)
            e = q.pop(drop % len(q))
            w.call("musl_remque", e)
            ctx.ob("queue")
            bad = wrong()
            w, q = (w2, q2) if drop < n - 1 else (w, q)
            if not bad and drop == n - 1:
                while q and not bad:
                    w.call("musl_remque", q.pop(0))
                    bad = wrong()
        if not bad and any(w.ptr(vadd(e, const(16))) is not d for e, d in els):
            bad = "changes the data of an element"
    except S.Many as e:
        bad = str(e)
    if not bad and w.bad:
        bad = "%s at %s" % w.bad[0]
    ctx.used(w.it)
    ctx.check(not bad, "queue", fn, bad or "", where(c, fn))


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        orders = [NAMES, NAMES[::-1], ["BB", "Aa", "BB", "Aa", "q", "BB"] + NAMES[2:]]
        for shared in (0, 1):
            for size in (0, 1, 8, 9, 20):
                for n in (0, 1, 3, 6, 7, 8, 13, 16) if thorough or not shared else (0, 3, 8, 13):
                    for o in orders if n > 1 else orders[:1]:
                        jobs.append(lambda x, a=(size, n, o, shared): table(x, c, *a))
        for fn in ("musl_lsearch", "musl_lfind"):
            for n in range(5):
                for at in [()] + [(i,) for i in range(n)] + [(i, j) for j in range(n) for i in range(j)]:
                    for width in (8, 24) if n in (0, 2) else (16,):
                        jobs.append(lambda x, a=(n, at, fn, width): array(x, c, *a))
        hists = [[]]
        for n in range(1, 6 if thorough else 5):
            hists = [h + [p] for h in hists for p in (range(n - 1) if n > 1 else (0,))]
            for h in hists:
                jobs.append(lambda x, a=(n, h): queue(x, c, *a))
        parallel(ctx, jobs)
