"""P19: cee_json_escape_string writes exactly the JSON string for the bytes it is given."""
import numpy as np

import absint as A
import vset as VS
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import p14 as T
from checks import p15 as P
from harness import parallel

MIN = {"text": 30, "memory": 30, "rest": 60}
EXPLAIN = ("cee_json_escape_string is analysed on texts of up to three unknown bytes (five in the thorough tier), and on longer texts with unknown bytes in them, into a destination with room for the worst case. "
           "Rule text: put between quotes, the bytes written decode, by the grammar of JSON and for every value of the unknown bytes, to exactly the bytes given. Rule memory: nothing "
           "outside the given bytes is read, and nothing outside the bytes reported is written. Rule rest: the count returned, and the place and room left reported, are those of the bytes written.")
ASSUME = ["the destination has room for six bytes for each byte given and a terminator"]
FN = "cee_json_escape_string"


class Esc(T.Tok):
    def __init__(self, c):
        T.Tok.__init__(self, c)
        self.it.by_place = True
        self.it.models.update({n: self._pr for n in ("snprintf", "sprintf")})

    def _pr(self, it, I, n, a, st):
        """one conversion of a tracked byte to hexadecimal digits, by cases of its value"""
        k = 3 if n == "snprintf" else 2
        f = it.prog.cstring(a[k - 1])
        if f not in (b"%04x", b"%04X", b"%02x", b"%02X", b"\\u%04x", b"\\u%04X", b"\\u00%02x", b"\\u00%02X") or len(a) != k + 1:
            raise A.AnalysisError("%s of %r" % (n, f))
        out = []
        for s, x in self.each(st, a[k]):
            b = f % (x & 0xffffffff)
            m = len(b) + 1
            if k == 3 and a[1].is_const():
                m = a[1].c
            for i in range(min(m, len(b) + 1)):
                y = 0 if i == len(b) or i == m - 1 else b[i]
                it.access(s, I, vadd(a[0], const(i)), 1, "store")
                it.store(s, vadd(a[0], const(i)), const(y), 1, None, "i8")
            out.append(("ret", const(len(b)), s))
        return out

    def each(self, st, v):
        v = self.it.reduce(st, v)
        if not v.t:
            return [(st, v.c)]
        d = VS.deps(v)
        if not d or len(d) > 1:
            raise A.AnalysisError("formats %r" % v)
        a = next(iter(d))
        m = self.it.mask(st, a)
        out = []
        for x in VS.DOMS["byte"][m]:
            s = st.copy()
            n = np.zeros(256, dtype=bool)
            n[int(x) + 128] = True
            self.it.setmask(s, a, n)
            out.append((s, int(VS.ev(v, {a: int(x)}))))
        return out


def one(ctx, c, masks, given):
    """given: which of the two results are asked for"""
    w = Esc(c)
    w.it.exact = 2000
    it = w.it
    wh = "%s:%d (%s)" % (c.fn(FN).loc() + (FN,))
    st = w.st.copy()
    st.trace = None
    st.vs = {}
    src, dst, np_, ns = K.obj("src"), K.obj("dst"), K.obj("nextp"), K.obj("sizep")
    n = len(masks)
    st.sizes = dict(st.sizes)
    st.sizes[src.single()] = const(n)
    st.sizes[dst.single()] = const(6 * n + 1)
    vals = []
    for i, m in enumerate(masks):
        xs = VS.DOMS["byte"][m]
        v = const(int(xs[0])) if len(xs) == 1 else av(A.atom("byte", i))
        if len(xs) > 1:
            it.setmask(st, v.single(), m)
        vals.append(v)
        K.put(st, vadd(src, const(i)), v, 1, None, "i8")
    init = [av(A.atom("arg", 400 + i, "old%d" % i)) for i in range(6 * n + 1)]
    for i, v in enumerate(init):
        K.put(st, vadd(dst, const(i)), v, 1, None, "i8")
    room = av(A.atom("arg", 399, "room"))
    p0, s0 = av(A.atom("arg", 398, "old")), av(A.atom("arg", 397, "old"))
    K.put(st, np_, p0, 8, None, "ptr")
    K.put(st, ns, s0, 8, None, "i64")
    show = "%d bytes" % n
    for p in it.run(FN, [src, const(n), dst, room, np_ if given & 1 else ZERO, ns if given & 2 else ZERO], st):
        if not ctx.check(p.kind == "ret", "rest", FN + "/abort", "does not return for %s" % show, wh):
            continue
        ex = bytes((int(VS.DOMS["byte"][it.mask(p.st, v.single())][0]) if v.t else v.c) & 255 for v in vals)
        if any(e.kind in ("oob", "uaf") for e in p.ev):
            for e in p.ev:
                if e.kind in ("oob", "uaf"):
                    ctx.check(False, "memory", FN + "/" + e.kind, "%s outside the bytes it has for %r" % ("reads" if e.access == "load" else "writes", ex), e.where())
            continue
        r = it.reduce(p.st, p.ret)
        if not ctx.check(r.is_const() and 0 <= r.c <= 6 * n, "rest", FN, "returns %r for %r" % (r, ex), wh):
            continue
        same = all(it.reduce(p.st, it.load(p.st, vadd(src, const(i)), 1, None, "i8")) is it.reduce(p.st, v) for i, v in enumerate(vals))
        over = [i for i in range(r.c, 6 * n + 1) if it.reduce(p.st, it.load(p.st, vadd(dst, const(i)), 1, None, "i8")) is not init[i]]
        ctx.check(same and over in ([], [r.c]), "memory", FN, "changes %s for %r" % ("the bytes given" if not same else "byte %s behind the text" % ([i - r.c for i in over[-1:]]), ex), wh)
        q, z = w.at(p.st, np_), w.at(p.st, ns, 8, "i64")
        ctx.check(it.reduce(p.st, vsub(q, vadd(dst, r))) is ZERO if given & 1 else q is p0, "rest", FN + "/next", "gives the next place %r after %r bytes" % (q, r), wh)
        ctx.check(it.reduce(p.st, vsub(z, vsub(room, r))) is ZERO if given & 2 else z is s0, "rest", FN + "/room", "gives the room %r after %r bytes" % (z, r), wh)
        s2 = p.st.copy()
        b2 = K.obj("quoted")
        xs = [const(34)] + [it.load(s2, vadd(dst, const(i)), 1, None, "i8") for i in range(r.c)] + [const(34)]
        for i, v in enumerate(xs):
            K.put(s2, vadd(b2, const(i)), v, 1, None, "i8")
        w.nums = {}
        bad = P.text_bad(w, s2, b2, len(xs), ("str", tuple(vals)), True)
        ctx.check(not bad, "text", FN, "the text of %s %s" % (show, bad), wh)
    ctx.used(it)


def run(ctx):
    thorough = ctx.tier == "thorough"
    a = T.ANY
    lit = lambda b: [T.mask([x if x < 128 else x - 256]) for x in b]
    ts = [([a] * n, g) for n in range(6 if thorough else 4) for g in ((3, 0, 1, 2) if n < 3 else (3,))]
    ts += [(lit(b"abcdefgh" * k) + [a] + lit(b"\n\"" * k) + [a], 3) for k in (1, 2, 5)]
    ts += [(lit(bytes([x])) + [a] + lit(bytes([y])), 3) for x in (0, 1, 8, 31, 34, 92, 127, 128, 255) for y in (0, 10, 13, 31, 92, 117, 200)]
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        parallel(ctx, [lambda x, t=t: one(x, c, *t) for t in sorted(ts, key=lambda t: -sum(m is a for m in t[0]))])
