"""P27: string views cut, search, compare and convert exactly the text they view."""
import itertools

import numpy as np

import absint as A
import ceelib as C
import vset as VS
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import p14 as T
from harness import parallel

MIN = {"value": 500, "view": 300, "memory": 500}
EXPLAIN = ("Every function of strview.c is analysed on views whose bytes are unknown: each byte carries the set of values it can still have, every condition splits the sets, so that a path stands for all "
           "texts that take it. Rule value: what the function returns (a view, a truth value, a number) is what the reference gives for every text of the path. Rule view: the view that is cut holds exactly "
           "the rest, and a result that is not wanted is not stored. Rule memory: no byte outside the views is read and none is written.")
ASSUME = ["C locale", "a predicate is a function of its character", "the views given to a function lie inside memory"]

SP = set(b" \t\n\v\f\r")
PRED = "sa_pred"


class Reject(Exception):
    pass


class SV(T.Tok):
    """views on bytes; no managed objects"""

    def __init__(self, prog):
        self.prog = prog
        self.text, self.order = {}, {}
        self.errno, self.ctab, self.ctp = K.obj("errno"), av(A.atom("op", "nonneg", "ctype")), K.obj("ctypep")
        it = self.it = VS.VInterp(prog, opaque=set())
        it.exact = 2000
        it.init_globals = True
        it.keep_conds = False
        it.max_paths = 200000
        it.max_steps = 100000000
        m = {"__ctype_b_loc": self._ctype, "memcmp": self._memcmp, "bcmp": self._memcmp, "strncmp": self._memcmp, "memchr": self._chr, "tolower": self._case, "toupper": self._case,
             "strlen": self._len, PRED: self._pred}
        for n in VS.CT:
            m[n] = self._is
        it.models.update(m)
        it.lazy = self._lazy
        prog.override = {}

    def _chr(self, it, I, n, a, st):
        """memchr for a byte that may be unknown"""
        if not a[2].is_const():
            raise A.AnalysisError("memchr of unknown length")
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == a[2].c:
                out.append(("ret", ZERO, s))
                continue
            p = vadd(a[0], const(i))
            for s2, tv in it.decide(s, self.eq(s, self.raw(I, s, p), a[1])):
                if tv:
                    out.append(("ret", p, s2))
                else:
                    todo.append((s2, i + 1))
        return out

    def _pred(self, it, I, n, a, st):
        """a predicate: an opaque function of the byte it is given"""
        v = it.reduce(st, a[0])
        for x, r in st.mon or ():
            if x is v:
                return [("ret", const(r), st)]
        out = []
        for r in (0, 1):
            s = st.copy()
            s.mon = (s.mon or ()) + ((v, r),)
            out.append(("ret", const(r), s))
        return out


class Text:
    """a view on bytes: each a constant or a mask of values"""

    def __init__(self, w, st, name, masks, lone=True):
        self.base = K.obj(name)
        self.n = len(masks)
        self.vals = []
        st.sizes = dict(st.sizes)
        st.sizes[self.base.single()] = const(self.n)
        for i, m in enumerate(masks):
            xs = VS.DOMS["byte"][m]
            v = const(int(xs[0])) if len(xs) == 1 else av(A.atom("byte", "%s%d" % (name, i)))
            if len(xs) > 1:
                w.it.setmask(st, v.single(), m)
            self.vals.append(v)
            K.put(st, vadd(self.base, const(i)), v, 1, None, "i8")

    def args(self):
        return [const(self.n), self.base]


def members(w, st, vals, related):
    """one text for every way the bytes of the path can relate to the classes of characters and (if related) to each other"""
    sets = []
    for v in vals:
        v = w.it.reduce(st, v)
        sets.append([v.c & 255] if not v.t else sorted(int(x) & 255 for x in VS.DOMS["byte"][w.it.mask(st, v.single())]))
    fixed = {s[0] for s in sets if len(s) == 1} if related else ()
    # small alphabets in full; of a large set two of each class and what the others can be
    small = set().union(*[s for s in sets if 1 < len(s) <= 8]) if related else ()
    out = []
    for s in sets:
        if len(s) == 1 or related and len(s) <= 8:
            out.append(s)
            continue
        pick, seen = set(), {}
        for x in s:
            if x in fixed or x in small:
                pick.add(x)
            k = (x in SP, 48 <= x < 58, 65 <= x < 91, 97 <= x < 123, x >= 128)
            seen.setdefault(k, []).append(x)
        for xs in seen.values():
            pick |= set(xs[:2])
            # the same letter in both cases
            pick |= {x for x in xs if (x ^ 32) in fixed or x + 32 in fixed or x - 32 in fixed}
        out.append(sorted(pick))
    n = 1
    for s in out:
        n *= len(s)
    if n > 1 << 20:
        raise A.AnalysisError("too many texts on a path (%d)" % n)
    return [bytes(t) for t in itertools.product(*out)]


# ------------------------------------------------------------------ reference
def lead(t, f):
    n = 0
    while n < len(t) and f(t[n]):
        n += 1
    return n


def low(t):
    return bytes(c + 32 if 65 <= c < 91 else c for c in t)


def r_trim(l, r):
    def f(t):
        i = lead(t, SP.__contains__) if l else 0
        k = lead(t[i:][::-1], SP.__contains__) if r else 0
        return ("view", i, len(t) - i - k)
    return f


def number(t):
    n = lead(t, lambda c: 48 <= c < 58)
    return (int(t[:n] or b"0") % (1 << 64), n)


def first(t, d):
    i = t.find(bytes([d]))
    return i


def spec():
    """fn -> (kinds of arguments, reference(text, other arguments) -> (result, rest, stored))
       result: ("view", start, length) | ("bool", b) | ("num", n); rest: (start, length) of the view that is cut; stored: value at the pointer"""
    S = {}
    S["sv_trim_left"] = ("V", lambda t: (r_trim(1, 0)(t), None, None))
    S["sv_trim_right"] = ("V", lambda t: (r_trim(0, 1)(t), None, None))
    S["sv_trim"] = ("V", lambda t: (r_trim(1, 1)(t), None, None))

    def left(t, n):
        n = min(n % (1 << 64), len(t))
        return ("view", 0, n), (n, len(t) - n), None

    def right(t, n):
        n = min(n % (1 << 64), len(t))
        return ("view", len(t) - n, n), (0, len(t) - n), None
    S["sv_chop_left"] = ("Pn", left)
    S["sv_chop_right"] = ("Pn", right)

    def index(t, d, o):
        i = first(t, d)
        return ("bool", i >= 0), None, (i if i >= 0 else None)
    S["sv_index_of"] = ("Vco", index)

    def tries(t, d, o):
        i = first(t, d)
        return ("bool", i >= 0), ((i + 1, len(t) - i - 1) if i >= 0 else (0, len(t))), ((0, i) if i >= 0 else None)
    S["sv_try_chop_by_delim"] = ("PcO", tries)

    def chop(t, d):
        i = first(t, d)
        return (("view", 0, i), (i + 1, len(t) - i - 1), None) if i >= 0 else (("view", 0, len(t)), (len(t), 0), None)
    S["sv_chop_by_delim"] = ("Pc", chop)

    def chops(t, d):
        i = t.find(d)
        return (("view", 0, i), (i + len(d), len(t) - i - len(d)), None) if i >= 0 else (("view", 0, len(t)), (len(t), 0), None)
    S["sv_chop_by_sv"] = ("PD", chops)
    S["sv_eq"] = ("VW", lambda t, u: (("bool", t == u), None, None))
    S["sv_eq_ignorecase"] = ("VW", lambda t, u: (("bool", low(t) == low(u)), None, None))
    S["sv_starts_with"] = ("VW", lambda t, u: (("bool", t.startswith(u)), None, None))
    S["sv_ends_with"] = ("VW", lambda t, u: (("bool", t.endswith(u)), None, None))
    S["sv_to_u64"] = ("V", lambda t: (("num", number(t)[0]), None, None))
    S["sv_chop_u64"] = ("P", lambda t: (("num", number(t)[0]), (number(t)[1], len(t) - number(t)[1]), None))
    return S


def result(w, st, r, i):
    """field i of a returned view"""
    r = A.op("extract", r, const(i)) if r.single() is None else r
    s = r.single()
    while s is not None and s.kind == "op" and s.args[0] == "insert":
        if s.args[3] == (i,):
            return w.it.reduce(st, s.args[2])
        s = s.args[1].single()
    return None


class Run:
    def __init__(self, ctx, w, fn):
        self.ctx, self.w, self.fn = ctx, w, fn
        f = w.prog.find(fn)
        if f is None:
            raise C.Broken("function %s not found" % fn)
        self.wh = "%s:%d (%s)" % (f.loc() + (fn,))

    def start(self):
        st = A.State()
        st.trace = None
        st.vs = {}
        return st

    def view(self, st, t, name="view"):
        """a view in memory"""
        p = K.obj(name)
        st.sizes = dict(st.sizes)
        st.sizes[p.single()] = const(16)
        K.put(st, p, const(t.n), 8, None, "i64")
        K.put(st, vadd(p, const(8)), t.base, 8, None, "ptr")
        return p

    def field(self, st, p, i):
        return self.w.it.reduce(st, self.w.it.load(st, vadd(p, const(8 * i)), 8, None, "ptr" if i else "i64"))

    def part(self, st, t, n, d):
        """(start, length) of the part of t that (n, d) views"""
        r = self.w.it.reduce
        if n is None or d is None:
            raise A.AnalysisError("a view that is not understood")
        n, d = r(st, n), r(st, vsub(d, t.base))
        return (d.c, n.c % (1 << 64)) if n.is_const() and d.is_const() else ("?", repr(n), repr(d))

    def is_view(self, st, t, n, d, start, length):
        return self.part(st, t, n, d) == (start, length)

    def memory(self, p, ts, ex):
        w = self.w
        for e in p.ev:
            if e.kind == "oob":
                self.ctx.check(False, "memory", self.fn, "%s outside the text for %s" % ("reads" if e.access == "load" else "writes", ex), e.where())
                return False
        for t in ts:
            same = all(w.it.reduce(p.st, w.it.load(p.st, vadd(t.base, const(i)), 1, None, "i8")) is w.it.reduce(p.st, v) for i, v in enumerate(t.vals))
            if not self.ctx.check(same, "memory", self.fn, "changes the text %s" % ex, self.wh):
                return False
        return True

    def one(self, kinds, ref, t, others):
        """kinds/others: c a mask of one character, n a number, o/O a pointer wanted or not, W/D masks of another view"""
        ctx, w = self.ctx, self.w
        st = self.start()
        T1 = Text(w, st, "t", t)
        ts, args, unk, refargs = [T1], [], list(T1.vals), []
        ptr = out = None
        if kinds[0] == "P":
            ptr = self.view(st, T1)
            args.append(ptr)
        else:
            args += T1.args()
        for k, x in zip(kinds[1:], others):
            if k == "c":
                v = av(A.atom("byte", "c"))
                xs = VS.DOMS["byte"][x]
                if len(xs) == 1:
                    v = const(int(xs[0]))
                else:
                    w.it.setmask(st, v.single(), x)
                args.append(v)
                refargs.append(("c", len(unk)))
                unk.append(v)
            elif k == "n":
                args.append(const(x))
                refargs.append(("n", x))
            elif k in "oO":
                if x:
                    out = K.obj("out")
                    st.sizes = dict(st.sizes)
                    st.sizes[out.single()] = const(8 if k == "o" else 16)
                    old = [av(A.atom("arg", 1990 + i, "old")) for i in range(2)]
                    for i in range(1 if k == "o" else 2):
                        K.put(st, vadd(out, const(8 * i)), old[i], 8, None, "ptr" if i else "i64")
                args.append(out if x else ZERO)
                refargs.append(("n", x))
            else:
                T2 = Text(w, st, "u", x)
                ts.append(T2)
                args += T2.args()
                refargs.append(("t", len(unk), T2.n))
                unk += T2.vals
        for p in w.it.run(self.fn, args, st):
            n = T1.n
            if not ctx.check(p.kind == "ret", "value", self.fn + "/abort", "does not return for a text of %d bytes" % n, self.wh):
                continue
            mem = members(w, p.st, unk, any(k in "coOWD" for k in kinds))
            show = "%r" % (mem[0][:n],) + "".join(", %r" % (mem[0][r[1]:r[1] + r[2]] if r[0] == "t" else mem[0][r[1]:r[1] + 1] if r[0] == "c" else r[1]) for r in refargs)
            if not self.memory(p, ts, show):
                continue
            got = self.outcome(p, T1, unk, mem)
            rest = self.part(p.st, T1, self.field(p.st, ptr, 0), self.field(p.st, ptr, 1)) if ptr is not None else None
            stored = None
            if out is not None:
                f = [self.field(p.st, out, i) for i in range(1 if "o" in kinds else 2)]
                kept = all(x is y for x, y in zip(f, old))
                stored = f[0].c if f[0].is_const() else repr(f[0])
                if "O" in kinds and f[1].b is T1.base.b:
                    stored = self.part(p.st, T1, f[0], f[1])
            for i, x in enumerate(mem):
                a = [x[r[1]] if r[0] == "c" else x[r[1]:r[1] + r[2]] if r[0] == "t" else r[1] for r in refargs]
                want = ref(x[:n], *a)
                g = got if isinstance(got, tuple) else got[i]
                bad = None
                if g != want[0]:
                    rule, bad = "value", "gives %r instead of %r" % (g, want[0])
                elif ptr is not None and rest != want[1]:
                    rule, bad = "view", "leaves %r instead of %r" % (rest, want[1])
                elif out is not None and want[2] is None and kept is not True:
                    rule, bad = "view", "stores a result without a find"
                elif out is not None and want[2] is not None and stored != want[2]:
                    rule, bad = "view", "stores %r instead of %r" % (stored, want[2])
                if bad:
                    s = "%r" % x[:n] + "".join(", %r" % (chr(y) if r[0] == "c" else y,) for y, r in zip(a, refargs))
                    ctx.check(False, rule, self.fn, "%s for %s" % (bad, s), self.wh)
                    break
            else:
                ctx.ob("value")
                if ptr is not None or out is not None:
                    ctx.ob("view")
                ctx.ob("memory")

    def outcome(self, p, t, unk, mem):
        """what is returned: one outcome, or a list with one for each text"""
        w = self.w
        n = result(w, p.st, p.ret, 0)
        if n is not None:
            return ("view",) + self.part(p.st, t, n, result(w, p.st, p.ret, 1))
        r = w.it.reduce(p.st, p.ret)
        f = self.w.prog.find(self.fn)
        kind = "bool" if str(f.ret) == "i1" else "num"
        put = lambda k: (kind, bool(k & 1)) if kind == "bool" else (kind, k % (1 << 64))
        if not r.t:
            return put(r.c)
        if not VS.deps(r):
            return (kind, repr(r))
        return [put(int(VS.ev(r, {v.single(): c - 256 if c > 127 else c for v, c in zip(unk, x) if v.t}))) for x in mem]


def cases(fn, kinds, thorough):
    a = T.ANY
    lit = lambda b: [T.mask([x if x < 128 else x - 256]) for x in b]
    N = 5
    t0 = [[a] * n for n in range(N + 1)]
    out = []
    k = kinds[1:]
    if k == "":
        if "u64" in fn:
            d = [T.DIG]
            t0 = [[a] * n for n in range(4)] + [d * n + [a] for n in range(1, N)] + [lit(b"1844674407370955161") + d + [a], lit(b"9223372036854775807") + d + d, lit(b"00") + d * 2, lit(b"-") + d, lit(b"+") + d]
        else:
            t0 += [lit(b" a ") + [a] + lit(b"b\t") + [a], lit(b"  ") + [a] + lit(b"\v\f\r\n"), [a] + lit(b"\0 x") + [a], lit(b"        "), [a] + lit(b"\x80\xff") + [a]]
        out = [(t, ()) for t in t0]
    elif k == "n":
        out = [(t, (n,)) for t in t0[:N] + [lit(b"abcdefghij")] for n in (0, 1, 2, 3, 4, 9, 10, 11, (1 << 31), (1 << 32), (1 << 63) - 1, -1)]
    elif k in ("c", "co", "cO"):
        few = T.mask([0, 44, 65, 97, -128, -1])
        ones = [T.mask([x]) for x in (44, 0, -128, -1)]
        ts = [(t, m) for t in t0[:2] for m in [a]] + [([few] * n, few) for n in range(N + 1)] + [([a] * n, m) for n in range(2, 5) for m in ones]
        ts += [(t, m) for t in (lit(b"a,b,c"), lit(b"ab") + [a] + lit(b"\xff\x80") + [a], lit(b",,"), lit(b"\0\0,")) for m in ones]
        for t, m in ts:
            if 1:
                out += [(t, (m,) + ((x,) if len(k) > 1 else ())) for x in ((0, 1) if len(k) > 1 else (0,))]
    elif k == "D":
        ds = [[a], lit(b", "), lit(b"aa"), lit(b"aab"), lit(b"\r\n\r\n")]
        AB = T.mask("ab")
        few = T.mask([0, 44, 97, -128, -1])
        out += [(t, (d,)) for t in t0[:4] for d in ds[1:]] + [([few if n > 1 else a] * n, ([few if n > 1 else a],)) for n in range(N + 1)]
        out += [([AB] * n, ([AB] * m,)) for n in range(6 if thorough else 5) for m in (1, 2, 3)]
        out += [(lit(b"abc, def, g"), (lit(d),)) for d in (b", ", b"g", b", g", b"abc", b"abc, def, g", b"abc, def, gh", b"z")]
    elif k == "W":
        h = [T.mask(x) for x in ("aA@", "zZ[", "`a{", "bB")]
        out += [([a] * n, ([a] * m,)) for n in range(3) for m in range(3) if n * m < 2]
        out += [(lit(x), (lit(y),)) for x in (b"", b"abc", b"Abc", b"ab\0c", b"ab\0d", b"abcabd", b"\xe0\xc0") for y in (b"", b"abc", b"ABC", b"bc", b"ab\0d", b"\0d", b"abd", b"abcabdx", b"c", b"\xc0\xe0", b"\xe0\xc0")]
        out += [([x, y], ([z, u],)) for x in h[:2] for y in h[2:] for z in h[:2] for u in h[2:]]
        out += [([a, x], (lit(b"x") + [y],)) for x in h for y in h[:2]]
        out += [(lit(b"x") + [a] + lit(b"y"), (lit(y),)) for y in (b"x", b"xQ", b"y", b"Qy", b"xQy", b"xqy", b"XqY")]
    return out


def simple(ctx, prog):
    w = SV(prog)
    r = Run(ctx, w, "sv_from_parts")
    n, d = av(A.atom("arg", 0, "n")), av(A.atom("arg", 1, "d"))
    for p in w.it.run("sv_from_parts", [d, n], r.start()):
        ok = p.kind == "ret" and result(w, p.st, p.ret, 0) is n and result(w, p.st, p.ret, 1) is d
        ctx.check(ok, "value", "sv_from_parts", "gives another view", r.wh)
    r = Run(ctx, w, "sv_from_cstr")
    for k in range(5):
        st = r.start()
        t = Text(w, st, "t", [~T.mask([0])] * k + [T.mask([0])])
        for p in w.it.run("sv_from_cstr", [t.base], st):
            if ctx.check(p.kind == "ret", "value", "sv_from_cstr/abort", "does not return", r.wh) and r.memory(p, [t], "of %d characters" % k):
                ok = r.is_view(p.st, t, result(w, p.st, p.ret, 0), result(w, p.st, p.ret, 1), 0, k)
                ctx.check(ok, "value", "sv_from_cstr", "gives another view for %d characters" % k, r.wh)
    ctx.used(w.it)


def large(ctx, prog):
    """views longer than any int, whose bytes nobody looks at"""
    w = SV(prog)
    big = (1 << 33) + 5
    for fn, right in (("sv_chop_left", 0), ("sv_chop_right", 1)):
        r = Run(ctx, w, fn)
        for n in (0, 3, (1 << 31) + 1, (1 << 32) + 2, big, big + 1, -1):
            st = r.start()
            t = Text(w, st, "t", [])
            t.n = big
            ptr = r.view(st, t)
            m = min(n % (1 << 64), big)
            for p in w.it.run(fn, [ptr, const(n)], st):
                if not ctx.check(p.kind == "ret", "value", fn + "/abort", "does not return", r.wh) or not r.memory(p, [], "of %d bytes" % big):
                    continue
                got = r.part(p.st, t, result(w, p.st, p.ret, 0), result(w, p.st, p.ret, 1))
                ctx.check(got == ((big - m, m) if right else (0, m)), "value", fn, "gives %r of %d bytes asked for %d" % (got, big, n), r.wh)
                rest = r.part(p.st, t, r.field(p.st, ptr, 0), r.field(p.st, ptr, 1))
                ctx.check(rest == ((0, big - m) if right else (m, big - m)), "view", fn, "leaves %r of %d bytes asked for %d" % (rest, big, n), r.wh)
    ctx.used(w.it)


def whiles(ctx, prog, fn, n):
    w = SV(prog)
    r = Run(ctx, w, fn)
    st = r.start()
    st.mon = ()
    t = Text(w, st, "t", [T.ANY] * n)
    f = av(A.atom("fn", PRED))
    cut = "chop" in fn
    ptr = r.view(st, t) if cut else None
    for p in w.it.run(fn, [ptr, f] if cut else t.args() + [f], st):
        if not ctx.check(p.kind == "ret", "value", fn + "/abort", "does not return", r.wh) or not r.memory(p, [t], "of %d bytes" % n):
            continue
        asked = {}
        for v, x in p.st.mon or ():
            asked[v] = x
        k = 0
        while k < n and asked.get(w.it.reduce(p.st, t.vals[k])):
            k += 1
        known = k == n or asked.get(w.it.reduce(p.st, t.vals[k])) == 0
        got = result(w, p.st, p.ret, 0), result(w, p.st, p.ret, 1)
        ok = known and r.is_view(p.st, t, got[0], got[1], 0, k)
        ctx.check(ok, "value", fn, "gives %r bytes of %d when the predicate holds for the first %d" % (got[0], n, k), r.wh)
        if cut:
            ctx.check(r.is_view(p.st, t, r.field(p.st, ptr, 0), r.field(p.st, ptr, 1), k, n - k), "view", fn, "leaves another rest after %d of %d bytes" % (k, n), r.wh)
    ctx.used(w.it)


def group(ctx, prog, fn, kinds, ref, cs):
    w = SV(prog)
    r = Run(ctx, w, fn)
    for t, o in cs:
        r.one(kinds, ref, t, o)
    ctx.used(w.it)


def run(ctx):
    thorough = ctx.tier == "thorough"
    ctx.label = "sv"
    prog = C.program("sv")
    jobs = [lambda x: simple(x, prog), lambda x: large(x, prog)]
    for fn in ("sv_take_left_while", "sv_chop_left_while"):
        jobs += [lambda x, fn=fn, n=n: whiles(x, prog, fn, n) for n in range(6 if thorough else 5)]
    for fn, (kinds, ref) in spec().items():
        cs = cases(fn, kinds, thorough)
        for i in range(4):
            jobs.append(lambda x, fn=fn, kinds=kinds, ref=ref, cs=cs[i::4]: group(x, prog, fn, kinds, ref, cs))
    parallel(ctx, jobs)
