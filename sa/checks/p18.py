"""P18: cee_json_select follows its selector, reads only the selector and its arguments, and leaves the value alone."""
import absint as A
import vset as VS
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import p14 as T
from harness import parallel

MIN = {"select": 3000, "memory": 3000, "as_int": 100, "value": 3000}
EXPLAIN = ("cee_json_select and cee_json_select_as_int are analysed on values of all kinds nested up to three levels, with selectors whose bytes are unknown and carry sets of possible "
           "values, and with field names and indices taken from the arguments. Rule select: on every path, for every selector of the path's class that is a sequence of "
           "selectors, the result is the value that a reference following the documentation finds, or NULL when there is none. Rule memory: for every text at all, nothing outside the selector and "
           "the argument strings is read and nothing outside the function's own variables is written. Rule value: the value is unchanged. Rule as_int: the number selected is "
           "stored and 0 returned; otherwise the result is not 0 and nothing is stored.")
ASSUME = ["atoi, strchr, strcmp, strlen, memcpy and snprintf of \"%d\" behave as the C standard says", "a selector has an argument of the right type for each '*'"]
FN, FI = "cee_json_select", "cee_json_select_as_int"
ANY = T.ANY & ~T.mask([0]) & ~T.mask([42])
SP = b".[]:*"


class Oct(int):
    """an octal number so far"""


class Sel(T.Tok):
    def __init__(self, c):
        T.Tok.__init__(self, c)
        self.count = 0
        self.it.strict32 = True
        self.it.by_place = True
        m = self.it.models
        m.update({"strcmp": self._cmp, "strncmp": self._cmp, "atoi": self._atoi, "snprintf": self._pr, "sprintf": self._pr, "strtol": self._atoi, "strtoll": self._atoi, "atol": self._atoi,
                  "__isoc23_strtol": self._atoi, "__isoc23_strtoll": self._atoi})
        self.keys = {}

    def call(self, fn, *args):
        return T.Tok.call(self, fn, *args)

    # --- texts with bytes
    def text_obj(self, masks, name="t"):
        """a terminated text: masks, or numbers"""
        self.count += 1
        p = self.str("%s%d" % (name, self.count), "%s%d" % (name, self.count))
        vals = []
        for i, m in enumerate(masks):
            if isinstance(m, int):
                v = const(A.sgn(m, 8))
            else:
                v = av(A.atom("byte", (self.count, i)))
                self.it.setmask(self.st, v.single(), m)
            vals.append(v)
        st = self.st
        st.sizes = dict(st.sizes)
        st.sizes[p.b] = const(p.c + len(vals) + 1)
        for i, v in enumerate(vals + [ZERO]):
            K.put(st, vadd(p, const(i)), v, 1, None, "i8")
        return p, vals

    def _mk(self, it, I, name, args, st):
        # the copy of a key
        if it.prog.cstring(args[1]) == b"%s" and args[2] in self.keys:
            r = self._new(it, st, self.keys[args[2]])
            p, b = r[0][1], self.keys[args[2]]
            self.keys[p] = b
            st.sizes = dict(st.sizes)
            st.sizes[p.b] = const(p.c + len(b) + 1)
            for i, x in enumerate(b + b"\0"):
                K.put(st, vadd(p, const(i)), const(A.sgn(x, 8)), 1, None, "i8")
            return r
        raise A.AnalysisError("a string made by the selection")

    def _cmp(self, it, I, n, a, st):
        x, y = self.keys.get(a[0]), self.keys.get(a[1])
        if x is not None and y is not None and n == "strcmp":
            return [("ret", const((x > y) - (x < y)), st)]
        lim = None
        if n == "strncmp":
            if not a[2].is_const():
                raise A.AnalysisError("strncmp of unknown length")
            lim = a[2].c
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if lim is not None and i >= lim or i > 600:
                out.append(("ret", ZERO, s))
                continue
            u, v = self.raw(I, s, vadd(a[0], const(i))), self.raw(I, s, vadd(a[1], const(i)))
            for s2, tv in it.decide(s, self.eq(s, u, v)):
                if not tv:
                    # as unsigned characters
                    d = it.reduce(s2, vsub(A.op("band", u, const(255)) if u.t else const(u.c & 255), A.op("band", v, const(255)) if v.t else const(v.c & 255)))
                    for s3, le in it.decide(s2, av(A.atom("cmp", "le0", d)) if d.t else const(int(d.c <= 0))):
                        out.append(("ret", const(-1 if le else 1), s3))
                    continue
                for s3, z in it.decide(s2, self.eq(s2, u, ZERO)):
                    if z:
                        out.append(("ret", ZERO, s3))
                    else:
                        todo.append((s3, i + 1))
        return out

    def _atoi(self, it, I, n, a, st):
        p = a[0]
        if len(a) > 2 and not (a[2].is_const() and a[2].c in (0, 10)):
            raise A.AnalysisError("%s with the base %r" % (n, a[2]))
        auto = len(a) > 2 and a[2].c == 0
        out, todo = [], [(st, 0, None, 1)]
        while todo:
            s, i, val, sign = todo.pop()
            v = self.raw(I, s, vadd(p, const(i)))
            if val is None and sign == 1 and i < 40:
                rest = None
                for s2, tv in self.inset(s, v, " \t\n\v\f\r"):
                    if tv:
                        todo.append((s2, i + 1, None, 1))
                    else:
                        rest = s2
                if rest is None:
                    continue
                s, rest = rest, None
                for s2, tv in self.inset(s, v, "+"):
                    if tv:
                        todo.append((s2, i + 1, 0, 1))
                    else:
                        rest = s2
                if rest is None:
                    continue
                s, rest = rest, None
                for s2, tv in self.inset(s, v, "-"):
                    if tv:
                        todo.append((s2, i + 1, 0, -1))
                    else:
                        rest = s2
                if rest is None:
                    continue
                s = rest
            for d in "01234567" if auto and (val == 0 or isinstance(val, Oct)) else "0123456789":
                rest = None
                for s2, tv in self.inset(s, v, d):
                    if tv:
                        todo.append((s2, i + 1, Oct((val or 0) * 8 + int(d)) if auto and (val == 0 or isinstance(val, Oct)) else (val or 0) * 10 + int(d), sign))
                    else:
                        rest = s2
                s = rest
                if s is None:
                    break
            if s is not None:
                if len(a) > 1 and a[1].t:
                    it.store(s, a[1], vadd(p, const(i if val is not None else 0)), 8, None, "ptr")
                x = int(val or 0) * sign
                lim = 31 if n == "atoi" else 63
                out.append(("ret", const(max(-(1 << lim), min((1 << lim) - 1, x))), s))
        return out

    def _pr(self, it, I, n, a, st):
        """"%d" and "%s" of known arguments"""
        k = 3 if n == "snprintf" else 2
        f = it.prog.cstring(a[k - 1])
        if f != b"%d" or len(a) != k + 1 or not a[k].is_const() or k == 3 and not a[1].is_const():
            raise A.AnalysisError("%s of %r with %r" % (n, f, a[k:]))
        b = b"%d" % A.sgn(a[k].c, 32)
        m = a[1].c if k == 3 else len(b) + 1
        for i in range(min(m, len(b) + 1)):
            x = 0 if i == len(b) or i == m - 1 else b[i]
            it.access(st, I, vadd(a[0], const(i)), 1, "store")
            it.store(st, vadd(a[0], const(i)), const(x), 1, None, "i8")
        return [("ret", const(len(b)), st)]

    # --- values
    def build(self, t):
        """-> (pointer, mirror): mirror = (kind, pointer, {key: mirror} or [mirror])"""
        if isinstance(t, dict):
            j = self.call("cee_json_object_mk", self.state)
            ms = {}
            for k, x in t.items():
                m = self.build(x)
                p, _ = self.text_obj(list(k.encode()), "k")
                self.keys[p] = k.encode()
                self.call("cee_json_object_set", j, p, m[1])
                ms[k.encode()] = m
            return ("o", j, ms)
        if isinstance(t, list):
            j = self.call("cee_json_array_mk", self.state, 1)
            ms = []
            for x in t:
                m = self.build(x)
                self.call("cee_json_array_append", j, m[1])
                ms.append(m)
            return ("a", j, ms)
        self.count += 1
        if t == "s":
            return ("s", self.call("cee_json_str_mk", self.state, self.str("v%d" % self.count)), None)
        if t in ("i64", "u64", "double"):
            v = av(A.atom("arg", 300 + self.count, t))
            return ("n", self.call("cee_json_%s_mk" % t, self.state, v), (t, v))
        return ("!" if t == "null" else "b", self.call("cee_json_" + t), None)


# ------------------------------------------------------------------ the reference
class Any(Exception):
    pass


def walk(masks, cur, args):
    """all the ways the selector (a list of sets of bytes) can go on: yields (text, mirror or None) where the documentation says what is found"""
    # a character: ("ch", set) or an argument's text
    n = len(masks)

    def pick(i, chars):
        m = masks[i] & T.mask([c - 256 if c > 127 else c for c in chars])
        return [int(x) & 255 for x in VS.DOMS["byte"][m]]

    def rest(i, chars):
        m = masks[i] & ~T.mask([c - 256 if c > 127 else c for c in chars])
        xs = VS.DOMS["byte"][m]
        return int(xs[0]) & 255 if len(xs) else None

    def sel(i, cur, ai, text):
        """a selector starts at i"""
        if i == n:
            yield text, cur
            return
        for c in pick(i, b".[:"):
            t = text + [c]
            if c == 46:
                yield from name(i + 1, cur, ai, t, b"")
            elif c == 91:
                yield from index(i + 1, cur, ai, t, b"")
            else:
                yield from kind(i + 1, cur, t, ai)

    def found(i, nxt, ai, text):
        if nxt is None:
            yield text, None          # whatever follows
        else:
            yield from sel(i, nxt, ai, text)

    def name(i, cur, ai, text, got):
        def done():
            return cur[2].get(got) if cur[0] == "o" else None
        if i == n:
            if got:
                yield from found(i, done(), ai, text)
            return
        if got and pick(i, b".[:"):
            keep = masks[i]
            masks[i] = keep & T.mask([46, 91, 58])
            yield from found(i, done(), ai, text)
            masks[i] = keep
        if pick(i, b"*"):
            a = args[ai]
            if isinstance(a, bytes):
                yield from name(i + 1, cur, ai + 1, text + [42], got + a)
        # the characters that lead to a key, and one that does not
        keys = {k[len(got)] for k in (cur[2] if cur[0] == "o" else ()) if k.startswith(got) and len(k) > len(got) and k[len(got)] not in SP}
        for c in pick(i, keys):
            yield from name(i + 1, cur, ai, text + [c], got + bytes([c]))
        c = rest(i, set(keys) | set(SP))
        if c is not None:
            yield from name(i + 1, cur, ai, text + [c], got + bytes([c]))

    def index(i, cur, ai, text, got):
        if i == n:
            return
        for c in pick(i, b"0123456789"):
            yield from index(i + 1, cur, ai, text + [c], got + bytes([c]))
        if pick(i, b"*"):
            a = args[ai]
            if isinstance(a, int) and (a >= 0 or not got):
                yield from index(i + 1, cur, ai + 1, text + [42], got + b"%d" % a)
        if got and pick(i, b"]"):
            k = int(got)
            if k < 1 << 31 and len(got) <= 256:
                yield from found(i + 1, cur[2][k] if cur[0] == "a" and 0 <= k < len(cur[2]) else None, ai, text + [93])

    def kind(i, cur, text, ai):
        if i == n:
            return
        for c in pick(i, b"snoab!"):
            ok = cur[0] == chr(c)
            if i + 1 == n:
                yield text + [c], cur if ok else None
            elif pick(i + 1, b".[:"):
                keep = masks[i + 1]
                masks[i + 1] = keep & T.mask([46, 91, 58])
                yield from found(i + 1, cur if ok else None, ai, text + [c])
                masks[i + 1] = keep

    masks = list(masks)
    yield from sel(0, cur, 0, [])


# ------------------------------------------------------------------ templates
LEAF = ["s", "i64", "u64", "double", "true", "false", "null"]
VALUES = [
    {"a": {"a": "i64", "b": ["s", {"a": "null"}]}, "b": [["u64"], "true", {"b": "double"}], "ab": "s", "c": "false"},
    [{"a": ["s"], "b": {}}, ["i64", ["double"], "null"], "u64", "false"],
    {"b": ["s", "i64", "u64", "double", "true", "false", "null", {}, [], "s", "i64", {"a": "s"}, "null"], "a": {"x1": "s", "": "null", "*": "true", ".a": "u64", "a.a": "double", "b[0]": "i64", "*a": "s", "aa": {"a": "true"}, "a": []}},
    {}, [],
]


def s2m(*parts):
    """bytes: themselves; None: any character but '*'; int: that many of them; str: a set"""
    out = []
    for p in parts:
        if isinstance(p, bytes):
            out += [T.mask([b if b < 128 else b - 256]) for b in p]
        elif isinstance(p, int):
            out += [ANY] * p
        else:
            out.append(T.mask([ord(x) for x in p]))
    return out


def templates(thorough):
    """(index of the value, masks, args): the value -1: each kind of leaf"""
    out = []
    for v in range(len(VALUES)):
        for n in range(5):
            if n < 4 or v < 3:
                out.append((v, s2m(n), ()))
        if thorough and v < 3:
            out.append((v, s2m(5), ()))
    for v in (-1,):
        for n in range(4):
            out.append((v, s2m(n), ()))
    D = "0123456789"
    ext = 3 if thorough else 2
    out += [(0, s2m(b".a", ext + 1), ()), (0, s2m(b".b[", D, b"]", ext), ()), (0, s2m(b".a.b[1]", ext), ()), (0, s2m(b".b[", D, D, b"]", 1), ()),
            (2, s2m(b".b[", D, b"]:", 1), ()), (2, s2m(b".b[", D, D, b"]:", 1), ()), (2, s2m(b".b[", D, b"]", ext), ()), (2, s2m(b".a.aa", ext), ()), (2, s2m(b".a.", 3), ()),
            (1, s2m(b"[", D, b"]", 3), ()), (1, s2m(b"[1][", D, b"]", 3), ()), (1, s2m(b"[", 3, b"]"), ()), (1, s2m(b"[0].a[", D, b"]", 1), ()),
            (0, s2m(b":o.a:o.b:a[1]:o.a:", 1), ()), (2, s2m(b".b[0000000", D, D, b"]:", 1), ()), (1, s2m(b"[429496729", D, b"]"), ()), (0, s2m(b".b:a[2].b:n", 1), ())]
    for n in (10, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, 258, 300):
        out += [(0, s2m(b"." + b"a" * n), ()), (0, s2m(b".", b"*"), (b"a" * n,)), (0, s2m(b".", b"aaa", b"*"), (b"a" * (n - 3),)), (0, s2m(b".*", b"aaa"), (b"a" * (n - 3),)),
                (1, s2m(b"[" + b"0" * n + b"]"), ()), (1, s2m(b":" + b"a" * n), ()), (0, s2m(b".", b"**:s"), (b"a" * (n - 5), b"b" * 5)), (0, s2m(b".**.a"), (b"b" * 5, b"a" * (n - 5)))]
    I = (-2147483648, -1, 0, 1, 2, 3, 4, 10, 12, 13, 2147483647)
    for i in I:
        out += [(1, s2m(b"[*]", 2), (i,)), (2, s2m(b".b[*]", ext), (i,)), (2, s2m(b".b[1*]:", 1), (i,)), (2, s2m(b".b[*1]"), (i,))]
        for k in (0, 1, 2):
            out += [(1, s2m(b"[*][*]"), (k, i)), (2, s2m(b".b[**]:", 1), (k, i)), (0, s2m(b".*[*]:", 1), (b"b", i))]
    for x in (b"", b"a", b"b", b"ab", b"c", b"aa", b"x", b".a", b"a.a", b"b[0]", b"*"):
        for y in (b"", b"a", b"b", b"x1", b"aa", b"zz", b"*", b".a", b"a.a", b"b[0]", b"*a"):
            out += [(0, s2m(b".*.*"), (x, y)), (2, s2m(b".*.*:", 1), (x, y)), (0, s2m(b".**"), (x, y))]
        out += [(0, s2m(b".*", 2), (x,)), (2, s2m(b".*[*]", 1), (x, 1)), (0, s2m(b".a*"), (x,)), (0, s2m(b".*b", 1), (x,)), (0, s2m(b".", "ab", b"*"), (x,)), (0, s2m(b".*"), (x,)),
                (0, s2m(b".a.*[*].*"), (x, 1, b"a"))]
    for n in (1, 2, 3):
        out += [(v, s2m(b".*", 1), ([ANY] * n,)) for v in (0, 2)] + [(2, s2m(b".a.*"), ([ANY] * n,))]
    return out


# ------------------------------------------------------------------ the rules
def show(masks, args, text=None):
    b = bytes((text[i] if text and i < len(text) else int(VS.DOMS["byte"][m][0]) & 255) for i, m in enumerate(masks))
    if len(b) > 60:
        b = b[:60] + b"..."
    return "%r%s" % (b.decode("latin1"), "".join(", %r" % ((a.decode("latin1") if len(a) < 30 else "a text of %d" % len(a)) if isinstance(a, bytes) else a) for a in args if not isinstance(a, list)))


def one(ctx, c, vi, masks, args):
    for leaf in (LEAF if vi == -1 else [None]):
        one1(ctx, c, VALUES[vi] if leaf is None else leaf, masks, args)


def one1(ctx, c, val, masks, args):
    w = Sel(c)
    w.st.vs = {}
    w.it.exact = 5000
    w.it.null_ends = True
    wh = "%s:%d (%s)" % (c.fn(FN).loc() + (FN,))
    root = w.build(val)
    f, fb = w.text_obj([m if m.sum() > 1 else int(VS.DOMS["byte"][m][0]) for m in masks], "sel")
    vals, argb = [], []
    for a in args:
        if isinstance(a, int):
            vals.append(const(a))
            argb.append(a)
        else:
            p, b = w.text_obj(list(a), "arg")
            vals.append(p)
            argb.append(b)
    before = image(w, w.st)
    sites = {}
    st = w.st.copy()
    st.trace = None
    for p in w.it.run(FN, [root[1], f] + vals, st):
        judge(ctx, w, p, FN, wh, root, masks, fb, argb, before, args)
    if not args and not any((m & T.mask([42])).any() for m in masks):
        wi = "%s:%d (%s)" % (c.fn(FI).loc() + (FI,))
        st = w.st.copy()
        st.trace = None
        x = K.obj("intp")
        x0 = av(A.atom("arg", 91, "old"))
        K.put(st, x, x0, 4, None, "i32")
        for p in w.it.run(FI, [root[1], x, f], st):
            judge(ctx, w, p, FI, wi, root, masks, fb, argb, before, args, (x, x0))
    ctx.used(w.it)


def image(w, st):
    """all memory that is not the function's own"""
    return [(a, e) for a, e in st.mem.items() if w.it.base_of(a) is None or w.it.base_of(a).kind != "alloca"]


def judge(ctx, w, p, fn, wh, root, masks, fb, argb, before, args, xi=None):
    st = p.st
    ms = [m if not v.t else w.it.mask(st, v.single()) for m, v in zip(masks, fb)]
    if not ctx.check(p.kind == "ret", "memory", fn + "/abort", "does not return for %s" % show(ms, args), wh):
        return
    bad = False
    for e in p.ev:
        if e.kind in ("oob", "uaf", "doublefree"):
            bad = True
            ctx.check(False, "memory", fn + "/" + e.kind, "%s for the selector %s" % (("reads" if e.access == "load" else "writes") + " outside its memory" if e.kind == "oob" else e.kind,
                                                                                  show(ms, args)), e.where())
    if bad:
        return
    ctx.ob("memory")
    same = all((st.mem.get(a) or (None,))[0] is e[0] for a, e in before)
    ctx.check(same, "value", fn, "changes the value for %s" % show(ms, args), wh)
    r = w.it.reduce(st, p.ret)
    k = 0
    for xs in arguments(w, st, argb):
        for text, m in walk(ms, root, xs):
            k += 1
            if xi is None:
                ok = r is (m[1] if m else ZERO)
                if not ctx.check(ok, "select", fn, "%s selects %s instead of %s in %s" % (show(ms, args, text), name(root, r), name(root, m[1]) if m else "nothing", tree(root)), wh):
                    return
            else:
                new = w.at(st, xi[0], 4, "i32")
                if m and m[0] == "n" and m[2][0] == "i64":
                    ok = r is ZERO and low(w, st, new, m[2][1])
                else:
                    ok = r is not ZERO and (r.is_const()) and new is xi[1]
                if not ctx.check(ok, "as_int", fn, "%s gives %r and stores %r in %s" % (show(ms, args, text), r, new, tree(root)), wh):
                    return
    if not k:
        ctx.ob("select" if xi is None else "as_int")


def low(w, st, x, v):
    """x is v's low 32 bits"""
    return x is v or x is A.op("trunc", 32, v) or w.it.reduce(st, vsub(x, A.op("trunc", 32, v))) is ZERO


def arguments(w, st, argb):
    """the arguments of the path; unknown bytes of an argument by classes"""
    outs = [[]]
    for a in argb:
        if isinstance(a, int):
            outs = [o + [a] for o in outs]
            continue
        bs = [b""]
        for v in a:
            if not v.t:
                bs = [b + bytes([v.c & 255]) for b in bs]
                continue
            xs = [int(x) & 255 for x in VS.DOMS["byte"][w.it.mask(st, v.single())]]
            some = [x for x in xs if x in b"abcx1.*["] + [x for x in xs if x not in b"abcx1.*["][:1]
            bs = [b + bytes([x]) for b in bs for x in some]
        outs = [o + [b] for o in outs for b in bs]
    return outs


def name(root, p):
    def f(m, at):
        if m[1] is p:
            return at or "the value itself"
        for k, x in (m[2].items() if m[0] == "o" else enumerate(m[2]) if m[0] == "a" else ()):
            r = f(x, at + (".%s" % k.decode() if m[0] == "o" else "[%d]" % k))
            if r:
                return r
    return "nothing" if p is ZERO else f(root, "") or repr(p)


def tree(m):
    if m[0] == "o":
        return "{%s}" % ", ".join("%s: %s" % (k.decode(), tree(x)) for k, x in m[2].items())
    if m[0] == "a":
        return "[%s]" % ", ".join(tree(x) for x in m[2])
    return m[2][0] if m[0] == "n" else {"s": "string", "b": "bool", "!": "null"}[m[0]]


def run(ctx):
    ts = templates(ctx.tier == "thorough")
    ts.sort(key=lambda t: (-sum(m is ANY for m in t[1]), -len(t[1])))
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        big = [t for t in ts if sum(m is ANY for m in t[1]) > 1]
        small = [t for t in ts if sum(m is ANY for m in t[1]) <= 1]
        jobs = [lambda x, t=t: one(x, c, *t) for t in big]
        for i in range(40):
            jobs.append(lambda x, i=i: [one(x, c, *t) for t in small[i::40]])
        parallel(ctx, jobs)
