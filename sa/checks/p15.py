"""P15: the printer writes JSON text that denotes the value, into exactly the space it asks for."""
import itertools

import numpy as np

import absint as A
import vset as VS
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S
from checks import p14 as T
from harness import parallel

MIN = {"size": 400, "text": 800, "asprint": 400, "memory": 800, "deep": 4}
EXPLAIN = ("Values are built by the public constructors; the bytes of their strings and keys are unknown and carry sets of possible values, numbers are opaque. "
           "cee_json_snprint is analysed on each of them, first without and then with a buffer, and cee_json_asprint. Rule size: both give the same length. "
           "Rule memory: with a buffer of that length and a terminator nothing outside it is written, nothing outside the value is read and the value stays as it was. Rule text: "
           "the bytes written are decoded by the grammar of JSON for every value of the unknown bytes and give back the value: its strings byte by byte, its numbers in "
           "full, elements and members in order; compact text has no white space outside strings. Rule asprint: the block holds the same text, its terminator, and the size "
           "reported. Rule deep: values nested 500 levels deep are printed completely.")
ASSUME = ["snprintf converts as the C standard says; the conversions are those of P11", "doubles are finite"]
FN, FA = "cee_json_snprint", "cee_json_asprint"
NZ = T.ANY & ~T.mask([0])
LEN = {"i64": 2, "u64": 3, "double": 4}


class Pr(T.Tok):
    def __init__(self, c):
        self.bytes_of = {}
        self.nums = {}
        self.count = 0
        T.Tok.__init__(self, c)
        m = self.it.models
        m.update({"snprintf": self._snprintf})

    def raw(self, I, st, a):
        return self.it.reduce(st, T.Tok.raw(self, I, st, a))

    # --- strings are objects with bytes
    def text_obj(self, masks, nul, rank=None):
        self.count += 1
        n = self.count
        text = "t%d" % n
        p = self.str(text, text)
        vals = []
        for i, m in enumerate(masks):
            xs = VS.DOMS["byte"][m]
            if len(xs) == 1:
                v = const(int(xs[0]))
            else:
                v = av(A.atom("byte", (n, i)))
                self.it.setmask(self.st, v.single(), m)
            vals.append(v)
        self.put(self.st, p, vals, nul)
        self.bytes_of[p] = vals
        self.order[text] = (0, n if rank is None else rank)
        return p

    def put(self, st, p, vals, nul):
        st.sizes = dict(st.sizes)
        st.sizes[p.b] = const(p.c + len(vals) + nul)
        for i, v in enumerate(list(vals) + [ZERO] * nul):
            K.put(st, vadd(p, const(i)), v, 1, None, "i8")

    def _mk(self, it, I, name, args, st):
        if it.prog.cstring(args[1]) == b"%s" and args[2] in self.bytes_of:
            r = self._new(it, st, self.text[args[2]])
            p = r[0][1]
            self.bytes_of[p] = self.bytes_of[args[2]]
            self.put(st, p, self.bytes_of[p], 1)
            return r
        raise A.AnalysisError("a string made by the printer")

    # --- numbers are opaque, and so are their texts
    def _snprintf(self, it, I, name, args, st):
        buf, size, v = args[0], args[1], args[3] if len(args) == 4 else None
        s = v.single() if v is not None else None
        if s not in self.nums or not size.is_const():
            raise A.AnalysisError("snprintf of %r into %r bytes" % (v, size))
        n = self.nums[s]
        if size.c > 0:
            k = min(size.c - 1, n)
            for i in range(k + 1):
                it.access(st, I, vadd(buf, const(i)), 1, "store")
                it.store(st, vadd(buf, const(i)), av(A.atom("op", "digit", v, i)) if i < k else ZERO, 1, None, "i8")
        return [("ret", const(n), st)]

    # --- values
    def build(self, t):
        """-> (the value, what its text must denote)"""
        k = t[0]
        if k in ("null", "true", "false"):
            return self.call("cee_json_" + k), (k,)
        if k in LEN:
            self.count += 1
            v = av(A.atom("arg", 200 + self.count, k))
            self.nums[v.single()] = LEN[k] if len(t) < 2 else t[1]
            return self.call("cee_json_%s_mk" % k, self.state, v), ("num", v)
        if k == "str":
            p = self.text_obj(t[1], 1)
            return self.call("cee_json_str_mk", self.state, p), ("str", tuple(self.bytes_of[p]))
        if k == "strn":
            p = self.text_obj(t[1], 0)
            return self.call("cee_json_strn_mk", self.state, p, len(t[1])), ("str", tuple(self.bytes_of[p]))
        if k == "arr":
            j = self.call("cee_json_array_mk", self.state, 1)
            out = []
            for x in t[1]:
                v, e = self.build(x)
                self.call("cee_json_array_append", j, v)
                out.append(e)
            return j, ("arr", tuple(out))
        j = self.call("cee_json_object_mk", self.state)
        out = []
        n = len(t[1])
        for i, (km, x) in enumerate(t[1]):
            p = self.text_obj(km, 1, rank=(i * 7 + 3) % 5)
            v, e = self.build(x)
            self.call("cee_json_object_set", j, p, v)
            out.append((p, v, (tuple(self.bytes_of[p]), e)))
        if k == "obj-":          # the first key taken out and put in again
            p, v, _ = out[0]
            self.call("cee_json_object_remove", j, p)
            v, e = self.build(("null",))
            self.call("cee_json_object_set", j, p, v)
            out = out[1:] + [(p, v, (out[0][2][0], e))]
        return j, ("obj", tuple(x[2] for x in out))

    def run(self, fn, args, st):
        return self.it.run(fn, [const(a) if isinstance(a, int) else a for a in args], st)


# ------------------------------------------------------------------ decoding
class Wrong(Exception):
    pass


def decode(xs, compact):
    """xs: ints, or (value, i): the i-th character of the text of a number -> (tree, cuts)"""
    cuts = []
    pos = [0]

    def ws():
        while pos[0] < len(xs) and isinstance(xs[pos[0]], int) and xs[pos[0]] in (32, 9, 10, 13):
            if compact:
                raise Wrong("has white space outside a string")
            pos[0] += 1

    def peek():
        ws()
        if pos[0] >= len(xs):
            raise Wrong("ends early")
        return xs[pos[0]]

    def take(want=None):
        x = peek()
        if want is not None and x != ord(want):
            raise Wrong("has %s where '%s' belongs" % (repr(chr(x)) if isinstance(x, int) else "a digit", want))
        pos[0] += 1
        cuts.append(pos[0])
        return x

    def string():
        take('"')
        out = []
        while True:
            if pos[0] >= len(xs):
                raise Wrong("has an unfinished string")
            x = xs[pos[0]]
            pos[0] += 1
            if not isinstance(x, int):
                raise Wrong("has the digits of a number in a string")
            if x == 34:
                break
            if x < 32:
                raise Wrong("has the control character %d in a string" % x)
            if x == 92:
                y = xs[pos[0]] if pos[0] < len(xs) else None
                pos[0] += 1
                if isinstance(y, int) and chr(y) in '"\\/bfnrt':
                    out.append(b'"\\/\b\f\n\r\t'['"\\/bfnrt'.index(chr(y))])
                elif y == ord("u"):
                    h = xs[pos[0]:pos[0] + 4]
                    if len(h) < 4 or not all(isinstance(d, int) and chr(d) in "0123456789abcdefABCDEF" for d in h):
                        raise Wrong("has an incomplete \\u escape")
                    u = int("".join(map(chr, h)), 16)
                    if u > 127:
                        raise Wrong("escapes a byte as \\u%04x" % u)
                    pos[0] += 4
                    out.append(u)
                else:
                    raise Wrong("has the escape \\%s" % (chr(y) if isinstance(y, int) else "?"))
            else:
                out.append(x)
            cuts.append(pos[0])
        cuts.append(pos[0])
        return tuple(out)

    def value():
        x = peek()
        if isinstance(x, tuple):
            v, n = x[0], 0
            while pos[0] < len(xs) and xs[pos[0]] == (v, n):
                n += 1
                pos[0] += 1
            cuts.append(pos[0])
            return ("num", v, n)
        c = chr(x)
        for w in ("null", "true", "false"):
            if xs[pos[0]:pos[0] + len(w)] == [ord(y) for y in w]:
                pos[0] += len(w)
                cuts.append(pos[0])
                return (w,)
        if c == '"':
            return ("str", string())
        if c == "[":
            take("[")
            out = []
            if peek() == ord("]"):
                take("]")
                return ("arr", ())
            while True:
                out.append(value())
                if peek() == ord("]"):
                    take("]")
                    return ("arr", tuple(out))
                take(",")
        if c == "{":
            take("{")
            out = []
            if peek() == ord("}"):
                take("}")
                return ("obj", ())
            while True:
                if peek() != 34:
                    raise Wrong("has no key")
                k = string()
                take(":")
                out.append((k, value()))
                if peek() == ord("}"):
                    take("}")
                    return ("obj", tuple(out))
                take(",")
        raise Wrong("has %r where a value belongs" % c)

    t = value()
    ws()
    if pos[0] != len(xs):
        raise Wrong("goes on after the value")
    return t, cuts


def flat(xs):
    """text of decoded characters, for messages"""
    return "".join(chr(x) if isinstance(x, int) else "9" for x in xs)


def compare(got, want, env, nums):
    """got: decoded; want: tree with byte values; None or what is different"""
    if got[0] != want[0]:
        return "has a %s for a %s" % (got[0], want[0])
    k = got[0]
    if k == "num":
        if got[1] is not want[1]:
            return "has another number"
        if got[2] != nums[want[1].single()]:
            return "has %d of the %d characters of a number" % (got[2], nums[want[1].single()])
    elif k == "str":
        if got[1] != tuple(VS.ev(b, env) & 255 for b in want[1]):
            return "has the string %r for %r" % (bytes(got[1]), bytes(int(VS.ev(b, env)) & 255 for b in want[1]))
    elif k == "arr":
        if len(got[1]) != len(want[1]):
            return "has %d of %d elements" % (len(got[1]), len(want[1]))
        for a, b in zip(got[1], want[1]):
            r = compare(a, b, env, nums)
            if r:
                return r
    elif k == "obj":
        if len(got[1]) != len(want[1]):
            return "has %d of %d members" % (len(got[1]), len(want[1]))
        for (ka, a), (kb, b) in zip(got[1], want[1]):
            if ka != tuple(VS.ev(x, env) & 255 for x in kb):
                return "has the key %r for %r" % (bytes(ka), bytes(int(VS.ev(x, env)) & 255 for x in kb))
            r = compare(a, b, env, nums)
            if r:
                return r
    return None


def atoms_of(want, out):
    if want[0] == "str":
        bs = want[1]
    elif want[0] == "arr":
        for x in want[1]:
            atoms_of(x, out)
        return out
    elif want[0] == "obj":
        for k, x in want[1]:
            atoms_of(("str", k), out)
            atoms_of(x, out)
        return out
    else:
        return out
    for b in bs:
        if b.t:
            out[b.single()] = True
    return out


def text_bad(w, st, buf, n, want, compact):
    """None, or how the n bytes at buf differ from a text denoting `want`"""
    out = [w.it.reduce(st, w.it.load(st, vadd(buf, const(i)), 1, None, "i8")) for i in range(n)]
    at = {a: VS.DOMS["byte"][w.it.mask(st, a)] for a in atoms_of(want, {})}
    base = {a: int(m[0]) for a, m in at.items()}
    xs, per = [], {}
    for i, v in enumerate(out):
        s = v.single()
        if s is not None and s.kind == "op" and s.args[0] == "digit":
            xs.append((s.args[1], s.args[2]))
            continue
        d = VS.deps(v)
        if d is None:
            return "has the unknown byte %r" % v
        if len(d) > 1:
            return "has a byte made of two"
        for a in d:
            if a not in at:
                return "has a byte of another value"
            per.setdefault(a, []).append((i, np.broadcast_to(VS.ev(v, {a: at[a]}), at[a].shape) & 255))
        xs.append(int(VS.ev(v, {a: base[a] for a in d})) & 255)
    try:
        t, cuts = decode(xs, compact)
    except Wrong as e:
        return "%s: %s" % (e, flat(xs))
    r = compare(t, want, dict(base), w.nums)
    if r:
        return "%s: %s" % (r, flat(xs))
    for a, m in at.items():
        for k in range(len(m)):
            ys = list(xs)
            for i, col in per.get(a, ()):
                ys[i] = int(col[k])
            env = dict(base)
            env[a] = int(m[k])
            try:
                t, c2 = decode(ys, compact)
            except Wrong as e:
                return "%s: %s" % (e, flat(ys))
            r = compare(t, want, env, w.nums) or ("is not laid out alike" if c2 != cuts else None)
            if r:
                return "%s: %s" % (r, flat(ys))
    return None


# ------------------------------------------------------------------ the rules
def events(ctx, w, p, fn, wh, t):
    bad = False
    for e in p.ev:
        if e.kind in ("oob", "uaf", "doublefree"):
            bad = True
            ctx.check(False, "memory", fn + "/" + e.kind, "%s for %s" % (("reads" if e.access == "load" else "writes") + " outside the memory it has" if e.kind == "oob" else e.kind, show(t)), e.where())
    if not bad:
        ctx.ob("memory")
    return not bad


def show(t):
    k = t[0]
    if k == "arr":
        return "[%s]" % ",".join(show(x) for x in t[1])
    if k.startswith("obj"):
        return "{%s}" % ",".join("k:" + show(x) for _, x in t[1])
    if k in ("str", "strn"):
        return "%s(%d)" % (k, len(t[1]))
    return k


def one(ctx, c, t, fmts=(0, 1), deep=False, pretty_print=True):
    w = Pr(c)
    w.st.vs = {}
    if deep:
        w.it.exact = 200000
    wh = "%s:%d (%s)" % (c.fn(FN).loc() + (FN,))
    wa = "%s:%d (%s)" % (c.fn(FA).loc() + (FA,))
    try:
        j, want = w.build(t)
        before = w.value(j) if not deep else None
    except S.Many as e:
        raise A.AnalysisError("building %s: %s" % (show(t), e))
    rule = "deep" if deep else "text"
    for f in fmts:
        st = w.st.copy()
        st.trace = None
        tag = "pretty" if f else "compact"
        for p in w.run(FN, [w.state, ZERO, 0, j, f], st):
            if not ctx.check(p.kind == "ret", "size", FN + "/abort", "does not return for %s" % show(t), wh):
                continue
            n = w.it.reduce(p.st, p.ret)
            if not events(ctx, w, p, FN, wh, t):
                continue
            if not n.is_const():
                ctx.check(False, "size", FN, "gives the length %r for %s" % (n, show(t)), wh)
                continue
            s2 = p.st.copy()
            w.count += 1
            buf = K.obj("buf%d" % w.count)
            s2.sizes = dict(s2.sizes)
            s2.sizes[buf.single()] = const(n.c + 1)
            for q in w.run(FN, [w.state, buf, n.c + 1, j, f], s2):
                if not ctx.check(q.kind == "ret", "size", FN + "/abort", "does not return for %s" % show(t), wh):
                    continue
                r = w.it.reduce(q.st, q.ret)
                if not ctx.check(r is n, "size", FN, "measures %d bytes and writes %r for %s" % (n.c, r, show(t)), wh):
                    continue
                if not events(ctx, w, q, FN, wh, t):
                    continue
                judge(ctx, w, q.st, buf, n.c, want, f, rule, FN, wh, t)
                if before is not None:
                    try:
                        same = w.value(j, q.st) == before
                    except S.Many:
                        same = False
                    ctx.check(same, "memory", FN + "/value", "changes the value %s" % show(t), wh)
        if deep:
            continue
        st = w.st.copy()
        st.trace = None
        bp, sp = K.obj("bufp"), K.obj("sizep")
        for p in w.run(FA, [w.state, bp, sp, j, f], st):
            if not ctx.check(p.kind == "ret", "asprint", FA + "/abort", "does not return for %s" % show(t), wa) or not events(ctx, w, p, FA, wa, t):
                continue
            n, buf = w.it.reduce(p.st, p.ret), w.at(p.st, bp)
            z = w.at(p.st, sp, 8, "i64")
            if ctx.check(n.is_const() and buf.t and z is n, "asprint", FA, "returns %r with the size %r for %s" % (n, z, show(t)), wa):
                judge(ctx, w, p.st, buf, n.c, want, f, "asprint", FA, wa, t)
                try:
                    z = w.quiet("cee_block_size", [buf], p.st)
                except S.Many as e:
                    z = -1
                ctx.check(z > n.c, "asprint", FA + "/block", "the block given has %d bytes for a text of %d and its terminator" % (z, n.c), wa)
    ctx.used(w.it)


def judge(ctx, w, st, buf, n, want, f, rule, fn, wh, t):
    end = w.it.reduce(st, w.it.load(st, vadd(buf, const(n)), 1, None, "i8"))
    ctx.check(end is ZERO, rule, fn + "/terminator", "the text is not terminated for %s" % show(t), wh)
    bad = text_bad(w, st, buf, n, want, not f)
    ctx.check(not bad, rule, fn + ("/pretty" if f else "/compact"), "the text of %s %s" % (show(t), bad), wh)


# ------------------------------------------------------------------ the values
A1, B1 = [T.mask("a")], [T.mask("b")]


def shapes(n, leaf):
    """trees with n nodes"""
    if n == 1:
        return [leaf, ("arr", ()), ("obj", ())]
    out = []
    for parts in splits(n - 1):
        for kids in itertools.product(*[shapes(k, leaf) for k in parts]):
            out.append(("arr", kids))
            out.append(("obj", tuple((A1, x) for x in kids)))
    return out


def splits(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in splits(n - k)]


def values(thorough):
    kinds = [("null",), ("true",), ("false",), ("i64",), ("u64",), ("double",), ("i64", 20), ("double", 1)]
    k1 = [NZ]
    strs = [("str", []), ("str", [NZ]), ("str", [NZ] * 2), ("strn", []), ("strn", [T.ANY]), ("strn", [T.ANY] * 2)]
    if thorough:
        strs += [("str", [NZ] * 3), ("strn", [T.ANY] * 3)]
    out = list(kinds) + strs
    out += [("arr", (x,)) for x in kinds + strs]
    out += [("obj", ((A1, x),)) for x in kinds + strs]
    out += [("obj", ((m, ("null",)),)) for m in ([], [NZ], [NZ] * 2)]
    out += [("obj", (([NZ], ("i64",)), (B1, ("strn", [T.ANY])))), ("obj", ((A1, ("str", [NZ])), ([NZ], ("u64",))))]
    out += [("arr", (x, y)) for x in kinds[:6] + strs[:4:3] for y in kinds[:6] + strs[1:5:3]]
    out += [("obj", ((A1, x), (B1, y))) for x in kinds[2:6] + strs[1:2] for y in kinds[:3] + strs[4:5]]
    out += [("obj", ((A1, ("i64",)), (B1, ("u64",)), ([NZ], ("true",)))), ("obj-", ((A1, ("i64",)), (B1, ("u64",)), ([NZ], ("true",)))), ("obj-", ((A1, ("i64",)),))]
    for n in range(1, 6 if thorough else 5):
        out += shapes(n, ("i64",))
    seen, res = set(), []
    for t in out:
        k = repr(t) if t[0] not in ("str", "strn") else (t[0], len(t[1]), t[1][0].sum() if t[1] else 0)
        if k not in seen:
            seen.add(k)
            res.append(t)
    return res


def nest(kind, d, leaf):
    t = leaf
    for i in range(d):
        t = ("arr", (t,)) if kind == "arr" else ("obj", ((A1, t),))
    return t


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for kind in ("arr", "obj"):
            jobs.append(lambda x, k=kind: one(x, c, nest(k, 499 if k == "arr" or thorough else 200, ("arr", ())), fmts=(0,), deep=True))
            jobs.append(lambda x, k=kind: one(x, c, nest(k, 140, ("true",)), fmts=(1,), deep=True))
        todo = values(thorough)
        # the ones with unknown bytes first
        todo.sort(key=lambda t: -str(t).count("array"))
        for i in range(0, len(todo)):
            jobs.append(lambda x, i=i: one(x, c, todo[i]))
        parallel(ctx, jobs)
