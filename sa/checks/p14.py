"""P14: the tokenizer recognises exactly the tokens of JSON, inside the text it is given."""
import numpy as np

import absint as A
import ceelib as C
import vset as VS
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import jsonlib as JL
from harness import parallel

MIN = {"token": 1000, "text": 200, "number": 200, "memory": 1000}
EXPLAIN = ("cee_json_next_token is analysed on texts whose bytes are unknown: every unknown byte carries the set of values it can still have, every condition splits "
           "the sets, so each path stands for all texts that take it. The outcome of each path is compared with the lexical grammar of JSON for all of those texts. "
           "Rule token: kind of token, bytes consumed, lines counted. Rule text: the bytes of a string, escapes and surrogate pairs decoded to UTF-8. Rule number: the "
           "conversion is applied to exactly the text of the number, and its result is delivered with the right kind. Rule memory: no byte outside the text is read, none of it is "
           "changed, everything allocated on the way is released.")
ASSUME = ["C locale", "strtod, strtoll, strtoull and sscanf convert as the C standard says"]
FN = "cee_json_next_token"
ERANGE = 34


def mask(s):
    m = np.zeros(256, dtype=bool)
    for c in s:
        m[((c if isinstance(c, int) else ord(c)) ^ 128)] = True
    return m


def inv(m):
    return ~m


DIG = mask("0123456789")
XD = mask("0123456789abcdefABCDEF")
WS = mask(" \t\n\r")
CTL = mask(range(32))
ANY = np.ones(256, dtype=bool)
NUM = mask("0123456789+-.eE, ")
QUOTE = mask('"')
HEXV = np.array([int(chr(i ^ 128), 16) if chr(i ^ 128) in "0123456789abcdefABCDEF" else -1 for i in range(256)])


class Tok(JL.J):
    INTERP = VS.VInterp

    def __init__(self, c):
        JL.J.__init__(self, c)
        L = c.L
        self.o = {m: L.off("tokenizer", m) for m in ("line", "buf", "buf_end", "str", "type", "number")}
        it = self.it
        it.max_paths = 200000
        it.max_steps = 400000000
        m = {"__ctype_b_loc": self._ctype, "__errno_location": lambda it, I, n, a, st: [("ret", self.errno, st)],
             "strtod": self._strto, "strtoll": self._strto, "strtoull": self._strto, "strtol": self._strto, "strtoul": self._strto,
             "sscanf": self._sscanf, "__isoc99_sscanf": self._sscanf, "memcmp": self._memcmp, "strncmp": self._memcmp, "memchr": self._memchr, "strchr": self._strchr,
             "tolower": self._case, "toupper": self._case, "strlen": self._len, "memcpy": self._copy, "memmove": self._copy}
        for n in ("strtoll", "strtoull", "strtol", "strtoul"):
            m["__isoc23_" + n] = self._strto
        m["__isoc23_sscanf"] = self._sscanf
        for n in VS.CT:
            m[n] = self._is
        it.models.update(m)
        self.errno = K.obj("errno")
        self.ctab = av(A.atom("op", "nonneg", "ctype"))
        self.ctp = K.obj("ctypep")
        it.lazy = self._lazy

    # --- library functions on bytes
    def _ctype(self, it, I, n, a, st):
        K.put(st, self.ctp, self.ctab, 8, None, "ptr")
        return [("ret", self.ctp, st)]

    def _lazy(self, it, st, addr, size, tag):
        d = vsub(addr, self.ctab)
        if size == 2 and (not d.t or VS.deps(d)) and d.c % 2 == 0 and all(k % 2 == 0 for _, k in d.t):
            i = A.mk(d.c // 2, tuple((a, k // 2) for a, k in d.t))
            return A.op("ctype", i) if i.t else const(int(VS._CT[max(-128, min(255, i.c)) + 128]))
        return None

    def _is(self, it, I, n, a, st):
        x = A.op("ctype", a[0]) if a[0].t else const(int(VS._CT[max(-128, min(255, a[0].c)) + 128]))
        return [("ret", it.binop(st, "and", x, const(VS.CT[n]), I.type, I), st)]

    def _case(self, it, I, n, a, st):
        if not a[0].t:
            return [("ret", const(ord((chr(a[0].c).lower if n == "tolower" else chr(a[0].c).upper)())) if 0 <= a[0].c < 128 else a[0], st)]
        return [("ret", A.op("lower" if n == "tolower" else "upper", a[0]), st)]

    def inset(self, st, v, s):
        """states with the byte in / not in the characters of s: [(state, bool)]"""
        it = self.it
        v = it.reduce(st, v)
        if not v.t:
            return [(st, chr(v.c & 255) in s)]
        out, rest = [], st
        a = v.single()
        if a is None or a.kind != "byte":
            for ch in s:
                nxt = None
                for x, tv in it.decide(rest, it.eqc_key(v, A.sgn(ord(ch), 8))):
                    if tv:
                        out.append((x, True))
                    else:
                        nxt = x
                if nxt is None:
                    return out
                rest = nxt
            return out + [(rest, False)]
        m, t = it.mask(st, a), mask(s)
        for tv, n in ((True, m & t), (False, m & ~t)):
            if n.any():
                x = st.copy()
                it.setmask(x, a, n)
                out.append((x, tv))
        return out

    def scan(self, I, st, p, classes):
        """reads along p: classes(list of class indices so far) -> string of characters to go on with, or None; -> [(state, bytes)]"""
        todo, out = [(st, [])], []
        while todo:
            s, got = todo.pop()
            want = classes(s, got)
            if want is None or len(got) > 64:
                out.append((s, got))
                continue
            v = self.raw(I, s, vadd(p, const(len(got))))
            for x, tv in self.inset(s, v, want):
                if tv:
                    todo.append((x, got + [v]))
                else:
                    out.append((x, got))
        return out

    def raw(self, I, st, a):
        self.it.access(st, I, a, 1, "load")
        return self.it.load(st, a, 1, None, "i8")

    def digits(self, I, st, p, real):
        """the text strtod / strtoll take: [(state, bytes)]"""
        def fork(states, chars):
            yes, no = [], []
            for s, got in states:
                v = self.raw(I, s, vadd(p, const(len(got))))
                for x, tv in self.inset(s, v, chars):
                    (yes if tv else no).append((x, got + [v] if tv else got))
            return yes, no
        D = "0123456789"
        done = []

        def many(states):
            out = []
            while states:
                states, no = fork(states, D)
                out += no
            return out
        y, n = fork([(st, [])], "+-")
        states, no = fork(y + n, D)
        done += [(s, []) for s, _ in no]         # (".5" is no JSON number and does not get here)
        states = many(states)
        if not real:
            return done + states
        y, n = fork(states, ".")
        states = many(y) + n
        y, n = fork(states, "eE")
        done += n
        ys, ns = fork(y, "+-")
        for yy in (ys, ns):
            a, b = fork(yy, D)
            done += [(s, got[:-2] if yy is ys else got[:-1]) for s, got in b]
            done += many(a)
        return done

    def _strto(self, it, I, n, a, st):
        n = n.replace("__isoc23_", "")
        if n != "strtod" and a[2].is_const() and a[2].c == 16:
            return self._hex(it, I, st, a[0], 8, lambda s, v, k: (self.setend(s, a[1], vadd(a[0], const(k))), v)[1])
        out = []
        for s, got in self.digits(I, st, a[0], n == "strtod"):
            self.setend(s, a[1], vadd(a[0], const(len(got))))
            if not got:
                out.append(("ret", ZERO, s))
                continue
            v = av(A.atom("op", "num", n, *got))
            outs = [("ok", v)]
            if n != "strtod":
                outs.append(("range", av(A.atom("op", "limit", n, *got))))
            for k, (r, x) in enumerate(outs):
                s2 = s.copy() if k < len(outs) - 1 else s
                s2.mon = (s2.mon or ()) + ((n, tuple(got), r),)
                if r == "range":
                    it.store(s2, self.errno, const(ERANGE), 4, None, "i32")
                out.append(("ret", x, s2))
        return out

    def setend(self, st, q, v):
        if q.t:
            self.it.store(st, q, v, 8, None, "ptr")

    def _hex(self, it, I, st, p, width, fin):
        out = []
        for s, got in self.scan(I, st, p, lambda s, g: "0123456789abcdefABCDEF" if len(g) < width else None):
            if not got:
                out.append(("ret", fin(s, None, 0), s))
                continue
            if all(v.is_const() for v in got):
                h = const(int("".join(chr(v.c & 255) for v in got), 16))
            else:
                if len(got) > 4:
                    raise A.AnalysisError("a hexadecimal number of %d digits" % len(got))
                a = A.atom("hex", *got)
                m = np.zeros(1, dtype=np.int64)
                for v in got:
                    if v.is_const():
                        ds = np.array([int(chr(v.c & 255), 16)])
                    else:
                        ds = np.unique(HEXV[it.mask(s, v.single())])
                    m = (m[:, None] * 16 + ds[None, :]).reshape(-1)
                f = np.zeros(65536, dtype=bool)
                f[m] = True
                it.setmask(s, a, f)
                h = av(a)
            out.append(("ret", fin(s, h, len(got)), s))
        return out

    def _sscanf(self, it, I, n, a, st):
        f = it.prog.cstring(a[1])
        w = {b"%x": (64, 4), b"%4x": (4, 4), b"%hx": (64, 2), b"%4hx": (4, 2), b"%X": (64, 4), b"%4X": (4, 4), b"%hX": (64, 2), b"%4hX": (4, 2)}.get(f)
        if w is None:
            raise A.AnalysisError("sscanf with %r" % f)

        def fin(s, v, k):
            if v is not None:
                it.store(s, a[2], v if w[1] == 4 or not v.t else A.op("trunc", 16, v), w[1], None, "i%d" % (8 * w[1]))
            return ONE if v is not None else ZERO
        return self._hex(it, I, st, a[0], w[0], fin)

    def _memcmp(self, it, I, n, a, st):
        if not a[2].is_const():
            raise A.AnalysisError("%s of unknown length" % n)
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == a[2].c:
                out.append(("ret", ZERO, s))
                continue
            x, y = self.raw(I, s, vadd(a[0], const(i))), self.raw(I, s, vadd(a[1], const(i)))
            for s2, tv in it.decide(s, self.eq(s, x, y)):
                if not tv:
                    out.append(("ret", ONE, s2))
                elif n == "strncmp":
                    for s3, z in it.decide(s2, self.eq(s2, x, ZERO)):
                        if z:
                            out.append(("ret", ZERO, s3))
                        else:
                            todo.append((s3, i + 1))
                else:
                    todo.append((s2, i + 1))
        return out

    def eq(self, st, x, y):
        return self.it.eqc_key(self.it.reduce(st, vsub(x, y)), 0)

    def _memchr(self, it, I, n, a, st):
        if not a[2].is_const() or not a[1].is_const():
            raise A.AnalysisError("memchr of unknown length")
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i >= a[2].c:
                out.append(("ret", ZERO, s))
                continue
            x = self.raw(I, s, vadd(a[0], const(i)))
            for s2, tv in it.decide(s, self.eq(s, x, const(A.sgn(a[1].c, 8)))):
                if tv:
                    out.append(("ret", vadd(a[0], const(i)), s2))
                else:
                    todo.append((s2, i + 1))
        return out

    def _strchr(self, it, I, n, a, st):
        b = it.prog.cstring(a[0])
        if b is None:
            raise A.AnalysisError("strchr in an unknown text")
        out, rest = [], st
        for i, ch in enumerate(b + b"\0"):
            v = a[1] if not a[1].t else A.op("trunc", 8, a[1])
            nxt = None
            for s, tv in it.decide(rest, self.eq(rest, v, const(A.sgn(ch, 8)))):
                if tv:
                    out.append(("ret", vadd(a[0], const(i)), s))
                else:
                    nxt = s
            if nxt is None:
                return out
            rest = nxt
        return out + [("ret", ZERO, rest)]

    def _len(self, it, I, n, a, st):
        b = it.prog.cstring(a[0])
        if b is not None:
            return [("ret", const(len(b)), st)]
        return [("ret", const(len(g)), s) for s, g in self.cstr(I, st, a[0], None)]

    def _copy(self, it, I, n, a, st):
        if not a[2].is_const():
            return None
        for i in range(a[2].c):
            it.access(st, I, vadd(a[1], const(i)), 1, "load")
            it.access(st, I, vadd(a[0], const(i)), 1, "store")
        vs = [it.load(st, vadd(a[1], const(i)), 1, None, "i8") for i in range(a[2].c)]
        for i, v in enumerate(vs):
            it.store(st, vadd(a[0], const(i)), v, 1, None, "i8")
        return [("ret", a[0], st)]

    def cstr(self, I, st, p, limit):
        """[(state, bytes before the terminator or the limit)]"""
        todo, out = [(st, [])], []
        while todo:
            s, got = todo.pop()
            if limit is not None and len(got) >= limit or len(got) > 1000:
                out.append((s, got))
                continue
            v = self.raw(I, s, vadd(p, const(len(got))))
            for s2, tv in self.it.decide(s, self.eq(s, v, ZERO)):
                if tv:
                    out.append((s2, got))
                else:
                    todo.append((s2, got + [v]))
        return out

    # --- strings made
    def made_of(self, it, I, st, fmt, args):
        f = it.prog.cstring(fmt)
        if f == b"%s":
            return self.cstr(I, st, args[0], None)
        if f == b"%.*s" and args[0].is_const():
            return self.cstr(I, st, args[1], args[0].c)
        raise A.AnalysisError("a string made by %r" % (f,))

    def _mk(self, it, I, name, args, st):
        return sum((self._new(it, s, tuple(b)) for s, b in self.made_of(it, I, st, args[1], args[2:])), [])

    def _mke(self, it, I, name, args, st):
        if args[2] is ZERO:
            return self._new(it, st, ())
        return sum((self._new(it, s, tuple(b)) for s, b in self.made_of(it, I, st, args[2], args[3:])), [])

    def _strn(self, it, I, name, args, st):
        if not args[1].is_const():
            raise A.AnalysisError("cee_str_strn of unknown length")
        b = [self.raw(I, st, vadd(args[2], const(i))) for i in range(args[1].c)]
        return self._new(it, st, tuple(b))

    # --- one text
    def explore(self, tmpl):
        """tmpl: masks; -> paths"""
        it = self.it
        st = self.st.copy()
        st.trace = None
        st.mon = ()
        st.vs = {}
        self.buf = K.obj("text")
        self.tok = K.obj("tokenizer")
        self.bytes = []
        n = len(tmpl)
        st.sizes = dict(st.sizes)
        st.sizes[self.buf.single()] = const(n)
        for i, m in enumerate(tmpl):
            vals = VS.DOMS["byte"][m]
            if len(vals) == 1:
                v = const(int(vals[0]))
            else:
                v = av(A.atom("byte", i))
                it.setmask(st, v.single(), m)
            self.bytes.append(v)
            K.put(st, vadd(self.buf, const(i)), v, 1, None, "i8")
        self.line0 = av(A.atom("op", "nonneg", "line"))
        self.old = av(A.atom("op", "nonneg", "old"))
        for m, v, z, ty in (("line", self.line0, 4, "i32"), ("buf", self.buf, 8, "ptr"), ("buf_end", vadd(self.buf, const(n)), 8, "ptr"),
                            ("str", ZERO, 8, "ptr")):
            K.put(st, vadd(self.tok, const(self.o[m])), v, z, None, ty)
        K.put(st, self.errno, av(A.atom("arg", 90, "errno")), 4, None, "i32")
        return it.run(FN, [self.state, self.tok], st)


# ------------------------------------------------------------------ the lexical grammar
class Split(Exception):
    def __init__(self, parts):
        Exception.__init__(self)
        self.parts = parts


class Ref:
    """the reference on one class of texts; ask() splits the class where the answer differs"""

    def __init__(self, w, path, masks, hexm):
        self.w, self.m, self.h = w, masks, hexm
        self.n = len(masks)
        self.utf = False

    def ask(self, i, s):
        a, b = self.m[i] & s, self.m[i] & ~s
        if not a.any():
            return False
        if not b.any():
            return True
        raise Split([({**self.m, i: x}, self.h) for x in (a, b)])

    def askh(self, h, f):
        """f: condition on the code unit array"""
        if isinstance(h, int):
            return bool(f(np.array([h]))[0])
        m = self.h[h] if h in self.h else None
        t = f(VS.DOMS["hex"])
        a, b = m & t, m & ~t
        if not a.any():
            return False
        if not b.any():
            return True
        raise Split([(self.m, {**self.h, h: x}) for x in (a, b)])

    def lex(self):
        p, line = 0, 0
        while True:
            if p >= self.n:
                return ("eof", p, line)
            for ch in "[{:,}]":
                if self.ask(p, mask(ch)):
                    return (ch, p + 1, line)
            if self.ask(p, mask("\n\r")):
                line += 1
                p += 1
                continue
            if self.ask(p, mask(" \t")):
                p += 1
                continue
            if self.ask(p, mask('"')):
                return self.string(p + 1, line)
            for word in ("true", "false", "null"):
                if self.ask(p, mask(word[0])):
                    for k, ch in enumerate(word):
                        if p + k >= self.n or not self.ask(p + k, mask(ch)):
                            return ("err", None, line)
                    return (word, p + len(word), line)
            if self.ask(p, mask("-0123456789")):
                return self.number(p, line)
            if self.ask(p, mask("/")):
                return ("comment", None, line)
            return ("err", None, line)

    def number(self, p, line):
        q = p
        err = ("err", None, line)
        at = lambda i, s: i < self.n and self.ask(i, s)
        neg = at(q, mask("-"))
        if neg:
            q += 1
        if not at(q, DIG):
            return err
        if self.ask(q, mask("0")):
            q += 1
            if at(q, DIG):
                return err
        else:
            while at(q, DIG):
                q += 1
        real = False
        if at(q, mask(".")):
            q += 1
            if not at(q, DIG):
                return err
            while at(q, DIG):
                q += 1
            real = True
        if at(q, mask("eE")):
            q += 1
            if at(q, mask("+-")):
                q += 1
            if not at(q, DIG):
                return err
            while at(q, DIG):
                q += 1
            real = True
        return ("number", q, line, "real" if real else "int", neg, (p, q))

    def unit(self, p):
        """code unit of four hexadecimal digits at p, None if they are not"""
        bs = []
        for i in range(p, p + 4):
            if i >= self.n or not self.ask(i, XD):
                return None
            bs.append(self.w.bytes[i])
        for a in self.h:
            if list(a.args) == bs:
                return a
        if all(b.is_const() for b in bs):
            return int("".join(chr(b.c & 255) for b in bs), 16)
        return ("unit", p)

    def within(self, u, lo, hi):
        f = lambda x: (x >= lo) & (x <= hi)
        if not isinstance(u, tuple):
            return self.askh(u, f)
        # digits the analysed code did not convert as a whole: by their values
        ps = list(range(u[1], u[1] + 4))
        ds = [np.flatnonzero(self.m[i]) for i in ps]
        x = np.zeros((1, 1, 1, 1), dtype=np.int64)
        for k, d in enumerate(ds):
            sh = [1] * 4
            sh[k] = -1
            x = x * 16 + HEXV[d].reshape(sh)
        r = f(x)
        if r.all() or not r.any():
            return bool(r.all())
        k, groups = VS.cases(r)
        parts = []
        for g in groups:
            m = np.zeros(256, dtype=bool)
            m[ds[k][g]] = True
            parts.append(({**self.m, ps[k]: m}, self.h))
        raise Split(parts)

    def string(self, p, line):
        err = ("err", None, line)
        out = []
        odd = esc = False
        while True:
            if not any((self.m[i] & QUOTE).any() for i in range(p, self.n)):
                return err
            if self.ask(p, QUOTE):
                return ("str", p + 1, line, out, odd, esc)
            if self.ask(p, CTL):
                return err
            if not self.ask(p, mask("\\")):
                if self.utf and not self.ask(p, mask(range(128))):
                    k = self.utf8(p)
                    if k is None:
                        odd = True
                        k = 1
                    out += [("b", p + i) for i in range(k)]
                    p += k
                    continue
                out.append(("b", p))
                p += 1
                continue
            p += 1
            esc = True
            if p >= self.n:
                return err
            for e, v in (('"', 34), ("\\", 92), ("/", 47), ("b", 8), ("f", 12), ("n", 10), ("r", 13), ("t", 9)):
                if self.ask(p, mask(e)):
                    out.append(("c", v))
                    p += 1
                    break
            else:
                if not self.ask(p, mask("u")):
                    return err
                u = self.unit(p + 1)
                if u is None:
                    return err
                p += 5
                if self.within(u, 0xD800, 0xDBFF):
                    if not (p + 1 < self.n and self.ask(p, mask("\\")) and self.ask(p + 1, mask("u"))):
                        return err
                    v = self.unit(p + 2)
                    if v is None or not self.within(v, 0xDC00, 0xDFFF):
                        return err
                    p += 6
                    out += [("p", u, v, i) for i in range(4)]
                elif self.within(u, 0xDC00, 0xDFFF):
                    return err
                elif self.within(u, 0, 0):
                    return self.zero(p, line)
                else:
                    k = 1 if self.within(u, 0, 0x7F) else 2 if self.within(u, 0, 0x7FF) else 3
                    out += [("u", u, k, i) for i in range(k)]

    def zero(self, p, line):
        """\\u0000: a C string cannot hold it; what is returned then is not laid down"""
        return ("zero", None, line)

    def utf8(self, p):
        """length of the well-formed UTF-8 sequence at p, or None"""
        tail = [(mask(range(0xC2, 0xE0)), [(0x80, 0xC0)]), (mask([0xE0]), [(0xA0, 0xC0), (0x80, 0xC0)]),
                (mask(list(range(0xE1, 0xED)) + [0xEE, 0xEF]), [(0x80, 0xC0)] * 2), (mask([0xED]), [(0x80, 0xA0), (0x80, 0xC0)]),
                (mask([0xF0]), [(0x90, 0xC0), (0x80, 0xC0), (0x80, 0xC0)]), (mask(range(0xF1, 0xF4)), [(0x80, 0xC0)] * 3),
                (mask([0xF4]), [(0x80, 0x90), (0x80, 0xC0), (0x80, 0xC0)])]
        for lead, ts in tail:
            if self.ask(p, lead):
                for i, (a, b) in enumerate(ts):
                    if p + 1 + i >= self.n or not self.ask(p + 1 + i, mask(range(a, b))):
                        return None
                return 1 + len(ts)
        return None


def classes(w, p):
    """the masks of the texts of a path"""
    masks = {}
    for i, b in enumerate(w.bytes):
        if b.t:
            masks[i] = w.it.mask(p.st, b.single())
        else:
            m = np.zeros(256, dtype=bool)
            m[b.c + 128] = True
            masks[i] = m
    return masks, {a: m for a, m in (p.st.vs or {}).items() if a.kind == "hex"}


def leaves(w, p, utf, start=None):
    """the classes of texts of a path on which the reference is uniform: [(Ref, outcome)]"""
    todo, n = [start or classes(w, p)], 0
    while todo:
        ms, hs = todo.pop()
        r = Ref(w, p, ms, hs)
        r.utf = utf
        try:
            want = r.lex()
        except Split as s:
            todo += s.parts
            n += 1
            if n > 20000:
                raise A.AnalysisError("too many classes of texts") from None
            continue
        yield r, want


def example(r):
    bs = []
    for i in range(r.n):
        vals = VS.DOMS["byte"][r.m[i]] & 255
        pr = [x for x in vals if 32 <= x < 127]
        bs.append(int(pr[0] if pr else vals[0]))
    for a, m in r.h.items():
        v = "%04x" % int(np.flatnonzero(m)[0])
        for k, b in enumerate(a.args):
            if b.t and len(a.args) == 4:
                bs[b.single().args[0]] = ord(v[k])
    return repr(bytes(bs))


def unit_env(r, u, env):
    """array of the code unit"""
    if isinstance(u, int):
        return u
    if isinstance(u, tuple):
        x = 0
        for i in range(u[1], u[1] + 4):
            x = x * 16 + HEXV[VS.ev(r.w.bytes[i], env) + 128]
        return x
    return env[u]


def expected(w, r, e, env):
    if e[0] == "b":
        return VS.ev(w.bytes[e[1]], env) & 255
    if e[0] == "c":
        return e[1]
    if e[0] == "u":
        x, k, i = unit_env(r, e[1], env), e[2], e[3]
    else:
        x, k, i = 0x10000 + ((unit_env(r, e[1], env) & 0x3FF) << 10) + (unit_env(r, e[2], env) & 0x3FF), 4, e[3]
    if k == 1:
        return x
    if i == 0:
        return (x >> (6 * (k - 1))) | {2: 0xC0, 3: 0xE0, 4: 0xF0}[k]
    return ((x >> (6 * (k - 1 - i))) & 0x3F) | 0x80


def text_bad(w, p, r, want, got):
    if got is None:
        return "no string is delivered"
    if len(got) != len(want):
        return "%d bytes instead of %d" % (len(got), len(want))
    for k, (e, g) in enumerate(zip(want, got)):
        d = VS.deps(g)
        if d is None:
            return "byte %d is %r" % (k, g)
        atoms = set(d)
        for x in e[1:] if e[0] in "up" else ():
            if isinstance(x, A.Atom):
                atoms.add(x)
            elif isinstance(x, tuple):
                atoms |= {w.bytes[i].single() for i in range(x[1], x[1] + 4) if w.bytes[i].t}
        if e[0] == "b" and w.bytes[e[1]].t:
            atoms.add(w.bytes[e[1]].single())
        ms = []
        for a in sorted(atoms, key=lambda a: a.id):
            ms.append((a, r.h[a] if a.kind == "hex" else r.m[a.args[0]]))
        env = VS.grid(ms) if ms else {}
        x, y = VS.ev(g, env) & 255, expected(w, r, e, env)
        if not np.all(np.asarray(x) == np.asarray(y)):
            return "byte %d is not the one the text stands for" % k
    return None


def judge(ctx, w, p, wh):
    it = w.it
    if p.kind != "ret":
        return ctx.check(False, "token", FN + "/abort", "does not return", wh)
    o = w.o
    ret = it.reduce(p.st, p.ret)
    ok = True
    for e in p.ev:
        if e.kind in ("oob", "uaf", "doublefree"):
            r = next(leaves(w, p, False))[0]
            ok = False
            ctx.check(False, "memory", FN + "/" + e.kind, "%s outside the memory it has, for the text %s" % ("reads" if e.access == "load" else "writes", example(r)) if e.kind == "oob"
                      else "%s for the text %s" % (e.kind, example(r)), e.where())
    frees = [e.p for e in p.ev if e.kind == "free"]
    left = [e for e in p.ev if e.kind == "alloc" and not any(f is e.ret for f in frees)]
    same = all(it.load(p.st, vadd(w.buf, const(i)), 1, None, "i8") is b for i, b in enumerate(w.bytes))
    if ok:
        ctx.check(not left, "memory", FN + "/leak", "an allocation is not released" + (" for the text %s" % example(next(leaves(w, p, False))[0]) if left else ""), left[0].where() if left else wh)
        ctx.check(same, "memory", FN + "/text", "the text is changed", wh)
    kinds = {255: "eof", 256: "err"}
    for k, n in (("tock_str", "str"), ("tock_number", "number"), ("tock_true", "true"), ("tock_false", "false"), ("tock_null", "null"), ("tock_eof", "eof"), ("tock_err", "err")):
        kinds[w.c.en[k]] = n
    kind = kinds.get(ret.c, chr(ret.c) if 0 < ret.c < 128 else None) if ret.is_const() else None
    line = it.reduce(p.st, vsub(w.at(p.st, vadd(w.tok, const(o["line"])), 4, "i32"), w.line0))
    pos = it.reduce(p.st, vsub(w.at(p.st, vadd(w.tok, const(o["buf"]))), w.buf))
    for r, want in leaves(w, p, False):
        if want[0] in ("comment", "zero"):
            continue
        if kind == "err" and want[0] == "str" and all(x[1][4] for x in leaves(w, p, True, (r.m, r.h))):
            continue                 # not UTF-8: may be refused
        if kind == "str" == want[0] and want[5]:
            bad = [x for x in leaves(w, p, True, (r.m, r.h)) if x[1][4]]
            if not ctx.check(not bad, "token", FN + "/utf8", "accepts the text %s, whose string is not UTF-8" % (example(bad[0][0]) if bad else ""), wh):
                return
        if not ctx.check(kind == want[0], "token", FN, "gives %s for the text %s instead of %s" % (kind, example(r), want[0]), wh):
            return
        if not ctx.check(line is const(want[2]), "token", FN + "/line", "counts %r lines in the text %s" % (line, example(r)), wh):
            return
        if want[1] is not None and not ctx.check(pos is const(want[1]), "token", FN + "/rest", "goes on at %r after a token ending at %d in the text %s" % (pos, want[1], example(r)), wh):
            return
        if kind == "str":
            s = w.at(p.st, vadd(w.tok, const(o["str"])))
            bad = text_bad(w, p, r, want[3], w.text.get(s))
            if not ctx.check(not bad, "text", FN, "%s for the text %s" % (bad, example(r)), wh):
                return
        if kind == "number":
            bad = number_bad(w, p, want)
            if not ctx.check(not bad, "number", FN, "%s for the text %s" % (bad, example(r)), wh):
                return


def number_bad(w, p, want):
    it, o = w.it, w.o
    ty = w.at(p.st, vadd(w.tok, const(o["type"])), 4, "i32")
    v = w.at(p.st, vadd(w.tok, const(o["number"])), 8, None)
    text = w.bytes[want[5][0]:want[5][1]]
    kinds = {w.c.en["NUMBER_IS_" + k]: k for k in ("I64", "U64", "DOUBLE")}
    k = kinds.get(ty.c) if ty.is_const() else None
    asked = {(n, tuple(b)): r for n, b, r in p.st.mon}
    for n, b, r in p.st.mon:
        if list(b) != text:
            return "%s converts another part of the text" % n
    t = tuple(text)
    signed = next((asked[(n, t)] for n in ("strtoll", "strtol") if (n, t) in asked), None)
    unsigned = next((asked[(n, t)] for n in ("strtoull", "strtoul") if (n, t) in asked), None)
    s = v.single()
    while s is not None and s.kind == "op" and s.args[0] == "reinterp":
        s = s.args[-1].single()
    if s is None or s.kind != "op" or s.args[0] != "num":
        return "the number is %r" % v
    fn = s.args[1]
    if k == "DOUBLE":
        if fn != "strtod":
            return "a double converted by %s" % fn
        if want[3] == "int" and not (signed == "range" and (want[4] or unsigned == "range")):
            return "an integer that fits becomes a double"
        return None
    if want[3] == "real":
        return "a number with a fraction or exponent becomes an integer"
    if k == "I64":
        return None if fn in ("strtoll", "strtol") and signed == "ok" else "an int64_t converted by %s (%s)" % (fn, signed)
    if k == "U64":
        return None if fn in ("strtoull", "strtoul") and unsigned == "ok" and signed == "range" and not want[4] else "an uint64_t converted by %s (%s, %s)" % (fn, signed, unsigned)
    return "the kind is %r" % ty


def lit(s):
    return [mask(c) for c in s]


def templates(thorough):
    d = 1 if thorough else 0
    out = []
    for n in range(0, 4 + d):
        out.append([ANY] * n)
    for n in range(1, 6 + d):
        out.append(lit('"') + [ANY] * n)
    for n in range(1, 5):
        out.append(lit('"\\n') + [ANY] * n + lit('"'))
        out.append(lit('"') + [ANY] * n + lit('\\t"'))
    for n in range(0, 6):
        out.append(lit('"\\u') + [ANY] * n)
    out.append(lit('"\\u') + [ANY] * 4 + lit('"'))
    out.append(lit('"\\u') + [XD] * 4 + [ANY] * 2)
    out.append(lit('"\\u') + [XD] * 4 + lit("\\") + [ANY] * 2 + lit('"'))
    out.append(lit('"\\u') + [XD] * 4 + lit("\\u") + [XD] * 4 + lit('"'))
    out.append(lit('"\\u') + [XD] * 4 + lit("\\u") + [ANY] * 4 + lit('"'))
    out.append(lit('"\\u') + [XD] * 4 + lit("\\u") + [XD] * 4)
    out.append(lit('"\\u') + [XD] * 4 + lit("x\\u") + [XD] * 4 + lit('"'))
    out.append(lit('"\\uD834\\uDD1E') + [ANY] * 2)
    out.append(lit('"x\\u') + [XD] * 4 + lit("\\n") + [ANY] + lit('"'))
    out.append(lit('"\\u') + [XD] * 4 + lit("\\u") + [XD] * 4 + lit("\\u") + [XD] * 3 + lit('"'))
    for n in range(1, 7 + d):
        out.append([mask("-0123456789")] + [NUM] * (n - 1))
    out.append([mask("123456789")] + [DIG] * 10 + [NUM])
    out.append(lit("-") + [NUM] * (6 + d))
    for wd in ("true", "false", "null"):
        for n in range(0, len(wd) + 1):
            out.append(lit(wd[0]) + [ANY] * n)
        out.append([WS] * 2 + lit(wd))
    out.append([WS] * 5)
    out.append([WS] * 4 + [ANY])
    out.append([WS] * 2 + lit('"') + [ANY] * 2)
    out.append([WS] * 2 + [mask("-0123456789")] + [NUM] * 2)
    return out


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        f = c.fn(FN)
        wh = "%s:%d (%s)" % (f.loc() + (FN,))
        ts = sorted(templates(thorough), key=lambda t: -sum(len(t) and (m is ANY) * 4 + (m is NUM) * 2 for m in t))
        parallel(ctx, [lambda x, t=t: one(x, c, t, wh) for t in ts])


def one(ctx, c, t, wh):
    try:
        ps = explore(ctx, c, t, wh)
    except A.AnalysisError:
        if sum(m is XD for m in t) < 2:
            raise
        # units the code does not convert as a whole: some of their digits fixed
        for keep in (0, 1):
            u, n = [], 0
            for m in t:
                if m is XD:
                    n += 1
                    m = mask(SOME[keep][(n - 1) % 8]) if SOME[keep][(n - 1) % 8] else XD
                u.append(m)
            explore(ctx, c, u, wh)


SOME = [["dD", "89b", "3", None, "dD", "cf", "0", None], ["d", None, "0", "4", "d", None, "f", "F"]]


def explore(ctx, c, t, wh):
    w = Tok(c)
    for p in w.explore(t):
        judge(ctx, w, p, wh)
    ctx.used(w.it)
