"""P12: strings and blocks keep their text and stay within their memory."""
import itertools
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S
from harness import parallel

MIN = {"make": 16, "text": 16, "bounds": 60, "va": 20, "trim": 300, "replace": 200, "block": 8}
EXPLAIN = ("Rule make: string constructors on opaque arguments produce a block with room for the whole formatted text (or the given bytes) and "
           "its terminator, written by a call with the same format. Rule text: cee_str_catf, cee_str_add and cee_str_replace on a string of symbolic length and symbolic capacity keep the old text, "
           "put the new text right behind it (or in its place) and leave header fields that agree with the memory obtained. Rule bounds: every write "
           "on these paths lies inside its block for all lengths (linear inequalities over the lengths; rounding is bounded by interval rules). "
           "Rule va: in every function that takes variable arguments each argument list is started or copied before it is used, used at most once, "
           "and ended before returning. Rule trim / replace: trimming and replacing on materialised strings of opaque characters, every pattern of white space "
           "and every pattern of needle occurrences up to a bounded length. Rule block: blocks have the size asked for and start zeroed.")
ASSUME = ["vsnprintf reports the length of the text it would write", "strings are terminated inside their block", "needles are not empty",
          "a string is resized with malloc or realloc"]


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = [lambda x: symbolic(x, c), lambda x: block(x, c), lambda x: empty(x, c), lambda x: trim(x, c)]
        jobs += [lambda x, n=n: replace(x, c, n) for n in range(5)]
        parallel(ctx, jobs)
    for label in ("src", "rel", "sql"):
        try:
            prog = C.program(label)
        except C.Broken:
            ctx.need(False, "unit %s does not compile" % label)
        ctx.label = label
        va(ctx, prog)


# ------------------------------------------------------------------ formatted text of symbolic length
R = av(A.atom("op", "nonneg", "text"))         # length of the formatted text
LEN = av(A.atom("op", "nonneg", "strlen"))     # length of the string an operation is given
FMT = av(A.atom("arg", 99, "fmt"))


def models(strs):
    def vsn(it, I, name, args, st):
        dst, n, fmt = args[0], args[1], args[2]
        it.emit(st, "fmt", I, dst=dst, n=n, fmt=fmt)
        if dst.t:
            it.havoc_range(st, dst, n)
        return [("ret", R, st)]

    def vs(it, I, name, args, st):
        it.emit(st, "fmt", I, dst=args[0], n=None, fmt=args[1])
        it.havoc_range(st, args[0], None)
        return [("ret", R, st)]

    def strlen(it, I, name, args, st):
        n = strs.get(args[0])
        return [("ret", n, st)] if n is not None else None
    return {"vsnprintf": vsn, "vsprintf": vs, "strlen": strlen}


def sizes(p, extra):
    d = dict(p.st.sizes)
    d.update(extra)
    return d


def writes(p):
    """(event, address, length V or None, exact?)"""
    out = []
    for e in C.flat(p.ev):
        if e.kind == "store":
            out.append((e, e.addr, const(e.size)))
        elif e.kind == "copy":
            out.append((e, e.dst, e.n))
        elif e.kind == "memset":
            out.append((e, e.dst, e.n))
        elif e.kind == "fmt" and e.dst.t:
            n = vadd(R, const(1))
            out.append((e, e.dst, n if e.n is None else (e.n, n)))
    return out


def base(v):
    for a, k in v.t:
        if a.kind == "heap" and k == 1:
            return a
    return None


def bounds(ctx, c, it, p, key, w, extra):
    sz = sizes(p, extra)
    for e, a, n in writes(p):
        b = base(a)
        if b is None or b not in sz or sz[b] is None:
            continue
        off = vsub(a, av(b))
        lens = n if isinstance(n, tuple) else (n,)
        ok = it.implies_le0(p.st, A.vscale(off, -1)) and any(it.implies_le0(p.st, vsub(vadd(off, x), sz[b])) for x in lens)
        ctx.check(ok, "bounds", key, "a write of %r bytes at offset %r of a block of %r bytes may lie outside it" % (lens[0], off, sz[b]), e.where())
    for e in C.flat(p.ev):
        if e.kind == "copy" and base(e.src) in sz and sz[base(e.src)] is not None:
            off = vsub(e.src, av(base(e.src)))
            ok = it.implies_le0(p.st, vsub(vadd(off, e.n), sz[base(e.src)]))
            ctx.check(ok, "bounds", key + "/source", "%r bytes are copied from a block of %r bytes" % (e.n, sz[base(e.src)]), e.where())


def symbolic(ctx, c):
    made = []
    n = av(A.atom("op", "nonneg", "n"))
    T, ap, src = K.obj("T"), K.obj("ap"), K.obj("src")
    for fn, args, kind in (("cee_str_mk", [T, FMT], "fmt"), ("cee_str_mkv", [T, FMT, ap], "fmt"), ("cee_str_mk_e", [T, n, FMT], "room"),
                           ("cee_str_mk_e", [T, n, ZERO], "empty"), ("cee_str_strn", [T, src, n], "bytes")):
        it = c.interp(models=models({}))
        it.lazy = c.lazy_chain()
        st = A.State()
        it.learn(st, *it.canon(st, "ne", FMT, ZERO))
        ps = [p for p in it.run(fn, args, st) if p.kind == "ret"]
        ctx.used(it)
        ctx.must(ps, "%s never returns" % fn)
        w = where(c, fn)
        for p in ps:
            key = "%s/%s" % (fn, kind)
            h = base(p.ret)
            A_ = p.st.sizes.get(h)
            if not ctx.check(h is not None and A_ is not None, "make", key, "returns %r, not a new block" % p.ret, w):
                continue
            off = vsub(p.ret, av(h))
            bounds(ctx, c, it, p, key, w, {})
            if kind in ("fmt", "room"):
                ws = [e for e in C.flat(p.ev) if e.kind == "fmt" and e.dst is p.ret]
                ok = ws and ws[-1].fmt is FMT and it.implies_le0(p.st, vsub(vadd(vadd(R, const(1)), off), A_)) and \
                    (ws[-1].n is None or it.implies_le0(p.st, vsub(vadd(R, const(1)), ws[-1].n)))
                ctx.check(ok, "make", key, "the text is not written in full with its terminator (%s)" % [(e.dst, e.n) for e in ws], w)
            if kind in ("room", "empty"):
                ctx.check(it.implies_le0(p.st, vsub(vadd(n, off), A_)), "make", key + "/room", "room for %r bytes instead of n" % vsub(A_, off), w)
            if kind == "empty":
                z = it.reduce(p.st, it.load(p.st, p.ret, 1, None, "i8"))
                ctx.check(z is ZERO, "make", key, "the string made without a format is not empty", w)
            if kind == "bytes":
                cp = [e for e in C.flat(p.ev) if e.kind == "copy" and e.dst is p.ret]
                z = it.reduce(p.st, it.load(p.st, vadd(p.ret, n), 1, None, "i8"))
                ok = len(cp) == 1 and cp[0].src is src and cp[0].n is n
                ctx.check(ok, "make", key, "copies %s" % [(e.src, e.n) for e in cp], w)
                ctx.check(z is ZERO, "make", key + "/terminator", "no terminator behind the bytes", w)
            fields = {}
            for a, e in p.st.mem.items():
                if e[1] == 8 and len(a.t) == 1 and a.t[0][0] is h and a.t[0][1] == 1 and a.c < off.c:
                    d = vsub(A_, e[0])
                    if d.is_const():
                        fields[a.c] = d.c
            made.append((fn, off.c, fields))
    ops = [("cee_str_catf", lambda s: [s, FMT]), ("cee_str_catf/null", lambda s: [s, ZERO]),
           ("cee_str_add", lambda s: [s, av(A.atom("arg", 1, "c"))]), ("cee_str_replace", lambda s: [s, FMT]), ("cee_str_replace/null", lambda s: [s, ZERO])]
    done = set()
    for ctor, off, fields in made:
        sig = (off, tuple(sorted(fields.items())))
        if sig in done:
            continue
        done.add(sig)
        for op, mk in ops:
            for meth in ("CEE_RESIZE_WITH_MALLOC", "CEE_RESIZE_WITH_REALLOC"):
                change(ctx, c, ctor, off, fields, op, mk, c.en.get(meth), made)


def change(ctx, c, ctor, off, fields, op, mk, meth, made):
    fn = op.split("/")[0]
    bo, wd = c.RES
    s = K.shaped(c, off, "inner", bits=meth << bo)
    cap = av(A.atom("op", "nonneg", "capacity"))
    size = vadd(cap, const(max([off] + list(fields.values()))))
    for o, d in fields.items():
        K.put(s.st, vadd(s.block, const(o)), vsub(size, const(d)), 8, tagof(c, o, off), "i64")
    s.st.le = s.st.le + (vsub(vadd(LEN, const(off + 1)), size),)
    it = c.interp(models=models({s.p: LEN}))
    it.learn(s.st, *it.canon(s.st, "ne", FMT, ZERO))
    lz = c.lazy_chain()
    it.lazy = lz
    ps = [p for p in it.run(fn, mk(s.p), s.st) if p.kind == "ret"]
    ctx.used(it)
    w = where(c, fn)
    ctx.must(ps, "%s never returns" % fn)
    blk = s.block.single()
    for p in ps:
        key = "%s/%s" % (op, ctor)
        bounds(ctx, c, it, p, key, w, {blk: size})
        r = p.ret
        h = base(r)
        ev = list(C.flat(p.ev))
        if h is blk:
            sz = size
            ok = r is s.p
        else:
            sz = p.st.sizes.get(h)
            ok = sz is not None and vsub(r, av(h)) is const(off)
        if not ctx.check(ok, "text", key, "returns %r" % r, w):
            continue
        keep = LEN if fn != "cee_str_replace" else ZERO
        bad = None
        if h is not blk and fn != "cee_str_replace":
            got = [e for e in ev if (e.kind == "realloc" and e.ret is av(h) and e.old is s.block) or
                   (e.kind == "copy" and base(e.dst) is h and base(e.src) is blk and vsub(e.dst, av(h)) is vsub(e.src, av(blk)) and
                    it.implies_le0(p.st, vsub(vsub(e.dst, av(h)), const(off))) and
                    it.implies_le0(p.st, vsub(vadd(LEN, const(off)), vadd(vsub(e.dst, av(h)), e.n))))]
            if not got:
                bad = "the old text is not carried over to the new memory"
        for e, a, n in writes(p):
            if base(a) is h and h is not None and e.kind in ("store", "fmt", "memset") and fn != "cee_str_replace":
                lo = vsub(a, r)
                if not it.implies_le0(p.st, vsub(LEN, lo)) and not it.implies_le0(p.st, vadd(lo, n if not isinstance(n, tuple) else n[0])):
                    bad = bad or "writes into the old text (at %r)" % lo
        if "/null" in op:
            if r is not s.p or [e for e in ev if e.kind in ("fmt", "realloc", "free", "copy")]:
                bad = bad or "changes the string without a format"
        elif fn == "cee_str_add":
            a, z = [it.reduce(p.st, it.load(p.st, vadd(vadd(r, LEN), const(i)), 1, None, "i8")) for i in (0, 1)]
            if a is not av(A.atom("arg", 1, "c")) or z is not ZERO:
                bad = bad or "the last characters are (%r, %r)" % (a, z)
        else:
            ws = [e for e in ev if e.kind == "fmt" and e.dst.t]
            at = vadd(r, keep)
            if len(ws) != 1 or ws[0].dst is not at or ws[0].fmt is not FMT:
                bad = bad or "the text is written at %s" % [vsub(e.dst, r) for e in ws]
            elif ws[0].n is not None and not it.implies_le0(p.st, vsub(vadd(R, const(1)), ws[0].n)):
                bad = bad or "only %r bytes of the text are written" % ws[0].n
        ctx.check(not bad, "text", key, bad or "", w)
        vals = {o: it.reduce(p.st, it.load(p.st, vadd(av(h), const(o)), 8, tagof(c, o, off), "i64")) for o in fields}
        ok = any(f.keys() >= fields.keys() and all(it.reduce(p.st, vsub(vsub(sz, vals[o]), const(f[o]))) is ZERO for o in fields) for _, _, f in made)
        ctx.check(ok, "text", key + "/header", "the header says %s for a block of %r bytes" % (vals, sz), w)


def tagof(c, o, off):
    """type tag of a header field: the object header's own fields are shared by all objects"""
    rel = o - (off - c.SECT)
    return ("struct.cee_sect", rel) if rel >= 0 else None


# ------------------------------------------------------------------ argument lists
def va(ctx, prog):
    users = []
    for m in prog.mods:
        for n, f in m.funcs.items():
            if any(I.op == "call" and I.a["callee"][0] == "g" and (str(I.a["callee"][1]).startswith("llvm.va_") or str(I.a["callee"][1]) in VPRINT)
                   for b in f.blocks.values() for I in insts(b)):
                users.append(f)
    op = {n for m in prog.mods for n in m.funcs}
    vfuncs = {f.name for f in users if not f.vararg}
    for f in users:
        it = A.Interp(prog, opaque=op - {f.name} - vfuncs)
        try:
            ps = it.run(f.name, mod=f.mod)
        except A.AnalysisError:
            continue
        ctx.used(it)
        w = "%s:%d (%s)" % (f.loc() + (f.name,))
        for p in ps:
            if p.kind != "ret":
                continue
            ctx.check(not lists(p), "va", f.name, lists(p) or "", w)


VPRINT = ("vsnprintf", "vsprintf", "vfprintf", "vdprintf", "vprintf", "vasprintf")


def insts(b):
    return getattr(b, "insts", b)


def lists(p):
    st = {}
    for e in C.flat(p.ev):
        if e.kind == "va_start":
            if st.get(e.ap) in ("fresh", "used"):
                return "an argument list is started again before it is ended"
            st[e.ap] = "fresh"
        elif e.kind == "va_copy":
            if st.get(e.src, "fresh") != "fresh":
                return "an argument list is copied after it was used"
            st[e.dst] = "fresh"
        elif e.kind == "va_end":
            st[e.ap] = "ended"
        elif e.kind == "call":
            for a in e.args:
                if a in st or (e.name in VPRINT and a is e.args[-1]):
                    x = st.get(a, "fresh" if not any(y.kind == "alloca" for y, k in a.t) else "new")
                    if x == "new":
                        return "an argument list is used by %s before it is started" % e.name
                    if x == "used":
                        return "an argument list is used twice (second time by %s)" % e.name
                    if x == "ended":
                        return "an argument list is used by %s after it was ended" % e.name
                    st[a] = "used"
    for a, x in st.items():
        if x in ("fresh", "used") and any(y.kind == "alloca" for y, k in a.t):
            return "an argument list is not ended before returning"
    return None


# ------------------------------------------------------------------ characters
WS = {32: " ", 10: "n", 13: "r", 9: "t"}


class Chars:
    """a world whose strings consist of known white space and opaque other characters"""

    def __init__(self, c):
        self.match = lambda a, b, n: None
        self.w = S.World(c, models={"strlen": self.strlen, "strncmp": self.cmp, "memcmp": self.cmp, "strchr": self.strchr, "strstr": self.strstr,
                                    "strspn": self.span, "isspace": self.isspace})
        self.w.it.assume = self.assume
        self.ch = set()
        self.w.it.keep_conds = False

    def text(self, name, chars):
        p = K.obj(name)
        out = []
        for i, x in enumerate(chars):
            v = const(x)
            if x is None:
                v = av(A.atom("arg", i, "%s%d" % (name, len(self.ch))))
                self.ch.add(v.single())
            out.append(v)
        for i, v in enumerate(out + [ZERO]):
            K.put(self.w.st, vadd(p, const(i)), v, 1, None, "i8")
        self.w.st.sizes = dict(self.w.st.sizes)
        self.w.st.sizes[p.single()] = const(len(out) + 1)
        return p, out

    def assume(self, it, st, key):
        # an opaque character equals no constant
        if key[0] == "eq" and len(key[1].t) == 1:
            a = key[1].t[0][0]
            while a.kind == "op" and a.args[0] in ("sext", "zext", "trunc") and a.args[-1].single() is not None:
                a = a.args[-1].single()
            if a in self.ch:
                return False
        return None

    def byte(self, it, st, a):
        return it.reduce(st, it.load(st, a, 1, None, "i8"))

    def strlen(self, it, I, name, args, st):
        n = 0
        while self.byte(it, st, vadd(args[0], const(n))) is not ZERO:
            n += 1
            if n > 200:
                return None
        return [("ret", const(n), st)]

    def cmp(self, it, I, name, args, st):
        m = self.match(args[0], args[1], args[2])
        return [("ret", const(0 if m else 1), st)] if m is not None else None

    def strchr(self, it, I, name, args, st):
        s = it.prog.cstring(args[0])
        v = args[1]
        while v.single() is not None and v.single().kind == "op" and v.single().args[0] in ("sext", "zext"):
            v = v.single().args[-1]
        if s is None:
            return None
        if v.is_const():
            i = (s + b"\0").find(bytes([v.c & 255]))
            return [("ret", vadd(args[0], const(i)) if i >= 0 else ZERO, st)]
        return [("ret", ZERO, st)] if v.single() in self.ch else None

    def span(self, it, I, name, args, st):
        s = it.prog.cstring(args[1])
        n = 0
        while s is not None:
            v = self.byte(it, st, vadd(args[0], const(n)))
            if v is ZERO or not v.is_const() or (v.c & 255) not in s:
                return [("ret", const(n), st)]
            n += 1
        return None

    def isspace(self, it, I, name, args, st):
        return [("ret", A.ONE if args[0].is_const() and args[0].c in (9, 10, 11, 12, 13, 32) else ZERO, st)]

    def strstr(self, it, I, name, args, st):
        for n in range(200):
            a = vadd(args[0], const(n))
            if self.byte(it, st, a) is ZERO:
                return [("ret", ZERO, st)]
            m = self.match(a, args[1], None)
            if m is None:
                return None
            if m:
                return [("ret", a, st)]
        return None

    def outside(self):
        """a write of the last call outside the memory it belongs to"""
        for e in C.flat(self.w.ev):
            for a, n in ([(e.addr, const(e.size))] if e.kind == "store" else [(e.dst, e.n)] if e.kind in ("copy", "memset") else []):
                b = base(a)
                sz = self.w.st.sizes.get(b) if b is not None else None
                if sz is None or not sz.is_const() or not n.is_const():
                    continue
                o = vsub(a, av(b))
                if not o.is_const() or o.c < 0 or (n.c > 0 and o.c + n.c > sz.c):
                    return "writes %r bytes at offset %r of a block of %d bytes (%s)" % (n, o, sz.c, e.where())
            if e.kind == "copy" and e.fn == "memcpy" and e.n.is_const():
                d = vsub(e.dst, e.src)
                if d.is_const() and 0 < abs(d.c) < e.n.c:
                    return "memcpy of overlapping bytes (%s)" % e.where()
        return None

    def result(self, p, want):
        for i, v in enumerate(want + [ZERO]):
            g = self.byte(self.w.it, self.w.st, vadd(p, const(i)))
            if g is not v:
                return "character %d is %r instead of %r" % (i, g, v)
        return None


def trim(ctx, c):
    for n in range(0, 5):
        kinds = (None, 32, 10, 13, 9) if n <= 3 else (None, 32)
        for chars in itertools.product(kinds, repeat=n):
            for fn, left in (("cee_str_rtrim", False), ("cee_str_ltrim", True)):
                X = Chars(c)
                p, vs = X.text("s", chars)
                want = list(vs)
                kinds_ = list(chars)
                while kinds_ and kinds_[0 if left else -1] is not None:
                    del kinds_[0 if left else -1], want[0 if left else -1]
                try:
                    X.w.call(fn, p)
                    bad = X.outside() or X.result(p, want)
                except S.Many as e:
                    bad = str(e)
                ctx.used(X.w.it)
                txt = "".join(WS.get(x, "x") for x in chars)
                ctx.check(not bad, "trim", fn, "on a string like '%s': %s" % (txt, bad), where(c, fn))
    fn = "cee_str_end"
    for n in range(4):
        X = Chars(c)
        p, vs = X.text("s", [None] * n)
        try:
            r = X.w.call(fn, p)
            bad = None if r is vadd(p, const(n)) else "gives %r for a string of %d characters" % (r, n)
        except S.Many as e:
            bad = str(e)
        ctx.check(not bad, "trim", fn, bad or "", where(c, fn))


def replace(ctx, c, n):
    # at an offset
    for off, ln, new in itertools.product(range(n + 1), range(n + 1), range(3)):
        if off + ln > n:
            continue
        X = Chars(c)
        p, vs = X.text("s", [None] * n)
        q, ns = X.text("new", [None] * new)
        one(ctx, c, X, "str_replace_at_offset", [p, off, ln, q], vs[:off] + ns + vs[off + ln:])
    # every occurrence
    for ol, nl in itertools.product((1, 2, 3), (0, 1, 2, 5)):
        pos = list(range(max(0, n - ol + 1)))
        for M in subsets(pos):
            X = Chars(c)
            p, vs = X.text("s", [None] * n)
            o, os = X.text("old", [None] * ol)
            q, ns = X.text("new", [None] * nl)
            X.match = matcher(p, n, {o: M}, {o: ol})
            want, i = [], 0
            while i < n:
                if i in M:
                    want += ns
                    i += ol
                else:
                    want.append(vs[i])
                    i += 1
            one(ctx, c, X, "str_replace_all", [p, o, q], want)
    # several needles, the first that fits wins; the text may be longer than the part to work on
    for (o1, n1), (o2, n2) in itertools.product(((1, 0), (2, 3)), ((1, 3), (2, 1), (1, 0))):
        for M1, M2 in itertools.product(subsets(range(max(0, n - o1 + 1))), subsets(range(max(0, n - o2 + 1)))):
            for extra in ((0, 1) if n < 3 else (1,)):
                X = Chars(c)
                p, vs = X.text("s", [None] * (n + extra))
                a, _ = X.text("olda", [None] * o1)
                b, _ = X.text("oldb", [None] * o2)
                na, va_ = X.text("newa", [None] * n1)
                nb, vb = X.text("newb", [None] * n2)
                # occurrences that reach beyond the part to work on do not count
                beyond = {n - x for x in range(1, 3)}
                X.match = matcher(p, n + extra, {a: set(M1) | ({n - 1} if o1 == 2 and extra and n else set()), b: set(M2) | ({n - 1} if o2 == 2 and extra and n else set())}, {a: o1, b: o2})
                want, i = [], 0
                while i < n:
                    if i in M1:
                        want += va_
                        i += o1
                    elif i in M2:
                        want += vb
                        i += o2
                    else:
                        want.append(vs[i])
                        i += 1
                out = K.obj("out")
                K.put(X.w.st, out, const(-77), 8, None, "i64")
                one(ctx, c, X, "str_replace_all_ext", [p, n, out, 2, a, na, b, nb], want, out)
    if n == 2:
        # many needles
        for count, hit in ((17, 0), (17, 8), (17, 16), (17, None), (16, 15), (16, None), (15, 14), (33, 32)):
            X = Chars(c)
            p, vs = X.text("s", [None] * n)
            needles = [X.text("o%d" % i, [None])[0] for i in range(count)]
            news = [X.text("n%d" % i, [None] * 2) for i in range(count)]
            X.match = matcher(p, n, {o: ({1} if i == hit else set()) for i, o in enumerate(needles)}, {o: 1 for o in needles})
            want = [vs[0]] + (news[hit][1] if hit is not None else [vs[1]])
            args = [x for o, q in zip(needles, news) for x in (o, q[0])]
            one(ctx, c, X, "str_replace_all_ext", [p, n, ZERO, count] + args, want)


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        for s in itertools.combinations(xs, k):
            yield set(s)


def matcher(p, n, where_, lens):
    def m(a, b, ln):
        if b not in where_:
            a, b = b, a
        d = vsub(a, p)
        if b not in where_ or not d.is_const() or (ln is not None and (not ln.is_const() or ln.c < lens[b])):
            return None
        return d.c in where_[b]
    return m


def one(ctx, c, X, fn, args, want, out=None):
    try:
        r = X.w.call(fn, *args)
        if r is None or r is ZERO or not r.t:
            bad = "returns %r" % r
        else:
            bad = X.outside() or X.result(r, want)
        if not bad and out is not None:
            g = X.w.read(out)
            if g is not const(len(want)):
                bad = "reports a length of %r instead of %d" % (g, len(want))
        if not bad and X.w.bad:
            bad = "%s at %s" % X.w.bad[0]
        mine = [e.ret for e in C.flat(X.w.ev) if e.kind == "alloc"]
        if not bad and [e for e in C.flat(X.w.ev) if e.kind == "free" and e.p is not ZERO and e.p not in mine]:
            bad = "memory is freed that was not obtained here"
        if not bad and [e for e in C.flat(X.w.ev) if e.kind == "alloc" and not e.ret is r and not [f for f in C.flat(X.w.ev) if f.kind == "free" and f.p is e.ret]]:
            bad = "memory is not freed"
    except S.Many as e:
        bad = str(e)
    ctx.used(X.w.it)
    ctx.check(not bad, "replace", fn, bad or "", where(c, fn))


# ------------------------------------------------------------------ blocks
def empty(ctx, c):
    """the empty block: an empty text that deleting, marking and counting leave as it is"""
    fn = "cee_block_empty"
    it = c.interp()
    it.init_globals = True
    w = where(c, fn)
    ps = [p for p in it.run(fn, []) if p.kind == "ret"]
    ctx.must(ps, "%s never returns" % fn)
    for p in ps:
        z = it.load(p.st, p.ret, 1, None, "i8")
        ctx.check(it.reduce(p.st, z) is ZERO, "block", fn, "the empty block holds %r" % z, w)
        t = it.load(p.st, vadd(p.ret, const(c.TRACE - c.SECT)), 8, None, "ptr")
        ctx.check(t.single() is not None and t.single().kind == "fn", "block", fn + "/action", "the empty block's action is %r" % t, w)
        for op, args in ("cee_del", []), ("cee_del_ref", []), ("cee_trace", [const(2)]), ("cee_trace", [const(3)]):
            st = p.st.copy()
            q = [x for x in it.run(op, [p.ret] + args, st)]
            ev = [e for x in q for e in C.flat(x.ev)]
            ok = q and all(x.kind == "ret" for x in q) and not any(e.kind in ("free", "realloc") for e in ev)
            ctx.check(ok, "block", fn + "/" + op, "%s on the empty block %s" % (op, "frees" if q else "does not return"), w)
    ctx.used(it)


def block(ctx, c):
    n = av(A.atom("op", "nonneg", "n"))
    T = K.obj("T")
    INIT = "sa_init"
    for fn in ("cee_block_mk", "cee_block_mk_nonzero", "cee_block_mk_e"):
        calls = []

        def init(it, I, name, args, st):
            calls.append(args)
            return [("ret", ZERO, st)]
        it = c.interp(models={INIT: init})
        it.lazy = c.lazy_chain()
        cxt = K.obj("cxt")
        args = [T, n] + ([cxt, av(A.atom("fn", INIT))] if fn.endswith("_e") else [])
        ps = [p for p in it.run(fn, args) if p.kind == "ret"]
        ctx.used(it)
        w = where(c, fn)
        ctx.must(ps, "%s never returns" % fn)
        for p in ps:
            h = base(p.ret)
            sz = p.st.sizes.get(h)
            ok = sz is not None and it.implies_le0(p.st, vsub(vadd(vsub(p.ret, av(h)), n), sz))
            ctx.check(ok, "block", fn, "n bytes do not fit the memory obtained (%r)" % sz, w)
            if sz is not None:
                bounds(ctx, c, it, p, fn, w, {})
            q = [x for x in it.run("cee_block_size", [p.ret], p.st) if x.kind == "ret"]
            ctx.check(len(q) == 1 and it.reduce(q[0].st, q[0].ret) is n, "block", "cee_block_size/" + fn, "the block's size is reported as %s" % [x.ret for x in q], w)
            if fn == "cee_block_mk":
                z = it.load(p.st, vadd(p.ret, av(A.atom("arg", 7, "i"))), 1, None, "i8")
                ms = [e for e in C.flat(p.ev) if e.kind == "memset" and e.val is ZERO and e.dst is p.ret and e.n is n]
                ca = [e for e in C.flat(p.ev) if e.kind == "alloc" and e.fn == "calloc" and e.ret is av(h)]
                lp = [e for e in C.flat(p.ev) if e.kind == "loop"]
                ctx.check(ms or ca or lp, "block", fn + "/zero", "the block is not zeroed", w)
            if fn.endswith("_e"):
                ctx.check(len(calls) == len(ps) and all(a[0] is cxt for a in calls) and any(a[1] is p.ret for a in calls), "block", fn + "/init",
                          "the initialiser is called with %s" % calls, w)
