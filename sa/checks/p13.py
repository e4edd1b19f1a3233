"""P13: the parser accepts exactly JSON and builds the value described by the tokens."""
from itertools import product

import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S
from checks import jsonlib as JL
from harness import parallel

MIN = {"accept": 400, "refuse": 10000, "value": 400, "deep": 8}
EXPLAIN = ("cee_json_parsex is analysed with a tokenizer that may yield any token at any time: the analysis follows every sequence of tokens the parser can "
           "consume up to a bounded length and compares the outcome of each path with the JSON grammar (a trailing comma before a closing bracket allowed). "
           "Rule accept / refuse: 0 is returned exactly for the complete values (followed by the end of the text when that is asked for); everything else gives a "
           "non-zero code, a NULL value and the tokenizer's line. Rule value: the value returned is the tree the tokens describe: elements and keys in order, the "
           "last of equal keys winning, every scalar with its type, strings the very strings of the tokens. Rule deep: values nested 500 levels deep are accepted, "
           "deeper ones accepted whole or refused, without a write outside the parser's stack.")
ASSUME = ["the tokenizer yields the tokens of the text (P14)"]

SCALARS = ["str0", "str1", "true", "false", "null", "i64", "u64", "double"]
ALL = ["[", "{", "]", "}", ":", ","] + SCALARS + ["err", "eof"]


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


# ------------------------------------------------------------------ the grammar
class Bad(Exception):
    pass


class More(Exception):
    pass


def grammar(ts):
    """-> (tree, number of tokens); Bad: no text starts like this; More: not complete yet"""
    pos = [0]

    def peek():
        if pos[0] >= len(ts):
            raise More()
        return ts[pos[0]]

    def take():
        t = peek()
        pos[0] += 1
        return t

    def value():
        t = take()
        if t == "[":
            out = []
            while True:
                if peek() == "]":
                    pos[0] += 1
                    return ("ARRAY",) + tuple(out)
                out.append(value())
                t = take()
                if t == "]":
                    return ("ARRAY",) + tuple(out)
                if t != ",":
                    raise Bad()
        if t == "{":
            out = {}
            while True:
                t = take()
                if t == "}":
                    return ("OBJECT",) + tuple(out.items())
                if not t.startswith("str"):
                    raise Bad()
                if take() != ":":
                    raise Bad()
                out[t] = value()
                x = take()
                if x == "}":
                    return ("OBJECT",) + tuple(out.items())
                if x != ",":
                    raise Bad()
        if t in SCALARS:
            return leaf(t, pos[0] - 1)
        raise Bad()
    return value(), pos[0]


def leaf(t, i):
    if t.startswith("str"):
        return ("STRING", t)
    return {"true": ("BOOLEAN", 1), "false": ("BOOLEAN", 0), "null": ("NULL",), "i64": ("I64", ("num", i)), "u64": ("U64", ("num", i)),
            "double": ("DOUBLE", ("num", i))}[t]


class Parser(JL.J):
    def __init__(self, c, alphabet, limit, script=None):
        JL.J.__init__(self, c)
        L = c.L
        self.o = {m: L.off("tokenizer", m) for m in ("line", "buf", "buf_end", "str", "type", "number")}
        self.alphabet, self.limit, self.script = alphabet, limit, script
        self.num = {}
        self.it.models["cee_json_next_token"] = self.token
        self.it.max_paths = 400000
        self.it.max_steps = 400000000
        self.force = 0

    def code(self, t):
        if len(t) == 1:
            return ord(t)
        if t in ("i64", "u64", "double"):
            t = "number"
        if t.startswith("str"):
            t = "str"
        return self.c.en["tock_" + t]

    def token(self, it, I, name, args, st):
        done = st.mon or ()
        t = args[1]
        if self.script is not None:
            opts = [self.script[len(done)] if len(done) < len(self.script) else "eof"]
        else:
            opts = self.alphabet if len(done) < self.limit else ["eof"]
        out = []
        for i, x in enumerate(opts):
            s = st.copy() if i < len(opts) - 1 else st
            s.mon = done + (x,)
            it.havoc_range(s, vadd(t, const(self.o["number"])), const(8))
            K.put(s, vadd(t, const(self.o["line"])), const(10 + len(done)), 4, None, "i32")
            if x.startswith("str"):
                p = self.pool(len(done), x)
                K.put(s, vadd(t, const(self.o["str"])), p, 8, None, "ptr")
            if x in ("i64", "u64", "double"):
                v = self.num.setdefault(len(done), {}).get(x)
                if v is None:
                    v = self.num[len(done)][x] = av(A.atom("arg", 100 + len(done), "%s%d" % (x, len(done))))
                K.put(s, vadd(t, const(self.o["number"])), v, 8, None, "double" if x == "double" else "i64")
                K.put(s, vadd(t, const(self.o["type"])), const(self.c.en["NUMBER_IS_" + x.upper()]), 4, None, "i32")
            out.append(("ret", const(self.code(x)), s))
        return out

    def pool(self, k, x):
        key = ("tok", k, x)
        if key not in self.num:
            self.num[key] = self.str(x, "%s.%d" % (x, k))
        return self.num[key]

    def parse(self, force):
        self.force = force
        self.out, self.line = K.obj("out"), K.obj("line")
        st = self.st.copy()
        st.trace = None
        st.mon = ()
        K.put(st, self.out, const(-99), 8, None, "ptr")
        K.put(st, self.line, const(-99), 4, None, "i32")
        self.it.models.update({S.CMP: self._cmp, S.ACT: self._act})
        return self.it.run("cee_json_parsex", [self.state, K.obj("buf"), av(A.atom("op", "nonneg", "len")), self.out, const(force), self.line], st)


def named(v, w):
    """numbers of the tree by token position"""
    if isinstance(v, tuple) and v and v[0] in ("I64", "U64", "DOUBLE"):
        for k, d in w.num.items():
            if isinstance(k, int):
                for x, a in d.items():
                    if a is v[1] and x.upper() == v[0]:
                        return (v[0], ("num", k))
        return v
    if isinstance(v, tuple):
        return tuple(named(x, w) for x in v)
    return v


def outcome(ctx, c, w, p, force, rule_prefix=""):
    fn = "cee_json_parsex"
    ts = p.st.mon
    txt = " ".join(ts)
    wh = where(c, fn)
    if p.kind != "ret":
        ctx.check(False, "refuse", fn + "/abort", "does not return for the tokens %s" % txt, wh)
        return
    r = w.it.reduce(p.st, p.ret)
    out = w.at(p.st, w.out)
    line = w.at(p.st, w.line, 4, "i32")
    body = ts
    try:
        tree, n = grammar(ts)
        good = n == len(ts) - 1 and ts[-1] == "eof" if force else n == len(ts)
        if good is False and not (force and n == len(ts)):
            want = "bad" if (force and ts[n] != "eof") else "read on"
        else:
            want = "ok" if good else "read on"
    except Bad:
        want = "bad"
    except More:
        want = "read on"
    if not r.is_const():
        ctx.check(False, "refuse", fn, "returns %r for the tokens %s" % (r, txt), wh)
        return
    if r.c == 0:
        ok = ctx.check(want == "ok", "accept", fn, "accepts the tokens %s" % txt, wh)
        if ok:
            try:
                got = named(w.value(out, p.st), w)
                bad = None if got == tree else "the tokens %s give %s" % (txt, show(got))
            except S.Many as e:
                bad = "the tokens %s: %s" % (txt, e)
            ctx.check(not bad, "value", fn, bad or "", wh)
    else:
        ok = ctx.check(want == "bad", "refuse", fn, "%s the tokens %s" % ("refuses" if want == "ok" else "gives up after", txt), wh)
        if ok:
            ctx.check(out is ZERO, "refuse", fn + "/null", "the value is %r after an error" % out, wh)
            ctx.check(line is const(10 + len(ts) - 1), "refuse", fn + "/line", "the line is %r instead of the tokenizer's" % line, wh)
    for e in K.problems(p):
        ctx.check(False, "refuse", fn + "/" + e.kind, "%s on the tokens %s" % (e.kind, txt), e.where())


def show(v):
    return repr(v)[:160]


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for opn in ("[", "{"):
            for d in (500, 700):
                jobs.append(lambda x, opn=opn, d=d: deep(x, c, opn, d))
        todo = sum((trees(n) for n in range(1, 6 if thorough else 5)), [])
        for i in range(0, len(todo), 100):
            jobs.append(lambda x, i=i: scripts(x, c, todo[i:i + 100]))
        for force in (0, 1):
            n = 7 if thorough else 5
            for a in ALL:
                if a in "[{":
                    for b in ALL:
                        jobs.append(lambda x, f=force, a=a, b=b: explore(x, c, ALL, n, (a, b), f))
                else:
                    jobs.append(lambda x, f=force, a=a: explore(x, c, ALL, n, (a,), f))
        parallel(ctx, jobs)


class Prefixed(Parser):
    def __init__(self, c, alphabet, limit, prefix):
        Parser.__init__(self, c, alphabet, limit)
        self.prefix = prefix

    def token(self, it, I, name, args, st):
        k = len(st.mon or ())
        if k < len(self.prefix):
            old = self.alphabet
            self.alphabet = [self.prefix[k]]
            try:
                return Parser.token(self, it, I, name, args, st)
            finally:
                self.alphabet = old
        return Parser.token(self, it, I, name, args, st)


def explore(ctx, c, alphabet, limit, prefix, force):
    w = Prefixed(c, alphabet, limit, prefix)
    for p in w.parse(force):
        outcome(ctx, c, w, p, force)
    ctx.used(w.it)


def trees(n):
    """token sequences of the values with n nodes"""
    if n == 1:
        return [("i64",), ("[", "]"), ("{", "}")]
    out = []
    for parts in splits(n - 1):
        for kids in product(*[trees(k) for k in parts]):
            out.append(("[",) + sum(((",",) * (i > 0) + k for i, k in enumerate(kids)), ()) + ("]",))
            for keys in product(*[("str0", "str1")] * len(kids)):
                if keys[0] == "str0":
                    out.append(("{",) + sum(((",",) * (i > 0) + (a, ":") + k for i, (a, k) in enumerate(zip(keys, kids))), ()) + ("}",))
    return out


def splits(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in splits(n - k)]


def scripts(ctx, c, todo):
    for ts in todo:
        w = Parser(c, (), 0, script=ts)
        for p in w.parse(1):
            outcome(ctx, c, w, p, 1)
        ctx.used(w.it)


def deep(ctx, c, opn, d):
    cls, pre = {"[": ("]", ()), "{": ("}", ("str0", ":"))}[opn]
    fine = d < 512
    ts = (opn,) + (pre + (opn,)) * (d - 1) + (cls,) * d
    w = Parser(c, (), 0, script=ts)
    w.it.exact = 4000
    ps = w.parse(fine)
    ctx.used(w.it)
    fn = "cee_json_parsex"
    bad = None
    if len(ps) != 1 or ps[0].kind != "ret":
        bad = "%d outcomes" % len(ps)
    else:
        r = w.it.reduce(ps[0].st, ps[0].ret)
        if not r.is_const() or (fine and r.c != 0):
            bad = "refuses a value of %d levels" % d
        elif r.c == 0 and len(ps[0].st.mon) != len(ts) + fine:
            bad = "accepts the first %d of the %d tokens of a value of %d levels" % (len(ps[0].st.mon), len(ts), d)
        for e in K.problems(ps[0]):
            bad = bad or "%s at %s" % (e.kind, e.where())
    ctx.check(not bad, "deep", fn + "/" + opn, bad or "", where(c, fn))
