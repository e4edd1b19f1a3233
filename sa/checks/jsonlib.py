"""JSON values on materialised heaps: reading them back, strings, comparison of keys."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S

NAMES = ["UNDEFINED", "NULL", "BOOLEAN", "DOUBLE", "I64", "U64", "STRING", "BLOB", "OBJECT", "ARRAY", "STRN"]


class J(S.World):
    """a world with JSON values; strings are opaque objects that carry a text (any hashable), compared by it"""

    def __init__(self, c, models=None, **kw):
        self.text = {}           # address -> text
        self.order = {}          # text -> rank
        m = {"strcmp": self._strcmp, "cee_str_mk": self._mk, "cee_str_mkv": self._mkv, "cee_str_mk_e": self._mke, "cee_str_strn": self._strn,
             "strlen": self._strlen}
        m.update(models or {})
        S.World.__init__(self, c, models=m, **kw)
        L = c.L
        self.T = L.off("cee_json", "t")
        self.V = L.off("cee_json", "value")
        self.BUF, self.BSZ = L.off("cee_json", "buf"), L.off("cee_json", "buf_size")
        self.tag = {c.en["CEE_JSON_" + n]: n for n in NAMES if "CEE_JSON_" + n in c.en}
        self.made = 0
        self.state = self.call("cee_state_mk", 4)

    def call(self, fn, *args):
        # clones share the interpreter: its models must be this world's
        ms = self.it.models
        for n, m in list(ms.items()):
            o = getattr(m, "__self__", None)
            if o is not None and o is not self and isinstance(o, J):
                ms[n] = getattr(self, m.__name__)
        return S.World.call(self, fn, *args)

    # --- strings
    def str(self, text, name="s"):
        p = vadd(K.obj(name), const(256))
        self.text[p] = text
        return p

    def _new(self, it, st, text):
        self.made += 1
        p = vadd(av(A.atom("heap", it.fresh(), "str")), const(256))
        self.text[p] = text
        return [("ret", p, st)]

    def _fmt(self, it, st, fmt, args):
        """text of a formatted string; None if not understood"""
        f = it.prog.cstring(fmt)
        if f is None:
            return ("fmt", fmt, tuple(args))
        if f == b"%s":
            t = self.texts(args[0])
            return ("text of", args[0]) if t is None else t
        if f == b"%.*s":
            return ("bytes", args[1], args[0])
        return ("fmt", f, tuple(args))

    def _mk(self, it, I, name, args, st):
        return self._new(it, st, self._fmt(it, st, args[1], args[2:]))

    def _mke(self, it, I, name, args, st):
        return self._new(it, st, "" if args[2] is ZERO else self._fmt(it, st, args[2], args[3:]))

    def _strn(self, it, I, name, args, st):
        return self._new(it, st, ("bytes", args[1], args[2]))

    def _mkv(self, it, I, name, args, st):
        ap = args[2]
        area = it.reduce(st, it.load(st, vadd(ap, const(8)), 8, None, "ptr"))
        vals = []
        for i in range(4):
            e = st.mem.get(vadd(area, const(8 * i)))
            if e is None:
                break
            vals.append(it.reduce(st, e[0]))
        return self._new(it, st, self._fmt(it, st, args[1], vals))

    def _strlen(self, it, I, name, args, st):
        return None

    def texts(self, a):
        if a in self.text:
            return self.text[a]
        b = self.c.prog.cstring(a) if a.t else None
        return b.decode("latin1") if b is not None else None

    def _strcmp(self, it, I, name, args, st):
        a, b = self.texts(args[0]), self.texts(args[1])
        if a is None or b is None:
            self.bad.append(("compares %r with %r" % (args[0], args[1]), I.loc()))
            return [("ret", ZERO, st)]
        x, y = self.order.get(a, (1, repr(a))), self.order.get(b, (1, repr(b)))
        return [("ret", const(0 if a == b else (-1 if x < y else 1)), st)]

    # --- values
    def at(self, st, a, size=8, ty="ptr"):
        return self.it.reduce(st, self.it.load(st, a, size, None, ty))

    def value(self, j, st=None, depth=12):
        """JSON value -> nested tuples; raises S.Many when it is not readable"""
        st = st or self.st
        if depth == 0 or not j.t:
            raise S.Many("%r is not a JSON value" % j)
        t = self.at(st, vadd(j, const(self.T)), 4, "i32")
        n = self.tag.get(t.c) if t.is_const() else None
        if n is None:
            raise S.Many("%r has the type %r" % (j, t))
        v = self.at(st, vadd(j, const(self.V)))
        if n in ("NULL", "UNDEFINED"):
            return (n,)
        if n == "BOOLEAN":
            return (n, v.c if v.is_const() else v)
        if n == "STRING":
            return (n, self.text.get(v, ("text of", v)))
        if n in ("DOUBLE", "I64", "U64"):
            return (n, self.number(v, n, st))
        if n == "ARRAY":
            q = self.quiet("cee_list_size", [v], st)
            b = self.at(st, v)
            return (n,) + tuple(self.value(self.at(st, vadd(b, const(8 * i))), st, depth - 1) for i in range(q))
        if n == "OBJECT":
            return (n,) + tuple((self.text.get(k, ("text of", k)), self.value(x, st, depth - 1)) for k, x in self.entries(v, st))
        if n == "STRN":
            return (n, self.at(st, vadd(j, const(self.BUF))), self.at(st, vadd(j, const(self.BSZ)), 8, "i64"))
        return (n, v)

    def run1(self, fn, args, st):
        s = st.copy()
        s.trace = None
        try:
            ps = self.it.run(fn, [const(a) if isinstance(a, int) else a for a in args], s)
        except A.NoEnd as e:
            raise S.Many("in %s %s" % (fn, e))
        if len(ps) != 1 or ps[0].kind != "ret":
            raise S.Many("%s has %d outcomes (%s)" % (fn, len(ps), [p.kind for p in ps][:3]))
        return ps[0]

    def quiet(self, fn, args, st):
        p = self.run1(fn, args, st)
        r = self.it.reduce(p.st, p.ret)
        if not r.is_const():
            raise S.Many("%s gives %r" % (fn, r))
        return r.c

    def entries(self, m, st):
        """entries of a map in the order its iterator gives them"""
        got = []
        old = self.acts, self.act_ret
        self.acts, self.act_ret = [], lambda i, a: ZERO
        try:
            self.it.models[S.ACT] = self._act
            self.run1("cee_map_iterate", [m, ZERO, S.ACTF], st)
            got = [(a[1], a[2]) for a in self.acts]
        finally:
            self.acts, self.act_ret = old
        return got

    def number(self, b, n, st):
        fn = {"DOUBLE": "cee_boxed_to_double", "I64": "cee_boxed_to_i64", "U64": "cee_boxed_to_u64"}[n]
        p = self.run1(fn, [b], st)
        return self.it.reduce(p.st, p.ret)
