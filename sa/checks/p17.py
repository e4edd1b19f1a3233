"""P17: JSON objects and arrays change exactly as the operation says."""
import itertools

import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import jsonlib as JL
from checks.p16 import bad_of, where
from harness import parallel

MIN = {"object": 500, "array": 200, "merge": 150, "append": 40, "convert": 8, "has": 100}
EXPLAIN = ("Objects with up to three members (added in every order) and arrays with up to three elements are built by the public operations on opaque keys and values; then every "
           "public operation is analysed with every relation of its key to the stored ones and every index, and the result is observed through the whole public interface and "
           "compared with a list model. Rule object: set, remove, rename, get, kv, iterate, set_error, NULL values. Rule append: cee_json_object_append for every kind "
           "of old and new value. Rule convert: cee_json_object_convert_to_i64. Rule array: append, insert, remove, get, length, iterate, concat (also with itself), listify. Rule merge: "
           "cee_json_merge and cee_json_merge_or_return on pairs of nested values. Rule has: the recursive search on all small values.")
ASSUME = ["containers of up to 3 entries stand for all sizes (P07-P09)", "inserting at an index within 0..length"]
KEYS = ["a", "b", "c"]


class W(JL.J):
    def __init__(self, c, **kw):
        m = {n: self._scan for n in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")}
        m.update({n: self._strto for n in ("strtoll", "strtol", "__isoc23_strtoll", "__isoc23_strtol", "strtoimax")})
        JL.J.__init__(self, c, models=m, **kw)
        self.it.strict32 = True
        self.n = 0
        self.scanned = av(A.atom("arg", 390, "scanned"))
        self.errno = K.obj("errno")
        self.it.models["__errno_location"] = self._errno

    def _errno(self, it, I, name, args, st):
        return [("ret", self.errno, st)]

    # texts "whole", "rest" and "none": all of it is a number, a number and more, no number
    def _scan(self, it, I, name, args, st):
        t, f = self.text.get(args[0]), it.prog.cstring(args[1])
        if t not in ("whole", "rest", "none") or f not in (b"%ld%c", b"%lld%c", b"%ld", b"%lld"):
            raise A.AnalysisError("sscanf of %r with %r" % (t, f))
        if t == "none":
            return [("ret", const(0), st)]
        it.store(st, args[2], self.scanned, 8, None, "i64")
        if t == "rest" and f.endswith(b"%c"):
            it.store(st, args[3], const(120), 1, None, "i8")
            return [("ret", const(2), st)]
        return [("ret", ONE, st)]

    def _strto(self, it, I, name, args, st):
        t = self.text.get(args[0])
        if t not in ("whole", "rest", "none") or not (args[2] is const(10)):
            raise A.AnalysisError("%s of %r" % (name, t))
        if args[1].t:
            end = args[0] if t == "none" else vadd(args[0], const(5))
            it.store(st, end, ZERO if t == "whole" else const(120), 1, None, "i8")
            it.store(st, args[1], end, 8, None, "ptr")
        return [("ret", ZERO if t == "none" else self.scanned, st)]

    def fresh(self):
        self.n += 1
        return self.call("cee_json_i64_mk", self.state, av(A.atom("arg", 500 + self.n, "n%d" % self.n)))

    def make(self, t):
        """nested python value -> JSON value (numbers become opaque)"""
        if isinstance(t, dict):
            j = self.call("cee_json_object_mk", self.state)
            for k, v in t.items():
                self.call("cee_json_object_set", j, self.str(k), self.make(v))
            return j
        if isinstance(t, (list, tuple)):
            j = self.call("cee_json_array_mk", self.state, 1)
            for v in t:
                self.call("cee_json_array_append", j, self.make(v))
            return j
        if t is None:
            return self.call("cee_json_null")
        if isinstance(t, bool):
            return self.call("cee_json_true" if t else "cee_json_false")
        if isinstance(t, str):
            return self.call("cee_json_str_mk", self.state, self.str(t))
        return self.call("cee_json_i64_mk", self.state, av(A.atom("arg", 600 + t, "m%d" % t)))

    def tree(self, j, st=None):
        """JSON value -> nested python value as make() takes it"""
        def f(v):
            if v[0] == "OBJECT":
                return {k: f(x) for k, x in v[1:]}
            if v[0] == "ARRAY":
                return [f(x) for x in v[1:]]
            if v[0] == "NULL":
                return None
            if v[0] == "BOOLEAN":
                return bool(v[1])
            if v[0] == "STRING":
                return v[1]
            s = v[1].single() if v[0] == "I64" else None
            return s.args[0] - 600 if s is not None and s.kind == "arg" and s.args[0] >= 600 else v
        return f(self.value(j, st))

    # --- observing
    def object_bad(self, j, model):
        """model: [(key text, value)] in the order the keys were added"""
        w = self.clone()
        m = w.call("cee_json_to_object", j)
        if m is None or not m.t:
            return "it is no object"
        n = w.call("cee_map_size", m)
        if n is not const(len(model)):
            return "it has %r members instead of %d" % (n, len(model))
        d = dict(model)
        for k in KEYS + ["error", "old", "new", "q"]:
            v = w.call("cee_json_object_get", j, w.str(k, "q"))
            if v is not d.get(k, ZERO):
                return "the key %r has %s" % (k, "no value" if v is ZERO else "another value" if k in d else "a value")
        es = w.entries(m, w.st)
        if sorted(w.text.get(k, "?") for k, _ in es) != sorted(d) or any(d[w.text[k]] is not v for k, v in es):
            return "its members are %s" % es
        ks = w.items(w.call("cee_map_insertion_ordered_keys", m))
        if [w.text.get(k) for k in ks or []] != [k for k, _ in model]:
            return "its keys in the order of insertion are %s instead of %s" % ([w.text.get(k) for k in ks or []], [k for k, _ in model])
        w.acts = []
        x = w.obj("ctx")
        r = w.call("cee_json_object_iterate", j, x, S.ACTF)
        if r is not ZERO or any(a[0] is not x for a in w.acts) or sorted(w.text.get(a[1], "?") for a in w.acts) != sorted(d) or any(d[w.text[a[1]]] is not a[2] for a in w.acts):
            return "iterating visits %s and returns %r" % ([a[1:] for a in w.acts], r)
        return None

    def array_bad(self, j, model):
        w = self.clone()
        n = w.call("cee_json_array_length", j)
        if n is not const(len(model)):
            return "it has %r elements instead of %d" % (n, len(model))
        for i in (-2147483648, -1) + tuple(range(len(model) + 2)) + (2147483647,):
            v = w.call("cee_json_array_get", j, i)
            want = model[i] if 0 <= i < len(model) else ZERO
            if v is not want:
                return "element %d is %r" % (i, v)
        w.acts = []
        x = w.obj("ctx")
        r = w.call("cee_json_array_iterate", j, x, S.ACTF)
        if r is not ZERO or len(w.acts) != len(model) or any(a[0] is not x or a[1] is not v or a[2] is not const(i) for i, (a, v) in enumerate(zip(w.acts, model))):
            return "iterating visits %s and returns %r" % ([a[1:] for a in w.acts], r)
        return None


class Rules:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c

    def op(self, rule, fn, w0, f, key=""):
        w = w0.clone()
        bad = bad_of(w, lambda: f(w))
        self.ctx.used(w.it)
        self.ctx.check(not bad, rule, fn + key, bad or "", where(self.c, fn))

    # --- objects
    def objects(self, perm, missing):
        w0 = W(self.c)
        w0.j = w0.call("cee_json_object_mk", w0.state)
        w0.model = []

        def build(w):
            for k in perm:
                v = w0.fresh()
                w0.call("cee_json_object_set", w0.j, w0.str(k), v)
                w0.model.append((k, v))
            return w0.object_bad(w0.j, w0.model)
        bad = bad_of(w0, lambda: build(w0))
        self.ctx.check(not bad, "object", "cee_json_object_set/build", bad or "", where(self.c, "cee_json_object_set"))
        if bad:
            return
        for k in KEYS:
            self.op("object", "cee_json_object_set", w0, lambda w: self.set(w, k))
            self.op("object", "cee_json_object_remove", w0, lambda w: self.remove(w, k))
            self.op("object", "cee_json_object_remove", w0, lambda w: self.again(w, k))
            for k2 in KEYS + ["new"]:
                self.op("object", "cee_json_object_rename", w0, lambda w: self.rename(w, k, k2))
        self.op("object", "cee_json_object_set", w0, self.caller)
        for stop in range(len(perm)):
            self.op("object", "cee_json_object_iterate", w0, lambda w: self.stop(w, "cee_json_object_iterate", stop))
        self.op("object", "cee_json_set_error", w0, self.error)
        self.op("object", "cee_json_object_set", w0, self.null)

    def put(self, model, k, v):
        return [(x, v if x == k else y) for x, y in model] if k in dict(model) else model + [(k, v)]

    def set(self, w, k):
        v = w.fresh()
        w.call("cee_json_object_set", w.j, w.str(k, "new"), v)
        return w.object_bad(w.j, self.put(w.model, k, v))

    def caller(self, w):
        """the key is copied: the object does not depend on the caller's string"""
        p = w.str("q", "mine")
        w.call("cee_json_object_set", w.j, p, w.fresh())
        m = w.call("cee_json_to_object", w.j)
        return "it keeps the caller's key" if any(k is p for k, _ in w.entries(m, w.st)) else None

    def remove(self, w, k):
        w.call("cee_json_object_remove", w.j, w.str(k, "q"))
        return w.object_bad(w.j, [x for x in w.model if x[0] != k])

    def again(self, w, k):
        w.call("cee_json_object_remove", w.j, w.str(k, "q"))
        v = w.fresh()
        w.call("cee_json_object_set", w.j, w.str(k, "q"), v)
        return w.object_bad(w.j, [x for x in w.model if x[0] != k] + [(k, v)])

    def rename(self, w, k, k2):
        r = w.call("cee_json_object_rename", w.j, w.str(k, "q"), w.str(k2, "q"))
        d = dict(w.model)
        if r is not (ONE if k in d else ZERO):
            return "renaming a key that is %sthere returns %r" % ("" if k in d else "not ", r)
        if k not in d:
            return w.object_bad(w.j, w.model)
        rest = [x for x in w.model if x[0] != k]
        if k2 == k:
            return w.object_bad(w.j, rest + [(k, d[k])])
        return w.object_bad(w.j, self.put(rest, k2, d[k]))

    def stop(self, w, fn, at):
        w.acts = []
        seven = const(7)
        w.act_ret = lambda i, a: seven if i == at else ZERO
        r = w.call(fn, w.j, ZERO, S.ACTF)
        if r is not seven or len(w.acts) != at + 1:
            return "a callback returning 7 at call %d gives %r after %d calls" % (at + 1, r, len(w.acts))
        return None

    def error(self, w):
        f, x = w.obj("fmt"), w.str("arg")
        p = K.obj("errp")
        K.put(w.st, p, w.j, 8, None, "ptr")
        w.it.models["cee_json_select"] = w_select(w, w.j)
        try:
            w.call("cee_json_set_error", p, f, x)
            m = w.call("cee_json_to_object", w.j)
            es = {w.text.get(k): v for k, v in w.entries(m, w.st)}
            v = es.get("error")
            if v is None or w.value(v) != ("STRING", ("fmt", f, (x,))):
                return "there is no error with the text given"
            bad = w.object_bad(w.j, w.model + [("error", v)])
            if bad:
                return bad
            w.model = w.model + [("error", v)]
            w.call("cee_json_set_error", p, w.obj("fmt2"), x)
            bad = w.object_bad(w.j, w.model)
            if bad:
                return "a second error: " + bad
            K.put(w.st, p, ZERO, 8, None, "ptr")
            w.call("cee_json_set_error", p, f, x)
            w.call("cee_json_set_error", ZERO, f, x)
            return w.object_bad(w.j, w.model)
        finally:
            del w.it.models["cee_json_select"]

    def null(self, w):
        k, v = w.str("a"), w.fresh()
        for fn, args in (("cee_json_object_set", [v]), ("cee_json_object_append", [v]), ("cee_json_object_set_null", []), ("cee_json_object_set_bool", [1]),
                         ("cee_json_object_set_str", [w.str("t")]), ("cee_json_object_set_i64", [1]), ("cee_json_object_set_u64", [1]), ("cee_json_object_set_double", [w.obj("d")]),
                         ("cee_json_object_set_strf", [w.obj("f")])):
            w.call(fn, ZERO, k, *args)
        w.call("cee_json_object_append", w.j, k, ZERO)
        return w.object_bad(w.j, w.model)

    # --- every kind of value goes in as it is
    def kinds(self):
        w = W(self.c)
        st = w.state
        ks = {"null": w.make(None), "false": w.make(False), "true": w.make(True), "undefined": w.call("cee_json_undefined"), "number": w.fresh(),
              "u64": w.call("cee_json_u64_mk", st, w.obj("u")), "double": w.call("cee_json_double_mk", st, w.obj("d")), "string": w.make("s"), "empty array": w.make([]),
              "array": w.make([1]), "empty object": w.make({}), "object": w.make({"a": 1}),
              "blob": w.call("cee_json_blob_mk", st, w.obj("blob"), 8), "counted string": w.call("cee_json_strn_mk", st, w.obj("start"), 3)}
        for n, v in ks.items():
            self.op("object", "cee_json_object_kv", w, lambda w: self.kind_kv(w, v), "/" + n)
            self.op("object", "cee_json_object_set", w, lambda w: self.kind_set(w, v), "/" + n)
            self.op("append", "cee_json_object_append", w, lambda w: self.kind_append(w, v, n), "/" + n)
            self.op("array", "cee_json_array_append", w, lambda w: self.kind_array(w, v), "/" + n)

    def kind_kv(self, w, v):
        j = w.call("cee_json_object_kv", w.state, w.str("a"), v)
        return w.object_bad(j, [("a", v)])

    def kind_set(self, w, v):
        x = w.fresh()
        j = w.make({})
        for k, y in (("a", x), ("b", v), ("a", v), ("c", v), ("b", x), ("b", v)):
            w.call("cee_json_object_set", j, w.str(k), y)
        return w.object_bad(j, [("a", v), ("b", v), ("c", v)])

    def kind_append(self, w, v, n):
        j = w.make({})
        w.call("cee_json_object_append", j, w.str("a"), v)
        return w.object_bad(j, [("a", v)])

    def kind_array(self, w, v):
        x = w.fresh()
        j = w.make([])
        for y in (x, v, x, v):
            w.call("cee_json_array_append", j, y)
        w.call("cee_json_array_insert", j, 1, v)
        w.call("cee_json_array_insert", j, 0, v)
        return w.array_bad(j, [v, x, v, v, x, v])

    # --- append
    def appends(self):
        olds = {"absent": None, "number": 1, "null": None, "true": True, "string": "s", "empty array": [], "array": [1, 2], "object": {"a": 1}}
        news = {"number": 7, "null": None, "string": "t", "empty array": [], "array": [8, 9], "object": {"b": 3}}
        for a, x in olds.items():
            for b, y in news.items():
                for others in ([], ["b"]):
                    w0 = W(self.c)
                    self.op("append", "cee_json_object_append", w0, lambda w: self.append(w, a, x, b, y, others), "/%s+%s" % (a, b))

    def append(self, w, a, x, b, y, others):
        t = {k: 50 for k in others}
        if a != "absent":
            t["a"] = x
        j, v = w.make(t), w.make(y)
        w.call("cee_json_object_append", j, w.str("a", "key"), v)
        ys = y if isinstance(y, list) else [y]
        t["a"] = y if a == "absent" else (x if isinstance(x, list) else [x]) + ys
        got = w.tree(j)
        if got != t:
            return "appending %s to %s gives %r" % (b, a, got)
        w.call("cee_json_object_append", j, w.str("a", "key"), w.make(11))
        t["a"] = (t["a"] if isinstance(t["a"], list) else [t["a"]]) + [11]
        got = w.tree(j)
        return None if got == t else "appending again gives %r" % (got,)

    # --- conversion
    def converts(self):
        vals = {"number": 5, "whole": "whole", "rest": "rest", "none": "none", "null": None, "true": True, "array": [1], "object": {}}
        for name, v in vals.items():
            w0 = W(self.c)
            self.op("convert", "cee_json_object_convert_to_i64", w0, lambda w: self.convert(w, name, v), "/" + name)
        self.op("convert", "cee_json_object_convert_to_i64", W(self.c), self.convert_not)
        self.op("convert", "cee_json_object_convert_to_i64", W(self.c), self.convert_other)

    def convert(self, w, name, v):
        j = w.make({"a": v, "b": 9})
        old = w.call("cee_json_object_get", j, w.str("a"))
        r = w.call("cee_json_object_convert_to_i64", j, w.str("a"))
        can = name in ("number", "whole")
        if r is not (ONE if can else ZERO):
            return "returns %r for %s" % (r, name)
        new = w.call("cee_json_object_get", j, w.str("a"))
        if name == "whole":
            x = w.value(new)
            if x != ("I64", w.scanned):
                return "puts in %r" % (x,)
        elif new is not old:
            return "replaces %s" % name
        return None if w.tree(j).get("b") == 9 and len(w.tree(j)) == 2 else "changes another member"

    def convert_not(self, w):
        j = w.make({"b": 9})
        r = w.call("cee_json_object_convert_to_i64", j, w.str("a"))
        return None if r is ZERO and w.tree(j) == {"b": 9} else "returns %r for an absent key" % r

    def convert_other(self, w):
        for t in ([1], 5, None, "s"):
            j = w.make(t)
            for fn, args in (("cee_json_object_convert_to_i64", [w.str("a")]), ("cee_json_object_rename", [w.str("a"), w.str("b")])):
                r = w.call(fn, j, *args)
                if r is not ZERO:
                    return "%s returns %r for a value that is no object" % (fn, r)
        return None

    # --- arrays
    def arrays(self, n):
        w0 = W(self.c)
        w0.j = w0.call("cee_json_array_mk", w0.state, 1)
        w0.model = []

        def build(w):
            for k in range(n):
                v = w.fresh()
                w.call("cee_json_array_append", w.j, v)
                w.model.append(v)
            return w.array_bad(w.j, w.model)
        bad = bad_of(w0, lambda: build(w0))
        self.ctx.check(not bad, "array", "cee_json_array_append", bad or "", where(self.c, "cee_json_array_append"))
        if bad:
            return
        for i in range(n + 1):
            self.op("array", "cee_json_array_insert", w0, lambda w: self.insert(w, i))
        for i in (-2147483648, -1) + tuple(range(n + 2)) + (2147483647,):
            self.op("array", "cee_json_array_remove", w0, lambda w: self.aremove(w, i))
        for m in range(4):
            self.op("array", "cee_json_array_concat", w0, lambda w: self.concat(w, m))
        self.op("array", "cee_json_array_concat", w0, self.concat_self, "/self")
        for stop in range(n):
            self.op("array", "cee_json_array_iterate", w0, lambda w: self.stop(w, "cee_json_array_iterate", stop))
        self.op("array", "cee_json_listify", w0, self.listify)
        for i, j in itertools.product(range(n + 1), range(n)):
            self.op("array", "cee_json_array_insert", w0, lambda w: self.both(w, i, j), "/remove")

    def insert(self, w, i):
        v = w.fresh()
        w.call("cee_json_array_insert", w.j, i, v)
        return w.array_bad(w.j, w.model[:i] + [v] + w.model[i:])

    def both(self, w, i, j):
        v = w.fresh()
        w.call("cee_json_array_insert", w.j, i, v)
        w.call("cee_json_array_remove", w.j, j)
        m = w.model[:i] + [v] + w.model[i:]
        return w.array_bad(w.j, m[:j] + m[j + 1:])

    def aremove(self, w, i):
        w.call("cee_json_array_remove", w.j, i)
        return w.array_bad(w.j, [v for k, v in enumerate(w.model) if k != i])

    def concat(self, w, m):
        j2 = w.call("cee_json_array_mk", w.state, 1)
        vs = [w.fresh() for _ in range(m)]
        for v in vs:
            w.call("cee_json_array_append", j2, v)
        w.call("cee_json_array_concat", w.j, j2)
        bad = w.array_bad(j2, vs)
        return "the source: " + bad if bad else w.array_bad(w.j, w.model + vs)

    def concat_self(self, w):
        w.call("cee_json_array_concat", w.j, w.j)
        return w.array_bad(w.j, w.model + w.model)

    def listify(self, w):
        if w.call("cee_json_listify", w.j) is not w.j:
            return "gives another value for an array"
        for t in ({"a": 1}, {}, "s"):
            j = w.make(t)
            l = w.call("cee_json_listify", j)
            if l is None or l is j:
                return "does not make an array of %r" % (t,)
            bad = w.array_bad(l, [j])
            if bad:
                return bad
        return w.array_bad(w.j, w.model)

    # --- merging
    def merges(self, pairs):
        for a, b in pairs:
            self.op("merge", "cee_json_merge", W(self.c), lambda w: self.merge(w, a, b))
            self.op("merge", "cee_json_merge_or_return", W(self.c), lambda w: self.merge_or(w, a, b))

    def merge(self, w, a, b):
        x, y = w.make(a), w.make(b)
        r = w.call("cee_json_merge", x, y)
        ok = isinstance(a, dict) and isinstance(b, dict) or isinstance(a, list) and isinstance(b, list)
        if r is not (ONE if ok else ZERO):
            return "merging %r into %r returns %r" % (b, a, r)
        want = merged(a, b) if ok else a
        got, src = w.tree(x), w.tree(y)
        if got != want:
            return "merging %r into %r gives %r" % (b, a, got)
        if src != b:
            return "merging %r into %r changes the source to %r" % (b, a, src)
        if ok and isinstance(a, dict):
            ks = [w.text.get(k) for k in w.items(w.call("cee_map_insertion_ordered_keys", w.call("cee_json_to_object", x)))]
            if ks[:len(a)] != list(a):
                return "merging %r into %r reorders the members: %s" % (b, a, ks)
        return None

    def merge_or(self, w, a, b):
        x, y = w.make(a), w.make(b)
        p = K.obj("destp")
        K.put(w.st, p, x, 8, None, "ptr")
        ok = isinstance(a, dict) and isinstance(b, dict) or isinstance(a, list) and isinstance(b, list)
        r = w.call("cee_json_merge_or_return", p, y)
        if r is not (ONE if ok else ZERO) or w.at(w.st, p) is not x:
            return "merging %r into %r returns %r" % (b, a, r)
        if w.tree(x) != (merged(a, b) if ok else a):
            return "merging %r into %r gives %r" % (b, a, w.tree(x))
        return None

    def merge_null(self):
        def f(w):
            x = w.make({"a": 1})
            p = K.obj("destp")
            K.put(w.st, p, ZERO, 8, None, "ptr")
            if w.call("cee_json_merge_or_return", p, x) is not ONE or w.at(w.st, p) is not x:
                return "does not take the source for a missing destination"
            K.put(w.st, p, ZERO, 8, None, "ptr")
            for r in (w.call("cee_json_merge", x, ZERO), w.call("cee_json_merge", ZERO, x), w.call("cee_json_merge_or_return", p, ZERO), w.call("cee_json_merge_or_return", ZERO, x)):
                if r is not ZERO:
                    return "merging with nothing returns %r" % r
            return None if w.at(w.st, p) is ZERO and w.tree(x) == {"a": 1} else "merging with nothing changes something"
        self.op("merge", "cee_json_merge_or_return", W(self.c), f, "/null")

    # --- has
    def has(self, trees):
        for t in trees:
            self.op("has", "cee_json_has", W(self.c), lambda w: self.has1(w, t))

    def has1(self, w, t):
        j = w.make(t)
        for k in ("a", "b"):
            r = w.call("cee_json_has", j, w.str(k, "q"))
            if r is ZERO:
                if list(found(t, k)):
                    return "does not find %r in %r" % (k, t)
            else:
                v = w.tree(r)
                if not any(v is x or (type(v) is type(x) and v == x) for x in found(t, k)):
                    return "finds %r under %r in %r" % (v, k, t)
        return None if w.tree(j) == t else "changes the value"


def w_select(w, j):
    """cee_json_select(o, ".error") on the object itself (the selection is P18's)"""
    def f(it, I, name, args, st):
        if it.prog.cstring(args[1]) != b".error":
            raise A.AnalysisError("selects %r" % it.prog.cstring(args[1]))
        p = w.run1("cee_json_object_get", [args[0], w.str("error", "q")], st)
        return [("ret", it.reduce(p.st, p.ret), st)]
    return f


def merged(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merged(a[k], v) if k in a else v
        return out
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def found(t, k):
    if isinstance(t, dict):
        for x, v in t.items():
            if x == k:
                yield v
            yield from found(v, k)
    elif isinstance(t, list):
        for v in t:
            yield from found(v, k)


def pairs():
    vals = [1, None, "s", [], [2], {}, {"a": 3}, {"b": [4]}]
    news = [21, True, None, "s", "t", [], [22, 23], {}, {"a": 24}, {"b": [25]}, {"a": [26], "c": 27}]
    out = [(a, b) for a in vals for b in news]
    out += [({"a": a}, {"a": b}) for a in vals for b in news]
    out += [({"a": a, "b": 9}, {"b": b, "c": 28, "a": b}) for a in vals for b in news[4:]]
    out += [({"a": {"a": a}}, {"a": {"a": b, "b": 29}}) for a in vals for b in news[5:]]
    out += [({"b": 1, "a": 2}, {"c": 30, "a": 31}), ({"a": [[1]]}, {"a": [[32]]})]
    return out


def trees(n):
    if n == 1:
        return [1, [], {}]
    out = []
    for parts in splits(n - 1):
        for kids in itertools.product(*[trees(k) for k in parts]):
            out.append(list(kids))
            for ks in itertools.permutations(("a", "b", "c"), len(kids)):
                out.append(dict(zip(ks, kids)))
    return out


def splits(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in splits(n - k)]


def number(t, n):
    """distinct numbers for the leaves"""
    if isinstance(t, dict):
        return {k: number(v, n) for k, v in t.items()}
    if isinstance(t, list):
        return [number(v, n) for v in t]
    n[0] += 1
    return n[0]


def run(ctx):
    thorough = ctx.tier == "thorough"
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for n in range(4):
            for perm in itertools.permutations(KEYS, n):
                jobs.append(lambda x, perm=perm: Rules(x, c).objects(perm, n))
            jobs.append(lambda x, n=n: Rules(x, c).arrays(n))
        jobs.append(lambda x: Rules(x, c).arrays(4))
        jobs.append(lambda x: Rules(x, c).appends())
        jobs.append(lambda x: Rules(x, c).kinds())
        jobs.append(lambda x: Rules(x, c).converts())
        jobs.append(lambda x: Rules(x, c).merge_null())
        ps = pairs()
        for i in range(0, len(ps), 20):
            jobs.append(lambda x, i=i: Rules(x, c).merges(ps[i:i + 20]))
        ts = [number(t, [0]) for n in range(1, 6 if thorough else 5) for t in trees(n)]
        for i in range(0, len(ts), 40):
            jobs.append(lambda x, i=i: Rules(x, c).has(ts[i:i + 40]))
        parallel(ctx, jobs)
