"""P16: a JSON value reads back as what it was made from, and as nothing else."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import jsonlib as JL
from harness import parallel

MIN = {"read": 80, "refuse": 300, "empty": 30, "write": 20}
EXPLAIN = ("Every public constructor of JSON values is analysed on opaque arguments, and every public reader on every value made. Rule read: the reader of the value's own type "
           "gives back exactly what the constructor was given (the same symbolic value or object; for blobs and counted strings every byte and the size). Rule refuse: every other "
           "reader says so (NULL, false or EINVAL) and stores nothing. Rule empty: cee_json_empty is true of empty objects and arrays only. Rule write: the typed setters of objects and "
           "arrays put in a value of their type made from their argument.")
ASSUME = ["formatting of strings: P12"]
EINVAL = 22
PTR = ["cee_json_to_object", "cee_json_to_array", "cee_json_to_str", "cee_json_to_boxed", "cee_json_to_blob"]
OUT = ["cee_json_to_doublex", "cee_json_to_intx", "cee_json_to_i64x", "cee_json_to_u64x", "cee_json_to_boolx"]
OWN = {"cee_json_to_object": ("OBJECT",), "cee_json_to_array": ("ARRAY",), "cee_json_to_str": ("STRING",), "cee_json_to_boxed": ("I64", "U64", "DOUBLE"), "cee_json_to_blob": ("BLOB",),
       "cee_json_to_doublex": ("DOUBLE",), "cee_json_to_intx": ("I64",), "cee_json_to_i64x": ("I64",), "cee_json_to_u64x": ("U64",), "cee_json_to_boolx": ("BOOLEAN",),
       "cee_json_to_strn": ("STRN",)}


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


class W(JL.J):
    def __init__(self, c):
        JL.J.__init__(self, c, models={"sscanf": self._scan, "__isoc99_sscanf": self._scan, "__isoc23_sscanf": self._scan})
        self.n = 0
        self.it.strict32 = True

    def _scan(self, it, I, name, args, st):
        raise A.AnalysisError("sscanf is not expected here")

    def num(self, name="x"):
        self.n += 1
        return av(A.atom("arg", 300 + self.n, name))

    def data(self, n):
        p = self.obj("data")
        for i in range(n):
            K.put(self.st, vadd(p, const(i)), av(A.atom("arg", 400 + i, "byte")), 1, None, "i8")
        return p


def makers(c):
    """name -> (constructor, function(world) -> (value, type, payload))"""
    def simple(fn, t, payload):
        return fn, lambda w: (w.call(fn), t, payload)

    def num(fn, t):
        def f(w):
            v = w.num()
            return w.call(fn, w.state, v), t, v
        return fn, f

    def string(w):
        s = w.str("text")
        return w.call("cee_json_str_mk", w.state, s), "STRING", s

    def strf(w):
        s = w.str("text")
        f = w.obj("fmt")
        return w.call("cee_json_str_mkf", w.state, f, s), "STRING", ("fmt", f, (s,))

    def strn(n):
        def f(w):
            p = w.data(n)
            return w.call("cee_json_strn_mk", w.state, p, n), "STRN", (p, n)
        return "cee_json_strn_mk", f

    def strnx(w):
        p, n = w.obj("data"), av(A.atom("op", "nonneg", "size"))
        return w.call("cee_json_strn_mk", w.state, p, n), "STRN", (p, n)

    def blob(n):
        def f(w):
            p = w.data(n)
            return w.call("cee_json_blob_mk", w.state, p, n), "BLOB", n
        return "cee_json_blob_mk", f

    def array(n):
        return "cee_json_array_mk", lambda w: (w.call("cee_json_array_mk", w.state, n), "ARRAY", [])

    def full(w):
        j = w.call("cee_json_array_mk", w.state, 1)
        vs = [w.call("cee_json_null"), w.call("cee_json_true")]
        for v in vs:
            w.call("cee_json_array_append", j, v)
        return j, "ARRAY", vs

    def obj(w):
        return w.call("cee_json_object_mk", w.state), "OBJECT", []

    def kv(w):
        k, v = w.str("key"), w.call("cee_json_null")
        return w.call("cee_json_object_kv", w.state, k, v), "OBJECT", [("key", v)]

    def fromlist(n):
        def f(w):
            l = w.call("cee_list_mk", w.state, 2)
            vs = [w.call("cee_json_null")] * n
            for v in vs:
                w.call("cee_list_append", l, v)
            return w.call("cee_list_to_json", l), "ARRAY", ("same", l)
        return "cee_list_to_json", f

    def frommap(w):
        o = w.call("cee_json_object_mk", w.state)
        m = w.call("cee_json_to_object", o)
        return w.call("cee_map_to_json", m), "OBJECT", ("same", m)

    out = {"null": simple("cee_json_null", "NULL", None), "undefined": simple("cee_json_undefined", "UNDEFINED", None),
           "true": simple("cee_json_true", "BOOLEAN", ONE), "false": simple("cee_json_false", "BOOLEAN", ZERO),
           "i64": num("cee_json_i64_mk", "I64"), "u64": num("cee_json_u64_mk", "U64"), "double": num("cee_json_double_mk", "DOUBLE"),
           "str": ("cee_json_str_mk", string), "strf": ("cee_json_str_mkf", strf), "strn": ("cee_json_strn_mk", strnx), "strn0": strn(0),
           "array": array(4), "array0": array(0), "array2": ("cee_json_array_mk", full), "object": ("cee_json_object_mk", obj), "kv": ("cee_json_object_kv", kv),
           "list0": fromlist(0), "list2": fromlist(2), "map": ("cee_map_to_json", frommap)}
    for n in (0, 1, 7, 8, 100):
        out["blob%d" % n] = blob(n)
    return out


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for name, (fn, mk) in makers(c).items():
            jobs.append(lambda x, name=name, fn=fn, mk=mk: matrix(x, c, name, fn, mk))
        jobs.append(lambda x: booleans(x, c))
        jobs.append(lambda x: writers(x, c))
        parallel(ctx, jobs)


def bad_of(w, f):
    try:
        r = f()
    except S.Many as e:
        r = str(e)
    if not r and w.bad:
        r = "%s at %s" % w.bad[0]
    return r


def matrix(ctx, c, name, fn, mk):
    w0 = W(c)
    box = {}

    def make():
        box["r"] = mk(w0)
        if box["r"][0] is None or not box["r"][0].t:
            return "%s gives %r" % (fn, box["r"][0])
        t = w0.tag.get(w0.at(w0.st, vadd(box["r"][0], const(w0.T)), 4, "i32").c)
        return None if t == box["r"][1] else "%s makes a value of type %s" % (fn, t)
    bad = bad_of(w0, make)
    ctx.used(w0.it)
    ctx.check(not bad, "read", fn + "/type", bad or "", where(c, fn))
    if bad:
        return
    j, t, payload = box["r"]
    for rd in PTR + OUT + ["cee_json_to_strn"]:
        w = w0.clone()
        own = t in OWN[rd]
        bad = bad_of(w, lambda: (reads if own else refuses)(w, rd, j, t, payload))
        ctx.used(w.it)
        ctx.check(not bad, "read" if own else "refuse", "%s/%s" % (rd, name), "a value made by %s: %s" % (fn, bad), where(c, rd))
    w = w0.clone()

    def empty():
        r = w.call("cee_json_empty", j)
        want = t in ("ARRAY", "OBJECT") and (payload == [] or name in ("list0", "map"))
        return None if r is const(1 if want else 0) else "cee_json_empty gives %r for a value made by %s" % (r, fn)
    bad = bad_of(w, empty)
    ctx.check(not bad, "empty", "cee_json_empty/" + name, bad or "", where(c, "cee_json_empty"))


def outs(w):
    a, b = w.obj("out"), w.obj("out2")
    K.put(w.st, a, const(-77), 8, None, "ptr")
    K.put(w.st, b, const(-77), 8, None, "i64")
    return a, b


SIZES = {"cee_json_to_doublex": (8, "double"), "cee_json_to_intx": (4, "i32"), "cee_json_to_i64x": (8, "i64"), "cee_json_to_u64x": (8, "i64"), "cee_json_to_boolx": (1, "i8")}


def refuses(w, rd, j, t, payload):
    if rd in PTR:
        r = w.call(rd, j)
        return None if r is ZERO else "gives %r for a value of type %s" % (r, t)
    a, b = outs(w)
    if rd == "cee_json_to_strn":
        r = w.call(rd, j, a, b)
        ok = r is ZERO and w.at(w.st, b, 8, "i64") is const(-77)
    else:
        r = w.call(rd, j, a)
        ok = r is const(EINVAL)
    if not ok:
        return "gives %r for a value of type %s" % (r, t)
    return None if w.at(w.st, a) is const(-77) else "stores something for a value of type %s" % t


def reads(w, rd, j, t, payload):
    if rd in PTR:
        r = w.call(rd, j)
        if r is None or not r.t:
            return "gives %r" % r
        if t == "STRING":
            if isinstance(payload, tuple):
                return None if w.text.get(r) == payload else "gives the text %r" % (w.text.get(r),)
            return None if r is payload else "gives another string"
        if t in ("I64", "U64", "DOUBLE"):
            v = w.number(r, t, w.st)
            return None if v is payload else "gives the number %r" % v
        if isinstance(payload, tuple):
            return None if r is payload[1] else "gives another container"
        if t == "ARRAY":
            xs = w.items(r)
            return None if xs is not None and len(xs) == len(payload) and all(a is b for a, b in zip(xs, payload)) else "gives the elements %s" % xs
        if t == "OBJECT":
            es = [(w.text.get(k), v) for k, v in w.entries(r, w.st)]
            return None if len(es) == len(payload) and all(a == x and b is y for (a, b), (x, y) in zip(es, payload)) else "gives the members %s" % es
        n = w.call("cee_block_size", r)
        if n is not const(payload):
            return "gives %r bytes for %d" % (n, payload)
        at = vadd(r, const(w.c.L.off("cee_block", "_")))
        for i in range(payload):
            x = w.at(w.st, vadd(at, const(i)), 1, "i8")
            if x is not av(A.atom("arg", 400 + i, "byte")):
                return "byte %d is %r" % (i, x)
        return None
    a, b = outs(w)
    if rd == "cee_json_to_strn":
        r = w.call(rd, j, a, b)
        if r is not ONE:
            return "gives %r" % r
        n = payload[1] if isinstance(payload[1], A.V) else const(payload[1])
        p, q = w.at(w.st, a), w.at(w.st, b, 8, "i64")
        return None if p is payload[0] and q is n else "gives (%r, %r)" % (p, q)
    r = w.call(rd, j, a)
    if r is not ZERO:
        return "gives the error %r" % r
    z, ty = SIZES[rd]
    v = w.at(w.st, a, z, ty)
    if rd == "cee_json_to_intx":
        s = v.single()
        ok = s is not None and s.kind == "op" and s.args[0] in ("trunc", "sext") and s.args[-1] is payload or v is payload
        return None if ok else "stores %r" % v
    return None if v is payload else "stores %r" % v


def booleans(ctx, c):
    w = W(c)
    fn = "cee_json_bool"
    bad = None
    j1 = w.call("cee_json_true")
    j0 = w.call("cee_json_false")
    for b, j in ((0, j0), (1, j1)):
        r = w.call(fn, b)
        bad = bad or (None if r is j else "%s(%d) gives another value than cee_json_%s" % (fn, b, "true" if b else "false"))
    if w.call("cee_json_true") is not j1 or w.call("cee_json_false") is not j0 or j0 is j1 or w.call("cee_json_null") is not w.call("cee_json_null"):
        bad = bad or "true, false or null is a new value each time"
    ctx.check(not bad, "read", fn, bad or "", where(c, fn))
    ctx.used(w.it)


# ------------------------------------------------------------------ setters that make the value
def writers(ctx, c):
    for base, keyed in (("cee_json_object_set_", True), ("cee_json_array_append_", False)):
        for k in ("null", "bool", "str", "strf", "double", "i64", "u64"):
            fn = base + k
            if not c.has(fn):
                continue
            for arg in (0, 1) if k == "bool" else (None,):
                w = W(c)
                bad = bad_of(w, lambda: write(w, fn, k, keyed, arg))
                ctx.used(w.it)
                ctx.check(not bad, "write", fn, bad or "", where(c, fn))


def write(w, fn, k, keyed, arg):
    j = w.call("cee_json_object_mk" if keyed else "cee_json_array_mk", *([w.state] if keyed else [w.state, 1]))
    pre = [w.str("key")] if keyed else []
    if k == "bool":
        args, want = [arg], ("BOOLEAN", arg)
    elif k == "null":
        args, want = [], ("NULL",)
    elif k == "str":
        args, want = [w.str("text")], ("STRING", "text")
    elif k == "strf":
        f, x = w.obj("fmt"), w.str("arg")
        args, want = [f, x], ("STRING", ("fmt", f, (x,)))
    else:
        v = w.num()
        args, want = [v], (k.upper(), v)
    w.call(fn, j, *(pre + args))
    got = w.value(j)
    want = ("OBJECT", ("key", want)) if keyed else ("ARRAY", want)
    if got != want:
        return "gives %r" % (got,)
    if k in ("str", "strf"):
        x = w.call("cee_json_to_str", w.call("cee_json_object_get", j, pre[0]) if keyed else w.call("cee_json_array_get", j, 0))
        if x is args[0]:
            return "keeps the caller's string"
    return None
