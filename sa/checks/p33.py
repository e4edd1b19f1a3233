"""P33: JSON values are freed exactly when nothing holds them any more, and no operation leaves anything else behind."""
import absint as A
from absint import av, const, vadd, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import p17
from checks.p16 import where
from harness import parallel

MIN = {"whole": 500, "clean": 300, "freed": 300, "collected": 500}
EXPLAIN = ("Every operation on JSON values is interpreted on values of all types in a world where deletion is real; before and after, the values are followed through what the structures "
           "point to. Rules: whole - nothing a held value reaches is freed, nothing is freed twice or used after it was freed, by the operation or by deleting another value; clean - an "
           "operation leaves no new object on the state that nothing reaches; freed - when the values are deleted one after the other, in either order, everything only they held is freed; "
           "collected - two collections with one of the values as a root keep all it reaches and free the rest. The parser gets scripted tokens; the printer's formatting functions are models.")
ASSUME = ["malloc succeeds", "the texts are strings that nobody else owns"]


class R(p17.W):
    """JSON values with the real deletion: strings are blocks that carry a text"""

    def __init__(self, c):
        self.live = {}           # block -> where it was obtained
        self.gone = []
        self.problem = None
        p17.W.__init__(self, c, real=True)
        self.it.models["strlen"] = self._strlen
        self.seqs = {}           # trace function -> (offset of the object in its block, function that gives the size, is a list)
        for mk, size, isl in (("cee_list_mk", "cee_list_size", True), ("cee_stack_mk", "cee_stack_size", False)):
            x = self.call(mk, self.state, 1)
            b = next(a for a, k in x.t)
            self.seqs[self.kind(b)] = (x.c, size, isl)
            self.call("cee_del", x)

    def kind(self, b):
        st, off = self.st, self.c.L.off("cee_sect", "trace")
        for a in st.mem.near(b):
            if a.t and any(x is b for x, k in a.t) and st.mem[a][2] == ("struct.cee_sect", off):
                return st.mem[a][0]

    def scrub(self):
        """slots of lists and stacks that are not in use hold nothing"""
        for p in list(self.live):
            b = p.single()
            s = self.seqs.get(self.kind(b)) if b else None
            if not s:
                continue
            x = vadd(p, const(s[0]))
            n = self.quiet(s[1], [x], self.st)
            base = self.ptr(x) if s[2] else x
            bb = next((a for a, k in base.t if a.kind == "heap"), None)
            if bb is None:
                continue
            st = self.st
            for a in list(st.mem.near(bb)):
                if any(y is bb for y, k in a.t) and a.c >= base.c + 8 * n and st.mem[a][1] == 8 and (a.c - base.c) % 8 == 0 and (s[2] or not st.mem[a][2] or st.mem[a][2][0] != "struct.cee_sect"):
                    K.put(st, a, ZERO, 8, None, "ptr")

    def _strcmp(self, it, I, name, args, st):
        for a in args[:2]:
            it.access(st, I, a, 1, "load")
        return p17.W._strcmp(self, it, I, name, args, st)

    def num(self):
        return av(A.atom("arg", 720, "x"))

    def clone(self):
        w = p17.W.clone(self)
        w.live, w.gone = dict(self.live), list(self.gone)
        return w

    def _new(self, it, st, text):
        f = self.c.prog.find("cee_block_mk")
        out = []
        for k, r, s in it.exec_fn(f, [self.state, const(8)], st):
            if k == "ret":
                self.text[r] = text
            out.append((k, r, s))
        return out

    def call(self, fn, *args):
        r = p17.W.call(self, fn, *args)
        for e in self.ev:
            if e.kind in ("alloc", "realloc"):
                self.live[e.ret] = e.where()
            p = e.old if e.kind == "realloc" else e.p if e.kind == "free" else ZERO
            if p.t:
                if p not in self.live and not self.problem:
                    self.problem = "frees %s twice" % p
                self.live.pop(p, None)
                self.gone.append(p)
        if self.bad and not self.problem:
            self.problem = "%s at %s in %s" % (self.bad[0] + (fn,))
        return r

    def managed(self, text):
        r = self.call("cee_block_mk", self.state, 8)
        self.text[r] = text
        return r

    def make(self, t):
        if isinstance(t, str):
            return self.call("cee_json_str_mk", self.state, self.managed(t))
        return p17.W.make(self, t)

    # --- what is reached
    def reach(self, held):
        st = self.st
        seen, todo = set(), []

        def add(v):
            for a, k in v.t:
                if a.kind == "heap" and a not in seen:
                    seen.add(a)
                    todo.append(a)
        for h in held:
            add(h)
        skip = {("struct.cee_sect", self.c.STATE), ("struct.cee_sect", self.c.NEXT), ("struct.cee_sect", self.c.PREV), ("struct.cee_state", self.c.TAIL)}
        while todo:
            b = todo.pop()
            for a in st.mem.near(b):
                if a.t and any(x is b for x, k in a.t):
                    v, size, tag, ty = st.mem[a]
                    if size == 8 and tag not in skip:
                        add(v)
        return seen

    def heap(self, held):
        """what is wrong with what is allocated: (dangling, left behind)"""
        self.scrub()
        got = self.reach(list(held) + [self.state])
        dead = [p for p in self.gone if p.single() in got]
        left = [(p, w) for p, w in self.live.items() if p.single() not in got]
        return dead, left

    def ids(self, held):
        """blocks nobody holds"""
        self.scrub()
        got = self.reach(list(held) + [self.state])
        return {p for p in self.live if p.single() not in got}

    def token(self, it, I, name, args, st):
        """scripted tokens for the parser"""
        k = st.mon or 0
        st.mon = k + 1
        x = self.script[k] if k < len(self.script) else "eof"
        t = args[1]
        if x.startswith("str"):
            out = self._new(it, st, x)
            for _, r, s in out:
                K.put(s, vadd(t, const(self.tok["str"])), r, 8, None, "ptr")
            return [("ret", const(self.c.en["tock_str"]), s) for _, r, s in out]
        if x == "num":
            K.put(st, vadd(t, const(self.tok["number"])), av(A.atom("arg", 700 + k, "num")), 8, None, "i64")
            K.put(st, vadd(t, const(self.tok["type"])), const(self.c.en["NUMBER_IS_I64"]), 4, None, "i32")
        return [("ret", const(ord(x) if len(x) == 1 else self.c.en["tock_" + {"num": "number"}.get(x, x)]), st)]


def where_of(w, p):
    return (w.live.get(p) or "?").split(" (in ")[-1].rstrip(")")


class Rules:
    """op: function of the world that changes it and returns what the user holds afterwards"""

    WORLD = R

    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c

    def case(self, fn, what, setup, op, lasting=0):
        """lasting: objects made that belong to the caller"""
        ctx, c = self.ctx, self.c
        wh = where(c, fn)
        w = self.WORLD(c)
        bad = None
        rule = "whole"
        try:
            args = setup(w)
            held = [x for x in args if x.t]
            trees = {}
            before = set(w.live)
            r = op(w, *args)
            for x in r or ():
                if x is not None and x.t and x not in held:
                    held.append(x)
            roots = [h for h in held if any(h is q for q in (r if r is not None else args))]
            ctx.ob("whole")
            dead, left = w.heap(held)
            if w.problem:
                bad = w.problem
            elif dead:
                bad = "frees a part of a value that is still held"
            new = [p for p, _ in left if p not in before]
            if not bad:
                rule = "clean"
                ctx.ob("clean")
                if new:
                    bad = "leaves an object made by %s behind" % where_of(w, new[0])
            if not bad:
                bad, rule = self.parting(w, held, {p for p, _ in left})
            if not bad:
                bad, rule = self.collected(w, held)
        except S.Many as e:
            bad, rule = str(e), "whole"
        ctx.used(w.it)
        ctx.check(not bad, rule, fn, "%s (%s)" % (bad, what), wh)

    def parting(self, w0, held, left):
        """the holders go one after the other, in both directions"""
        tops = self.tops(w0, held)
        show = {id(h): w0.value(h) for h in tops}
        for order in (tops, tops[::-1]):
            w = w0.clone()
            hs = list(order)
            while hs:
                j = hs.pop(0)
                w.call("cee_del", j)
                self.ctx.ob("whole")
                dead, _ = w.heap(hs)
                if w.problem:
                    return w.problem + " when a value is deleted", "whole"
                if dead:
                    return "deleting one value frees a part of another", "whole"
                for h in hs:
                    if w.value(h) != show[id(h)]:
                        return "deleting one value changes another", "whole"
            self.ctx.ob("freed")
            more = w.ids([]) - left
            if more:
                return "an object made by %s is not freed with the last value that holds it" % where_of(w, more.pop()), "freed"
        return None, None

    def tops(self, w, held):
        """values not held by other values, and managed"""
        w.scrub()
        out = []
        for h in held:
            if h.t and h.single() is None and not any(a.kind == "heap" for a, k in h.t):
                continue
            if any(h is not g and any(a.kind == "heap" and a in w.reach([g]) for a, k in h.t) for g in held):
                continue
            out.append(h)
        return out

    def collected(self, w0, held):
        """collections with one of the values as a root"""
        tops = self.tops(w0, held)
        for keep in tops[:2]:
            w = w0.clone()
            show = w.value(keep)
            w.call("cee_state_add_gc_root", w.state, keep)
            for i in range(2):
                w.call("cee_state_gc", w.state)
                self.ctx.ob("collected")
                dead, left = w.heap([keep])
                if w.problem:
                    return w.problem + " in a collection", "collected"
                if dead:
                    return "a collection frees a part of a value that is a root", "collected"
                if w.value(keep) != show:
                    return "a collection changes a value", "collected"
            if left:
                return "two collections leave an object made by %s" % where_of(w, left[0][0]), "collected"
        return None, None

    # ------------------------------------------------------------------ the operations
    def objects(self, start, fn, what, f):
        self.case(fn, what, lambda w: [w.make(start)], f)


STARTS0 = [{}, {"a": 1}, {"a": "s", "b": [2, "t"]}, {"a": [1, [2]], "b": {"x": [3]}, "c": None}]
VALUES0 = [1, "s", None, True, [], [1, "t"], {}, {"x": [1]}]


def cases(c, thorough):
    """(function, description, setup, operation)"""
    out = []
    STARTS, VALUES = STARTS0, VALUES0
    if thorough:
        STARTS, VALUES = STARTS + [{"a": {"b": {"c": ["s"]}}, "b": [[], {}]}], VALUES + [[[], [None]], {"x": {"y": "s"}}]

    def add(fn, what, setup, op):
        if c.has(fn):
            out.append((fn, what, setup, op))
    for t in STARTS:
        one = lambda w, t=t: [w.make(t)]
        for k in ("a", "b", "z"):
            d = "%s of %r" % (k, t)
            for fn, extra in (("cee_json_object_set_null", []), ("cee_json_object_set_bool", [1]), ("cee_json_object_set_i64", [5]), ("cee_json_object_set_u64", [5])):
                add(fn, d, one, lambda w, j, fn=fn, k=k, extra=extra: w.call(fn, j, w.str(k), *extra) and None)
            add("cee_json_object_set_double", d, one, lambda w, j, k=k: w.call("cee_json_object_set_double", j, w.str(k), w.num()) and None)
            add("cee_json_object_set_str", d, one, lambda w, j, k=k: w.call("cee_json_object_set_str", j, w.str(k), w.str("new")) and None)
            add("cee_json_object_set_strf", d, one, lambda w, j, k=k: w.call("cee_json_object_set_strf", j, w.str(k), w.obj("fmt"), 1) and None)
            add("cee_json_object_remove", d, one, lambda w, j, k=k: w.call("cee_json_object_remove", j, w.str(k)) and None)
            add("cee_json_object_get", d, one, lambda w, j, k=k: w.call("cee_json_object_get", j, w.str(k)) and None)
            add("cee_json_has", d, one, lambda w, j, k=k: w.call("cee_json_has", j, w.str(k)) and None)
            for k2 in ("a", "b", "y"):
                add("cee_json_object_rename", "%s to %s" % (d, k2), one, lambda w, j, k=k, k2=k2: w.call("cee_json_object_rename", j, w.str(k), w.str(k2)) and None)
            for v in VALUES:
                two = lambda w, t=t, v=v: [w.make(t), w.make(v)]
                for fn in ("cee_json_object_set", "cee_json_object_append"):
                    add(fn, "%r as %s" % (v, d), two, lambda w, j, x, fn=fn, k=k: w.call(fn, j, w.str(k), x) and None)
        add("cee_json_object_iterate", repr(t), one, lambda w, j: w.call("cee_json_object_iterate", j, w.obj("ctx"), S.ACTF) and None)
        add("cee_json_set_error", repr(t), one, seterr)
        add("cee_json_listify", repr(t), one, lambda w, j: [j, w.call("cee_json_listify", j)])
        add("cee_map_to_json", repr(t), lambda w, t=t: [w.make(t), ZERO], lambda w, j, _: [j, w.call("cee_map_to_json", w.call("cee_json_to_object", j))])
    for v in VALUES:
        add("cee_json_object_kv", repr(v), lambda w, v=v: [w.make(v)], lambda w, v: [v, w.call("cee_json_object_kv", w.state, w.str("k"), v)])
    for t in ([], [1], ["s", [2], {"a": 3}]):
        one = lambda w, t=t: [w.make(t)]
        for v in VALUES:
            two = lambda w, t=t, v=v: [w.make(t), w.make(v)]
            add("cee_json_array_append", "%r to %r" % (v, t), two, lambda w, j, x: w.call("cee_json_array_append", j, x) and None)
            for i in range(len(t) + 1):
                add("cee_json_array_insert", "%r at %d of %r" % (v, i, t), two, lambda w, j, x, i=i: w.call("cee_json_array_insert", j, i, x) and None)
        for u in ([], [4], [[5], "u", None]):
            add("cee_json_array_concat", "%r and %r" % (t, u), lambda w, t=t, u=u: [w.make(t), w.make(u)], lambda w, j, x: w.call("cee_json_array_concat", j, x) and None)
        add("cee_json_array_concat", "%r with itself" % t, one, lambda w, j: w.call("cee_json_array_concat", j, j) and None)
        for i in range(len(t)):
            add("cee_json_array_remove", "%d of %r" % (i, t), one, lambda w, j, i=i: w.call("cee_json_array_remove", j, i) and None)
            add("cee_json_array_get", "%d of %r" % (i, t), one, lambda w, j, i=i: w.call("cee_json_array_get", j, i) and None)
        add("cee_json_array_iterate", repr(t), one, lambda w, j: w.call("cee_json_array_iterate", j, w.obj("ctx"), S.ACTF) and None)
        add("cee_json_array_append_bool", repr(t), one, lambda w, j: w.call("cee_json_array_append_bool", j, 1) and None)
        add("cee_json_array_append_str", repr(t), one, lambda w, j: w.call("cee_json_array_append_str", j, w.str("new")) and None)
        add("cee_json_array_append_strf", repr(t), one, lambda w, j: w.call("cee_json_array_append_strf", j, w.obj("fmt"), 1) and None)
        add("cee_json_listify", repr(t), one, lambda w, j: [j, w.call("cee_json_listify", j)])
        add("cee_list_to_json", repr(t), one, lambda w, j: [j, w.call("cee_list_to_json", w.call("cee_json_to_array", j))])
    for v in ("whole", "rest", "none", 5, None, [1]):
        add("cee_json_object_convert_to_i64", repr(v), lambda w, v=v: [w.make({"a": v, "b": "s"})], lambda w, j: w.call("cee_json_object_convert_to_i64", j, w.str("a")) and None)
    for fn, extra in (("cee_json_i64_mk", [1]), ("cee_json_u64_mk", [1]), ("cee_json_array_mk", [0]), ("cee_json_array_mk", [10]), ("cee_json_object_mk", [])):
        add(fn, "alone", lambda w: [], lambda w, fn=fn, extra=extra: [w.call(fn, w.state, *extra)])
    add("cee_json_double_mk", "alone", lambda w: [], lambda w: [w.call("cee_json_double_mk", w.state, w.num())])
    add("cee_json_strn_mk", "alone", lambda w: [], lambda w: [w.call("cee_json_strn_mk", w.state, w.obj("text"), 4)])
    add("cee_json_str_mkf", "alone", lambda w: [], lambda w: [w.call("cee_json_str_mkf", w.state, w.obj("fmt"), 1)])
    add("cee_json_blob_mk", "alone", lambda w: [], lambda w: [w.call("cee_json_blob_mk", w.state, w.obj("bytes"), 16)])
    trees = [{}, {"a": 1}, {"a": [1], "b": "s"}, {"a": {"x": 1, "y": [2]}}, {"a": {"x": {"z": 4}}, "c": [None]}]
    for t in trees:
        for u in trees:
            two = lambda w, t=t, u=u: [w.make(t), w.make(u)]
            add("cee_json_merge", "%r and %r" % (t, u), two, lambda w, j, x: w.call("cee_json_merge", j, x) and None)
            add("cee_json_merge_or_return", "%r and %r" % (t, u), two, merge_or)
        add("cee_json_merge_or_return", "nothing and %r" % t, lambda w, t=t: [w.make(t)], lambda w, x: merge_or(w, ZERO, x))
    add("cee_json_object_set", "one value in two", lambda w: [w.make({}), w.make([])] + [w.make({"x": [1]})], both)
    texts = ["num", "str1", "null", "[ ]", "{ }", "[ num , str1 , [ true ] ]", "{ str1 : num , str2 : [ num , { } ] }", "[ { str1 : { str2 : { } } } , null ]"]
    for t in texts:
        add("cee_json_parsex", t, lambda w, t=t: [], lambda w, t=t: parse(w, t.split()))
    for t in VALUES + [[[1], {"a": "s", "b": [2]}, None]]:
        for how in (0, 1):
            add("cee_json_snprint", "%r in format %d" % (t, how), lambda w, t=t: [w.make(t)], lambda w, j, how=how: printing(w, j, how))
    return out


def seterr(w, j):
    p = K.obj("x")
    K.put(w.st, p, j, 8, None, "ptr")
    w.it.models["cee_json_select"] = lambda it, I, name, args, st: [("ret", ZERO, st)]
    w.call("cee_json_set_error", p, w.obj("fmt"), 1)


def merge_or(w, j, x):
    p = K.obj("dest")
    K.put(w.st, p, j, 8, None, "ptr")
    w.call("cee_json_merge_or_return", p, x)
    return [w.ptr(p)]


def both(w, a, b, v):
    w.call("cee_json_object_set", a, w.str("k"), v)
    w.call("cee_json_array_append", b, v)


def parse(w, script):
    L = w.c.L
    w.tok = {m: L.off("tokenizer", m) for m in ("str", "type", "number")}
    w.script = script
    w.it.models["cee_json_next_token"] = w.token
    out, line = K.obj("out"), K.obj("line")
    w.st.mon = 0
    r = w.call("cee_json_parsex", w.state, K.obj("buf"), av(A.atom("op", "nonneg", "len")), out, 1, line)
    if r is not ZERO:
        raise S.Many("the text is refused")
    return [w.ptr(out)]


def printing(w, j, how):
    w.it.models["snprintf"] = w.it.models["sprintf"] = lambda it, I, name, args, st: [("ret", const(1), st)]
    w.it.models["strlen"] = lambda it, I, name, args, st: [("ret", const(1), st)]
    w.call("cee_json_snprint", w.state, ZERO, 0, j, how)


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        todo = cases(c, ctx.tier == "thorough")
        for i in range(0, len(todo), 8):
            def job(x, part=todo[i:i + 8]):
                for a in part:
                    Rules(x, c).case(*a)
            jobs.append(job)
        parallel(ctx, jobs)
