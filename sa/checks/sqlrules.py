"""Scenarios of the SQLite layer; a check runs them for its own rules (P21 only for the statements' lifecycle)."""
import itertools
import re

import absint as A
from absint import av, const, vadd, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import sql as Q
from checks.sql import OK, ERROR, ROW, DONE, CONSTRAINT

TYPES = ("INT", "INT64", "TEXT", "BLOB")


class Base:
    def __init__(self, ctx, c, life):
        self.ctx, self.c, self.life = ctx, c, life

    def wh(self, fn):
        fn = fn.split("/")[0]
        return "%s:%d (%s)" % (self.c.fn(fn).loc() + (fn,))

    def check(self, ok, rule, fn, msg):
        if self.life:
            return ok
        return self.ctx.check(ok, rule, fn, msg, self.wh(fn))

    def paths(self, w, fn, args, rule, given=None, aborts=False):
        """outcomes of a call that return; every path obeys the statements' lifecycle"""
        try:
            ps = w.go(fn, args)
        except (A.NoEnd, S.Many) as e:
            self.ctx.check(False, "statement" if self.life else rule, fn + "/end", "does not end: %s" % e, self.wh(fn))
            return
        self.ctx.used(w.it)
        if w.null and not self.life:
            self.ctx.check(False, rule, fn + "/null", w.null, self.wh(fn))
        if w.bad and not self.life:
            self.ctx.check(False, rule, fn + "/wild", "%s" % (w.bad[0],), self.wh(fn))
        for p in ps:
            es = Q.events(p.st)
            if p.kind != "ret":
                if not aborts:
                    self.check(False, rule, fn + "/abort", "does not return after %s" % Q.story(es))
                continue
            bad = Q.lifecycle(es, [h for h in (given(p) if given else []) if h.t])
            for e in K.problems(p):
                bad = bad or "%s at %s" % (e.kind, e.where())
            if self.life:
                self.ctx.check(not bad, "statement", fn, "%s after %s" % (bad, Q.story(es)), self.wh(fn))
            r = w.it.reduce(p.st, p.ret) if p.ret is not None else None
            for e in es:
                if e.d.get("db") is not None and e.what not in ("open", "close") and e.db is not w.db and not getattr(w, "other", False):
                    self.check(False, rule, fn + "/db", "uses another database for %s" % e.what)
            yield p, es, r

    # --- status
    def status(self, w, how):
        """-> (argument, cell or None, tree before)"""
        if how == "none":
            return ZERO, None, None
        if how == "fresh":
            s = w.cell_of()
            return s, s, {}
        j = w.make({"old": 1} if how == "object" else [7])
        s = w.cell_of(j)
        return s, s, {"old": ("i", w.num(1))} if how == "object" else [("i", w.num(7))]

    def result(self, w, p, cell):
        if cell is None:
            return None
        j = w.at(p.st, cell)
        return w.jtree(j, p.st) if j.t else "nothing"


class SW(Q.W):
    def num(self, n):
        return av(A.atom("arg", 600 + n, "m%d" % n))


# ---------------------------------------------------------------------- binding
def bound_value(spec, val, verb):
    """what the parameter must be bound to; None: nothing (which is null too)"""
    v = val if val is not None else spec.get("default")
    t = spec["type"]
    if v is None:
        if verb == "insert" and spec.get("not_null"):
            return {"INT": ("int", ZERO), "INT64": ("int64", ZERO), "TEXT": ("text", "", 0), "BLOB": ("blob", "", 0)}[t]
        return None
    if v == "null":
        return None
    i, i64, value, size = v
    if t == "INT":
        return ("int", i)
    if t == "INT64":
        return ("int64", i64)
    if t == "TEXT":
        return ("text", value, size.c if size.c else -1)
    return ("blob", value, size.c)


def binding_bad(w, st, got, want, name):
    if got is not None and got[0] == "null":
        got = None
    if want is None or got is None:
        if want is got:
            return None
        return "binds %s to %s instead of %s" % (name, "nothing" if got is None else got, "nothing" if want is None else want)
    if want[0] in ("int", "int64"):
        ok = got[0] in ("int", "int64") and (got[1] is want[1] or (want[0] == "int" and narrow(got[1]) is narrow(want[1])) and got[0] == "int")
    elif isinstance(want[1], str):
        ok = got[0] == want[0] and got[1].t and w.know(st, got[1]) == want[1] and got[2].c in (0, -1)
    else:
        t = w.texts(want[1])
        n = got[2].c
        ok = got[0] == want[0] and got[1] is want[1] and (n == want[2])
    return None if ok else "binds %s to %s instead of %s" % (name, got, want)


def narrow(v):
    """the number behind conversions between integer widths"""
    s = v.single()
    while s is not None and s.kind == "op" and str(s.args[0]) in ("trunc", "sext", "zext"):
        v = next(x for x in s.args[1:] if isinstance(x, A.V))
        s = v.single()
    return v


def binds_bad(w, st, x, want):
    """x: an execution; want: parameter name -> expected"""
    if x.binds is None:
        return "does not run '%s'" % x.sql
    for n in set(x.binds) | set(want):
        bad = binding_bad(w, st, x.binds.get(n), want.get(n), n)
        if bad:
            return bad
    return None


class Bind(Base):
    FN = "cee_sqlite3_bind_run_sql"

    def one(self, q, verb, specs, vals, how, hand, typo=(), data=True):
        """run a statement with given infos and values"""
        w = SW(self.c)
        info = w.infos(specs) if specs is not None else ZERO
        d = w.datas(vals) if data and specs is not None else ZERO
        arg, cell, before = self.status(w, how)
        pp = w.cell_of() if hand else ZERO
        if verb == "select":
            w.rows[q] = [[("c", "INTEGER")]]
        want = {}
        for s, v in zip(specs or [], vals):
            want[s["var"]] = bound_value(s, v if data else None, verb)
        names = list(dict.fromkeys(re.findall(r"[@:$]\w+", q)))
        free = [n for n in names if n not in want] if specs is not None else []
        want = {n: v for n, v in want.items() if n in names}
        fn = self.FN
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(q), pp, arg], "bind", given=(lambda p: [w.at(p.st, pp)]) if hand else None):
            xs = Q.executions(es)
            bad = None
            if len(xs) != 1 or xs[0].sql != q:
                bad = "prepares %s" % xs
            x = xs[0] if xs else None
            t = self.result(w, p, cell)
            err = isinstance(t, dict) and "error" in t
            rc = None
            if bad:
                pass
            elif not x.h.t:
                rc, wanterr = ERROR, True
            elif free:
                rc, wanterr = ERROR, True
                bad = "runs the statement although %s is not bound" % free[0] if x.steps else None
            else:
                wanterr = None
                bad = binds_bad(w, p.st, x, want)
                rc = x.steps[0] if x.steps else None
                if not bad and len(x.steps) != 1:
                    bad = "steps %d times" % len(x.steps)
            if not bad and r is not const(rc):
                bad = "returns %r instead of %r" % (r, rc)
            if not bad and cell is not None:
                rest = {k: v for k, v in t.items() if k != "error"} if isinstance(t, dict) else t
                if rest != before:
                    bad = "makes the status %r" % (t,)
                elif wanterr is not None and err != wanterr:
                    bad = "reports %s error" % ("an" if err else "no")
                elif wanterr is None and err and rc in (ROW, DONE):
                    bad = "reports an error although it works"
            self.check(not bad, "bind", fn, "%s after %s" % (bad, Q.story(es)))

    def jobs(self, thorough):
        out = []
        j = lambda *a, **k: out.append(lambda: self.one(*a, **k))
        W = lambda: SW(self.c)
        # one parameter: every type, every source, null, not_null, statement kind
        verbs = [("select c from t where a=@a", "select"), ("insert into t values (@a)", "insert"), ("update t set a=@a", "update"), ("delete from t where a=@a", "delete"),
                 ("replace into t values (@a)", "other")]
        n = [0]

        def v(size=0):
            n[0] += 5
            return (av(A.atom("arg", 700 + n[0], "v%d.i" % n[0])), av(A.atom("arg", 701 + n[0], "v%d.i64" % n[0])), vadd(K.obj("value"), const(256)), const(size))
        for q, verb in verbs:
            for t in TYPES:
                for src in ("data", "default", "both", "none", "null", "nulldefault", "nulldata"):
                    for nn in (0, 1):
                        if nn and src.startswith("null"):
                            continue
                        size = 4 if t == "BLOB" else 0
                        s = dict(var="@a", col="a", type=t, not_null=nn, default={"default": v(size), "both": v(size), "nulldefault": "null", "nulldata": v(size)}.get(src))
                        val = v(size) if src in ("data", "both") else "null" if src in ("null", "nulldata") else None
                        j(q, verb, [s], [val], "none", False)
                        if src in ("default", "none", "nulldefault"):
                            j(q, verb, [s], [val], "none", False, data=False)
            j(q, verb, [dict(var="@a", col="a", type="TEXT")], [v(3)], "fresh", False)
            j(q, verb, [dict(var="@a", col="a", type="BLOB")], [v(0)], "fresh", True)
        for q in ("INSERT into t values (@a)", "  insert into t values (@a)", "\n\tInsert into t values (@a)"):
            for t in TYPES:
                j(q, "insert", [dict(var="@a", col="a", type=t, not_null=1)], [None], "fresh", False)
        for q, verb in (("select insert from t where a=@a", "select"), ("update inserts set a=@a", "update"), ("with x as (insert) select @a", "other"), (" select '  insert', @a", "select")):
            j(q, verb, [dict(var="@a", col="a", type="INT", not_null=1)], [None], "fresh", False)
        # several: order, repeated, unknown to the statement, missing
        A_, B_, C_ = (dict(var="@" + x, col=x, type=t) for x, t in (("a", "INT"), ("b", "TEXT"), ("c", "INT64")))
        for hand in (False, True):
            for how in ("none", "fresh", "object"):
                for q, verb in (("insert into t values (@a, @b, @c)", "insert"), ("insert into t values (@c, @a, @b)", "insert"), ("select c from t where a=@b and c=@a or b=@b", "select"),
                                ("update t set a=@a where b=@c", "update"), ("delete from t where c=@c", "delete"), ("insert into t values (@a, @d, @c)", "insert"),
                                ("insert into t values (@c, @b, @x, @a)", "insert"), ("select c from t where a=@x", "select"), ("update t set a=@a, b=@b where d=@d", "update"),
                                ("delete from t", "delete")):
                    for vals in ((v(), v(), v()), (v(), None, "null"), (None, v(), None), (None, None, None)):
                        j(q, verb, [A_, B_, C_], list(vals), how, hand)
                    j(q, verb, [], [], how, hand)
                    j(q, verb, None, [], how, hand)
        return out


# ---------------------------------------------------------------------- selecting
def rowtree(w, t, k, flags):
    cols = w.rows[t][k]
    o = {}
    for i, (n, ty) in enumerate(cols):
        if flags.get(n, {}).get("no_return"):
            continue
        o[n] = w.want(t, k, i)
    if len(cols) == 1 and flags.get(cols[0][0], {}).get("no_label") and o:
        return list(o.values())[0]
    return o


class Select(Base):
    SQL = "select x from t where p=@p"

    def world(self, rows, flags, known=True):
        w = SW(self.c)
        w.rows[self.SQL] = rows
        specs = [dict(var="@p", type="INT", col="zz")]
        vals = [w.fresh_value()]
        for n, f in flags.items():
            specs.insert(0 if f.get("first") else len(specs), dict(f, var="@" + n, col=n, type="INT"))
            vals.insert(0 if f.get("first") else len(vals), None)
        return w, (w.infos(specs) if known else ZERO), (w.datas(vals) if known else ZERO)

    def outcome(self, es):
        """-> rc of the statement and number of rows it gave"""
        xs = Q.executions(es)
        if len(xs) != 1:
            return "runs %s" % xs, None, 0
        x = xs[0]
        if x.sql != self.SQL:
            return "runs '%s'" % x.sql, None, 0
        if not x.h.t:
            return None, ERROR, 0
        if not x.steps:
            return "does not run the statement", None, 0
        return None, x.steps[-1], sum(1 for r in x.steps if r == ROW)

    def select(self, rows, flags, how, known=True):
        fn = "cee_sqlite3_select"
        w, info, d = self.world(rows, flags, known)
        if not known and not flags:
            q = "select x from t"
            w.rows[q] = rows
            self_sql = q
        else:
            self_sql = self.SQL
        arg, cell, before = self.status(w, how)
        old, self.SQL = self.SQL, self_sql
        try:
            for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self_sql), arg], "rows", aborts=how == "array"):
                bad, rc, n = self.outcome(es)
                t = self.result(w, p, cell)
                if not bad and r is not const(rc):
                    bad = "returns %r instead of %r" % (r, rc)
                if not bad and cell is not None:
                    if rc == DONE:
                        want = (before if how == "array" else []) + [rowtree(w, self_sql, k, flags) for k in range(n)]
                        if t != want:
                            bad = "gives %s instead of %s" % (t, want)
                        elif n != len(rows):
                            bad = "stops after %d of %d rows" % (n, len(rows))
                    elif not (isinstance(t, dict) and "error" in t):
                        bad = "reports no error but %r" % (t,)
                self.check(not bad, "rows", fn, "%s after %s" % (bad, Q.story(es)))
        finally:
            self.SQL = old

    def first(self, rows, flags, how):
        fn = "cee_sqlite3_select1"
        w, info, d = self.world(rows, flags)
        arg, cell, before = self.status(w, how)
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self.SQL), arg], "rows"):
            bad, rc, n = self.outcome(es)
            t = self.result(w, p, cell)
            if not bad and r is not const(rc):
                bad = "returns %r instead of %r" % (r, rc)
            if not bad and cell is not None:
                if rc == DONE:
                    want = "nothing" if how == "fresh" else before
                    if rows:
                        row = rowtree(w, self.SQL, 0, flags)
                        want = row if how == "fresh" else dict(before, **row)
                    if t != want:
                        bad = "gives %s instead of %s" % (t, want)
                else:
                    bad = self.failed(t, before)
            self.check(not bad, "rows", fn, "%s after %s" % (bad, Q.story(es)))

    def failed(self, t, before):
        if not (isinstance(t, dict) and "error" in t):
            return "reports no error but %r" % (t,)
        rest = {k: v for k, v in t.items() if k != "error"}
        if rest != before:
            return "makes the status %r" % (t,)
        return None

    def keyed(self, fn, rows, flags, how):
        w, info, d = self.world(rows, flags)
        if how == "oldkey":
            j = w.make({"k": [7] if fn.endswith("select_as") else {"old": 7}})
            arg = cell = w.cell_of(j)
            before = w.jtree(j)
        else:
            arg, cell, before = self.status(w, how)
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self.SQL), arg, w.cstr("k")], "keyed"):
            bad, rc, n = self.outcome(es)
            t = self.result(w, p, cell)
            if not bad and r is not const(rc):
                bad = "returns %r instead of %r" % (r, rc)
            if not bad and cell is not None:
                if rc == DONE:
                    want = dict(before)
                    if fn.endswith("select_as"):
                        want["k"] = before.get("k", []) + [rowtree(w, self.SQL, k, flags) for k in range(n)]
                    elif rows:
                        row = rowtree(w, self.SQL, 0, flags)
                        want["k"] = dict(before.get("k", {}), **row) if isinstance(row, dict) else row
                    ok = t == want or (not rows and t in (dict(want, k=None), "nothing"))
                    if not ok:
                        bad = "gives %s instead of %s" % (t, want)
                elif not (isinstance(t, dict) and "error" in t):
                    bad = "reports no error but %r" % (t,)
            self.check(not bad, "keyed", fn, "%s after %s" % (bad, Q.story(es)))

    def iterate(self, rows, stop, how):
        fn = "cee_sqlite3_select_iter"
        w, info, d = self.world(rows, {})
        w.stop_at = stop
        arg, cell, before = self.status(w, how)
        x = w.obj("cls")
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self.SQL), x, Q.ROWF, arg], "iterate"):
            bad, rc, n = self.outcome(es)
            calls = [e for e in es if e.what == "row"]
            last = None
            for e in es:
                if e.what == "step":
                    last = e
                elif e.what == "row" and (last is None or last.rc != ROW):
                    bad = bad or "calls back without a row"
                elif e.what == "row":
                    last = None
            if not bad and len(calls) != n:
                bad = "calls back %d times for %d rows" % (len(calls), n)
            if not bad and any(e.args[0] is not x or e.args[1] is not w.state or e.args[2] is not info for e in calls):
                bad = "does not hand on its arguments"
            stopped = stop is not None and len(calls) == stop + 1
            if not bad and not stopped and r is not const(rc):
                bad = "returns %r instead of %r" % (r, rc)
            if not bad and stopped and (rc != ROW or r is not const(DONE)):
                bad = "goes on after the callback stopped it, or returns %r" % r
            if not bad and not stopped and rc == DONE and n != len(rows):
                bad = "stops after %d of %d rows" % (n, len(rows))
            t = self.result(w, p, cell)
            if not bad and cell is not None and not stopped and rc != DONE:
                bad = self.failed(t, before)
            self.check(not bad, "iterate", fn, "%s after %s" % (bad, Q.story(es)))

    def next(self, kind):
        fn = "cee_sqlite3_next_int"
        w = SW(self.c)
        frm = "from t where a_rather_long_column_name_to_make_the_query_long = 1234567890 and another_one_that_is_long_too = 99"
        q = None
        s = w.cell_of()
        orig = w._m_sqlite3_prepare_v2
        seen = []

        def prep(it, I, name, args, st):
            t = w.know(st, args[1])
            if isinstance(t, str):
                seen.append(t)
                m = re.match(r"\s*select\s+max\((\w+)\)\s+as\s+(\w+)\s+(.*?)\s*;?\s*$", t, re.S)
                if m:
                    w.rows[t] = [[(m.group(2), kind)]]
            return orig(it, I, name, args, st)
        w.it.models["sqlite3_prepare_v2"] = prep
        for p, es, r in self.paths(w, fn, [w.cs, w.cstr("n"), w.cstr(frm), s], "next"):
            xs = Q.executions(es)
            bad = None
            if len(xs) != 1:
                bad = "runs %s" % xs
            else:
                m = re.match(r"\s*select\s+max\((\w+)\)\s+as\s+(\w+)\s+(.*?)\s*;?\s*$", xs[0].sql, re.S)
                if not m or m.group(1) != "n" or m.group(3) != frm:
                    bad = "runs '%s'" % xs[0].sql
            if not bad:
                ok = xs[0].h.t and xs[0].steps and xs[0].steps[-1] == DONE
                if not ok:
                    t = self.result(w, p, s)
                    if r is not const(-1) and not (r.is_const() and r.c & 0xffffffff == 0xffffffff):
                        bad = "returns %r for a query that fails" % r
                    elif not (isinstance(t, dict) and "error" in t):
                        bad = "reports no error but %r" % (t,)
                elif kind == "NULL":
                    bad = None if r is ONE else "returns %r when there are no rows" % r
                else:
                    v = w.col(xs[0].sql, 0, 0)
                    bad = None if narrow(A.vsub(r, const(1))) is v else "returns %r" % r
            self.check(not bad, "next", fn, "%s after %s" % (bad, Q.story(es)))

    # --- joining
    def join(self, fn, typ, key, rows, elems, data=None):
        """each element's member `id` is the parameter of the statement for it; data: values come with the data instead of the bindings, the index of the one for @p"""
        w = SW(self.c)
        w.rows[self.SQL] = rows
        specs = [dict(var="@p", col="id", type=typ, default=None if data is not None else w.fresh_value())]
        if data:
            specs.insert(0, dict(var="@q", col="unknown", type="INT"))
        info = w.infos(specs)
        d = ZERO if data is None else w.datas([None] * data + [w.fresh_value()])
        src = [{"id": e, "n": 1} if e is not False else {"n": 1} for e in elems]
        j = w.make(src if fn.endswith("array_join_table") else src[0])
        t = w.jtree(j)
        keys = [o.get("id") for o in (t if isinstance(t, list) else [t])]
        for p, es, r in self.paths(w, fn, [w.cs, j, info, d, w.cstr(self.SQL), w.cstr("k") if key else ZERO], "join"):
            xs = Q.executions(es)
            t = w.jtree(j, p.st)
            ts = t if isinstance(t, list) else [t]
            bad, stopped, ran = None, False, 0
            for i, (e, o) in enumerate(zip(src, ts)):
                base = {"n": ("i", w.num(1))}
                if "id" in e:
                    base["id"] = keys[i]
                if stopped:
                    if o != base:
                        bad = bad or "changes element %d after an error" % i
                    continue
                usable = isinstance(e.get("id"), str) or isinstance(e.get("id"), int) and not isinstance(e["id"], bool)
                if not usable:
                    stopped = True
                    if "error" not in o or {k: v for k, v in o.items() if k != "error"} != base:
                        bad = bad or "makes element %d %s" % (i, o)
                    continue
                if ran >= len(xs):
                    bad = bad or "does not look for element %d" % i
                    break
                x = xs[ran]
                ran += 1
                okrun = x.h.t and x.steps and x.steps[-1] == DONE
                if x.h.t:
                    b = (x.binds or {}).get("@p")
                    if isinstance(e["id"], int):
                        ok = b is not None and b[0] in ("int", "int64") and (b[1] is w.num(e["id"]) or typ == "INT" and narrow(b[1]) is w.num(e["id"]))
                    else:
                        ok = b is not None and b[0] == "text" and w.know(p.st, b[1]) == e["id"]
                    if not ok:
                        bad = bad or "looks for element %d with %s" % (i, b)
                if okrun:
                    rs = [rowtree(w, self.SQL, k, {}) for k in range(len(rows))]
                    want = dict(base, k=rs) if key else dict(base, **rs[0]) if rs else base
                    if o != want:
                        bad = bad or "makes element %d %s instead of %s" % (i, o, want)
                else:
                    stopped = True
                    err = o.get("k") if key else o
                    if not isinstance(err, dict) or "error" not in err:
                        bad = bad or "reports no error in element %d but %s" % (i, o)
            if not bad and ran != len(xs):
                bad = "runs %d statements for %d elements" % (len(xs), ran)
            self.check(not bad, "join", fn, "%s after %s" % (bad, Q.story(es)))

    def jobs(self, thorough):
        out = []
        all5 = [("a", "INTEGER"), ("b", "FLOAT"), ("c", "TEXT"), ("d", "BLOB"), ("e", "NULL")]
        rs = [[], [all5], [[("a", t)] for t in Q.TYPES], [[("a", t), ("b", u)] for t, u in zip(Q.TYPES, list(Q.TYPES)[1:] + ["TEXT"])], [[("a", "NULL")], [("a", "TEXT")]]]
        for t in Q.TYPES:
            rs.append([[("a", t)]])
        fl = [{}, {"a": {"no_return": 1}}, {"a": {"no_label": 1}}, {"b": {"no_return": 1}, "a": {"no_label": 1}}, {"c": {"no_return": 1}, "d": {"first": 1, "no_return": 1}},
              {"e": {"no_label": 1, "no_return": 1}}, {"z": {"no_return": 1, "no_label": 1}}]
        for rows in rs:
            for f in fl:
                if rows and len(rows[0]) == 1 and f.get("a", {}).get("no_return"):
                    continue
                for how in ("none", "fresh", "array"):
                    out.append(lambda a=(rows, f, how): self.select(*a))
            out.append(lambda rows=rows: self.select(rows, {}, "fresh", known=False))
            for f in fl:
                if rows and len(rows[0]) == 1 and (f.get("a", {}).get("no_return") or f.get("a", {}).get("no_label")):
                    continue
                for how in ("none", "fresh", "object"):
                    out.append(lambda a=(rows, f, how): self.first(*a))
                for how in ("none", "fresh", "object", "oldkey"):
                    for fn in ("cee_sqlite3_select_as", "cee_sqlite3_select1_as"):
                        if how == "oldkey" and not rows:
                            continue
                        out.append(lambda a=(fn, rows, f, how): self.keyed(*a))
        for n in range(4):
            for stop in [None] + list(range(n)):
                for how in ("none", "fresh"):
                    out.append(lambda a=([[("a", "INTEGER")]] * n, stop, how): self.iterate(*a))
        for k in ("INTEGER", "NULL"):
            out.append(lambda k=k: self.next(k))
        for key in (0, 1):
            for rows in ([], [[("x", "TEXT")]], [[("x", "INTEGER"), ("y", "TEXT")], [("x", "NULL"), ("y", "TEXT")]]):
                for elems in ([1], [1, 2], [1, None, 2], [1, False, 2], ["text"], [{"x": 1}, 2], [[1]], [True]):
                    typ = ["TEXT"] if elems == ["text"] else ["INT", "INT64"]
                    for t in typ:
                        out.append(lambda a=("cee_sqlite3_json_array_join_table", t, key, rows, elems): self.join(*a))
                        for d in (0, 1):
                            out.append(lambda a=("cee_sqlite3_json_array_join_table", t, key, rows, elems, d): self.join(*a))
                        if len(elems) == 1:
                            out.append(lambda a=("cee_sqlite3_json_object_join_table", t, key, rows, elems): self.join(*a))
        return out


# ---------------------------------------------------------------------- changing
class Change(Base):
    INS, INSX, UPD, UPDX, DEL, SEL = ("insert into t values (@a, @b)", "insert into t (b,a) values (@b,@a)", "update t set b=@b where a=@a", "update t set a=@a",
                                      "delete from t where a=@a", "select c from t where a=@a")

    def world(self, found=True):
        w = SW(self.c)
        w.rows[self.SEL] = [[("c", "INTEGER"), ("d", "TEXT")]] * int(found)
        self.v = [w.fresh_value(), w.fresh_value()]
        specs = [dict(var="@a", col="a", type="INT"), dict(var="@b", col="b", type="TEXT")]
        self.specs = specs
        return w, w.infos(specs), w.datas(self.v)

    def want(self, sql):
        return {s["var"]: bound_value(s, v, "x") for s, v in zip(self.specs, self.v) if s["var"] in sql}

    def step_bad(self, w, p, x, sql):
        """is x a run of sql with the values given?"""
        if x.sql != sql:
            return "runs '%s' instead of '%s'" % (x.sql, sql)
        return binds_bad(w, p.st, x, self.want(sql)) if x.h.t else None

    def rc(self, x):
        return (x.steps[-1] if x.steps else None) if x.h.t else ERROR

    def after(self, es, x, what):
        """the counter is read after the last step of x and before any other statement"""
        last = max(i for i, e in enumerate(es) if e.what == "step" and e.h is x.h)
        reads = [i for i, e in enumerate(es) if e.what == what]
        return reads and min(reads) > last and not any(e.what in ("step", "exec") for e in es[last + 1:min(reads)])

    def judge(self, w, p, es, r, cell, before, plan):
        """plan(executions so far) -> next text or None; -> (bad, executions)"""
        xs = Q.executions(es)
        done = []
        for x in xs:
            n = plan(done)
            if n is None:
                return "runs '%s' after '%s'" % (x.sql, done[-1].sql if done else ""), xs
            bad = self.step_bad(w, p, x, n)
            if bad:
                return bad, xs
            if x.h.t and len(x.steps) != 1:
                return "steps '%s' %d times" % (x.sql, len(x.steps)), xs
            done.append(x)
        n = plan(done)
        if n is not None:
            return "does not run '%s'" % n, xs
        if r is not const(self.rc(done[-1]) if done else -1):
            return "returns %r" % r, xs
        return None, xs

    def state_bad(self, t, before, err, extra):
        """extra: members that must be there"""
        if not isinstance(t, dict):
            return "makes the status %r" % (t,)
        if ("error" in t) != err:
            return "reports %s error" % ("no" if err else "an")
        rest = {k: v for k, v in t.items() if k != "error"}
        want = dict(before, **extra)
        if set(rest) != set(want):
            return "makes the status %r" % (t,)
        for k, v in want.items():
            x = rest[k]
            if isinstance(v, tuple) and isinstance(x, tuple) and v[0] == x[0] == "i":
                if not (x[1] is v[1] or narrow(x[1]) is v[1] and v[1] is not ROWID):
                    return "reports %r as %s" % (x[1], k)
            elif v != "any" and v != x:
                return "reports %r as %s" % (x, k)
        return None

    def insert(self, how, key, idp):
        fn = "cee_sqlite3_insert"
        w, info, d = self.world()
        arg, cell, before = self.status(w, how)
        old = av(A.atom("arg", 1998, "old"))
        x = w.cell_of(old, 4, "i32") if idp else ZERO
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self.INS), arg, w.cstr("newid") if key else ZERO, x], "insert"):
            bad, xs = self.judge(w, p, es, r, cell, before, lambda done: None if done else self.INS)
            good = not bad and self.rc(xs[0]) == DONE
            if not bad and cell is not None:
                bad = self.state_bad(self.result(w, p, cell), before, not good, {"newid" if key else "last_insert_rowid": ("i", ROWID)} if good else {})
            if not bad and idp:
                g = w.at(p.st, x, 4, "i32")
                if (narrow(g) is not ROWID) if good else (g is not old):
                    bad = "stores the id %r" % g
            if not bad and good and (cell is not None or idp) and not self.after(es, xs[0], "rowid"):
                bad = "asks for the row id at the wrong time"
            self.check(not bad, "insert", fn, "%s after %s" % (bad, Q.story(es)))

    def delete(self, how, key):
        fn = "cee_sqlite3_delete"
        w, info, d = self.world()
        arg, cell, before = self.status(w, how)
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.cstr(self.DEL), arg, w.cstr("gone") if key else ZERO], "delete"):
            bad, xs = self.judge(w, p, es, r, cell, before, lambda done: None if done else self.DEL)
            good = not bad and self.rc(xs[0]) == DONE
            if not bad and cell is not None:
                bad = self.state_bad(self.result(w, p, cell), before, not good, {"gone" if key else "deleted": ("i", CHANGES)} if good else {})
            if not bad and good and cell is not None and not self.after(es, xs[0], "changes"):
                bad = "counts the rows at the wrong time"
            self.check(not bad, "delete", fn, "%s after %s" % (bad, Q.story(es)))

    def update(self, fn, found, upd, how, ins="static"):
        w, info, d = self.world(found)
        kw = dict(table_name="t", select_stmt=self.SEL, insert_stmt=self.INS)
        if upd in ("static", "both"):
            kw["update_stmt"] = self.UPD
        if upd in ("dynamic", "both"):
            kw["update_stmt_x"] = self.UPDX
        update = self.UPD if upd in ("static", "both") else self.UPDX if upd == "dynamic" else None
        if ins == "dynamic":
            kw.update(insert_dynamic=1, insert_stmt_x=self.INSX)
        insert = self.INSX if ins == "dynamic" else self.INS
        arg, cell, before = self.status(w, how)
        inserting = fn.endswith("update_or_insert")

        def plan(done):
            if not done:
                return self.SEL
            rc = self.rc(done[0])
            if len(done) == 1 and rc == ROW:
                return update
            if len(done) == 1 and rc == DONE and inserting:
                return insert
            return None
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.stmts(**kw), arg], "update", aborts=upd == "none" and how == "none"):
            xs = Q.executions(es)
            nothing = upd == "none" and found and xs and self.rc(xs[0]) == ROW
            bad, xs = self.judge(w, p, es, const(ROW) if nothing and r is const(DONE) else r, cell, before, plan)
            if not bad and cell is not None:
                rc = [self.rc(x) for x in xs]
                err = rc[0] not in (ROW, DONE) or len(rc) > 1 and rc[1] != DONE
                extra = {}
                if nothing:
                    extra["warning"] = "any"
                if len(xs) > 1 and not err:
                    if xs[1].sql == insert:
                        extra["last_insert_rowid"] = ("i", ROWID)
                        if not self.after(es, xs[1], "rowid"):
                            bad = "asks for the row id at the wrong time"
                    elif not inserting:
                        extra["updated_rows"] = ("i", CHANGES)
                        if not self.after(es, xs[1], "changes"):
                            bad = "counts the rows at the wrong time"
                bad = bad or self.state_bad(self.result(w, p, cell), before, err, extra)
            self.check(not bad, "update", fn, "%s after %s" % (bad, Q.story(es)))

    def select_or_insert(self, found, how, ins):
        fn = "cee_sqlite3_select1_or_insert"
        w, info, d = self.world(found)
        kw = dict(table_name="t", select_stmt=self.SEL, insert_stmt=self.INS)
        if ins == "dynamic":
            kw.update(insert_dynamic=1, insert_stmt_x=self.INSX)
        insert = self.INSX if ins == "dynamic" else self.INS
        arg, cell, before = self.status(w, how)
        for p, es, r in self.paths(w, fn, [w.cs, info, d, w.stmts(**kw), arg], "select1_or_insert"):
            xs = Q.executions(es)
            bad = None
            if not xs or xs[0].sql != self.SEL:
                bad = "runs %s" % xs
            bad = bad or self.step_bad(w, p, xs[0], self.SEL)
            rc0 = self.rc(xs[0]) if not bad else None
            more = not bad and rc0 == DONE and not found
            if not bad and len(xs) != 1 + int(bool(more)):
                bad = "runs %s" % [x.sql for x in xs]
            bad = bad or (more and self.step_bad(w, p, xs[1], insert)) or None
            last = xs[-1] if xs else None
            if not bad and r is not const(self.rc(last)):
                bad = "returns %r" % r
            if not bad and cell is not None:
                t = self.result(w, p, cell)
                if self.rc(last) != DONE:
                    bad = self.state_bad(t, before, True, {})
                elif more:
                    bad = self.state_bad(t, before, False, {"last_insert_rowid": ("i", ROWID)})
                    if not bad and not self.after(es, xs[1], "rowid"):
                        bad = "asks for the row id at the wrong time"
                else:
                    row = rowtree(w, self.SEL, 0, {})
                    if t != dict(before, **row):
                        bad = "gives %s instead of %s" % (t, dict(before, **row))
            self.check(not bad, "select1_or_insert", fn, "%s after %s" % (bad, Q.story(es)))

    def array(self, elems):
        fn = "cee_sqlite3_insert_json_array"
        w = SW(self.c)
        j = w.make(elems)
        src = w.jtree(j)
        for p, es, r in self.paths(w, fn, [w.cs, w.cstr("tab"), j], "array"):
            xs = Q.executions(es)
            bad = None
            if len(xs) != len(elems):
                bad = "runs %d statements for %d elements" % (len(xs), len(elems))
            for x, want in zip(xs, src):
                m = re.match(r"\s*insert\s+into\s+(\w+)\s*\((.*?)\)\s*values\s*\((.*?)\)\s*;?\s*$", x.sql, re.S | re.I)
                if not m or m.group(1) != "tab":
                    bad = bad or "runs '%s'" % x.sql
                    continue
                cols = [y.strip() for y in m.group(2).split(",")]
                vals = [y.strip() for y in m.group(3).split(",")]
                if len(cols) != len(vals) or sorted(cols) != sorted(want):
                    bad = bad or "inserts %s for %s" % (x.sql, want)
                    continue
                if not x.h.t:
                    continue
                for col, val in zip(cols, vals):
                    b = (x.binds or {}).get(val)
                    v = want[col]
                    if val.lower() == "null" or b is None or b[0] == "null":
                        ok = v is None and (val.lower() == "null" or val in w.names[x.h])
                    elif b[0] == "int64":
                        ok = isinstance(v, tuple) and b[1] is v[1]
                    elif b[0] == "text":
                        ok = isinstance(v, str) and w.know(p.st, b[1]) == v and b[2].c in (-1, len(v))
                    else:
                        ok = False
                    if not ok:
                        bad = bad or "gives the column %s %s instead of %s" % (col, b or val, v)
                if x.h.t and len(x.steps) != 1:
                    bad = bad or "steps '%s' %d times" % (x.sql, len(x.steps))
            t = w.jtree(j, p.st)
            if not bad and t != src:
                bad = "changes the array"
            self.check(not bad, "array", fn, "%s after %s" % (bad, Q.story(es)))
            if self.life:
                made, dels = states(p)
                self.ctx.check(made == dels, "statement", fn + "/states", "makes %d states and deletes %d after %s" % (made, dels, Q.story(es)), self.wh(fn))

    def jobs(self, thorough):
        out = []
        for how in ("none", "fresh", "object"):
            for key in (0, 1):
                out.append(lambda a=(how, key): self.delete(*a))
                for i in (0, 1):
                    out.append(lambda a=(how, key, i): self.insert(*a))
            for found in (0, 1):
                for upd in ("static", "dynamic", "both", "none"):
                    for fn in ("cee_sqlite3_update", "cee_sqlite3_update_if_exists"):
                        out.append(lambda a=(fn, found, upd, how): self.update(*a))
                    for ins in ("static", "dynamic"):
                        out.append(lambda a=("cee_sqlite3_update_or_insert", found, upd, how, ins): self.update(*a))
                for ins in ("static", "dynamic"):
                    out.append(lambda a=(found, how, ins): self.select_or_insert(*a))
        for e in ([], [{"a": 1}], [{"a": 1, "b": "x", "c": None}], [{"c": "x", "b": 1, "a": None}, {"a": 5}, {"b": None, "a": "y"}], [{"a": None}], [{"a": 3, "c": 4}, {"b": "q", "c": "r"}],
                  [{"k%d" % i: (i if i % 2 else "s%d" % i) for i in range(53)}]):
            out.append(lambda e=e: self.array(e))
        return out


ROWID = av(A.atom("arg", 912, "rowid"))
CHANGES = av(A.atom("arg", 910, "changes"))


def states(p):
    """states made and deleted by a path (deletions of other values do not count)"""
    made = [e.ret.t[0][0] for e in p.ev if e.kind == "alloc" and e.inst is not None and e.inst.fn.name == "cee_state_mk"]
    dels = [e for e in p.ev if e.kind == "call" and e.name in K.DELETERS and any(len(a.t) == 1 and a.t[0][0] in made for a in e.args)]
    return len(made), len(dels)


# ---------------------------------------------------------------------- statements made from JSON
OPF = av(A.atom("fn", "sa_op"))


class Driven(Base):
    def members(self, t):
        return {k: v for k, v in t.items()}

    def right(self, spec, v):
        return isinstance(v, int) if spec["type"] in ("INT", "INT64") else isinstance(v, str)

    def data_at(self, w, st, d, i):
        L, n = w.c.L, "cee_sqlite3_bind_data"
        q = vadd(d, const(i * L.size(n)))
        g = lambda m, s, ty: w.at(st, vadd(q, const(L.off(n, m))), s, ty)
        return {"has": g("has_value", 4, "i32"), "null": g("is_null", 4, "i32"), "i": g("i", 4, "i32"), "i64": g("i64", 8, "i64"), "value": g("value", 8, "ptr"), "size": g("size", 8, "i64")}

    def datum_bad(self, w, st, x, spec, member, old, there):
        """is the datum what the member (or the old value) makes it?"""
        if not there or member is None and spec.get("not_null") or member is not None and not self.right(spec, member):
            if x["has"] is not const(int(old is not None)):
                return "a parameter without a value from the JSON has_value %r" % x["has"]
            if not there and isinstance(old, tuple) and not (x["i"] is old[0] and x["i64"] is old[1] and x["value"] is old[2] and x["null"] is ZERO):
                return "changes the value of a parameter that the JSON does not have"
            return None
        if not x["has"].is_const() or x["has"].c == 0:
            return "has no value for %s" % spec["col"]
        if member is None:
            return None if x["null"].is_const() and x["null"].c else "%s is not null" % spec["col"]
        if x["null"] is not ZERO:
            return "%s is null" % spec["col"]
        if spec["type"] == "INT":
            ok = narrow(x["i"]) is w.num(member)
        elif spec["type"] == "INT64":
            ok = x["i64"] is w.num(member)
        else:
            ok = w.know(st, x["value"]) == member and x["size"] is ZERO
        return None if ok else "%s has the wrong value" % spec["col"]

    def populate(self, specs, js, olds, lists):
        fn = "cee_sqlite3_bind_data_from_json"
        w = SW(self.c)
        info, d, j = w.infos(specs), w.datas(olds), w.make(js)
        src = w.jtree(j)
        cells = [w.cell_of() if x == "fresh" else w.cell_of(w.make(["z"])) if x == "old" else ZERO for x in lists]
        cols = [s["col"] for s in specs]
        wrong = [k for k, v in js.items() if k in cols and v is not None and not self.right(specs[cols.index(k)], v)]
        for p, es, r in self.paths(w, fn, [info, d, j] + cells, "populate"):
            bad = None
            if not wrong or len(js) == 1:
                for i, s in enumerate(specs):
                    bad = bad or self.datum_bad(w, p.st, self.data_at(w, p.st, d, i), s, js.get(s["col"]), olds[i], s["col"] in js)
            else:
                for k in wrong:
                    i = cols.index(k)
                    bad = bad or self.datum_bad(w, p.st, self.data_at(w, p.st, d, i), specs[i], js[k], olds[i], True)
            used = [k for k, v in js.items() if k in cols and k not in wrong and not (v is None and specs[cols.index(k)].get("not_null"))]
            unused = [k for k in js if k not in cols]
            for name, cell, how, want in zip(("used", "unused", "errors"), cells, lists, (used, unused, None)):
                if how == "none" or bad:
                    continue
                t = w.jtree(w.at(p.st, cell), p.st)
                t = t if isinstance(t, list) else [t]
                if how == "old":
                    if t[:1] != ["z"]:
                        bad = "drops the caller's list"
                    t = t[1:]
                if want is not None and not wrong and sorted(map(str, t)) != sorted(want):
                    bad = bad or "reports %s as %s keys instead of %s" % (t, name, want)
                if want is None and bool(t) != bool(wrong):
                    bad = bad or "reports the errors %s" % t
            if not bad and w.jtree(j, p.st) != src:
                bad = "changes the JSON"
            self.check(not bad, "populate", fn, "%s for %s" % (bad, js))

    def infos_from(self, js):
        fn = "cee_json_to_bind_info"
        w = SW(self.c)
        j = w.make(js)
        L, n = w.c.L, "cee_sqlite3_bind_info"
        for p, es, r in self.paths(w, fn, [j], "info"):
            got = {}
            bad = None
            en = {w.c.en["CEE_SQLITE3_" + t]: t for t in TYPES}
            for i in range(len(js) + 1):
                q = vadd(r, const(i * L.size(n)))
                var = w.at(p.st, vadd(q, const(L.off(n, "var_name"))))
                if not var.t:
                    break
                t = w.at(p.st, vadd(q, const(L.off(n, "type"))), 4, "i32")
                dd = vadd(q, const(L.off(n, "data")))
                x = self.data_at(w, p.st, dd, 0)
                v, col = w.know(p.st, var), w.know(p.st, w.at(p.st, vadd(q, const(L.off(n, "col_name")))))
                ty = en.get(t.c) if t.is_const() else None
                if x["has"] is not ONE or x["null"] is not ZERO:
                    bad = "has no value for %s" % v
                if v != "@%s" % col:
                    bad = bad or "gives the column %s the parameter %s" % (col, v)
                if col in got:
                    bad = bad or "has %s twice" % col
                got[col] = (ty, x)
            else:
                bad = "has no end"
            want = {k: v for k, v in js.items() if v is not None}
            if not bad and sorted(map(str, got)) != sorted(want):
                bad = "has parameters for %s instead of %s" % (sorted(map(str, got)), sorted(want))
            for k, v in want.items():
                if bad:
                    break
                ty, x = got[k]
                ok = (ty == "INT64" and x["i64"] is w.num(v)) if isinstance(v, int) else ty == "TEXT" and w.know(p.st, x["value"]) == v and x["size"] is ZERO
                if not ok:
                    bad = "gives %s the wrong value or type" % k
            self.check(not bad, "info", fn, "%s for %s" % (bad, js))

    # --- the operation
    def expect(self, specs, js, olds, wrong=()):
        """-> insert and update assignments"""
        ins, upd = [], []
        for s, old in zip(specs, olds):
            there = s["col"] in js
            v = js.get(s["col"])
            got = there and s["col"] not in wrong and not (v is None and s.get("not_null"))
            has = got or old is not None or s.get("default") is not None
            if has or s.get("not_null"):
                ins.append((s["col"], s["var"]))
            if there and has and not s.get("no_update"):
                upd.append((s["col"], s["var"]))
        return ins, upd

    def insert_text(self, t, table, pairs):
        m = re.match(r"\s*insert\s+into\s+(\w+)\s*\((.*?)\)\s*values\s*\((.*?)\)\s*;?\s*$", t or "", re.S | re.I)
        if not m or m.group(1) != table:
            return False
        a, b = ([y.strip() for y in m.group(k).split(",") if y.strip()] for k in (2, 3))
        return len(a) == len(b) and sorted(zip(a, b)) == sorted(pairs)

    def update_text(self, t, pairs):
        m = re.match(r"update tab set (.*) where id=@id$", t or "", re.S)
        if not m:
            return False
        return sorted(tuple(z.strip() for z in y.split("=")) for y in m.group(1).split(",")) == sorted(pairs)

    def opcode(self, specs, js, olds, how, dyn, tmpl):
        fn = "cee_sqlite3_generic_opcode"
        w = SW(self.c)
        info = w.infos(specs) if specs is not None else ZERO
        d = w.datas(olds) if specs is not None else ZERO
        j = w.make(js)
        kw = dict(table_name="tab", select_stmt="select 1")
        if dyn:
            kw["insert_dynamic"] = 1
        else:
            kw["insert_stmt"] = "insert fixed"
        if tmpl:
            kw["update_template"] = "update tab set %s where id=@id"
        sm = w.stmts(**kw)
        arg, cell, before = self.status(w, how)
        L, n = w.c.L, "cee_sqlite3_stmt_strs"
        rc = av(A.atom("arg", 1996, "rc"))

        def op(it, I, name, args, st):
            f = lambda m: w.at(st, vadd(args[3], const(L.off(n, m))))
            w.say(st, I, "op", args=args, ins=f("insert_stmt_x"), upd=f("update_stmt_x"), it=w.know(st, f("insert_stmt_x")), ut=w.know(st, f("update_stmt_x")))
            return [("ret", rc, st)]
        w.it.models["sa_op"] = op
        cols = [s["col"] for s in specs] if specs is not None else [k for k, v in js.items() if v is not None]
        wrong = [k for k, v in js.items() if specs is not None and k in cols and v is not None and not self.right(specs[cols.index(k)], v)]
        if specs is None:
            sp = [dict(var="@" + k, col=k, type="TEXT", default=1) for k in cols]
            ins, upd = self.expect(sp, js, [None] * len(sp))
        else:
            ins, upd = self.expect(specs, js, olds, wrong)
        for p, es, r in self.paths(w, fn, [w.cs, j, info, d, sm, arg, OPF], "opcode"):
            ops = [e for e in es if e.what == "op"]
            bad = None
            if len(ops) != 1:
                bad = "runs the operation %d times" % len(ops)
            elif r is not rc:
                bad = "returns %r" % r
            else:
                a = ops[0].args
                if a[0] is not w.cs or a[3] is not sm or a[4] is not arg or a[2] is not d or (specs is not None and a[1] is not info) or (specs is None and not a[1].t):
                    bad = "does not hand on its arguments"
                elif dyn and (not wrong or len(js) == 1) and not self.insert_text(ops[0].it, "tab", ins):
                    bad = "inserts with '%s' instead of %s" % (ops[0].it, ins)
                elif not dyn and ops[0].ins.t:
                    bad = "makes an insert statement that is not wanted"
                elif tmpl and (not wrong or len(js) == 1) and (not self.update_text(ops[0].ut, upd) if upd else ops[0].upd.t):
                    bad = "updates with '%s' instead of %s" % (ops[0].ut, upd)
                elif not tmpl and ops[0].upd.t:
                    bad = "makes an update statement that is not wanted"
            if not bad and specs is not None and (not wrong or len(js) == 1):
                for i, s in enumerate(specs):
                    bad = bad or self.datum_bad(w, p.st, self.data_at(w, p.st, d, i), s, js.get(s["col"]), olds[i], s["col"] in js)
            if not bad and cell is not None:
                t = self.result(w, p, cell)
                if not isinstance(t, dict) or any(t.get(k) != v for k, v in before.items()):
                    bad = "makes the status %r" % (t,)
                elif ("error" in t) != bool(wrong):
                    bad = "reports %s error" % ("no" if wrong else "an")
                elif set(t) - set(before) - {"error", "debug"}:
                    bad = "makes the status %r" % (t,)
            self.check(not bad, "opcode", fn, "%s for %s" % (bad, js))

    def ops(self, fn, found):
        """an operation from JSON to the statements that run"""
        w = SW(self.c)
        sel = "select c from tab where id=@id"
        w.rows[sel] = [[("c", "INTEGER")]] * found
        specs = [dict(var="@id", col="id", type="INT64", no_update=1), dict(var="@a", col="a", type="TEXT"), dict(var="@b", col="b", type="INT")]
        js = {"id": 1, "a": "x", "b": 2, "other": 5}
        L, n = w.c.L, "cee_sqlite3_db_op"
        op = w.obj("op")
        K.put(w.st, vadd(op, const(L.off(n, "stmts"))), w.stmts(table_name="tab", select_stmt=sel, insert_dynamic=1, update_template="update tab set %s where id=@id"), 8, None, "ptr")
        K.put(w.st, vadd(op, const(L.off(n, "info"))), w.infos(specs), 8, None, "ptr")
        K.put(w.st, vadd(op, const(L.off(n, "data"))), w.datas([None] * 3), 8, None, "ptr")
        j = w.make(js)
        for how in ("fresh", "none"):
            if fn == "cee_sqlite3_select_op" and how == "fresh":
                continue
            arg, cell, before = self.status(w, how)
            for p, es, r in self.paths(w, fn, [w.cs, op, j, arg], "ops"):
                xs = Q.executions(es)
                bad = None
                for k, x in enumerate(xs):
                    first = k == 0 and "insert_op" != fn[-9:] or fn == "cee_sqlite3_update_or_insert_op" and k == 0
                    if fn == "cee_sqlite3_insert_op":
                        ok = k == 0 and self.insert_text(x.sql, "tab", [("id", "@id"), ("a", "@a"), ("b", "@b")])
                    elif k == 0:
                        ok = x.sql == sel
                    elif fn == "cee_sqlite3_select_op":
                        ok = False
                    elif found:
                        ok = k == 1 and self.update_text(x.sql, [("a", "@a"), ("b", "@b")])
                    else:
                        ok = k == 1 and fn == "cee_sqlite3_update_or_insert_op" and self.insert_text(x.sql, "tab", [("id", "@id"), ("a", "@a"), ("b", "@b")])
                    if not ok:
                        bad = "runs '%s'" % x.sql
                        break
                    if x.h.t:
                        for name in w.names[x.h]:
                            b = (x.binds or {}).get(name)
                            v = js[name[1:]]
                            if not (b and (b[0] == "text" and w.know(p.st, b[1]) == v if isinstance(v, str) else b[0] in ("int", "int64") and narrow(b[1]) is w.num(v))):
                                bad = "binds %s to %s" % (name, b)
                if not bad:
                    rcs = [(x.steps[-1] if x.steps else None) if x.h.t else ERROR for x in xs]
                    if not xs:
                        bad = "runs nothing"
                    elif len(xs) == 1 and fn != "cee_sqlite3_insert_op" and fn != "cee_sqlite3_select_op" and (rcs[0] == ROW or rcs[0] == DONE and fn == "cee_sqlite3_update_or_insert_op"):
                        bad = "stops after '%s'" % xs[0].sql
                    elif r is not const(rcs[-1]):
                        bad = "returns %r" % r
                    elif cell is not None:
                        t = self.result(w, p, cell)
                        fine = rcs[-1] in (DONE, ROW)
                        if not isinstance(t, dict) or ("error" in t) == fine:
                            bad = "makes the status %s" % (t,)
                        elif fine and fn == "cee_sqlite3_insert_op" and not (isinstance(t.get("id"), tuple) and t["id"][1] is ROWID):
                            bad = "makes the status %s" % (t,)
                self.check(not bad, "ops", fn, "%s after %s" % (bad, Q.story(es)))

    def new_op(self, k):
        fn = "new_cee_sqlite3_db_op"
        w = SW(self.c)
        L, n = w.c.L, "cee_sqlite3_db_op"
        op = w.obj("op")
        vals = {m: w.obj(m) for m in ("stmts", "info", "data")}
        for m, v in vals.items():
            K.put(w.st, vadd(op, const(L.off(n, m))), v, 8, None, "ptr")
        size = L.size("cee_sqlite3_bind_data")
        for p, es, r in self.paths(w, fn, [w.state, op, k * L.size("cee_sqlite3_bind_info")], "new"):
            g = lambda q, m: w.at(p.st, vadd(q, const(L.off(n, m))))
            bad = None
            if r is op or g(r, "stmts") is not vals["stmts"] or g(r, "info") is not vals["info"]:
                bad = "does not copy the operation"
            d = g(r, "data")
            if not bad and (d is vals["data"] or not d.t):
                bad = "shares the data"
            if not bad and any(g(op, m) is not v for m, v in vals.items()):
                bad = "changes the original"
            for i in range(k):
                if bad:
                    break
                x = self.data_at(w, p.st, d, i)
                if x["has"] is not ZERO or x["null"] is not ZERO:
                    bad = "does not start without values"
            b = p.st.sizes.get(d.t[0][0]) if not bad and d.t else None
            if not bad and (b is None or not b.is_const() or b.c - d.c < k * size):
                bad = "has room for %s bytes of %d values" % (b, k)
            self.check(not bad, "new", fn, bad)

    def jobs(self, thorough):
        out = []
        kinds = [dict(var="@a", col="a", type=t, not_null=nn) for t in ("INT", "INT64", "TEXT") for nn in (0, 1)]
        N = ("fresh", "fresh", "fresh")
        i0 = (av(A.atom("arg", 801, "o.i")), av(A.atom("arg", 802, "o.i64")), vadd(K.obj("oldvalue"), const(256)), ZERO)
        for s in kinds:
            for v in (1, "x", None):
                for old in (None, "null", i0):
                    for ls in (N, ("none",) * 3, ("old", "none", "old")):
                        out.append(lambda a=([s], {"a": v}, [old], ls): self.populate(*a))
                    for how in ("none", "fresh", "object"):
                        out.append(lambda a=([s], {"a": v}, [old], how, 1, 1): self.opcode(*a))
        out.append(lambda: self.populate([dict(var="@a", col="a", type="BLOB")], {"a": 1}, [None], ("none",) * 3))
        abc = [dict(var="@a", col="a", type="INT"), dict(var="@bb", col="b", type="TEXT"), dict(var="@c", col="c", type="INT64", not_null=1), dict(var="@id", col="id", type="INT64", no_update=1)]
        jss = [{}, {"a": 1}, {"b": "x", "a": 2}, {"c": 3, "b": None, "a": 4}, {"a": 5, "b": "y", "c": 6, "id": 7}, {"zz": 1}, {"id": 1, "zz": "q", "b": "w"}, {"c": None, "id": None}, {"id": 9},
               {"a": None, "b": None}, {"b": 3, "a": 1}]
        for js in jss:
            for olds in ([None] * 4, [i0, None, "null", i0]):
                for ls in (N, ("none",) * 3, ("old",) * 3, ("fresh", "none", "none"), ("none", "fresh", "none")):
                    out.append(lambda a=(abc, js, olds, ls): self.populate(*a))
                for how in ("none", "fresh", "object"):
                    for dyn in (0, 1):
                        for t in (0, 1):
                            out.append(lambda a=(abc, js, olds, how, dyn, t): self.opcode(*a))
            dflt = [dict(s, default=i0) if s["col"] in "ab" else s for s in abc]
            out.append(lambda a=(dflt, js, [None] * 4, "fresh", 1, 1): self.opcode(*a))
            if not any(isinstance(v, bool) for v in js.values()):
                out.append(lambda js=js: self.infos_from(js))
                for how in ("none", "fresh"):
                    for dyn in (0, 1):
                        for t in (0, 1):
                            out.append(lambda a=(None, js, [], how, dyn, t): self.opcode(*a))
        for found in (0, 1):
            for fn in ("insert", "update", "update_if_exists", "update_or_insert", "select"):
                out.append(lambda a=("cee_sqlite3_%s_op" % fn, found): self.ops(*a))
        for k in (0, 1, 3):
            out.append(lambda k=k: self.new_op(k))
        return out


# ---------------------------------------------------------------------- databases
class Open(Base):
    def init(self, have, script, tr):
        fn = "cee_sqlite3_init_db"
        w = SW(self.c)
        w.other = True
        s = ZERO if have == "none" else w.cell_of(w.db if have == "db" else ZERO)
        try:
            ps = w.go(fn, [s, w.cstr("file"), w.cstr("create x") if script else ZERO, tr])
        except (A.NoEnd, S.Many) as e:
            self.ctx.check(False, "init", fn + "/end", "does not end", self.wh(fn))
            return
        self.ctx.used(w.it)
        if w.null:
            self.check(False, "init", fn + "/null", w.null)
        for p in ps:
            es = Q.events(p.st)
            opens = [e for e in es if e.what == "open"]
            closes = [e for e in es if e.what == "close"]
            runs = [e for e in es if e.what == "exec"]
            db = w.db if have == "db" else opens[0].db if opens and opens[0].ok else None
            bad = None
            if len(opens) != int(have != "db") or any(e.file != "file" for e in opens):
                bad = "opens %d times" % len(opens)
            want = []
            if db is not None and script:
                want = ["begin"] * tr + ["script"] + ["commit"] * tr
            names = [re.sub(r"\s*transaction\s*", "", e.sql.lower()).strip(" ;") if e.sql != "create x" else "script" for e in runs]
            names = ["commit" if x == "end" else x for x in names]
            failed = next((i for i, e in enumerate(runs) if not e.ok), None)
            rest = []
            if failed is not None:
                rest, names = names[failed + 1:], names[:failed + 1]
            if not bad and names != want[:len(names)]:
                bad = "runs %s" % [e.sql for e in runs]
            if not bad and failed is None and len(names) != len(want):
                bad = "stops after %s" % [e.sql for e in runs]
            if not bad and any(x != "rollback" for x in rest):
                bad = "runs %s after a failure" % rest
            if not bad and any(e.db is not db for e in runs):
                bad = "runs on another database"
            if not bad and len(set(e.db for e in closes)) != len(closes):
                bad = "closes twice"
            if not bad and any(es.index(c) < es.index(e) for c in closes for e in runs + [x for x in es if x.what == "errmsg"] if e.db is c.db):
                bad = "uses a database after closing it"
            if p.kind == "ret":
                cell = w.at(p.st, s) if s.t else None
                if not bad and failed is not None:
                    bad = "returns although the script failed"
                if not bad and opens and not opens[0].ok and not closes:
                    bad = "keeps the handle of a file that cannot be opened"
                if not bad and db is not None and have == "none" and [c.db for c in closes] != [db]:
                    bad = "leaves the database open"
                if not bad and db is not None and have != "none" and (closes or cell is not db):
                    bad = "gives %r" % cell
                if not bad and db is None and s.t and cell.t:
                    bad = "gives a database that is not open"
            elif not bad and failed is None:
                bad = "stops although nothing failed"
            self.check(not bad, "init", fn, "%s after %s" % (bad, Q.story(es)))

    def pragma(self):
        fn = "cee_sqlite3_get_pragma_variable"
        w = SW(self.c)
        w.rows["PRAGMA name;"] = [[("name", "INTEGER")]]
        for p, es, r in self.paths(w, fn, [w.db, w.cstr("name")], "pragma"):
            xs = Q.executions(es)
            bad = None
            if len(xs) != 1 or xs[0].sql.lower().strip(" ;") != "pragma name":
                bad = "runs %s" % xs
            elif xs[0].h.t and xs[0].steps and xs[0].steps[0] == ROW:
                bad = None if narrow(r) is w.col(xs[0].sql, 0, 0) else "gives %r" % r
            elif r is not ZERO:
                bad = "gives %r for a query that fails" % r
            self.check(not bad, "pragma", fn, "%s after %s" % (bad, Q.story(es)))

    def attach(self, fn, args, want):
        w = SW(self.c)
        w.other = False
        b = w.obj("buf")
        e_ = w.cell_of()
        for p, es, r in self.paths(w, fn, [w.cs] + [w.cstr(a) for a in args] + [b, 200, e_], "attach"):
            x = [e for e in es if e.what == "exec"]
            bad = None
            if len(x) != 1 or not re.match(want, x[0].sql):
                bad = "runs %s" % [e.sql for e in x]
            elif r is not (const(OK) if x[0].ok else const(ERROR)):
                bad = "returns %r" % r
            elif x[0].ok == bool(w.at(p.st, e_).t):
                bad = "does not hand on the message"
            self.check(not bad, "attach", fn, bad)

    def drop(self):
        fn = "cee_sqlite3_drop_all_tables"
        w = SW(self.c)
        for p, es, r in self.paths(w, fn, [w.cell_of(w.db), w.cstr("file")], "init", aborts=True):
            x = [e.sql.lower() for e in es if e.what == "exec"]
            ok = len(x) == 3 and x[0].startswith("begin") and "delete from sqlite_master" in x[1] and x[2].startswith(("commit", "end")) or len(x) == 1 and "delete from sqlite_master" in x[0]
            self.check(ok, "init", fn, "runs %s" % x)

    def jobs(self, thorough):
        out = []
        for have in ("none", "fresh", "db"):
            for script in (0, 1):
                for tr in (0, 1):
                    out.append(lambda a=(have, script, tr): self.init(*a))
        out.append(self.pragma)
        out.append(self.drop)
        out.append(lambda: self.attach("cee_sqlite3_attach_db", ["other.db", "o"], r'attach database ["\']/dir/other\.db["\'] as o\s*;?\s*$'))
        out.append(lambda: self.attach("cee_sqlite3_detach_db", ["o"], r"detach (database )?['\"]?o['\"]?\s*;?\s*$"))
        return out
