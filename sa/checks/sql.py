"""The SQLite layer on materialised heaps: SQLite's own functions are models with every outcome they can have."""
import re

import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import p17

OK, ERROR, CONSTRAINT, MISUSE, ROW, DONE = 0, 1, 19, 21, 100, 101
TYPES = {"INTEGER": 1, "FLOAT": 2, "TEXT": 3, "BLOB": 4, "NULL": 5}
BLOB = 3                        # bytes of a blob in a row
ROWF = av(A.atom("fn", "sa_row"))


def text_of(b):
    return b.decode("latin1")


class W(p17.W):
    """statements are told apart by their text; `rows` gives the rows of a text, `fails` the calls that may fail"""

    def __init__(self, c):
        p17.W.__init__(self, c)
        m = self.it.models
        for n in dir(self):
            if n.startswith("_m_"):
                m[n[3:]] = getattr(self, n)
        for a, b in (("__sprintf_chk", "sprintf"), ("sqlite3_prepare_v3", "sqlite3_prepare_v2"), ("sqlite3_prepare", "sqlite3_prepare_v2"), ("sqlite3_close_v2", "sqlite3_close"),
                     ("sqlite3_changes64", "sqlite3_changes"), ("sqlite3_bind_text64", "sqlite3_bind_text"), ("sqlite3_bind_blob64", "sqlite3_bind_blob")):
            if b in m:
                m.setdefault(a, m[b])
        m["cee_str_catf"] = self._catf
        m["cee_json_select"] = self._select
        m["cee_json_asprint"] = self._aprint
        m["sa_row"] = self._row
        self.sqlof = {}           # statement -> its text
        self.names = {}           # statement -> names of its parameters
        self.rows = {}            # text -> rows, each a list of (name, type)
        self.cols = {}            # (statement, row, column) -> value
        self.fails = None         # None: everything may fail; else the set of (call, text) that may
        self.stop_at = None
        L = c.L
        self.cs = self.obj("cs")
        self.db = self.obj("db")
        for i, ch in enumerate("main\0"):
            K.put(self.st, vadd(self.cs, const(L.off("cee_sqlite3", "db_name") + i)), const(ord(ch)), 1, None, "i8")
        K.put(self.st, vadd(self.cs, const(L.off("cee_sqlite3", "db"))), self.db, 8, None, "ptr")
        K.put(self.st, vadd(self.cs, const(L.off("cee_sqlite3", "state"))), self.state, 8, None, "ptr")
        self.ctype = None
        self.null = None
        access = self.it.access

        def watch(st, I, addr, size, kind):
            access(st, I, addr, size, kind)
            if addr.t:
                n = st.sizes.get(addr.t[0][0]) if len(addr.t) == 1 and addr.t[0][1] == 1 else None
                if n is not None and n.is_const() and addr.t[0][0].kind in ("heap", "alloca") and not 0 <= addr.c <= n.c - size:
                    self.null = self.null or "%ss %d bytes at %d of %d at %s:%d" % ((kind, size, addr.c, n.c) + I.loc())
            elif 0 < addr.c < 4096 or addr.c == 0 and kind == "load":
                # writing to 0 itself is how cee_segfault stops
                self.null = self.null or "%ss through NULL at %s:%d" % ((kind,) + I.loc())
                if I.op == "load":
                    e = A.Wrong("follows a null pointer")
                    e.where = "%s:%d (%s)" % (I.loc() + (I.fn.name,))
                    raise e
        self.it.access = watch

    def say(self, st, I, what, **d):
        self.it.emit(st, "db", I, what=what, **d)

    # ------------------------------------------------------------------ texts
    def write(self, st, p, t):
        for i, ch in enumerate(t + "\0"):
            K.put(st, vadd(p, const(i)), const(ord(ch)), 1, None, "i8")

    def cstr(self, t, st=None):
        p = self.str(t, "text")
        self.write(st or self.st, p, t)
        return p

    def read_text(self, st, p):
        out = []
        for i in range(2000):
            e = st.mem.get(vadd(p, const(i)))
            if e is None or e[1] != 1:
                return None
            v = self.it.reduce(st, e[0])
            if not v.is_const():
                return None
            if v.c & 255 == 0:
                return "".join(out)
            out.append(chr(v.c & 255))
        return None

    def know(self, st, p):
        """text at p: bytes in memory, a constant, or the text of an opaque string"""
        t = self.read_text(st, p)
        return t if t is not None else self.texts(p)

    def format(self, st, f, args):
        """formatted text, or None when an argument is not known"""
        f = self.it.prog.cstring(f) if not isinstance(f, str) else f
        if f is None:
            return None
        f = text_of(f) if isinstance(f, bytes) else f
        args = list(args)
        out, pos = [], 0
        for m in re.finditer(r"%(%|\.\*s|s|c|d|i|ld|lld|u|zu|lu)", f):
            out.append(f[pos:m.start()])
            pos = m.end()
            k = m.group(1)
            if k == "%":
                out.append("%")
                continue
            if not args:
                return None
            a = self.it.reduce(st, args.pop(0))
            if k == ".*s":
                t = self.know(st, args.pop(0)) if args else None
                if not a.is_const() or not isinstance(t, str):
                    return None
                out.append(t[:a.c] if a.c >= 0 else t)
            elif k == "s":
                t = self.know(st, a) if a.t else "(null)"
                if not isinstance(t, str):
                    return None
                out.append(t)
            elif not a.is_const():
                return None
            else:
                out.append(chr(a.c & 255) if k == "c" else str(a.c))
        if "%" in re.sub(r"%(%|\.\*s|s|c|d|i|ld|lld|u|zu|lu)", "", f):
            return None
        return "".join(out) + f[pos:]

    def _fmt(self, it, st, fmt, args):
        t = self.format(st, self.know(st, fmt) if isinstance(self.know(st, fmt), str) else fmt, args)
        return t if t is not None else p17.W._fmt(self, it, st, fmt, args)

    def _new(self, it, st, text):
        r = p17.W._new(self, it, st, text)
        if isinstance(text, str):
            self.write(st, r[0][1], text)
        return r

    def _strcmp(self, it, I, name, args, st):
        a, b = self.know(st, args[0]), self.know(st, args[1])
        if a is None or b is None:
            self.bad.append(("compares %r with %r" % (args[0], args[1]), I.loc()))
            return [("ret", ZERO, st)]
        return [("ret", const(0 if a == b else (-1 if repr(a) < repr(b) else 1)), st)]

    def _strlen(self, it, I, name, args, st):
        t = self.know(st, args[0])
        return [("ret", const(len(t)), st)] if isinstance(t, str) else None

    def _catf(self, it, I, name, args, st):
        t = self.know(st, args[0])
        f = self._fmt(it, st, args[1], args[2:])
        if not isinstance(t, str) or not isinstance(f, str):
            raise A.AnalysisError("cee_str_catf of %r and %r" % (t, f))
        return self._new(it, st, t + f)

    def out(self, st, buf, size, t):
        if buf.t and size:
            t2 = t[:size - 1]
            self.write(st, buf, t2)
        return [("ret", const(len(t)), st)]

    def _m_snprintf(self, it, I, name, args, st):
        t = self.format(st, args[2], args[3:])
        if t is None or not args[1].is_const():
            raise A.AnalysisError("snprintf of %r" % (args[2],))
        if args[0].t and args[1].c:
            self.it.access(st, I, args[0], min(len(t) + 1, args[1].c), "store")
        return self.out(st, args[0], args[1].c, t)

    def _m_sprintf(self, it, I, name, args, st):
        t = self.format(st, args[1], args[2:])
        if t is None:
            raise A.AnalysisError("sprintf of %r" % (args[1],))
        self.it.access(st, I, args[0], len(t) + 1, "store")
        return self.out(st, args[0], len(t) + 1, t)

    def _m_strcasestr(self, it, I, name, args, st):
        a, b = self.know(st, args[0]), self.know(st, args[1])
        if not isinstance(a, str) or not isinstance(b, str):
            raise A.AnalysisError("strcasestr of %r" % a)
        i = a.lower().find(b.lower())
        return [("ret", ZERO if i < 0 else vadd(args[0], const(i)), st)]

    def ncase(self, st, a, b, n, lower):
        a, b = self.know(st, a), self.know(st, b)
        if not isinstance(a, str) or not isinstance(b, str):
            raise A.AnalysisError("comparing %r with %r" % (a, b))
        if n is not None:
            a, b = a[:n], b[:n]
        if lower:
            a, b = a.lower(), b.lower()
        return const((a > b) - (a < b))

    def _m_strncasecmp(self, it, I, name, args, st):
        return [("ret", self.ncase(st, args[0], args[1], args[2].c, True), st)]

    def _m_strcasecmp(self, it, I, name, args, st):
        return [("ret", self.ncase(st, args[0], args[1], None, True), st)]

    def _m_strncmp(self, it, I, name, args, st):
        return [("ret", self.ncase(st, args[0], args[1], args[2].c, False), st)]

    def _m_strrchr(self, it, I, name, args, st):
        t = self.know(st, args[0])
        if not isinstance(t, str):
            raise A.AnalysisError("strrchr of %r" % t)
        i = t.rfind(chr(args[1].c))
        return [("ret", ZERO if i < 0 else vadd(args[0], const(i)), st)]

    def _m_strchr(self, it, I, name, args, st):
        t = self.know(st, args[0])
        if not isinstance(t, str) or not args[1].is_const():
            raise A.AnalysisError("strchr of %r" % t)
        i = t.find(chr(args[1].c)) if args[1].c else len(t)
        return [("ret", ZERO if i < 0 else vadd(args[0], const(i)), st)]

    def _m_strstr(self, it, I, name, args, st):
        a, b = self.know(st, args[0]), self.know(st, args[1])
        if not isinstance(a, str) or not isinstance(b, str):
            raise A.AnalysisError("strstr of %r" % a)
        i = a.find(b)
        return [("ret", ZERO if i < 0 else vadd(args[0], const(i)), st)]

    def _m_strcpy(self, it, I, name, args, st):
        t = self.know(st, args[1])
        if not isinstance(t, str):
            raise A.AnalysisError("strcpy of %r" % (args[1],))
        self.it.access(st, I, args[0], len(t) + 1, "store")
        self.write(st, args[0], t)
        return [("ret", args[0], st)]

    def _m_strcat(self, it, I, name, args, st):
        t, u = self.know(st, args[0]), self.know(st, args[1])
        if not isinstance(t, str) or not isinstance(u, str):
            raise A.AnalysisError("strcat of %r" % (args[1],))
        self.it.access(st, I, args[0], len(t + u) + 1, "store")
        self.write(st, args[0], t + u)
        return [("ret", args[0], st)]

    def _m_tolower(self, it, I, name, args, st):
        if not args[0].is_const():
            raise A.AnalysisError("tolower of %r" % (args[0],))
        return [("ret", const(ord(chr(args[0].c).lower()) if 0 <= args[0].c < 128 else args[0].c), st)]

    def _m___ctype_b_loc(self, it, I, name, args, st):
        """the table of character classes: blanks have the bit of isspace"""
        if self.ctype is None:
            self.ctype = vadd(K.obj("ctype"), const(4096)), K.obj("ctypep")
        t, p = self.ctype
        if p not in st.mem:
            for i in range(-128, 256):
                K.put(st, vadd(t, const(2 * i)), const(8192 if i in (9, 10, 11, 12, 13, 32) else 0), 2, None, "i16")
            K.put(st, p, t, 8, None, "ptr")
        return [("ret", p, st)]

    def _m_isspace(self, it, I, name, args, st):
        return [("ret", const(int(args[0].c in (9, 10, 11, 12, 13, 32))), st)]

    # ------------------------------------------------------------------ JSON
    def _select(self, it, I, name, args, st):
        """cee_json_select for a constant selector (the general one is P18's)"""
        s = self.know(st, args[1])
        if not isinstance(s, str) or not re.fullmatch(r"((\.\w+)|(\[\d+\])|(:[snaob!]))*", s):
            raise A.AnalysisError("selects %r" % (s,))
        j = args[0]
        for n, i, t in re.findall(r"\.(\w+)|\[(\d+)\]|:([snaob!])", s):
            if not j.t:
                break
            kind = self.kind(st, j)
            if n or i:
                ok = kind == ("OBJECT" if n else "ARRAY")
                if ok:
                    p = self.run1("cee_json_object_get", [j, self.cstr(n, st)], st) if n else self.run1("cee_json_array_get", [j, int(i)], st)
                j = it.reduce(p.st, p.ret) if ok else ZERO
            elif kind not in {"s": ("STRING",), "n": ("I64", "U64", "DOUBLE"), "a": ("ARRAY",), "o": ("OBJECT",), "b": ("BOOLEAN",), "!": ("NULL",)}[t]:
                j = ZERO
        return [("ret", j, st)]

    def kind(self, st, j):
        t = self.at(st, vadd(j, const(self.T)), 4, "i32")
        return self.tag.get(t.c) if t.is_const() else None

    def _aprint(self, it, I, name, args, st):
        self.say(st, I, "print", j=args[3])
        it.store(st, args[1], self.obj("printed"), 8, None, "ptr")
        if args[2].t:
            it.store(st, args[2], const(1), 8, None, "i64")
        return [("ret", const(1), st)]

    def jtree(self, j, st=None):
        """JSON value -> dict, list, None, bool, text, ("i", n), ("d", n), ("blob", bytes)"""
        st = st or self.st

        def f(v):
            if v[0] == "OBJECT":
                return {k: f(x) for k, x in v[1:]}
            if v[0] == "ARRAY":
                return [f(x) for x in v[1:]]
            if v[0] == "NULL":
                return None
            if v[0] == "BOOLEAN":
                return bool(v[1])
            if v[0] == "STRING":
                return v[1]
            if v[0] in ("I64", "DOUBLE"):
                return (v[0][0].lower(), v[1])
            if v[0] == "BLOB":
                n = self.quiet("cee_block_size", [v[1]], st)
                return ("blob", tuple(self.at(st, vadd(v[1], const(i)), 1, "i8") for i in range(min(n, 64))))
            return v
        return f(self.value(j, st)) if j.t else "nothing"

    # ------------------------------------------------------------------ the database
    def may(self, call, t):
        return self.fails is None or (call, t) in self.fails

    def _m_sqlite3_prepare_v2(self, it, I, name, args, st):
        t = self.know(st, args[1])
        n = args[2]
        if not isinstance(t, str) or not n.is_const():
            raise A.AnalysisError("prepares %r (%r bytes)" % (t, n))
        if n.c >= 0:
            t = t[:n.c]
        pp = args[4] if name.endswith("v3") else args[3]
        out = []
        if self.may("prepare", t):
            s2 = st.copy()
            self.say(s2, I, "prepare", sql=t, h=ZERO, db=args[0])
            it.store(s2, pp, ZERO, 8, None, "ptr")
            out.append(("ret", const(ERROR), s2))
        h = self.obj("stmt")
        self.sqlof[h] = t
        self.names[h] = list(dict.fromkeys(re.findall(r"[@:$]\w+", t)))
        K.put(st, h, const(-1), 8, None, "i64")
        self.say(st, I, "prepare", sql=t, h=h, db=args[0])
        it.store(st, pp, h, 8, None, "ptr")
        out.append(("ret", const(OK), st))
        return out

    def stmt(self, I, st, h, what):
        if h not in self.sqlof:
            if h.t:
                raise A.Wrong("%s of %r" % (what, h))
            return None
        return self.sqlof[h]

    def _m_sqlite3_bind_parameter_count(self, it, I, name, args, st):
        self.say(st, I, "look", h=args[0])
        t = self.stmt(I, st, args[0], name)
        return [("ret", const(len(self.names[args[0]]) if t is not None else 0), st)]

    def _m_sqlite3_bind_parameter_index(self, it, I, name, args, st):
        self.say(st, I, "look", h=args[0])
        t = self.stmt(I, st, args[0], name)
        n = self.know(st, args[1])
        if not isinstance(n, str):
            raise A.AnalysisError("index of %r" % args[1])
        ns = self.names[args[0]] if t is not None else []
        return [("ret", const(ns.index(n) + 1 if n in ns else 0), st)]

    def _m_sqlite3_bind_parameter_name(self, it, I, name, args, st):
        self.say(st, I, "look", h=args[0])
        self.stmt(I, st, args[0], name)
        ns = self.names[args[0]]
        i = args[1]
        if not i.is_const() or not 1 <= i.c <= len(ns):
            return [("ret", ZERO, st)]
        return [("ret", self.cstr(ns[i.c - 1], st), st)]

    def bind(self, I, st, args, val):
        h, i = args[:2]
        self.stmt(I, st, h, "bind")
        i = self.it.reduce(st, i)
        if not i.is_const():
            raise A.AnalysisError("binds parameter %r" % i)
        n = self.names.get(h, [])
        self.say(st, I, "bind", h=h, name=n[i.c - 1] if 1 <= i.c <= len(n) else None, val=val)
        return [("ret", const(OK), st)]

    def _m_sqlite3_bind_int(self, it, I, name, args, st):
        return self.bind(I, st, args, ("int", it.reduce(st, args[2])))

    def _m_sqlite3_bind_int64(self, it, I, name, args, st):
        return self.bind(I, st, args, ("int64", it.reduce(st, args[2])))

    def _m_sqlite3_bind_double(self, it, I, name, args, st):
        return self.bind(I, st, args, ("double", it.reduce(st, args[2])))

    def _m_sqlite3_bind_null(self, it, I, name, args, st):
        return self.bind(I, st, args, ("null",))

    def _m_sqlite3_bind_text(self, it, I, name, args, st):
        return self.bind(I, st, args, ("text", it.reduce(st, args[2]), it.reduce(st, args[3])))

    def _m_sqlite3_bind_blob(self, it, I, name, args, st):
        return self.bind(I, st, args, ("blob", it.reduce(st, args[2]), it.reduce(st, args[3])))

    def _m_sqlite3_clear_bindings(self, it, I, name, args, st):
        self.say(st, I, "clear", h=args[0])
        return [("ret", const(OK), st)]

    def _m_sqlite3_reset(self, it, I, name, args, st):
        self.say(st, I, "reset", h=args[0])
        K.put(st, args[0], const(-1), 8, None, "i64")
        return [("ret", const(OK), st)]

    def _m_sqlite3_step(self, it, I, name, args, st):
        h = args[0]
        t = self.stmt(I, st, h, name)
        if t is None:
            return [("ret", const(MISUSE), st)]
        rows = self.rows.get(t, [])
        k = self.at(st, h, 8, "i64").c
        # behind the end a statement starts again
        k = -1 if k >= len(rows) or k == -2 else k
        out = []
        if self.may("step", t):
            s2 = st.copy()
            K.put(s2, h, const(-2), 8, None, "i64")
            self.say(s2, I, "step", h=h, rc=CONSTRAINT, row=None)
            out.append(("ret", const(CONSTRAINT), s2))
        K.put(st, h, const(k + 1), 8, None, "i64")
        rc = ROW if k + 1 < len(rows) else DONE
        self.say(st, I, "step", h=h, rc=rc, row=k + 1 if rc == ROW else None)
        out.append(("ret", const(rc), st))
        return out

    def _m_sqlite3_finalize(self, it, I, name, args, st):
        if args[0].t:
            self.stmt(I, st, args[0], name)
            self.say(st, I, "finalize", h=args[0])
        return [("ret", const(OK), st)]

    def cell(self, I, st, args, name):
        """-> (row, column, name and type) or None"""
        h = args[0]
        if self.stmt(I, st, h, name) is None:
            return None
        k = self.at(st, h, 8, "i64").c
        rows = self.rows.get(self.sqlof[h], [])
        i = self.it.reduce(st, args[1])
        if not i.is_const():
            raise A.AnalysisError("column %r" % i)
        if not 0 <= k < len(rows) or not 0 <= i.c < len(rows[k]):
            self.say(st, I, "outside", h=h)
            return None
        self.say(st, I, "column", h=h, row=k, i=i.c)
        return k, i.c, rows[k][i.c]

    def col(self, t, k, i, st=None):
        """value in a row: an opaque number, or where the bytes are"""
        key = (t, k, i)
        if key not in self.cols:
            ty = self.rows[t][k][i][1]
            n = 1000 + 10 * len(self.cols)
            if ty in ("INTEGER", "FLOAT"):
                self.cols[key] = av(A.atom("arg", n, "column%d.%d" % (k, i)))
            elif ty == "TEXT":
                self.cols[key] = self.str("text%d.%d of %s" % (k, i, t), "column")
            elif ty == "BLOB":
                self.cols[key] = tuple(av(A.atom("arg", n + x, "blob%d.%d" % (i, x))) for x in range(BLOB))
            else:
                self.cols[key] = None
        return self.cols[key]

    def want(self, t, k, i):
        """what the column is as JSON (as jtree gives it)"""
        ty = self.rows[t][k][i][1]
        v = self.col(t, k, i)
        return {"INTEGER": ("i", v), "FLOAT": ("d", v), "BLOB": ("blob", v), "NULL": None, "TEXT": self.text.get(v) if ty == "TEXT" else None}[ty]

    def _m_sqlite3_column_count(self, it, I, name, args, st):
        t = self.stmt(I, st, args[0], name)
        self.say(st, I, "look", h=args[0])
        rows = self.rows.get(t, [])
        return [("ret", const(len(rows[0]) if rows else 0), st)]

    def _m_sqlite3_column_name(self, it, I, name, args, st):
        t = self.stmt(I, st, args[0], name)
        self.say(st, I, "look", h=args[0])
        i = it.reduce(st, args[1])
        rows = self.rows.get(t, [])
        if not i.is_const() or not rows or not 0 <= i.c < len(rows[0]):
            raise (A.Wrong if i.is_const() and rows else A.AnalysisError)("name of the column %r" % i)
        return [("ret", self.cstr(rows[0][i.c][0], st), st)]

    def _m_sqlite3_column_type(self, it, I, name, args, st):
        c = self.cell(I, st, args, name)
        return [("ret", const(TYPES[c[2][1]] if c else 5), st)]

    def number(self, b, n, st):
        return p17.W.number(self, b, n, st)

    def get(self, I, st, args, name, ok, other):
        c = self.cell(I, st, args, name)
        if c is None or c[2][1] not in ok:
            return other(c)
        return self.col(self.sqlof[args[0]], c[0], c[1])

    def _m_sqlite3_column_int64(self, it, I, name, args, st):
        v = self.get(I, st, args, name, ("INTEGER",), lambda c: av(A.atom("arg", 900, "converted")) if c and c[2][1] != "NULL" else ZERO)
        return [("ret", v, st)]

    def _m_sqlite3_column_int(self, it, I, name, args, st):
        v = self.get(I, st, args, name, ("INTEGER",), lambda c: av(A.atom("arg", 901, "converted")) if c and c[2][1] != "NULL" else ZERO)
        if v.t:
            v = A.op("trunc", 32, v)
        return [("ret", v, st)]

    def _m_sqlite3_column_double(self, it, I, name, args, st):
        v = self.get(I, st, args, name, ("FLOAT",), lambda c: av(A.atom("arg", 902, "converted")))
        return [("ret", v, st)]

    def _m_sqlite3_column_text(self, it, I, name, args, st):
        v = self.get(I, st, args, name, ("TEXT",), lambda c: self.str("converted", "column") if c and c[2][1] != "NULL" else ZERO)
        return [("ret", v, st)]

    def _m_sqlite3_column_bytes(self, it, I, name, args, st):
        c = self.cell(I, st, args, name)
        if c and c[2][1] == "BLOB":
            return [("ret", const(BLOB), st)]
        return [("ret", av(A.atom("arg", 903, "bytes")) if c and c[2][1] != "NULL" else ZERO, st)]

    def _m_sqlite3_column_blob(self, it, I, name, args, st):
        v = self.get(I, st, args, name, ("BLOB",), lambda c: None)
        if not isinstance(v, tuple):
            return [("ret", ZERO, st)]
        p = self.obj("blob")
        for i, b in enumerate(v):
            K.put(st, vadd(p, const(i)), b, 1, None, "i8")
        return [("ret", p, st)]

    def _m_sqlite3_errmsg(self, it, I, name, args, st):
        self.say(st, I, "errmsg", db=args[0])
        return [("ret", self.obj("errmsg"), st)]

    def counter(self, I, st, what, db):
        self.say(st, I, what, db=db)
        return av(A.atom("arg", {"changes": 910, "total": 911, "rowid": 912}[what], what))

    def _m_sqlite3_changes(self, it, I, name, args, st):
        return [("ret", self.counter(I, st, "changes", args[0]), st)]

    def _m_sqlite3_total_changes(self, it, I, name, args, st):
        return [("ret", self.counter(I, st, "total", args[0]), st)]

    def _m_sqlite3_last_insert_rowid(self, it, I, name, args, st):
        return [("ret", self.counter(I, st, "rowid", args[0]), st)]

    def _m_sqlite3_exec(self, it, I, name, args, st):
        t = self.know(st, args[1])
        out = []
        if self.may("exec", t):
            s2 = st.copy()
            self.say(s2, I, "exec", sql=t, ok=False, db=args[0])
            if args[4].t:
                it.store(s2, args[4], self.obj("errmsg"), 8, None, "ptr")
            out.append(("ret", const(ERROR), s2))
        self.say(st, I, "exec", sql=t, ok=True, db=args[0])
        out.append(("ret", const(OK), st))
        return out

    def _m_sqlite3_open(self, it, I, name, args, st):
        t = self.know(st, args[0])
        out = []
        h = self.obj("opened")
        if self.may("open", t):
            s2 = st.copy()
            self.say(s2, I, "open", file=t, ok=False, db=h)
            it.store(s2, args[1], h, 8, None, "ptr")
            out.append(("ret", const(ERROR), s2))
        self.say(st, I, "open", file=t, ok=True, db=h)
        it.store(st, args[1], h, 8, None, "ptr")
        out.append(("ret", const(OK), st))
        return out

    def _m_sqlite3_close(self, it, I, name, args, st):
        self.say(st, I, "close", db=args[0])
        return [("ret", const(OK), st)]

    def _m_sqlite3_free(self, it, I, name, args, st):
        return [("ret", ZERO, st)]

    def _m_sqlite3_db_filename(self, it, I, name, args, st):
        return [("ret", self.cstr("/dir/main.db", st), st)]

    def _row(self, it, I, name, args, st):
        """a callback given to cee_sqlite3_select_iter"""
        n = sum(1 for e in events(st) if e.what == "row")
        self.say(st, I, "row", h=args[3], args=args, n=n)
        return [("ret", ONE if self.stop_at == n else ZERO, st)]

    # ------------------------------------------------------------------ arguments
    def infos(self, specs, values=True):
        """an array of bind infos; each spec: var, col, type, default, not_null, no_update, no_return, no_label"""
        L, c = self.c.L, self.c
        n = "cee_sqlite3_bind_info"
        size, o = L.size(n), lambda m: L.off(n, m)
        p = self.obj("info")
        for i in range(len(specs) + 1):
            s = specs[i] if i < len(specs) else {}
            q = vadd(p, const(i * size))
            K.put(self.st, vadd(q, const(o("var_name"))), self.cstr(s["var"]) if s.get("var") else ZERO, 8, None, "ptr")
            K.put(self.st, vadd(q, const(o("col_name"))), self.cstr(s["col"]) if s.get("col") else ZERO, 8, None, "ptr")
            K.put(self.st, vadd(q, const(o("type"))), const(c.en["CEE_SQLITE3_" + s.get("type", "UNDEF")]), 4, None, "i32")
            for b in ("no_update", "not_null", "no_return", "no_label"):
                K.put(self.st, vadd(q, const(o(b))), const(int(bool(s.get(b)))), 1, None, "i8")
            self.value_at(vadd(q, const(o("data"))), s.get("default"))
        return p

    def value_at(self, p, v):
        """v: None, "null" or (i, i64, value, size)"""
        L = self.c.L
        n = "cee_sqlite3_bind_data"
        o = lambda m: vadd(p, const(L.off(n, m)))
        i, i64, val, size = v if isinstance(v, tuple) else (ZERO, ZERO, ZERO, ZERO)
        K.put(self.st, o("index"), ZERO, 4, None, "i32")
        K.put(self.st, o("i"), i, 4, None, "i32")
        K.put(self.st, o("i64"), i64, 8, None, "i64")
        K.put(self.st, o("value"), val, 8, None, "ptr")
        K.put(self.st, o("size"), size, 8, None, "i64")
        K.put(self.st, o("has_value"), const(int(v is not None)), 4, None, "i32")
        K.put(self.st, o("is_null"), const(int(v == "null")), 4, None, "i32")

    def fresh_value(self, size=0, tag="v"):
        n = 700 + self.n
        self.n += 5
        return (av(A.atom("arg", n, tag + ".i")), av(A.atom("arg", n + 1, tag + ".i64")), self.str("%s%d" % (tag, n), "value"), const(size))

    def datas(self, vals):
        size = self.c.L.size("cee_sqlite3_bind_data")
        p = self.obj("data")
        for i, v in enumerate(vals):
            self.value_at(vadd(p, const(i * size)), v)
        return p

    def cell_of(self, v=ZERO, size=8, ty="ptr"):
        p = self.obj("cell")
        K.put(self.st, p, v, size, None, ty)
        return p

    def stmts(self, **kw):
        """a struct cee_sqlite3_stmt_strs"""
        L = self.c.L
        n = "cee_sqlite3_stmt_strs"
        p = self.obj("stmts")
        for m in ("table_name", "select_stmt", "insert_stmt", "insert_stmt_x", "delete_stmt", "update_stmt", "update_template", "update_stmt_x"):
            K.put(self.st, vadd(p, const(L.off(n, m))), self.cstr(kw[m]) if kw.get(m) else ZERO, 8, None, "ptr")
        K.put(self.st, vadd(p, const(L.off(n, "insert_dynamic"))), const(int(bool(kw.get("insert_dynamic")))), 1, None, "i8")
        return p

    def go(self, fn, args):
        self.rebind()
        self.c.fn(fn)
        st = self.st.copy()
        st.trace = None
        return self.it.run(fn, [const(a) if isinstance(a, int) else a for a in args], st)

    def rebind(self):
        ms = self.it.models
        for n, m in list(ms.items()):
            o = getattr(m, "__self__", None)
            if o is not None and o is not self and isinstance(o, W):
                ms[n] = getattr(self, m.__name__)


def events(st):
    """database events of a state, oldest first"""
    out = []
    t = st.trace
    while t is not None:
        e, t = t
        if e.kind == "db":
            out.append(e)
    out.reverse()
    return out


def story(es):
    out = []
    for e in es:
        if e.what == "prepare":
            out.append("%s '%s'" % ("preparing" if e.h.t else "failing to prepare", e.sql))
        elif e.what == "step":
            out.append("a step giving %s" % {ROW: "a row", DONE: "the end"}.get(e.rc, "an error"))
        elif e.what == "exec":
            out.append("%s '%s'" % ("running" if e.ok else "failing to run", e.sql))
        elif e.what == "open":
            out.append("%s %s" % ("opening" if e.ok else "failing to open", e.file))
    return ", ".join(out) or "nothing"


class Exec:
    """one statement of a path: its text, the values bound when it was first stepped, its steps"""

    def __init__(self, sql, h):
        self.sql, self.h, self.binds, self.steps, self.pending = sql, h, None, [], {}

    def __repr__(self):
        return "'%s' with %s" % (self.sql, self.binds)


def executions(es):
    out, cur = [], {}
    for e in es:
        if e.what == "prepare":
            x = Exec(e.sql, e.h)
            if e.h.t:
                cur[e.h] = x
            out.append(x)
        elif e.what == "bind" and e.h in cur:
            cur[e.h].pending[e.name] = e.val
        elif e.what == "clear" and e.h in cur:
            cur[e.h].pending = {}
        elif e.what == "step" and e.h in cur:
            x = cur[e.h]
            if x.binds is None:
                x.binds = dict(x.pending)
            x.steps.append(e.rc)
    return out


def lifecycle(es, given=()):
    """the rule for statements; given: statements handed to the caller at the end"""
    live, done, state = [], [], {}
    for e in es:
        if e.what == "prepare":
            if e.h.t:
                live.append(e.h)
                state[e.h] = "fresh"
            continue
        h = e.d.get("h")
        if h is None or not h.t:
            continue
        if h in done:
            return "finalizes a statement twice" if e.what == "finalize" else "uses a statement after finalizing it (%s)" % e.what
        if h not in live:
            return "uses a statement that is not one (%s)" % e.what
        if e.what == "finalize":
            live.remove(h)
            done.append(h)
        elif e.what == "bind":
            if state[h] != "fresh":
                return "binds a statement that has been stepped"
        elif e.what == "reset":
            state[h] = "fresh"
        elif e.what == "step":
            if state[h] == "end":
                return "steps a statement that has ended"
            state[h] = "row" if e.rc == ROW else "end"
        elif e.what in ("column", "outside"):
            if state[h] != "row" or e.what == "outside":
                return "reads a column without a row"
    for h in live:
        if h not in given:
            return "leaves a statement open"
    for h in given:
        if h not in live:
            return "hands out a statement that is finalized"
    return None
