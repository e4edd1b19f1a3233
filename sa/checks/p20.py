"""P20: loading, saving and merging JSON files: whole files, every failure reported, nothing left open."""
import absint as A
from absint import av, const, vadd, vsub, ZERO, ONE
from checks import core as K
from checks import shape as S
from checks import p17
from harness import parallel

MIN = {"load": 40, "save": 20, "merge": 60, "print": 8, "release": 100}
EXPLAIN = ("The functions of the JSON library that read and write files are analysed with every outcome of the calls they make to the system: opening fails or not, fstat fails or not, "
           "read gives an error, the end, or any number of bytes, parsing fails or not, write gives an error, fewer bytes or all. Rule load: what is parsed is the whole file, byte by byte in order, once; its "
           "value is the result; any failure gives NULL and the line of a parse error. Rule save: all bytes of the text printed for the value are written, and the result says whether "
           "they were. Rule merge: cee_json_merge_all saves the merge of the files in order with the list of their names, and returns 0 exactly if everything worked; a file that "
           "cannot be read leaves the destination alone. Rule print: cee_json_dprintf writes the formatted text, the value in compact form (or null) and a newline. Rule release: on every path files are closed once, after their last use, temporary memory is freed once, and states made are deleted.")
ASSUME = ["malloc succeeds", "fclose succeeds", "the parser and the printer are those of P13 and P15", "cee_del of a state releases what it made (P01)"]
TEXT = 3                # bytes of a printed text


class W(p17.W):
    def __init__(self, c):
        p17.W.__init__(self, c)
        m = self.it.models
        for n in ("fopen", "fclose", "fileno", "fstat", "read", "fread", "write", "fwrite"):
            m[n] = getattr(self, "_" + n)
        m["fopen64"], m["fstat64"] = self._fopen, self._fstat
        m["cee_json_parsex"], m["cee_json_snprint"], m["cee_json_asprint"] = self._parse, self._print, self._aprint
        for n in ("dprintf", "vdprintf", "fprintf", "vfprintf", "fputs", "fputc", "putc"):
            m[n] = self._say
        self.size = {}            # file -> bytes in it
        self.roots = {}           # file -> its value
        self.files = {}           # handle or descriptor -> file
        self.poss = {}
        self.bytes = {}
        self.printed = {}

    def clone(self):
        return p17.W.clone(self)

    def io(self, st, I, what, **d):
        self.it.emit(st, "io", I, what=what, **d)

    def byte(self, f, i):
        k = (f, i)
        if k not in self.bytes:
            self.bytes[k] = av(A.atom("arg", 2000 + len(self.bytes), "%s[%d]" % k))
        return self.bytes[k]

    # --- the system
    def handle(self, f):
        h = K.obj("FILE")
        self.files[h] = f
        p = K.obj("pos")
        self.poss[h] = p
        return h

    def _fopen(self, it, I, name, args, st):
        f, mode = self.texts(args[0]), it.prog.cstring(args[1])
        st2 = st.copy()
        self.io(st, I, "fopen", file=f, mode=mode, h=ZERO)
        h = self.handle(f)
        K.put(st2, self.poss[h], ZERO, 8, None, "i64")
        self.io(st2, I, "fopen", file=f, mode=mode, h=h)
        return [("ret", ZERO, st), ("ret", h, st2)]

    def _fclose(self, it, I, name, args, st):
        self.io(st, I, "fclose", h=args[0])
        return [("ret", ZERO, st)]

    def _fileno(self, it, I, name, args, st):
        self.io(st, I, "fileno", h=args[0])
        d = A.op("fileno", args[0])
        if args[0] in self.files:
            self.files[d] = self.files[args[0]]
            self.poss[d] = self.poss[args[0]]
        return [("ret", d, st)]

    def _fstat(self, it, I, name, args, st):
        st2 = st.copy()
        self.io(st, I, "fstat", h=args[0], ok=False)
        self.io(st2, I, "fstat", h=args[0], ok=True)
        f = self.files.get(args[0])
        if f is None:
            raise A.Wrong("fstat of %r" % args[0])
        K.put(st2, vadd(args[1], const(48)), const(self.size[f]), 8, None, "i64")
        return [("ret", const(-1), st), ("ret", ZERO, st2)]

    def transfer(self, I, st, h, p, n, write):
        """-> [(bytes transferred or -1, state)]"""
        it = self.it
        f = self.files.get(h)
        if f is None or not n.is_const():
            raise A.Wrong("%s of %r bytes at %r" % ("write" if write else "read", n, h))
        pos = it.reduce(st, it.load(st, self.poss[h], 8, None, "i64")).c
        most = max(0, n.c if write else min(n.c, self.size[f] - pos))
        out = []
        for k in [-1] + ([0] if not write or n.c == 0 else []) + list(range(1, most + 1)):
            s = st.copy()
            if write:
                self.io(s, I, "write", h=h, n=k, asked=n.c, data=[it.reduce(s, it.load(s, vadd(p, const(i)), 1, None, "i8")) for i in range(max(0, k))], pos=pos)
            else:
                self.io(s, I, "read", h=h, n=k, asked=n.c, pos=pos)
                for i in range(max(0, k)):
                    it.store(s, vadd(p, const(i)), self.byte(f, pos + i), 1, None, "i8")
            if k > 0:
                K.put(s, self.poss[h], const(pos + k), 8, None, "i64")
            else:
                m = it.reduce(s, it.load(s, vadd(self.poss[h], const(64)), 8, None, "i64"))
                m = m.c + 1 if m.is_const() else 1
                if m > 3:
                    raise A.Wrong("goes on %s after failing %d times" % ("writing" if write else "reading", m))
                K.put(s, vadd(self.poss[h], const(64)), const(m), 8, None, "i64")
            out.append((k, s))
        return out

    def _read(self, it, I, name, args, st):
        return [("ret", const(k), s) for k, s in self.transfer(I, st, args[0], args[1], args[2], False)]

    def _write(self, it, I, name, args, st):
        return [("ret", const(k), s) for k, s in self.transfer(I, st, args[0], args[1], args[2], True)]

    def blocks(self, args):
        if not args[1].is_const() or not args[2].is_const():
            raise A.AnalysisError("%r items of %r bytes" % (args[2], args[1]))
        return const(args[1].c * args[2].c)

    def _fread(self, it, I, name, args, st):
        n = self.blocks(args)
        return [("ret", const(max(0, k) // max(1, args[1].c)), s) for k, s in self.transfer(I, st, args[3], args[0], n, False)]

    def _fwrite(self, it, I, name, args, st):
        n = self.blocks(args)
        return [("ret", const(max(0, k) // max(1, args[1].c)), s) for k, s in self.transfer(I, st, args[3], args[0], n, True)]

    def out(self, st, p):
        """the bytes of a text"""
        c = self.it.prog.cstring(p)
        if c is not None:
            return [const(x - 256 if x > 127 else x) for x in c]
        r = []
        while len(r) < 64:
            v = self.it.reduce(st, self.it.load(st, vadd(p, const(len(r))), 1, None, "i8"))
            if v is ZERO:
                return r
            r.append(v)
        raise A.Wrong("writes a text without an end: %r %r" % (p, r[:5]))

    def _say(self, it, I, name, args, st):
        h = args[1] if name in ("fputs", "fputc", "putc") else args[0]
        if h not in self.files:         # a message to the user
            self.io(st, I, "say", h=h, data=None)
            return [("ret", ONE, st)]
        if name == "fputs":
            h, data = args[1], self.out(st, args[0])
        elif name in ("fputc", "putc"):
            h, data = args[1], [args[0]]
        elif name.startswith("v"):
            h, data = args[0], [("formatted", args[1])]
        else:
            h, data, k = args[0], [], 2
            f = it.prog.cstring(args[1])
            if f is None:
                data, f = [("formatted", args[1])], b""
            i = 0
            while i < len(f):
                if f[i:i + 1] != b"%":
                    data.append(const(f[i]))
                elif f[i + 1:i + 2] in (b"s", b"c"):
                    data += self.out(st, args[k]) if f[i + 1:i + 2] == b"s" else [args[k]]
                    k += 1
                    i += 1
                elif f[i + 1:i + 2] == b"%":
                    data.append(const(37))
                    i += 1
                else:
                    raise A.AnalysisError("%s of %r" % (name, f))
                i += 1
        self.io(st, I, "say", h=h, data=data)
        return [("ret", const(len(data)), st)]

    # --- the parser and the printer
    def _parse(self, it, I, name, args, st):
        st_, buf, n, out, force, line = args[:6]
        if not n.is_const():
            raise A.AnalysisError("parsing %r bytes" % n)
        data = [it.reduce(st, it.load(st, vadd(buf, const(i)), 1, None, "i8")) for i in range(n.c)]
        f = next((k[0] for k, v in self.bytes.items() if data and v is data[0]), None)
        res = []
        for ok in (True, False):
            s = st.copy()
            self.io(s, I, "parse", ok=ok, data=data, state=st_, force=force, buf=buf)
            if ok:
                j = self.roots.get(f, self.roots[None])
                it.store(s, out, j, 8, None, "ptr")
            else:
                it.store(s, line, self.line(), 4, None, "i32")
            res.append(("ret", ZERO if ok else const(22), s))
        return res

    def line(self):
        return av(A.atom("arg", 1999, "line"))

    def text_of(self, I, st, j, how):
        try:
            t = self.tree(j, st)
        except S.Many as e:
            t = str(e)
        k = "text%d" % len(self.printed)
        self.printed[k] = (j, how, t)
        return [self.byte(k, i) for i in range(TEXT)]

    def _print(self, it, I, name, args, st):
        buf, n, j, how = args[1:5]
        if buf.t:
            self.io(st, I, "print", j=j)
            for i, v in enumerate(self.text_of(I, st, j, how) + [ZERO]):
                it.store(st, vadd(buf, const(i)), v, 1, None, "i8")
        else:
            self.io(st, I, "measure", j=j)
        return [("ret", const(TEXT), st)]

    def _aprint(self, it, I, name, args, st):
        self.io(st, I, "print", j=args[3])
        b = K.obj("block")
        for i, v in enumerate(self.text_of(I, st, args[3], args[4]) + [ZERO]):
            it.store(st, vadd(b, const(i)), v, 1, None, "i8")
        it.store(st, args[1], b, 8, None, "ptr")
        if args[2].t:
            it.store(st, args[2], const(TEXT), 8, None, "i64")
        return [("ret", const(TEXT), st)]

    def go(self, fn, args):
        st = self.st.copy()
        st.trace = None
        return self.it.run(fn, [const(a) if isinstance(a, int) else a for a in args], st)


class Rules:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c

    def wh(self, fn):
        return "%s:%d (%s)" % (self.c.fn(fn).loc() + (fn,))

    def paths(self, w, fn, args):
        for p in w.go(fn, args):
            yield p, [e for e in flat(p) if e.kind == "io"]
        self.ctx.used(w.it)

    def released(self, w, fn, p, ios, own=(), states=()):
        """files, memory and states at the end of a path"""
        ctx, wh = self.ctx, self.wh(fn)
        opened = [e.h for e in ios if e.what == "fopen" and e.h.t]
        bad = None
        closed = []
        for e in ios:
            if e.what == "fclose":
                if e.h in closed:
                    bad = bad or "closes %s twice" % w.files.get(e.h)
                elif e.h not in opened and e.h not in own:
                    bad = bad or "closes a file that is not its own"
                closed.append(e.h)
            elif e.what in ("read", "write", "fileno", "fstat") or e.what == "say" and e.data is not None:
                h = e.h
                s = h.single()
                if s is not None and s.kind == "op" and s.args[0] == "fileno":
                    h = s.args[1]
                if h in closed:
                    bad = bad or "uses %s after closing it" % w.files.get(e.h)
                elif not h.t:
                    bad = bad or "uses a file that was not opened"
        for h in opened:
            if h not in closed:
                bad = bad or "leaves %s open" % w.files[h]
        for h in own:
            if h in closed:
                bad = bad or "closes the caller's file"
        evs = flat(p)
        for e in evs:
            if e.kind in ("uaf", "doublefree"):
                bad = bad or "%s at %s" % ("uses freed memory" if e.kind == "uaf" else "frees twice", e.where())
        freed = [e.p for e in evs if e.kind == "free"] + [e.old for e in evs if e.kind == "realloc"]
        for e in evs:
            if e.kind in ("alloc", "realloc") and e.inst is not None and e.inst.fn.mod.name.startswith("json") and e.ret not in freed:
                bad = bad or "leaks the memory obtained at %s" % e.where()
        made = [e for e in evs if e.kind == "enter" and e.name == "cee_state_mk"]
        dels = [e for e in evs if e.kind == "call" and e.name in K.DELETERS and e.args and e.inst.fn.mod.name.startswith("json")]
        return bad, len(made), dels

    # ------------------------------------------------------------------ loading
    def load(self, fn, size, force, errp):
        w = W(self.c)
        st = w.state
        w.size["f0"] = size
        w.roots = {"f0": w.make({"a": 1}), None: w.make({"a": 1})}
        x = K.obj("linep") if errp else ZERO
        old = av(A.atom("arg", 1998, "old"))
        if errp:
            K.put(w.st, x, old, 4, None, "i32")
        own = []
        if fn == "cee_json_load_from_fileno":
            h = av(A.atom("arg", 1997, "fd"))
            w.files[h] = "f0"
            w.poss[h] = K.obj("pos")
            own = [h]
        elif fn == "cee_json_load_from_FILE":
            h = w.handle("f0")
            own = [h]
        else:
            h = w.str("f0", "path")
        if own:
            K.put(w.st, w.poss[h], ZERO, 8, None, "i64")
        ctx, wh = self.ctx, self.wh(fn)
        whole = [w.byte("f0", i) for i in range(size)]
        for p, ios in self.paths(w, fn, [st, h, force, x]):
            ctx.ob("load")
            if any(e.what == "fopen" and not e.h.t for e in ios):
                r = p.ret if p.kind == "ret" else None
                ctx.check(r is not None and w.it.reduce(p.st, r) is ZERO and not any(e.what in ("parse", "read") for e in ios), "load", fn + "/fopen", "does not give NULL without the file", wh)
                if p.kind == "ret":
                    self.rel(w, fn, p, ios, own)
                continue
            if not ctx.check(p.kind == "ret", "load", fn + "/abort", "does not return after %s" % story(ios), wh):
                continue
            r = w.it.reduce(p.st, p.ret)
            parses = [e for e in ios if e.what == "parse"]
            line = w.at(p.st, x, 4, "i32") if errp else None
            good = len(parses) == 1 and parses[0].ok
            bad = None
            for e in ios:
                if e.what == "fopen" and (e.mode not in (b"r", b"rb") or e.file != "f0"):
                    bad = "opens %r with mode %r" % (e.file, e.mode)
            for e in parses:
                if e.data != whole:
                    bad = "parses %d bytes of a file of %d" % (len(e.data), size) if e.data != whole[:len(e.data)] else "parses %d of %d bytes" % (len(e.data), size)
                elif e.state is not st:
                    bad = "parses into another state"
                elif (e.force is not ZERO) != bool(force):
                    bad = "parses with force_eof %r instead of %d" % (e.force, force)
            if len(parses) > 1:
                bad = "parses %d times" % len(parses)
            complete = not any(e.what == "fstat" and not e.ok or e.what == "read" and e.n < 0 for e in ios) and sum(e.n for e in ios if e.what == "read") == size
            if not bad and complete and not parses:
                bad = "does not parse"
            if not bad and r is not (w.roots["f0" if size else None] if good else ZERO):
                bad = "gives %r" % r
            if not bad and errp and line is not (w.line() if parses and not good else old):
                bad = "reports the line %r" % line
            ctx.check(not bad, "load", fn, "%s after %s" % (bad, story(ios)), wh)
            self.rel(w, fn, p, ios, own)

    def rel(self, w, fn, p, ios, own=()):
        bad, made, dels = self.released(w, fn, p, ios, own)
        if not bad and (made or dels):
            bad = "makes or deletes a state"
        self.ctx.check(not bad, "release", fn, "%s after %s" % (bad, story(ios)), self.wh(fn))

    def buffer(self, size):
        fn = "cee_json_load_from_buffer"
        w = W(self.c)
        w.roots = {None: w.make({"a": 1})}
        b = w.obj("buf")
        data = [w.byte("b", i) for i in range(size)]
        for i, v in enumerate(data):
            K.put(w.st, vadd(b, const(i)), v, 1, None, "i8")
        ctx, wh = self.ctx, self.wh(fn)
        for p, ios in self.paths(w, fn, [b, size]):
            if not ctx.check(p.kind == "ret", "load", fn + "/abort", "does not return", wh):
                continue
            r = w.it.reduce(p.st, p.ret)
            ps = [e for e in ios if e.what == "parse"]
            ok = len(ps) == 1 and ps[0].data == data and r is (w.roots[None] if ps[0].ok else ZERO)
            ctx.check(ok, "load", fn, "gives %r after %s" % (r, story(ios)), wh)
            if ps:
                ctx.check(ps[0].force is not ZERO, "load", fn + "/eof", "accepts text behind the value", wh)
            bad, made, dels = self.released(w, fn, p, ios)
            good = bool(ps and ps[0].ok)
            if not bad and made - len(dels) != (1 if good else 0):
                bad = "makes %d states and deletes %d" % (made, len(dels))
            ctx.check(not bad, "release", fn, "%s after %s" % (bad, story(ios)), wh)

    # ------------------------------------------------------------------ saving
    def save(self, fn, how):
        w = W(self.c)
        j = w.make({"a": [1, 2], "b": 3})
        if fn == "cee_json_save_fileno":
            h = av(A.atom("arg", 1997, "fd"))
            w.files[h] = "f0"
            w.poss[h] = K.obj("pos")
        else:
            h = w.handle("f0")
        K.put(w.st, w.poss[h], ZERO, 8, None, "i64")
        ctx, wh = self.ctx, self.wh(fn)
        for p, ios in self.paths(w, fn, [w.state, j, h, how]):
            if not ctx.check(p.kind == "ret", "save", fn + "/abort", "does not return after %s" % story(ios), wh):
                continue
            r = w.it.reduce(p.st, p.ret)
            bad, done = written(w, ios, lambda x, f, t: x is j and f is const(how))
            if not bad and (not r.is_const() or (r.c & 1) != int(done)):
                bad = "returns %r" % r
            ctx.check(not bad, "save", fn, "%s after %s" % (bad, story(ios)), wh)
            self.rel(w, fn, p, ios, [h])

    # ------------------------------------------------------------------ printing
    def dump(self, given, fmt):
        """cee_json_dprintf: the formatted text, the value and the end of the line"""
        fn = "cee_json_dprintf"
        w = W(self.c)
        j = w.make({"a": [1, 2], "b": 3}) if given else ZERO
        h = av(A.atom("arg", 1997, "fd"))
        w.files[h] = "f0"
        w.poss[h] = K.obj("pos")
        K.put(w.st, w.poss[h], ZERO, 8, None, "i64")
        f = w.obj("fmt") if fmt else ZERO
        ctx, wh = self.ctx, self.wh(fn)
        for p, ios in self.paths(w, fn, [h, j, f, w.obj("arg")]):
            ios = [e for e in ios if e.what != "say" or e.data is not None]
            if not ctx.check(p.kind == "ret", "print", fn + "/abort", "does not return", wh):
                continue
            got, bad = [], None
            for e in ios:
                if e.what == "say" and e.h is not h or e.what == "write" and e.h is not h or e.what in ("fopen", "fclose"):
                    bad = "uses another file"
                elif e.what == "write" and e.n >= 0:
                    got += e.data
                elif e.what == "say":
                    got += e.data
            if any(e.what == "write" and e.n < e.asked for e in ios):
                continue
            want = [("formatted", f)] if fmt else []
            texts = [[w.byte(k, i) for i in range(TEXT)] for k, (x, how, t) in w.printed.items() if x is j and how is ZERO] if given else [[const(x) for x in b"null"]]
            if not bad and got not in [want + t + [const(10)] for t in texts]:
                bad = "writes %r" % (got,)
            ctx.check(not bad, "print", fn, "%s for %s value and %s format" % (bad, "a" if given else "no", "a" if fmt else "no"), wh)
            bad, made, dels = self.released(w, fn, p, ios, [h])
            if not bad and made != len(dels):
                bad = "makes %d states and deletes %d" % (made, len(dels))
            if not bad and dels:
                evs = flat(p)
                if any(e.kind == "io" and e.what in ("print", "measure", "say", "write") for e in evs[evs.index(dels[0]):]):
                    bad = "deletes the state before the text is written"
            ctx.check(not bad, "release", fn, "%s" % bad, wh)

    # ------------------------------------------------------------------ merging
    def merge(self, trees):
        fn = "cee_json_merge_all"
        w = W(self.c)
        n = len(trees)
        names = ["f%d" % i for i in range(n)]
        arr = w.obj("files")
        for i, (f, t) in enumerate(zip(names, trees)):
            w.size[f] = 1
            w.roots[f] = w.make(t)
            K.put(w.st, vadd(arr, const(8 * i)), w.str(f, f), 8, None, "ptr")
        w.roots[None] = w.make({})
        out = w.str("out", "out")
        want = {}
        for i, t in enumerate(trees):
            want = p17.merged(want, t) if i else dict(t)
        want["originals"] = names
        ctx, wh = self.ctx, self.wh(fn)
        for p, ios in self.paths(w, fn, [arr, n, out]):
            if not ctx.check(p.kind == "ret", "merge", fn + "/abort", "does not return after %s" % story(ios), wh):
                continue
            r = w.it.reduce(p.st, p.ret)
            bad, done = written(w, ios, lambda x, f, t: t == want, out="out")
            failed = [e for e in ios if e.what == "fopen" and not e.h.t or e.what == "parse" and not e.ok or e.what == "fstat" and not e.ok or e.what == "read" and e.n <= 0]
            outs = [e for e in ios if e.what == "fopen" and e.file == "out"]
            for e in ios:
                if e.what == "fopen" and e.mode not in ((b"w", b"wb") if e.file == "out" else (b"r", b"rb")):
                    bad = bad or "opens %r with mode %r" % (e.file, e.mode)
                if e.what == "parse" and (e.force is ZERO):
                    bad = bad or "accepts text behind the value in a file"
            if len(outs) > 1:
                bad = bad or "opens the destination %d times" % len(outs)
            if not bad and done and failed:
                bad = "writes although a file could not be read"
            if not bad and outs and [e for e in failed if e not in outs]:
                bad = "empties the destination although a file could not be read"
            if not bad and (not r.is_const() or (r.c == 0) != (done and not failed)):
                bad = "returns %r" % r
            ctx.check(not bad, "merge", fn, "%s after %s" % (bad, story(ios)), wh)
            bad, made, dels = self.released(w, fn, p, ios)
            if not bad and made != len(dels):
                bad = "makes %d states and deletes %d" % (made, len(dels))
            if not bad and dels:
                evs = flat(p)
                last = max(i for i, e in enumerate(evs) if e.kind == "io" and e.what in ("parse", "print", "measure", "write") or e is dels[-1])
                if evs[last] is not dels[-1]:
                    bad = "deletes the state before the values are saved"
            ctx.check(not bad, "release", fn, "%s after %s" % (bad, story(ios)), wh)


def flat(p):
    return list(p.ev)


def written(w, ios, right, out="f0"):
    """-> (what is wrong or None, whether all of the text was written)"""
    ws = [e for e in ios if e.what == "write"]
    got = []
    for e in ws:
        if w.files[e.h] != out:
            return "writes to %s" % w.files[e.h], False
        if e.pos != len(got):
            return "writes at %d" % e.pos, False
        if e.n < 0:
            continue
        got += e.data
    done = False
    for k, (j, how, t) in w.printed.items():
        text = [w.byte(k, i) for i in range(TEXT)]
        if got and got == text[:len(got)]:
            if not right(j, how, t):
                return "writes the text of %r in format %r" % (t, how), False
            done = got == text
            got = []
    if got:
        return "writes something else", False
    return None, done


def story(ios):
    out = []
    for e in ios:
        if e.what == "fopen":
            out.append("%s of %s" % ("opening" if e.h.t else "failing to open", e.file))
        elif e.what in ("read", "write"):
            out.append("%s of %d giving %d" % (e.what, e.asked, e.n))
        elif e.what == "fstat" and not e.ok:
            out.append("fstat failing")
        elif e.what == "parse":
            out.append("parsing" if e.ok else "a parse error")
    return ", ".join(out) or "nothing"


def run(ctx):
    thorough = ctx.tier == "thorough"
    merges = [[{"a": 1}], [{}], [{"a": 1}, {"b": 2}], [{"a": 1, "b": [2]}, {"b": [3], "a": 4}], [{"a": {"a": 1}}, {"a": {"b": 2}}, {"a": {"a": 3, "c": 4}}], [{"a": 1}, {"a": 2}, {"a": 3}]]
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        jobs = []
        for fn in ("cee_json_load_from_fileno", "cee_json_load_from_FILE", "cee_json_load_from_file_path"):
            for size in (0, 1, 2, 3) + ((5, 7) if thorough else ()):
                for force in (0, 1):
                    for errp in (0, 1):
                        jobs.append(lambda x, a=(fn, size, force, errp): Rules(x, c).load(*a))
        for size in (0, 1, 3):
            jobs.append(lambda x, size=size: Rules(x, c).buffer(size))
        for fn in ("cee_json_save_fileno", "cee_json_save"):
            for how in (0, 1):
                jobs.append(lambda x, a=(fn, how): Rules(x, c).save(*a))
        for given in (0, 1):
            for fmt in (0, 1):
                jobs.append(lambda x, a=(given, fmt): Rules(x, c).dump(*a))
        for t in merges:
            jobs.append(lambda x, t=t: Rules(x, c).merge(t))
        parallel(ctx, jobs)
