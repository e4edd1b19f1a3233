"""Reader for textual LLVM 18 IR (opaque pointers) as emitted by clang -O0 + sroa.

Only what C code at -O0 produces is understood; an instruction the reader does not
know is an analysis error (raised), never silently skipped.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ("kind", "bits", "elem", "n", "fields", "name", "size", "align", "offs")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.bits = kw.get("bits")
        self.elem = kw.get("elem")
        self.n = kw.get("n")
        self.fields = kw.get("fields")
        self.name = kw.get("name")
        self.size = None
        self.align = None
        self.offs = None

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind == "struct":
            return "%" + (self.name or "anon")
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        return self.kind


PTR = Type("ptr")
VOID = Type("void")
INTS = {}


def int_t(b):
    if b not in INTS:
        INTS[b] = Type("int", bits=b)
    return INTS[b]


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}      # name -> Global
        self.funcs = {}        # name -> Function (defined)
        self.decls = {}        # name -> (ret type, [param types], vararg)
        self.md = {}           # id -> raw text
        self._loc = {}

    # -- layout
    def layout(self, t):
        if t.size is not None:
            return t.size, t.align
        k = t.kind
        if k == "int":
            b = (t.bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t.size, t.align = p, min(p, 16)
        elif k == "ptr":
            t.size = t.align = 8
        elif k == "float":
            t.size = t.align = 4
        elif k == "double":
            t.size = t.align = 8
        elif k == "x86_fp80":
            t.size = t.align = 16
        elif k == "array":
            s, a = self.layout(t.elem)
            t.size, t.align = s * t.n, a
        elif k == "struct":
            off, al, offs = 0, 1, []
            for f in t.fields:
                s, a = self.layout(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            t.size, t.align, t.offs = off, al, offs
        else:
            raise IRError("no layout for %r" % t)
        return t.size, t.align

    def sizeof(self, t):
        return self.layout(t)[0]

    # -- debug locations
    def loc(self, mdid):
        """'!123' -> (file, line)"""
        if mdid is None:
            return ("?", 0)
        if mdid in self._loc:
            return self._loc[mdid]
        r = ("?", 0)
        txt = self.md.get(mdid, "")
        m = re.search(r"DILocation\(line: (\d+).*?scope: (!\d+)", txt)
        if m:
            r = (self._file(m.group(2)), int(m.group(1)))
        self._loc[mdid] = r
        return r

    def _file(self, scope, depth=0):
        txt = self.md.get(scope, "")
        m = re.search(r"file: (!\d+)", txt)
        if m:
            f = re.search(r'filename: "([^"]*)"', self.md.get(m.group(1), ""))
            if f:
                return f.group(1)
        m = re.search(r"scope: (!\d+)", txt)
        if m and depth < 50:
            return self._file(m.group(1), depth + 1)
        return "?"

    def di_of(self, mdid):
        return self.md.get(mdid, "")

    def enums(self):
        """enumerator name -> value"""
        r = {}
        for t in self.md.values():
            m = re.match(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', t)
            if m:
                r[m.group(1)] = int(m.group(2))
        return r

    def di_struct_members(self, sname):
        """[(member name, byte offset, byte size, typeid)] of the DI struct named sname"""
        for t in self.md.values():
            if "DICompositeType(tag: DW_TAG_" in t and ('name: "%s",' % sname) in t and "elements:" in t:
                el = re.search(r"elements: (!\d+)", t).group(1)
                out = []
                for e in re.findall(r"!\d+", self.md[el]):
                    x = self.md[e]
                    nm = re.search(r'name: "([^"]*)"', x)
                    off = re.search(r"offset: (\d+)", x)
                    sz = re.search(r"size: (\d+)", x)
                    ty = re.search(r"baseType: (!\d+)", x)
                    out.append((nm.group(1) if nm else "", int(off.group(1)) // 8 if off else 0,
                                int(sz.group(1)) // 8 if sz else 0, ty.group(1) if ty else None,
                                int(off.group(1)) if off else 0, int(sz.group(1)) if sz else 0))
                return out
        return None


class Global:
    __slots__ = ("name", "type", "init", "const", "external", "internal")


class Function:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.params = []       # (name, type)
        self.ret = VOID
        self.vararg = False
        self.internal = False
        self.blocks = {}       # label -> Block
        self.order = []
        self.entry = None
        self.di = None
        self._loops = None
        self.varnames = {}     # ssa name -> [source variable name]

    def loc(self):
        t = self.mod.md.get(self.di, "")
        m = re.search(r"line: (\d+)", t)
        return (self.mod._file(self.di), int(m.group(1)) if m else 0)

    # ---- CFG
    def finish(self):
        for b in self.blocks.values():
            b.preds = []
        for b in self.blocks.values():
            for s in b.succs():
                if b.label not in self.blocks[s].preds:
                    self.blocks[s].preds.append(b.label)

    def rpo(self):
        seen, out = set(), []
        stack = [(self.entry, iter(self.blocks[self.entry].succs()))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs())))
                    break
            else:
                out.append(n)
                stack.pop()
        return out[::-1]

    def dominators(self):
        rpo = self.rpo()
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a = n
                    c = p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        return idom

    def loops(self):
        """header label -> set of block labels (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        idom = self.dominators()

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        res = {}
        for b in idom:
            for s in self.blocks[b].succs():
                if dom(s, b):
                    body = res.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.blocks[x].preds if p in idom)
                elif s in idom and self._retreating(b, s, idom, dom):
                    raise IRError("irreducible loop in %s" % self.name)
        self._loops = res
        return res

    def _retreating(self, b, s, idom, dom):
        rpo = self.rpo()
        idx = {x: i for i, x in enumerate(rpo)}
        return idx[s] <= idx[b] and not dom(s, b)


class Block:
    __slots__ = ("label", "insts", "preds")

    def __init__(self, label):
        self.label = label
        self.insts = []
        self.preds = []

    def succs(self):
        t = self.insts[-1]
        if t.op == "br":
            return [x for x in t.a["labels"]]
        if t.op == "switch":
            r = [t.a["default"]]
            for _, l in t.a["cases"]:
                if l not in r:
                    r.append(l)
            return r
        return []


class Inst:
    __slots__ = ("op", "res", "type", "ops", "a", "dbg", "fn", "idx")

    def __init__(self, op, res=None, type=None, ops=(), a=None, dbg=None):
        self.op, self.res, self.type, self.ops, self.a, self.dbg = op, res, type, list(ops), a or {}, dbg
        self.fn = None
        self.idx = 0

    def loc(self):
        return self.fn.mod.loc(self.dbg)

    def __repr__(self):
        return "%s = %s %r %r %r" % (self.res, self.op, self.type, self.ops, self.a)


# operand: ('r', name) local | ('g', name) global | ('i', int) | ('null',) | ('undef',)
#          | ('f', text) | ('ce', Inst) constant expression | ('zero',) | ('agg', [..]) | ('str', bytes)

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))
 | (?P<dots>\.\.\.)
 | (?P<word>[-a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<p>[(){}\[\],=*<>:|])
 | (?P<ws>\s+)
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError("lex: %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append((k, m.group()))
    return out


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r got %r in %r" % (s, self.peek(), " ".join(x[1] for x in self.t)))

    def type(self):
        x = self.next()
        m = re.match(r"i(\d+)$", x)
        if m:
            t = int_t(int(m.group(1)))
        elif x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x in ("float", "double", "x86_fp80", "label", "metadata", "opaque"):
            t = Type(x)
        elif x.startswith("%"):
            nm = x[1:].strip('"')
            t = self.m.types.get(nm)
            if t is None:
                t = self.m.types[nm] = Type("struct", name=nm, fields=None)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Type("array", n=n, elem=e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                fs = self._fields("}")
                self.expect(">")
                t = Type("struct", fields=fs)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Type("array", n=n, elem=e)
        elif x == "{":
            t = Type("struct", fields=self._fields("}"))
        else:
            raise IRError("type %r in %r" % (x, " ".join(z[1] for z in self.t)))
        # function type suffix
        if self.peek() == "(" and t.kind != "label":
            # T (args)
            save = self.i
            try:
                self.next()
                args, va = [], False
                while not self.accept(")"):
                    if self.accept("..."):
                        va = True
                    else:
                        args.append(self.type())
                    self.accept(",")
                ft = Type("func", elem=t, fields=args)
                ft.n = va
                t = ft
            except IRError:
                self.i = save
        return t

    def _fields(self, end):
        fs = []
        while not self.accept(end):
            fs.append(self.type())
            self.accept(",")
        return fs

    ATTRS = {"noundef", "noalias", "nocapture", "readonly", "writeonly", "readnone", "nonnull", "signext", "zeroext",
             "inreg", "immarg", "returned", "nofree", "dso_local", "local_unnamed_addr", "unnamed_addr", "noreturn",
             "inbounds", "nuw", "nsw", "exact", "volatile", "disjoint", "nneg", "fast", "tail", "notail", "musttail",
             "allocptr", "internal", "private", "external", "hidden", "constant", "global", "common", "weak",
             "linkonce_odr", "available_externally", "writable"}

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "range", "initializes", "captures", "memory", "elementtype"):
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0:
                                break
                elif self.kind() == "num":
                    self.next()
            else:
                return

    def value(self, ty):
        k = self.kind()
        x = self.next()
        if k == "local":
            return ("r", x[1:].strip('"'))
        if k == "glob":
            return ("g", x[1:].strip('"'))
        if k == "num":
            if ty.kind == "int":
                return ("i", int(x))
            return ("f", x)
        if x == "true":
            return ("i", 1)
        if x == "false":
            return ("i", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if k == "str":
            return ("str", unescape(x[2:-1] if x.startswith("c") else x[1:-1]))
        if x in ("getelementptr",):
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            self.expect(",")
            ops = []
            while True:
                self.skip_attrs()
                tt = self.type()
                self.skip_attrs()
                ops.append((tt, self.value(tt)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("ce", Inst("getelementptr", None, PTR, [o[1] for o in ops], {"src": t, "types": [o[0] for o in ops]}))
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            self.expect("(")
            t1 = self.type()
            v = self.value(t1)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ce", Inst(x, None, t2, [v], {"from": t1}))
        if x in ("sub", "add"):
            self.skip_attrs()
            self.expect("(")
            ops = []
            while True:
                t1 = self.type()
                ops.append(self.value(t1))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("ce", Inst(x, None, t1, ops))
        if x == "{" or x == "[" or x == "<":
            end = {"{": "}", "[": "]", "<": ">"}[x]
            vs = []
            if x == "<" and self.accept("{"):
                end = "}"
            while not self.accept(end):
                t1 = self.type()
                vs.append((t1, self.value(t1)))
                self.accept(",")
            if x == "<" and end == "}":
                self.expect(">")
            return ("agg", vs)
        raise IRError("value %r in %r" % (x, " ".join(z[1] for z in self.t)))

    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    def dbg(self):
        """find trailing !dbg !N"""
        for j in range(len(self.t) - 1):
            if self.t[j][1] == "!dbg":
                return self.t[j + 1][1]
        return None


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("latin1") if ord(s[i]) < 256 else s[i].encode("utf8")
            i += 1
    return bytes(out)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
        "bitcast"}


def parse_inst(mod, line, fn):
    p = P(mod, lex(line))
    res = None
    if p.kind() == "local" and p.peek(1) == "=":
        res = p.next()[1:].strip('"')
        p.next()
    dbg = p.dbg()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    I = Inst(op, res, dbg=dbg)
    if op in BIN:
        p.skip_attrs()
        I.type = p.type()
        a = p.value(I.type)
        p.expect(",")
        I.ops = [a, p.value(I.type)]
    elif op == "fneg":
        p.skip_attrs()
        I.type = p.type()
        I.ops = [p.value(I.type)]
    elif op in CAST:
        p.skip_attrs()
        t, v = p.tv()
        p.expect("to")
        I.type = p.type()
        I.ops = [v]
        I.a = {"from": t}
    elif op in ("icmp", "fcmp"):
        p.skip_attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        I.type = int_t(1)
        I.ops = [a, b]
        I.a = {"pred": pred, "optype": t}
    elif op == "alloca":
        p.skip_attrs()
        t = p.type()
        n = None
        if p.accept(","):
            if p.peek() != "align" and p.kind() != "md":
                tt = p.type()
                n = p.value(tt)
        I.type = PTR
        I.a = {"t": t, "n": n}
    elif op == "load":
        p.skip_attrs()
        I.type = p.type()
        p.expect(",")
        t, v = p.tv()
        I.ops = [v]
    elif op == "store":
        p.skip_attrs()
        t, v = p.tv()
        p.expect(",")
        t2, a = p.tv()
        I.ops = [v, a]
        I.a = {"t": t}
    elif op == "getelementptr":
        p.skip_attrs()
        t = p.type()
        ops = []
        while p.accept(","):
            if p.kind() == "md":
                break
            ops.append(p.tv())
        I.type = PTR
        I.ops = [o[1] for o in ops]
        I.a = {"src": t, "types": [o[0] for o in ops]}
    elif op == "call":
        p.skip_attrs()
        while p.peek() in ("fastcc", "ccc"):
            p.next()
        p.skip_attrs()
        t = p.type()
        if t.kind == "func":
            I.a["fty"] = t
            t = t.elem
        I.type = t
        k = p.kind()
        if k == "word" and p.peek() == "asm":
            raise IRError("inline asm")
        callee = p.value(PTR)
        p.expect("(")
        args, tys = [], []
        if callee[0] == "g" and callee[1].startswith("llvm.dbg"):
            # metadata args
            rest = line
            if callee[1] == "llvm.dbg.value" or callee[1] == "llvm.dbg.declare":
                mm = re.search(r"metadata \S+ (%[-\w$.\"]+), metadata (!\d+)", rest)
                if mm:
                    mod_fn_var(fn, mod, mm.group(1)[1:].strip('"'), mm.group(2))
            return None
        while not p.accept(")"):
            p.skip_attrs()
            t1 = p.type()
            if t1.kind == "metadata":
                p.next()
                p.accept(",")
                continue
            p.skip_attrs()
            args.append(p.value(t1))
            tys.append(t1)
            p.accept(",")
        I.ops = args
        I.a["callee"] = callee
        I.a["types"] = tys
    elif op == "ret":
        t = p.type()
        I.type = t
        if t.kind != "void":
            I.ops = [p.value(t)]
    elif op == "br":
        if p.accept("label"):
            I.a["labels"] = [p.next()[1:].strip('"')]
        else:
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            I.ops = [v]
            I.a["labels"] = [a, b]
    elif op == "switch":
        t, v = p.tv()
        p.expect(",")
        p.expect("label")
        I.ops = [v]
        I.type = t
        I.a["default"] = p.next()[1:].strip('"')
        p.expect("[")
        cs = []
        while not p.accept("]"):
            tt = p.type()
            c = p.value(tt)
            p.expect(",")
            p.expect("label")
            cs.append((c[1], p.next()[1:].strip('"')))
        I.a["cases"] = cs
    elif op == "phi":
        p.skip_attrs()
        I.type = p.type()
        inc = []
        while p.accept("["):
            v = p.value(I.type)
            p.expect(",")
            b = p.next()[1:].strip('"')
            p.expect("]")
            inc.append((v, b))
            p.accept(",")
        I.a["inc"] = inc
    elif op == "select":
        p.skip_attrs()
        t, c = p.tv()
        p.expect(",")
        t1, a = p.tv()
        p.expect(",")
        t2, b = p.tv()
        I.type = t1
        I.ops = [c, a, b]
    elif op == "unreachable":
        pass
    elif op in ("extractvalue", "insertvalue", "freeze", "va_arg"):
        if op == "extractvalue":
            t, v = p.tv()
            idx = []
            while p.accept(","):
                if p.kind() == "md":
                    break
                idx.append(int(p.next()))
            tt = t
            for i in idx:
                tt = tt.fields[i] if tt.kind == "struct" else tt.elem
            I.type = tt
            I.ops = [v]
            I.a = {"idx": idx, "agg": t}
        elif op == "insertvalue":
            t, v = p.tv()
            p.expect(",")
            t2, e = p.tv()
            idx = []
            while p.accept(","):
                if p.kind() == "md":
                    break
                idx.append(int(p.next()))
            I.type = t
            I.ops = [v, e]
            I.a = {"idx": idx}
        elif op == "freeze":
            t, v = p.tv()
            I.type = t
            I.ops = [v]
        else:
            t, v = p.tv()
            p.expect(",")
            I.type = p.type()
            I.ops = [v]
    else:
        raise IRError("unknown instruction %r" % line)
    I.fn = fn
    return I


def mod_fn_var(fn, mod, ssa, di):
    m = re.search(r'name: "([^"]*)"', mod.md.get(di, ""))
    if m:
        fn.varnames.setdefault(ssa, [])
        if m.group(1) not in fn.varnames[ssa]:
            fn.varnames[ssa].append(m.group(1))


def parse(text, name):
    mod = Module(name)
    lines = text.split("\n")
    # metadata first (variable names need it)
    for l in lines:
        if l.startswith("!"):
            m = re.match(r"(![-\w.]+) = (?:distinct )?(.*)$", l)
            if m:
                mod.md[m.group(1)] = m.group(2)
    # types
    for l in lines:
        m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)$', l)
        if m:
            nm = m.group(1).strip('"')
            t = mod.types.get(nm)
            if t is None:
                t = mod.types[nm] = Type("struct", name=nm, fields=None)
            if m.group(2) == "opaque":
                continue
            tt = P(mod, lex(m.group(2))).type()
            t.fields = tt.fields
            t.kind = tt.kind
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("@"):
            _global(mod, l)
        elif l.startswith("declare"):
            _decl(mod, l)
        elif l.startswith("define"):
            i = _func(mod, lines, i)
        i += 1
    return mod


def _global(mod, l):
    m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
    g = Global()
    g.name = m.group(1).strip('"')
    rest = m.group(2)
    p = P(mod, lex(rest))
    g.external = False
    g.const = False
    g.internal = False
    while True:
        x = p.peek()
        if x in ("private", "internal"):
            g.internal = True
        if x == "external":
            g.external = True
        if x == "constant":
            g.const = True
        if x in P.ATTRS or x == "dso_local" or x == "thread_local":
            p.next()
            if x in ("constant", "global"):
                break
        else:
            break
    g.type = p.type()
    g.init = None
    if not g.external and p.peek() not in (",", None):
        try:
            g.init = p.value(g.type)
        except IRError:
            g.init = ("undef",)
    mod.globals[g.name] = g


def _sig(mod, l):
    m = re.match(r"(?:define|declare)\s+(.*)$", l)
    p = P(mod, lex(re.sub(r"\)[^)]*$", ")", m.group(1)) if False else m.group(1)))
    p.skip_attrs()
    p.skip_attrs()
    # return type (must not swallow the parameter list)
    t = p.type()
    p.skip_attrs()
    name = p.next()[1:].strip('"')
    p.expect("(")
    params, va = [], False
    while not p.accept(")"):
        if p.accept("..."):
            va = True
            continue
        t1 = p.type()
        p.skip_attrs()
        nm = None
        if p.kind() == "local":
            nm = p.next()[1:].strip('"')
        params.append((nm, t1))
        p.accept(",")
    di = p.dbg()
    return name, t, params, va, di


def _decl(mod, l):
    name, t, params, va, _ = _sig(mod, l)
    mod.decls[name] = (t, [x[1] for x in params], va)


def _func(mod, lines, i):
    l = lines[i]
    name, t, params, va, di = _sig(mod, l.rstrip().rstrip("{"))
    f = Function(mod, name)
    f.ret, f.vararg, f.di = t, va, di
    f.params = params
    f.internal = " internal " in l.split("@")[0]
    cur = None
    # label of the entry block: explicit, or the number following the unnamed params
    i += 1
    first = True
    while lines[i] != "}":
        s = lines[i]
        m = re.match(r'("[^"]*"|[-\w$.]+):', s)
        if m:
            cur = Block(m.group(1).strip('"'))
            f.blocks[cur.label] = cur
            f.order.append(cur.label)
            if first:
                f.entry = cur.label
                first = False
        elif s.strip():
            if cur is None:
                nums = [int(x[0]) for x in params if x[0] and x[0].isdigit()]
                lab = str(max(nums) + 1 if nums else 0)
                cur = Block(lab)
                f.blocks[lab] = cur
                f.order.append(lab)
                f.entry = lab
                first = False
            txt = s.strip()
            if txt.startswith("switch"):
                while not re.search(r"\](, !|$)", txt):
                    i += 1
                    txt += " " + lines[i].strip()
            ins = parse_inst(mod, txt, f)
            if ins is not None:
                ins.idx = len(cur.insts)
                cur.insts.append(ins)
        i += 1
    f.finish()
    mod.funcs[name] = f
    return i
