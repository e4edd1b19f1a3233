"""P32: no hidden state - what a function does depends on its arguments and the objects behind them, not on earlier calls."""
import ceelib as C
import ir

MIN = {"owned": 20, "process": 400}
EXPLAIN = ("Effect analysis of every function of every unit. Rule owned: each variable of the library that outlives a call (file scope or static, not const) is traced through all uses - pointer arithmetic, arguments, "
           "results - from every public function that reaches it. It may be read only; or written with the same constants, all of them before any use, at every use; or used as scratch space that is filled before each "
           "read and not given away. Anything else is state that outlives the call. Exempt is the table that musl_hcreate, musl_hsearch and musl_hdestroy share by definition. Rule process: no function calls what "
           "changes or uses process-wide settings of the C library, nor writes the library's variables.")
ASSUME = ["the counts in the header of a shared constant (true, false, null, undefined, the empty block) decide nothing, as its actions do nothing"]

SHARED = {"musl_hcreate", "musl_hsearch", "musl_hdestroy"}
PROCESS = set("""strtok setlocale setenv putenv unsetenv clearenv chdir fchdir umask signal sigaction atexit srand rand random srandom drand48 srand48 lrand48 localtime gmtime ctime asctime
 alarm tmpnam setrlimit hcreate hsearch hdestroy fork vfork system mblen mbtowc wctomb strsignal nice setuid setgid chroot sigprocmask raise kill dup2 tzset fesetround freopen ttyname crypt ecvt fcvt getpwnam
 getpwuid gethostbyname inet_ntoa dirname basename setbuf setvbuf mallopt""".split())
FILL = set("snprintf sprintf vsnprintf vsprintf strcpy memset stpcpy".split())
READ = set("""perror puts fputs printf fprintf fopen open strlen strcmp strncmp strcoll memcmp bcmp strchr strrchr strstr strdup strndup strspn strcspn strpbrk memchr fwrite write atoi atol atof strtol strtoul
 strtoll strtoull strtod strnlen strcasecmp strncasecmp fdopen""".split())
DEPTH = 8


def offs(mod, I):
    """constant offset of a getelementptr, or None"""
    t, o = I.a["src"], 0
    for i, (ty, v) in enumerate(zip(I.a["types"][1:], I.ops[1:])):
        n = v[1] if v[0] == "i" else 0 if v[0] == "zero" else None
        if i == 0:
            if n is None:
                return None
            o += n * mod.sizeof(t)
            continue
        if t.kind == "struct":
            mod.layout(t)
            if n is None:
                return None
            o += t.offs[n]
            t = t.fields[n]
        else:
            t = t.elem
            if n is None:
                return None
            o += n * mod.sizeof(t)
    return o


class Walk:
    """all that happens to global g of module mod in and below one function"""

    def __init__(self, prog, mod, g, touch):
        self.prog, self.mod, self.g, self.touch = prog, mod, g, touch
        self.events = []

    def ptr(self, v, env, mod):
        """offset into g: int, None (unknown), or False if v does not point into g"""
        if v[0] == "g":
            return 0 if v[1] == self.g and mod is self.mod else False
        if v[0] == "r":
            return env.get(v[1], False)
        if v[0] == "ce":
            I = v[1]
            if not I.ops:
                return False
            b = self.ptr(I.ops[0], env, mod)
            if b is False:
                return any(self.ptr(x, env, mod) is not False for x in I.ops[1:]) and None
            if I.op == "getelementptr":
                o = offs(mod, I)
                return None if o is None or b is None else b + o
            return b
        return False

    def const(self, v, consts, mod):
        if v[0] in ("i", "null", "zero", "f", "undef", "str", "agg", "ce"):
            return v[:2] if v[0] in ("i", "f") else v[:1]
        if v[0] == "g":
            return ("g", v[1])
        if v[0] == "r":
            return consts.get(v[1])
        return None

    def run(self, f, env, consts, chain):
        """events of f; the offsets at which f returns a pointer into g"""
        env, consts = dict(env), dict(consts)
        mod = f.mod
        rets = set()
        for _ in range(6):
            size = len(env), len(consts)
            for lab in f.rpo():
                for I in f.blocks[lab].insts:
                    if I.res is None:
                        continue
                    if I.op in ("getelementptr", "bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
                        b = self.ptr(I.ops[0], env, mod)
                        if b is not False:
                            o = offs(mod, I) if I.op == "getelementptr" else 0
                            env[I.res] = None if b is None or o is None else b + o
                            continue
                    if I.op in ("phi", "select"):
                        vs = [v for v, _ in I.a["inc"]] if I.op == "phi" else I.ops[1:]
                        ps = [self.ptr(v, env, mod) for v in vs]
                        if any(p is not False for p in ps):
                            env[I.res] = ps[0] if len(set(map(repr, ps))) == 1 else None
                            continue
                        cs = {self.const(v, consts, mod) for v in vs}
                        if len(cs) == 1 and None not in cs:
                            consts[I.res] = cs.pop()
                    elif I.op == "load":
                        if self.ptr(I.ops[0], env, mod) is not False:
                            consts[I.res] = ("own",)
                    elif I.op == "call":
                        o = self.through(I, env, consts, mod)
                        if o is not False:
                            env[I.res] = o
                    elif I.ops and I.op not in ("alloca", "va_arg", "extractvalue"):
                        cs = [self.const(v, consts, mod) for v in I.ops]
                        if None not in cs:
                            consts[I.res] = (I.op,) + tuple(cs)
            if (len(env), len(consts)) == size:
                break
        for lab in f.rpo():
            for I in f.blocks[lab].insts:
                here = chain + (I,)
                if I.op == "load":
                    if self.ptr(I.ops[0], env, mod) is not False and not keeps_bits(f, I):
                        self.ev("read", here)
                elif I.op == "store":
                    if self.ptr(I.ops[0], env, mod) is not False:
                        self.ev("escape", here)
                    p = self.ptr(I.ops[1], env, mod)
                    if p is not False:
                        self.ev("write", here, p, self.const(I.ops[0], consts, mod))
                elif I.op == "ret":
                    p = self.ptr(I.ops[0], env, mod) if I.ops else False
                    if p is not False:
                        rets.add(p)
                        if not chain:
                            self.ev("given", here)
                elif I.op == "call":
                    self.call(I, env, consts, mod, here)
        return rets

    def callee(self, I):
        c = I.a["callee"]
        return c[1] if c[0] == "g" else None

    def target(self, I, env, consts, mod):
        """the function to look into, with the bindings of its parameters"""
        n = self.callee(I)
        f = n and (mod.funcs.get(n) or self.prog.find(n) if self.defined(n, mod) else None)
        if not f:
            return None, None, None
        e, c = {}, {}
        for (pn, _), v in zip(f.params, I.ops):
            p = self.ptr(v, env, mod)
            if p is not False:
                e[pn] = p
            k = self.const(v, consts, mod)
            if k is not None:
                c[pn] = k
        return f, e, c

    def defined(self, n, mod):
        return n in mod.funcs or any(n in m.funcs and not m.funcs[n].internal for m in self.prog.mods)

    def through(self, I, env, consts, mod):
        """a call's result as a pointer into g"""
        f, e, c = self.target(I, env, consts, mod)
        if f is None:
            n = self.callee(I)
            if n and n in ("strcpy", "memcpy", "memset", "strchr", "strstr", "strrchr", "memchr", "memmove", "strcat", "fgets", "strncpy", "stpcpy") and I.ops:
                p = self.ptr(I.ops[0], env, mod)
                return False if p is False else p if n in ("strcpy", "memcpy", "memset", "memmove", "strcat") else None
            return False
        if not e and (f.mod, f.name) not in self.touch or self.depth > DEPTH:
            return False
        keep, self.events = self.events, []
        self.depth += 1
        r = self.run(f, e, c, (I,))
        self.depth -= 1
        self.events = keep
        return False if not r else r.pop() if len(r) == 1 else None

    depth = 0

    def call(self, I, env, consts, mod, here):
        n = self.callee(I)
        ps = [self.ptr(v, env, mod) for v in I.ops]
        mine = [i for i, p in enumerate(ps) if p is not False]
        if n and n.startswith("llvm.lifetime"):
            return
        f, e, c = self.target(I, env, consts, mod)
        if f is not None:
            if mine or (f.mod, f.name) in self.touch:
                if len(here) > DEPTH:
                    self.ev("escape", here)
                else:
                    self.run(f, e, c, here)
            return
        if not mine:
            return
        base = n.split(".")[1] if n and n.startswith("llvm.") and len(n.split(".")) > 1 else n
        for i in mine:
            if i == 0 and base == "memset":
                self.ev("write", here, ps[0], self.const(I.ops[1], consts, mod), fill=ps[0] == 0)
            elif i == 0 and base in ("memcpy", "memmove"):
                s = I.ops[1]
                k = s[0] == "g" and s[1] in mod.globals and mod.globals[s[1]].const
                self.ev("write", here, ps[0], ("copy", s[1]) if k else None, fill=ps[0] == 0)
            elif base in ("memcpy", "memmove"):
                self.ev("read", here)
            elif i == 0 and base in FILL:
                self.ev("write", here, ps[0], None, fill=ps[0] == 0)
            elif base in READ or base in FILL:
                self.ev("read", here)
            else:
                self.ev("read", here)
                self.ev("write", here, ps[i], None)

    def ev(self, kind, chain, off=None, val=None, fill=False):
        self.events.append((kind, chain, off, val, fill))


def keeps_bits(f, load):
    """the load only serves to set some bits of a word and leave its others"""
    users = {}
    for b in f.blocks.values():
        for I in b.insts:
            for v in I.ops + ([v for v, _ in I.a["inc"]] if I.op == "phi" else []):
                if v[0] == "r":
                    users.setdefault(v[1], []).append(I)
    masked = users.get(load.res, [])
    for I in masked:
        if I.op != "and" or I.ops[1][0] != "i":
            return False
        for J in users.get(I.res, []):
            st = [J] if J.op == "store" else users.get(J.res, []) if J.op == "or" else [None]
            if any(s is None or s.op != "store" or repr(s.ops[1]) != repr(load.ops[0]) for s in st):
                return False
    return bool(masked)


# ---------------------------------------------------------------- paths
def reach(f, goal, block):
    """can goal be reached from the entry of f without executing an instruction of block"""
    seen = set()
    todo = [f.entry]
    while todo:
        lab = todo.pop()
        if lab in seen:
            continue
        seen.add(lab)
        for I in f.blocks[lab].insts:
            if I is goal:
                return True
            if I in block:
                break
        else:
            todo += f.blocks[lab].succs()
    return False


def definite(chain, k):
    """once called, the functions chain[k:] of a chain always come to its end"""
    for I in chain[k:]:
        f = I.fn
        for lab in f.rpo():
            t = f.blocks[lab].insts[-1]
            if t.op == "ret" and reach(f, t, {I}):
                return False
    return True


def avoids(r, ws, k=0):
    """can the event of chain r happen with none of the events ws before it"""
    same = [w for w in ws if w[k] is r[k]]
    block = {w[k] for w in ws if w[k] is not r[k] and definite(w, k + 1)}
    if not reach(r[k].fn, r[k], block):
        return False
    if k + 1 == len(r):
        return True
    return avoids(r, [w for w in same if len(w) > k + 1], k + 1)


# ---------------------------------------------------------------- rules
def names(v, out):
    """globals mentioned by an operand"""
    if v[0] == "g":
        out.add(v[1])
    elif v[0] == "ce":
        for x in v[1].ops:
            names(x, out)
    elif v[0] == "agg":
        for _, x in v[1]:
            names(x, out)


def mentions(f):
    out = set()
    for b in f.blocks.values():
        for I in b.insts:
            for v in I.ops:
                names(v, out)
            if I.op == "phi":
                for v, _ in I.a["inc"]:
                    names(v, out)
            if I.op == "call":
                names(I.a["callee"], out)
    return out


def run(ctx):
    for label in ("src", "rel", "sql", "sv"):
        prog = C.program(label)
        ctx.label = label
        mods = [m for m in prog.mods if label != "sql" or not m.name.startswith(("core", "json"))]
        for m in mods:
            use = {n: mentions(f) for n, f in m.funcs.items()}
            process(ctx, m, use)
            taken = set()
            for g in m.globals.values():
                if g.init:
                    names(g.init, taken)
            for n, g in sorted(m.globals.items()):
                if not g.const and not g.external:
                    owned(ctx, prog, m, n, use, taken)


def process(ctx, m, use):
    for n, f in sorted(m.funcs.items()):
        ctx.funcs.add((ctx.label, m.name, n))
        for b in f.blocks.values():
            for I in b.insts:
                if I.op == "call" and I.a["callee"][0] == "g":
                    c = I.a["callee"][1]
                    ctx.callsites.add((ctx.label, m.name, n, I.loc()))
                    if c in PROCESS and c not in m.funcs:
                        ctx.check(False, "process", "%s calls %s" % (n, c), "uses or changes what is common to the whole process", I.loc())
                elif I.op == "store":
                    out = set()
                    names(I.ops[1], out)
                    for g in out:
                        if g in m.globals and m.globals[g].external:
                            ctx.check(False, "process", "%s writes %s" % (n, g), "changes a variable common to the whole process", I.loc())
        ctx.ob("process")


def closure(m, use, n):
    """internal functions that reach n, and the functions through which it is reached"""
    touch = {f for f, u in use.items() if n in u}
    more = True
    while more:
        more = False
        for f, u in use.items():
            if f not in touch and any(x in touch and m.funcs[x].internal for x in u if x in m.funcs):
                touch.add(f)
                more = True
    return touch


def owned(ctx, prog, m, n, use, taken):
    touch = closure(m, use, n)
    if n in taken:
        ctx.ob("owned")
    called = set()
    for f in m.funcs.values():
        for b in f.blocks.values():
            for I in b.insts:
                if I.op == "call" and I.a["callee"][0] == "g":
                    called.add(I.a["callee"][1])
    roots = [f for f in sorted(touch) if not m.funcs[f].internal or f not in called]
    if roots and set(roots) <= SHARED:
        ctx.ob("owned", len(roots))
        return
    keys = {(m, f) for f in touch if m.funcs[f].internal}
    wrote = {}
    for r in roots:
        if r in SHARED:
            continue
        ctx.ob("owned")
        w = Walk(prog, m, n, keys)
        w.run(m.funcs[r], {}, {}, ())
        seen, ev = set(), []
        for e in w.events:
            k = (e[0], tuple(map(id, e[1])), e[2])
            if k not in seen:
                seen.add(k)
                ev.append(e)
        ctx.paths += len(ev)
        bad = judge(ev, n in taken)
        ws = sorted({(repr(e[2]), repr(e[3])) for e in ev if e[0] == "write"})
        if not bad and ws:
            wrote[r] = ws
        if bad:
            ctx.check(False, "owned", "%s in %s" % (n.split(".")[-1], r), "%s keeps %s: what it holds from an earlier call, for whatever state, is %s" % (r, n.split(".")[-1], bad[0]), "%s:%d (%s)" % (bad[1].loc() + (bad[1].fn.name,))
                      if isinstance(bad[1].loc(), tuple) else bad[1].loc())
    if len({repr(x) for x in wrote.values()}) > 1:
        rs = sorted(wrote)
        ctx.check(False, "owned", n, "%s is written differently by %s" % (n, ", ".join(rs)), "%s:%d" % m.funcs[rs[0]].loc())


def judge(ev, taken):
    """None, or (what, instruction)"""
    writes = [e for e in ev if e[0] == "write"]
    uses = [e for e in ev if e[0] in ("read", "given")]
    for e in ev:
        if e[0] == "escape":
            return "stored where others find it", e[1][-1]
    if not writes:
        return None
    if taken:
        return "reached from a table", writes[0][1][-1]
    if all(e[3] is not None for e in writes):
        for u in uses:
            for w in writes:
                if u[1] != w[1] and avoids(u[1], [w[1]]):
                    return "used at a place that does not set it first", u[1][-1]
        return None
    for u in uses:
        if u[0] == "given":
            return "given to the caller", u[1][-1]
        if avoids(u[1], [w[1] for w in writes if w[4]]):
            return "used", u[1][-1]
    return None
