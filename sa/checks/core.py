"""Facts shared by the checks of the core library (all found by data flow, anchored on public names)."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO, Ev

DELETERS = {"cee_del", "cee_del_e", "cee_del_ref"}
COUNTERS = {"cee_incr_indegree", "cee_decr_indegree"}
TRACERS = {"cee_trace"}
PUBPREFIX = ("cee_", "str_", "get_")


def musl(prog):
    return {n for n in prog.index if n.startswith("musl_")}


def opaque(prog):
    return DELETERS | COUNTERS | TRACERS | musl(prog)


def public(prog, mods=None):
    out = []
    for m in prog.mods:
        if mods and not m.name.startswith(mods):
            continue
        for n, f in m.funcs.items():
            if not f.internal and n.startswith(PUBPREFIX):
                out.append(n)
    return sorted(set(out))


class Core:
    """one analysed program plus the layout of the object header and of the state"""

    def __init__(self, ctx, label):
        self.ctx = ctx
        ctx.label = label
        self.prog = C.program(label)
        self.L = C.Layout(self.prog)
        o = lambda m: self.L.off("cee_sect", m)
        self.STATE, self.NEXT, self.PREV, self.TRACE = o("state"), o("trace_next"), o("trace_prev"), o("trace")
        self.INDEG, self.NPROD, self.BLK = o("in_degree"), o("n_product"), o("mem_block_size")
        self.SECT = self.L.size("cee_sect")
        self.TAIL = self.L.off("cee_state", "trace_tail")
        self.RET = self.L.bits("cee_sect", "retained")
        self.MARK = self.L.bits("cee_sect", "gc_mark")
        self.RES = self.L.bits("cee_sect", "resize_method")
        self.en = {}
        for m in self.prog.mods:
            self.en.update(m.enums())
        self.NO_FOLLOW = self.en.get("CEE_TRACE_DEL_NO_FOLLOW", 0)
        self.FOLLOW = self.en.get("CEE_TRACE_DEL_FOLLOW", 1)
        self.TMARK = self.en.get("CEE_TRACE_MARK", 2)
        self.RC, self.DEL, self.NOOP = self.en.get("CEE_DP_DEL_RC", 0), self.en.get("CEE_DP_DEL", 1), self.en.get("CEE_DP_NOOP", 2)

    def interp(self, **kw):
        op = kw.pop("opaque", None)
        return A.Interp(self.prog, opaque=opaque(self.prog) if op is None else op, **kw)

    def has(self, name):
        return self.prog.find(name) is not None

    def fn(self, name):
        f = self.prog.find(name)
        if f is None:
            raise C.Broken("function %s not found" % name)
        return f

    def bits(self, it, st, sect, which):
        """value of a bit field as a constant, or None"""
        bo, w = which
        v = it.load(st, vadd(sect, const(bo // 8)), 1, ("struct.cee_sect", bo // 8), "i8")
        b = A.bitsof(v, 8)[bo % 8:bo % 8 + w]
        if all(isinstance(x, int) for x in b):
            return sum(x << i for i, x in enumerate(b))
        return None

    def field(self, it, st, sect, off, size=8):
        return it.reduce(st, it.load(st, vadd(sect, const(off)), size, ("struct.cee_sect", off), "ptr" if size == 8 else "i%d" % (8 * size)))

    def tail(self, it, st, T):
        return it.reduce(st, it.load(st, vadd(T, const(self.TAIL)), 8, ("struct.cee_state", self.TAIL), "ptr"))

    # ---- objects created by a path: [(sect V, heap atom, event)]
    def created(self, p):
        out = []
        for e in p.ev:
            if e.kind == "store" and e.size == 8 and len(e.addr.t) == 1 and e.addr.t[0][0].kind == "heap" and e.addr.t[0][1] == 1:
                s = e.val.single()
                if s is not None and s.kind == "fn" and e.tag == ("struct.cee_sect", self.TRACE):
                    sect = vadd(e.addr, const(-self.TRACE))
                    if not any(x[0] is sect for x in out):
                        out.append((sect, e.addr.t[0][0], e))
        return out

    def lazy_chain(self):
        """initial heap: objects that exist on entry share one state; each state's chain ends in some existing object"""
        T = obj("T")
        ends = {}

        def lazy(it, st, addr, size, tag):
            if tag == ("struct.cee_sect", self.STATE):
                return T
            if tag == ("struct.cee_state", self.TAIL):
                if addr not in ends:
                    ends[addr] = obj("end")
                return ends[addr]
            return None
        return lazy

    def where(self, f):
        return "%s:%d (%s)" % (f.loc() + (f.name,)) if hasattr(f, "loc") else f.name


_classes = {}


def classes(core):
    """object classes: constructor name -> dict(trace=fn name, off=data offset in its block, aux=[field offsets of owned plain blocks])"""
    key = core.prog.label
    if key in _classes:
        return _classes[key]
    out = {}
    for n in public(core.prog, "core"):
        f = core.prog.find(n)
        if not f.ret.kind == "ptr":
            continue
        it = core.interp()
        try:
            ps = it.run(n)
        except A.AnalysisError:
            continue
        for p in ps:
            if p.kind != "ret" or p.ret is None or not p.ret.t:
                continue
            b = p.ret.t[0][0]
            if b.kind != "heap" or len(p.ret.t) != 1:
                continue
            for sect, h, e in core.created(p):
                if h is b and vsub(p.ret, sect).c == core.SECT:
                    aux = {}
                    for x in p.ev:
                        if x.kind == "store" and x.val.single() is not None and x.val.single().kind == "heap" and x.size == 8:
                            g = x.val.single()
                            if len(x.addr.t) == 1 and x.addr.t[0][0] is h and g is not h and \
                                    not any(c[1] is g for c in core.created(p)):
                                aux[x.addr.c - p.ret.c] = x
                    subs = {}
                    made = [vadd(x[0], const(core.SECT)) for x in core.created(p)]
                    for x in p.ev:
                        if x.kind == "store" and x.size == 8 and len(x.addr.t) == 1 and x.addr.t[0][0] is h:
                            o = x.addr.c - p.ret.c
                            subs.pop(o, None)
                            if x.val in made and x.val is not p.ret and x.tag and x.tag[0] != "struct.cee_sect":
                                subs[o] = x
                    out[n] = {"trace": e.val.single().args[0], "off": p.ret.c, "aux": sorted(aux), "fn": f, "size": None, "alloc": b,
                              "subs": sorted(subs)}
                    break
    _classes[key] = out
    return out


# ------------------------------------------------------------------ object shapes
class Shape:
    pass


_uid = [-1000]


def obj(name):
    """address of a distinct live object"""
    _uid[0] -= 1
    return av(A.atom("heap", _uid[0], name))


def put(st, addr, val, size, tag, ty=None):
    st.mem[addr] = (val, size, tag, ty)


def shaped(core, off, kind, bits=None, st=None):
    """
    an object whose data starts `off` bytes into its block, linked in a trace chain:
      tail      P <-> X          T.tail = X
      inner     P <-> X <-> N    T.tail = Q (somewhere behind N)
      last2     P <-> X <-> N    T.tail = N
    """
    s = Shape()
    s.st = st.copy() if st is not None else A.State()
    s.kind = kind
    s.block = obj("X")
    s.p = vadd(s.block, const(off))
    s.X = vadd(s.p, const(-core.SECT))
    s.P, s.T = obj("P"), obj("T")
    s.N = obj("N") if kind != "tail" else ZERO
    s.Q = {"tail": s.X, "last2": s.N}.get(kind) or obj("Q")
    c = "struct.cee_sect"

    def f(sect, o, v):
        put(s.st, vadd(sect, const(o)), v, 8, (c, o), "ptr")
    f(s.X, core.STATE, s.T)
    f(s.X, core.PREV, s.P)
    f(s.X, core.NEXT, s.N)
    f(s.P, core.NEXT, s.X)
    if kind != "tail":
        f(s.N, core.PREV, s.X)
    put(s.st, vadd(s.T, const(core.TAIL)), s.Q, 8, ("struct.cee_state", core.TAIL), "ptr")
    if bits is not None:
        put(s.st, s.X, const(bits), 1, (c, 0), "i8")
    return s


def relinked(core, s):
    """the same object with other neighbours (after other objects were deleted); apply(st) installs them"""
    r = Shape()
    r.kind, r.block, r.p, r.X, r.T = s.kind, s.block, s.p, s.X, s.T
    r.P = obj("P2")
    r.N = obj("N2") if s.kind != "tail" else ZERO
    r.Q = {"tail": r.X, "last2": r.N}.get(s.kind) or obj("Q2")

    def apply(st):
        c = "struct.cee_sect"
        for sect, o, v in ((r.X, core.PREV, r.P), (r.X, core.NEXT, r.N), (r.P, core.NEXT, r.X)) + (((r.N, core.PREV, r.X),) if s.kind != "tail" else ()):
            put(st, vadd(sect, const(o)), v, 8, (c, o), "ptr")
        put(st, vadd(r.T, const(core.TAIL)), r.Q, 8, ("struct.cee_state", core.TAIL), "ptr")
    r.apply = apply
    r.linked = lambda it, st: core.field(it, st, core.field(it, st, s.X, core.PREV), core.NEXT) is s.X
    return r


SHAPES = ("tail", "inner", "last2")


def unlinked(core, it, st, s):
    """problem text if X is not cleanly out of the chain, else None"""
    if s.kind == "tail":
        if core.field(it, st, s.P, core.NEXT) is not ZERO:
            return "its predecessor still points forward (%r)" % core.field(it, st, s.P, core.NEXT)
        if core.tail(it, st, s.T) is not s.P:
            return "the chain's end is %r, not its predecessor" % core.tail(it, st, s.T)
        return None
    if core.field(it, st, s.P, core.NEXT) is not s.N:
        return "its predecessor's successor is %r, not its successor" % core.field(it, st, s.P, core.NEXT)
    if core.field(it, st, s.N, core.PREV) is not s.P:
        return "its successor's predecessor is %r, not its predecessor" % core.field(it, st, s.N, core.PREV)
    if core.tail(it, st, s.T) is not s.Q:
        return "the chain's end changed to %r" % core.tail(it, st, s.T)
    return None


def problems(p):
    """memory-safety events on a path (including inside loops); a deliberate crash (cee_segfault) is no access"""
    return [e for e in C.flat(p.ev) if e.kind in ("uaf", "doublefree") or e.kind == "null" and p.kind == "ret"]


# ------------------------------------------------------------------ what each object holds
WALKERS = {"musl_twalk", "musl_tdestroy"}


def holdings(core):
    """constructor -> list of ("fixed", offset) | ("array", base fn, count fn) | ("tree",)"""
    L = core.L
    fx = lambda s, *ms: [("fixed", L.off(s, m)) for m in ms]
    h = {
        "cee_list_mk_e": [("array", lambda it, s: it.load(s.st, s.p, 8, ("struct.cee_list", 0), "ptr"), "cee_list_size")],
        "cee_stack_mk_e": [("array", lambda it, s: s.p, "cee_stack_size")],
        "cee_n_tuple_mk": [("array", lambda it, s: s.p, None)],
        "cee_tuple_mk_e": [("fixed", 8 * i) for i in range(2)],
        "cee_triple_mk_e": [("fixed", 8 * i) for i in range(3)],
        "cee_quadruple_mk_e": [("fixed", 8 * i) for i in range(4)],
        "cee_tagged_mk_e": fx("cee_tagged", "ptr"),
        "cee_closure_mk": fx("cee_closure", "env"),
        "cee_env_mk_e": fx("cee_env", "outer", "vars"),
        "cee_map_mk_e": [("tree",)],
        "cee_set_mk_e": [("tree",)],
        "cee_dict_mk_e": [],
        "cee_state_mk": [],
        "cee_boxed_from_i64": [],
        "cee_str_mk": [],
        "cee_block_mk": [],
    }
    cls = classes(core)
    for n in h:
        core.ctx.must(n in cls, "constructor %s creates no object" % n)
        for o in cls[n]["subs"]:
            if ("fixed", o) not in h[n]:
                h[n].append(("fixed", o))
    return h


def count_of(core, it, s, how):
    """symbolic number of elements of the array part of a shaped object"""
    fn = how[2]
    if isinstance(fn, int):
        return const(fn)
    if fn is None:
        return A.op("zext", 8, C.ld(vadd(s.X, const(core.NPROD))))
    ps = [p for p in core.interp().run(fn, [s.p], s.st) if p.kind == "ret"]
    vals = {C.strip(p.ret) for p in ps}
    core.ctx.need(len(vals) == 1, "%s does not return one value" % fn)
    return vals.pop()


def visits(core, e, names, x=None, extra=None):
    """argument tuple if the event hands a managed object to one of the functions (directly or through its trace pointer)"""
    if e.kind == "call" and e.name in names:
        return e.args
    if e.kind == "icall" and "cee_trace" in names and len(e.args) >= 2:
        if C.strip(e.fn) is C.ld(vadd(C.strip(e.args[0]), const(core.TRACE - core.SECT))):
            return e.args
    return None


def tree_loops(p):
    return [e for e in p.ev if e.kind == "loop" and any(x.kind == "call" and x.name == "ab_node" for x in C.flat(e.exit))]


def node_of(evs):
    """(root, node) of an abstract tree iteration"""
    for x in evs:
        if x.kind == "call" and x.name == "ab_node":
            return x.args[0], x.ret
    return None, None


# ------------------------------------------------------------------ deletion policies
def policies(core):
    """constructor -> [(offset of the policy field rel. to the object, stride per element or 0, source V)]"""
    out = {}
    cls = classes(core)
    for n, d in cls.items():
        f = d["fn"]
        it = core.interp()
        found = []
        for p in it.run(n):
            if p.kind != "ret" or p.ret is None or not p.ret.t:
                continue
            h = p.ret.t[0][0]
            for e in C.flat(p.ev):
                if e.kind != "store" or e.size != 4:
                    continue
                a = C.strip(e.addr)
                if not any(x is h and k == 1 for x, k in a.t):
                    continue
                rel = vsub(a, C.strip(p.ret))
                stride = sum(k for x, k in rel.t)
                v = C.strip(e.val)
                x = v.single()
                okv = x is not None and (x.kind == "arg" or (x.kind == "ld" and any(y.kind in ("arg", "heap") for y, k in x.args[0].t)))
                if okv:
                    r = (rel.c, stride, v)
                    if r not in found:
                        found.append(r)
        out[n] = found
    return out


def policy_lazy(core, s, offs, pol):
    """initial-heap oracle: the policy field(s) of object s hold the constant(s) pol"""
    def lazy(it, st, addr, size, tag):
        if size != 4:
            return None
        rel = vsub(C.strip(addr), C.strip(s.p))
        for o, stride, src in offs:
            if stride:
                if rel.c - o >= 0 and (rel.t and all(k == stride for x, k in rel.t) and rel.c == o or (not rel.t and 0 <= rel.c - o < 4 * 16 and (rel.c - o) % 4 == 0)):
                    return const(pol[(o, stride)] if isinstance(pol, dict) else pol)
            elif not rel.t and rel.c == o:
                return const(pol[(o, stride)] if isinstance(pol, dict) else pol)
        return None
    return lazy
