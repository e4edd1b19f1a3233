"""Value sets: a domain for conditions over a few narrow unknowns (bytes of a text, 16-bit code units).

Every tracked unknown carries the set of values it can have on the path; a condition over one of them splits that set exactly,
a condition over several is decided on the product of their sets, or by cases over the smallest of them."""
import numpy as np

import absint as A
from absint import av, const, vadd, vsub, mk, ZERO, ONE

DOMS = {"byte": np.arange(-128, 128, dtype=np.int64), "hex": np.arange(0, 65536, dtype=np.int64)}
LOW = {"byte": -128, "hex": 0}
FULL = {k: np.ones(len(d), dtype=bool) for k, d in DOMS.items()}
LIMIT = 1 << 21

# ctype table of the C locale, index -128..255 (as glibc's __ctype_b)
_CT = np.zeros(384, dtype=np.int64)
for _i in range(128):
    _c = chr(_i)
    _v = 0
    if "A" <= _c <= "Z": _v |= 0x100
    if "a" <= _c <= "z": _v |= 0x200
    if _c.isascii() and _c.isalpha(): _v |= 0x400
    if "0" <= _c <= "9": _v |= 0x800
    if _c in "0123456789abcdefABCDEF": _v |= 0x1000
    if _c in " \t\n\v\f\r": _v |= 0x2000
    if 32 <= _i < 127: _v |= 0x4000
    if 32 < _i < 127: _v |= 0x8000
    if _c in " \t": _v |= 1
    if _i < 32 or _i == 127: _v |= 2
    if 32 < _i < 127 and not _c.isalnum(): _v |= 4
    if _c.isascii() and _c.isalnum(): _v |= 8
    _CT[_i + 128] = _v
CT = {"isupper": 0x100, "islower": 0x200, "isalpha": 0x400, "isdigit": 0x800, "isxdigit": 0x1000, "isspace": 0x2000, "isprint": 0x4000,
      "isgraph": 0x8000, "isblank": 1, "iscntrl": 2, "ispunct": 4, "isalnum": 8}


class Unknown(Exception):
    pass


_deps = {}
NODEP = frozenset()


def deps(v):
    """tracked unknowns a value is computed from; None if something else is in it"""
    r = _deps.get(v, 0)
    if r != 0:
        return r
    out = NODEP
    for a, _ in v.t:
        d = adeps(a)
        if d is None:
            out = None
            break
        out = out | d
    _deps[v] = out
    return out


_adeps = {}


def adeps(a):
    r = _adeps.get(a, 0)
    if r != 0:
        return r
    if a.kind in DOMS:
        r = frozenset((a,))
    elif a.kind == "op" and a.args[0] in OPS:
        r = NODEP
        for x in parts(a):
            d = deps(x)
            if d is None:
                r = None
                break
            r = r | d
    elif a.kind == "cmp":
        r = kdeps(a.args)
    else:
        r = None
    _adeps[a] = r
    return r


def parts(a):
    if a.args[0] == "bits":
        return [x[0] for x in a.args[1] if isinstance(x, tuple)]
    return [x for x in a.args[1:] if isinstance(x, A.V)]


def kdeps(key):
    out = NODEP
    for x in key[1:]:
        if not isinstance(x, A.V):
            return None
        d = deps(x)
        if d is None:
            return None
        out = out | d
    return out if key[0] in ("le0", "eq", "ult", "ule") else None


OPS = {"zext", "sext", "trunc", "bits", "and", "or", "xor", "shl", "lshr", "ashr", "band", "bor", "bxor", "udiv", "sdiv", "urem", "srem", "mul",
       "ctype", "lower", "upper", "sel", "tab"}


def ev(v, env):
    r = v.c
    for a, k in v.t:
        r = r + k * evat(a, env)
    return r


def evat(a, env):
    x = env.get(a)
    if x is not None:
        return x
    if a.kind == "cmp":
        r = evkey(a.args, env)
        r = r.astype(np.int64) if isinstance(r, np.ndarray) else int(r)
    elif a.kind == "op":
        o = a.args[0]
        if o in ("zext", "sext", "trunc"):
            n = a.args[1]
            y = ev(a.args[2], env)
            r = y & ((1 << n) - 1)
            if o != "zext" and n > 1:
                r = r - ((r >> (n - 1)) << n)
        elif o == "bits":
            r = 0
            run = None
            for i, b in enumerate(a.args[1]):
                if b == 0:
                    continue
                if b == 1:
                    r = r + (1 << i)
                else:
                    r = r + (((ev(b[0], env) >> b[1]) & 1) << i)
        elif o == "ctype":
            r = _CT[np.clip(ev(a.args[1], env), -128, 255) + 128]
        elif o in ("lower", "upper"):
            y = ev(a.args[1], env)
            lo, hi, d = (65, 90, 32) if o == "lower" else (97, 122, -32)
            r = np.where((y >= lo) & (y <= hi), y + d, y)
        elif o == "tab":
            lo, xs = a.args[1]
            y = np.asarray(ev(a.args[2], env)) - lo
            r = np.array(xs, dtype=np.int64)[np.clip(y, 0, len(xs) - 1)]
        elif o == "sel":
            r = np.where(ev(a.args[1], env) != 0, ev(a.args[2], env), ev(a.args[3], env))
        else:
            x, y = ev(a.args[1], env), ev(a.args[2], env)
            if o in ("and", "band"):
                r = x & y
            elif o in ("or", "bor"):
                r = x | y
            elif o in ("xor", "bxor"):
                r = x ^ y
            elif o == "shl":
                r = x << y
            elif o in ("lshr", "ashr"):
                r = x >> y
            elif o == "mul":
                r = x * y
            elif o in ("udiv", "sdiv"):
                r = x // y
            else:
                r = x % y
    else:
        raise Unknown()
    env[a] = r
    return r


def u64(x):
    return x.astype(np.uint64) if isinstance(x, np.ndarray) else np.uint64(x & ((1 << 64) - 1))


def evkey(key, env):
    if key[0] == "le0":
        return ev(key[1], env) <= 0
    if key[0] == "eq":
        return ev(key[1], env) == 0
    x, y = u64(ev(key[1], env)), u64(ev(key[2], env))
    return x < y if key[0] == "ult" else x <= y


_truth = {}


def truth1(key, a):
    """values of the one unknown for which the condition holds"""
    t = _truth.get((key, a))
    if t is None:
        r = evkey(key, {a: DOMS[a.kind]})
        t = r if isinstance(r, np.ndarray) else np.full(len(DOMS[a.kind]), bool(r))
        _truth[(key, a)] = t
    return t


def values(mask, a):
    return DOMS[a.kind][mask]


def grid(masks):
    """product of value sets as broadcastable arrays: {atom: array}"""
    n = 1
    for a, m in masks:
        n *= int(m.sum())
    if n > LIMIT:
        raise A.AnalysisError("condition over too many values (%d)" % n)
    env = {}
    for i, (a, m) in enumerate(masks):
        sh = [1] * len(masks)
        sh[i] = -1
        env[a] = values(m, a).reshape(sh)
    return env


def cases(r):
    """the axis of a truth table with the fewest different slices, and its indices by slice: (axis, [indices])"""
    best = None
    for i in range(r.ndim):
        rows = np.packbits(np.moveaxis(r, i, 0).reshape(r.shape[i], -1), axis=1)
        groups = {}
        for j in range(rows.shape[0]):
            groups.setdefault(rows[j].tobytes(), []).append(j)
        if len(groups) > 1 and (best is None or len(groups) < len(best[1])):
            best = (i, list(groups.values()))
    return best


class VInterp(A.Interp):
    """interpreter with value sets; state.vs: unknown -> mask, missing: any value"""

    def __init__(self, *a, **kw):
        A.Interp.__init__(self, *a, **kw)
        self.bounds = True

    def mask(self, st, a):
        m = st.vs.get(a) if st.vs else None
        return FULL[a.kind] if m is None else m

    def setmask(self, st, a, m):
        st.vs = dict(st.vs or {})
        st.vs[a] = m
        if m.sum() == 1:
            st.eqc[a] = const(int(values(m, a)[0]))

    def reduce(self, st, v):
        if not v.t:
            return v
        v = A.Interp.reduce(self, st, v)
        if v.t and st.vs:
            for a, k in v.t:
                if a.kind in ("op", "cmp"):
                    d = adeps(a)
                    if d and all(x in st.eqc for x in d):
                        env = {x: st.eqc[x].c for x in d}
                        r = int(evat(a, env))
                        v = vadd(v, vadd(const(k * r), mk(0, ((a, k),)), -1))
        return v

    def vkey(self, st, key):
        """-> None (not about tracked unknowns) | True | False | (atoms undecided)"""
        d = kdeps(key)
        if not d:
            return None
        if len(d) == 1:
            a = next(iter(d))
            t, m = truth1(key, a), self.mask(st, a)
            if not (t & m).any():
                return False
            if not (m & ~t).any():
                return True
            return (a,)
        d = sorted(d, key=lambda a: a.id)
        env = grid([(a, self.mask(st, a)) for a in d])
        r = evkey(key, env)
        if r.all():
            return True
        if not r.any():
            return False
        return tuple(d)

    def known(self, st, key):
        r = st.facts.get(key)
        if r is not None:
            return r
        k = self.vkey(st, key)
        if k is None:
            return A.Interp.known(self, st, key)
        return k if isinstance(k, bool) else None

    def learn(self, st, key, val):
        k = self.vkey(st, key)
        if k is None:
            return A.Interp.learn(self, st, key, val)
        if isinstance(k, bool):
            return k == val
        if len(k) > 1:
            raise A.AnalysisError("joint condition over %d unknowns" % len(k))
        t, m = truth1(key, k[0]), self.mask(st, k[0])
        self.setmask(st, k[0], m & (t if val else ~t))
        return True

    def decide(self, st, c):
        """states in which the condition value c is decided: [(state, truth)]"""
        r = self.truth(st, c)
        if r is not None:
            return [(st, r)]
        k, p = self.cond_key(st, c)
        d = kdeps(k)
        out = []
        if d and len(d) > 1:
            d = sorted(d, key=lambda a: a.id)
            r = evkey(k, grid([(a, self.mask(st, a)) for a in d]))
            r = np.broadcast_to(r, [int(self.mask(st, a).sum()) for a in d])
            best = cases(r)
            a = d[best[0]]
            idx = np.flatnonzero(self.mask(st, a))
            for rows in best[1]:
                s = st.copy()
                m = np.zeros(len(DOMS[a.kind]), dtype=bool)
                m[idx[rows]] = True
                self.setmask(s, a, m)
                out += self.decide(s, c)
            return out
        for tv in (False, True):
            s = st.copy()
            if self.assume_val(s, c, tv):
                out.append((s, tv))
        return out

    def branch(self, f, I, c, L, env, st):
        return [("goto", L[0] if tv else L[1], env, s) for s, tv in self.decide(st, c)]

    by_place = False

    def places(self, f, I, env, st):
        if not self.by_place:
            return None
        o = I.ops[0 if I.op == "load" else 1]
        if o[0] != "r":
            return None
        a = env[o[1]][0]
        if len(a.t) < 2:
            return None
        a = self.reduce(st, a)
        ds = set()
        for x, _ in a.t:
            ds |= adeps(x) or NODEP
        if not ds:
            return None
        g = self.base_of(a)
        if g is not None and g.kind == "glob" and I.op == "load":
            return None              # a constant table
        ds = sorted(ds, key=lambda x: x.id)
        n = 1
        for d in ds:
            n *= int(self.mask(st, d).sum())
        if n > 300:
            return None
        out = [st]
        for d in ds:
            nxt = []
            for s in out:
                for i in np.flatnonzero(self.mask(s, d)):
                    m = np.zeros(len(DOMS[d.kind]), dtype=bool)
                    m[i] = True
                    s2 = s.copy()
                    self.setmask(s2, d, m)
                    nxt.append(s2)
            out = nxt
        return out

    def reduce_addr(self, st, addr):
        return self.reduce(st, addr) if len(addr.t) > 1 else addr

    # --- accesses of objects whose size is known
    def access(self, st, I, addr, size, kind):
        A.Interp.access(self, st, I, addr, size, kind)
        if self.outside(st, addr, size):
            self.emit(st, "oob", I, addr=addr, access=kind, size=size)

    def outside(self, st, addr, size):
        b = addr.b
        if b is None or b not in st.sizes:
            return False
        n = self.reduce(st, st.sizes[b])
        d = self.reduce(st, vsub(addr, av(b)))
        return n.is_const() and d.is_const() and not (0 <= d.c and d.c + size <= n.c)

    def load(self, st, addr, size, tag, ty):
        if self.outside(st, addr, size):
            return ZERO              # reported by access(); not followed any further
        g = self.base_of(addr)
        if g is not None and g.kind == "glob" and len(addr.t) > 1 and size < 8 and ty not in ("double", "float"):
            r = self.table(st, g, vsub(addr, av(g)), size)
            if r is not None:
                return r
        return A.Interp.load(self, st, addr, size, tag, ty)

    def table(self, st, g, i, size):
        """element of a constant table at an offset computed from tracked unknowns"""
        d = deps(i)
        if not d:
            return None
        ks = np.unique(ev(i, grid([(a, self.mask(st, a)) for a in sorted(d, key=lambda a: a.id)])))
        lo, hi = int(ks[0]), int(ks[-1])
        if hi - lo > 1 << 16:
            return None
        xs = [0] * (hi - lo + 1)
        for k in ks:
            x = self.prog.const_load(g.args[0], int(k), size, self.init_globals)
            if x is None or isinstance(x, tuple):
                return None
            xs[int(k) - lo] = A.sgn(x, 8 * size)
        return A.op("tab", (lo, tuple(xs)), i)

    def intrinsic(self, f, I, name, args, st):
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and args[2].is_const() and args[2].c > 0:
            if "memset" not in name:
                self.access(st, I, args[1], args[2].c, "load")
            self.access(st, I, args[0], args[2].c, "store")
        return A.Interp.intrinsic(self, f, I, name, args, st)

    def byte(self, st, I, p, i=0):
        """the byte at p+i read by a library function"""
        a = vadd(p, const(i))
        self.access(st, I, a, 1, "load")
        return self.reduce(st, self.load(st, a, 1, None, "i8"))

    def eqc_key(self, v, c):
        """condition value: v == c"""
        d = vsub(v, const(c))
        if not d.t:
            return ONE if d.c == 0 else ZERO
        if d.t[0][1] < 0:
            d = A.vscale(d, -1)
        return av(A.atom("cmp", "eq", d))
