"""Path-sensitive abstract interpretation of clang's IR (a disjunctive dataflow analysis).

Abstract domain
  * scalar/pointer values: linear expressions over symbolic atoms (Herbrand/linear equivalence);
  * memory: a finite map address -> value with type-tag based may-alias invalidation;
  * guards: branch facts with a small difference-bound closure (no solver of any kind);
  * effects: an ordered effect trace (stores, calls, allocations, frees, ...).
Loops are brought to a fixpoint: every phi and every memory cell a loop body may change is widened
to a fresh symbolic atom until the loop-head state is stable, so one pass over the body describes every
iteration.  Calls to functions defined in the analysed unit are analysed in the caller's context
(so extracting or inlining a helper does not change a result); recursion is cut with an opaque effect.

Nothing of the program is executed and no input is chosen.
"""
import math
import struct
import sys
import ir
from ir import IRError

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class Wrong(AnalysisError):
    """what the code does is no use of the modelled calls any property allows"""
    where = None


class Budget(AnalysisError):
    """too many paths or steps"""


class NoEnd(Wrong):
    """a loop over a fully materialised shape goes on"""


# ------------------------------------------------------------------ values
_atoms = {}
_vals = {}
_alist = []


class Atom:
    __slots__ = ("id", "kind", "args")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "arg":
            return str(a[1])
        if k == "glob" or k == "fn":
            return "@" + a[0]
        if k == "ld":
            return "[%r%s]" % (a[0], ("~%s" % (a[2],)) if a[2] else "")
        if k == "ret":
            return "%s#%d()" % (a[1], a[0])
        if k == "op":
            return "%s(%s)" % (a[0], ",".join(repr(x) for x in a[1:]))
        if k == "cmp":
            return "(%s %r)" % (a[0], a[1])
        return "%s<%s>" % (k, ",".join(str(x) for x in a))


def atom(kind, *args):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        a.kind, a.args = kind, args
        _alist.append(a)
        _atoms[key] = a
    return a


class V:
    """c + sum(coef*atom)"""
    __slots__ = ("c", "t", "h", "b")

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("%r" % a) if k == 1 else "%d*%r" % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s)

    def is_const(self):
        return not self.t

    def single(self):
        """the atom if the value is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def atoms(self):
        return [a for a, _ in self.t]


_BASES = frozenset(("glob", "alloca", "heap", "fn"))


def mk(c, terms):
    key = (c, terms)
    v = _vals.get(key)
    if v is None:
        v = V()
        v.c, v.t = c, terms
        # object atom an address points into, if recognisable
        cand = [a for a, k in terms if k == 1 and a.kind in _BASES]
        v.b = cand[0] if len(cand) == 1 else None
        _vals[key] = v
    return v


def const(c):
    return mk(c, ())


ZERO = const(0)
ONE = const(1)


def av(a):
    return mk(0, ((a, 1),))


def lin(c, d):
    return mk(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))


def vadd(a, b, kb=1):
    if not b.t:
        if not b.c:
            return a
        return mk(a.c + kb * b.c, a.t)
    if not a.t and kb == 1:
        return mk(a.c + b.c, b.t)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + kb * k
    return lin(a.c + kb * b.c, d)


def vsub(a, b):
    return vadd(a, b, -1)


def vscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return mk(a.c * k, tuple((x, c * k) for x, c in a.t))


def op(name, *args):
    return av(atom("op", name, *args))


def walk_atoms(v, seen=None, deep=True):
    """all atoms in v, including those nested in addresses/operations"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        for a, _ in x.t:
            if a in seen:
                continue
            seen.add(a)
            if deep:
                for y in a.args:
                    if isinstance(y, V):
                        st.append(y)
    return seen


def subst(v, m, memo=None):
    """replace atoms by values (deep)"""
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    r = const(v.c)
    for a, k in v.t:
        if a in m:
            r = vadd(r, vscale(m[a], k))
            continue
        na = a
        if any(isinstance(y, V) for y in a.args):
            args = tuple(subst(y, m, memo) if isinstance(y, V) else y for y in a.args)
            if args != a.args:
                na = atom(a.kind, *args)
        r = vadd(r, mk(0, ((na, k),)))
    memo[v] = r
    return r


def fconst(text):
    """a floating constant of the IR (hexadecimal ones are the bits of a double)"""
    try:
        if text.startswith("0x"):
            return av(atom("fconst", struct.unpack(">d", int(text[2:], 16).to_bytes(8, "big"))[0].hex()))
        return av(atom("fconst", float(text).hex()))
    except (ValueError, OverflowError):
        return av(atom("fconst", text))


def fnum(v):
    s = v.single()
    if s is not None and s.kind == "fconst":
        try:
            return float.fromhex(s.args[0])
        except ValueError:
            return None
    return None


def ffold(x, ty):
    if ty.kind == "float":
        try:
            x = struct.unpack("f", struct.pack("f", x))[0]
        except OverflowError:
            return None
    return av(atom("fconst", x.hex()))


def sgn(x, bits):
    x &= (1 << bits) - 1
    if x >> (bits - 1):
        x -= 1 << bits
    return x


# ------------------------------------------------------------------ bit vectors for narrow bit-field code
def bitsof(v, n):
    """per-bit description of an n-bit value: ints 0/1 or (V, i)"""
    if v.is_const():
        return tuple((v.c >> i) & 1 for i in range(n))
    a = v.single()
    if a is not None and a.kind == "op" and a.args[0] == "bits":
        b = a.args[1]
        return tuple(b[i] if i < len(b) else 0 for i in range(n))
    return tuple((v, i) for i in range(n))


def frombits(b):
    b = tuple(b)
    if all(isinstance(x, int) for x in b):
        return const(sum(x << i for i, x in enumerate(b)))
    x0 = b[0]
    if isinstance(x0, tuple) and all(isinstance(x, tuple) and x[0] is x0[0] and x[1] == i for i, x in enumerate(b)):
        return x0[0]       # whole value unchanged (a masked copy keeps its identity)
    # trailing zeros dropped: identity with zero extension
    k = len(b)
    while k and b[k - 1] == 0:
        k -= 1
    return av(atom("op", "bits", b[:k]))


# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ("kind", "d", "inst", "stack", "nf")

    def __init__(self, kind, inst, stack, **d):
        self.kind, self.inst, self.stack, self.d = kind, inst, stack, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def loc(self):
        if self.inst is None:
            return ("?", 0)
        return self.inst.loc()

    def where(self):
        f, l = self.loc()
        return "%s:%d (in %s)" % (f, l, self.inst.fn.name if self.inst is not None else "?")

    def __repr__(self):
        return "%s{%s}@%s" % (self.kind, ",".join("%s=%r" % x for x in self.d.items() if x[0] != "iters"), self.loc()[1])


WIDEST = 16              # bytes of the widest scalar


class Mem(dict):
    """addr V -> (value, size, tag, type), with the addresses by the object they point into (shared by copies until changed)"""
    __slots__ = ("ix", "own")

    def __init__(self, src=()):
        dict.__init__(self, src)
        if isinstance(src, Mem):
            self.ix, self.own = src.ix, set()
            src.own = set()
        else:
            self.ix, self.own = {}, set()

    def bucket(self, b):
        """the index of one object, for a change"""
        if b not in self.own:
            if not self.own:
                self.ix = dict(self.ix)
            self.own.add(b)
            self.ix[b] = dict(self.ix.get(b, ()))
        return self.ix[b]

    def near(self, b):
        """addresses that may lie in object b (None: anything)"""
        if b is None:
            return list(self)
        return list(self.ix.get(b, ())) + list(self.ix.get(("odd", b), ())) + list(self.ix.get(None, ()))

    def touching(self, a, size):
        """addresses that may overlap [a, a+size), those at other constant offsets in the same object left out"""
        b = a.b
        if b is None or len(a.t) != 1:
            return self.near(b)
        out = []
        t, c = a.t, a.c
        for k in range(1 - WIDEST, size):
            x = _vals.get((c + k, t))
            if x is not None and x in self:
                out.append(x)
        return out + list(self.ix.get(("odd", b), ())) + list(self.ix.get(None, ()))

    def key(self, a):
        return a.b if a.b is None or len(a.t) == 1 else ("odd", a.b)

    def __setitem__(self, a, e):
        if a not in self:
            self.bucket(self.key(a))[a] = None
            if e[1] > WIDEST:
                raise AnalysisError("a scalar of %d bytes" % e[1])
        dict.__setitem__(self, a, e)

    def __delitem__(self, a):
        dict.__delitem__(self, a)
        self.bucket(self.key(a)).pop(a, None)

    def update(self, d):
        for a, e in d.items():
            self[a] = e


class State:
    __slots__ = ("mem", "tags", "epoch", "facts", "le", "eqc", "trace", "n", "freed", "regions", "moved", "loopctx", "mon", "sizes", "vs")

    def __init__(self):
        self.mem = Mem()   # addr V -> (value V, size, tag, written)
        self.epoch = {}    # tag -> int
        self.facts = {}    # canonical key -> bool
        self.le = ()       # V <= 0
        self.eqc = {}      # Atom -> const
        self.trace = None  # cons list
        self.freed = ()    # tuple of (V, Ev)
        self.regions = ()  # (addr, len, value)
        self.moved = {}
        self.mon = None    # client monitor state (hashable)
        self.sizes = {}
        self.vs = None     # value sets of tracked unknowns (sa/vset.py)

    def copy(self):
        s = State.__new__(State)
        s.mem = Mem(self.mem)
        s.epoch = dict(self.epoch)
        s.facts = dict(self.facts)
        s.le = self.le
        s.eqc = dict(self.eqc)
        s.trace = self.trace
        s.freed = self.freed
        s.regions = self.regions
        s.moved = self.moved
        s.mon = self.mon
        s.sizes = self.sizes
        s.vs = self.vs
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


class Path:
    """one abstract path class of a function: kind in ret/abort"""
    __slots__ = ("kind", "ret", "st", "_ev")

    def __init__(self, kind, ret, st):
        self.kind, self.ret, self.st = kind, ret, st
        self._ev = None

    @property
    def ev(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev


NORETURN = {"abort", "exit", "_exit", "__assert_fail", "errx", "err"}

# which pointer arguments a libc function writes through
LIBC_WRITES = {
    "memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0],
    "sprintf": [0], "snprintf": [0], "vsnprintf": [0], "vsprintf": [0], "fread": [0], "read": [1], "fgets": [0],
    "fstat": [1], "stat": [1], "getline": [0, 1], "strtod": [1], "strtol": [1], "strtoll": [1], "strtoul": [1], "strtoull": [1],
    "time": [0], "localtime_r": [1], "gettimeofday": [0], "sqlite3_open": [1], "sqlite3_open_v2": [1],
    "sqlite3_prepare_v2": [3, 4], "sqlite3_exec": [4],
}


class Interp:
    def __init__(self, prog, opaque=(), models=None, max_paths=6000, max_steps=4000000, loads=False, assume=None,
                 max_inline=40):
        self.prog = prog
        self.opaque = set(opaque)
        self.models = models or {}
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.loads = loads
        self.uid = 0
        self.steps = 0
        self.assume = assume      # callback(interp, state, cond key) -> True/False/None
        self.stack = ()
        self.vargs = ()           # variable arguments of the function being analysed
        self.max_inline = max_inline
        self.funcs_seen = set()
        self.calls_seen = set()
        self.npaths = 0
        self.on_event = None      # optional monitor callback(interp, state, ev)
        self.on_loophead = None
        self.lazy = None          # optional initial-heap oracle: (interp, state, addr, size, tag) -> value or None
        self.keep_conds = True
        self.unroll_max = 8
        self.strict32 = False     # conversions between 32 and 64 bits are kept as operations (values may exceed 31 bits)
        self.init_globals = False # mutable globals start with their initial values (analyses that start at program start)
        self.null_ends = False    # a null pointer that is followed ends the analysis: nothing after it means anything
        self.exact = 0            # >0: loops (up to that many rounds) and recursion are followed path by path, nothing is widened

    def fresh(self):
        self.uid += 1
        return self.uid

    # ---------------------------------------------------------------- facts
    def reduce(self, st, v):
        """substitute atoms known to be constant"""
        if not v.t or not st.eqc:
            return v
        ch = False
        for a, _ in v.t:
            if a in st.eqc:
                ch = True
                break
        if not ch:
            return v
        r = const(v.c)
        for a, k in v.t:
            if a in st.eqc:
                r = vadd(r, vscale(st.eqc[a], k))
            else:
                r = vadd(r, mk(0, ((a, k),)))
        return r

    def nonneg_atom(self, a):
        """atoms that cannot be negative by construction"""
        if a.kind == "op" and a.args[0] in ("zext", "bits", "urem"):
            return True
        if a.kind == "op" and a.args[0] == "nonneg":
            return True
        if a.kind == "op" and a.args[0] == "udiv" and a.args[2].is_const() and a.args[2].c > 1:
            return True
        if a.kind == "ret" and a.args[1] in ("strlen", "fread", "strspn", "strcspn", "strnlen"):
            return True
        return False

    def upper_atom(self, st, a):
        if a.kind == "op" and a.args[0] == "zext":
            return (1 << a.args[1]) - 1
        if a.kind == "op" and a.args[0] == "bits":
            return (1 << len(a.args[1])) - 1
        if a.kind == "op" and a.args[0] == "urem" and a.args[2].is_const() and a.args[2].c > 0:
            return a.args[2].c - 1
        return None

    def implies_le0(self, st, v, depth=4):
        """True if v <= 0 is certain"""
        v = self.reduce(st, v)
        if v.t:
            g = 0
            for a, k in v.t:
                g = math.gcd(g, abs(k))
            if g > 1:
                if any(a.args[0] == "udiv" for a, k in v.t if a.kind == "op") and self._le0(st, v, depth, set()):
                    return True
                v = mk(-((-v.c) // g), tuple((a, k // g) for a, k in v.t))
        return self._le0(st, v, depth, set())

    def _le0(self, st, v, depth, seen):
        if not v.t:
            return v.c <= 0
        # bounds of quotients by constants
        for a, k in v.t:
            if a.kind == "op" and a.args[0] == "udiv" and a.args[2].is_const() and a.args[2].c > 0 and depth:
                x, b = a.args[1], a.args[2].c
                g = math.gcd(b, abs(k))
                w = vscale(vadd(v, mk(0, ((a, -k),))), b // g)
                w = vadd(w, vscale(vadd(x, const(1 - b)) if k < 0 else x, k // g))
                if self._le0(st, self.reduce(st, w), depth - 1, seen):
                    return True
        # all coefs negative on nonneg atoms, or bounded atoms
        ub = v.c
        ok = True
        for a, k in v.t:
            if k < 0:
                if not self.nonneg_atom(a):
                    ok = False
                    break
            else:
                u = self.upper_atom(st, a)
                if u is None:
                    ok = False
                    break
                ub += k * u
        if ok and ub <= 0:
            return True
        if depth == 0 or v in seen:
            return False
        seen.add(v)
        atoms = {a: k for a, k in v.t}
        # exact first
        for f in st.le:
            d = vsub(v, f)
            if not d.t and d.c <= 0:
                return True
        for f in st.le:
            # f <= 0; useful if it cancels an atom of v
            useful = False
            for a, k in f.t:
                if a in atoms and (atoms[a] > 0) == (k > 0):
                    useful = True
                    break
            if useful:
                d = self.reduce(st, vsub(v, f))
                if len(d.t) <= len(v.t) + 1 and self._le0(st, d, depth - 1, seen):
                    return True
        return False

    def canon(self, st, pred, a, b, ptr=False):
        """-> ('T'|'F') or (key, polarity)"""
        a, b = self.reduce(st, a), self.reduce(st, b)
        if pred in ("eq", "ne"):
            d = vsub(a, b)
            if not d.t:
                r = (d.c == 0)
                return (r if pred == "eq" else not r), None
            # boolean atom compared to 0/1
            s = d.single()
            if s is not None and s.kind == "cmp":
                return (s.args, pred == "ne")
            if len(d.t) == 1 and d.t[0][0].kind == "cmp" and d.c == -d.t[0][1]:
                return (d.t[0][0].args, pred == "eq")
            if d.t[0][1] < 0:
                d = vscale(d, -1)
            return (("eq", d), pred == "eq")
        u = pred[0] == "u"
        p = pred[1:]
        if not a.t and not b.t:
            x, y = a.c, b.c
            if u:
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]
            return r, None
        if p in ("gt", "ge"):
            a, b = b, a
            p = {"gt": "lt", "ge": "le"}[p]
        # now a < b or a <= b
        if u and not ptr:
            # unsigned comparison against zero
            if not b.t and b.c == 0:
                if p == "lt":
                    return False, None
                return self.canon(st, "eq", a, b)
            if not a.t and a.c == 0:
                if p == "le":
                    return True, None
                return self.canon(st, "ne", a, b)
            # a negative number is larger than any that is not
            na, nb = self.neg(st, a), self.neg(st, b)
            if na != nb and (na or self.uok(st, a)) and (nb or self.uok(st, b)):
                return nb, None
            if not (self.uok(st, a) and self.uok(st, b)):
                return (("u" + p, a, b), True)
        d = vsub(a, b)
        if p == "lt":
            d = mk(d.c + 1, d.t)
        if not d.t:
            return d.c <= 0, None
        return (("le0", d), True)

    def neg(self, st, v):
        if not v.t:
            return v.c < 0
        return bool(st.le) and self.implies_le0(st, mk(v.c + 1, v.t))

    def uok(self, st, v):
        """may an unsigned comparison of v be read as a signed one?"""
        if not v.t:
            return v.c >= 0
        if v.c >= 0 and all(k > 0 for _, k in v.t):
            return True
        if any(a.kind in ("glob", "heap", "alloca") for a, _ in v.t):
            return True
        return self.implies_le0(st, vscale(v, -1))

    def known(self, st, key):
        r = st.facts.get(key)
        if r is not None:
            return r
        if key[0] == "le0":
            if self.implies_le0(st, key[1]):
                return True
            if self.implies_le0(st, mk(1 - key[1].c, vscale(key[1], -1).t)):
                return False
        elif key[0] == "eq":
            d = self.reduce(st, key[1])
            if not d.t:
                return d.c == 0
            if st.le:
                # strictly positive / negative => not equal
                if self.implies_le0(st, mk(d.c + 1, d.t)) or self.implies_le0(st, mk(1 - d.c, vscale(d, -1).t)):
                    return False
                if self.implies_le0(st, d) and self.implies_le0(st, vscale(d, -1)):
                    return True
            # distinct live objects have distinct addresses
            if len(d.t) == 2 and d.t[0][1] == -d.t[1][1] and abs(d.t[0][1]) == 1 and \
                    all(a.kind in ("glob", "alloca", "fn", "heap") for a, _ in d.t):
                return False
            # address of an object is not null
            if len(d.t) == 1 and d.t[0][0].kind in ("glob", "alloca", "fn", "heap"):
                return False
            if len(d.t) == 1 and d.t[0][1] == 1 and d.t[0][0].kind == "op" and d.t[0][0].args[0] in ("zext", "bits") and d.c > 0:
                return False
            if len(d.t) == 1 and abs(d.t[0][1]) > 1 and d.c % d.t[0][1]:
                return False
        elif key[0] in ("ult", "ule"):
            r = self.canon(st, key[0], key[1], key[2])
            if isinstance(r[0], bool):
                return r[0]
            if r[0] != key:
                k = self.known(st, r[0])
                if k is not None:
                    return k if r[1] else not k
        if self.assume is not None:
            return self.assume(self, st, key)
        return None

    def learn(self, st, key, val):
        """add a fact; False if contradictory"""
        k = self.known(st, key)
        if k is not None:
            return k == val
        st.facts[key] = val
        if key[0] == "le0":
            d = key[1] if val else mk(1 - key[1].c, vscale(key[1], -1).t)
            st.le = st.le + (d,)
        elif key[0] == "eq":
            d = key[1]
            if val:
                st.le = st.le + (d, vscale(d, -1))
                if len(d.t) == 1 and d.c % d.t[0][1] == 0:
                    a, kk = d.t[0]
                    st.eqc[a] = const(-d.c // kk)
                    self._propagate(st)
                elif d.t:
                    # x - y + c == 0: substitute the youngest unit-coefficient scalar atom
                    cand = [(a, kk) for a, kk in d.t if abs(kk) == 1 and a.kind in ("ld", "ret", "phi", "mem", "op", "lmem")]
                    if cand:
                        a, kk = max(cand, key=lambda x: x[0].id)
                        rest = {x: y for x, y in d.t if x is not a}
                        rv = vscale(lin(d.c, rest), -kk)
                        if a not in walk_atoms(rv) and a not in st.eqc:
                            st.eqc[a] = self.reduce(st, rv)
                            st.le = st.le + tuple(self.reduce(st, x) for x in st.le if any(y is a for y, _ in x.t))
            else:
                # d != 0 and d >= 0 known  => d >= 1
                if self.implies_le0(st, vscale(d, -1)):
                    st.le = st.le + (mk(1 - d.c, vscale(d, -1).t),)
                elif self.implies_le0(st, d):
                    st.le = st.le + (mk(1 + d.c, d.t),)
        elif key[0] in ("ult", "ule"):
            a, b = key[1], key[2]
            # a <u b true and b known small nonneg => 0 <= a < b
            if val and self.uok(st, b):
                st.le = st.le + (vscale(a, -1), vadd(vsub(a, b), const(1 if key[0] == "ult" else 0)))
        return True

    def _propagate(self, st):
        # constants into non-constant equalities
        for a, v in list(st.eqc.items()):
            if v.t:
                n = self.reduce(st, v)
                st.eqc[a] = n

    # ---------------------------------------------------------------- memory
    def base_of(self, v):
        """object atom an address points into, if recognisable"""
        return v.b

    def may_alias(self, st, a1, s1, t1, a2, s2, t2):
        d = vsub(a1, a2)
        if not d.t:
            return d.c < s2 and -d.c < s1
        b1, b2 = self.base_of(a1), self.base_of(a2)
        if b1 is not None and b2 is not None and b1 is not b2:
            return False
        if (b1 is None) != (b2 is None):
            b = b1 or b2
            o = a2 if b1 is not None else a1
            # a fresh object is reachable through an unknown pointer only if that pointer was read after it escaped
            if b.kind in ("alloca", "heap") and not self._derived_after(o, b):
                return False
        if t1 is not None and t2 is not None:
            if t1[0] != "elem" and t2[0] != "elem":
                if t1 != t2:
                    return False
            elif t1[0] == "elem" and t2[0] == "elem":
                if t1[1] != t2[1]:
                    return False
            else:
                return False
            # same array-element tag: differing index proven?
            if t1[0] == "elem":
                if self.implies_le0(st, mk(d.c + s1, d.t)) or self.implies_le0(st, mk(s2 - d.c, vscale(d, -1).t)):
                    return False
            return True
        if s1 != s2:
            return False
        return True

    def _derived_after(self, v, b):
        for a in walk_atoms(v):
            if a.kind in ("ld", "mem", "lmem", "phi") and a.id > b.id:
                # memory read after b was created might yield b
                return a.kind != "phi"
        return False

    def load(self, st, addr, size, tag, ty):
        addr = self.reduce_addr(st, addr)
        e = st.mem.get(addr)
        if e is not None:
            if e[1] == size:
                if ty is not None and e[3] is not None and ty != e[3] and (ty in ("double", "float")) != (e[3] in ("double", "float")):
                    return op("reinterp", ty, e[0])
                return e[0]
            if e[0].is_const() and e[1] > size and ty not in ("double", "float"):
                return const(sgn(e[0].c, 8 * size))
            if e[0] is ZERO:
                return ZERO
            if size < e[1] and ty not in ("double", "float") and e[3] not in ("double", "float"):
                return op("trunc", 8 * size, e[0])
            return op("reinterp", ty, e[0])
        # inside a wider scalar?
        t = addr.t
        for (a, ln, val) in reversed(st.regions):
            if a.t == t and addr.c >= a.c:
                d = const(addr.c - a.c)
                if isinstance(val, tuple):
                    if not ln.t and d.c + size <= ln.c:
                        return self.load(st, vadd(val[1], d), size, tag, ty)
                    continue
                if not ln.t and d.c + size <= ln.c:
                    return val if val.is_const() and val.c == 0 else op("fill", val, const(size))
                if ln.t:
                    return val if val.is_const() and val.c == 0 else op("fill", val, const(size))
        a2 = addr
        for n, o in st.moved.items():
            for a, k in addr.t:
                if a is n and k == 1:
                    a2 = vadd(vsub(addr, av(n)), o)
        if a2 is not addr:
            r = self.load(st, a2, size, tag, ty)
            st.mem[addr] = (r, size, tag, ty)
            return r
        g = self.base_of(addr)
        if g is not None and g.kind == "glob" and len(addr.t) == 1:
            c = self.prog.const_load(g.args[0], addr.c, size, self.init_globals)
            if c is not None:
                if isinstance(c, tuple):
                    return vadd(av(atom(c[0], c[1])), const(c[2]))
                return const(sgn(c, 8 * size)) if size < 8 else const(sgn(c, 64))
        if g is not None and g.kind == "alloca":
            r = av(atom("undef", addr, st.epoch.get(tag, 0)))
            st.mem[addr] = (r, size, tag, ty)
            return r
        if self.lazy is not None:
            r = self.lazy(self, st, addr, size, tag)
            if r is not None:
                st.mem[addr] = (r, size, tag, ty)
                return r
        kind = tag if tag is not None else ("raw", size)
        r = av(atom("ld", addr, ty if ty else "i%d" % (8 * size), self._epoch(st, kind, size)))
        st.mem[addr] = (r, size, tag, ty)
        return r

    def _epoch(self, st, kind, size):
        return (st.epoch.get(kind, 0) + st.epoch.get(("all", size), 0) * 100000) or 0

    def reduce_addr(self, st, addr):
        return addr

    def store(self, st, addr, val, size, tag, ty=None):
        addr = self.reduce_addr(st, addr)
        drop = []
        b1 = self.base_of(addr)
        t1, c1 = addr.t, addr.c
        for a2 in st.mem.touching(addr, size):
            if a2 is addr:
                continue
            e = st.mem[a2]
            if b1 is not None:
                if a2.t == t1:
                    if c1 - a2.c < e[1] and a2.c - c1 < size:
                        drop.append(a2)
                    continue
            if self.may_alias(st, addr, size, tag, a2, e[1], e[2]):
                drop.append(a2)
        for a2 in drop:
            del st.mem[a2]
        kind = tag if tag is not None else ("raw", size)
        st.epoch[kind] = self.fresh()
        if tag is None:
            st.epoch[("all", size)] = self.fresh()
        st.mem[addr] = (val, size, tag, ty)

    def havoc_range(self, st, addr, ln=None):
        """unknown bytes written from addr (ln: V or None)"""
        base = self.base_of(addr)
        drop = []
        for a2 in st.mem.near(base):
            e = st.mem[a2]
            d = vsub(a2, addr)
            if not d.t:
                if d.c + e[1] <= 0:
                    continue
                if ln is not None and not ln.t and d.c >= ln.c:
                    continue
                drop.append(a2)
            else:
                b2 = self.base_of(a2)
                if base is not None and b2 is not None and base is b2:
                    if self.implies_le0(st, vadd(d, const(e[1]))):
                        continue        # lies below the written range
                    if ln is not None and self.implies_le0(st, vsub(ln, d)):
                        continue        # lies above it
                    drop.append(a2)
                elif base is None and e[2] is not None and e[2][0] == "elem":
                    if b2 is not None and b2.kind in ("alloca",) and not self._derived_after(addr, b2):
                        continue
                    drop.append(a2)
        for a2 in drop:
            del st.mem[a2]
        for k in [k for k in st.epoch if k[0] in ("elem", "raw")] + [("elem", 1), ("elem", 8), ("raw", 1), ("raw", 8), ("elem", 4), ("raw", 4)]:
            st.epoch[k] = self.fresh()
        out = []
        for r in st.regions:
            if not self._region_overlap(r, addr, ln):
                out.append(r)
                continue
            d = vsub(addr, r[0])
            if d.t or ln is None or ln.t or r[1].t:
                continue
            if d.c > 0:                 # the part below the written range
                out.append((r[0], d, r[2]))
            if d.c + ln.c < r[1].c:     # the part above it
                up = const(d.c + ln.c)
                v = r[2]
                if isinstance(v, tuple):
                    v = (v[0], vadd(v[1], up))
                out.append((vadd(r[0], up), vsub(r[1], up), v))
        st.regions = tuple(out)

    def _region_overlap(self, r, addr, ln):
        if addr.b is not r[0].b and addr.b is not None and r[0].b is not None:
            return False
        d = vsub(addr, r[0])
        if d.t:
            return self.base_of(addr) is not None and self.base_of(addr) is self.base_of(r[0])
        if ln is not None and not ln.t and d.c + ln.c <= 0:
            return False
        if not r[1].t and d.c >= r[1].c:
            return False
        return True

    # ---------------------------------------------------------------- events
    def emit(self, st, kind, inst, **d):
        e = Ev(kind, inst, self.stack, **d)
        e.nf = len(st.facts)
        st.trace = (e, st.trace)
        if self.on_event is not None:
            self.on_event(self, st, e)
        return e

    # ---------------------------------------------------------------- operands
    def val(self, fr, env, o, mod):
        k = o[0]
        if k == "r":
            try:
                return env[o[1]][0]
            except KeyError:
                raise AnalysisError("undefined %s in %s" % (o[1], fr.name))
        if k == "i":
            return const(o[1])
        if k == "null" or k == "zero":
            return ZERO
        if k == "undef":
            return av(atom("undef", "poison", 0))
        if k == "g":
            nm = o[1]
            if nm in mod.funcs or nm in mod.decls or self.prog.find(nm, mod) is not None:
                return av(atom("fn", nm))
            return av(atom("glob", self.prog.gname(mod, nm)))
        if k == "f":
            return fconst(o[1])
        if k == "ce":
            return self.gep_like(fr, env, o[1], mod)[0]
        raise AnalysisError("operand %r" % (o,))

    def gep_like(self, fr, env, I, mod):
        if I.op == "getelementptr":
            base = self.val(fr, env, I.ops[0], mod)
            src = I.a["src"]
            tag = None
            idx = I.ops[1:]
            i0 = self.val(fr, env, idx[0], mod)
            sz = mod.sizeof(src)
            addr = vadd(base, vscale(i0, sz))
            t = src
            if src.kind in ("int", "ptr", "float", "double") and sz <= 16:
                tag = ("elem", sz)
            for ix in idx[1:]:
                if t.kind == "struct":
                    mod.layout(t)
                    f = ix[1]
                    addr = vadd(addr, const(t.offs[f]))
                    tag = (t.name, t.offs[f])
                    t = t.fields[f]
                elif t.kind == "array":
                    e = t.elem
                    iv = self.val(fr, env, ix, mod)
                    addr = vadd(addr, vscale(iv, mod.sizeof(e)))
                    if tag is None or not iv.is_const():
                        tag = ("elem", mod.sizeof(e))
                    elif tag[0] != "elem":
                        tag = ("elem", mod.sizeof(e))
                    t = e
                else:
                    raise AnalysisError("gep into %r" % t)
            if t.kind == "array":
                tag = ("elem", mod.sizeof(t.elem))
            return addr, tag
        if I.op in ("ptrtoint", "inttoptr", "bitcast"):
            return self.val(fr, env, I.ops[0], mod), None
        if I.op in ("sub", "add"):
            a = self.val(fr, env, I.ops[0], mod)
            b = self.val(fr, env, I.ops[1], mod)
            return (vadd(a, b) if I.op == "add" else vsub(a, b)), None
        raise AnalysisError("constexpr %s" % I.op)

    # ---------------------------------------------------------------- function execution
    def run(self, fname, args=None, st=None, mod=None):
        """analyse a function from its entry; returns list of Path"""
        f = self.prog.find(fname, mod)
        if f is None:
            raise AnalysisError("anchor function %s not found" % fname)
        st = st.copy() if st is not None else State()
        if args is None:
            args = [self.arg(f, i) for i in range(len(f.params))]
        outs = self.exec_fn(f, args, st)
        self.npaths += len(outs)
        return [Path(k, r, s) for (k, r, s) in outs]

    def arg(self, f, i):
        vs = f.varnames.get(f.params[i][0]) or ["p%d" % i]
        return av(atom("arg", i, vs[0]))

    def exec_fn(self, f, args, st):
        self.funcs_seen.add((f.mod.name, f.name))
        env = {}
        for (nm, ty), a in zip(f.params, args):
            env[nm] = (a, None)
        old, oldva = self.stack, self.vargs
        self.stack = old + (f,)
        self.vargs = args[len(f.params):]
        outs = self.region(f, f.entry, None, env, st, None)
        self.stack, self.vargs = old, oldva
        res = []
        for o in outs:
            if o[0] in ("ret", "abort"):
                res.append((o[0], o[1], o[2]))
            else:
                raise AnalysisError("stray outcome in %s" % f.name)
        return res

    def region(self, f, block, pred, env, st, loop):
        """explore from block until ret/abort, back edge to loop header, or leaving the loop"""
        loops = f.loops()
        hdr = loop[0] if loop else None
        body = loop[1] if loop else None
        out = []
        work = [(block, pred, env, st, True)]
        while work:
            b, p, env, st, first = work.pop()
            if not first:
                if b == hdr:
                    out.append(("back", p, env, st))
                    continue
                if body is not None and b not in body:
                    out.append(("exit", b, p, env, st))
                    continue
            if b in loops and not (first and b == hdr):
                for o in self.do_loop(f, b, p, env, st):
                    if o[0] == "exit":
                        _, b2, p2, env2, st2 = o
                        work.append((b2, p2, env2, st2, False))
                    else:
                        out.append(o)
                continue
            if not (first and b == hdr):
                env = self.do_phis(f, b, p, env, st)
            for o in self.block(f, b, env, st):
                if o[0] == "goto":
                    work.append((o[1], b, o[2], o[3], False))
                else:
                    out.append(o)
            if len(out) + len(work) > self.max_paths:
                raise Budget("path budget exceeded in %s" % f.name)
        return out

    def do_phis(self, f, b, p, env, st):
        insts = f.blocks[b].insts
        if not insts or insts[0].op != "phi":
            return env
        new = {}
        for I in insts:
            if I.op != "phi":
                break
            for v, l in I.a["inc"]:
                if l == p:
                    if v[0] == "r":
                        if v[1] in env:
                            new[I.res] = env[v[1]]
                        else:
                            raise AnalysisError("phi undefined %s" % v[1])
                    elif v[0] == "ce":
                        new[I.res] = self.gep_like(f, env, v[1], f.mod)
                    else:
                        new[I.res] = (self.val(f, env, v, f.mod), None)
                    break
        env = dict(env)
        env.update(new)
        return env

    # ---------------------------------------------------------------- loops
    def do_loop(self, f, h, pred, env, st):
        loops = f.loops()
        body = loops[h]
        r = self.unroll(f, h, pred, env, st, body)
        if r is not None:
            return r
        uid = self.fresh()
        entry_env = self.do_phis(f, h, pred, env, st)
        phis = [I for I in f.blocks[h].insts if I.op == "phi"]
        havoc_phi = {}      # name -> atom
        havoc_mem = {}      # addr -> (atom, size, tag, ty)
        havoc_epoch = set()
        lost_regions = False
        extra_freed = ()
        steps = {}          # phi name -> set of constant steps, or None
        alias = {}          # memory cell -> phi it always equals
        noalias = set()
        for it in range(14):
            e = dict(entry_env)
            s = st.copy()
            for n, a in havoc_phi.items():
                e[n] = (av(a), entry_env[n][1])
            for a, x in havoc_mem.items():
                s.mem[a] = (av(havoc_phi[alias[a]] if a in alias else x[0]), x[1], x[2], x[3])
            if havoc_mem or havoc_epoch:
                for k in havoc_epoch:
                    s.epoch[k] = hash((uid, k)) % 1000003 + 2000000
                # anything not rewritten but possibly invalidated was put in havoc_mem
            if lost_regions:
                s.regions = ()
            for n, ks in steps.items():
                if ks and n in havoc_phi:
                    init = entry_env[n][0]
                    if all(k >= 0 for k in ks):
                        s.le = s.le + (vsub(init, av(havoc_phi[n])),)
                    elif all(k <= 0 for k in ks):
                        s.le = s.le + (vsub(av(havoc_phi[n]), init),)
            if self.on_loophead is not None:
                self.on_loophead(self, f, h, uid, entry_env, e, s, st)
            head_trace = s.trace
            s.trace = None
            head_mem = dict(s.mem)
            nfacts = len(s.facts)
            outs = self.region(f, h, pred, e, s, (h, body))
            changed = False
            iters = []
            for o in outs:
                if o[0] != "back":
                    continue
                _, p2, env2, s2 = o
                nenv = self.do_phis(f, h, p2, env2, s2)
                nxt = {}
                for I in phis:
                    v2 = self.reduce_keep(s2, nenv[I.res][0])
                    nxt[I.res] = v2
                    if I.res in havoc_phi:
                        d = vsub(v2, av(havoc_phi[I.res]))
                        if d.t:
                            dd = self.reduce(s2, d)
                            sg = None
                            if not dd.t:
                                sg = dd.c
                            elif self.implies_le0(s2, vscale(dd, -1)):
                                sg = 1
                            elif self.implies_le0(s2, dd):
                                sg = -1
                            if steps.get(I.res, set()) is not None:
                                if sg is None:
                                    if steps.get(I.res) is not None and I.res in steps:
                                        changed = True
                                    steps[I.res] = None
                                else:
                                    self._addstep(steps, I.res, sg)
                                    if steps[I.res] and any(k > 0 for k in steps[I.res]) and any(k < 0 for k in steps[I.res]):
                                        steps[I.res] = None
                                        changed = True
                        else:
                            if steps.get(I.res, set()) is not None:
                                before = steps.get(I.res)
                                self._addstep(steps, I.res, d.c)
                                if before is None or before != steps[I.res]:
                                    changed = True
                        continue
                    if v2 is not e[I.res][0]:
                        havoc_phi[I.res] = atom("phi", uid, f.name, I.res)
                        changed = True
                # memory
                for a, x in s2.mem.items():
                    hx = head_mem.get(a)
                    if hx is not None and hx[0] is x[0]:
                        continue
                    if a in havoc_mem:
                        continue
                    # cached read of unchanged memory: an 'ld' atom of that very address
                    xa = x[0].single()
                    if hx is None and xa is not None and xa.kind in ("ld", "undef") and xa.args[0] is a:
                        continue
                    if hx is None and self.lazy is not None and self.lazy(self, st, a, x[1], x[2]) is x[0]:
                        continue
                    if hx is None and s2.moved and xa is not None and xa.kind == "ld":
                        continue
                    if any(self._in_loop_atom(y, uid) for y in walk_atoms(a)):
                        # element of a moving target
                        k = x[2] if x[2] is not None else ("raw", x[1])
                        if k not in havoc_epoch:
                            havoc_epoch.add(k)
                            changed = True
                        continue
                    if self._new_object(a, st, uid):
                        continue
                    havoc_mem[a] = (atom("lmem", uid, a), x[1], x[2], x[3])
                    changed = True
                for a, hx in head_mem.items():
                    if a not in s2.mem and a not in havoc_mem:
                        havoc_mem[a] = (atom("lmem", uid, a), hx[1], hx[2], hx[3])
                        changed = True
                for k, n in s2.epoch.items():
                    if s.epoch.get(k, 0) != n and False:
                        pass
                for k in s2.epoch:
                    if s2.epoch[k] != st.epoch.get(k, 0) and k not in havoc_epoch:
                        havoc_epoch.add(k)
                        changed = True
                if s2.regions != s.regions and not lost_regions:
                    if any(r not in s2.regions for r in s.regions):
                        lost_regions = True
                        changed = True
                iters.append((s2.events(), nxt, s2, nenv))
            # cells that start equal to a phi and stay equal to it share its symbol
            for a in havoc_mem:
                if a in alias:
                    if not all(a in x[2].mem and x[2].mem[a][0] is x[1][alias[a]] for x in iters):
                        del alias[a]
                        noalias.add(a)
                        changed = True
                elif a not in noalias and a in st.mem and iters:
                    for pn in havoc_phi:
                        if entry_env[pn][0] is st.mem[a][0] and all(a in x[2].mem and x[2].mem[a][0] is x[1][pn] for x in iters):
                            alias[a] = pn
                            changed = True
                            break
            if not changed:
                break
        else:
            raise AnalysisError("loop at %s in %s did not stabilise" % (h, f.name))
        lp = {"uid": uid, "header": h, "fn": f,
              "phis": {n: (a, entry_env[n][0]) for n, a in havoc_phi.items()},
              "mem": {a: havoc_phi[alias[a]] if a in alias else x[0] for a, x in havoc_mem.items()},
              "iters": iters}
        res = []
        for o in outs:
            if o[0] == "back":
                continue
            s2 = o[4] if o[0] == "exit" else o[2]
            part = s2.events()
            ev = Ev("loop", f.blocks[h].insts[-1], self.stack, lp=lp, exit=part)
            ev.nf = nfacts
            s2.trace = (ev, head_trace)
            for x in part:
                s2.trace = (x, s2.trace)
            res.append(o)
        return res

    def unroll(self, f, h, pred, env, st, body):
        """a loop whose trip count is a small constant is followed exactly; None if it is not one"""
        if self.exact:
            return self.follow(f, h, pred, env, st, body)
        if not self.unroll_max:
            return None
        phis = [I for I in f.blocks[h].insts if I.op == "phi"]
        e0 = self.do_phis(f, h, pred, env, st)
        if not any(e0[I.res][0].is_const() for I in phis):
            return None
        cur = [(pred, e0, st)]
        done = []
        saved = (self.uid, self.steps)
        for k in range(self.unroll_max + 1):
            nxt, exits = [], []
            for p1, e1, s1 in cur:
                for o in self.region(f, h, p1, dict(e1), s1 if k else s1.copy(), (h, body)):
                    if o[0] == "back":
                        nxt.append((o[1], self.do_phis(f, h, o[1], o[2], o[3]), o[3]))
                    elif o[0] == "exit":
                        exits.append(o)
                    elif o[0] == "ret":
                        return None
                    else:
                        done.append(o)
            if nxt and exits:
                return None
            if len(nxt) > 24 or len(exits) > 24:
                return None
            if not nxt:
                return done + exits
            # some phi must still be a known constant, else this is not a counting loop
            if not any(x[1][I.res][0].is_const() for x in nxt for I in phis):
                return None
            cur = nxt
        return None

    def follow(self, f, h, pred, env, st, body):
        e0 = self.do_phis(f, h, pred, env, st)
        cur = [(pred, e0, st)]
        done = []
        for k in range(self.exact):
            nxt = []
            for p1, e1, s1 in cur:
                for o in self.region(f, h, p1, dict(e1), s1 if k else s1.copy(), (h, body)):
                    if o[0] == "back":
                        nxt.append((o[1], self.do_phis(f, h, o[1], o[2], o[3]), o[3]))
                    else:
                        done.append(o)
            if len(nxt) + len(done) > self.max_paths:
                raise Budget("path budget exceeded in %s" % f.name)
            if not nxt:
                return done
            cur = nxt
        e = NoEnd("a loop of %s does not end within %d rounds" % (f.name, self.exact))
        e.where = "%s:%d (%s)" % (f.loc() + (f.name,))
        raise e

    def reduce_keep(self, st, v):
        return v

    def _addstep(self, steps, n, c):
        steps.setdefault(n, set())
        if steps[n] is not None:
            steps[n] = steps[n] | {1 if c > 0 else (-1 if c < 0 else 0)}

    def _in_loop_atom(self, a, uid):
        return (a.kind == "phi" and a.args[0] == uid) or (a.kind == "lmem" and a.args[0] == uid) or \
            (a.kind in ("heap", "alloca", "ret") and a.args[0] > uid)

    def _new_object(self, addr, st, uid):
        return any(a.kind in ("heap", "alloca", "ret") and a.args[0] > uid for a in walk_atoms(addr))

    # ---------------------------------------------------------------- blocks
    def block(self, f, b, env, st):
        insts = f.blocks[b].insts
        i = 0
        while insts[i].op == "phi":
            i += 1
        return self.insts(f, insts, i, env, st)

    def insts(self, f, insts, i, env, st):
        mod = f.mod
        owned = False
        n = len(insts)
        while i < n:
            I = insts[i]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exceeded in %s" % f.name)
            o = I.op
            if o == "br":
                L = I.a["labels"]
                if len(L) == 1:
                    return [("goto", L[0], env, st)]
                return self.branch(f, I, self.val(f, env, I.ops[0], mod), L, env, st)
            if o == "ret":
                return [("ret", self.val(f, env, I.ops[0], mod) if I.ops else None, st)]
            if o == "unreachable":
                return [("abort", None, st)]
            if o == "switch":
                return self.switch(f, I, env, st)
            if not owned:
                env = dict(env)
                owned = True
            if o == "call":
                outs = self.call(f, I, env, st)
                if len(outs) == 1 and outs[0][0] == "ret":
                    if I.res is not None:
                        env[I.res] = (outs[0][1], None)
                    st = outs[0][2]
                    i += 1
                    continue
                res = []
                for k, r, s in outs:
                    if k == "abort":
                        res.append(("abort", r, s))
                        continue
                    e2 = dict(env)
                    if I.res is not None:
                        e2[I.res] = (r, None)
                    res.extend(self.insts(f, insts, i + 1, e2, s))
                return res
            if o == "select":
                c = self.val(f, env, I.ops[0], mod)
                r = self.truth(st, c)
                if r is None:
                    res = []
                    for tv in (True, False):
                        s = st.copy()
                        if not self.assume_val(s, c, tv):
                            continue
                        if self.keep_conds:
                            self.emit(s, "cond", I, c=c, val=tv)
                        e2 = dict(env)
                        e2[I.res] = self.valtag(f, env, I.ops[1 if tv else 2], mod)
                        res.extend(self.insts(f, insts, i + 1, e2, s))
                    return res
                env[I.res] = self.valtag(f, env, I.ops[1 if r else 2], mod)
                i += 1
                continue
            if o == "load" or o == "store":
                sts = self.places(f, I, env, st)
                if sts is not None:
                    res = []
                    for s in sts:
                        e2 = dict(env)
                        self.simple(f, I, e2, s, mod)
                        res.extend(self.insts(f, insts, i + 1, e2, s))
                    return res
            self.simple(f, I, env, st, mod)
            i += 1
        raise AnalysisError("block without terminator in %s" % f.name)

    def places(self, f, I, env, st):
        """None, or the states in each of which the address accessed is one place"""
        return None

    def valtag(self, f, env, o, mod):
        if o[0] == "r":
            return env[o[1]]
        if o[0] == "ce":
            return self.gep_like(f, env, o[1], mod)
        return (self.val(f, env, o, mod), None)

    def cond_key(self, st, c):
        """V of i1/int type -> (True/False,None) or (key, polarity)"""
        if not c.t:
            return (c.c & 1) == 1 if c.c in (0, 1, -1) else True, None
        s = c.single()
        if s is not None and s.kind == "cmp":
            return self.recanon(st, s.args)
        # 1 - cmp
        if len(c.t) == 1 and c.t[0][1] == -1 and c.c == 1 and c.t[0][0].kind == "cmp":
            k, p = self.recanon(st, c.t[0][0].args)
            if isinstance(k, bool):
                return (not k), None
            return k, not p
        return (("eq", c), False)

    def recanon(self, st, key):
        if key[0] == "le0":
            d = self.reduce(st, key[1])
            if not d.t:
                return d.c <= 0, None
            return ("le0", d), True
        if key[0] == "eq":
            d = self.reduce(st, key[1])
            if not d.t:
                return d.c == 0, None
            return (("eq", d if d.t[0][1] > 0 else vscale(d, -1)), True)
        if key[0] in ("ult", "ule"):
            return self.canon(st, key[0], key[1], key[2])
        return key, True

    def truth(self, st, c):
        k, p = self.cond_key(st, c)
        if isinstance(k, bool):
            return k
        r = self.known(st, k)
        if r is None:
            return None
        return r if p else not r

    def assume_val(self, st, c, tv):
        k, p = self.cond_key(st, c)
        if isinstance(k, bool):
            return k == tv
        return self.learn(st, k, tv if p else not tv)

    def branch(self, f, I, c, L, env, st):
        r = self.truth(st, c)
        if r is not None:
            return [("goto", L[0] if r else L[1], env, st)]
        res = []
        for tv in (False, True):
            s = st.copy()
            if not self.assume_val(s, c, tv):
                continue
            if self.keep_conds:
                self.emit(s, "cond", I, c=c, val=tv)
            res.append(("goto", L[0] if tv else L[1], env, s))
        return res

    def switch(self, f, I, env, st):
        v = self.reduce(st, self.val(f, env, I.ops[0], f.mod))
        bits = I.type.bits
        if not v.t:
            for c, l in I.a["cases"]:
                if sgn(c, bits) == sgn(v.c, bits):
                    return [("goto", l, env, st)]
            return [("goto", I.a["default"], env, st)]
        res = []
        bylab = {}
        feas_default = True
        s_def = st.copy()
        for c, l in I.a["cases"]:
            k, p = self.canon(st, "eq", v, const(c))
            if isinstance(k, bool):
                if k:
                    return [("goto", l, env, st)]
                continue
            s = st.copy()
            if self.learn(s, k, p):
                if self.keep_conds:
                    self.emit(s, "case", I, v=v, val=c)
                res.append(("goto", l, env, s))
            if feas_default and not self.learn(s_def, k, not p):
                feas_default = False
        if feas_default:
            if self.keep_conds:
                self.emit(s_def, "case", I, v=v, val=None)
            res.append(("goto", I.a["default"], env, s_def))
        return res

    # ---------------------------------------------------------------- simple instructions
    def simple(self, f, I, env, st, mod):
        o = I.op
        if o == "getelementptr":
            env[I.res] = self.gep_like(f, env, I, mod)
            return
        if o == "load":
            a, tag = self.valtag(f, env, I.ops[0], mod)
            sz = mod.sizeof(I.type)
            ty = I.type.kind if I.type.kind in ("double", "float") else None
            self.access(st, I, a, sz, "load")
            v = self.load(st, a, sz, tag, ty)
            if self.loads:
                self.emit(st, "load", I, addr=a, size=sz, tag=tag, val=v)
            env[I.res] = (v, None)
            return
        if o == "store":
            v = self.val(f, env, I.ops[0], mod)
            a, tag = self.valtag(f, env, I.ops[1], mod)
            t = I.a["t"]
            sz = mod.sizeof(t)
            self.access(st, I, a, sz, "store")
            self.store(st, a, v, sz, tag, t.kind if t.kind in ("double", "float") else None)
            self.emit(st, "store", I, addr=a, val=v, size=sz, tag=tag)
            return
        if o == "alloca":
            u = self.fresh()
            a = atom("alloca", u, f.name, I.res)
            sz = mod.sizeof(I.a["t"])
            n = const(1)
            if I.a["n"] is not None:
                n = self.val(f, env, I.a["n"], mod)
            st.sizes = dict(st.sizes)
            st.sizes[a] = vscale(n, sz)
            env[I.res] = (av(a), None)
            return
        if o in ("icmp",):
            a = self.val(f, env, I.ops[0], mod)
            b = self.val(f, env, I.ops[1], mod)
            pred = I.a["pred"]
            t = I.a["optype"]
            k, p = self.canon(st, pred, a, b, t.kind == "ptr")
            if isinstance(k, bool):
                env[I.res] = (ONE if k else ZERO, None)
            else:
                c = av(atom("cmp", *k))
                env[I.res] = (c if p else vsub(ONE, c), None)
            return
        if o in ir.CAST:
            env[I.res] = (self.cast(st, o, self.val(f, env, I.ops[0], mod), I.a["from"], I.type), env[I.ops[0][1]][1] if I.ops[0][0] == "r" and o in ("bitcast",) else None)
            return
        if o in ir.BIN:
            a = self.val(f, env, I.ops[0], mod)
            b = self.val(f, env, I.ops[1], mod)
            env[I.res] = (self.binop(st, o, a, b, I.type, I), None)
            return
        if o == "fcmp":
            a, b = self.val(f, env, I.ops[0], mod), self.val(f, env, I.ops[1], mod)
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None and I.a["pred"][0] in "ou" and I.a["pred"][1:] in ("lt", "le", "gt", "ge", "eq", "ne"):
                r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[I.a["pred"][1:]]
                if x != x or y != y:
                    r = I.a["pred"][0] == "u"
                env[I.res] = (ONE if r else ZERO, None)
                return
            env[I.res] = (av(atom("cmp", "fcmp" + I.a["pred"], a, b)), None)
            return
        if o == "fneg":
            env[I.res] = (op("fneg", self.val(f, env, I.ops[0], mod)), None)
            return
        if o == "freeze":
            env[I.res] = self.valtag(f, env, I.ops[0], mod)
            return
        if o == "extractvalue":
            env[I.res] = (op("extract", self.val(f, env, I.ops[0], mod), *[const(x) for x in I.a["idx"]]), None)
            v = self.val(f, env, I.ops[0], mod)
            s = v.single()
            idx = I.a["idx"]
            while s is not None and s.kind == "op" and s.args[0] == "insert":
                if s.args[3] == tuple(idx):
                    env[I.res] = (s.args[2], None)
                    break
                s = s.args[1].single()
            return
        if o == "insertvalue":
            env[I.res] = (av(atom("op", "insert", self.val(f, env, I.ops[0], mod), self.val(f, env, I.ops[1], mod), tuple(I.a["idx"]))), None)
            return
        raise AnalysisError("instruction %s" % o)

    def access(self, st, I, addr, size, kind):
        if not addr.t and -256 <= addr.c < 4096:
            if self.null_ends and I.op == "load":      # cee_segfault stores
                e = Wrong("reads or writes through a null pointer")
                e.where = "%s:%d (%s)" % (I.loc() + (I.fn.name,))
                raise e
            self.emit(st, "null", I, addr=addr, access=kind)
        for (p, ev) in st.freed:
            d = vsub(addr, p)
            if not d.t and d.c > -256 or (d.t and self._same_object(addr, p)):
                self.emit(st, "uaf", I, addr=addr, freed=ev, access=kind)

    def _same_object(self, a, p):
        ps = p.single()
        if ps is None:
            return False
        return any(x is ps and k == 1 for x, k in a.t)

    def _small(self, v):
        """a value that fits 32 bits by construction"""
        s = v.single()
        return v.is_const() or (s is not None and (s.kind == "cmp" or (s.kind == "op" and s.args[0] in ("zext", "sext", "bits") and s.args[1] != 32)))

    def cast(self, st, o, v, frm, to):
        if o in ("ptrtoint", "inttoptr", "bitcast"):
            if o == "bitcast" and (frm.kind in ("double", "float")) != (to.kind in ("double", "float")):
                return op("reinterp", to.kind, v)
            return v
        if o == "zext":
            if not v.t:
                return const(v.c & ((1 << frm.bits) - 1))
            if frm.bits == 1:
                return v
            if frm.bits <= 16:
                s = v.single()
                if s is not None and s.kind == "op" and s.args[0] in ("zext", "bits"):
                    return v
                if s is not None and s.kind == "cmp":
                    return v
                r = self.reduce(st, v)
                if not r.t:
                    return const(r.c & ((1 << frm.bits) - 1))
                if len(v.t) == 1 and v.t[0][0].kind == "op" and v.t[0][0].args[0] == "zext":
                    # small arithmetic on a zero-extended byte: keep
                    pass
                return av(atom("op", "zext", frm.bits, v))
            if self.strict32 and frm.bits == 32 and not self._small(v):
                return op("zext", 32, v)
            return v
        if o == "sext":
            if not v.t:
                return const(sgn(v.c, frm.bits))
            if frm.bits == 1:
                return vscale(v, -1)
            if frm.bits <= 16:
                s = v.single()
                if s is not None and s.kind == "op" and s.args[0] in ("sext",):
                    return v
                r = self.reduce(st, v)
                if not r.t:
                    return const(sgn(r.c, frm.bits))
                return av(atom("op", "sext", frm.bits, v))
            if self.strict32 and frm.bits == 32 and not self._small(v):
                return op("sext", 32, v)
            return v
        if o == "trunc":
            if not v.t:
                return const(sgn(v.c, to.bits)) if to.bits > 1 else const(v.c & 1)
            r = self.reduce(st, v)
            if not r.t:
                return const(sgn(r.c, to.bits)) if to.bits > 1 else const(r.c & 1)
            s = v.single()
            if s is not None:
                if s.kind == "cmp":
                    return v
                if s.kind == "op" and s.args[0] in ("zext", "sext") and s.args[1] == to.bits:
                    return s.args[2]
                if s.kind == "op" and s.args[0] == "bits":
                    return frombits(s.args[1][:to.bits])
            if len(v.t) == 1 and v.t[0][0].kind == "cmp":
                return v
            if to.bits >= 32:
                return op("trunc", 32, v) if self.strict32 and to.bits == 32 and not self._small(v) else v
            if to.bits <= 16:
                # trunc(zext(x)+c) etc: canonical modular form
                return op("trunc", to.bits, v)
            return v
        if o in ("fpext", "fptrunc", "fptoui", "fptosi", "uitofp", "sitofp"):
            r = None
            x = fnum(v)
            if o in ("uitofp", "sitofp") and not v.t:
                r = ffold(float(v.c & ((1 << frm.bits) - 1) if o == "uitofp" else v.c), to)
            elif o in ("fpext", "fptrunc") and x is not None:
                r = ffold(x, to)
            elif x is not None and math.isfinite(x) and abs(x) < 2.0 ** 63:
                r = const(sgn(int(x), to.bits))
            return r if r is not None else op(o, repr(frm), repr(to), v)
        raise AnalysisError("cast " + o)

    def binop(self, st, o, a, b, ty, I):
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None and not (o == "fdiv" and y == 0):
                r = ffold({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[o](), ty)
                if r is not None:
                    return r
            return op(o, a, b)
        bits = ty.bits
        if o == "add":
            r = vadd(a, b)
            return const(sgn(r.c, bits)) if not r.t and bits in (8, 16, 32, 64) else r
        if o == "sub":
            r = vsub(a, b)
            return const(sgn(r.c, bits)) if not r.t and bits in (8, 16, 32, 64) else r
        if o == "mul":
            if not a.t:
                r = vscale(b, a.c)
            elif not b.t:
                r = vscale(a, b.c)
            else:
                x, y = sorted((a, b), key=lambda q: repr(q))
                return op("mul", x, y)
            return const(sgn(r.c, bits)) if not r.t else r
        if o in ("and", "or", "xor", "shl", "lshr", "ashr"):
            if not a.t and not b.t:
                m = (1 << bits) - 1
                x, y = a.c & m, b.c & m
                if o in ("and", "or", "xor"):
                    r = {"and": x & y, "or": x | y, "xor": x ^ y}[o]
                elif y >= bits:
                    return op(o, a, b)          # undefined
                else:
                    r = {"shl": x << y, "lshr": x >> y, "ashr": sgn(x, bits) >> y}[o]
                return const(sgn(r, bits)) if bits > 1 else const(r & 1)
            if bits == 1:
                if o == "xor":
                    if not b.t:
                        return vsub(ONE, a) if b.c & 1 else a
                    if not a.t:
                        return vsub(ONE, b) if a.c & 1 else b
                if o == "and":
                    for x, y in ((a, b), (b, a)):
                        if not x.t:
                            return y if x.c & 1 else ZERO
                if o == "or":
                    for x, y in ((a, b), (b, a)):
                        if not x.t:
                            return ONE if x.c & 1 else y
                return op("b" + o, a, b)
            if o == "shl" and not b.t and bits >= 32:
                return vscale(a, 1 << b.c)
            if o in ("and", "or", "xor") and not a.t:
                a, b = b, a
            x = self._bits(a, bits)
            if o in ("and", "or", "xor"):
                if not b.t:
                    m = b.c
                    if o == "and" and bits >= 32 and -m > 1 and (-m) & (-m - 1) == 0 and not (a.single() is not None and a.single().kind in ("cmp", "op")):
                        return vsub(a, op("urem", a, const(-m)))      # rounding down to a power of two
                    if o == "and":
                        r = [xx if (m >> i) & 1 else 0 for i, xx in enumerate(x)]
                        return frombits(r)
                    if o == "or":
                        r = [1 if (m >> i) & 1 else xx for i, xx in enumerate(x)]
                        return frombits(r)
                    return op("xor", a, b)
                y = self._bits(b, bits)
                if o == "or":
                    r = []
                    for p, q in zip(x, y):
                        if p == 0:
                            r.append(q)
                        elif q == 0:
                            r.append(p)
                        elif p == 1 or q == 1:
                            r.append(1)
                        elif p == q:
                            r.append(p)
                        else:
                            u, w = sorted((a, b), key=lambda q: repr(q))
                            return op("or", u, w)
                    return frombits(r)
                u, w = sorted((a, b), key=lambda q: repr(q))
                return op(o, u, w)
            if not b.t:
                n = b.c
                if o == "shl":
                    return frombits(([0] * n + list(x))[:bits])
                if o == "lshr":
                    return frombits(list(x[n:]) + [0] * n)
                if o == "ashr":
                    return frombits(list(x[n:]) + [x[-1]] * n)
            return op(o, a, b)
        if o in ("udiv", "sdiv", "urem", "srem"):
            if not a.t and not b.t and b.c:
                if o == "udiv":
                    return const((a.c & ((1 << bits) - 1)) // (b.c & ((1 << bits) - 1)))
                if o == "urem":
                    return const((a.c & ((1 << bits) - 1)) % (b.c & ((1 << bits) - 1)))
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                return const(q if o == "sdiv" else a.c - q * b.c)
            if not b.t and b.c > 0 and o in ("udiv", "sdiv") and a.t:
                if a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
                    return mk(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
            return op(o, a, b)
        return op(o, a, b)

    def _bits(self, v, n):
        s = v.single()
        if s is not None and s.kind == "op" and s.args[0] == "zext":
            w = s.args[1]
            inner = self._bits(s.args[2], w)
            return tuple(list(inner) + [0] * (n - w))[:n]
        if s is not None and s.kind == "op" and s.args[0] == "trunc":
            return tuple(bitsof(s.args[2], max(n, 1)))[:n] if False else bitsof(v, n)
        if s is not None and s.kind == "cmp":
            return tuple([(v, 0)] + [0] * (n - 1))
        return bitsof(v, n)

    # ---------------------------------------------------------------- calls
    def call(self, f, I, env, st):
        mod = f.mod
        callee = I.a["callee"]
        args = [self.val(f, env, o, mod) for o in I.ops]
        tags = [self.valtag(f, env, o, mod)[1] for o in I.ops]
        if callee[0] == "g":
            name = callee[1]
        else:
            fv = self.reduce(st, self.val(f, env, callee, mod))
            s = fv.single()
            if s is not None and s.kind == "fn":
                name = s.args[0]
            else:
                for a in args:
                    self.passed(st, I, a)
                r = av(atom("ret", self.fresh(), "*"))
                self.emit(st, "icall", I, fn=fv, args=args, ret=r)
                for a in args:
                    self._havoc_arg(st, a)
                return [("ret", r, st)]
        return self.do_call(f, I, name, args, st, mod)

    def passed(self, st, I, a):
        for (p, ev) in st.freed:
            if a is p:
                self.emit(st, "uaf", I, addr=a, freed=ev, access="argument")

    def do_call(self, f, I, name, args, st, mod):
        if name.startswith("llvm."):
            return self.intrinsic(f, I, name, args, st)
        self.calls_seen.add((I.loc(), name))
        m = self.models.get(name)
        if m is not None:
            try:
                r = m(self, I, name, args, st)
            except Wrong as e:
                if not e.where:
                    e.where = "%s:%d (%s)" % (I.loc() + (f.name,))
                raise
            if r is not None:
                return r
        g = self.prog.find(name, mod)
        if g is not None and name not in self.opaque:
            if self.exact and len(self.stack) > 400:
                e = NoEnd("a recursion of %s does not end within 400 calls" % name)
                e.where = "%s:%d (%s)" % (I.loc() + (f.name,))
                raise e
            if not self.exact and (g in self.stack or len(self.stack) > self.max_inline):
                r = av(atom("ret", self.fresh(), name))
                self.emit(st, "rcall", I, name=name, args=args, ret=r)
                for a in args:
                    self._havoc_arg(st, a)
                return [("ret", r, st)]
            self.emit(st, "enter", I, name=name, args=args)
            outs = self.exec_fn(g, args, st)
            self.last_call = None
            return outs
        return self.extern(f, I, name, args, st, g)

    def _havoc_arg(self, st, a):
        b = self.base_of(a)
        if b is not None and b.kind in ("alloca",):
            self.havoc_range(st, a)

    def extern(self, f, I, name, args, st, g):
        if name in ("malloc", "calloc", "valloc"):
            u = self.fresh()
            h = atom("heap", u, name)
            n = args[0] if name == "malloc" else (vscale(args[1], args[0].c) if not args[0].t else (vscale(args[0], args[1].c) if not args[1].t else op("mul", args[0], args[1])))
            st.sizes = dict(st.sizes)
            st.sizes[h] = n
            if name == "calloc":
                st.regions = st.regions + ((av(h), n, ZERO),)
            self.emit(st, "alloc", I, fn=name, size=n, ret=av(h), args=args)
            return [("ret", av(h), st)]
        if name == "strdup" or name == "strndup":
            u = self.fresh()
            h = atom("heap", u, name)
            self.emit(st, "alloc", I, fn=name, size=None, ret=av(h), args=args)
            return [("ret", av(h), st)]
        if name == "realloc":
            for a in args:
                self.passed(st, I, a)
            u = self.fresh()
            h = atom("heap", u, name)
            st.sizes = dict(st.sizes)
            st.sizes[h] = args[1]
            old = args[0]
            self.emit(st, "realloc", I, old=old, size=args[1], ret=av(h), args=args)
            if old.t:
                new = {}
                for a2, e in st.mem.items():
                    d = vsub(a2, old)
                    if not d.t or (old.single() is not None and any(x is old.single() and k == 1 for x, k in a2.t)):
                        new[vadd(d, av(h))] = e
                st.mem.update(new)
                st.moved = dict(st.moved)
                st.moved[h] = old
                st.regions = st.regions + tuple((vadd(vsub(r[0], old), av(h)), r[1], r[2]) for r in st.regions if not vsub(r[0], old).t)
                st.freed = st.freed + ((old, Ev("realloc", I, self.stack, p=old)),)
            return [("ret", av(h), st)]
        if name == "free":
            p = self.reduce(st, args[0])
            for (q, ev) in st.freed:
                if q is p:
                    self.emit(st, "doublefree", I, p=p, freed=ev)
            e = self.emit(st, "free", I, p=p)
            if p.t:
                st.freed = st.freed + ((p, e),)
            return [("ret", ZERO, st)]
        for a in args:
            self.passed(st, I, a)
        if name in ("memset",):
            return self._memset(I, args, st)
        if name in ("memcpy", "memmove"):
            return self._memcpy(I, name, args, st)
        if name in NORETURN:
            self.emit(st, "call", I, name=name, args=args, ret=None)
            return [("abort", None, st)]
        r = av(atom("ret", self.fresh(), name))
        self.emit(st, "call", I, name=name, args=args, ret=r, defined=g is not None)
        if g is None:
            w = LIBC_WRITES.get(name)
            if w is None:
                for a in args:
                    self._havoc_arg(st, a)
            else:
                for i in w:
                    if i < len(args) and args[i].t:
                        self.havoc_range(st, args[i])
        else:
            for a in args:
                self._havoc_arg(st, a)
        return [("ret", r, st)]

    def _memset(self, I, args, st):
        self.emit(st, "memset", I, dst=args[0], val=args[1], n=args[2])
        self.havoc_range(st, args[0], args[2])
        st.regions = st.regions + ((args[0], args[2], args[1]),)
        return [("ret", args[0], st)]

    def _memcpy(self, I, name, args, st):
        self.emit(st, "copy", I, fn=name, dst=args[0], src=args[1], n=args[2])
        moved = {}
        if not args[2].t:
            t1, c1 = args[1].t, args[1].c
            for a2 in st.mem.near(self.base_of(args[1])):
                if a2.t == t1 and c1 <= a2.c:
                    e = st.mem[a2]
                    if a2.c - c1 + e[1] <= args[2].c:
                        moved[vadd(args[0], const(a2.c - c1))] = e
        reg = self._region_at(st, args[1], args[2]) if not args[2].t and args[2].c > 0 else None
        if reg is not None:
            reg = (args[0], args[2], reg)
        self.havoc_range(st, args[0], args[2])
        st.mem.update(moved)
        g = self.base_of(args[1])
        if g is not None and g.kind == "glob" and not args[2].t:
            gg = self.prog.glob(g.args[0])[1]
            if gg is not None and gg.const:
                st.regions = st.regions + ((args[0], args[2], ("copy", args[1])),)
        elif reg is not None:
            st.regions = st.regions + (reg,)
            st.mem.update(moved)
        return [("ret", args[0], st)]

    def _region_at(self, st, src, n):
        """initial contents of the bytes [src, src+n) as a region value, if one region covers them"""
        for (a, ln, val) in reversed(st.regions):
            if a.t != src.t:
                continue
            d = const(src.c - a.c)
            if not ln.t and d.c < ln.c and d.c + n.c > 0:
                if d.c < 0 or d.c + n.c > ln.c:
                    return None
                return ("copy", vadd(val[1], d)) if isinstance(val, tuple) else val
        return None

    def intrinsic(self, f, I, name, args, st):
        if name.startswith("llvm.memset"):
            return self._memset(I, args, st)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self._memcpy(I, "memcpy" if "memcpy" in name else "memmove", args, st)
        if name.startswith("llvm.va_start"):
            self.emit(st, "va_start", I, ap=args[0])
            self.havoc_range(st, args[0], const(24))
            if self.exact:
                # the argument list of a call seen from its start: every argument lies in the overflow area, in order
                area = av(atom("heap", self.fresh(), "va"))
                for o, n, v in ((0, 4, const(48)), (4, 4, const(176)), (8, 8, area), (16, 8, av(atom("heap", self.fresh(), "vr")))):
                    st.mem[vadd(args[0], const(o))] = (v, n, None, "ptr" if n == 8 else "i32")
                for i, a in enumerate(self.vargs):
                    st.mem[vadd(area, const(8 * i))] = (a, 8, None, None)
                self.emit(st, "va_list", I, ap=args[0], area=area, n=len(self.vargs))
            return [("ret", None, st)]
        if name.startswith("llvm.va_end"):
            self.emit(st, "va_end", I, ap=args[0])
            return [("ret", None, st)]
        if name.startswith("llvm.va_copy"):
            self.emit(st, "va_copy", I, dst=args[0], src=args[1])
            self.havoc_range(st, args[0], const(24))
            return [("ret", None, st)]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume"):
            return [("ret", None, st)]
        if name.startswith("llvm.stacksave"):
            return [("ret", av(atom("ret", self.fresh(), name)), st)]
        if name.startswith("llvm.stackrestore"):
            return [("ret", None, st)]
        if name.startswith("llvm.") and any(x in name for x in (".umax", ".umin", ".smax", ".smin", ".abs", ".fabs", ".fmuladd", ".objectsize", ".expect", ".bswap", "ctlz", "cttz", "ctpop", ".floor", ".ceil", ".trunc", ".round", ".sqrt", ".pow", ".log", ".exp", ".rint")):
            xs = [fnum(x) for x in args]
            fl = {".fmuladd": lambda a, b, c: a * b + c, ".fabs": abs, ".floor": math.floor, ".ceil": math.ceil, ".trunc": math.trunc}
            for k, g in fl.items():
                if name.startswith("llvm" + k + ".f64") and all(x is not None and math.isfinite(x) for x in xs):
                    return [("ret", av(atom("fconst", float(g(*xs)).hex())), st)]
            return [("ret", op(name, *args), st)]
        if name.startswith("llvm.trap"):
            return [("abort", None, st)]
        raise AnalysisError("intrinsic " + name)


# ------------------------------------------------------------------ program
class Program:
    """a set of modules linked by name"""

    def __init__(self, mods, label):
        self.mods = mods
        self.label = label
        self.override = {}        # name -> function of a model module, used instead of the program's own
        self.index = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.index[n] = f

    def find(self, name, mod=None):
        if name in self.override:
            return self.override[name]
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in self.index:
            return self.index[name]
        for m in self.mods:
            if name in m.funcs and m.funcs[name].internal:
                return m.funcs[name]
        return None

    def gname(self, mod, nm):
        g = mod.globals.get(nm)
        if g is not None and (g.internal):
            return mod.name + "::" + nm
        return nm

    def glob(self, gname):
        if "::" in gname:
            mn, n = gname.split("::", 1)
            for m in self.mods:
                if m.name == mn:
                    return m, m.globals.get(n)
        for m in self.mods:
            g = m.globals.get(gname)
            if g is not None and not g.external:
                return m, g
        for m in self.mods:
            g = m.globals.get(gname)
            if g is not None:
                return m, g
        return None, None

    def cstring(self, v):
        """bytes of the constant C string a value points to, or None"""
        if len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].kind == "glob":
            m, g = self.glob(v.t[0][0].args[0])
            if g is not None and g.init is not None and g.const and g.init[0] == "str":
                b = g.init[1][v.c:]
                return b.split(b"\0")[0]
            if g is not None and g.const and g.init is not None and g.init[0] == "zero":
                return b""
        return None

    def const_load(self, gname, off, size, initial=False):
        """value of a constant global (or, if asked, the initial value of any global)"""
        m, g = self.glob(gname)
        if g is None or not (g.const or initial) or g.init is None:
            return None
        return self._cl(m, g.type, g.init, off, size)

    def _cl(self, m, t, init, off, size):
        if init[0] == "zero":
            return 0
        if init[0] == "str":
            b = init[1][off:off + size]
            return int.from_bytes(b, "little") if len(b) == size else None
        if t.kind == "struct" and init[0] == "agg":
            m.layout(t)
            for o, ft, (vt, v) in zip(t.offs, t.fields, init[1]):
                s = m.sizeof(ft)
                if o <= off < o + s:
                    return self._cl(m, ft, v, off - o, size)
            return None
        if t.kind == "array" and init[0] == "agg":
            s = m.sizeof(t.elem)
            i = off // s
            if 0 <= i < len(init[1]):
                return self._cl(m, t.elem, init[1][i][1], off - i * s, size)
            return None
        if off == 0 and init[0] == "i":
            return init[1]
        if off == 0 and init[0] == "null":
            return 0
        if off == 0 and init[0] == "g":
            nm = init[1]
            if nm in m.funcs or nm in m.decls:
                return ("fn", nm, 0)
            return ("glob", self.gname(m, nm), 0)
        return None
