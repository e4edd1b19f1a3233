"""Materialised heap shapes: abstract transformers of public operations applied to opaque keys, values and elements."""
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K

CMP, ACT, MERGE = "sa_cmp", "sa_act", "sa_merge"
CMPF, ACTF, MERGEF = (av(A.atom("fn", x)) for x in (CMP, ACT, MERGE))


class Many(Exception):
    pass


class World:
    """
    one abstract heap; keys are opaque objects whose comparison is their rank; callbacks record what they are given.
    Counting and releasing of elements is judged elsewhere (P04-P06), so those calls stay opaque unless `real`.
    """

    INTERP = A.Interp

    def __init__(self, c, real=False, models=None, exact=1000, opaque=None):
        self.c = c
        self.rank = {}
        self.acts = []
        self.act_ret = lambda i, args: ZERO
        self.merge_ret = None
        m = {CMP: self._cmp, ACT: self._act, MERGE: self._merge}
        m.update(models or {})
        op = set() if real else (K.DELETERS | K.COUNTERS)
        if opaque:
            op |= set(opaque)
        self.it = self.INTERP(c.prog, opaque=op, models=m)
        self.it.exact = exact
        self.it.max_paths = 1000
        self.it.null_ends = True
        self.it.init_globals = True
        self.it.keep_conds = False
        c.prog.override = {}
        self.st = A.State()
        self.bad = []

    def clone(self):
        w = type(self).__new__(type(self))
        w.__dict__.update(self.__dict__)
        w.rank = dict(self.rank)
        w.acts = list(self.acts)
        w.st = self.st.copy()
        w.bad = list(self.bad)
        w.it.models.update({CMP: w._cmp, ACT: w._act, MERGE: w._merge})
        return w

    def key(self, name, rank, st=None):
        """an opaque managed object that compares by rank"""
        k = vadd(K.obj(name), const(256))
        self.rank[k] = rank
        return k

    def obj(self, name):
        return vadd(K.obj(name), const(256))

    def _cmp(self, it, I, name, args, st):
        a, b = (self.rank.get(x) for x in args[:2])
        if a is None or b is None:
            self.bad.append(("compares %r with %r" % (args[0], args[1]), I.loc()))
            return [("ret", const(0), st)]
        return [("ret", const((a > b) - (a < b)), st)]

    def _act(self, it, I, name, args, st):
        i = len(self.acts)
        self.acts.append(args)
        return [("ret", self.act_ret(i, args), st)]

    def _merge(self, it, I, name, args, st):
        self.acts.append(args)
        return [("ret", self.merge_ret, st)]

    def call(self, fn, *args):
        """the single outcome of a call; ("abort",) when it does not return"""
        self.it.models.update({CMP: self._cmp, ACT: self._act, MERGE: self._merge})
        self.c.fn(fn)
        st = self.st.copy()
        st.trace = None
        try:
            ps = self.it.run(fn, [const(a) if isinstance(a, int) else a for a in args], st)
        except A.Wrong as e:
            raise Many("in %s %s" % (fn, e) + (" at " + e.where if e.where else ""))
        except A.Budget:
            raise Many("%s has more outcomes than can be followed on a fully materialised heap" % fn)
        if len(ps) != 1:
            raise Many("%s has %d outcomes on a fully materialised heap" % (fn, len(ps)))
        p = ps[0]
        self.ev = p.ev
        for e in K.problems(p):
            self.bad.append(("%s" % e.kind, e.where()))
        if p.kind != "ret":
            self.aborted = True
            return None
        self.st = p.st
        return self.it.reduce(p.st, p.ret) if p.ret is not None else None

    def read(self, addr, size=8):
        return self.it.reduce(self.st, self.it.load(self.st, addr, size, None, "ptr" if size == 8 else "i%d" % (8 * size)))

    def ptr(self, addr):
        return self.read(addr, 8)

    def items(self, l):
        """elements of a list object"""
        n = self.call("cee_list_size", l)
        if n is None or not n.is_const() or not 0 <= n.c <= 64:
            return None
        b = self.ptr(l)
        return [self.ptr(vadd(b, const(8 * i))) for i in range(n.c)]
