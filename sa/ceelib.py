"""Building the analysed units from /repo and helpers shared by the checks."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

import ir
import absint as A
from absint import V, const, vsub, vadd, av, ZERO, ONE

REPO = os.environ.get("CEE_REPO", "/repo")
CLANG = "clang-18"
OPT = "opt-18"
FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-Wno-error=implicit-function-declaration", "-S", "-emit-llvm", "-fno-discard-value-names"]

CORE_SRC = ("musl-hsearch.c musl-insque.c musl-lsearch.c musl-tsearch.c cee-common.c boxed.c str.c dict.c map.c set.c "
            "stack.c tuple.c triple.c quadruple.c list.c tagged.c singleton.c closure.c block.c n_tuple.c env.c state.c").split()
JSON_SRC = "value.c parser.c snprint.c tokenizer.c cee_json_merge.c".split()


class Broken(Exception):
    """the analysis itself cannot answer (anchor vanished, unit does not compile, ...)"""


def _makevar(path, names):
    try:
        txt = open(path).read().replace("\\\n", " ")
    except OSError:
        return None
    out = []
    for n in names:
        m = re.search(r"^%s\s*:?=\s*(.*)$" % n, txt, re.M)
        if not m:
            return None
        out += [x for x in m.group(1).split() if x.endswith(".c")]
    return out or None


def _compile(tmp, name, text=None, path=None, std="gnu99", inc=(), defs=()):
    if text is not None:
        path = os.path.join(tmp, name + ".c")
        with open(path, "w") as f:
            f.write(text)
    ll = os.path.join(tmp, name + ".ll")
    cmd = [CLANG, "-std=" + std] + FLAGS + ["-I" + i for i in inc] + ["-D" + d for d in defs] + [path, "-o", ll]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("unit %s does not compile: %s" % (name, r.stdout[-1500:]))
    o2 = os.path.join(tmp, name + ".o.ll")
    r = subprocess.run([OPT, "-S", "-passes=sroa", ll, "-o", o2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("opt failed on %s: %s" % (name, r.stdout[-500:]))
    with open(o2) as f:
        return ir.parse(f.read(), name)


_units = {}


def unit(name):
    """one of core-src core-rel json-src json-rel sqlite join strview dbm"""
    if name in _units:
        return _units[name]
    tmp = tempfile.mkdtemp(prefix="ceesa-")
    try:
        R = REPO
        if name == "core-src":
            src = _makevar(R + "/Makefile", ["MUSL_SRC", "CEE_SRC"]) or CORE_SRC
            t = "#define _GNU_SOURCE\n" + "".join("#include <%s.h>\n" % h for h in "stdio string stdlib stdarg assert errno".split())
            t += '#include "cee.h"\n#include "musl-search.h"\n#define CEE_AMALGAMATION\n'
            t += "".join('#include "%s"\n' % s for s in src)
            m = _compile(tmp, name, t, std="c99", inc=[R])
        elif name == "core-rel":
            m = _compile(tmp, name, path=R + "/release/cee.c", std="c99", inc=[R + "/release", R])
        elif name == "json-src":
            src = _makevar(R + "/cee-json/Makefile", ["SRC"]) or JSON_SRC
            t = "#define _GNU_SOURCE\n" + "".join("#include <%s.h>\n" % h for h in
                                                    "stdlib string errno sys/types sys/stat unistd stdio ctype".split())
            t += '#include "cee.h"\n#include "cee-json.h"\n#include "tokenizer.h"\n#define CEE_JSON_AMALGAMATION\n'
            t += "".join('#include "%s"\n' % s for s in src)
            m = _compile(tmp, name, t, std="gnu17", inc=[R + "/cee-json", R])
        elif name == "json-rel":
            m = _compile(tmp, name, path=R + "/cee-json/release/cee-json.c", std="gnu17", inc=[R + "/cee-json/release", R + "/release", R])
        elif name == "sqlite":
            m = _compile(tmp, name, path=R + "/sqlite3/cee-sqlite3.c", inc=[R, R + "/cee-json", R + "/sqlite3"])
        elif name == "join":
            m = _compile(tmp, name, path=R + "/sqlite3/join.c", inc=[R, R + "/cee-json", R + "/sqlite3"])
        elif name == "strview":
            m = _compile(tmp, name, '#define SV_IMPLEMENTATION\n#include "%s/strview.c"\n' % R, inc=[R])
        else:
            raise Broken("unknown unit " + name)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _units[name] = m
    return m


WALK = r"""
/* abstract contracts of the tree walkers, established for the real ones by rule 'walk' of check P08 */
typedef enum { preorder, postorder, endorder, leaf } VISIT;
extern void *ab_node(const void *root);
extern int ab_leaf(void *node);
void musl_twalk(void *cxt, const void *root, void (*action)(void *, const void *, VISIT, int)) {
  void *n;
  while ((n = ab_node(root))) {
    if (ab_leaf(n)) action(cxt, n, leaf, 0);
    else { action(cxt, n, preorder, 0); action(cxt, n, postorder, 0); action(cxt, n, endorder, 0); }
  }
}
void musl_tdestroy(void *cxt, void *root, void (*freekey)(void *, void *)) {
  void *n;
  while ((n = ab_node(root))) { if (freekey) freekey(cxt, *(void **)n); }
}
"""


def with_walk(prog):
    """replace the tree walkers by their contracts: one abstract iteration per node"""
    if "walk" not in _units:
        tmp = tempfile.mkdtemp(prefix="ceesa-")
        try:
            _units["walk"] = _compile(tmp, "walk", WALK)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    m = _units["walk"]
    en = {}
    for x in prog.mods:
        en.update(x.enums())
    for i, k in enumerate(("preorder", "postorder", "endorder", "leaf")):
        if en.get(k, i) != i:
            raise Broken("visit order constants changed")
    prog.override = {n: f for n, f in m.funcs.items() if n.startswith("musl_")}
    return prog


def program(label):
    """'src' / 'rel': core + json of the source tree or of the committed amalgamations; 'sql': src + sqlite"""
    if label == "src":
        return A.Program([unit("core-src"), unit("json-src")], "src")
    if label == "rel":
        return A.Program([unit("core-rel"), unit("json-rel")], "rel")
    if label == "sql":
        return A.Program([unit("core-src"), unit("json-src"), unit("sqlite"), unit("join")], "sql")
    if label == "sv":
        return A.Program([unit("strview")], "sv")
    raise Broken(label)


# ------------------------------------------------------------------ layout facts from debug info
class Layout:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def members(self, sname):
        if sname not in self.cache:
            r = None
            for m in self.prog.mods:
                r = m.di_struct_members(sname)
                if r:
                    break
            self.cache[sname] = r
        return self.cache[sname]

    def off(self, sname, member):
        ms = self.members(sname)
        if not ms:
            raise Broken("struct %s not found" % sname)
        for n, o, s, t, bo, bs in ms:
            if n == member:
                return o
        raise Broken("member %s.%s not found" % (sname, member))

    def bits(self, sname, member):
        """(bit offset in struct, bit width)"""
        for n, o, s, t, bo, bs in self.members(sname) or []:
            if n == member:
                return bo, bs
        raise Broken("member %s.%s not found" % (sname, member))

    def size(self, sname):
        for m in self.prog.mods:
            t = m.types.get("struct." + sname)
            if t is not None and t.fields is not None:
                return m.sizeof(t)
        raise Broken("struct %s not laid out" % sname)


def strip(v, memo=None):
    """drop read epochs: [a~n] -> [a]"""
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    r = const(v.c)
    for a, k in v.t:
        na = a
        if any(isinstance(y, V) for y in a.args) or a.kind == "ld":
            args = [strip(y, memo) if isinstance(y, V) else y for y in a.args]
            if a.kind == "ld":
                args[1] = ""
                args[2] = 0
            na = A.atom(a.kind, *args)
        r = vadd(r, A.mk(0, ((na, k),)))
    memo[v] = r
    return r


def ld(addr, ty=None):
    return av(A.atom("ld", addr, "", 0))


def walk_events(evs, depth=0):
    """all events incl. those inside loops (each loop body alternative)"""
    for e in evs:
        yield e, depth
        if e.kind == "loop":
            for it in e.lp["iters"]:
                yield from walk_events(it[0], depth + 1)


def flat(evs):
    for e, _ in walk_events(evs):
        yield e


# ------------------------------------------------------------------ loop coverage
def loop_exit_state(path_state):
    return path_state


class Cover:
    """result of matching a loop to 'visits index lo..n-1 exactly once'"""

    def __init__(self, ok, why=""):
        self.ok, self.why = ok, why


def covers(it, st, evs, hit, base, n, esz=8, what="element"):
    """
    Do the events visit base[0..n-1], each exactly once?
      hit(ev) -> address visited by the event, or None
      base: V; n: V (count); st: state after the loop(s)
    Accepts a counting loop in either direction, a pointer walk, or straight-line visits of all constant indices.
    """
    consts = []
    loops = []
    for e in evs:
        if e.kind == "loop":
            hits_in = [x for itx in e.lp["iters"] for x in flat(itx[0]) if hit(x) is not None]
            part = [x for x in flat(e.exit) if hit(x) is not None]
            if hits_in:
                loops.append((e, part))
        else:
            a = hit(e)
            if a is not None:
                consts.append((a, e))
    if loops and consts:
        # visits after/before the loop that belong to a partial iteration are reported by the exit part
        pass
    if not loops:
        seen = {}
        for a, e in consts:
            d = vsub(strip(a), strip(base))
            if d.t or d.c % esz:
                return Cover(False, "visits %r, not an element of %r" % (a, base))
            if d.c in seen:
                return Cover(False, "visits element %d twice" % (d.c // esz))
            seen[d.c] = e
        nn = it.reduce(st, n)
        if nn.t:
            # nothing visited: fine only if n is provably zero
            if not seen and it.implies_le0(st, nn):
                return Cover(True)
            return Cover(False, "visits %d constant elements but the count is %r" % (len(seen), nn))
        if sorted(seen) != [i * esz for i in range(nn.c)]:
            return Cover(False, "visits elements %s of %d" % (sorted(x // esz for x in seen), nn.c))
        return Cover(True)
    if len(loops) > 1:
        return Cover(False, "several loops visit elements")
    e, part = loops[0]
    lp = e.lp
    pos = None
    skipped = []
    for evl, nxt, s2, nenv in lp["iters"]:
        if not any(hit(x) is not None for x in flat(evl)):
            skipped.append(s2)
            continue
        hs = [(hit(x), x) for x in evl if x.kind != "loop" and hit(x) is not None]
        deep = [x for x in flat(evl) if hit(x) is not None]
        if len(hs) != 1 or len(deep) != 1:
            return Cover(False, "an iteration visits %d elements (it must be exactly one)" % len(deep))
        d = vsub(strip(hs[0][0]), strip(base))
        if pos is None:
            pos = d
        elif pos is not d:
            return Cover(False, "iterations visit different positions %r / %r" % (pos, d))
    if pos is None:
        return Cover(False, "no completed iteration")
    for s2 in skipped:
        # only a NULL element may be passed over
        a = vadd(strip(base), pos)
        if not any(strip(k) is a and it.reduce(s2, x[0]) is ZERO for k, x in s2.mem.items()):
            return Cover(False, "an iteration visits no element")
    ph = {}
    for name, (a, init) in lp["phis"].items():
        ph[a] = (name, init)
    for a, x in lp["mem"].items():
        pass
    init = A.subst(pos, {a: strip(i) for a, (nm, i) in ph.items()})
    step = None
    for evl, nxt, s2, nenv in lp["iters"]:
        m = {}
        for a, (nm, i) in ph.items():
            m[a] = strip(nxt[nm])
        nx = A.subst(pos, m)
        dd = vsub(nx, pos)
        if dd.t:
            return Cover(False, "position does not advance by a constant")
        if step is None:
            step = dd.c
        elif step != dd.c:
            return Cover(False, "position advances by different amounts")
    N = vscale_(strip(n), esz)
    I0 = it.reduce(st, init)
    if step == esz:
        if I0.t or I0.c != 0:
            return Cover(False, "first visited position is %r, not 0" % (I0,))
        rest = _exit_pos(pos, e, st)
        if not stripped_le0(it, st, vsub(N, rest)):
            return Cover(False, "the loop can stop before position reaches the count %r" % (n,))
        # no overrun: inside the body position < N
        for evl, nxt, s2, nenv in lp["iters"]:
            if not stripped_le0(it, s2, vadd(vsub(pos, N), const(esz))):
                return Cover(False, "an iteration may visit a position beyond the count %r" % (n,))
        return Cover(True)
    if step == -esz:
        dd = vsub(I0, it.reduce(st, vsub(N, const(esz))))
        if dd.t or dd.c != 0:
            return Cover(False, "first visited position is %r, not count-1" % (I0,))
        if not stripped_le0(it, st, vadd(pos, const(esz))):
            return Cover(False, "the loop can stop before reaching element 0")
        return Cover(True)
    return Cover(False, "position advances by %r bytes, not one element" % step)


def _exit_pos(pos, e, st):
    return pos


def vscale_(v, k):
    return A.vscale(v, k)


def stripped_le0(it, st, v):
    """implies_le0 modulo read epochs (facts and goal both stripped)"""
    if it.implies_le0(st, v):
        return True
    s = A.State()
    s.le = tuple(strip(x) for x in st.le)
    s.eqc = {}
    for a, x in st.eqc.items():
        b = strip(av(a)).single()
        if b is not None:
            s.eqc[b] = strip(x)
    return it.implies_le0(s, strip(v))
