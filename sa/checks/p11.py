"""P11: boxed primitives keep their type and value."""
import re
import absint as A
import ceelib as C
from absint import av, const, vadd, vsub, ZERO
from checks import core as K
from checks import shape as S

MIN = {"same": 20, "other": 180, "print": 20}
EXPLAIN = ("Every boxing constructor is analysed on an opaque value, then every reader and cee_boxed_snprint on the object it returns. Rule same: the "
           "reader of the same type returns the value boxed (the same symbolic value at the same width). Rule other: every reader of another type does "
           "not return. Rule print: cee_boxed_snprint makes one snprintf call into the caller's buffer with the caller's size, whose only conversion "
           "fits the type (integer or floating, signedness, at least its width) and whose operand is the value extended by its own sign rule, and returns the "
           "length snprintf reports.")
ASSUME = ["snprintf does what C says"]
TYPES = ["double", "float", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8"]


def where(c, fn):
    f = c.fn(fn)
    return "%s:%d (%s)" % (f.loc() + (fn,))


def width(t):
    return {"double": 64, "float": 32}.get(t) or int(t[1:])


def run(ctx):
    for label in ("src", "rel"):
        c = K.Core(ctx, label)
        for t in TYPES:
            one(ctx, c, t)


def box(c, t):
    w = S.World(c)
    w.it.strict32 = True
    w.state = w.call("cee_state_mk", 4)
    v = av(A.atom("arg", 1, "value"))
    w.v = v
    w.b = w.call("cee_boxed_from_" + t, w.state, v)
    return w


def one(ctx, c, t):
    mk = "cee_boxed_from_" + t
    try:
        w = box(c, t)
    except S.Many as e:
        ctx.fail("same", mk, str(e), where(c, mk))
        return
    for u in TYPES:
        fn = "cee_boxed_to_" + u
        ps = w.it.run(fn, [w.b], w.st)
        rets = [p for p in ps if p.kind == "ret"]
        ctx.used(w.it)
        if u == t:
            got = [w.it.reduce(p.st, p.ret) for p in rets]
            ctx.check(got and len(ps) == len(rets) and all(g is w.v for g in got), "same", fn,
                      "gives %s for the value boxed by %s" % (got or "no result", mk), where(c, fn))
        else:
            ctx.check(not rets, "other", fn, "returns %s for an object made by %s" % ([p.ret for p in rets], mk), where(c, fn))
    fn = "cee_boxed_snprint"
    buf, size = K.obj("buf"), av(A.atom("arg", 1, "size"))
    ps = w.it.run(fn, [buf, size, w.b], w.st)
    ctx.used(w.it)
    rets = [p for p in ps if p.kind == "ret"]
    bad = None
    if not rets:
        bad = "never returns"
    for p in rets:
        bad = bad or printed(c, w, p, t, buf, size)
    ctx.check(not bad, "print", "%s/%s" % (fn, t), bad or "", where(c, fn))


def printed(c, w, p, t, buf, size):
    cs = [e for e in C.flat(p.ev) if e.kind == "call" and e.name in ("snprintf", "sprintf", "__snprintf_chk", "vsnprintf")]
    if len(cs) != 1 or cs[0].name != "snprintf":
        return "a %s is printed by %s" % (t, [e.name for e in cs] or "no call")
    e = cs[0]
    if e.args[0] is not buf or e.args[1] is not size:
        return "prints to (%r, %r)" % (e.args[0], e.args[1])
    fmt = c.prog.cstring(e.args[2])
    if fmt is None:
        return "the format is %r" % e.args[2]
    m = re.fullmatch(rb"%(?:\.(\d+))?(hh|h|ll|l|j|z|t|L|)([a-zA-Z])", fmt)
    if not m:
        return "a %s is printed with %r" % (t, fmt)
    ln, cv = m.group(2).decode(), m.group(3).decode()
    arg = e.args[3] if len(e.args) > 3 else None
    if t in ("double", "float"):
        if cv not in "eEfFgG" or ln not in ("", "l"):
            return "a %s is printed with %r" % (t, fmt)
        want = w.v if t == "double" else None
        s = arg.single() if arg is not None else None
        ok = arg is w.v or (t == "float" and s is not None and s.kind == "op" and s.args[0] == "fpext" and s.args[-1] is w.v)
        if not ok:
            return "a %s prints %r" % (t, arg)
    else:
        bits = {"hh": 8, "h": 16, "": 32, "l": 64, "ll": 64, "j": 64, "z": 64, "t": 64}.get(ln, 0)
        wd = width(t)
        signed = t[0] == "i"
        okc = cv in "di" if signed else (cv == "u" or (cv in "di" and bits > wd))
        if not okc or bits < wd:
            return "a %s is printed with %r" % (t, fmt)
        ok = arg is w.v
        s = arg.single() if arg is not None else None
        if not ok and s is not None and s.kind == "op" and s.args[0] in ("sext", "zext"):
            ok = s.args[-1] is w.v and s.args[0] == ("sext" if signed else "zext") and s.args[1] == wd
        if not ok or (wd < bits and arg is w.v and wd < 32):
            return "a %s prints %r" % (t, arg)
    r = w.it.reduce(p.st, p.ret)
    s = r.single()
    if s is not None and s.kind == "op" and s.args[0] in ("sext", "zext", "trunc") and s.args[1] == 32:
        r = s.args[-1]
    if r is not e.ret:
        return "returns %r instead of the length" % p.ret
    return None
