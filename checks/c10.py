"""C10: every accessor of the reader against the stored value, lookups by name, index and iteration against the tree."""
import re
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *
from vlib.bwread import *

ASSUMPTIONS = ["integer accessors on text which is not a number in range are not compared, only required to agree and not to fail"]
NULL32 = -0x8000000

def number(s, lo, hi):
    """Value of the number at the start of text; None when unspecified."""
    m = re.match(rb"[ \t\n\r\f\v]*(-?[0-9]+)", s)
    if not m:
        return None
    v = int(m.group(1))
    return v if lo <= v <= hi else None

def ints(e):
    """Expected getInt, intPtr, int64Ptr; None = unspecified."""
    if e.vt == T.INT32:
        v = b"%d" % struct.unpack("<i", e.val)[0]
        return v, v, b"~"
    if e.vt == T.INT64:
        return b"%d" % NULL32, b"~", b"%d" % struct.unpack("<q", e.val)[0]
    if e.vt == T.STRING:
        a, b = number(e.val, -2**31, 2**31 - 1), number(e.val, -2**63, 2**63 - 1)
        f = lambda x: None if x is None else b"%d" % x
        c = f(b)
        if b is None and not re.match(rb"[ \t\n\r\f\v]*-?[0-9]", e.val):
            c = b"~"            # no number in the text
        return f(a), f(a), c
    return b"%d" % NULL32, b"~", b"~"

def acc_check(D, tags, params):
    D = snapshot(D, D.root)
    def f(blob):
        out = unpack(blob)
        pos = [0]
        def get():
            pos[0] += 1
            return out[pos[0] - 1]
        def value(x, where):
            """getInt .. int64Ptr of element or attribute"""
            return [("getInt", get()), ("getIntPtr", get()), ("getInt64Ptr", get())]
        def same(where, got, want):
            if want is not None and got != want:
                raise Violation("%s is %r, expected %r" % (where, got[:120], want[:120]))
        def text(where, e, s, ch):
            w = text_of(e)
            if s == b"~":
                if ch or (w and e.vt != T.NULL):
                    raise Violation("%s: getString gives nothing, chunks %r" % (where, ch[:100]))
            else:
                same(where + " getString and chunks differ: getString", s[1:], ch)
            same(where + " text", ch, w)
        def data(where, e, d):
            r = raw_of(e)
            if (r is None) != (d == b"~") or (r is not None and clean(e.vt, d[1:]) != r):
                raise Violation("%s: getData is %s, expected %s" % (where, brief(d), brief(r)))
        stack = [(D.root, "")]
        while stack:
            e, where = stack.pop()
            where += "/" + D.tname(e.id)
            same(where + " name", get(), b"=" + D.tname(e.id).encode())
            same(where + " paramcount", get(), b"%d" % len(e.attrs))
            for k, x in enumerate(e.attrs):
                at = where + "@" + D.aname(x.id)
                same(at + " name", get(), b"=" + D.aname(x.id).encode())
                same(at + " type", get(), b"%d" % x.vt)
                for (n, g), w in zip(value(x, at), ints(x)):
                    same(at + " " + n, g, w)
                same(at + " getInt32Ptr", get(), x.val.hex().encode() if x.vt in IS4 else b"-")
                s, ch = get(), get()
                text(at, x, s, ch)
                data(at, x, get())
                same(at + " getParamByName", get(), b"%d" % next(i for i, y in enumerate(e.attrs) if y.id == x.id))
            same(where + " type", get(), b"%d" % e.vt)
            for (n, g), w in zip(value(e, where), ints(e)):
                same(where + " " + n, g, w)
            s, ch = get(), get()
            text(where, e, s, ch)
            same(where + " getBinary", clean(e.vt, get()), b"=" + e.val if e.vt in (T.BLOB, T.STRING) else b"~")
            data(where, e, get())
            look = lambda lst, names, name: "".join("%s " % next((str(i) for i, y in enumerate(lst) if name(y.id) == n), "-") for n in names)
            same(where + " lookups", get(), (look(e.kids, tags, D.tname) + "|" + look(e.attrs, params, D.aname)).encode())
            same(where + " children", get(), b"%d" % len(e.kids))
            stack.extend((k, where) for k in reversed(e.kids))
        if pos[0] != len(out):
            raise Violation("more items than expected")
    def g(b):
        try:
            f(b)
        except Violation as v:
            return str(v)
    return g

def walk_checks(D):
    pre, post, posta = [], [], []
    def w(e, deep, path):
        for k in e.kids:
            n = D.tname(k.id)
            up = path + [D.tname(e.id)]
            pre.append("%d%s " % (deep, n))
            w(k, deep + 1, up)
            post.append("%d%s " % (deep, n))
            posta.append("%d/%s:%s " % (deep, "/".join(up), n))
    w(D.root, 0, [])
    return ["".join(x) for x in (pre, post, posta)]

def read(S, D, n, how, bufs):
    S.op("xb", 0, "o%d.xb" % n, how)
    S.op("ropen", 0, "o%d.xb" % n)
    tags, params = sorted(t[0] for t in D.tags), sorted(a[0] for a in D.attrs)
    S.op("rsyms", 0, out=[lambda b: None if [[y.rsplit(":", 1)[0] for y in x.split(";") if y] for x in b.decode().split("|")] == [tags, params] else "names are %r" % b])
    for buf in bufs:
        S.op("racc", 0, buf, out=[acc_check(D, tags, params)])
    S.op("rwalk", 0, out=walk_checks(D))
    names = tags + params + ["", "t", "a", "t00", "zzz", "T0", "a0 ", "_"]
    find = lambda lst, x: lst.index(x) if x in lst else -1
    S.op("rids", 0, len(names), *names, out=["".join("%d %d;" % (find(tags, x), find(params, x)) for x in names)])
    S.op("rclose", 0)

def oracle(ctx, case):
    types, ops, hows, bufs = case
    M = Machine(types, pool=0x200000, verify=False)
    D, S = M.D, M.S
    M.begin()
    for op in ops:
        M.step(op)
    for n, how in enumerate(hows):
        read(S, D, n, how, bufs)
        ctx.note(how)
    S.run(ctx)
    for e in D.walk(D.root):
        ctx.note("%s%d" % ("E" if e.elem else "A", e.vt))

# text values that look like numbers make the integer accessors meaningful
NUMS = st.one_of(st.integers(-2**31, 2**31 - 1).map(str), st.integers(-2**63, 2**63 - 1).map(str), st.builds(lambda a, n, b: a + str(n) + b, st.sampled_from(["", " ", "\n\t", "0", "00"]), st.integers(-999, 9999), st.sampled_from(["", "x", " 1", ".5"])),
                 st.sampled_from(["2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-", "+5", "-0", "18446744073709551616"]))
BUILD = ("new", "newadd", "newadd", "newadd", "newadd", "at", "at", "at", "at", "sets", "retype", "move")
BUF = st.lists(st.one_of(st.integers(257, 330), st.sampled_from([257, 1000, 4097])), min_size=1, max_size=2)      # the library refuses shorter buffers
CASES = st.tuples(TYPES, st.lists(op_strategy(BUILD, s=st.one_of(NUMS, SMALLS)), min_size=4, max_size=36), st.lists(st.sampled_from(["plain", "pack"]), min_size=1, max_size=2, unique=True), BUF)
WIDE = st.tuples(st.tuples(st.lists(st.sampled_from(TAG_TYPES), min_size=8, max_size=40), st.lists(st.sampled_from(ATTR_TYPES), min_size=8, max_size=40)),
                 st.lists(op_strategy(BUILD, s=st.one_of(NUMS, SMALLS)), min_size=20, max_size=120), st.lists(st.sampled_from(["plain", "pack"]), min_size=1, max_size=1), BUF)
RULE = "at least three additions of elements or attributes"
NT = lambda c: sum(o[0] in ("newadd", "at") for o in c[1]) >= 3
SUBS = [
    Sub("values", "drv_bw", CASES, oracle, 4000, nontrivial=NT, rule=RULE),
    Sub("wide", "drv_bw", WIDE, oracle, 700, nontrivial=NT, rule=RULE),
]
