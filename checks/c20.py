"""C20: detection of canonical texts, laws of joining types, column types."""
import itertools, random
from decimal import Decimal
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import cal, values, xmlgen as X
from checks import c19
from checks.c19 import (NULL, VARIANT, STRING, BLOB, INT32, INT64, FLOAT, DOUBLE, HEX, GUID, SHA1, TIME, IP4, IP6, UNKNOWN, UINT64, MSEC, UINT32, DATE, DECI, CENTI, MILI, MICRO, NANO, BSTR, LAST, DEC)
import struct

# --- laws of JoinTypes
TYPES = [t for t in range(25) if t not in (UNKNOWN,)]
def laws(ctx, case):
    table = {}
    pairs = list(itertools.product(TYPES, TYPES))
    out = ctx.call("b", *[x for a, b in pairs for x in ("join", a, b)])
    for p, o in zip(pairs, out):
        table[p] = int(o)
    for (a, b), c in table.items():
        if c not in TYPES:
            raise Violation("join of %d and %d is type %d" % (a, b, c))
        if table[b, a] != c:
            raise Violation("join of %d and %d is %d, in the other order %d" % (a, b, c, table[b, a]))
        if a == b and c != a:
            raise Violation("join of %d with itself is %d" % (a, c))
        if a == NULL and c != b:
            raise Violation("empty values change type %d to %d" % (b, c))
        if table[a, c] != c or table[b, c] != c:
            raise Violation("join of %d and %d is %d, which does not absorb them" % (a, b, c))
    for a, b, c in itertools.product(TYPES, TYPES, TYPES):
        if table[table[a, b], c] != table[a, table[b, c]]:
            raise Violation("join of %d, %d, %d depends on grouping" % (a, b, c))
    # what is joined can hold both: numbers stay numbers of enough range and precision
    order = [INT32, DECI, CENTI, MILI, MICRO, NANO]
    for i, a in enumerate(order):
        for b in order[i:]:
            if table[a, b] not in (b, STRING, VARIANT):
                raise Violation("join of %d and %d is %d" % (a, b, table[a, b]))
    for a, b, want in ((INT32, INT64, INT64), (INT32, FLOAT, FLOAT), (INT32, DOUBLE, DOUBLE), (FLOAT, DOUBLE, DOUBLE), (INT64, DOUBLE, DOUBLE), (INT64, FLOAT, DOUBLE)):
        if table[a, b] not in (want, DOUBLE if want == FLOAT else want, STRING, VARIANT):
            raise Violation("join of %d and %d is %d" % (a, b, table[a, b]))
    kinds = [{INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, DECI, CENTI, MILI, MICRO, NANO}]
    for (a, b), c in table.items():
        if NULL in (a, b) or a == b:
            continue
        if {a, b} <= kinds[0]:
            if c not in kinds[0] | {STRING, VARIANT}:
                raise Violation("join of numbers %d and %d is %d" % (a, b, c))
        elif c not in (VARIANT, STRING, BSTR):
            raise Violation("different kinds %d and %d are joined to %d" % (a, b, c))

# --- canonical texts
def ints():
    return st.one_of(c19.I32, c19.U32, c19.I64, st.integers(-2**31 - 3, -2**31 + 3), st.integers(2**31 - 3, 2**31 + 3), st.integers(2**32 - 3, 2**32 + 3), st.integers(2**63 - 3, 2**63 + 3), st.integers(2**63, 10**19 - 1), st.sampled_from([10**19 - 1, -2**63]))
def int_type(v):
    return INT32 if -2**31 <= v < 2**31 else UINT32 if 0 <= v < 2**32 else INT64 if v < 2**63 else UINT64
LOW = "0123456789abcdef"
hexes = st.text(st.sampled_from(LOW), min_size=1, max_size=120).filter(lambda s: len(s) % 2 == 0 and len(s) != 40 and s.strip("0123456789"))
def dec_text(v, k):
    return "%s%d.%0*d" % ("-" if v < 0 else "", abs(v) // 10**k, k, abs(v) % 10**k)
CANON = st.one_of(
    ints().map(lambda v: (int_type(v), str(v))),
    st.builds(lambda t, v: (t, dec_text(v, DEC[t])), st.sampled_from(sorted(DEC)), c19.I32),
    st.integers(0, 2**32 - 1).map(lambda v: (IP4, ".".join(str(b) for b in v.to_bytes(4, "big")))),
    st.lists(st.sampled_from([0, 1, 9, 10, 99, 100, 199, 255]), min_size=4, max_size=4).map(lambda l: (IP4, ".".join(map(str, l)))),
    st.one_of(st.integers(cal.to_days(0, 1, 1), cal.to_days(9999, 12, 31)), st.integers(-30000, 60000)).map(lambda d: (DATE, cal.date_text(d))),
    c19.U32.map(lambda s: (TIME, cal.time_text(s))),
    st.builds(lambda s, ms: (MSEC, cal.time_text(s) + ".%03d" % ms), st.one_of(c19.U32, st.integers(cal.to_days(0, 1, 1) * 86400, cal.to_days(9999, 12, 31) * 86400)), st.integers(0, 999)),
    st.builds(lambda s, ms: (MSEC, cal.time_text(s, "T") + ".%03dZ" % ms), c19.U32, st.integers(0, 999)),
    st.binary(min_size=16, max_size=16).map(lambda b: (GUID, c19.ref_text(GUID, b).decode())),
    st.binary(min_size=20, max_size=20).map(lambda b: (SHA1, b.hex())).filter(lambda x: x[1].strip("0123456789")),
    hexes.map(lambda s: (HEX, s)),
    st.just((NULL, "")),
    # exponents and long decimals are floating point numbers, longer ones double
    st.builds(lambda m, e, neg: (DOUBLE if e > 38 else FLOAT, "%s%sE%d" % ("-" if neg else "", m, e)), st.sampled_from(["1", "1.5", "0.25", "12.75", "3"]), st.integers(0, 308), st.booleans()),
    st.builds(lambda a, b: (DOUBLE, "%d.%s" % (a, b)), st.integers(0, 99), st.text(st.sampled_from("123456789"), min_size=10, max_size=17)),
)
WORD = st.builds(lambda a, b: a + b, st.text(st.sampled_from("ghijklmnopqrstuvwxyzGHIJ éů_/"), min_size=1, max_size=12).filter(lambda s: s.strip()), st.text(st.sampled_from("abcxyz019 .-:"), max_size=8)).map(lambda s: (STRING, s))
ITEM = st.one_of(CANON, CANON, CANON, WORD)

def detect(ctx, items):
    args = ["b"]
    for t, s in items:
        args += ["detect", s]
    for (t, s), o in zip(items, ctx.call(*args)):
        if int(o) != t:
            raise Violation("%r is detected as type %d, is text of type %d" % (s, int(o), t))
    # what has an exact canonical text is represented by its type
    args, who = ["b"], []
    for t, s in items:
        if t not in (FLOAT, DOUBLE) and not (t == MSEC and s.endswith("Z")) and not (t == HEX and len(s) > 32):
            args += ["exact", s, t]
            who.append((t, s))
    if who:
        for (t, s), o in zip(who, ctx.call(*args)):
            if o != b"1":
                raise Violation("%r is said not to be exact in its type %d" % (s, t))

# --- any text: a known type, always the same one; nothing but the value decides
def anytext(ctx, items):
    args = ["b"]
    for s in items:
        args += ["detect", s, "detect2", 1, s, "detect2", 2, s, s]
    out = ctx.call(*args)
    for i, s in enumerate(items):
        a, b, c = (int(x) for x in out[3 * i:3 * i + 3])
        if a != b or a != c or a in (VARIANT, UNKNOWN, BLOB, BSTR) or not 0 <= a < LAST:
            raise Violation("%r is detected as %d, in a column %d, repeated %d" % (s, a, b, c))
        if a == NULL and s.strip(" \t\r\n") != "":
            raise Violation("%r is detected as empty" % s)

# --- columns
COLUMN = st.lists(st.one_of(st.sampled_from(range(8)), st.integers(0, 7)), min_size=0, max_size=0)
SMALL = st.one_of(st.integers(-2, 2), st.integers(-2**31, 2**31 - 1), st.integers(-2000, 2000))
num = st.one_of(SMALL.map(str), st.builds(dec_text, SMALL, st.sampled_from([1, 2, 3, 6, 9])))
COLUMN = st.tuples(st.one_of(st.lists(num, min_size=1, max_size=7), st.lists(ITEM.map(lambda x: x[1]), min_size=1, max_size=7), st.lists(values.ANY.map(lambda s: s.replace("\0", "")), min_size=1, max_size=5), st.lists(st.one_of(ints().map(str), num), min_size=1, max_size=6)),
                   st.randoms(use_true_random=False).map(lambda r: r.randrange(2**32)))
def column(ctx, case):
    texts, sd = case
    r = random.Random(sd)
    perms = [list(texts)]
    for _ in range(4):
        p = list(texts)
        r.shuffle(p)
        perms.append(p)
    perms.append(list(texts) + [r.choice(texts)] + [""])
    args = ["b"]
    for p in perms:
        args += ["detect2", len(p)] + p
    for s in texts:
        args += ["detect", s]
    out = [int(x) for x in ctx.call(*args)]
    if len(set(out[:len(perms)])) != 1:
        raise Violation("type of column depends on order, repetition or empty values: %r -> %r" % (perms, out[:len(perms)]))
    t, each = out[0], out[len(perms):]
    if all(e == each[0] for e in each) and t != each[0]:
        raise Violation("values %r have type %d, column %d" % (texts, each[0], t))
    # every value is represented by the type of the whole column
    if t in (INT32,) + tuple(DEC) or t in (INT64, UINT64, UINT32):
        args, who = ["b"], []
        for s, e in zip(texts, each):
            if e == NULL:
                continue
            if not (s.lstrip("-").replace(".", "", 1).isdigit() and s.isascii()) or s.startswith("--"):
                continue
            v = Decimal(s) * 10 ** DEC.get(t, 0)
            if t in DEC and not -2**31 <= v < 2**31:
                continue
            args += ["from", s, t, 0, 16]
            who.append((s, v))
        if who:
            out = ctx.call(*args)
            for i, (s, v) in enumerate(who):
                ok, adv, data = out[4 * i:4 * i + 3]
                if ok != b"1" or struct.unpack(c19.FMT[t], data)[0] != v:
                    raise Violation("%r in column of type %d becomes %s" % (s, t, data.hex()))

# --- the dictionary of a converted document: type of each name is the type of its column, in whatever order names and values come
GOOD = st.one_of(CANON.map(lambda x: x[1]), CANON.map(lambda x: x[1]), WORD.map(lambda x: x[1].strip()), st.sampled_from(["", "1", "2.5", "x"]))
NAMES = st.lists(st.one_of(st.sampled_from(["a", "b", "c", "aa", "z", "m", "x1", "x2", "id", "val"]), X.names(max_size=4)), min_size=1, max_size=7, unique=True)
STORED = NAMES.flatmap(lambda ns: st.tuples(st.just(ns), st.lists(st.lists(GOOD, min_size=1, max_size=4), min_size=len(ns), max_size=len(ns)), st.lists(st.booleans(), min_size=len(ns), max_size=len(ns)), st.integers(0, 2**20)))
def stored(ctx, case):
    ns, vals, isattr, sd = case
    r = random.Random(sd)
    rows = [(n, v, a) for n, vs, a in zip(ns, vals, isattr) for v in vs]
    args = ["seq"]
    for k in range(3):
        if k:
            r.shuffle(rows)
        text = "<ROOT>" + "".join("<E %s=\"%s\"/>" % (n, X.esc_attr(v)) if a else "<%s>%s</%s>" % (n, X.esc_text(v), n) for n, v, a in rows) + "</ROOT>"
        args += ["file", "d.xml", text, "conv", ("plain", "pack")[sd >> k & 1], "d.xml", "o.xb", "symbols", "o.xb"]
    for vs in vals:
        args += ["detect2", len(vs)] + vs
    out = ctx.call(*args)
    p, tabs = 0, []
    for k in range(3):
        if out[p] != b"1" or out[p + 1] != b"1":
            raise Violation("conversion failed")
        p += 2
        tab = []
        for _ in range(2):
            n = int(out[p])
            tab.append({out[p + 1 + 2 * i][1:].decode(): int(out[p + 2 + 2 * i]) for i in range(n)})
            p += 1 + 2 * n
        tabs.append(tab)
    for k, tab in enumerate(tabs):
        for n, vs, a, o in zip(ns, vals, isattr, out[p:]):
            got = tab[int(a)].get(n)
            if got != int(o):
                raise Violation("%s %r with values %r has type %r in dictionary, values are of type %d (order %d)" % ("attribute" if a else "element", n, vs, got, int(o), k))
        if any(t != NULL for n, t in tab[0].items() if n in ("E", "ROOT")):
            raise Violation("element without value has type: %r" % tab[0])

SUBS = [
    Sub("laws", "drv_utils", None, laws, 0, fixed=lambda tier: [0], rule="all triples of types"),
    Sub("canonical", "drv_utils", st.lists(ITEM, min_size=1, max_size=8), detect, 6000, nontrivial=lambda c: any(s for _, s in c), label=lambda c: {"type%d" % t for t, _ in c}, rule="some text is not empty"),
    Sub("anytext", "drv_utils", st.lists(values.ANY.map(lambda s: s.replace("\0", "")), min_size=1, max_size=8), anytext, 4000, nontrivial=lambda c: any(c), rule="some text is not empty"),
    Sub("dictionary", "drv_xml", STORED.filter(lambda c: not {"E", "ROOT"} & set(c[0])), stored, 1600, nontrivial=lambda c: len(c[0]) > 1, label=lambda c: ["attributes"] * any(c[2]) + ["elements"] * (not all(c[2])), rule="two or more names, three orders of rows"),
    Sub("columns", "drv_utils", COLUMN, column, 5000, nontrivial=lambda c: len(set(c[0])) > 1, rule="two different values"),
]
