"""C16: histories of registrations, widening, altering, importing, clearing and reopening against a dictionary model."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmodel import *

ASSUMPTIONS = ["names are not empty and contain no NUL", "explicit ids are used only for a new document and ascend from 0"]
DECS = [T.INT32, T.DECI, T.CENTI, T.MILI, T.MICRO, T.NANO]
NUMS = {T.INT32: 0, T.FLOAT: 1, T.INT64: 2, T.DOUBLE: 3}

def join(a, b):
    for x in (T.BSTR, T.STRING):
        if x in (a, b):
            return x
    if a == b:
        return a
    if T.VARIANT in (a, b) and T.NULL not in (a, b) and T.UNKNOWN not in (a, b):
        return T.VARIANT
    if a in (T.NULL, T.UNKNOWN):
        return b if b != T.UNKNOWN or a == T.UNKNOWN else None
    if b in (T.NULL, T.UNKNOWN):
        return a
    if a in DECS and b in DECS:
        return DECS[max(DECS.index(a), DECS.index(b))]
    if a in NUMS and b in NUMS:
        return {0: T.INT32, 1: T.FLOAT, 2: T.INT64, 3: T.DOUBLE}[NUMS[a] | NUMS[b]]
    return T.VARIANT

TYPE = st.sampled_from([t for t in range(T.LAST) if t != T.UNKNOWN])
FAMILY = ["a", "ab", "abc", "abcd", "abcde", "b", "A", "B", "aB", "id", "name", "x" * 255, "x" * 256, "x" * 4000, "x-1", "é", "ns:tag", " ", "a b", "1", "a.b", "item", "Item", "items"]
NAME = st.one_of(st.sampled_from(FAMILY), st.sampled_from(FAMILY), st.text(st.characters(codec="utf-8", exclude_categories=("Cs", "Cc")), min_size=1, max_size=8), st.lists(st.text(st.sampled_from("abcXYZ019"), min_size=1, max_size=7), min_size=2, max_size=4).flatmap(lambda l: st.sampled_from("-_.: /@#").map(lambda c: c.join(l))), st.integers(0, 40).map(lambda i: "n%d" % i))
TAB = st.integers(0, 1)
OP = st.one_of(
    st.tuples(st.just("name"), TAB, NAME, TYPE), st.tuples(st.just("name"), TAB, NAME, TYPE), st.tuples(st.just("name"), TAB, NAME, TYPE),
    st.tuples(st.just("again"), TAB, st.integers(0, 99), TYPE), st.tuples(st.just("again"), TAB, st.integers(0, 99), TYPE),
    st.tuples(st.just("id"), TAB, NAME, TYPE), st.tuples(st.just("id"), TAB, NAME, TYPE),
    st.tuples(st.just("badid"), TAB, NAME, st.integers(0, 20)), st.tuples(st.just("badtype"), TAB, NAME, st.sampled_from([T.LAST, 99, -1, 1000])),
    st.tuples(st.just("alter"), TAB, st.integers(0, 99), TYPE), st.tuples(st.just("badalter"), TAB, st.integers(0, 9), TYPE),
    st.tuples(st.just("bulk"), TAB, st.integers(1, 40), TYPE), st.tuples(st.just("alternate"), TAB, st.integers(2, 10), TYPE),
    st.tuples(st.just("all"), TAB, NAME, TYPE), st.tuples(st.just("clear"), TAB, NAME, TYPE), st.tuples(st.just("reopen"), TAB, NAME, TYPE),
    st.tuples(st.just("import"), st.integers(0, 3), st.integers(0, 9), TYPE), st.tuples(st.just("element"), TAB, st.integers(0, 99), TYPE), st.tuples(st.just("absent"), TAB, NAME, TYPE))
SYMS = st.lists(st.tuples(NAME, TYPE), min_size=0, max_size=8, unique_by=lambda x: x[0])
SOURCES = st.lists(st.tuples(SYMS.filter(lambda l: len(l) > 0), SYMS), max_size=2)
CASES = st.tuples(SOURCES, st.lists(OP, min_size=3, max_size=40))
POOL = 0x1000000

def prepare(ctx, sources):
    """Creates .xb files with the given dictionaries; returns their content and order of symbols as read back."""
    S = Script()
    for k, (tags, attrs) in enumerate(sources):
        S.op("new", 0, "s%d.xbw" % k, 0x100000, 0)
        for i, (n, t) in enumerate(tags):
            S.op("regT", 0, i, n, t)
        for i, (n, t) in enumerate(attrs):
            S.op("regA", 0, i, n, t)
        S.op("all", 0)
        S.op("mk", 0, 0, "tag", 0, "")
        S.op("root", 0, 0)
        S.op("xb", 0, "s%d.xb" % k, "plain")
        S.op("fin", 0)
        S.op("ropen", 0, "s%d.xb" % k)
        S.op("rsyms", 0, out=[ANY])
        S.op("rclose", 0)
        S.op("read", "s%d.xb" % k, out=[ANY])
    blobs = S.run(ctx) if sources else []
    out = []
    i = 0
    for k, (tags, attrs) in enumerate(sources):
        i += 1 + len(tags) + len(attrs) + 6
        syms, data = blobs[i], blobs[i + 2][1:]
        i += 3
        got = [[], []]
        a = syms.decode()
        # names may contain ';' or ':' only through the alphabet used here, so the order is recovered by matching known names
        pos = 0
        for t in (0, 1):
            left = {n: ty for n, ty in (tags, attrs)[t]}
            while left:
                n = next((n for n in sorted(left, key=len, reverse=True) if a.startswith("%s:%d;" % (n, left[n]), pos)), None)
                if n is None:
                    raise Violation("dictionary of .xb is %r, expected %r" % (a, (tags, attrs)))
                got[t].append((n, left.pop(n)))
                pos += len("%s:%d;" % got[t][-1])
            if t == 0:
                if a[pos:pos + 1] != "|":
                    raise Violation("dictionary of .xb is %r, expected %r" % (a, (tags, attrs)))
                pos += 1
        out.append((data, got))
    return out

def oracle(ctx, case):
    sources, ops = case
    src = prepare(ctx, sources)
    D, S, w = Doc(), Script(), 0
    tabs = [D.tags, D.attrs]
    st_ = dict(fresh=True, dirty=True)
    for k, (data, got) in enumerate(src):
        S.op("file", "r%d.xb" % k, data, out=[])
        S.op("ropen", k, "r%d.xb" % k)
    S.op("new", w, "d.xbw", POOL, 0)
    elems = []

    def dump():
        if st_["dirty"]:
            S.op("all", w)
            st_["dirty"] = False
        S.op("dict", w, out=D.dict())

    def byname(t, n, ty):
        known = next((i for i, x in enumerate(tabs[t]) if x[0] == n), None)
        if known is not None:
            j = join(ty, tabs[t][known][1])
            tabs[t][known][1] = j
            return known
        tabs[t].append([n, ty])
        st_["dirty"] = True
        return len(tabs[t]) - 1

    for op, t, x, y in ops:
        reg = ("regTn", "regPn")[t & 1]
        tab = tabs[t & 1]
        ctx.note(op)
        if not D.tags and (t & 1 if op in ("name", "id", "bulk") else op == "alternate"):
            t, reg, tab = 0, "regTn", tabs[0]       # some element name must be the first
            if op == "alternate":
                continue
        if op == "name":
            S.op(reg, w, x, y, out=[byname(t, x, y)])
        elif op == "again" and tab:
            n = tab[x % len(tab)][0]
            S.op(reg, w, n, y, out=[byname(t, n, y)])
        elif op == "id":
            rid = ("regT", "regA")[t]
            if st_["fresh"]:
                if all(n != x for n, _ in tab):
                    S.op(rid, w, len(tab), x, y)
                    tab.append([x, y])
                    st_["dirty"] = True
            elif not st_["dirty"] and tab:
                i = next((i for i, q in enumerate(tab) if q[0] == x), len(x) % len(tab))
                S.op(rid, w, i, tab[i][0], tab[i][1])
        elif op == "badid":
            if st_["fresh"]:
                i = [len(tab) + 1, len(tab) + 5, -1, -7, 300, 32767][y % 6] if y < 12 or not tab else y % len(tab)
                if i != len(tab):
                    S.op(("regT", "regA")[t], w, i, x, T.INT32, out=[0])
        elif op == "badtype":
            if y >= 0 or True:
                S.op(reg, w, x, y, out=[-1])
        elif op == "alter" and tab:
            if st_["dirty"]:
                dump()
            i = x % len(tab)
            cur = tab[i][1]
            ok = None
            if y == cur or y in (T.BLOB, T.BSTR) or y == T.STRING and cur not in (T.BLOB, T.HEX):
                ok = 1
            elif y in (T.NULL, T.VARIANT) or y == T.INT32 and cur in (T.STRING, T.INT64, T.UINT64, T.UINT32, T.FLOAT, T.DOUBLE):
                ok = 0
            if ok is not None:
                S.op(("altT", "altA")[t], w, i, y, out=[ok])
                if ok:
                    tab[i][1] = y
                dump()
        elif op == "badalter":
            S.op(("altT", "altA")[t], w, [len(tab), len(tab) + 3, 30000, -1, -9][x % 5], y, out=[0])
        elif op == "bulk":
            for k in range(x):
                n = "%s%d" % ("tag" if y % 2 else "t", (k * 17 + y) % 1000)
                S.op(reg, w, n, y, out=[byname(t, n, y)])
        elif op == "alternate":
            for k in range(x):
                n = "alt%d" % (k // 2 + y)
                S.op(("regTn", "regPn")[(k + t) & 1], w, n, y, out=[byname((k + t) & 1, n, y)])
        elif op == "all":
            S.op("all", w)
            st_["dirty"] = False
            dump()
        elif op == "clear":
            S.op("clear", w)
            elems = []
            D.root = None
            st_["dirty"] = False
            S.op("tree", w, out=[None])
            dump()
        elif op == "reopen":
            if st_["dirty"]:
                dump()
            S.op("fin", w)
            S.op("new", w, "d.xbw", [POOL, 0x100000][t], 0)
            elems = []
            st_["fresh"] = False
            S.op("dict", w, out=D.dict())
            S.op("tree", w, out=[D.dump(D.root) if D.root else None])
        elif op == "import":
            k = x % len(src) if src and x < 8 else -1
            if k < 0 and t & 1:
                S.op("import", w, 3, -1)
            elif k >= 0:
                what = 3 if t == 3 or not D.tags else 1 + t % 2
                S.op("import", w, what, k)
                for m in (0, 1):
                    if what >> m & 1:
                        for n, ty in src[k][1][m]:
                            byname(m, n, ty)
                dump()
        elif op == "element" and D.tags:
            if st_["dirty"]:
                dump()
            e = El(S.h(), True, x % len(D.tags), T.NULL)
            S.op("mk", w, e.h, "tag", e.id, "")
            if D.root is None:
                S.op("root", w, e.h)
                D.root = e
                elems.append(e)
            elif elems:
                S.op("add", elems[-1].h, e.h)
                D.add(elems[-1], e)
                elems.append(e)
            S.op("tree", w, out=[D.dump(D.root)])
        elif op == "absent":
            if all(n != x for tb in tabs for n, _ in tb):
                S.op("absent", w, x, out=[-1, -1, 0, 0])
    dump()
    S.op("tree", w, out=[D.dump(D.root) if D.root else None])
    S.op("fin", w)
    S.op("new", w, "d.xbw", POOL, 0)
    S.op("dict", w, out=D.dict())
    S.op("tree", w, out=[D.dump(D.root) if D.root else None])
    S.run(ctx)

def many(ctx, case):
    """Hundreds of names: ids beyond one byte, index and names over several pages."""
    n, m, step, seed, byid, types = case
    S, D, w = Script(), Doc(), 0
    S.op("new", w, "d.xbw", POOL, 0)
    name = lambda k, i: "%s%s%d" % ("ta"[k], "y" * ((i * step + seed) % 23), i)
    for k, cnt in ((0, n), (1, m)):
        for i in range(cnt):
            ty = types[(i * 7 + seed) % len(types)]
            if byid:
                S.op(("regT", "regA")[k], w, i, name(k, i), ty)
            else:
                S.op(("regTn", "regPn")[k], w, name(k, i), ty, out=[i])
            (D.tags, D.attrs)[k].append([name(k, i), ty])
    S.op("all", w)
    S.op("dict", w, out=D.dict())
    S.op("regTn", w, name(0, n // 2), D.tags[n // 2][1], out=[n // 2])
    S.op("regPn", w, "late", T.INT64, out=[m])
    D.attrs.append(["late", T.INT64])
    S.op("regTn", w, "late", T.INT64, out=[n])
    D.tags.append(["late", T.INT64])
    S.op("all", w)
    S.op("dict", w, out=D.dict())
    S.op("mk", w, 0, "tag", n // 3, "")
    S.op("root", w, 0)
    D.root = El(0, True, n // 3, T.NULL)
    S.op("fin", w)
    S.op("new", w, "d.xbw", POOL, 0)
    S.op("dict", w, out=D.dict())
    S.op("tree", w, out=[D.dump(D.root)])
    S.op("xb", w, "d.xb", "plain")
    S.op("ropen", 0, "d.xb")
    S.op("new", 1, "e.xbw", POOL, 0)
    S.op("import", 1, 3, 0)
    S.op("all", 1)
    S.op("dict", 1, out=[ANY, ANY])
    S.op("clear", w)
    S.op("dict", w, out=D.dict())
    b = S.run(ctx)
    got = b[-5:-3]
    for k, tab in ((0, D.tags), (1, D.attrs)):
        want = sorted("%s:%d" % (n, t) for n, t in tab)
        have = sorted(x.split(":", 1)[1] for x in got[k].decode().split("|", 1)[1].split(";") if x)
        if want != have:
            raise Violation("imported dictionary has %d symbols, source %d: %s" % (len(have), len(want), sorted(set(want) ^ set(have))[:6]))

MANY = st.tuples(st.one_of(st.integers(2, 600), st.integers(2, 600), st.integers(2, 600), st.integers(600, 3000)), st.one_of(st.integers(0, 600), st.integers(0, 600), st.integers(0, 600), st.integers(600, 3000)), st.integers(1, 22), st.integers(0, 50), st.integers(0, 1), st.lists(TYPE, min_size=1, max_size=5))
SUBS = [
    Sub("histories", "drv_bw", CASES, oracle, 9000, nontrivial=lambda c: sum(o[0] in ("name", "again", "id", "bulk", "alternate", "import") for o in c[1]) >= 2 and any(o[0] in ("reopen", "clear", "alter", "again", "import") for o in c[1]),
        rule="at least two registrations and a repeated registration, import, alteration, clearing or reopening"),
    Sub("many", "drv_bw", MANY, many, 300, nontrivial=lambda c: c[0] + c[1] > 128, rule="more than 128 names"),
]
