"""C30: what any source plugin delivers is what the converted document contains."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V
from vlib.bwmodel import Raw, El
from vlib.bwread import raw_of, clean, brief
from checks import c19 as T
from checks.c16 import join

TYPES = [t for t in range(T.LAST) if t not in (T.UNKNOWN, T.VARIANT)]
TECERA = "et-tecera"
BUILTIN_PARAMS = {"name", "hash", "modified", "count", "version", "type_count", "id", "author", "time_ms"}   # need not be in the table

# case: tree = (name, flags, type, (v, b, s), text, [(name, type, (v, b, s), text)], [children]); flags: 1 binary value, 2 binary attributes
def rawb(t, m):
    r = Raw(*m).data(t)
    if t == T.BSTR:         # unused rest is cleared
        return r
    return r

def args(n, textless):
    name, fl, t, m, text, attrs, kids = n
    out = ["=" + name if name is not None else "~", fl]
    out += val(t, m, text, fl & 1, textless)
    out.append(len(attrs))
    for an, at, am, ax in attrs:
        out.append(an)
        out += val(at, am, ax, fl & 2, False)
    out.append(len(kids))
    for k in kids:
        out += args(k, textless)
    return out

def val(t, m, text, binary, textless):
    if not binary:
        return [T.STRING, "~", "~" if text is None else b"=" + enc(text)]
    raw = rawb(t, m)
    tx = None if textless else T.ref_text(t, raw) if t != T.NULL and in_range(t, raw) else b""
    return [t, b"=" + raw if t != T.NULL else "~", "~" if tx is None else b"=" + tx.split(b"\0")[0]]

def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")

def in_range(t, raw):
    return t not in (T.DATE, T.MSEC) or T.in_range(t, raw)

def want_val(t, m, text, binary):
    """(type, bytes, text) a reader must see; None = anything."""
    if not binary:
        return None, None, enc(text) if text is not None else b""
    if t == T.NULL:
        return t, None, b""
    raw = rawb(t, m)
    return t, clean(t, raw), T.ref_text(t, raw) if in_range(t, raw) else None

def check_val(where, w, t, d, x):
    wt, wd, wx = w
    if wt is not None and (wt != t or wd != clean(t, d)):
        raise Violation("%s: value is type %d %s, expected type %d %s" % (where, t, brief(d), wt, brief(wd)))
    if wx is not None and wx != x:
        raise Violation("%s: text is %r, expected %r" % (where, x[:100], wx[:100]))

def same(n, it, w=False):
    stack = [(n, it, "")]
    while stack:
        (name, fl, t, m, text, attrs, kids), it, where = stack.pop()
        if w:
            fl = 0 if t == T.NULL or not fl & 1 else fl
        where += "/%s" % name
        nm = b"NULL" if name is None else name.encode()
        if it.name != nm:
            raise Violation("%s: name is %r" % (where, it.name))
        if [a[0].encode() for a in attrs] != [a for a, _ in it.attrs]:
            raise Violation("%s: attributes are %r" % (where, [a for a, _ in it.attrs]))
        for (an, at, am, ax), (_, x), ty, d in zip(attrs, it.attrs, it.atypes, it.adata):
            check_val("%s/@%s" % (where, an), want_val(at, am, ax, fl & 2), ty, d, x)
        check_val(where, want_val(t, m, text, fl & 1), it.vtype, it.vdata, it.text)
        if len(kids) != len(it.children):
            raise Violation("%s: %d children instead of %d: %s" % (where, len(it.children), len(kids), [c.name for c in it.children][:20]))
        stack.extend((a, b, where) for a, b in zip(kids, it.children))

def walk(n):
    yield n
    for k in n[6]:
        yield from walk(k)

def symbols(case):
    """Own tables of the source: (tags, attributes) or None."""
    tree, own, extra = case["tree"], case["own"], case["append"]
    if not own:
        return None
    tabs = []
    seed, more = own
    for k in (0, 1):
        names = []
        for x in [tree] + extra:
            for n in walk(x):
                for nm in ([n[0]] if k == 0 else [a[0] for a in n[5]]):
                    if nm is not None and (nm != TECERA or k == 1) and nm not in names:
                        names.append(nm)
        names += [m for m in more if m not in names]
        r = (seed * 7 + k) % max(1, len(names))
        names = names[r:] + names[:r]
        if seed & 1:
            names.reverse()
        tabs.append([(nm, TYPES[(seed + 5 * i) % len(TYPES)]) for i, nm in enumerate(names)])
    return tabs if tabs[0] else None      # the table of elements decides

def legal(s):
    try:
        return all(X.st is not None and V.xml_ok(c) for c in enc(s).decode("utf-8"))
    except UnicodeDecodeError:
        return False

def oracle(ctx, case):
    tree, tool, dst, exists = case["tree"], case["tool"], case["dst"], case["exists"]
    tabs = symbols(case)
    a = ["seq"] + (["file", "doc.src", b"x" * exists] if exists else [])
    if case["old"]:
        a += ["file", dst or "doc." + ("xbw" if tool[0] == "w" else "xb"), case["old"]]
    a += ["tsrc", "doc.src"]
    for k in (0, 1):
        a += [-1] if tabs is None else [len(tabs[k])] + [y for x in tabs[k] for y in x]
    a += args(tree, case["textless"])
    a += ["tmake", tool, dst]
    out = (dst or "doc.src").rsplit(".", 1)[0] + (".xbw" if tool[0] == "w" else ".xb")
    binary = any((n[1] & 1 and n[2] != T.NULL) for n in walk(tree))
    if tool[0] == "w":
        b = ctx.call(*a, "printw", out)
        ctx.note("xbw made" if b[0] == b"1" else "xbw refused")
        if b[0] != b"1":
            named = tabs or any(n[0] is not None for n in walk(tree))       # a dictionary without names of elements is refused
            if named and not binary and not any(n[1] & 2 for n in walk(tree)):
                raise Violation("conversion of textual source to .xbw failed")
            return
        if b[1] != b"1":
            raise Violation("converted .xbw cannot be opened")
        if any(x is not None and not legal(x) for n in walk(tree) for x in [n[4]] + [y[3] for y in n[5]]) or any(n[0] is None for n in walk(tree)):
            return
        d = diff_print(tree, b[2], True)
        if d:
            raise Violation("content of .xbw: " + d)
        return
    if case["again"]:
        a += ["tagain"]
    for x, _ in case["batches"]:
        a += ["tappend"] + args(x, case["textless"])
    a += ["open", out, 6]
    b = ctx.call(*a)
    pos = 1 + bool(case["again"])
    if b[:pos] != [b"1"] * pos:
        raise Violation("conversion failed")
    known = None
    kids = list(tree[6])
    tags, pars = (set(x for x, _ in tabs[0]), set(x for x, _ in tabs[1])) if tabs else \
        (set(n[0] for n in walk(tree)), set(y[0] for n in walk(tree) for y in n[5]))
    pars |= BUILTIN_PARAMS
    opened = kids and kids[-1][0] == TECERA
    shown = kids[:-1] if opened else kids
    for x, _ in case["batches"]:
        ok = all((n[0] is None or n[0] in tags or n[0] == TECERA) and all(y[0] in pars for y in n[5]) for n in walk(x))
        ctx.note("appended" if ok else "append of unknown name")
        if b[pos] != (b"1" if ok else b"0"):
            raise Violation("append of element with %s names gave %s" % ("known" if ok else "unknown", b[pos]))
        pos += 1
        if ok and opened:
            shown.append(x)
    if b[pos] != b"1":
        raise Violation("converted document cannot be opened")
    it, pos = X.parse_dump(b, pos + 1, True)
    same(tree[:6] + (shown,), it)
    # symbol tables
    got = []
    for k in (0, 1):
        n = int(b[pos])
        pos += 1
        got.append([(X.cstr(b[pos + 3 * i]), int(b[pos + 3 * i + 1])) for i in range(n)])
        ids = [int(b[pos + 3 * i + 2]) for i in range(n)]
        pos += 3 * n
        if ids != list(range(n)):
            raise Violation("names of table %d are found as %s" % (k, ids[:40]))
    for k in (0, 1):
        if tabs:
            want = {x.encode(): t for x, t in tabs[k]}
        else:
            want = {}
            for n in walk(tree):
                if k == 0:
                    if n[0] is not None:
                        want[n[0].encode()] = None
                else:
                    for an, at, am, ax in n[5]:
                        e = an.encode()
                        if not n[1] & 2:
                            want[e] = None
                        elif e not in want:
                            want[e] = at
                        elif want[e] is not None:
                            want[e] = join(at, want[e])
        g = dict(got[k])
        if TECERA.encode() not in want:
            g.pop(TECERA.encode(), None)
        else:
            want.pop(TECERA.encode())
            g.pop(TECERA.encode(), None)
        if sorted(g) != sorted(want) or len(got[k]) != len(dict(got[k])):
            raise Violation("table %d has names %r, expected %r" % (k, sorted(g)[:20], sorted(want)[:20]))
        for x, t in want.items():
            if t is not None and g[x] != t:
                raise Violation("type of %r in table %d is %d, expected %d" % (x, k, g[x], t))

def limits(ctx, case):
    """Number of attributes of one element up to what the format can count and over it."""
    n, binary, below, kids, tool, value = case
    fl = (2 if binary else 0) | n - 1 << 8
    v = [T.INT32, b"=" + struct.pack("<i", value), b"=%d" % value] if binary else [T.STRING, "~", b"=%d" % value]
    none = [T.STRING, "~", "~"]
    e = ["=e", fl] + none + [1, "a"] + v + [kids] + (["=k", 0] + none + [0, 0]) * kids
    if below:
        e = ["=r", 0] + none + [0, 2] + e + ["=z", 0] + none + [0, 0]
    b = ctx.call("seq", "tsrc", "doc.src", -1, -1, *e, "tmake", tool, "o.xb", "open", "o.xb", 4)
    if n > 32767:
        ctx.note("refused")
        if b[0] != b"0":
            raise Violation("element with %d attributes is said to be converted" % n)
        return
    if b[0] != b"1":
        raise Violation("element with %d attributes was not converted" % n)
    if b[1] != b"1":
        raise Violation("converted document cannot be opened")
    it, pos = X.parse_dump(b, 2)
    if below:
        if [c.name for c in it.children] != [b"e", b"z"]:
            raise Violation("children of root are %r" % [c.name for c in it.children])
        it = it.children[0]
    if it.name != b"e" or len(it.attrs) != n or any(a != (b"a", b"%d" % value) for a in it.attrs) or [c.name for c in it.children] != [b"k"] * kids:
        raise Violation("element has %d attributes of %d, %d children of %d" % (len(it.attrs), n, len(it.children), kids))

def diff_print(tree, text, w=False):
    """Compares the printed document with the tree; None when same."""
    try:
        r = X.parse(text)
    except X.expat.ExpatError as e:
        return "not well-formed: %s in %r" % (e, text[:300])
    stack = [(tree, r, "")]
    while stack:
        (name, fl, t, m, tx, attrs, kids), r, where = stack.pop()
        where += "/" + name
        if r.name != name:
            return "%s: name %r" % (where, r.name)
        if [x[0] for x in attrs] != [k for k, _ in r.attrs]:
            return "%s: attributes %r" % (where, r.attrs)
        for (an, at, am, ax), (_, v) in zip(attrs, r.attrs):
            wx = want_val(at, am, ax, fl & 2)[2]
            if wx is not None and wx != v.encode():
                return "%s/@%s: %r instead of %r" % (where, an, v[:100], wx[:100])
        wx = want_val(t, m, tx, fl & 1)[2]
        if wx is not None and wx.strip(b" \t\r\n") != X.joined_value(r).encode():
            return "%s: text %r instead of %r" % (where, X.joined_value(r)[:100], wx[:100])
        if len(kids) != len(r.children):
            return "%s: %d children instead of %d" % (where, len(r.children), len(kids))
        stack.extend((a, b, where) for a, b in zip(kids, r.children))

def printed(ctx, case):
    tree = case["tree"]
    tabs = symbols(case)
    a = ["seq", "tsrc", "doc.src"]
    for k in (0, 1):
        a += [-1] if tabs is None else [len(tabs[k])] + [y for x in tabs[k] for y in x]
    b = ctx.call(*a, *args(tree, case["textless"]), "tprint")
    if b[0] != b"1":
        raise Violation("stream failed")
    d = diff_print(tree, b[1])
    if d:
        raise Violation(d)

def streamed(ctx, case):
    """Source file streamed as it is = source file converted and printed."""
    ext, text = case
    b = ctx.call("seq", "file", "doc." + ext, text, "sprint", "doc." + ext, "conv", "plain", "doc." + ext, "o.xb", "print", "o.xb")
    if b[0] != b"1":
        raise Violation("source cannot be streamed: %r" % b[0])
    try:
        r = X.parse(b[1])
    except X.expat.ExpatError as e:
        raise Violation("streamed source is not well-formed: %s in %r" % (e, b[1][:300]))
    if b[2:4] != [b"1", b"1"]:
        raise Violation("conversion failed")
    q = X.parse(text) if ext == "xml" else X.parse(b[4])
    stack = [(q, r, "")]
    while stack:
        q, r, where = stack.pop()
        where += "/" + q.name
        if (q.name, q.attrs) != (r.name, r.attrs):
            raise Violation("%s: %r %r instead of %r" % (where, r.name, r.attrs, q.attrs))
        if (X.value_of if ext == "xml" else X.joined_value)(q) != X.joined_value(r):
            raise Violation("%s: text %r instead of %r" % (where, X.joined_value(r)[:100], X.value_of(q)[:100]))
        if len(q.children) != len(r.children):
            raise Violation("%s: %d children instead of %d" % (where, len(r.children), len(q.children)))
        stack.extend((a, b, where) for a, b in zip(q.children, r.children))

# ---- generators
ANYTEXT = st.one_of(V.ANY, V.ANY, st.binary(max_size=12).map(lambda b: b.replace(b"\0", b"")), st.sampled_from(["", " ", "  x ", "\x01", "x" * 5000, "\r\n", "1 ", " 1"]))
MATERIAL = st.tuples(st.one_of(st.integers(0, 2**64 - 1), st.sampled_from([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 86400, 10**9, 10**12]), st.integers(0, 10**10)),
                     st.one_of(st.binary(max_size=40), st.binary(min_size=200, max_size=300)), st.text(st.sampled_from("abc <&>\"'é\n1.-"), max_size=30))
TY = st.sampled_from(TYPES)
@st.composite
def tree(draw, names, anames, text, flags, n=14):
    nm, at, fl, tx = st.sampled_from(names), st.sampled_from(anames), st.sampled_from(flags), st.one_of(st.none(), text)
    nodes = []
    for i in range(draw(st.integers(1, n))):
        attrs = [(a, draw(TY), draw(MATERIAL), draw(tx)) for a in draw(st.lists(at, max_size=4, unique=True))]
        x = (draw(nm), draw(fl), draw(TY), draw(MATERIAL), draw(tx), attrs, [])
        if nodes:
            nodes[draw(st.integers(0, len(nodes) - 1))][6].append(x)
        nodes.append(x)
    return nodes[0]

POOL = ["a", "b", "ab", "item", "x" * 70, "long-name.with_parts", "é", "Z", "n1", "n2", "n10", "B"]
FLAGS = [[0], [3], [3, 3, 1], [0, 1, 2, 3], [2], [1]]
@st.composite
def cases(draw, to=("x", "all", "pack", "pack", "static", "w", "wall"), names=POOL, text=ANYTEXT, appends=True):
    fl = draw(st.sampled_from(FLAGS))
    tags = draw(st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))
    attrs = draw(st.lists(st.sampled_from(names + ["id", "name", "hash", TECERA]), min_size=1, max_size=6, unique=True))
    t = draw(tree(tags, attrs, text, fl))
    tool = draw(st.sampled_from(to))
    own = draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 40), st.lists(st.sampled_from(["zz", "A", "a", "mm", "0"]), max_size=3, unique=True))))
    batches = []
    if appends and tool[0] != "w" and tool != "static" and draw(st.booleans()):
        t = t[:6] + (t[6] + [(TECERA, 0, T.NULL, (0, b"", ""), None, [], [])],)
        batches = draw(st.lists(st.tuples(tree(tags + draw(st.sampled_from([[], [], ["new"]])), attrs + draw(st.sampled_from([[], [], ["newattr"]])), text, fl, 5), st.just(0)), max_size=5))
    if draw(st.integers(0, 9)) == 0:
        t = (None,) + t[1:]
    return dict(tree=t, tool=tool, dst=draw(st.sampled_from(["o." + ("xbw" if tool[0] == "w" else "xb"), "o.txt", "" if tool != "static" else "p.xb"])), exists=draw(st.sampled_from([0, 1, 500, 100000])),
                own=own, textless=draw(st.booleans()), again=not tool == "static" and draw(st.sampled_from([False, False, True])), append=[x for x, _ in batches] if own and draw(st.booleans()) else [], batches=batches,
                old=draw(st.sampled_from([b"", b"", b"junk" * 30000])))

def nontrivial(c):
    ns = list(walk(c["tree"]))
    return len(ns) > 1 and any(n[5] for n in ns)

def label(c):
    ns = list(walk(c["tree"]))
    return [c["tool"]] + ["binary values"] * any(n[1] & 1 for n in ns) + ["binary attributes"] * any(n[1] & 2 for n in ns) + ["own symbol tables"] * bool(c["own"]) + ["appended"] * bool(c["batches"])

PTEXT = st.one_of(V.unicode_text, V.markup, V.ints, V.words, V.spaced, V.times).filter(lambda s: all(V.xml_ok(c) for c in s))
XNAMES = [n for n in POOL if n != "0"]
pcases = cases(to=("x",), names=XNAMES, text=PTEXT, appends=False).filter(lambda c: c["tree"][0] is not None)
from checks import c05
def srcs():
    ok = lambda t: all(V.xml_ok(c) for c in t)
    return st.one_of(st.tuples(st.just("xml"), X.documents(V.ANY, max_nodes=20)), st.tuples(st.just("json"), c05.jsons))
LIMITS = st.tuples(st.one_of(st.integers(1, 2000), st.integers(2000, 32767), st.sampled_from([32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 100000, 131073]), st.integers(32768, 140000)),
                   st.booleans(), st.booleans(), st.integers(0, 3), st.sampled_from(["x", "pack"]), st.integers(-2**31, 2**31 - 1))
SUBS = [
    Sub("convert", "drv_xml", cases(), oracle, 6000, nontrivial=nontrivial, label=label, rule="more than one element and some attribute"),
    Sub("stream", "drv_xml", pcases, printed, 3000, nontrivial=nontrivial, label=lambda c: label(c)[1:], rule="more than one element and some attribute"),
    Sub("files", "drv_xml", srcs(), streamed, 1500, nontrivial=lambda c: len(c[1]) > 40, label=lambda c: [c[0]], rule="sources over 40 bytes"),
    Sub("limits", "drv_xml", LIMITS, limits, 120, nontrivial=lambda c: c[0] > 1000, rule="over 1000 attributes of one element", cpu=60),
]
