"""C04: packed and plain conversion read the same; packing never makes the file larger."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V

def same(a, b):
    stack = [(a, b, a.name.decode("utf-8", "replace"))]
    while stack:
        a, b, p = stack.pop()
        for f in ("name", "attrs", "atypes", "adata", "vtype", "text", "vdata"):
            if getattr(a, f) != getattr(b, f):
                return "%s: %s is %r in the packed and %r in the plain file" % (p, f, getattr(b, f), getattr(a, f))
        if len(a.children) != len(b.children):
            return "%s: %d children in the packed, %d in the plain file" % (p, len(b.children), len(a.children))
        stack += [(x, y, p + "/" + x.name.decode("utf-8", "replace")) for x, y in zip(a.children, b.children)]
    return None

def oracle(ctx, text):
    ref = X.parse(text)
    b = ctx.call("seq", "file", "doc.xml", text, "conv", "plain", "doc.xml", "p.xb", "conv", "pack", "doc.xml", "k.xb",
                 "open", "p.xb", 6, "open", "k.xb", 6, "open", "k.xb", 3, "print", "p.xb", "print", "k.xb", "read", "p.xb", "read", "k.xb")
    if b[0] != b"1" or b[1] != b"1" or b[2] != b"1":
        raise Violation("conversion or opening failed")
    plain, pos = X.parse_dump(b, 3, True)
    syms, pos = symbols(b, pos)
    if b[pos] != b"1":
        raise Violation("packed file cannot be opened")
    packed, pos = X.parse_dump(b, pos + 1, True)
    syms2, pos = symbols(b, pos)
    packed2, pos = X.parse_dump(b, pos + 1, True)
    d = X.diff(ref, plain, values=False) or same(plain, packed) or same(plain, packed2)
    if d:
        raise Violation(d)
    if syms != syms2:
        raise Violation("symbol tables differ: %r and %r" % (syms, syms2))
    if b[pos] != b"1" or b[pos + 2] != b"1" or b[pos + 1] != b[pos + 3]:
        raise Violation("printed forms differ")
    np, nk = len(b[pos + 4]), len(b[pos + 5])
    if nk > np:
        raise Violation("packed file has %d bytes, plain file %d" % (nk, np))

def symbols(b, pos):
    out = []
    for _ in range(2):
        n = int(b[pos])
        pos += 1
        out.append([tuple(b[pos + 3 * i:pos + 3 * i + 3]) for i in range(n)])
        pos += 3 * n
    return out, pos

VALS = st.one_of(st.sampled_from(["1", "2", "x", "y", "", "12.5", "1999-01-01", "0a0b", "10.0.0.1", "1", "1", "9999999999", "2020-01-02 10:20:30.123"]), V.ANY)
FEW = st.sampled_from(["1", "2", "1", "x", "9999999999"])

@st.composite
def near_same(draw):
    """Many copies of a few subtrees which differ in one detail."""
    base = draw(st.integers(1, 4))
    rows = draw(st.lists(st.tuples(st.integers(0, base - 1), st.integers(0, 9)), min_size=2, max_size=40))
    kinds = [draw(st.lists(st.tuples(st.sampled_from("abc"), st.lists(st.tuples(st.sampled_from("xyz"), FEW), max_size=3, unique_by=lambda t: t[0]), st.one_of(st.just(""), FEW), st.integers(0, 2)), min_size=1, max_size=5)) for _ in range(base)]
    def el(k, mut):
        out, close = [], []
        for n, (name, at, t, up) in enumerate(kinds[k]):
            for _ in range(min(up, len(close))):
                out.append(close.pop())
            if mut == n + 1 and at:
                at = at[:-1] + [(at[-1][0], "77")]
            if mut == n + 6:
                at = list(reversed(at))
            out.append("<" + name + "".join(' %s="%s"' % a for a in at) + ">" + t)
            close.append("</" + name + ">")
        return "".join(out + close[::-1])
    return "<r>" + "".join(el(k, m) for k, m in rows) + "</r>"

def repeats(t):
    import re
    els = re.findall(r"<[^/!?>][^>]*>", t)
    return len(els) - len(set(els)) >= 2
SUBS = [
    Sub("clones", "drv_xml", X.documents(VALS, max_nodes=60, name_pool=3, max_attrs=3, clone=7), oracle, 3000, nontrivial=repeats,
        rule="documents where at least two start tags occur again"),
    Sub("near", "drv_xml", near_same(), oracle, 2500, nontrivial=repeats, rule="copies of a few subtrees differing in one detail, at least two repeats"),
]
