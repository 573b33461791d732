"""C01: structure survives XML -> .xb -> reader / printed XML."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X

def both(ctx, text, tools=("plain", "pack")):
    ref = X.parse(text)
    args = ["seq", "file", "doc.xml", text]
    for t in tools:
        args += ["conv", t, "doc.xml", "out-%s.xb" % t, "open", "out-%s.xb" % t, 0, "open", "out-%s.xb" % t, 1, "print", "out-%s.xb" % t]
    b = ctx.call(*args)
    pos = 0
    for t in tools:
        if b[pos] != b"1":
            raise Violation("%s: conversion of a well-formed document reported failure" % t)
        pos += 1
        for how in ("iteration", "index"):
            if b[pos] != b"1":
                raise Violation("%s: the produced file cannot be opened" % t)
            it, pos = X.parse_dump(b, pos + 1)
            d = X.diff(ref, it, values=False)
            if d:
                raise Violation("%s, reading by %s: %s" % (t, how, d))
        if b[pos] != b"1":
            raise Violation("%s: the produced file cannot be printed" % t)
        try:
            pr = X.parse(b[pos + 1])
        except Exception as e:
            raise Violation("%s: printed XML does not parse: %s" % (t, e))
        d = sdiff(ref, pr)
        if d:
            raise Violation("%s, printed: %s" % (t, d))
        pos += 2

def sdiff(r, i):
    stack = [(r, i, r.name)]
    while stack:
        r, i, p = stack.pop()
        if r.name != i.name:
            return "%s: name %r" % (p, i.name)
        if [k for k, _ in r.attrs] != [k for k, _ in i.attrs]:
            return "%s: attributes %r instead of %r" % (p, [k for k, _ in i.attrs], [k for k, _ in r.attrs])
        if len(r.children) != len(i.children):
            return "%s: %d children instead of %d" % (p, len(i.children), len(r.children))
        stack += [(a, b, p + "/" + a.name) for a, b in zip(r.children, i.children)]
    return None

def oracle(ctx, text):
    both(ctx, text)

def oracle_big(ctx, case):
    both(ctx, big(case))

def big(case):
    kind, n, name, attrs, m = case
    at = "".join(' a%d="v"' % i for i in range(attrs))
    if kind == "wide":
        return "<r>" + ("<%s%s/>" % (name, at)) * n + "</r>"
    if kind == "deep":
        k = min(n, 240)
        return ("<%s%s>" % (name, at)) * k + ("</%s>" % name) * k
    if kind == "names":
        return "<r>" + "".join("<%s%d%s/>" % (name, i, at) for i in range(n)) + "</r>"
    if kind == "attrs":
        return "<r>" + "".join("<e " + " ".join('%s%d="%s"' % (name, i, "v%dx" % i) for i in range(j % (attrs * 8 + 1))) + "/>" for j in range(n)) + "</r>"
    if kind == "manyattrs":
        return "<r>" + "".join("<%s%s>t</%s>" % (name, "".join(' %s%d="v%d"' % (name, i * (attrs + 1), i % m) for i in range(n // (j * j + 1))), name) for j in range(m)) + "</r>"
    if kind == "tree":
        def t(d):
            return "<%s%s/>" % (name, at) if d == 0 else "<%s%s>" % (name, at) + t(d - 1) * m + "</%s>" % name
        d = 1
        while m ** (d + 1) < n and d < 12:
            d += 1
        return t(d)
    if kind == "text":
        return "<r>" + "".join("<%s%s>%s</%s>" % (name, at, "t" * (i * m % 97 + 1), name) for i in range(n)) + "</r>"

# a source file opened by its own name is converted beside it
NAMES = st.sampled_from(["doc.xml", "s.xsd", "w.wsdl", "a.b.xml", "sub/doc.xml", "sub.dir/doc.wsdl", "sub.xml/d.xsd", "x.xml", "long-" + "n" * 150 + ".xml"])
def byname(ctx, case):
    name, kind, text, prior = case
    ref = X.parse(text)
    want = name.rsplit(".", 1)[0] + ".xb"
    a = ["seq"]
    if "/" in name:
        a += ["mkdir", name.split("/")[0]]
    if prior is not None:
        a += ["file", want, prior]
    b = ctx.call(*a, "file", name, text, "byname", kind, name, "open", want, 0, "read", name)
    if b[0] != b"1":
        raise Violation("%s %s: refused" % (kind, name))
    if b[1].decode() != "=" + want:
        raise Violation("%s %s: name of the binary file is %r" % (kind, name, b[1]))
    if b[2] != b"1":
        raise Violation("%s %s: there is no readable %s" % (kind, name, want))
    it, pos = X.parse_dump(b, 3)
    d = X.diff(ref, it, values=False)
    if d:
        raise Violation("%s %s: %s" % (kind, name, d))
    if b[pos] != b"=" + text.encode():
        raise Violation("%s %s: source file was changed" % (kind, name))

bigs = st.tuples(st.sampled_from(["wide", "deep", "names", "attrs", "manyattrs", "tree", "text"]), st.integers(1, 1200), X.names(max_size=4), st.integers(0, 6), st.integers(2, 5))
SUBS = [
    Sub("docs", "drv_xml", X.documents(X.SAFE_VALUES, max_nodes=60), oracle, 5000,
        nontrivial=lambda t: t.count("<") > 6, rule="random document text (names, attributes, texts, comments, PIs, CDATA) with more than two elements",
        label=lambda t: ["has comment"] * ("<!--" in t) + ["long name"] * any(len(w) > 60 for w in t.split()) + ["unicode"] * (not t.isascii()) + ["size>1000"] * (len(t) > 1000)),
    Sub("big", "drv_xml", bigs, oracle_big, 700, nontrivial=lambda c: c[1] > 50,
        rule="regular documents of up to 1200 elements or names, depth to 240", label=lambda c: [c[0]]),
    Sub("byname", "drv_xml", st.tuples(NAMES, st.sampled_from(["open", "getxb"]), X.documents(X.SAFE_VALUES, max_nodes=12), st.sampled_from([None, None, b"", b"old" * 3000])), byname, 500,
        nontrivial=lambda c: c[2].count("<") > 6, label=lambda c: [c[1] + " ." + c[0].rsplit(".", 1)[1]], rule="source opened by its own name (converted automatically), more than two elements"),
]
