"""C02: attribute values and texts survive XML -> .xb."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V

TOOLS = ("plain", "pack")

def oracle(ctx, text):
    ref = X.parse(text)
    args = ["seq", "file", "doc.xml", text]
    for t in TOOLS:
        args += ["conv", t, "doc.xml", "o%s.xb" % t, "open", "o%s.xb" % t, 0, "print", "o%s.xb" % t]
    b = ctx.call(*args)
    pos = 0
    for t in TOOLS:
        if b[pos] != b"1" or b[pos + 1] != b"1":
            raise Violation("%s: conversion or opening failed" % t)
        it, pos = X.parse_dump(b, pos + 2)
        d = X.diff(ref, it)
        if d:
            raise Violation("%s: %s" % (t, d))
        if b[pos] != b"1":
            raise Violation("%s: the produced file cannot be printed" % t)
        try:
            pr = X.parse(b[pos + 1])
        except Exception as e:
            raise Violation("%s: printed XML does not parse: %s" % (t, e))
        d = vdiff(ref, pr)
        if d:
            raise Violation("%s, printed: %s" % (t, d))
        pos += 2

def vdiff(r, i):
    stack = [(r, i, r.name)]
    while stack:
        r, i, p = stack.pop()
        if r.name != i.name or len(r.children) != len(i.children):
            return "%s: structure differs" % p
        if r.attrs != i.attrs:
            return "%s: attributes %r instead of %r" % (p, i.attrs, r.attrs)
        a, b = X.value_of(r), X.joined_value(i)
        if a != b:
            return "%s: text %r instead of %r" % (p, b, a)
        stack += [(a, b, p + "/" + a.name) for a, b in zip(r.children, i.children)]
    return None

CLS = sorted(V.CLASSES)
def columns():
    """One name carrying many values of one or two classes: the column type is shared."""
    def build(names, vals):
        out = ["<r>"]
        for i, (n, a, t) in enumerate(vals):
            n = names[n % len(names)]
            at = "" if a is None else ' v="%s"' % X.esc_attr(a)
            if t is None or not t.strip(X.WS):
                out.append("<%s%s/>" % (n, at))
            else:
                out.append("<%s%s>%s</%s>" % (n, at, X.esc_text(t), n))
        return "".join(out) + "</r>"
    def ofclasses(cs):
        v = st.one_of(*[V.CLASSES[c] for c in cs])
        return st.lists(st.tuples(st.integers(0, 2), st.one_of(st.none(), v, v), st.one_of(st.none(), v, v)), min_size=2, max_size=25)
    return st.builds(build, st.lists(X.names(max_size=3), min_size=1, max_size=3, unique=True),
                     st.lists(st.sampled_from(CLS), min_size=1, max_size=2, unique=True).flatmap(ofclasses))

def label(t):
    out = []
    if "&#" in t or "&amp;" in t: out.append("entities")
    if "CDATA" in t: out.append("cdata")
    if '=""' in t: out.append("empty attribute")
    return out

SUBS = [
    Sub("docs", "drv_xml", X.documents(V.ANY, max_nodes=25), oracle, 3500, nontrivial=lambda t: t.count("=") > 2, label=label,
        rule="document with more than two attributes, values from grammars near every recogniser"),
    Sub("columns", "drv_xml", columns(), oracle, 3500, label=label, rule="all",
        nontrivial=lambda t: t.count("<") > 3),
    Sub("long", "drv_xml", X.LONGS, lambda ctx, c: oracle(ctx, X.long_document(c)), 350, nontrivial=lambda c: any(n > 4000 for _, _, n in c), label=lambda c: ["long in " + p for p, _, n in c if n > 4000],
        rule="a value longer than one chunk of printing (4 kB)"),
]
