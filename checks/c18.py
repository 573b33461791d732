"""C18: XML -> .xbw keeps everything the .xb conversion keeps."""
import random
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V
from checks.c02 import vdiff, columns, label

def oracle(ctx, text, before=()):
    ref = X.parse(text)
    b = ctx.call("seq", *before, "file", "doc.xml", text, "conv", "xbwall", "doc.xml", "w.xbw", "printw", "w.xbw", "conv", "plain", "doc.xml", "o.xb", "print", "o.xb")[-6:]
    if b[0] != b"1" or b[1] != b"1":
        raise Violation("conversion to .xbw or opening the result failed")
    try:
        pr = X.parse(b[2])
    except Exception as e:
        raise Violation("printed .xbw does not parse: %s" % e)
    d = vdiff(ref, pr)
    if d:
        raise Violation("printed .xbw: " + d)
    if b[3] != b"1" or b[4] != b"1":
        raise Violation("conversion to .xb failed")
    d = vdiff(pr, X.parse(b[5]))
    if d:
        raise Violation(".xb and .xbw differ: " + d)

# documents which are large compared to the smallest pool, made of very small pieces
def many(k, n, m):
    r = random.Random(m)
    nm = lambda i: "abcdefghijklmnopqrstuvwxyz"[i % 26] + ("%x" % (i // 26) if i >= 26 else "")
    if k == 0:
        body = "<i/>" * n
    elif k == 1:
        body = "".join("<%s/>" % nm(i % 20000) for i in range(n))
    elif k == 2:
        body = "".join('<i a="%d"/>' % (i % 10) for i in range(n))
    elif k == 3:
        body = "<b><i/></b>" * (n // 2)
    elif k == 4:
        body = "".join("<i>%d</i>" % r.choice([0, 7, -1, 3]) for i in range(n))
    elif k == 5:
        body = "".join('<i %s="x"/>' % nm(i % 15000) for i in range(n))
    else:
        body = "".join(r.choice(["<i/>", "<j>1.5</j>", "<k a='1' b='2001-01-01'/>", "<l>%s</l>" % ("x" * r.choice([1, 5, 1000])), "<m><n/><n/></m>"]) for i in range(n))
    return "<r>" + body + "</r>"
BIG = st.tuples(st.integers(0, 6), st.one_of(st.integers(1000, 8000), st.integers(8000, 30000)), st.integers(0, 1000))

# conversion over a file which is already in the place of the result
def over(ctx, c):
    old, text, kind, n = c
    if kind == "xbw":
        oracle(ctx, text, ["file", "first.xml", old, "conv", "xbwall", "first.xml", "w.xbw"])
    else:
        junk = {"empty": b"", "junk": bytes((i * n + 3) & 255 for i in range(n * 7)), "ones": b"\xff" * (n * 97), "name": b"binary_xml.pksoft.org" + bytes([n & 255]) * (n * 31)}[kind]
        oracle(ctx, text, ["file", "w.xbw", junk])
OVER = st.tuples(st.one_of(X.documents(V.ANY, max_nodes=25), BIG.map(lambda c: many(c[0], c[1] // 4, c[2]))), st.one_of(X.documents(V.ANY, max_nodes=25), X.documents(V.ANY, max_nodes=25), BIG.map(lambda c: many(c[0], c[1] // 8, c[2]))),
                 st.sampled_from(["xbw", "xbw", "xbw", "empty", "junk", "ones", "name"]), st.integers(0, 5000))

SUBS = [
    Sub("docs", "drv_xml", X.documents(V.ANY, max_nodes=25), oracle, 2500, nontrivial=lambda t: t.count("=") > 2, label=label,
        rule="document with more than two attributes"),
    Sub("columns", "drv_xml", columns(), oracle, 2500, nontrivial=lambda t: t.count("<") > 3, label=label, rule="one column of values of one or two classes, more than one row"),
    Sub("many", "drv_xml", BIG, lambda ctx, c: oracle(ctx, many(*c)), 120, label=lambda c: ["shape %d" % c[0]], rule="thousands of very small elements, source up to hundreds of kB"),
    Sub("over", "drv_xml", OVER, over, 900, nontrivial=lambda c: c[2] == "xbw" and len(c[0]) > len(c[1]), label=lambda c: ["before: " + c[2]], rule="a longer converted document is replaced"),
    Sub("long", "drv_xml", X.LONGS, lambda ctx, c: oracle(ctx, X.long_document(c)), 250, nontrivial=lambda c: any(n > 4000 for _, _, n in c), label=lambda c: ["long in " + p for p, _, n in c if n > 4000],
        rule="a value longer than one chunk of printing (4 kB)"),
]
