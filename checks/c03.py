"""C03: printed XML is well-formed, means what is stored, and printing is idempotent."""
import re
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V
from checks.c02 import vdiff, columns, label

def oracle(ctx, text):
    ref = X.parse(text)
    args = ["seq", "file", "doc.xml", text]
    for t, f, pr in (("plain", "p.xb", "print"), ("pack", "k.xb", "print"), ("xbwall", "w.xbw", "printw")):
        args += ["conv", t, "doc.xml", f, pr, f]
    b = ctx.call(*args)
    first = None
    for n, t in enumerate(("plain", "pack", "xbw")):
        c, o, out = b[3 * n:3 * n + 3]
        if c != b"1" or o != b"1":
            raise Violation("%s: conversion or opening failed" % t)
        try:
            pr = X.parse(out)
        except Exception as e:
            raise Violation("%s: printed XML is not well-formed: %s\n%r" % (t, e, out[:600]))
        d = vdiff(ref, pr)
        if d:
            raise Violation("%s printed: %s" % (t, d))
        if t != "pack":
            args = ["seq", "file", "doc.xml", out, "conv", "plain", "doc.xml", "p.xb", "print", "p.xb", "conv", "xbwall", "doc.xml", "w.xbw", "printw", "w.xbw"]
            c = ctx.call(*args)
            if c[0] != b"1" or c[1] != b"1" or c[3] != b"1" or c[4] != b"1":
                raise Violation("%s: printed XML cannot be converted again" % t)
            again = c[2] if t == "plain" else c[5]
            if norm(again) != norm(out):
                raise Violation("%s: printing again gives a different text: %r instead of %r" % (t, again[:500], out[:500]))

def norm(b):
    return re.sub(rb"[ \t\r\n]*(<[^>]*>)[ \t\r\n]*", rb"\1", b)

def has_markup(t):
    return any(x in t for x in ("&lt;", "&amp;", "&gt;", "&quot;", "&#", "CDATA"))

marked = st.one_of(V.markup, V.markup, V.unicode_text, V.words, V.ANY)
SUBS = [
    Sub("docs", "drv_xml", X.documents(marked, max_nodes=18), oracle, 1800, nontrivial=has_markup, label=label,
        rule="documents with an escaped character"),
    Sub("columns", "drv_xml", columns(), oracle, 1200, nontrivial=lambda t: t.count("<") > 3, label=label, rule="one column of values of one or two classes, more than one row"),
    Sub("long", "drv_xml", X.LONGS, lambda ctx, c: oracle(ctx, X.long_document(c)), 300, nontrivial=lambda c: any(n > 4000 for _, _, n in c), label=lambda c: ["long in " + p for p, _, n in c if n > 4000],
        rule="a value longer than one chunk of printing (4 kB)"),
]
