"""C05: conversion output depends on source bytes, name and time only."""
import json
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V
from checks.c02 import columns

def oracle(ctx, case):
    ext, text, tool, others, old, mtime, fill, vol = case
    src = "doc." + ext
    base = ["seq", "file", src, text, "mtime", src, mtime]
    conv = ["conv", tool, src, "o.xb", "read", "o.xb"]
    a = ctx.call_fill(0xbe, *base, *conv)
    if a[0] != b"1" or a[1] == b"~":
        raise Violation("conversion failed")
    def cmp(b, what):
        if b[-2] != b"1" or b[-1] != a[1]:
            n = next((i for i, (x, y) in enumerate(zip(a[1], b[-1])) if x != y), min(len(a[1]), len(b[-1]))) - 1
            raise Violation("%s: output differs at byte %d (%d and %d bytes)" % (what, n, len(a[1]), len(b[-1])))
    cmp(ctx.call_fill(fill, *base, *conv), "other memory content")
    cmp(ctx.call_fill(1000 + fill, *base, *conv), "random memory content")
    hist = list(base)
    for n, (oext, otext, otool) in enumerate(others):
        hist += ["file", "h%d.%s" % (n, oext), otext, "conv", otool, "h%d.%s" % (n, oext), "h%d.xb" % n]
    hist += ["junk", vol, 0x5a]
    cmp(ctx.call_fill(fill, *hist, *conv), "after %d other conversions" % len(others))
    cmp(ctx.call_fill(0xbe, *base, "file", "o.xb", old, *conv), "over an existing file")
    cmp(ctx.call_fill(0xbe, *base, *conv[:4], *conv), "second conversion in one process")

def jval(d):
    return st.recursive(st.one_of(st.integers(-10**12, 10**12), st.booleans(), st.none(), st.text(st.sampled_from("abc 1.-"), max_size=12), st.floats(allow_nan=False, allow_infinity=False)),
                        lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(st.sampled_from(["a", "b", "items", "userList", "n1"]), c, max_size=4)), max_leaves=d)
jsons = st.dictionaries(st.sampled_from(["a", "b", "items", "userList", "n1", "q"]), jval(12), min_size=1, max_size=5).map(json.dumps)
xmls = st.one_of(X.documents(V.ANY, max_nodes=25, clone=2), columns(), X.documents(X.SAFE_VALUES, max_nodes=60, clone=5, name_pool=3))
srcs = st.one_of(st.tuples(st.just("xml"), xmls), st.tuples(st.just("xml"), xmls), st.tuples(st.just("json"), jsons))
cases = st.builds(lambda s, tool, others, old, m, fill, vol: (s[0], s[1], tool if s[0] == "xml" else "all", others, old, m, fill, vol),
                  srcs, st.sampled_from(["plain", "pack", "all"]),
                  st.lists(st.builds(lambda s, t: (s[0], s[1], t if s[0] == "xml" else "all"), st.one_of(st.tuples(st.just("xml"), columns()), st.tuples(st.just("json"), jsons)), st.sampled_from(["plain", "pack"])), max_size=3),
                  st.one_of(st.just(b""), st.binary(max_size=50), st.just(b"Z" * 9000), st.just(b"\xff" * 200)),
                  st.sampled_from([0, 1, 1000000000, 1700000001, 2000000000]), st.sampled_from([0, 0xff, 0x41, 1]), st.sampled_from([10, 5000, 70000, 3000000]))
SUBS = [Sub("det", "drv_xml", cases, oracle, 1600, nontrivial=lambda c: len(c[1]) > 40, rule="sources over 40 bytes; each converted six times under different histories, memory contents and destinations",
            label=lambda c: [c[0], c[2]] + ["existing longer destination"] * (len(c[4]) > 1000) + ["after others"] * bool(c[3]))]
