"""C08: malformed or missing sources are rejected cleanly, an existing destination stays as it was."""
import random
from xml.parsers import expat
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V, jsongen as J

XB_TOOLS = ("plain", "pack", "all", "static")
W_TOOLS = ("xbw", "xbwall")
GOOD = "<r><a x='1'>2</a></r>"

def wellformed(b):
    p = expat.ParserCreate()
    try:
        p.Parse(b, True)
        return True
    except expat.ExpatError:
        return False

def run(ctx, case, must):
    """case = (source name, bytes | None | 'dir', prior kind, tool index)"""
    name, data, prior, tool = case[:4]
    a, first = ["seq"], 0
    if data == "dir":
        a += ["mkdir", name]
    elif data is not None:
        a += ["file", name, data, "mtime", name, 2000]
    toolname = (XB_TOOLS + W_TOOLS + ("open", "getxb"))[tool % 8]
    dst = "out.xbw" if toolname in W_TOOLS else "out.xb"
    if toolname in ("open", "getxb"):
        dst = name.rsplit(".", 1)[0] + ".xb"
    if prior == "junk":
        a += ["file", dst, b"\x01junk \x00\xff" * 20, "mtime", dst, 1000]
    elif prior == "empty":
        a += ["file", dst, b"", "mtime", dst, 1000]
    elif prior == "valid":
        a += ["file", "good.xml", GOOD, "conv", "xbw" if dst[-1] == "w" else "plain", "good.xml", dst, "mtime", dst, 1000]
        first = 1
    a += ["read", dst]
    a += ["open", name, 0] if toolname == "open" else ["conv", toolname, name, dst]
    a += ["read", dst]
    b = ctx.call(*a)
    before, res, after = b[first], b[first + 1], b[-1]
    if first and b[0] != b"1":
        raise Violation("conversion of %s failed" % GOOD)
    ctx.note("%s: %s" % (toolname, "refused" if res == b"0" else "accepted"))
    if must and res != b"0":
        raise Violation("%s: %s was accepted" % (toolname, must))
    if res == b"0" and after != before and prior != "none":
        raise Violation("%s: conversion failed but the existing destination changed from %d to %s bytes" % (toolname, len(before) - 1, "no" if after == b"~" else len(after) - 1))
    if res == b"0" and prior == "none" and after not in (b"~", b"="):
        # nothing usable can appear
        r = ctx.call("seq", "file", "n.xb", after[1:], "open", "n.xb", 0) if dst[-1] == "b" else [b"0"]
        if r[0] != b"0":
            raise Violation("%s: conversion failed but its result can be opened" % toolname)
    if res == b"1" and toolname != "open":
        r = ctx.call("seq", "file", "n.xbw" if dst[-1] == "w" else "n.xb", after[1:], "printw" if dst[-1] == "w" else "open", "n.xbw" if dst[-1] == "w" else "n.xb", *([] if dst[-1] == "w" else [0]))
        if r[0] != b"1":
            raise Violation("%s: conversion reported success but the result cannot be opened" % toolname)

# --- XML -------------------------------------------------------------------------------------------------------------
def tags(b):
    """Positions of complete tags."""
    out, i = [], 0
    while True:
        i = b.find(b"<", i)
        if i < 0:
            return out
        j = b.find(b">", i)
        if j < 0:
            return out
        if b[i + 1:i + 2] not in (b"!", b"?"):
            out.append((i, j + 1))
        i = j + 1

def damage(b, kind, n):
    t = tags(b)
    s, e = t[n % len(t)]
    opens = [(x, y) for x, y in t if b[x + 1:x + 2] != b"/"]
    so, eo = opens[n % len(opens)]
    if kind == "truncate":
        return b[:n % max(1, b.rstrip().rfind(b">"))]
    if kind == "drop tag":
        return b[:s] + b[e:]
    if kind == "dup tag":
        return b[:s] + b[s:e] + b[s:]
    if kind == "no <":
        return b[:s] + b[s + 1:]
    if kind == "no >":
        return b[:e - 1] + b[e:]
    if kind == "rename":
        return b[:s + (2 if b[s + 1:s + 2] == b"/" else 1)] + b"q" + b[s + (2 if b[s + 1:s + 2] == b"/" else 1):]
    if kind == "two roots":
        return b + b"<x/>"
    if kind == "text after root":
        return b + b"text"
    if kind == "text before root":
        return b"text" + b
    if kind == "dup attr":
        k = eo - (2 if b[eo - 2:eo] == b"/>" else 1)
        return b[:k] + b" dd='1' dd='2'" + b[k:]
    if kind == "unquoted":
        k = eo - (2 if b[eo - 2:eo] == b"/>" else 1)
        return b[:k] + b" dd=1" + b[k:]
    if kind == "no value":
        k = eo - (2 if b[eo - 2:eo] == b"/>" else 1)
        return b[:k] + b" dd" + b[k:]
    if kind == "< in attr":
        k = eo - (2 if b[eo - 2:eo] == b"/>" else 1)
        return b[:k] + b" dd='<'" + b[k:]
    bit = {"amp": b"&", "bad entity": b"&nosuch;", "bad charref": b"&#0;", "control": b"\x01", "nul": b"\0", "utf8": b"\xff", "utf8 cut": b"\xc3", "]]>": b"]]>", "open comment": b"<!-- ", "open cdata": b"<![CDATA[", "double dash": b"<!-- a -- b -->", "pi xml": b"<?xml version='1.0'?>", "bad name": b"<1/>", "space name": b"< a/>"}[kind]
    if kind == "nul" and b[eo - 2:eo] == b"/>":  # XML parser takes zero behind the root element as the end of text
        eo -= 1
    return b[:eo] + bit + b[eo:]

KINDS = ["truncate", "drop tag", "dup tag", "no <", "no >", "rename", "two roots", "text after root", "text before root", "dup attr", "unquoted", "no value", "< in attr", "amp", "bad entity", "bad charref", "control", "nul",
         "utf8", "utf8 cut", "]]>", "open comment", "open cdata", "double dash", "pi xml", "bad name", "space name"]
SRC = st.sampled_from(["doc.xml", "doc.xml", "doc.xml", "s.xsd", "w.wsdl"])
PRIOR = st.sampled_from(["none", "junk", "valid", "valid", "valid", "empty"])
TOOL = st.integers(0, 7)

def fix_tool(name, tool):
    return tool if tool % 8 != 7 or name.rsplit(".", 1)[-1] in ("xml", "xsd", "wsdl") else 0

def xml_oracle(ctx, case):
    text, kind, n, name, prior, tool = case
    b = damage(text.encode(), kind, n)
    bad = not wellformed(b)
    ctx.note(("not well-formed: " if bad else "still well-formed: ") + kind)
    run(ctx, (name, b, prior, fix_tool(name, tool)), "not well-formed XML (%s)" % kind if bad else None)

def mutate(b, muts):
    b = bytearray(b)
    for k, p, q in muts:
        p = p % (len(b) + 1)
        if k == 0:
            del b[p:p + 1 + q % 5]
        elif k == 1:
            b[p:p] = bytes([q & 255])
        elif k == 2 and p < len(b):
            b[p] ^= 1 << (q & 7)
        elif k == 3:
            b[p:p] = b[q % (len(b) + 1):][:q % 50]
        elif k == 4:
            del b[p:]
        elif k == 5:
            b[p:p] = [b"<", b">", b"/", b"&", b'"', b"'", b"{", b"}", b"[", b"]", b":", b",", b"\\", b"<!DOCTYPE r [", b"]>", b"<!ENTITY a 'b'>", b"&a;", b"\0", b"<?", b"<![CDATA["][q % 20]
        elif k == 6:
            b[p:p + 1] = bytes([q & 255])
    return bytes(b)
MUTS = st.lists(st.tuples(st.integers(0, 6), st.integers(0, 100000), st.integers(0, 100000)), min_size=1, max_size=6)

def bytes_oracle(ctx, case):
    base, muts, name, prior, tool = case
    b = mutate(base if isinstance(base, bytes) else base.encode(), muts)
    must = "empty source" if not b else None
    run(ctx, (name, b, prior, fix_tool(name, tool)), must)

# --- JSON ------------------------------------------------------------------------------------------------------------
def json_damage(b, toks, kind, n):
    """Documents which cannot be JSON by any reading; toks: tokens [type,start,end,size,parent]."""
    objs = [t for t in toks if t[0] == J.OBJ]
    keys = [i for i, t in enumerate(toks) if t[4] >= 0 and toks[t[4]][0] == J.OBJ and t[0] == J.STR and t[3] == 1]
    if kind == "truncate":
        return b[:b.index(b"{") + 1 + n % max(1, b.rindex(b"}") - b.index(b"{"))]
    if kind == "extra close":
        return b + b"}]"[n % 2:n % 2 + 1]
    if kind == "two roots":
        return b + [b"{}", b" [] ", b"1", b'"x"', b"{\"a\":1}"][n % 5]
    if kind == "wrong close":
        t = [t for t in toks if t[0] in (J.OBJ, J.ARR)][n % len([t for t in toks if t[0] in (J.OBJ, J.ARR)])]
        return b[:t[2] - 1] + (b"]" if t[0] == J.OBJ else b"}") + b[t[2]:]
    if kind == "member without value":
        t = objs[n % len(objs)]
        return b[:t[2] - 1] + (b"," if t[3] else b"") + b'"lone"' + b[t[2] - 1:]
    if kind == "member without name":
        t = objs[n % len(objs)]
        return b[:t[1] + 1] + b"{}" + (b"," if t[3] else b"") + b[t[1] + 1:]
    if kind == "open string":
        t = objs[n % len(objs)]
        return b[:t[2] - 1] + (b"," if t[3] else b"") + b'"open' + b[t[2] - 1:].replace(b'"', b"'")
    if kind == "bad escape":
        t = objs[n % len(objs)]
        return b[:t[2] - 1] + (b"," if t[3] else b"") + b'"e":"\\' + [b"x", b"q", b"u12", b"u12g4", b"U0041", b"0"][n % 6] + b'"' + b[t[2] - 1:]
    if kind == "deep":
        d = 1200 + n % 4000
        return b'{"a":' + (b"[" * d + b"]" * d if n & 1 else b'{"a":' * d + b"1" + b"}" * d) + b"}"
    if kind == "deep open":
        return b'{"a":' + b"[" * (n % 5000)
    return {"empty": b"", "spaces": b" \n\t", "no name": b'{:1}'}[kind]

JKINDS = ["truncate", "extra close", "two roots", "wrong close", "member without value", "member without name", "open string", "bad escape", "deep", "deep open", "empty", "spaces"]
def json_oracle(ctx, case):
    tree, seed, kind, n, prior, tool = case
    r = J.Render(tree, random.Random(seed) if seed else None)
    b = json_damage(bytes(r.b), r.t, kind, n)
    run(ctx, ("doc.json", b, prior, fix_tool("doc.json", tool)), "not a JSON document (%s)" % kind)

def missing_oracle(ctx, case):
    name, data, prior, tool = case
    if tool % 8 == 6 and prior == "valid" and name.rsplit(".", 1)[0] != name:
        prior = "none" if data is None else prior   # an up to date .xb without its source can be opened
    run(ctx, (name, data, prior, tool), "missing source" if data is None else "directory" if data == "dir" else "empty or foreign source")

KEY = st.sampled_from(["users", "a", "b", "id", "items", "xList", "é"])
TREE = J.trees(KEY, J.strings(), leaves=12)
SEED = st.integers(0, 1000)
N = st.integers(0, 100000)
DOCS = X.documents(V.ANY, max_nodes=12)
JDOC = st.tuples(TREE, SEED).map(lambda c: bytes(J.Render(c[0], random.Random(c[1])).b))
MISS = [(n, d, p, t) for n in ("doc.xml", "doc.json", "s.xsd", "w.wsdl") for d in (None, "dir", b"") for p in ("none", "junk", "valid", "empty") for t in range(8) if t != 7 or n != "doc.json"]
MISS += [("doc.xml", d, p, t) for d in (b"\xef\xbb\xbf", b"\n", b"\0", b"{}", b"<", b"<?xml version='1.0'?>", b"<!-- -->", b"plain text", b"\xff\xfe", b"<!DOCTYPE r>") for p in ("none", "valid") for t in range(8)]
MISS += [("doc.json", d, p, t) for d in (b"\n", b"{", b"}", b"\"", b"[1,2") for p in ("none", "valid") for t in range(7)]
MISS += [(n, d, p, t) for n in ("doc.txt", "doc", "doc.XMLX", "a.xbw2") for d in (None, b"<r/>", b"{}") for p in ("none", "valid") for t in range(6)]
MISS += [("s.xbw", d, p, t) for d in (b"x" * 92, b"\xff" * 5000, b"\0" * 16384) for p in ("none", "valid") for t in range(4)]

SUBS = [
    Sub("xml", "drv_xml", st.tuples(DOCS, st.sampled_from(KINDS), N, SRC, PRIOR, TOOL), xml_oracle, 5000, nontrivial=lambda c: c[0].count("<") > 2, label=lambda c: [c[1], "destination " + c[4]],
        rule="documents with more than one element damaged in a named way; expat decides whether it still is XML"),
    Sub("json", "drv_xml", st.tuples(TREE, SEED, st.sampled_from(JKINDS), N, PRIOR, TOOL), json_oracle, 4000, label=lambda c: [c[2], "destination " + c[4]], rule="JSON documents damaged so that no reading of them is JSON"),
    Sub("bytes", "drv_xml", st.one_of(st.tuples(DOCS, MUTS, SRC, PRIOR, TOOL), st.tuples(JDOC, MUTS, st.just("doc.json"), PRIOR, TOOL)), bytes_oracle, 6000,
        rule="documents with random byte mutations: refused or converted, never a crash"),
    Sub("missing", "drv_xml", None, missing_oracle, 0, fixed=lambda tier: MISS, rule="missing, empty, foreign sources and directories with every tool and every state of the destination"),
]
