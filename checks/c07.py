"""C07: JSON -> .xb / .xbw keeps every member and element."""
import functools, json, random, re, sys
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V, jsongen as J

sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))

def item_name(key):
    """Name of items of array which is the value of key (None: array is not a named member)."""
    if key is None:
        return "__ARRAY_ITEM_NAME__"
    if len(key.encode()) > 1 and key[-1] == "s":
        return key[:-1]
    if len(key.encode()) > 4 and key.endswith("List"):
        return key[:-4]
    return key + "Item"

def expected(tree):
    """(name, value, children) of the converted document."""
    def rec(name, key, n):
        k, v = n
        if k in "sp":
            return (name, v, [])
        if k == "o":
            return (name, "", [rec(a, a, b) for a, b in v])
        return (name, "", [rec(item_name(key), None, b) for b in v])
    return rec("NULL", None, tree)

def check(exp, it, tool, strip=False):
    stack = [(exp, it, "")]
    while stack:
        (name, value, kids), i, path = stack.pop()
        path += "/" + name[:40]
        iname, itext = (i.name.decode("utf-8", "replace"), i.text) if not strip else (i.name, X.joined_value(i).encode())
        if iname != name:
            raise Violation("%s: %s: element name %r instead of %r" % (tool, path, iname, name))
        if i.attrs:
            raise Violation("%s: %s: unexpected attributes %r" % (tool, path, i.attrs))
        v = value.strip(X.WS) if strip else value
        if v.encode() != itext:
            raise Violation("%s: %s: value %r instead of %r" % (tool, path, itext[:200], v[:200]))
        if len(kids) != len(i.children):
            raise Violation("%s: %s: %d children instead of %d" % (tool, path, len(i.children), len(kids)))
        stack += [(a, b, path) for a, b in zip(kids, i.children)]

NAME = re.compile(r"[A-Za-z_\u00c0-\u00d6\u00d8-\u00f6][A-Za-z0-9_.\-\u00c0-\u00d6\u00d8-\u00f6]*\Z")
def printable(e):
    stack = [e]
    while stack:
        n, v, k = stack.pop()
        if not NAME.match(n) or not all(V.xml_ok(c) for c in v):
            return False
        stack += k
    return True

def build(case):
    tree, seed = case[:2]
    return bytes(J.Render(tree, random.Random(seed) if seed else None).b)

TOOLS = ("all", "static", "self", "self")     # self: opened by its own name, converted automatically
def oracle(ctx, case):
    text = build(case)
    if len(text) < 2000:
        json.loads(text)    # the generator makes valid documents
    exp = expected(case[0])
    pr = printable(exp)
    tools = ["plain", "pack", TOOLS[case[2] % 4]]
    args = ["seq", "file", "doc.json", text]
    for t in tools:
        args += ["conv", t, "doc.json", "o.xb"] if t != "self" else ["mtime", "doc.json", 1000]
        args += ["open", "doc.json" if t == "self" else "o.xb", case[2] >> 4 & 1]
    args += ["print", "o.xb", "conv", "xbwall", "doc.json", "w.xbw", "printw", "w.xbw"]
    b = ctx.call(*args)
    pos = 0
    for t in tools:
        if t != "self":
            if b[pos] != b"1":
                raise Violation("%s: conversion failed" % t)
            pos += 1
        if b[pos] != b"1":
            raise Violation("%s: opening failed" % t)
        it, pos = X.parse_dump(b, pos + 1)
        check(exp, it, t)
    ctx.note("printed" if pr else "not printable")
    if not pr:
        return
    for what, ok, out in (("printed .xb", b[pos], b[pos + 1]), ("printed .xbw", b"1" if b[pos + 2] == b"1" and b[pos + 3] == b"1" else b"0", b[pos + 4])):
        if ok != b"1":
            raise Violation(what + ": failed")
        try:
            p = X.parse(out)
        except Exception as e:
            raise Violation("%s does not parse: %s" % (what, e))
        check(exp, p, what, True)

def raw(s):
    """Body of JSON string."""
    return json.dumps(s, ensure_ascii=False)[1:-1].replace("\x7f", "\\u007f")
VAL = st.one_of(J.strings(), V.ANY.map(raw), V.ANY.map(raw))
pool = st.sampled_from(["users", "user", "userList", "List", "s", "ss", "id", "a", "b", "items", "dataItem", "__ARRAY_ITEM_NAME__", "NULL", "x-y", "é", "éés", "listList", "aList", "Lists"])
KEY = st.one_of(pool, pool, X.names(max_size=10), st.sampled_from("abcdefgh"))
ODD = st.one_of(KEY, J.strings().filter(lambda s: s != ""), st.sampled_from(["two words", "1", "-", "<a>", "a&b", "x" * 300, "\\u0041", "a/b", "$ref", "@id", "#text", "\\\"q\\\"", "{", "[]", "null", "true"]))
bad = lambda s: s == "et-tecera" or s == ""
KEY, ODD = KEY.filter(lambda s: not bad(s)), ODD.filter(lambda s: not bad(s))
SEED, MORE = st.integers(0, 2**20), st.integers(0, 63)
def deep(ks, leaf):
    return ("o", [("top", functools.reduce(lambda n, k: ("a", [n]) if k == 0 else ("o", [("k%ds" % k, n)]) if k < 5 else ("a", [("p", "1"), n, ("o", [])]), ks, leaf))])
DEEP = st.tuples(st.lists(st.integers(0, 6), min_size=10, max_size=900), st.sampled_from([("p", "1"), ("s", "x"), ("a", []), ("o", [])]))
def wide(n, k, m):
    r = random.Random(m)
    if k == 0:
        return ("o", [("numbers", ("a", [("p", str(r.choice([i, -i, i * 2**33, i / 7]))) for i in range(n)]))])
    if k == 1:
        return ("o", [("key%d" % (r.randrange(n + 1)), ("a", [("s", "v%d" % i)] * (i % 3))) for i in range(n)])
    if k == 2:
        return ("o", [("n", ("a", [r.choice([("p", "1"), ("p", "0"), ("a", []), ("o", []), ("s", "")]) if m & 1 else ("p", "1") for i in range(n * 8)]))])
    return ("o", [("rows", ("a", [("o", [("id", ("p", str(i))), ("name", ("s", "n" * r.randrange(40))), ("tags", ("a", [("s", "t%d" % r.randrange(5))] * r.randrange(4)))]) for i in range(n)]))])
WIDE = st.tuples(st.integers(0, 1500), st.integers(0, 3), st.integers(0, 1000))
def made(f):
    return lambda ctx, case: oracle(ctx, (f(*case[0]), case[1], case[2]))
# one name, many values
col = st.lists(st.tuples(st.sampled_from(["v", "v", "w"]), st.one_of(J.prims, VAL.map(str))), min_size=1, max_size=14).flatmap(lambda l: st.lists(st.booleans(), min_size=len(l), max_size=len(l)).map(
    lambda q: ("o", [(n, ("p", v) if not s and re.fullmatch(r"-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?|true|false|null", v) else ("s", v)) for (n, v), s in zip(l, q)])))
def leaves(t):
    s, n = [t], 0
    while s:
        k, v = s.pop()
        n += 1
        if k == "o":
            s += [b for _, b in v]
        elif k == "a":
            s += v
    return n
def label(c):
    t = repr(c[0])[:4000]
    return [n for n, k in (("arrays", "('a', [("), ("nested arrays", "('a', [('a'"), ("empty array", "('a', [])"), ("empty object", "('o', [])"), ("escapes", "\\\\")) if k in t]
NT = lambda c: leaves(c[0]) > 2

SUBS = [
    Sub("trees", "drv_xml", st.tuples(J.trees(KEY, VAL, leaves=30), SEED, MORE), oracle, 3500, nontrivial=NT, label=label, rule="more than two nodes"),
    Sub("odd", "drv_xml", st.tuples(J.trees(ODD, VAL, leaves=20), SEED, MORE), oracle, 1500, nontrivial=NT, label=label, rule="keys of any characters, more than two nodes"),
    Sub("columns", "drv_xml", st.tuples(col, SEED, MORE), oracle, 2000, nontrivial=NT, label=label, rule="one name with many values"),
    Sub("deep", "drv_xml", st.tuples(DEEP, st.integers(0, 3), MORE), made(deep), 250, rule="nested 10 to 900 times"),
    Sub("wide", "drv_xml", st.tuples(WIDE, st.integers(0, 3), MORE), made(wide), 250, nontrivial=lambda c: c[0][0] > 0, rule="up to thousands of nodes"),
]
