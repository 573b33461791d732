"""C13: typed documents built through the write API, converted to .xb, compared with the model value by value."""
import re
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *
from vlib.bwread import *

ASSUMPTIONS = ["the model of the built document is that of C11"]
HOW = ["plain", "pack", "creator", "file", "filepack"]

def read_back(S, D, fn, prints, r=0):
    S.op("ropen", r, fn)
    S.op("rdump", r, 2, out=[dump_check(D, D.root)])
    S.op("rsyms", r, out=[syms_check(D)])
    S.op("rprint", r, out=[lambda b: None if same_print(prints, b) else "printed .xb differs from printed document: " + differ(prints[0], b)])
    S.op("rclose", r)

def norm(b):
    """<x ...></x> and <x .../> are the same content and empty lines do not matter."""
    return re.sub(rb"<([^<>\s/]+)((?:\s[^<>]*)?)></\1>", rb"<\1\2/>", re.sub(rb"\s*\n\s*", b"\n", b))

def same_print(prints, b):
    prints.append(b)
    return norm(b) == norm(prints[0])

def syms_check(D):
    D = snapshot(D, D.root)
    def f(b):
        got = [sorted(x for x in p.split(";") if x) for p in b.decode().split("|")]
        want = [sorted("%s:%d" % (n, t) for n, t in tab) for tab in (D.tags, D.attrs)]
        if got != want:
            return "symbols of .xb are %s, expected %s" % (got, want)
    return f

def to_xb(S, D, w, how, fn, n, prints, final):
    """Writes the document to a new file by one of the ways and reads it."""
    if how in ("plain", "pack"):
        S.op("xb", w, "o%d.xb" % n, how)
        read_back(S, D, "o%d.xb" % n, prints)
    elif how == "creator":
        S.op("creator", n, w, "o%d.xb" % n)
        S.op("doall", n)
        read_back(S, D, "o%d.xb" % n, prints)
        S.op("delc", n)
    else:
        final.append((how, n))

def oracle(ctx, case):
    types, ops, hows, edits = case
    M = Machine(types, pool=0x200000, verify=False)
    D, S, w = M.D, M.S, M.w
    M.begin()
    for op in ops:
        M.step(op)
    final = []
    for n, how in enumerate(hows):
        if n:
            for op in edits[n - 1::2]:
                M.step(op)
        prints = []
        S.op("print", w, out=[lambda b, p=prints: p.append(b)])
        to_xb(S, D, w, how, "", n, prints, final)
        S.op("tree", w, out=[D.dump(D.root)])       # converting does not change the source
        ctx.note(how)
    S.op("fin", w)
    for how, n in final:
        prints = []
        S.op("new", w, M.fn, 0x100000, 0)
        S.op("print", w, out=[lambda b, p=prints: p.append(b)])
        S.op("fin", w)
        S.op("conv", "pack" if how == "filepack" else "xb", M.fn, "f%d.xb" % n)
        read_back(S, D, "f%d.xb" % n, prints)
    S.run(ctx)
    for e in D.walk(D.root):
        ctx.note("%s%d" % ("E" if e.elem else "A", e.vt))

BUILD = ("new", "newadd", "newadd", "newadd", "newadd", "at", "at", "at", "at", "bat", "btag")
CASES = st.tuples(TYPES, st.lists(op_strategy(BUILD), min_size=4, max_size=40), st.lists(st.sampled_from(HOW), min_size=1, max_size=3, unique=True),
                  st.lists(op_strategy(("newadd", "at", "rem", "sets", "tset", "move", "repl", "retype")), max_size=8))

def big(ctx, case):
    """Documents with many elements, long values or deep nesting."""
    types, kids, sizes, deep, hows, seed, wide = case
    M = Machine((types[0], [types[1][i % len(types[1])] for i in range(max(wide, len(types[1])))]), pool=0x4000000, verify=False)
    D, S, w = M.D, M.S, M.w
    def make(id, r, parent):
        ty = D.ttype(id)
        kinds = [k for k in ELEM_OK[ty] if k != "blobnull"]
        args, res = make_elem(kinds[r.v % len(kinds)], ty, r)
        e = El(S.h(), True, id, T.NULL)
        S.op("mk", w, e.h, kinds[r.v % len(kinds)], id, *args, out=[1])
        set_value(e, *res)
        if parent is not None:
            S.op("add", parent.h, e.h)
            D.add(parent, e)
        return e
    def attr(id, r, e):
        ty = D.atype(id)
        kinds = [k for k in ATTR_OK[ty] if k not in ("strnull", "blobnull")]
        if not kinds:
            return
        args, code, res = make_attr(kinds[0], ty, r)
        S.op("at", e.h, kinds[0], id, *args)
        x = El(-1, False, id, T.NULL)
        set_value(x, *res)
        D.add(e, x)
    root = make(0, Raw(1, b"r", "r"), None)
    S.op("root", w, root.h)
    D.root = root
    p = root
    for i in range(wide):
        attr(i, Raw(i * 7727 + seed, bytes([i % 253]) * (i % 5), "w%d" % i), root)
    for i in range(deep):
        p = make(i % len(D.tags), Raw(i * 7919 + seed, bytes([i % 251]), "d%d" % i), p)
        if i % 3 == 0:
            attr(i % len(D.attrs), Raw(i, b"x" * (i % 7), "y" * (i % 5)), p)
    for i in range(kids):
        n = sizes[i % len(sizes)]
        e = make((i + seed) % len(D.tags), Raw(i * 104729 + seed, rep(bytes([i % 251, 7]), n), "s" * n), root if i % 5 else p)
        if i % 2:
            attr(i % len(D.attrs), Raw(i * 31, rep(b"ab", n // 2), "z" * (n // 3)), e)
            attr((i + 1) % len(D.attrs), Raw(i * 37, b"q", "q"), e)
    final = []
    for n, how in enumerate(hows):
        prints = []
        S.op("print", w, out=[lambda b, p=prints: p.append(b)])
        to_xb(S, D, w, how, "", n, prints, final)
    S.op("fin", w)
    for how, n in final:
        prints = []
        S.op("new", w, M.fn, 0x100000, 0)
        S.op("print", w, out=[lambda b, p=prints: p.append(b)])
        S.op("fin", w)
        S.op("conv", "pack" if how == "filepack" else "xb", M.fn, "f%d.xb" % n)
        read_back(S, D, "f%d.xb" % n, prints)
    S.run(ctx)

BIGSIZE = st.lists(st.one_of(st.integers(0, 60), st.integers(0, 600), st.sampled_from([255, 256, 257, 4095, 4096, 5000, 65535, 65536, 70000])), min_size=1, max_size=6)
BIG = st.tuples(TYPES, st.one_of(st.integers(0, 60), st.integers(200, 700)), BIGSIZE, st.one_of(st.integers(0, 20), st.integers(100, 240)), st.lists(st.sampled_from(HOW), min_size=1, max_size=2, unique=True), st.integers(0, 1000), st.one_of(st.just(0), st.just(0), st.integers(0, 40), st.integers(100, 700)))
BIG = BIG.filter(lambda c: c[1] * sum(c[2]) // len(c[2]) < 3000000)
SUBS = [
    Sub("trees", "drv_bw", CASES, oracle, 4000, nontrivial=lambda c: sum(o[0] in ("newadd", "at", "bat") for o in c[1]) >= 3, rule="at least three additions of elements or attributes"),
    Sub("big", "drv_bw", BIG, big, 300, nontrivial=lambda c: c[1] + c[3] >= 100 or max(c[2]) > 4000, rule="over 100 elements or a value over 4000 bytes", cpu=40),
]
