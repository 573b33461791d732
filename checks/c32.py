"""C32: whatever is done again and again in one process, it holds no more files, mappings and memory than before."""
import importlib, struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.drv import Driver
from vlib import xmlgen as X, values as V
from checks.c29 import SRC, ALL, READ, MODE, MASK

ASSUMPTIONS = ["the first round can prepare tables kept for the whole life of the process; the rounds after it are compared",
               "objects are closed (Finalize) or destroyed by the caller as the interface says"]
N = 5
FIELDS = ["open files", "mapped files", "mapped bytes", "blocks of memory", "bytes of memory"]

def pack(a):
    return b"".join(struct.pack("<I", len(x)) + x for x in map(Driver.enc, a))

def check(ctx, args, what):
    args = list(args)
    r = ctx.raw(args[0], "rep", N, pack(args[1:]))
    if not r.ok:
        raise Violation("%s: died: %s" % (what, r.describe()))
    v = [int(x) for x in r.blobs[-7 * N:]]
    rows = [v[7 * i:7 * i + 7] for i in range(N)]
    for i in range(2, N):
        for k, f in enumerate(FIELDS):
            # memory can be taken once more for a longer result; files never
            if rows[i][k] > rows[i - 1][k] and (k < 3 or all(rows[j][k] > rows[j - 1][k] for j in range(2, N))):
                raise Violation("%s: %s %s after rounds 1 to %d" % (what, f, [x[k] for x in rows], N))
    return rows

class Got(Exception):
    pass

class Rec:
    """Stands for the context of another check: catches its first request."""
    known, known_hits = {}, {}
    def note(self, *a):
        pass
    def raw(self, *a):
        raise Got(a)
    def call(self, *a):
        raise Got(a)
    def call_fill(self, fill, *a):
        raise Got(a)
    def drv(self, fill=0):
        return self

SKIP = {("c30", "limits"), ("c29", "helpers"), ("c29", "reading"), ("c29", "convert")}
HEAVY = {("c13", "big"), ("c17", "big"), ("c01", "big"), ("c18", "many"), ("c16", "many"), ("c10", "wide"), ("c14", "large"), ("c07", "deep"), ("c07", "wide"), ("c02", "long"), ("c03", "long"), ("c18", "long")}
def parts(mods, driver, heavy):
    r = {}
    for m in mods:
        mod = importlib.import_module("checks." + m)
        for s in mod.SUBS:
            if s.driver == driver and s.strategy is not None and (m, s.name) not in SKIP and ((m, s.name) in HEAVY) == heavy:
                r["%s.%s" % (m, s.name)] = s
    return r

def borrowed(mods, driver, heavy=False):
    P = parts(mods, driver, heavy)
    def oracle(ctx, case):
        name, c = case
        try:
            P[name].oracle(Rec(), c)
        except Got as g:
            args = g.args[0]
        except Violation:
            return
        else:
            ctx.note("no request")
            return
        rows = check(ctx, args, name)
        ctx.note("memory stays" if rows[1][3:5] == rows[-1][3:5] else "memory once more")
    names = sorted(P)
    return st.sampled_from(names).flatmap(lambda n: P[n].strategy.map(lambda c: (n, c))), oracle

# --- own histories of files: good, broken and missing sources, damaged results, destinations which cannot be written, faults ---
DST = ["o.xb", "o.xb", "o.xbw", "nodir/o.xb", "dir", "doc0.xb", "doc1.xb", "dir/o.xbw"]
@st.composite
def source(draw):
    ext, data = draw(SRC)
    how = draw(st.integers(0, 7))
    if how == 0:
        data = data[:draw(st.integers(0, len(data)))]
    elif how == 1 and data:
        i = draw(st.integers(0, len(data) - 1))
        data = data[:i] + draw(st.binary(min_size=1, max_size=3)) + data[i + 1:]
    return ext, data

FOP = st.tuples(st.sampled_from(["conv", "conv", "conv", "open", "open", "print", "printw", "sprint", "byname", "hold", "symbols", "poke", "trunc"]), st.integers(0, 40), st.integers(0, 40), st.integers(0, 3000), st.binary(min_size=1, max_size=4),
                st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 9), MODE, MASK)))
def files(ctx, case):
    sources, ops = case
    names = ["doc%d.%s" % (i, e) for i, (e, _) in enumerate(sources)] + ["none.xml", "none.xb", "none.json"]
    setup, a = ["mkdir", "dir"], []
    for i, (e, d) in enumerate(sources):
        a += ["file", names[i], d, "mtime", names[i], 5000]
        a += ["conv", "plain", names[i], "doc%d.xb" % i]
    faults = 0
    for op, x, y, n, b, f in ops:
        src = names[x % len(names)]
        xb = "doc%d.xb" % (x % len(sources))
        if f and op not in ("poke", "trunc"):
            a += ["arm"] + list(f)
            faults += 1
        if op == "conv":
            tool = ["plain", "all", "static", "pack", "getxb", "xbw", "xbwall"][y % 7]
            if tool == "getxb" and src.endswith("json"):
                tool = "pack"
            a += ["conv", tool, [src, src, xb][n % 3], DST[n // 3 % len(DST)]]
        elif op in ("open", "print"):
            a += [op, [xb, xb, src, "dir", "o.xbw"][n % 5]] + ([2] if op == "open" else [])
        elif op == "printw":
            a += [op, ["o.xbw", "o.xbw", xb, src, "dir/o.xbw"][n % 5]]
        elif op in ("sprint", "symbols"):
            a += [op, [src, xb][n % 2] if op == "sprint" else xb]
        elif op == "byname":
            a += [op, "open" if src.endswith("json") or y % 2 else "getxb", src]
        elif op == "hold":
            a += ["hold", [xb, src][n % 2], y % 2] + ["hopen", 2] * (1 + y % 3)
        elif op == "poke":
            a += ["poke", [xb, "o.xbw", "o.xb"][y % 3], n, b]
        elif op == "trunc":
            a += ["trunc", [xb, "o.xbw", "o.xb"][y % 3], n]
        if f and op not in ("poke", "trunc"):
            a += ["disarm"]
    check(ctx, ["seq"] + setup + a, "files")
    ctx.note("with faults" if faults else "without faults")
FILES = st.tuples(st.lists(source(), min_size=1, max_size=2), st.lists(FOP, min_size=1, max_size=10))

# --- helpers with faults ---
from checks import c28
@st.composite
def helper_case(draw):
    put = draw(st.lists(st.tuples(st.sampled_from(c28.N[:4]), c28.content), max_size=3))
    name = st.sampled_from([n for n, d in put if d] * 3 + c28.N[:6] * 2 + c28.N) if put else st.sampled_from(c28.N)
    ops = draw(st.lists(st.tuples(st.sampled_from(["rfile", "rfile", "wfile", "size", "contents", "time", "shaf", "dir", "force", "share", "exists", "ext"]), name, st.integers(0, 20000), st.one_of(st.none(), st.tuples(st.integers(0, 4), MODE, st.sampled_from([ALL, ALL, READ])))), min_size=1, max_size=12))
    return put, ops

def helpers(ctx, case):
    put, ops = case
    a = ["mkdir", "d1", "mkdir", "d1/d2"]
    for n, d in put:
        a += ["put", n, d]
    for op, n, k, f in ops:
        if f:
            a += ["arm"] + list(f)
        a += {"wfile": [op, n, "x" * (k % 5000)], "contents": [op, n, k], "dir": [op, n if k % 2 else ".", k % 4], "share": [op, n, k % 2, 1 + k % 9000, b"w", 0], "ext": [op, n, ".xb", "d1"]}.get(op, [op, n])
        if f:
            a += ["disarm"]
    check(ctx, ["b"] + a, "helpers")

xs, xo = borrowed(["c01", "c02", "c04", "c05", "c07", "c08", "c09", "c18", "c20", "c28", "c30", "c31"], "drv_xml")
bs, bo = borrowed(["c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c29"], "drv_bw")
hs, ho = borrowed(["c01", "c02", "c03", "c07", "c18"], "drv_xml", True)
gs, go = borrowed(["c10", "c13", "c14", "c16", "c17"], "drv_bw", True)
us, uo = borrowed(["c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28"], "drv_utils")
lab = lambda c: [c[0]]
SUBS = [
    Sub("files", "drv_xml", FILES, files, 2500, nontrivial=lambda c: len(c[1]) > 1, label=lambda c: {o[0] for o in c[1]}, rule="at least two operations", cpu=60),
    Sub("conversions", "drv_xml", xs, xo, 1500, label=lab, cpu=60),
    Sub("documents", "drv_bw", bs, bo, 2500, label=lab, cpu=60),
    Sub("helpers", "drv_utils", helper_case(), helpers, 4000, nontrivial=lambda c: len(c[1]) > 2, rule="more than two calls", cpu=60),
    Sub("tools", "drv_utils", us, uo, 1500, label=lab, cpu=60),
    Sub("large", "drv_xml", hs, ho, 60, label=lab, cpu=100),
    Sub("large_documents", "drv_bw", gs, go, 60, label=lab, cpu=100),
]
