"""C12: .xbw documents closed, killed and opened again between edits; damaged and foreign files."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *

ASSUMPTIONS = ["one writer at a time", "a killed process leaves its completed writes in the page cache (memory map of a local file)"]
POOLS = [0x100000, 0x200000, 0x8000, 0x10000, 0x800000]

def rereg(M, how):
    """Registration of known names after opening; how: 0 nothing, 1 all by id, 2 all by name, 3 some by id."""
    D, S, w = M.D, M.S, M.w
    if how == 0:
        return
    for kind, tab in (("T", D.tags), ("A", D.attrs)):
        for i, (n, t) in enumerate(tab):
            if how == 2:
                S.op("regTn" if kind == "T" else "regPn", w, n, t, out=[i])
            elif how == 1 or (i * 7 + how) % 2:
                S.op("reg" + kind, w, i, n, t)
    S.op("all", w)

def mismatch(M, k):
    """Registration by id which does not agree with the stored dictionary is reported and changes nothing."""
    D, S, w = M.D, M.S, M.w
    kind, tab = (("T", D.tags), ("A", D.attrs))[k % 2]
    if not tab:
        return
    i = (k // 2) % len(tab)
    n, t = tab[i]
    bad = [(i, n + "x", t), (i, n, T.INT64 if t != T.INT64 else T.GUID), (len(tab), n, t), (i, n[:-1], t), (-1, n, t)][(k // 4) % 5]
    S.op("reg" + kind, w, bad[0], bad[1], bad[2], out=[0])
    S.op("all", w, out=[0])
    S.op("dict", w, out=D.dict())

def oracle(ctx, case):
    types, phases = case
    M = Machine(types, pool=POOLS[phases[0][1] % 2], verify=False)
    D, S, w = M.D, M.S, M.w
    S.cmd, S.exp, first = ["bw"], S.exp, list(S.cmd[1:])    # commands of creation go into the first phase
    for n, (mode, pool, how, junk, bad, ops) in enumerate(phases):
        mark = "m%d" % n
        session = mode in ("kill", "killraw")
        if session:
            S.cmd += ["session", mark, junk % 64 if junk < 256 else 0]
        if n == 0:
            S.cmd += first
        else:
            S.op("new", w, M.fn, POOLS[pool % len(POOLS)], 0)
            if bad is not None:
                mismatch(M, bad)
                S.op("fin", w)
                S.op("new", w, M.fn, POOLS[pool % len(POOLS)], 0)
            rereg(M, how)
            M.after_open()
        if not D.root and ops and ops[0][3] % 8:
            M.begin()
        for op in ops:
            M.step(op)
        M.check_all()
        S.op("dict", w, out=D.dict())
        if session:
            S.cmd += ["endsession", mark]
        elif mode == "drop":
            S.op("drop", w, out=[])
        else:
            S.op("fin", w)
        D.els = []
        ctx.note(mode)
    S.op("new", w, M.fn, POOLS[0], 0)
    M.after_open()
    S.op("print", w, out=[ANY])
    S.op("fin", w)
    S.run(ctx)
    for k in ("newtag", "sets real", "tset old", "repl", "rem"):
        if M.done.get(k):
            ctx.note(k)

OPS12 = tuple(OPS) + ("newtag", "newtag", "newadd", "newadd")
PHASE = st.tuples(st.sampled_from(["fin", "fin", "drop", "kill", "kill"]), st.integers(0, 4), st.integers(0, 4), st.integers(0, 300), st.one_of(st.none(), st.none(), st.none(), st.integers(0, 200)),
                  st.lists(op_strategy(OPS12), min_size=1, max_size=20))
CASES = st.tuples(TYPES, st.lists(PHASE, min_size=2, max_size=7))

# ---- a killed process at any operation -----------------------------------------------------------------
def killed(ctx, case):
    """The same history is cut after every k-th operation; each cut file opens with exactly the operations done so far."""
    types, ops, cuts = case
    for cut in cuts:
        n = cut % (len(ops) + 1)
        M = Machine(types, verify=False)
        S, w = M.S, M.w
        body = S.cmd[1:]
        S.cmd = ["bw", "session", "k", 0] + body
        if n:
            M.begin()
        for op in ops[:n]:
            M.step(op)
        S.cmd += ["endsession", "k"]
        S.op("new", w, M.fn, 0x100000, 0)
        M.after_open()
        for op in ops[n:n + 6]:
            M.step(op)
        M.check_all()
        S.op("fin", w)
        S.run(ctx)

KILLED = st.tuples(TYPES, st.lists(op_strategy(OPS12), min_size=5, max_size=40), st.lists(st.integers(0, 60), min_size=1, max_size=3))

# ---- damaged headers and foreign files -------------------------------------------------------------------
HDR = dict(size=0, version=28, file_size=32, mmap_size=36, reserved=40, root=44, master=48, allocator=52, limit=56, tmax=60, tnames=64, tindex=68, tflags=72, pmax=76, pnames=80, pindex=84, pflags=88)

def refused(S, w, fn, data, pool, flags=0):
    S.op("file", fn, data, out=[])
    S.op("new", w, fn, pool, flags, out=[0])
    S.op("drop", w, out=[])
    S.op("read", fn, out=[b"=" + data])

def base_file(ctx, types, ops, pool):
    M = Machine(types, pool=pool, verify=False)
    if len(ops) % 4:
        M.begin()
    for op in ops:
        M.step(op)
    M.S.op("fin", 0)
    M.S.op("read", M.fn, out=[ANY])
    return M, M.S.run(ctx)[-1][1:]

def damage(ctx, case):
    types, ops, muts, pool, reopen_pool = case
    pool = POOLS[pool]
    M, data = base_file(ctx, types, ops, pool)
    D = M.D
    get = lambda k: struct.unpack_from("<i", data, HDR[k])[0]
    alloc, limit, root = get("allocator"), get("limit"), get("root")
    for kind, v in muts:
        S, w = Script(), 0
        b = bytearray(data)
        put = lambda k, x: struct.pack_into("<I", b, HDR[k], x % 2**32)
        must = True         # must be refused
        same = False        # must be accepted with the same content
        if kind == "id":
            i = 4 + v % 22
            b[i] ^= 1 << (v // 22 % 8)
        elif kind == "version":
            put("version", get("version") + 1 + v % 1000)
        elif kind == "file_size":
            put("file_size", len(data) + (v or 1))
        elif kind == "cut":
            n = 92 + v % (len(data) - 92)
            b = b[:n]
        elif kind == "grow":
            b += bytes(1 + v % 5000)
        elif kind == "mmap_small":
            put("mmap_size", v % len(data))
        elif kind == "mmap_neg":
            put("mmap_size", -1 - v % 2**31)
        elif kind == "limit":
            put("limit", limit + (v or 1))
        elif kind == "alloc_low":
            put("allocator", v % 92)
        elif kind == "alloc_high":
            put("allocator", limit + 4 + v % 2**20)
        elif kind == "alloc_neg":
            put("allocator", -1 - v % 2**31)
        elif kind == "alloc_odd":
            put("allocator", alloc + 1 + v % 3 if alloc + 4 <= limit else alloc - 1 - v % 3)
        elif kind == "root_low":
            put("root", 1 + v % 91)
        elif kind == "root_high":
            put("root", alloc - 23 + v % 2**20)
        elif kind == "root_neg":
            put("root", -1 - v % 2**31)
        elif kind == "root_odd":
            put("root", 92 + v * 4 % max(4, alloc - 116) + 1 + v % 3)
        elif kind == "names":
            put(("tnames", "pnames")[v % 2], [alloc + v % 4096 + 1, -1 - v % 2**31, 1 + v % 91][v // 2 % 3])
        elif kind == "any":
            must = False
            keys = ("tmax", "tnames", "tindex", "tflags", "pmax", "pnames", "pindex", "pflags", "size", "reserved", "master")
            put(keys[v % len(keys)], v // len(keys) * 4 % max(4, alloc) if v & 0x10000 else v * 2654435761)
        elif kind == "index":
            must, same = False, True
            k, tab, t = (("tindex", D.tags, "t"), ("pindex", D.attrs, "p"))[v % 2]
            v //= 2
            put(k, [0, v % 2**32, alloc - v % 64, 92 + v % max(1, alloc - 92), (get(k) + 4) if get(k) else 4, alloc // 4 * 4 + v % 4096][v % 6])
        elif kind == "noise":
            must, same = False, True
            put(("size", "reserved", "master")[v % 3], v * 2654435761)
        elif kind == "byte":
            must = False
            b[v % min(len(b), 92)] ^= 1 << (v // 92 % 8)
        b = bytes(b)
        ctx.note(kind)
        if b == data:
            continue
        if must:
            refused(S, w, "x.xbw", b, POOLS[reopen_pool])
            S.run(ctx)
            continue
        S.op("file", "x.xbw", b, out=[])
        S.op("new", w, "x.xbw", POOLS[reopen_pool], 0, out=[1 if same else ANY])
        r = ctx.raw(*S.cmd)
        if not r.ok:
            raise Violation("%s %d: died while opening: %s" % (kind, v, r.describe()))
        if r.blobs[-1] == b"0":
            if same:
                raise Violation("%s %d: refused although only rebuildable data differ" % (kind, v))
            S = Script()
            refused(S, w, "x.xbw", b, POOLS[reopen_pool])
            S.run(ctx)
            ctx.note("refused")
            continue
        ctx.note("accepted")
        S.op("absent", w, "no such name", out=[-1, -1, 0, 0] if same else [ANY] * 4)
        S.op("all", w, out=[1 if same else ANY])
        S.op("dict", w, out=D.dict() if same else [ANY, ANY])
        if same:
            S.op("tree", w, out=[D.dump(D.root) if D.root else None])
            S.op("regTn", w, "brand new", T.INT32, out=[len(D.tags)])
            S.op("regPn", w, "brand new", T.INT32, out=[len(D.attrs)])
            S.op("all", w)
            S.op("mk", w, 900, "i32", len(D.tags), 77)
            S.op("tree", w, out=[D.dump(D.root) if D.root else None])
        S.op("fin", w, out=[1 if same else ANY])
        S.run(ctx)

MUT = st.tuples(st.sampled_from(["id", "version", "file_size", "cut", "grow", "mmap_small", "mmap_neg", "limit", "alloc_low", "alloc_high", "alloc_neg", "alloc_odd", "root_low", "root_high", "root_neg", "root_odd", "names", "index", "index", "index", "noise", "any", "any", "byte"]),
                st.one_of(st.integers(0, 300), st.integers(0, 2**31 - 1)))
DAMAGE = st.tuples(TYPES, st.lists(op_strategy(("new", "newadd", "newadd", "at", "newtag")), min_size=1, max_size=12), st.lists(MUT, min_size=1, max_size=8), st.integers(0, 4), st.integers(0, 4))

def foreign(ctx, case):
    kind, data, pool, fl = case
    S = Script()
    if kind == "id+":
        data = struct.pack("<I", len(data)) + b"binary_xml.pksoft.org\0\0\0" + data
    if kind == "xb":
        data = b"binary_xml.pksoft.org" + data
    if len(data) < 92:
        data += bytes(92 - len(data))
    if not fl:
        refused(S, 0, "f.xbw", data, POOLS[pool])
        S.run(ctx)
    # with the flag for creating a new document the old content is replaced by an empty document
    S = Script()
    S.op("file", "g.xbw", data, out=[])
    S.op("new", 0, "g.xbw", POOLS[pool], 1)
    S.op("dict", 0, out=["0|", "0|"])
    S.op("tree", 0, out=[None])
    S.op("regT", 0, 0, "a", T.STRING)
    S.op("all", 0)
    S.op("mk", 0, 0, "str", 0, "value")
    S.op("root", 0, 0)
    S.op("fin", 0)
    S.op("new", 0, "g.xbw", POOLS[0], 0)
    S.op("dict", 0, out=["1|0:a:2;", "0|"])
    S.op("tree", 0, out=["E0:a:2=%s()[]" % b"value\0".hex()])
    S.op("fin", 0)
    S.run(ctx)

FOREIGN = st.tuples(st.sampled_from(["raw", "id+", "xb"]), st.one_of(st.binary(min_size=92, max_size=400), st.builds(rep, st.binary(min_size=1, max_size=9), st.sampled_from([92, 93, 100, 4095, 4096, 4097, 16384, 40000]))), st.integers(0, 4), st.integers(0, 1))

EDIT = ("join", "joinkid", "rem", "remat", "repl", "replv", "replat", "tset", "sets", "move", "moveat", "retype", "seti", "newadd", "at", "newtag")
SUBS = [
    Sub("reopen", "drv_bw", CASES, oracle, 2500, nontrivial=lambda c: sum(any(o[0] in EDIT for o in p[5]) for p in c[1]) >= 2, rule="at least two open periods with edits"),
    Sub("killed", "drv_bw", KILLED, killed, 1200, nontrivial=lambda c: sum(o[0] in EDIT for o in c[1]) >= 3, rule="at least three edits in the cut history"),
    Sub("damage", "drv_bw", DAMAGE, damage, 2500, nontrivial=lambda c: True, rule="every case has at least one damaged header"),
    Sub("foreign", "drv_bw", FOREIGN, foreign, 600),
]
