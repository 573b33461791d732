"""C15: allocation histories over page boundaries up to the configured limit, one or several documents at a time."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmodel import *

ASSUMPTIONS = ["creating through the plugin keeps a reserve of 16 kB (and of the length of a string) before the limit: refusing inside the reserve is accepted"]
TAGS = [("t%d" % i, t) for i, t in enumerate([T.NULL, T.STRING, T.BLOB, T.INT32, T.INT64, T.GUID, T.SHA1, T.HEX, T.MSEC, T.BSTR, T.FLOAT, T.VARIANT, T.TIME, T.UINT32, T.MILI])]
ATTRS = [("a%d" % i, t) for i, t in enumerate([T.NULL, T.STRING, T.BLOB, T.INT32, T.INT64, T.GUID, T.SHA1, T.HEX, T.MSEC, T.DOUBLE, T.FLOAT, T.UINT64, T.TIME, T.UINT32])]
KIND = {T.NULL: "tag", T.STRING: "str", T.BLOB: "blob", T.INT32: "i32", T.INT64: "i64", T.GUID: "guid", T.SHA1: "sha1", T.HEX: "hex", T.MSEC: "time64", T.BSTR: "str", T.FLOAT: "float", T.VARIANT: "str", T.TIME: "time", T.UINT32: "i32", T.MILI: "i32"}
AKIND = dict(KIND)
AKIND.update({T.NULL: "null", T.DOUBLE: "double", T.UINT64: "u64", T.UINT32: "u32"})

class G:
    """One growing document: model plus bounds of the used size."""
    def __init__(self, w, limit):
        self.w, self.limit = w, limit
        self.D = Doc()
        self.D.tags, self.D.attrs = [list(x) for x in TAGS], [list(x) for x in ATTRS]
        self.lo, self.hi = 92, 92 + sum(len(n) + 12 for n, _ in TAGS + ATTRS) + 64
        self.fresh()
        self.refused = 0

    def fresh(self):
        self.kids, self.root, self.lists = [], None, []

def grow(ctx, case):
    """First run: outcomes of all operations. Second run: the same with comparison of the content at the end and after reopening."""
    limits, ops = case
    S = Script()
    gs = [G(w, l) for w, l in enumerate(limits)]
    for g in gs:
        S.op("new", g.w, "d%d.xbw" % g.w, g.limit, 0)
        for i, (n, t) in enumerate(TAGS):
            S.op("regT", g.w, i, n, t)
        for i, (n, t) in enumerate(ATTRS):
            S.op("regA", g.w, i, n, t)
        S.op("all", g.w)
        S.op("mk", g.w, g.w * 100000, "tag", 0, "")
        S.op("root", g.w, g.w * 100000)
        S.op("space", g.w, out=[ANY] * 5)
    todo = []          # (number of expected output, function(blob))
    h = [1]

    def later(f, *args):
        todo.append((len(S.exp), f))
        S.op(*args, out=[ANY])

    faulty = [0]
    def judge(g, need_lo, need_hi, reserve, what, apply, fault=None):
        fault = faulty[0] if fault is None else fault
        def f(b):
            ok = b not in (b"0", b"-1") and not b.startswith(b"~")
            must = not fault and (g.hi + need_hi + reserve + 4095) // 4096 * 4096 <= g.limit // 4096 * 4096
            cannot = g.lo + need_lo > g.limit
            if ok and cannot:
                raise Violation("%s succeeded beyond the limit %d (at least %d used)" % (what, g.limit, g.lo))
            if not ok and must:
                raise Violation("%s refused although at most %d of %d bytes are used" % (what, g.hi, g.limit))
            if ok:
                g.lo += need_lo
                g.hi += need_hi
                apply(b)
            else:
                g.refused += 1
            ctx.note("refused" if not ok else "allocated")
        return f

    for g in gs:
        g.root = El(g.w * 100000, True, 0, T.NULL)
        g.els = [g.root]
    parents = {g.w: [g.root] for g in gs}

    # every operation is decided by the generated numbers only, never by outcomes
    made = {g.w: [g.w * 100000] for g in gs}
    live = {}
    for g in gs:
        live[g.root.h] = g.root
    for o in ops:
        op, wi, a, n, m, v, pat = o[:7]
        faulty[0] = fault = o[7] if len(o) > 7 and op != "clear" else 0   # files cannot grow during the operation (C29)
        if fault:
            S.op("arm", 0 if fault == 1 else 1, 1, 1 << 4, out=[])
        g = gs[wi % len(gs)]
        w = g.w
        P = made[w][m % len(made[w])] if m % 3 else made[w][0]
        hh = w * 100000 + h[0]
        def place(e, P=P, g=g):
            live[e.h] = e
            p = live.get(P)
            if p is not None:
                g.D.add(p, e)
        if op in ("el", "size"):
            h[0] += 1
            id = [1, 2, 7, 9, 11][a % 5] if op == "size" else a % len(TAGS)
            ty = TAGS[id][1]
            n2 = n
            text = (pat * (n2 // len(pat) + 1))[:n2]
            r = Raw(v, text, text.decode("latin1"))
            args, res = make_elem(KIND[ty], ty, r)
            e = El(hh, True, id, T.NULL)
            set_value(e, *res)
            size = 24 + len(res[1])
            def ap(b, e=e, place=place):
                place(e)
            later(judge(g, size, size + 12, 0x4000 + (len(text) + 8 if ty in (T.STRING, T.BSTR, T.VARIANT) else 8), "creating of type %d with %d bytes" % (ty, len(res[1])), ap), "mkadd", w, hh, P, KIND[ty], id, *args)
            made[w].append(hh)
        elif op == "fill":
            h[0] += 1
            e = El(hh, True, 2, T.BLOB)
            delta = v % 41 - 20
            def f(b, e=e, g=g, place=place, pat=pat, fault=fault):
                k = int(b[1:])
                e.val = rep(pat, k) if k else b""
                judge(g, 28 + k, 28 + k + 8, 0x4000 + 8, "creating of BLOB with %d bytes" % k, lambda b: place(e), fault)(b)
            later(f, "mkfill", w, hh, P, 2, a % 3 == 0, delta, pat)
            made[w].append(hh)
        elif op == "at":
            id = a % len(ATTRS)
            ty = ATTRS[id][1]
            text = (pat * (n // len(pat) + 1))[:n]
            r = Raw(v, text, text.decode("latin1"))
            args, code, res = make_attr(AKIND[ty], ty, r)
            x = El(-1, False, id, T.NULL)
            set_value(x, *res)
            size = 24 + len(res[1])
            fn = judge(g, size, size + 12, 0x4000 + len(text) + 8, "attribute of type %d with %d bytes" % (ty, len(res[1])), lambda b, x=x, P=P, g=g: g.D.add(live[P], x))
            def f(b, fn=fn, P=P):
                if P in live:
                    fn(b)
            later(f, "at", P, AKIND[ty], id, *args)
        elif op == "huge":
            size = [2**31 - 1, 2**31 - 20, 2**30, 2**31 - 0x4000 - 4, g.limit, g.limit - 27, -1, -2**31, 2**30 - 1, 0x7fffbfff][a % 10]
            later(lambda b, size=size: b == b"0" or (_ for _ in ()).throw(Violation("BLOB of %d bytes was created" % size)), "mkadd", w, hh, P, "blobnull", 2, size)
        elif op == "name":
            nm = "N%d_" % h[0] + "y" * (n % 3000)
            h[0] += 1
            # the whole list of names can be copied, the index is created again
            def f(b, g=g, nm=nm, fault=fault):
                names = sum(len(x) + 8 for x, _ in g.D.tags + g.D.attrs) + len(nm) + 8
                idx = 4 * len(g.D.tags + g.D.attrs) + 8
                judge(g, 0, sum(len(x) + 8 for x, _ in g.D.tags) + len(nm) + 8, 0x4000 + names + idx + 16, "registering of a name with %d letters" % len(nm), lambda b: g.D.tags.append([nm, T.STRING]), fault)(b)
                g.registered = b != b"-1"
            later(f, "regTn", w, nm, T.STRING)
            def f(b, g=g):
                idx = 4 * len(g.D.tags) + 8
                if b != b"1" and g.registered:
                    raise Violation("registered names are lost: no space for their index")
                g.hi += idx
            later(f, "all", w)
        elif op == "clear" and a == 0:
            S.op("clear", w)
            S.op("mk", w, hh, "tag", 0, "")
            S.op("root", w, hh)
            h[0] += 1
            made[w] = [hh]
            def f(b, g=g, hh=hh):
                for k in [k for k in live if k % 1000000 // 100000 == g.w]:
                    del live[k]
                g.root = El(hh, True, 0, T.NULL)
                live[hh] = g.root
                g.lo, g.hi = 92, 92 + sum(len(x) + 16 for x, _ in g.D.tags + g.D.attrs) + 100
            todo.append((len(S.exp) - 1, f))
        elif op == "reopen":
            h[0] += 1
            S.op("fin", w)
            S.op("new", w, "d%d.xbw" % w, 0x4000 if a % 2 else g.limit, 0)
            if a % 4 == 3:
                for i, (n, t) in enumerate(TAGS):
                    S.op("regT", w, i, n, t)
                for i, (n, t) in enumerate(ATTRS):
                    S.op("regA", w, i, n, t)
            if a % 3 == 0 or a % 4 == 3:
                S.op("all", w)      # nothing is to be written, so it succeeds in a full document too
            hh = h[0] * 1000000 + w * 100000
            S.op("enum", w, hh, out=[ANY])     # other handles are never used again
            made[w] = [hh]
            def f(b, g=g, hh=hh, a=a):
                if int(b) != sum(1 for _ in g.D.walk(g.root)):
                    raise Violation("%s elements and attributes after reopening" % b)
                for k in [k for k in live if k % 1000000 // 100000 == g.w]:
                    del live[k]
                g.root.h = hh
                live[g.root.h] = g.root
                if a % 3 == 0 or a % 4 == 3:
                    g.hi += 4 * (len(g.D.tags) + len(g.D.attrs)) + 16
            todo.append((len(S.exp) - 1, f))
            ctx.note("reopened")
        elif op == "off":
            later(lambda b: None, "elemoff", made[w][0])
        if fault:
            later(lambda b: ctx.note("calls of ftruncate: %d" % int(b)), "disarm")
            S.exp.append((ANY, "disarm"))
        if op in ("fill", "size"):
            def sp(b, g=g):
                pass
            i0 = len(S.exp)
            S.op("space", w, out=[ANY] * 5)
            def chk(bs, g=g):
                alloc, fsize, real, lim = [int(x) for x in bs[:4]]
                if not (alloc <= fsize == real == lim and fsize <= g.limit):
                    raise Violation("allocated %d, file size %d, real %d, limit of allocation %d, configured limit %d" % (alloc, fsize, real, lim, g.limit))
                if not g.lo <= alloc <= g.hi:
                    raise Violation("allocated %d bytes, content takes %d..%d" % (alloc, g.lo, g.hi))
                g.lo = g.hi = alloc
            todo.append((i0, ("space", chk)))
    tail = len(S.cmd)
    # all clears must have succeeded: registrations past them keep the model simple
    r = ctx.raw(*S.cmd)
    if not r.ok:
        raise Violation("died: " + r.describe())
    if len(r.blobs) < len(S.exp):
        raise Violation("missing outputs")
    for i, (e, what) in enumerate(S.exp):
        if e is not ANY and r.blobs[i] != str(int(e)).encode():
            raise Violation("%s: got %r, expected %r" % (what, r.blobs[i], e))
    for i, f in todo:
        if isinstance(f, tuple):
            f[1](r.blobs[i:i + 5])
        else:
            f(r.blobs[i])
    S2 = Script()
    S2.cmd = list(S.cmd)
    S2.exp = [(r.blobs[i], what) for i, (e, what) in enumerate(S.exp)]
    for g in gs:
        S2.op("tree", g.w, out=[g.D.dump(g.root)])
    for g in reversed(gs) if len(ops) % 2 else gs:
        S2.op("fin", g.w)
        for o in gs:
            if o is not g and (o.w > g.w) != (len(ops) % 2):
                S2.op("tree", o.w, out=[o.D.dump(o.root)])
    for g in gs:
        S2.op("new", g.w, "d%d.xbw" % g.w, 0x4000, 0)
        S2.op("tree", g.w, out=[g.D.dump(g.root)])
        S2.op("fin", g.w)
    S2.run(ctx)
    if any(g.refused for g in gs):
        ctx.note("reached limit")

LIMIT = st.sampled_from([0x8000, 0xa000, 0x10000, 0x20000, 0x40000, 0x100000])
SIZE = st.one_of(st.integers(0, 40), st.integers(0, 5000), st.builds(lambda k, d: max(0, 4096 * k + d), st.integers(1, 6), st.integers(-40, 40)), st.sampled_from([8192, 12288 - 24, 16384, 20000, 40000, 65000]))
PAT = st.binary(min_size=1, max_size=3).map(lambda b: bytes(33 + x % 90 for x in b))
OP = st.tuples(st.sampled_from(["el", "el", "size", "size", "size", "fill", "fill", "at", "at", "huge", "name", "off", "clear", "reopen"]), st.integers(0, 2), st.integers(0, 30), SIZE, st.integers(0, 30), st.integers(0, 2**31 - 1), PAT)
ONE = st.tuples(st.tuples(LIMIT), st.lists(OP, min_size=5, max_size=60))
MORE = st.tuples(st.lists(LIMIT, min_size=2, max_size=3), st.lists(OP, min_size=8, max_size=50))
CAP = st.tuples(st.tuples(st.sampled_from([0x8000, 0x9000, 0xa000, 0xc000, 0x8123 // 4096 * 4096])), st.lists(st.tuples(st.sampled_from(["size", "fill", "el", "at", "huge", "clear", "reopen"]), st.just(0), st.integers(0, 30), st.one_of(st.integers(0, 300), st.integers(3000, 5000)), st.integers(0, 30), st.integers(0, 2**31 - 1), PAT), min_size=10, max_size=80))
# --- dictionaries which fill the document
def names(ctx, case):
    limit, parts, reopen = case
    S = Script()
    S.op("new", 0, "d.xbw", limit, 0)
    S.op("regT", 0, 0, "t0", T.NULL)
    for tag, count, length, ty in parts:
        S.op("regmany", 0, int(tag), count, length, ty, out=[ANY])
    counts = [int(x) for x in S.run(ctx)[-len(parts):]]
    D = Doc()
    D.tags, D.attrs = [["t0", T.NULL]], []
    used, copied = 92 + 8, 0
    last = None
    for (tag, count, length, ty), k in zip(parts, counts):
        L = D.tags if tag else D.attrs
        if last not in (None, tag):
            copied += sum(len(n) + 7 for n, _ in L)       # the other table was opened: this one is moved to the end
        last = tag
        for i in range(k):
            name = ("t" if tag else "a") + str(len(L))
            L.append([name + "x" * (length - len(name)), ty])
        used += sum(len(n) + 7 for n, _ in L[len(L) - k:])
        if k < count:
            ctx.note("refused")
            total = sum(len(n) + 7 for n, _ in D.tags + D.attrs)
            most = used + copied + total + 4 * (len(D.tags) + len(D.attrs) + 2) + length + 64 + 0x4000 + 4096
            if most <= limit:
                raise Violation("name %d of %d bytes refused, at most %d of %d bytes are used" % (len(L), length, used + copied, limit))
    S = Script()
    S.op("new", 0, "d.xbw", limit, 0)
    S.op("regT", 0, 0, "t0", T.NULL)
    for (tag, count, length, ty), k in zip(parts, counts):
        S.op("regmany", 0, int(tag), count, length, ty, out=[k])
    S.op("all", 0)          # never fails when the names were accepted
    S.op("dict", 0, out=D.dict())
    S.op("space", 0, out=[ANY] * 5)
    if reopen:
        S.op("fin", 0)
        S.op("new", 0, "d.xbw", limit, 0)
        S.op("dict", 0, out=D.dict())
        S.op("all", 0)
        S.op("dict", 0, out=D.dict())
    S.op("fin", 0)
    S.run(ctx)
    if len(D.tags) + len(D.attrs) > 4096:
        ctx.note("over 4096 names")
PART = st.tuples(st.booleans(), st.one_of(st.integers(1, 300), st.integers(1, 9000), st.just(9000)), st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([30, 255, 1000])), st.sampled_from([T.STRING, T.NULL, T.INT64]))
NAMES = st.tuples(st.sampled_from([0x8000, 0x10000, 0x18000, 0x20000]), st.lists(PART, min_size=1, max_size=4), st.booleans()) | st.tuples(st.sampled_from([0x18000, 0x1c000, 0x20000]), st.lists(st.tuples(st.booleans(), st.one_of(st.integers(2000, 9000), st.just(9000)), st.integers(1, 9), st.just(T.NULL)), min_size=1, max_size=3), st.booleans())

SUBS = [
    Sub("one", "drv_bw", ONE, grow, 5000, nontrivial=lambda c: any(o[0] in ("size", "fill") for o in c[1]), rule="at least one allocation with a chosen size"),
    Sub("several", "drv_bw", MORE, grow, 2000, nontrivial=lambda c: len({o[1] for o in c[1]}) > 1, rule="operations on at least two open documents"),
    Sub("limit", "drv_bw", CAP, grow, 4000, nontrivial=lambda c: sum(o[3] for o in c[1] if o[0] in ("size", "el", "at")) > c[0][0] // 2, rule="requested sizes are over half of the limit"),
    Sub("names", "drv_bw", NAMES, names, 200, nontrivial=lambda c: sum(p[1] for p in c[1]) > 1000, rule="more than 1000 names are registered", cpu=60),
]
