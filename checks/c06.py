"""C06: damaged .xb files never make the reader misbehave."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V, xbfile as F

BOUND = [0, 1, -1, 2, 3, 4, 7, 8, 11, 12, 13, 20, 24, 25, 26, 255, 127, 128, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, 0x7fff, -0x8000, 0x7fffffff, -0x80000000, 0x40000000, 0x20000000, 0x10000000, 0x3fffffff, -0x8000000, 65536, 4096, 100000]

def mutate(b, muts):
    b = bytearray(b)
    fs = F.fields(bytes(b))
    kinds = {}
    for f in fs:
        kinds.setdefault(f[2], []).append(f)
    names = sorted(kinds)
    for m in muts:
        if not len(b):
            return b""
        k = m[0]
        if k == "field":
            f = kinds[names[m[1] % len(names)]]
            o, n, _ = f[m[2] % len(f)]
            if o + n > len(b):
                continue
            old = int.from_bytes(b[o:o + n], "little", signed=True)
            how, v = m[3]
            if how == "add":
                v = old + v
            elif how == "size":
                v = len(b) + v
            elif how == "pos":
                v = v - o
            elif how == "copy":
                g = f[v % len(f)]
                v = int.from_bytes(b[g[0]:g[0] + g[1]], "little", signed=True)
            elif how == "back":         # reference to a field owner elsewhere
                g = kinds["name"][v % len(kinds["name"])]
                v = g[0] - kinds["name"][m[2] % len(kinds["name"])][0]
            b[o:o + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        elif k == "flip":
            b[m[1] % len(b)] ^= 1 << (m[2] & 7)
        elif k == "byte":
            b[m[1] % len(b)] = m[2] & 255
        elif k == "word":
            o = (m[1] % len(b)) & ~3
            b[o:o + 4] = struct.pack("<i", m[2])
        elif k == "trunc":
            b = b[:len(b) - 1 - m[1] % len(b)] if m[2] & 1 else b[:m[1] % len(b)]
        elif k == "extend":
            b += m[3]
        elif k == "cut":
            o = m[1] % len(b)
            del b[o:o + 1 + m[2] % 40]
        elif k == "dup":                # append a copy of some part (looks like appended elements)
            o = (m[1] % len(b)) & ~3
            while len(b) % 4:
                b.append(0)
            b += b[o:o + (m[2] % 400)]
    return bytes(b)

pos = st.integers(0, 2000)
how = st.one_of(st.tuples(st.just("set"), st.sampled_from(BOUND)), st.tuples(st.just("set"), st.integers(-2**31, 2**31 - 1)), st.tuples(st.just("add"), st.sampled_from([1, -1, 2, -2, 3, 4, -4, 8, -8, 12, -12, 16, 100, -100, 1000, 65536])),
                st.tuples(st.just("size"), st.sampled_from([-16, -12, -8, -4, -3, -1, 0, 1, 4])), st.tuples(st.just("pos"), st.integers(0, 800).map(lambda x: x * 4)), st.tuples(st.just("copy"), pos), st.tuples(st.just("back"), pos))
other = st.one_of(st.tuples(st.just("flip"), pos, st.integers(0, 7)), st.tuples(st.just("byte"), pos, st.integers(0, 255)),
                st.tuples(st.just("word"), pos, st.sampled_from(BOUND)), st.tuples(st.just("trunc"), pos, st.integers(0, 1)), st.tuples(st.just("extend"), pos, pos, st.binary(max_size=60)),
                st.tuples(st.just("cut"), pos, pos), st.tuples(st.just("dup"), pos, pos))
field = st.tuples(st.just("field"), pos, pos, how)
mut = st.integers(0, 9).flatmap(lambda k: field if k < 7 else other)
DOCS = st.one_of(X.documents(V.ANY, max_nodes=8, name_pool=4, max_attrs=3), X.documents(st.sampled_from(["1", "x", "10.0.0.1", "aabb", "9999999999", "1.5", "2020-01-01 10:00:00.000", ""]), max_nodes=14, name_pool=3, clone=4),
                 st.sampled_from(["<a/>", "<a>1</a>", "<r><e/><et-tecera/></r>", "<r><e a='1'>x</e><et-tecera/></r>", "<r v='2'><et-tecera/></r>", '<r h="0a0b0c0d0e0f0a0b0c0d0e0f0a0b0c0d0e0f0a0b" g="fcac7dbb-08c7-478d-bf97-7e595ca39aab" t="2020-01-01" i="::1"/>']))
cases = st.tuples(DOCS, st.sampled_from(["plain", "pack"]), st.integers(0, 19).flatmap(lambda k: st.just([]) if k == 0 else st.lists(mut, min_size=1, max_size=1 + k % 4)))

def oracle(ctx, case):
    doc, tool, muts = case
    made = ctx.call("make", tool, doc)
    if made[0] != b"1":
        raise Violation("conversion failed")
    base = made[1]
    b = mutate(base, muts)
    r = ctx.call("fuzz", b)
    if b == base and r[0] != b"1":
        raise Violation("intact file was refused")
    if muts:
        ctx.note("damaged file opened and walked" if r[0] == b"1" else "damaged file refused")
    if r[0] == b"1" and int(r[2]) == 0 and int(r[1]) < 1:
        raise Violation("nothing was read")

def raw_oracle(ctx, b):
    ctx.call("fuzz", b)

def item(name, params, children, value, base):
    """One hand-made item; returns bytes (used for crafted files)."""
    return b""

HEAD = struct.Struct("<hhii")
@st.composite
def crafted(draw):
    """Small files assembled from headers with plausible and boundary fields."""
    out = bytearray()
    n = draw(st.integers(1, 8))
    small = st.one_of(st.integers(-2, 4), st.sampled_from(BOUND))
    for i in range(n):
        name = draw(st.sampled_from([-2, -3, -4, -6, -9, 0, 1, -10, -11]))
        if i == 0:
            name = -2
        pc, cc = draw(st.integers(0, 2)), draw(st.integers(0, 3))
        body = bytearray()
        for _ in range(pc):
            body += struct.pack("<hBBi", draw(st.sampled_from([-5, -7, 0, 1, -2, -3])), draw(st.integers(0, 26)), 0, draw(small))
        for _ in range(cc):
            body += struct.pack("<i", draw(st.one_of(st.integers(-40, 60).map(lambda v: v * 4), small)))
        body += bytes([draw(st.integers(0, 25))]) + draw(st.binary(max_size=24))
        while len(body) % 4:
            body.append(0)
        ln = draw(st.one_of(st.just(12 + len(body)), st.just(12 + len(body)), st.integers(0, 400), small))
        out += HEAD.pack(name, draw(st.one_of(*[st.just(pc)] * 4, st.integers(-3, 40))), draw(st.one_of(*[st.just(cc)] * 4, small)), ln) + body
    if draw(st.booleans()):
        out[8:12] = struct.pack("<i", len(out))
    return bytes(out)

SUBS = [
    Sub("mutate", "drv_fuzz", cases, oracle, 16000, nontrivial=lambda c: len(c[2]) > 0, cpu=20,
        rule="valid file with at least one structure-aware or random mutation", label=lambda c: sorted({m[0] for m in c[2]} | {c[1]})),
    Sub("raw", "drv_fuzz", st.one_of(st.binary(max_size=300), crafted()), raw_oracle, 5000, nontrivial=lambda b: len(b) > 12, rule="arbitrary or assembled bytes longer than a header"),
]
