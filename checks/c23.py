"""C23: SHA-1 against hashlib."""
import hashlib, random
from hypothesis import strategies as st
from vlib.core import Sub, Violation

LENS = st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 4095, 4096, 4097, 8192, 12288]), st.integers(0, 20000),
                 st.builds(lambda k, d: max(0, 64 * k + d), st.integers(0, 200), st.integers(-9, 9)))
def data(seed, n):
    return random.Random(seed).randbytes(n) if seed > 2 else (b"\0\xff\x80"[seed:seed + 1] * n)
DATA = st.tuples(st.integers(0, 2**32), LENS)
CHUNK = st.one_of(st.integers(0, 70), st.sampled_from([0, 1, 55, 56, 63, 64, 65, 127, 128, 129]), st.integers(0, 5000))
ITEM = st.one_of(st.tuples(st.just("mem"), DATA, st.just([])), st.tuples(st.just("chunks"), DATA, st.lists(CHUNK, max_size=12)),
                 st.tuples(st.just("file"), DATA, st.just([])))
def oracle(ctx, items):
    args, want = ["b"], []
    for i, (k, d, ch) in enumerate(items):
        raw = data(*d)
        h = hashlib.sha1(raw).digest()
        if k == "mem":
            args += ["sha", raw]
            want += [b"1", h]
        elif k == "chunks":
            args += ["shac", raw, len(ch)] + ch
            want += [h]
        else:
            args += ["put", "f%d" % i, raw, "shaf", "f%d" % i]
            want += [b"1", b"1", h]
    out = ctx.call(*args)
    if out != want:
        j = [a == b for a, b in zip(out, want)].index(False)
        raise Violation("hash %d differs: %s instead of %s" % (j, out[j].hex(), want[j].hex()))

def pipe(ctx, case):
    d, ch = case
    raw = data(*d)
    out = ctx.call("b", "shapipe", raw, len(ch), *ch)
    if out != [b"1", hashlib.sha1(raw).digest()]:
        raise Violation("hash of a file read in pieces differs")

def big(ctx, case):
    seed, size, count, tail = case
    block = data(seed, size)
    h = hashlib.sha1()
    for _ in range(count):
        h.update(block)
    t = data(seed + 1, tail)
    h.update(t)
    out = ctx.call("b", "shabig", block, count, t)
    if out != [h.digest()]:
        raise Violation("hash of %d bytes differs" % (size * count + tail))

SUBS = [
    Sub("hash", "drv_utils", st.lists(ITEM, min_size=1, max_size=12), oracle, 4000, nontrivial=lambda l: any(d[1] > 0 for _, d, _ in l), label=lambda l: {k for k, _, _ in l}, rule="at least one non-empty data"),
    Sub("pipe", "drv_utils", st.tuples(DATA, st.lists(CHUNK, max_size=8)), pipe, 250, nontrivial=lambda c: c[0][1] > 0 and len(c[1]) > 0, rule="data delivered in more than one piece"),
    Sub("big", "drv_utils", None, big, 0, fixed=lambda tier: [(7, 1 << 20, 513, 5), (8, (1 << 20) + 17, 520, 61)] + ([(9, 1 << 20, 4097, 100), (10, 1 << 20, 2048, 1)] if tier != "quick" else []), rule="more than 2^29 bytes", cpu=300),
]
