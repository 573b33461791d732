"""C24: sorting helpers."""
import random
from hypothesis import strategies as st
from vlib.core import Sub, Violation

def elements(case):
    merge, size, off, klen, dir, shape, n, seed, spread = case
    r = random.Random(seed)
    out = []
    for i in range(n):
        e = bytearray(r.randbytes(size))
        if shape == "random":
            k = r.randrange(spread)
        elif shape == "sorted":
            k = i * spread // max(1, n)
        elif shape == "reverse":
            k = (n - 1 - i) * spread // max(1, n)
        elif shape == "organ":
            k = min(i, n - 1 - i)
        elif shape == "saw":
            k = i % spread
        elif shape == "almost":
            k = i if r.random() < 0.95 else r.randrange(n)
        else:
            k = 0
        key = (k % (1 << (8 * klen))).to_bytes(klen, "big")
        e[off:off + klen] = key
        out.append(bytes(e))
    return out

@st.composite
def cases(draw, big=False):
    merge = draw(st.booleans())
    size = draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 4, 8, 16, 24, 100, 1000])))
    klen = draw(st.integers(1, min(size, 4)))
    off = draw(st.integers(0, size - klen))
    n = draw(st.integers(300, 20000)) if big else draw(st.one_of(st.integers(0, 12), st.integers(0, 70), st.sampled_from([0, 1, 2, 3, 16, 17, 31, 32, 33])))
    if big and size > 64:
        n = min(n, 3000)
    return (merge, size, off, klen, draw(st.sampled_from([1, -1])), draw(st.sampled_from(["random", "random", "random", "sorted", "reverse", "organ", "saw", "almost", "equal"])), n,
            draw(st.integers(0, 10**6)), draw(st.sampled_from([1, 2, 3, 5, 10, 100, 10000])))

def oracle(ctx, case):
    merge, size, off, klen, dir = case[:5]
    el = elements(case)
    out = ctx.call("b", "sort", merge, size, off, klen, dir, b"".join(el))
    got = [out[0][i:i + size] for i in range(0, len(out[0]), size)]
    key = lambda e: e[off:off + klen]
    want = sorted(el, key=key, reverse=dir < 0)      # stable in both directions
    if merge:
        if got != want:
            i = [a == b for a, b in zip(got, want)].index(False)
            raise Violation("mergesort_r2: element %d of %d (size %d) differs from the stable order" % (i, len(el), size))
    else:
        if sorted(got) != sorted(el):
            raise Violation("qsort_r2: result is not a permutation of the input (%d elements of %d bytes)" % (len(el), size))
        if [key(e) for e in got] != [key(e) for e in want]:
            raise Violation("qsort_r2: result is not ordered (%d elements of %d bytes)" % (len(el), size))

SUBS = [
    Sub("small", "drv_utils", cases(), oracle, 12000, nontrivial=lambda c: c[6] > 2 and c[5] != "equal", label=lambda c: [("merge " if c[0] else "quick ") + c[5]], rule="more than two elements, not all equal"),
    Sub("large", "drv_utils", cases(True), oracle, 250, nontrivial=lambda c: True, label=lambda c: [("merge " if c[0] else "quick ") + c[5]], rule="300 to 20000 elements", cpu=60),
]
