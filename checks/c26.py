"""C26: the JSON tokenizer against documents rendered with known token positions."""
import json, random
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import jsongen as J

TREE = J.trees(J.strings(8), J.strings(), root=None, leaves=30)
deep = st.builds(lambda ks, leaf: __import__("functools").reduce(lambda n, k: ("a", [n]) if k == 0 else ("o", [("k%d" % k, n)]) if k < 5 else ("a", [("p", "1"), n, ("o", [])]), ks, leaf),
                 st.lists(st.integers(0, 6), min_size=10, max_size=400), st.sampled_from([("p", "1"), ("s", "x"), ("a", []), ("o", [])]))
wide = st.builds(lambda n, k: ("a", [("p", str(i)) for i in range(n)]) if k == 0 else ("o", [("key%d" % i, ("a", [("s", "v")] * (i % 3))) for i in range(n)]), st.integers(0, 400), st.integers(0, 1))

def toks(b):
    return [list(map(int, l.split())) for l in b.decode().splitlines()]

def build(case):
    tree, seed = case
    r = J.Render(tree, random.Random(seed) if seed else None)
    return bytes(r.b), r.t

def oracle(ctx, case):
    text, ref = build(case[:2])
    n = len(ref)
    rnd = random.Random(case[2])
    small = sorted({0, n - 1, n // 2, rnd.randrange(n)})
    args = ["b", "jsmn", text, n, "jsmn", text, n + 1 + rnd.randrange(5), "jsmn", text, -1]
    for k in small:
        args += ["jsmn", text, k]
    container = ref[0][0] in (J.OBJ, J.ARR)
    s, e = ref[0][1], ref[0][2]
    cuts = sorted({s + 1, e - 1} | {rnd.randrange(s + 1, e) for _ in range(6)}) if container and e > s + 1 else []
    if ref[0][0] == J.STR:
        cuts = sorted({s, e} | {rnd.randrange(s, e + 1) for _ in range(6)})
    for c in cuts:
        args += ["jsmn", text[:c], n + 2]
    out = ctx.call(*args)
    for i in (0, 2):
        if int(out[i]) != n:
            raise Violation("%d tokens reported for a document of %d: %r" % (int(out[i]), n, text[:300]))
        got = toks(out[i + 1])
        if got != ref:
            j = [a == b for a, b in zip(got, ref)].index(False)
            raise Violation("token %d is %r (type start end size parent), expected %r: %r" % (j, got[j], ref[j], text[:300]))
    if int(out[4]) != n:
        raise Violation("counting gives %d tokens instead of %d: %r" % (int(out[4]), n, text[:300]))
    i = 6
    for k in small:
        if int(out[i]) != -1:
            raise Violation("array of %d tokens for a document of %d: result %s instead of 'not enough tokens'" % (k, n, out[i].decode()))
        i += 2
    for c in cuts:
        if int(out[i]) != -3:
            raise Violation("document cut to %d of %d bytes: result %s instead of 'incomplete'; %r" % (c, len(text), out[i].decode(), text[:c][-200:]))
        i += 2

# --- invalid: one change that no reading of JSON accepts
def invalid(case):
    tree, seed, kind, pos = case
    text, ref = build((tree, seed))
    text = bytearray(text)
    closers = [i for i in range(len(ref)) if ref[i][0] in (J.OBJ, J.ARR)]
    strs = [i for i in range(len(ref)) if ref[i][0] == J.STR]
    prims = [i for i in range(len(ref)) if ref[i][0] == J.PRIM]
    if kind == "bracket" and closers:
        p = ref[closers[pos % len(closers)]][2] - 1
        text[p] = ord("]") if text[p] == ord("}") else ord("}")
    elif kind == "opener" and closers:
        p = ref[closers[pos % len(closers)]][1]
        text[p] = ord("[") if text[p] == ord("{") else ord("{")
    elif kind == "escape" and strs:
        t = ref[strs[pos % len(strs)]]
        text[t[1]:t[1]] = (b"\\x", b"\\u12G4", b"\\ ", b"\\uZ", b"\\0", b"\\'", b"\\u123:", b"\\u123`", b"\\u@234", b"\\u/234", b"\\u12g4")[pos % 11]
    elif kind == "high" and prims:
        t = ref[prims[pos % len(prims)]]
        text[t[2]:t[2]] = (b"\x01", b"\xc3\xa9", b"\x7f", b"\x1f", b"\xff")[pos % 5]
    elif kind == "extra":
        text += b"}" if pos % 2 else b"]"
    else:
        return None
    return bytes(text), len(ref)

def inv_oracle(ctx, case):
    r = invalid(case)
    if r is None:
        return
    text, n = r
    ctx.note(case[2])
    out = ctx.call("b", "jsmn", text, n + 10)
    if int(out[0]) not in (-2,):
        raise Violation("invalid text (%s) gives result %s: %r" % (case[2], out[0].decode(), text[:300]))

# --- any bytes: results stay inside the text
frag = st.sampled_from([b"{", b"}", b"[", b"]", b":", b",", b'"', b"\\", b"\\u", b"\\u12", b"a", b"1", b"true", b'"a"', b'"a":', b" ", b"\n", b"\0", b"\xff", b'"\\"', b"-", b'{"k":[', b"]}"])
garbage = st.one_of(st.lists(frag, max_size=30).map(b"".join), st.binary(max_size=40))
def any_oracle(ctx, case):
    text, n = case
    out = ctx.call("b", "jsmn", text, n, "jsmn", text, -1, "jsmn", text, 200)
    for i, room in ((0, n), (4, 200)):
        r = int(out[i])
        if r > room or r < -3:
            raise Violation("%d tokens reported, room was for %d: %r" % (r, room, text))
        for k, t in enumerate(toks(out[i + 1])):
            if not (0 <= t[1] <= t[2] <= len(text)) or not -1 <= t[4] < k:
                raise Violation("token %d = %r is outside the text of %d bytes: %r" % (k, t, len(text), text))

SUBS = [
    Sub("documents", "drv_utils", st.tuples(st.one_of(TREE, TREE, deep, wide), st.integers(0, 10**6), st.integers(0, 10**6)), oracle, 7000, nontrivial=lambda c: c[0][0] in "oa" and len(c[0][1]) > 1, label=lambda c: [c[0][0]], rule="container of more than one item"),
    Sub("invalid", "drv_utils", st.tuples(TREE, st.integers(0, 10**6), st.sampled_from(["bracket", "opener", "escape", "high", "extra"]), st.integers(0, 10**6)), inv_oracle, 5000, nontrivial=lambda c: invalid(c) is not None, rule="document that can carry the defect"),
    Sub("garbage", "drv_utils", st.tuples(garbage, st.integers(0, 40)), any_oracle, 6000, nontrivial=lambda c: len(c[0]) > 3, rule="more than three bytes"),
]
