"""C21: comparison and equality of typed values against Python's order."""
import math, re, socket, struct, uuid
from fractions import Fraction
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import cal, values
from checks import c19
from checks.c19 import (NULL, VARIANT, STRING, BLOB, INT32, INT64, FLOAT, DOUBLE, HEX, GUID, SHA1, TIME, IP4, IP6, UNKNOWN, UINT64, MSEC, UINT32, DATE, DECI, CENTI, MILI, MICRO, NANO, BSTR, LAST, DEC, FMT, VAR, SIZE)

INC = -0x80000000
BYTESY = (BLOB, HEX, GUID, SHA1, IP6)
WHOLE = (INT32, UINT32, INT64, UINT64) + tuple(DEC)
SOLO = (FLOAT, DOUBLE, TIME, MSEC, DATE)

def content(v):
    t, raw = v
    return raw[4:] if t in VAR else raw

def key(v):
    """(family, sortable value) or None when not comparable with anything."""
    t, raw = v
    c = content(v)
    if t in (STRING, BSTR):
        return "text", c.split(b"\0")[0]
    if t in BYTESY:
        return "bytes", c
    if t in WHOLE:
        return "number", Fraction(struct.unpack(FMT[t], c)[0], 10 ** DEC.get(t, 0))
    if t in SOLO:
        x = struct.unpack(FMT[t], c)[0]
        return None if x != x else (t, x)
    if t == IP4:
        return t, bytes(reversed(c))
    return None

def sign(x):
    return (x > 0) - (x < 0)

def want(a, b):
    ka, kb = key(a), key(b)
    if ka is None or kb is None or ka[0] != kb[0]:
        return INC
    return sign((ka[1] > kb[1]) - (ka[1] < kb[1]))

# values close to each other: built from few numbers, seen through different types
NUM = st.one_of(st.sampled_from([0, 1, -1, 5, 10, 15, 100, 127, 128, 255, 256, -2**31, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**63, 2**63 - 1, 2**63, 2**64 - 1, 1000, 1500, -1500, 2147483, 21474836, -214748364]), st.integers(-20, 20), st.integers(-2**63, 2**64 - 1))
def as_type(t, v, k):
    lo, hi = {"<i": (-2**31, 2**31 - 1), "<I": (0, 2**32 - 1), "<q": (-2**63, 2**63 - 1), "<Q": (0, 2**64 - 1)}[FMT[t]]
    if t in DEC and abs(v) * 10 ** DEC[t] + abs(k) < 2**31 - 1:
        v = v * 10 ** DEC[t] + k
    v = min(hi, max(lo, v))
    return t, struct.pack(FMT[t], v)
SHORT = st.one_of(st.binary(max_size=6), st.lists(st.sampled_from([0, 1, 127, 128, 255]), max_size=22).map(bytes), st.builds(lambda n, b, i: bytes([b]) * i + b"\0" * max(0, n - i), st.sampled_from([16, 20, 16, 15, 17]), st.sampled_from([0, 1, 128, 255]), st.integers(0, 22)))
def bytesy(t, b):
    if t in (GUID, IP6, SHA1):
        n = SIZE[t]
        return t, (b + b"\0" * n)[:n]
    return t, struct.pack("<I", len(b)) + b
TEXT = st.one_of(st.sampled_from(["", "a", "ab", "abc", "b", "B", "é", "z", "0", "1", "10", "-1", "€uro", "a b", "a\n"]), st.text(st.sampled_from("ab\u00e9z"), max_size=5), values.unicode_text, c19.VALUE.map(lambda v: (c19.ref_text(*v) or b"x").decode("utf-8", "replace")))
def texty(s, t, m):
    s = s.replace("\0", "")
    return (STRING, s.encode("utf-8", "replace") + b"\0") if t == STRING else (BSTR, c19.bstr(s.encode("utf-8", "replace").decode(), m))
number = st.builds(as_type, st.sampled_from(WHOLE + (INT32, UINT64, INT64)), NUM, st.integers(-9, 9))
V = st.one_of(number, number, st.builds(bytesy, st.sampled_from(BYTESY), SHORT), st.builds(texty, TEXT, st.sampled_from([STRING, STRING, BSTR]), st.sampled_from([0, 0, 5])), st.builds(as_type, st.sampled_from([TIME, MSEC, DATE]), NUM, st.just(0)),
              st.one_of(c19.F32.map(lambda v: (FLOAT, c19.f32(v))), st.builds(lambda t, v: (t, struct.pack(FMT[t], v)), st.sampled_from([FLOAT, DOUBLE]), st.sampled_from([0.0, -0.0, 1.0, -1.0, 1.5, math.inf, -math.inf, math.nan])), c19.F64.map(lambda v: (DOUBLE, struct.pack("<d", v)))),
              st.tuples(st.just(IP4), st.one_of(st.binary(min_size=4, max_size=4), st.lists(st.sampled_from([0, 1, 127, 128, 255]), min_size=4, max_size=4).map(bytes))), c19.VALUE, st.just((NULL, b"")))

def compare(ctx, vs):
    pairs = [(a, b) for a in vs for b in vs]
    args = ["b"]
    for a, b in pairs:
        args += ["cmp", a[0], content(a), b[0], content(b)]
    got = {}
    out = ctx.call(*args)
    for i, (a, b) in enumerate(pairs):
        g = int(out[i])
        g = INC if g == INC else sign(g)
        got[a, b] = g
        w = want(a, b)
        if g != w:
            raise Violation("type %d %s against type %d %s: %s, expected %s" % (a[0], content(a)[:40].hex(), b[0], content(b)[:40].hex(), g, w))
    for (a, b), g in got.items():
        if got[b, a] != (INC if g == INC else -g):
            raise Violation("%r and %r compare as %d and %d" % (a, b, g, got[b, a]))
    for a in vs:
        for b in vs:
            for c in vs:
                if got[a, b] in (-1, 0) and got[b, c] in (-1, 0):
                    if got[a, c] != min(got[a, b], got[b, c]):
                        raise Violation("order is not transitive for %r, %r, %r" % (a, b, c))

# --- wrong sizes of fixed types are incomparable, never read behind
def sizes(ctx, case):
    a, b, n, side = case
    if a[0] in (STRING, BSTR) or a[0] in BYTESY:
        return
    c = content(a)
    short = c[:n] if n < len(c) else c + b"\0" * (n - len(c))
    if len(short) == len(c):
        return
    args = [a[0], short, b[0], content(b)] if side else [b[0], content(b), a[0], short]
    g = int(ctx.call("b", "cmp", *args)[0])
    if g != INC:
        raise Violation("type %d with %d bytes compares as %d with type %d" % (a[0], n, g, b[0]))

# --- equality
def equal_ref(a, b):
    """True, False or None (spelling of the value not settled by the property)."""
    if a[0] == b[0]:
        if a[0] == BSTR:
            return key(a)[1] == key(b)[1]
        return a[1] == b[1]
    if STRING not in (a[0], b[0]):
        return False
    if a[0] != STRING:
        a, b = b, a
    text = a[1][:-1]
    t, c = b[0], content(b)
    if t == BSTR:
        return text == key(b)[1]
    if t == NULL:
        return None if text == b"" else False
    if t == BLOB:
        return None
    if t in (FLOAT, DOUBLE):
        x = struct.unpack(FMT[t], c)[0]
        try:
            v = float(text)
        except (ValueError, OverflowError):
            return False if re.fullmatch(rb"[-+]?[0-9.]*[^0-9.a-zA-Z()_]+.*", text) else None
        if v != v or x != x:
            return None
        return None if b"_" in text or text != text.strip() else struct.unpack(FMT[t], c19.f32(v) if t == FLOAT else struct.pack("<d", v))[0] == x and math.copysign(1, v) == math.copysign(1, x) if not (t == FLOAT and v != struct.unpack("<f", c19.f32(v))[0]) else None
    if t in (DATE, MSEC) and not c19.in_range(t, c):
        return None
    if text == c19.ref_text(*b):
        return True
    if text != text.lstrip(): # leading white space may be skipped by scanners
        r = equal_ref((STRING, text.lstrip() + b"\0"), b)
        return None if r else r
    if t in WHOLE:
        m = re.fullmatch(rb"([-+]?)(\d+)(?:\.(\d+))?", text)
        if not m:
            return False if not re.fullmatch(rb"[-+]?\d*\.?\d*", text.strip()) else None
        v = Fraction(int(m.group(1) + m.group(2))) + (-1 if m.group(1) == b"-" else 1) * (Fraction(int(m.group(3)), 10 ** len(m.group(3))) if m.group(3) else 0)
        if v != key(b)[1]:
            return False
        return None
    if t == HEX or t in (GUID, SHA1):
        digits = re.sub(rb"[- \n]", b"", text)
        if not re.fullmatch(rb"[0-9a-fA-F]*", digits) or digits.lower().decode() != c.hex():
            return False
        return None
    if t == IP6:
        try:
            return None if socket.inet_pton(socket.AF_INET6, text.decode()) == c else False
        except (OSError, UnicodeDecodeError, ValueError):
            return False
    if t == IP4:
        m = re.fullmatch(rb"(\d+)\.(\d+)\.(\d+)\.(\d+)", text)
        return None if m and bytes(int(x) & 255 for x in reversed(m.groups())) == c else False
    # dates and times: another spelling must at least start with a date and consist of characters of a date
    if not re.fullmatch(rb"-?\d+-\d+-\d+([ T][0-9:.]*(Z|[-+][0-9:]+)?)?", text):
        return False
    return None

def mutate(t, k, pos):
    if not t:
        return t + b"x"
    p = pos % (len(t) + 1)
    return (t + b"0", t + b" ", t + b"x", b"0" + t, t[:p] + b"0" + t[p:], t[:p] + t[p + 1:], t[:p] + bytes([t[p % len(t)] ^ 1]) + t[p + 1:], t + b".5", t + b".0", b"+" + t, b" " + t, t.upper(), t + b"\n", t + b"00", b"x" + t, t + b"9")[k]
def eqcase(v, kind, k, pos, other):
    if kind == "text":
        r = c19.ref_text(*v)
        r = b"%.17g" % struct.unpack(FMT[v[0]], v[1])[0] if r is None else r
        return (STRING, r + b"\0"), v
    if kind == "near":
        r = c19.ref_text(*v)
        r = b"%.17g" % struct.unpack(FMT[v[0]], v[1])[0] if r is None else r
        m = mutate(r, k, pos).replace(b"\0", b"")
        return (STRING, m + b"\0"), v
    if kind == "flip":
        if not v[1]:
            return v, other
        b = bytearray(v[1])
        lo = 4 if v[0] in VAR else 0
        if len(b) <= lo or v[0] in (STRING, BSTR):
            return v, other
        b[lo + pos % (len(b) - lo)] ^= 1 << k % 8
        return v, (v[0], bytes(b))
    if kind == "same":
        return v, v
    if kind == "pad" and v[0] == BSTR:
        t = key(v)[1]
        n = len(v[1]) - 4
        body = t + b"\0" + bytes([65 + k]) * (n - len(t) - 2) + (b"\0" if n - len(t) >= 2 else b"")
        return v, (BSTR, v[1][:4] + body[:n])
    return v, other
EQ = st.lists(st.builds(eqcase, st.one_of(V, c19.VALUE, number), st.sampled_from(["text", "near", "near", "flip", "same", "pad", "other"]), st.integers(0, 15), st.integers(0, 10**6), V), min_size=1, max_size=6)
def ref(v):
    return v[1]
def equality(ctx, pairs):
    args = ["b"]
    for a, b in pairs:
        args += ["equal", a[0], a[1], b[0], b[1], "equal", b[0], b[1], a[0], a[1]]
    out = ctx.call(*args)
    for i, (a, b) in enumerate(pairs):
        x, y = out[2 * i] == b"1", out[2 * i + 1] == b"1"
        if x != y:
            raise Violation("%r and %r are equal only in one direction" % (a, b))
        w = equal_ref(a, b)
        if w is not None and x != w:
            raise Violation("%r and %r are said to be %s" % (a, b, "equal" if x else "different"))
        ctx.note("open" if w is None else "equal" if w else "different")

SUBS = [
    Sub("order", "drv_utils", st.lists(V, min_size=2, max_size=5), compare, 12000, nontrivial=lambda c: len(set(c)) > 1, label=lambda c: {"comparable" if want(c[0], c[1]) != INC else "incomparable"}, rule="two different values"),
    Sub("sizes", "drv_utils", st.tuples(V, V, st.integers(0, 24), st.booleans()), sizes, 2000, nontrivial=lambda c: c[0][0] not in (STRING, BSTR), rule="fixed size type"),
    Sub("equality", "drv_utils", EQ, equality, 12000, nontrivial=lambda c: any(a != b for a, b in c), rule="some pair differs"),
]
