"""C19: value codecs against reference formats, round trips, sizes, limits and chunking."""
import base64, math, re, socket, struct, uuid
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import cal, values

(NULL, VARIANT, STRING, BLOB, INT32, INT64, FLOAT, DOUBLE, HEX, GUID, SHA1, TIME, IP4, IP6, UNKNOWN, UINT64, MSEC, UINT32, DATE, DECI, CENTI, MILI, MICRO, NANO, BSTR, LAST) = range(26)
FMT = {INT32: "<i", INT64: "<q", FLOAT: "<f", DOUBLE: "<d", TIME: "<I", UINT64: "<Q", MSEC: "<q", UINT32: "<I", DATE: "<i", DECI: "<i", CENTI: "<i", MILI: "<i", MICRO: "<i", NANO: "<i"}
DEC = {DECI: 1, CENTI: 2, MILI: 3, MICRO: 6, NANO: 9}
SIZE = dict([(t, struct.calcsize(f)) for t, f in FMT.items()] + [(GUID, 16), (SHA1, 20), (IP4, 4), (IP6, 16)])
ALIGN = {t: 4 for t in (BSTR, BLOB, HEX, INT32, UINT32, FLOAT, GUID, SHA1, TIME, DATE, IP4, DECI, CENTI, MILI, MICRO, NANO)}
ALIGN.update({t: 8 for t in (UINT64, INT64, DOUBLE, IP6, MSEC)})
VAR = (BLOB, HEX, BSTR)
YLO, YHI = -365749, 369689
DLO, DHI = cal.to_days(YLO, 1, 1), cal.to_days(YHI, 12, 31)
MLO, MHI = DLO * 86400000, (DHI + 1) * 86400000 - 1

def up(n, a):
    return n if not a else (n + a - 1) // a * a

def bstr_size(n):
    k = 16
    while k < n + 1:
        k *= 2
    return k // 4 * 3 if k > 16 and k // 4 * 3 >= n + 1 else k

def edge(lo, hi):
    e = sorted({v for k in range(0, 65) for v in (2**k, 2**k - 1, 2**k + 1, -2**k, -2**k - 1, -2**k + 1, 10**min(k, 19), -10**min(k, 19), 10**min(k, 19) - 1, 0) if lo <= v <= hi} | {lo, hi})
    return st.one_of(st.integers(lo, hi), st.sampled_from(e), st.integers(max(lo, -2000), min(hi, 2000)))

I32, I64, U32, U64 = edge(-2**31, 2**31 - 1), edge(-2**63, 2**63 - 1), edge(0, 2**32 - 1), edge(0, 2**64 - 1)
def packs(t, s):
    return s.map(lambda v: (t, struct.pack(FMT[t], v)))
F32 = st.one_of(st.floats(width=32), st.integers(0, 2**32 - 1).map(lambda v: struct.unpack("<f", struct.pack("<I", v))[0]), st.sampled_from([0.0, -0.0, 0.5, 1.5, 1e-7, 16777216.0, 1e10, 3.4028234663852886e38, 1.401298464324817e-45, math.inf, -math.inf, math.nan]), st.integers(-10**6, 10**6).map(lambda v: v / 64))
F64 = st.one_of(st.floats(), st.integers(0, 2**64 - 1).map(lambda v: struct.unpack("<d", struct.pack("<Q", v))[0]), st.sampled_from([0.0, -0.0, 0.1, 1e-7, 1e22, 1e23, 9007199254740993.0, 1.7976931348623157e308, 5e-324, math.inf, -math.inf, math.nan]), st.integers(-10**9, 10**9).map(lambda v: v / 1000))
def f32(v):
    try:
        return struct.pack("<f", v)
    except OverflowError:
        return struct.pack("<f", math.inf)
LEN = st.one_of(st.integers(0, 80), st.sampled_from([0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 48, 255, 256, 257, 258, 512, 4095, 4096, 4097, 5000, 9000]))
BYTES = st.one_of(st.binary(max_size=90), st.builds(lambda b, n: (b * (n // len(b) + 1))[:n], st.binary(min_size=1, max_size=7), LEN))
UNI = st.one_of(values.unicode_text, values.markup, st.builds(lambda s, n: (s * (n // max(1, len(s)) + 1))[:n], st.text(st.sampled_from("aZ09 <&>\"'\né€\U0001f600"), min_size=1, max_size=5), LEN), values.words)
def bstr(s, more):
    b = s.encode()
    n = bstr_size(len(b) + more)
    return struct.pack("<I", n) + b + b"\0" * (n - len(b))
VALUE = st.one_of(packs(INT32, I32), packs(UINT32, U32), packs(INT64, I64), packs(UINT64, U64), F32.map(lambda v: (FLOAT, f32(v))), packs(DOUBLE, F64),
                  st.builds(lambda t, v: (t, struct.pack("<i", v)), st.sampled_from(sorted(DEC)), st.one_of(I32, st.builds(lambda a, k, d: max(-2**31, min(2**31 - 1, a * 10**k + d)), st.integers(-2000, 2000), st.integers(0, 9), st.integers(-1, 1)))),
                  packs(TIME, U32), packs(DATE, st.one_of(st.integers(DLO, DHI), st.integers(-200000, 200000), st.sampled_from([DLO, DHI, 0, -1]))), packs(MSEC, st.one_of(st.integers(MLO, MHI), st.integers(-10**14, 10**14), st.integers(-5000, 5000), st.sampled_from([MLO, MHI]))),
                  st.tuples(st.just(IP4), st.one_of(st.binary(min_size=4, max_size=4), st.lists(st.sampled_from([0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255]), min_size=4, max_size=4).map(bytes))),
                  st.tuples(st.just(IP6), st.one_of(st.binary(min_size=16, max_size=16), st.lists(st.sampled_from([b"\0\0", b"\0\0", b"\0\1", b"\xff\xff", b"\x20\x01"]), min_size=8, max_size=8).map(b"".join))),
                  st.tuples(st.just(GUID), st.binary(min_size=16, max_size=16)), st.tuples(st.just(SHA1), st.binary(min_size=20, max_size=20)),
                  BYTES.map(lambda b: (BLOB, struct.pack("<I", len(b)) + b)), BYTES.map(lambda b: (HEX, struct.pack("<I", len(b)) + b)),
                  UNI.map(lambda s: (STRING, s.replace("\0", "").encode() + b"\0")), st.builds(lambda s, m: (BSTR, bstr(s.replace("\0", ""), m)), UNI, st.sampled_from([0, 0, 1, 20])),
                  st.just((NULL, b"")))

def ref_text(t, raw):
    """Documented text of a value, None when only the round trip is specified (floats)."""
    if t == NULL:
        return b""
    if t in DEC:
        v, k = struct.unpack("<i", raw)[0], DEC[t]
        return b"%s%d.%0*d" % (b"-" if v < 0 else b"", abs(v) // 10**k, k, abs(v) % 10**k)
    if t in (INT32, INT64, UINT32, UINT64):
        return b"%d" % struct.unpack(FMT[t], raw)
    if t == TIME:
        return cal.time_text(struct.unpack("<I", raw)[0]).encode()
    if t == DATE:
        return cal.date_text(struct.unpack("<i", raw)[0]).encode()
    if t == MSEC:
        s, ms = divmod(struct.unpack("<q", raw)[0], 1000)
        return (cal.time_text(s) + ".%03d" % ms).encode()
    if t == IP4:
        return b"%d.%d.%d.%d" % tuple(reversed(raw))
    if t == IP6:
        return socket.inet_ntop(socket.AF_INET6, raw).encode()
    if t == GUID:
        return str(uuid.UUID(bytes=raw)).encode()
    if t == SHA1:
        return raw.hex().encode()
    if t == BLOB:
        return base64.b64encode(raw[4:])
    if t == HEX:
        h = raw[4:].hex()
        return "\n".join(h[i:i + 32] for i in range(0, len(h), 32)).encode()
    if t == STRING:
        return raw[:-1]
    if t == BSTR:
        return raw[4:].split(b"\0")[0]
    return None

ENT = {b"lt": b"<", b"gt": b">", b"amp": b"&", b"quot": b'"', b"apos": b"'"}
def unescape(x):
    if b"<" in x or re.search(rb"&(?!(lt|gt|amp|quot|apos|#\d+);)", x):
        raise Violation("markup left in XML text %r" % x)
    return re.sub(rb"&(?:#(\d+)|(\w+));", lambda m: bytes([int(m.group(1))]) if m.group(1) else ENT[m.group(2)], x)

def same_value(t, a, b):
    if t in (FLOAT, DOUBLE):
        x, y = struct.unpack(FMT[t], a)[0], struct.unpack(FMT[t], b)[0]
        return a == b or (math.isnan(x) and math.isnan(y))
    return a == b

def text_oracle(ctx, case):
    (t, raw), bufs, mis = case
    args = ["b", "tostr", t, raw]
    for n in bufs:
        args += ["chunks", t, raw, n]
    out = ctx.call(*args)
    s, stream, xml, attr = out[0], out[1], out[2], out[3]
    want = ref_text(t, raw)
    if want is None:
        want = stream
        if not re.fullmatch(rb"-?(\d+(\.\d+)?(e[+-]\d+)?|inf|nan)", stream):
            raise Violation("type %d value %s prints as %r" % (t, raw.hex(), stream))
    if s == b"-" and t != NULL and not (t in (HEX, BLOB) and len(raw) == 4):
        raise Violation("type %d value %s is printed as nothing" % (t, raw[:40].hex()))
    if (s[1:] if s != b"-" else b"") != want:
        raise Violation("type %d value %s prints as %r, expected %r" % (t, raw[:40].hex(), s[:200], want[:200]))
    if stream != want:
        raise Violation("type %d value %s streamed as %r, expected %r" % (t, raw[:40].hex(), stream[:200], want[:200]))
    for n, got in zip(bufs, out[4:]):
        w = want
        if t == BLOB:
            w = base64.b64encode(raw[4:])
        if got != w:
            raise Violation("type %d value %s in chunks of %d bytes: %r, expected %r" % (t, raw[:40].hex(), n, got[:300], w[:300]))
    for x, what in ((xml, "XML text"), (attr, "XML attribute")):
        if unescape(x) != want:
            raise Violation("type %d: %s %r does not stand for %r" % (t, what, x[:200], want[:200]))
    if re.search(rb"[\n\t\r\"]", attr) or b"\r" in xml:
        raise Violation("white space or quotes of %r would be changed by XML parser" % attr[:200])
    if t in (BLOB, BSTR):
        return
    # back
    a = ALIGN.get(t, 0)
    start = up(mis, a) - mis
    need = start + (len(raw) if t != HEX else 4 + (len(want) + 1) // 2)
    ok, adv, data, sfs = ctx.call("b", "from", want, t, mis, need)
    if ok != b"1":
        raise Violation("type %d: text %r of a value is not accepted back" % (t, want[:100]))
    if int(adv) != start + len(raw) or not same_value(t, data[start:], raw):
        raise Violation("type %d: text %r of value %s decodes to %s" % (t, want[:100], raw[:60].hex(), data[start:][:60].hex()))
    content = len(raw) - (4 if t == HEX else 1 if t == STRING else 0)
    if (int(sfs) != content) if t != HEX else not content <= int(sfs) <= (len(want) + 1) // 2:
        raise Violation("type %d: size of %r is said to be %d, is %d" % (t, want[:100], int(sfs), content))

BUFS = st.lists(st.one_of(st.sampled_from([257, 258, 259, 260, 261, 512, 513, 4096, 4097, 4098]), st.integers(257, 700), st.integers(257, 20000)), min_size=1, max_size=3)

# --- limits
LIMTEXT = st.one_of(VALUE.map(lambda v: (v[0], ref_text(*v) if v[0] not in (FLOAT, DOUBLE) else b"%.9g" % struct.unpack(FMT[v[0]], v[1])[0])).filter(lambda v: v[0] not in (BLOB, BSTR)),
                    st.builds(lambda t, s: (t, s.replace("\0", "").encode("utf-8", "replace")), st.sampled_from([x for x in range(25) if x not in (VARIANT, UNKNOWN)]), values.ANY))
def limit_oracle(ctx, case):
    (t, text), mis, room, delta = case
    a = ALIGN.get(t, 0)
    start = up(mis, a) - mis
    need = {STRING: len(text) + 1, NULL: 0, HEX: 4 + (len(text) + 1) // 2}.get(t, SIZE.get(t, 0))
    r = max(0, start + need + delta) if delta is not None else room
    ok, adv, data, sfs, fit_ok, fit_adv, fit, _ = ctx.call("b", "from", text, t, mis, r, "from", text, t, mis, start + need + 16)
    adv = int(adv)
    if ok == b"1":
        if adv > r or adv < 0:
            raise Violation("type %d: %r written into %d bytes, %d allowed" % (t, text[:60], adv, r))
        if fit_ok != b"1" or data != fit:
            raise Violation("type %d: %r decodes differently with %d bytes of room" % (t, text[:60], r))
        if t in SIZE and adv != start + SIZE[t]:
            raise Violation("type %d: %r takes %d bytes" % (t, text[:60], adv))
    elif fit_ok == b"1" and r >= start + need:
        raise Violation("type %d: %r refused although %d bytes fit" % (t, text[:60], r))

# --- copying stored values
def copy_oracle(ctx, case):
    (t, raw), mis, delta = case
    if t == NULL:
        return
    size = {STRING: len(raw) - 1}.get(t, len(raw) - 4 if t in VAR else len(raw))
    a = ALIGN.get(t, 0)
    start = up(mis, a) - mis
    r = max(0, start + len(raw) + delta)
    ok, adv, data = ctx.call("b", "copy", t, raw, size, mis, r)
    if ok == b"1":
        if int(adv) != start + len(raw) or data[start:] != raw:
            raise Violation("type %d: copy of %s is %s" % (t, raw[:60].hex(), data[start:][:60].hex()))
    elif r >= len(raw) + a:
        raise Violation("type %d: copy of %d bytes refused in %d" % (t, len(raw), r))

# --- declared sizes
def sizes(ctx, case):
    args = ["b"]
    for t, n in case:
        args += ["size2", t, n]
    out = ctx.call(*args)
    for i, (t, n) in enumerate(case):
        size, align = int(out[2 * i]), int(out[2 * i + 1])
        want = n + 1 if t == STRING else n + 4 if t in (BLOB, HEX) else 4 + bstr_size(n) if t == BSTR else 0 if t in (NULL, UNKNOWN, LAST) else SIZE[t]
        if n and t in SIZE and n != SIZE[t]:
            want = -1
        if n and t in (NULL, UNKNOWN, LAST):
            want = -1
        if size != want or align != ALIGN.get(t, 0):
            raise Violation("declared size of type %d with %d bytes is %d (alignment %d), expected %d (%d)" % (t, n, size, align, want, ALIGN.get(t, 0)))

def all_sizes(tier):
    top = 5000 if tier == "quick" else 70000
    out = [[(t, n) for n in list(range(0, 40))] for t in range(26) if t not in (VARIANT, STRING) + VAR]
    for t in (STRING,) + VAR:
        out += [[(t, n) for n in range(k, k + 1000)] for k in range(0, top, 1000)] + [[(t, 2**k + d) for k in range(3, 29) for d in (-2, -1, 0, 1)], [(t, 3 * 2**k + d) for k in range(3, 27) for d in (-2, -1, 0, 1)]]
    return out

# --- any text with any type: exactness claims are true
def exact_oracle(ctx, items):
    args = ["b"]
    for t, s in items:
        args += ["exact", s, t, "from", s, t, 0, len(s.encode("utf-8", "surrogatepass")) + 64]
    out = ctx.call(*args)
    for i, (t, s) in enumerate(items):
        b = s.encode("utf-8", "surrogatepass")
        ex, ok, adv, data, sfs = out[5 * i:5 * i + 5]
        if ok == b"1" and t in SIZE and len(data) != SIZE[t]:
            raise Violation("%r stored as type %d takes %d bytes" % (s, t, len(data)))
        back = None
        if ok == b"1" and t not in (FLOAT, DOUBLE) and not (t in (DATE, MSEC) and not in_range(t, data)):
            back = ref_text(t, data) if t not in (TIME,) else ref_text(t, data)
        elif ok == b"1" and t in (FLOAT, DOUBLE):
            back = ctx.call("b", "tostr", t, data)[1]
        if (ex == b"1") != (back == b) and t != NULL:
            raise Violation("%r is said %sto be exact in type %d, it reads back as %r" % (s, "" if ex == b"1" else "not ", t, back))

def in_range(t, data):
    v = struct.unpack(FMT[t], data)[0]
    return DLO <= v <= DHI if t == DATE else MLO <= v <= MHI
EXT = [x for x in range(24) if x not in (VARIANT, UNKNOWN, BLOB)]
canon = VALUE.filter(lambda v: v[0] not in (BLOB, BSTR, FLOAT, DOUBLE)).map(lambda v: (v[0], ref_text(*v).decode("utf-8", "surrogatepass")))
EXACT = st.lists(st.one_of(st.tuples(st.sampled_from(EXT), values.ANY.map(lambda s: s.replace("\0", ""))), canon, st.tuples(st.sampled_from(EXT), canon.map(lambda x: x[1]))), min_size=1, max_size=8)

SUBS = [
    Sub("text", "drv_utils", st.tuples(VALUE, BUFS, st.integers(0, 9)), text_oracle, 16000, nontrivial=lambda c: len(c[0][1]) > 0, label=lambda c: ["type%d" % c[0][0]], rule="value is not NULL"),
    Sub("limits", "drv_utils", st.tuples(LIMTEXT, st.integers(0, 9), st.integers(0, 80), st.one_of(st.none(), st.integers(-9, 9))), limit_oracle, 10000, nontrivial=lambda c: len(c[0][1]) > 0, label=lambda c: ["type%d" % c[0][0]], rule="text is not empty"),
    Sub("copy", "drv_utils", st.tuples(VALUE, st.integers(0, 9), st.integers(-12, 12)), copy_oracle, 8000, nontrivial=lambda c: len(c[0][1]) > 0, rule="value is not NULL"),
    Sub("sizes", "drv_utils", None, sizes, 0, fixed=all_sizes, rule="every declared length of a range"),
    Sub("exact", "drv_utils", EXACT, exact_oracle, 6000, nontrivial=lambda c: any(s for _, s in c), rule="some text is not empty"),
]
