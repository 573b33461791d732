"""C25: base64 and hexadecimal codecs against Python's."""
import base64, uuid
from hypothesis import strategies as st
from vlib.core import Sub, Violation

RAW = st.one_of(st.binary(max_size=12), st.binary(max_size=100), st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=3), st.integers(0, 700)))
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
HX = "0123456789abcdefABCDEF"

def b64ref(src, n):
    """The longest prefix of alphabet characters decides: every complete byte of its bits, as many as fit."""
    bits, v = 0, 0
    for c in src:
        k = ALPHA.find(chr(c))
        if k < 0:
            break
        bits, v = bits << 6 | k, v + 1
    m = v * 6 // 8
    return (bits >> (v * 6 - 8 * m)).to_bytes(m, "big")[:n]

def hexref(s, n):
    out, p = bytearray(), 0
    while len(out) < n:
        q = p
        if s[q:q + 1] in ("-", " "):
            q += 1
        pair = s[q:q + 2]
        if len(pair) < 2 or pair[0] not in HX or pair[1] not in HX:
            return bytes(out), p, p < len(s) and s[p] in "- "
        out.append(int(pair, 16))
        p = q + 2
    return bytes(out), p, False

hextext = st.one_of(
    st.builds(lambda b, sep, up: (sep.join("%02x" % x for x in b)).upper() if up else sep.join("%02x" % x for x in b), st.binary(max_size=40), st.sampled_from(["", "-", " ", "", "--", ":"]), st.booleans()),
    st.binary(min_size=16, max_size=16).map(lambda b: str(uuid.UUID(bytes=b))),
    st.text(st.sampled_from(HX + HX + "- gG:x\n\u00e9"), max_size=60), st.text(st.sampled_from("0123456789abcdef"), max_size=60))
b64text = st.one_of(RAW.map(lambda b: base64.b64encode(b)), RAW.map(lambda b: base64.b64encode(b).rstrip(b"=")), st.binary(max_size=60),
                    st.builds(lambda b, c, p: base64.b64encode(b)[:p % (len(b) + 2)] + bytes([c]) + base64.b64encode(b)[p % (len(b) + 2):], RAW, st.integers(0, 255), st.integers(0, 10**6)))
ITEM = st.one_of(
    st.builds(lambda b, d: ("b64e", b, d), RAW, st.one_of(st.just(None), st.just(0), st.integers(-12, 6))),
    st.builds(lambda t, d: ("b64d", t, d), b64text, st.integers(-8, 8)),
    st.builds(lambda t, d: ("hex", t, d), hextext, st.integers(0, 44)), st.builds(lambda t, d: ("hex", t, (len(t) + 1) // 2 + d), hextext, st.integers(-1, 1).map(lambda x: max(0, x))),
    RAW.map(lambda b: ("hex2", b)), RAW.map(lambda b: ("hex3", b)), st.binary(min_size=16, max_size=16).map(lambda b: ("guid", b)),
    RAW.map(lambda b: ("round", b)),
)
def oracle(ctx, items):
    args = ["b"]
    for it in items:
        k = it[0]
        if k == "b64e":
            full = 4 * ((len(it[1]) + 2) // 3)
            n = 2 * full + 9 if it[2] is None else max(0, full + 1 + it[2])
            args += ["b64e", it[1], n]
        elif k == "b64d":
            args += ["b64d", it[1], max(0, len(it[1]) * 3 // 4 + it[2])]
        elif k == "hex":
            args += ["hex", it[1], it[2]]
        elif k == "round":
            e = base64.b64encode(it[1])
            args += ["b64d", e, len(it[1]), "hex", it[1].hex(), len(it[1])]
        else:
            args += [k, it[1]]
    out = ctx.call(*args)
    i = 0
    for it in items:
        k = it[0]
        if k == "b64e":
            ret, d = out[i:i + 2]
            i += 2
            ref = base64.b64encode(it[1])
            if ret != b"1":
                raise Violation("base64_encode did not return its buffer")
            if len(d) > len(ref):
                if d[:len(ref) + 1] != ref + b"\0":
                    raise Violation("base64_encode(%s) gives %r" % (it[1].hex(), d))
                if d[len(ref) + 1:].strip(b"\x55"):
                    raise Violation("base64_encode wrote after the terminator")
            else:
                w = d.split(b"\0")[0]
                if not ref.startswith(w) or len(w) < len(d) - 4:
                    raise Violation("base64_encode(%s) into %d bytes gives %r, not a prefix of %r" % (it[1].hex(), len(d), d, ref))
        elif k == "b64d":
            n = max(0, len(it[1]) * 3 // 4 + it[2])
            r, d = out[i:i + 2]
            i += 2
            ref = b64ref(it[1], n)
            if int(r) != len(ref) or d != ref + bytes(n - len(ref)):
                raise Violation("base64_decode(%r) into %d bytes gives %d bytes %s, expected %s" % (it[1], n, int(r), d.hex(), ref.hex()))
        elif k == "hex":
            c, d, adv = out[i:i + 3]
            i += 3
            ref, p, sep = hexref(it[1], it[2])
            p = len(it[1][:p].encode())
            if int(c) != len(ref) or d != ref + bytes(it[2] - len(ref)):
                raise Violation("ScanHex(%r,%d) gives %d bytes %s, expected %s" % (it[1], it[2], int(c), d.hex(), ref.hex()))
            if not (int(adv) == p or sep and int(adv) == p + 1):
                raise Violation("ScanHex(%r,%d) leaves the cursor at %d, consumed text ends at %d" % (it[1], it[2], int(adv), p))
        elif k == "round":
            r, d, c, h, adv = out[i:i + 5]
            i += 5
            if d != it[1] or int(r) != len(it[1]):
                raise Violation("base64 text of %s decodes to %s" % (it[1].hex(), d.hex()))
            if h != it[1] or int(c) != len(it[1]) or int(adv) != 2 * len(it[1]):
                raise Violation("hexadecimal text of %s scans as %s" % (it[1].hex(), h.hex()))
        elif k == "guid":
            if out[i] != b"=" + str(uuid.UUID(bytes=it[1])).encode():
                raise Violation("GUID %s prints as %r" % (it[1].hex(), out[i]))
            i += 1
        else:
            ref = it[1].hex() if k == "hex2" else "".join("%02X " % x for x in it[1])
            if out[i:i + 2] != [b"1", b"=" + ref.encode()]:
                raise Violation("%s(%s) prints %r" % (k, it[1].hex(), out[i + 1]))
            i += 2

SUBS = [
    Sub("codecs", "drv_utils", st.lists(ITEM, min_size=1, max_size=25), oracle, 6000, nontrivial=lambda l: any(len(x[1]) > 2 for x in l), label=lambda l: {x[0] for x in l}, rule="at least one input longer than two bytes"),
    Sub("lengths", "drv_utils", None, oracle, 0, fixed=lambda tier: [[("round", bytes((i * 7 + j) & 255 for j in range(n))), ("b64e", bytes((i * 5 + 3 * j + 1) & 255 for j in range(n)), d)] for n in range(0, 130) for i, d in ((0, 0), (31, -1), (77, 5))], rule="every length up to 129"),
]
