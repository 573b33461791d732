"""C27: scanners, matcher and identifier helpers against reference implementations."""
import re
from hypothesis import strategies as st
from vlib.core import Sub, Violation

WS = " \t\n\v\f\r"
I32, I64, U64 = (-2**31, 2**31 - 1), (-2**63, 2**63 - 1), (0, 2**64 - 1)

def skip(s):
    return len(s) - len(s.lstrip(WS))

def ref_int(s, rng, signed=True):
    """(ok, value, cursor); the cursor of a failure may only have moved over leading white space"""
    k = skip(s)
    m = re.compile(r"-?[0-9]+" if signed else r"[0-9]+").match(s, k)
    if not m or not rng[0] <= int(m.group()) <= rng[1]:
        return (0, None, k)
    return (1, int(m.group()), m.end())

def ref_u64(s):
    k = skip(s)
    if s[k:k + 2] == "0x":
        m = re.compile("[0-9a-fA-F]+").match(s, k + 2)
        if not m or int(m.group(), 16) > U64[1]:
            return (0, None, k)
        return (1, int(m.group(), 16), m.end())
    return ref_int(s, U64, False)

def ref_x64(s):
    k = skip(s)
    m = re.compile("[0-9a-fA-F]+").match(s, k)
    if not m or int(m.group(), 16) > U64[1]:
        return (0, None, k)
    return (1, int(m.group(), 16), m.end())

def ref_ipv4(s):
    k = skip(s)
    m = re.compile(r"([0-9]+)\.([0-9]+)\.([0-9]+)\.([0-9]+)").match(s, k)
    if not m or any(int(g) > 255 for g in m.groups()):
        return (0, None, k)
    a, b, c, d = map(int, m.groups())
    return (1, a << 24 | b << 16 | c << 8 | d, m.end())

REFS = {"int": lambda s: ref_int(s, I32), "intw": lambda s: ref_int(s, I32), "i64": lambda s: ref_int(s, I64), "i64w": lambda s: ref_int(s, I64),
        "u64": ref_u64, "u64w": ref_u64, "x64": ref_x64, "ipv4": ref_ipv4}

def ref_str(s, sep, size):
    p = skip(s)
    q = p
    while q < len(s) and not (s[q] in WS if sep == " " else s[q] == sep):
        q += 1
    return s[p:q][:size - 1], q + (1 if q < len(s) else 0)

def ref_adv(mask, value):
    r = "".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in mask)
    return re.fullmatch(r, value, re.S) is not None

def ref_ident(s, style):
    out = ""
    if s and s[0].isdigit():
        out, s = "_" + s[0], s[1:]
    und, up, allup = "_" in style, "U" in style, "U!" in style
    need, i = up, 0
    while len(out) < 63 and i < len(s):
        c = s[i]
        if c.isalpha() or c == "_" or (out and c.isdigit()):
            out += c.upper() if need or allup else c
            if need or allup:
                need = False
            i += 1
        elif c in WS or c == "-":
            if und or c == "-":
                out += "_"
            elif up:
                need = True
            while i < len(s) and (s[i] in WS or s[i] == "-"):
                i += 1
        else:
            i += 1
    return out

def ref_getint(s):
    k = skip(s)
    m = re.compile(r"(-?)(?:0x([0-9a-fA-F]*)|([0-9]+))").match(s, k)
    if not m or (m.group(2) is not None and m.group(2) == ""):
        return -2**31
    v = int(m.group(2), 16) if m.group(2) is not None else int(m.group(3))
    return None if v > I32[1] else (-v if m.group(1) else v)

def ref_version(s):
    v, p = 0, 0
    for i in range(4):
        ok, x, q = ref_int(s[p:], I32)
        if not ok:
            break
        v |= min(255, max(0, x)) << (24 - 8 * i)
        p += q
        if s[p:p + 1] != ".":
            break
        p += 1
    return v

EDGE = [0, 1, 9, 10, 255, 256, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 10 * 2**64, 10**25]
num = st.one_of(st.sampled_from(EDGE), st.integers(0, 2**65), st.integers(0, 2**32), st.integers(0, 999))
ws = st.sampled_from(["", "", "", " ", "\t", "\n ", "\r\n", "  \v\f"])
tail = st.one_of(st.sampled_from(["", "", "", " ", "x", "-", ".", ".5", "9z", "e5", "\n", ":", "0x1", ","]), st.text(st.sampled_from("0123456789abcfxX-. "), max_size=5))
numtext = st.builds(lambda w, s, f, n, t: w + s + f % n + t, ws, st.sampled_from(["", "", "-", "--", "+", "- ", "0x", "0X", "-0x"]), st.sampled_from(["%d", "%d", "%x", "%X", "0%d", "000%d", "%x", "%016x", "%017x"]), num, tail)
hexnum = st.builds(lambda w, s, h, t: w + s + h + t, ws, st.sampled_from(["0x", "0x", "0x", "", "-0x", "0X"]), st.text(st.sampled_from("0123456789abcdefABCDEFfFgG"), min_size=1, max_size=17), tail)
junk = st.text(st.sampled_from("0123456789abcdefxgz-+. \t\n:,\u00e9"), max_size=12)
octet = st.one_of(st.integers(0, 255).map(str), st.sampled_from(["0", "255", "256", "999", "00", "007", "", "-1", " 1", "1 ", "a", "+1", "4294967296", "2147483648"]))
iptext = st.builds(lambda w, l, t: w + ".".join(l) + t, ws, st.one_of(st.lists(st.integers(0, 255).map(str), min_size=4, max_size=4), st.lists(octet, min_size=3, max_size=5)), tail)
words = st.text(st.sampled_from("ab1_ -;\t\n\"\u00e9,"), max_size=14)
mask = st.text(st.sampled_from("ab*?*c"), max_size=8)
val = st.text(st.sampled_from("aaabbc*?"), max_size=10)
plain_mask = st.text(st.sampled_from("abc.1*?[\\]^$+({\u00e9"), max_size=8)
identsrc = st.one_of(st.text(st.sampled_from("abzAZ019_ -\t!.\u00e9"), max_size=12), st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,70}", fullmatch=True), st.text(st.sampled_from("ab 1-"), min_size=55, max_size=75))
ITEM = st.one_of(
    st.tuples(st.sampled_from(sorted(set(REFS) - {"ipv4"})), st.one_of(numtext, numtext, junk)), st.tuples(st.sampled_from(sorted(set(REFS) - {"ipv4"})), numtext),
    st.tuples(st.sampled_from(["u64", "u64w", "x64", "getint"]), hexnum), st.tuples(st.sampled_from(["u64", "u64w"]), hexnum),
    st.tuples(st.just("ipv4"), st.one_of(iptext, iptext, junk)),
    st.tuples(st.sampled_from(["str", "strw"]), words, st.sampled_from([" ", " ", ",", ";", "\"", "\n", "\t", "a"]), st.integers(1, 16)),
    st.tuples(st.sampled_from(["scan", "scanw"]), st.builds(lambda w, a, t: w + a + t, ws, words, words), words),
    st.builds(lambda k, w, a, t: (k, w + a + t, a), st.sampled_from(["scan", "scanw"]), ws, words, words),
    st.tuples(st.just("spaces"), words), st.tuples(st.just("line"), words), st.tuples(st.just("go"), words, st.sampled_from(list("ab ;,\""))),
    st.tuples(st.just("adv"), mask, val), st.tuples(st.just("adv"), plain_mask, plain_mask), st.builds(lambda v, k: ("adv", v[:k] + "*" + v[k + 1:], v), val, st.integers(0, 9)),
    st.builds(lambda p, q, x, y: ("adv", p + "*" + q, p + x + q), mask, mask, val, val),
    st.tuples(st.just("getint"), st.one_of(numtext, junk)), st.tuples(st.just("version"), st.one_of(st.lists(st.one_of(st.integers(0, 300), st.integers(0, 2**31 - 1)), min_size=1, max_size=6).flatmap(lambda l: tail.map(lambda t: ".".join(map(str, l)) + t)), junk)),
    st.tuples(st.just("ident"), identsrc, st.sampled_from(["", "", "_", "U", "U!", "_U", "_U!"])), st.tuples(st.just("identlen"), identsrc),
    st.tuples(st.just("streq"), st.sampled_from(["~", "", "a", "b", "ab"]), st.sampled_from(["~", "", "a", "b", "ab"])),
    st.tuples(st.just("i64s"), st.one_of(st.integers(*I64), st.sampled_from([0, -1, 1, I64[0], I64[1], 10, -10, I64[0] + 1]))),
    st.tuples(st.just("eatend"), words, words), st.builds(lambda a, b: ("eatend", a + b, b), words, words),
    st.tuples(st.just("strwrite"), words, st.integers(0, 20), st.booleans()),
)
def oracle(ctx, items):
    items = [it for it in items if not any("\0" in x for x in it if isinstance(x, str))]
    args = ["b"]
    for it in items:
        args += list(it)
    out = ctx.call(*args)
    i = [0]
    def take(n):
        r = out[i[0]:i[0] + n]
        i[0] += n
        return r
    def ln(s):
        return len(s.encode())
    for it in items:
        k, s = it[0], it[1]
        if k in REFS:
            ok, v, adv = map(int, take(3))
            if k == "ipv4" and re.search(r"\d{4}", s):
                continue        # octets of more than three digits are not specified
            rok, rv, rp = REFS[k](s)
            if ok != rok or ok and (v != rv or adv != ln(s[:rp])) or not ok and adv not in range(0, ln(s[:rp]) + 1):
                raise Violation("%s(%r): result %d value %d cursor %d, expected %r" % (k, s, ok, v, adv, (rok, rv, rp)))
        elif k in ("str", "strw"):
            ok, adv, term, v = take(4)
            rv, rp = ref_str(s, it[2], it[3])
            b = s.encode()
            rvb, rpb = ref_str(b.decode("latin-1"), it[2], it[3])
            if (int(ok), int(adv), term, v) != (1 if rvb else 0, rpb, b"1", rvb.encode("latin-1")):
                raise Violation("ScanStr%r: result %r cursor %r value %r, expected %r" % (it[1:], ok, adv, v, (rv, rp)))
        elif k in ("scan", "scanw"):
            ok, adv = map(int, take(2))
            p = skip(s)
            rok = s[p:].startswith(it[2])
            if ok != rok or (adv != ln(s[:p] + it[2]) if ok else adv > p):
                raise Violation("Scan%r: result %d cursor %d" % (it[1:], ok, adv))
        elif k == "spaces":
            if [int(x) for x in take(2)] != [skip(s)] * 2:
                raise Violation("SkipSpaces(%r)" % s)
        elif k == "line":
            k1, p1, k2, p2 = map(int, take(4))
            e = s.find("\n")
            want = (1, ln(s[:e + 1])) if e >= 0 else (0, ln(s))
            if (k1, p1) != want or (k2, p2) != want:
                raise Violation("SkipLine(%r): %r, expected %r" % (s, (k1, p1, k2, p2), want))
        elif k == "go":
            ok, p = map(int, take(2))
            e = s.find(it[2])
            if (ok, p) != ((1, ln(s[:e + 1])) if e >= 0 else (0, ln(s))):
                raise Violation("Go%r: %d cursor %d" % (it[1:], ok, p))
        elif k == "adv":
            b = [x.encode().decode("latin-1") for x in it[1:]]
            if int(take(1)[0]) != ref_adv(*b):
                raise Violation("AdvEqual%r should be %s" % (it[1:], ref_adv(*b)))
        elif k == "getint":
            v = int(take(1)[0])
            r = ref_getint(s)
            if r is not None and v != r:
                raise Violation("GetInt(%r) gives %d, expected %d" % (s, v, r))
        elif k == "version":
            v = int(take(1)[0])
            if v != ref_version(s):
                raise Violation("GetVersion(%r) gives %08x, expected %08x" % (s, v, ref_version(s)))
        elif k == "ident":
            v = take(1)[0][1:].decode("latin-1")
            r = ref_ident("".join(c if ord(c) < 128 else "!" for c in s), it[2])
            if v != r:
                raise Violation("MakeIdent%r gives %r, expected %r" % (it[1:], v, r))
        elif k == "identlen":
            v = int(take(1)[0])
            m = re.match(r"[A-Za-z_][A-Za-z0-9_]*", s)
            if v != (m.end() if m else 0):
                raise Violation("GetIdentLen(%r) gives %d" % (s, v))
        elif k == "streq":
            v = int(take(1)[0])
            a, b = ["" if x == "~" else x for x in it[1:]]
            if v != (a == b):
                raise Violation("streq%r gives %d" % (it[1:], v))
        elif k == "i64s":
            v = take(1)[0]
            if v != b"=%d" % s:
                raise Violation("Int64ToStr(%d) gives %r" % (s, v))
        elif k == "eatend":
            ok, v = take(2)
            r = s.endswith(it[2])
            w = s[:len(s) - len(it[2])] if r else s
            if int(ok) != r or v[1:].decode() != w:
                raise Violation("EatEnd%r gives %s %r" % (it[1:], ok, v))
        elif k == "strwrite":
            ok, dadv, sadv, d = take(4)
            b = s.encode()
            if len(b) > it[2]:
                good = (ok, dadv, sadv) == (b"0", b"0", b"0") and not d.strip(b"\x55")
            else:
                good = (ok, int(dadv), int(sadv)) == (b"1", len(b), len(b)) and d == b + b"\x55" * (it[2] - len(b))
            if not good:
                raise Violation("StrWrite%r: %r" % (it[1:], (ok, dadv, sadv, d)))

SUBS = [
    Sub("scanners", "drv_utils", st.lists(ITEM, min_size=1, max_size=40), oracle, 12000, nontrivial=lambda l: len(l) > 3, label=lambda l: {x[0] for x in l}, rule="batch of more than three calls"),
]
