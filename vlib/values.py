"""Text values near every recogniser of the type detector."""
from hypothesis import strategies as st

DIG = "0123456789"
HEXD = "0123456789abcdefABCDEF"
def digits(lo, hi):
    return st.text(st.sampled_from(DIG), min_size=lo, max_size=hi)
EDGE_INT = [0, 1, 9, 10, 99, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 10**18, 10**19, 10**20]
ints = st.one_of(st.sampled_from(EDGE_INT), st.integers(0, 2**66), st.integers(0, 2**33), st.integers(0, 1000)).flatmap(
    lambda v: st.sampled_from(["%d", "-%d", "%d", "-%d", "+%d", "0%d", "00%d", "--%d", "%d-", "%d "])  .map(lambda f: f % v))
decimals = st.builds(lambda s, a, b: s + a + "." + b, st.sampled_from(["", "-", "", "+", "--", "0"]),
                     st.one_of(st.sampled_from(["0", "", "1", "2147483", "2147483647", "21474836", "-0", "1 "]), digits(1, 11)),
                     st.one_of(st.sampled_from(["0", "00", "5", "50", "483647", "483648", "999999999", "1234567890", ""]), digits(1, 11)))
floats = st.one_of(st.builds(lambda m, e, x: m + e + x, st.one_of(digits(1, 5), st.builds(lambda a, b: a + "." + b, digits(0, 6), digits(0, 12)), st.sampled_from(["-1.5", "1", "0.1", "-0"])),
                             st.sampled_from(["e", "E", "e-", "E+", "e+", "E-"]), st.one_of(digits(1, 4), st.sampled_from(["0", "1", "38", "39", "308", "309", "5"]))),
                   st.floats(allow_nan=True, allow_infinity=True).map(repr), st.floats(width=32).map(lambda f: "%.9g" % f), st.floats(width=32).map(lambda f: "%f" % f if abs(f) < 1e20 else "1"))
def fmt_date(y, m, d):
    return "%04d-%02d-%02d" % (y, m, d)
dates = st.one_of(st.builds(fmt_date, st.one_of(st.integers(0, 9999), st.integers(1960, 2110), st.sampled_from([1600, 1900, 1970, 2000, 2024, 2100, 0, 1, 9999])), st.integers(0, 13), st.integers(0, 32)),
                  st.sampled_from(["2000-02-29", "1900-02-29", "1900-02-28", "2024-12-31", "1970-01-01", "1969-12-31", "2038-01-19", "2106-02-07", "0000-00-00", "2019-2-3", "2020-1234-", "20-02-2020"]))
def fmt_time(h, mi, s):
    return "%02d:%02d:%02d" % (h, mi, s)
times = st.builds(lambda d, sep, t, tail: d + sep + t + tail, dates, st.sampled_from([" ", "T", "  ", "_", ""]),
                  st.builds(fmt_time, st.integers(0, 24), st.integers(0, 60), st.integers(0, 61)),
                  st.one_of(st.just(""), st.just(""), st.sampled_from([".", ".0", ".5", ".123", ".000", ".999", ".1234", "Z", "+01:00", " ", ",123"]), digits(3, 3).map(lambda d: "." + d)))
hexs = st.one_of(st.builds(lambda p, s: p + s, st.sampled_from(["0x", "0X", "", "#", "x"]), st.text(st.sampled_from(HEXD), max_size=44)),
                 st.text(st.sampled_from("0123456789abcdef"), min_size=40, max_size=40), st.text(st.sampled_from(HEXD), min_size=38, max_size=42),
                 st.text(st.sampled_from("0123456789ABCDEF"), min_size=40, max_size=40), st.text(st.sampled_from("0123456789abcdef"), max_size=300).map(lambda s: s if len(s) % 2 == 0 else s + "0"),
                 st.text(st.sampled_from("0123456789abcdef \n"), min_size=1, max_size=60))
def _guid(x, form):
    if form == 0:
        return "-".join((x[:8], x[8:12], x[12:16], x[16:20], x[20:]))
    if form == 1:
        return x
    if form == 2:
        return "{" + _guid(x, 0) + "}"
    if form == 3:
        return _guid(x, 0).upper()
    if form == 4:
        return x[:8] + "-" + x[8:]
    return _guid(x, 0)[:-1]
guids = st.builds(_guid, st.text(st.sampled_from("0123456789abcdef"), min_size=32, max_size=32), st.integers(0, 5))
sha1s = st.text(st.sampled_from("0123456789abcdef"), min_size=40, max_size=40)
ipv4s = st.one_of(st.lists(st.one_of(st.integers(0, 255), st.integers(0, 999)), min_size=3, max_size=5).map(lambda l: ".".join(map(str, l))),
                  st.lists(st.integers(0, 255), min_size=4, max_size=4).map(lambda l: ".".join(map(str, l))),
                  st.sampled_from(["1.2.3.4", "01.2.3.4", "255.255.255.255", "256.1.1.1", "0.0.0.0", "1..2.3", "1.2.3.", ".1.2.3", "1.2.3.4 ", "1234.5.6."]))
import ipaddress
def _ip6(v, form):
    a = ipaddress.IPv6Address(v)
    return (str(a), a.exploded, str(a).upper(), a.exploded.replace("0000", "0"), str(a) + "%eth0", "[" + str(a) + "]")[form]
ipv6s = st.one_of(st.builds(_ip6, st.one_of(st.integers(0, 2**128 - 1), st.integers(0, 2**32), st.sampled_from([0, 1, 0x20010db8 << 96, (0xfe80 << 112) + 5])), st.integers(0, 5)),
                  st.sampled_from(["::", "::1", "1::", "fe80::1", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2", ":", "1:2:3:4:5:6:7:8:9", "::ffff:1.2.3.4", "2001:db8::1:0:0:1"]))
import base64
b64s = st.one_of(st.binary(max_size=90).map(lambda b: base64.b64encode(b).decode()), st.binary(max_size=30).map(lambda b: base64.b64encode(b).decode().rstrip("=")))
def xml_ok(c):
    o = ord(c)
    return c in "\t\n" or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000
unicode_text = st.text(st.characters(codec="utf-8", exclude_categories=("Cs", "Cc"), exclude_characters="\ufffe\uffff"), max_size=30)
markup = st.text(st.sampled_from("<>&\"'ab ]/=;#x-!?\n\t\u00e9"), max_size=24)
words = st.sampled_from(["", "x", "true", "false", "null", "NULL", "NaN", "inf", "Infinity", "-inf", "abc", "hello world", "Petr", "0x", "-", ".", ":", "e", "E", "1e", "e1", "-e5", "1-2", "a" * 255, "b" * 256, "c" * 257, "d" * 4000,
                         "ů" * 130, "]]>", "&amp;", "&lt;", "<!--", "%s%n", "\\n", "\\", "/", "''", '""', "1 2", "1\n2", " ", "- 1", "1,5", "1.2.3", "12:30:00", "2020-01-01T00:00:00", "0b1", "1_000"])
spaced = st.builds(lambda a, s, b: a + s + b, st.sampled_from(["", " ", "\n", "\t", "  "]), st.one_of(ints, dates, words, decimals, hexs, ipv4s), st.sampled_from(["", " ", "\n", "\t "]))
ANY = st.one_of(ints, ints, decimals, decimals, floats, dates, times, times, hexs, guids, sha1s, ipv4s, ipv6s, b64s, unicode_text, markup, words, spaced)
CLASSES = dict(int=ints, decimal=decimals, float=floats, date=dates, time=times, hex=hexs, guid=guids, sha1=sha1s, ipv4=ipv4s, ipv6=ipv6s, b64=b64s, unicode=unicode_text, markup=markup, word=words, spaced=spaced)
