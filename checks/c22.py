"""C22: calendar conversions against an independent calendar."""
import struct
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import cal

YLO, YHI = -365749, 369689
DLO, DHI = cal.to_days(YLO, 1, 1), cal.to_days(YHI, 12, 31)
T_DATE, T_TIME, T_MSEC = 18, 11, 16

# --- every day of a block, both directions
def block(ctx, case):
    lo, n = case
    ref = [cal.date_text(lo + i) for i in range(n)]
    got, scanned = ctx.call("b", "d2s", lo, n, 1, "udates", "\n".join(ref) + "\n")
    got = got.decode().split("\n")[:-1]
    for i in range(n):
        if got[i] != ref[i]:
            raise Violation("day %d prints as %s, calendar says %s" % (lo + i, got[i], ref[i]))
    for i, l in enumerate(scanned.decode().split("\n")[:-1]):
        v, adv = l.split()
        if int(v) != lo + i or int(adv) != len(ref[i]):
            raise Violation("%s scans as day %s (%s characters), calendar says %d (%d)" % (ref[i], v, adv, lo + i, len(ref[i])))

def blocks(tier):
    n = 4000
    span = 220 if tier == "quick" else 1100
    return [(k * n, n) for k in range(-span, span)]

# --- single conversions
def days():
    return st.one_of(st.integers(DLO, DHI), st.integers(-200000, 200000),
                     st.builds(lambda y, md, o: min(DHI, max(DLO, cal.to_days(y, md[0], min(md[1], cal.mdays(y, md[0]))) + o)), st.one_of(st.integers(YLO, YHI), st.integers(1500, 2500), st.integers(-9, 10).map(lambda k: k * 400), st.integers(-30, 40).map(lambda k: k * 100)),
                               st.sampled_from([(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (12, 30)]), st.integers(-1, 1)))
def wide_days():
    return st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1, -2**31 + 10956, -2**31 + 10957, 2**31 - 10957, 0, -1]), days())
secs = st.one_of(st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 86399, 86400, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 86400]),
                 st.builds(lambda d, s: max(0, min(2**32 - 1, d * 86400 + s)), st.integers(0, 49710), st.sampled_from([0, 1, 59, 60, 3599, 3600, 86399])))
MLO, MHI = DLO * 86400000, (DHI + 1) * 86400000 - 1
msecs = st.one_of(st.integers(MLO, MHI), st.integers(-10**14, 10**14), st.integers(0, 2**32 * 1000), st.integers(-10**7, 10**7), st.sampled_from([0, -1, 1, -1000, -999, -86400000, -86400001, 2**32 * 1000, 2**32 * 1000 - 1, 2**31 * 1000, MLO, MHI]),
                  st.builds(lambda d, m: d * 86400000 + m, days(), st.sampled_from([0, 1, 999, 1000, 86399999, 43200000])))
zones = st.one_of(st.none(), st.just("Z"), st.builds(lambda s, h, m: "%s%02d:%02d" % (s, h, m), st.sampled_from("+-"), st.integers(0, 23), st.integers(0, 59)))
ITEM = st.one_of(
    wide_days().map(lambda d: ("d2s", d)),
    days().map(lambda d: ("date", d)),
    st.builds(lambda s, sep, form: ("time", s, sep, form), secs, st.sampled_from(" T"), st.sampled_from(["full", "full", "date", "hour"])),
    st.builds(lambda m, sep, form, z, more: ("msec", m, sep, form, z, more), msecs, st.sampled_from(" TT"), st.sampled_from(["ms", "ms", "full", "date", "hour"]), zones, st.sampled_from(["", "", "0", "123", "999999"])),
    msecs.map(lambda m: ("t2s", m)),
    st.builds(lambda t, v: ("typed", t, v), st.just(T_DATE), days()), st.builds(lambda t, v: ("typed", t, v), st.just(T_TIME), secs), st.builds(lambda t, v: ("typed", t, v), st.just(T_MSEC), msecs),
)
FMT = {T_DATE: "<i", T_TIME: "<I", T_MSEC: "<q"}

def ms_text(m, sep=" "):
    s, ms = divmod(m, 1000)
    return cal.time_text(s, sep) + ".%03d" % ms

def cases(ctx, items):
    args, want = ["b"], []
    for it in items:
        k = it[0]
        if k == "d2s":
            args += ["d2s", it[1], 1, 1]
            want.append((it, [cal.date_text(it[1]) + "\n"]))
        elif k == "date":
            t = cal.date_text(it[1])
            args += ["udate", t]
            want.append((it, [1, it[1], len(t)]))
        elif k == "time":
            s = it[1]
            if it[3] == "date":
                s -= s % 86400
                t = cal.date_text(s // 86400)
            elif it[3] == "hour":
                s -= s % 3600
                t = cal.time_text(s, it[2])[:-6]
            else:
                t = cal.time_text(s, it[2])
            args += ["utime", t]
            want.append(((it, t), [1, s, len(t)]))
        elif k == "msec":
            m, sep, form, z, more = it[1:]
            tail = ""
            if form == "date":
                m -= m % 86400000
                t = cal.date_text(m // 86400000)
            elif form == "hour":
                m -= m % 3600000
                t = cal.time_text(m // 1000, sep)[:-6]
            elif form == "full":
                m -= m % 1000
                t = cal.time_text(m // 1000, sep)
            else:
                t = ms_text(m, sep)
                if sep == "T":
                    tail = more
            if sep == "T" and z and form == "ms":
                tail += z
                if z != "Z":
                    o = (int(z[1:3]) * 60 + int(z[4:6])) * 60000
                    m += -o if z[0] == "+" else o
            t += tail
            args += ["utime64", t]
            want.append(((it, t), [1, m, len(t)]))
        elif k == "t2s":
            args += ["t2s", it[1]]
            want.append((it, ["=" + ms_text(it[1])]))
        else:
            t, v = it[1:]
            text = cal.date_text(v) if t == T_DATE else cal.time_text(v) if t == T_TIME else ms_text(v)
            raw = struct.pack(FMT[t], v)
            args += ["tostr", t, raw, "from", text, t, 0, 64]
            n = len(raw)
            want.append((it, ["=" + text, text, text, text, 1, n, raw, n]))
    out = ctx.call(*args)
    i = 0
    for what, w in want:
        g = out[i:i + len(w)]
        i += len(w)
        w = [x if isinstance(x, bytes) else str(x).encode() for x in w]
        if g != w:
            raise Violation("%r: got %r, calendar says %r" % (what, g, w))

# --- texts that are not dates
def bad_date(y, kind, m, d, o):
    md = cal.mdays(y, m)
    return {"month0": "%04d-00-%02d" % (y, 1 + d % 28), "month13": "%04d-%02d-%02d" % (y, 13 + o, 1 + d % 28), "day0": "%04d-%02d-00" % (y, m), "day+": "%04d-%02d-%02d" % (y, m, md + 1 + o),
            "feb29": "%04d-02-29" % (y if not cal.leap(y) else y + 1), "sep": "%04d%s%02d-%02d" % (y, "/.:_"[o % 4], m, md), "sep2": "%04d-%02d%s%02d" % (y, m, "/.:_"[o % 4], md), "short": "%04d-%02d" % (y, m), "short2": "%04d-%02d-" % (y, m), "short3": "%04d" % y, "short4": "%04d-" % y,
            "alpha": "%04d-%02d-x%d" % (y, m, md), "alpha2": "x%04d-%02d-%02d" % (y, m, md), "empty": ""}[kind]
DKINDS = ["month0", "month13", "day0", "day+", "day+", "feb29", "feb29", "sep", "sep2", "short", "short2", "short3", "short4", "alpha", "alpha2", "empty"]
bads = st.one_of(
    st.builds(lambda y, k, m, d, o, f: (f, bad_date(y, k, m, d, o) + ("" if f == "udate" or k == "empty" else " 10:20:30")), st.one_of(st.integers(1970, 2105), st.sampled_from([2000, 2100, 1999, 2023, 2024])), st.sampled_from(DKINDS), st.integers(1, 12), st.integers(0, 30), st.integers(0, 68), st.sampled_from(["udate", "utime", "utime64"])),
    st.builds(lambda s, k, f: (f, cal.time_text(s)[:11] + k), secs, st.sampled_from(["24:00:00", "23:60:00", "23:59:60", "23:59:99", "99:00:00", "-1:00:00", "10:-5:00", "10:00:-3", "10:20", "10:20:", "10:", ":20:30", "x", "", "10.20.30", "10:20.30", "-01:00:00"]), st.sampled_from(["utime", "utime64"])),
    st.builds(lambda s, k: ("utime64", cal.time_text(s, "T") + k), secs, st.sampled_from([".", ".1", ".12", ".x", ".123+", ".123+1", ".123+01", ".123+01:", ".123-01:x", ".123+24:00", ".123+01:60", ".123+xx:00", ".123-01-30", ".-12"])),
    st.builds(lambda y: ("utime", "%04d-06-15 01:02:03" % y), st.one_of(st.integers(-9999, 1969), st.integers(2107, 99999), st.sampled_from([1969, 1900, 0, 2107, 6055, 4294967296, 99999999999999999999]))),
    st.builds(lambda s: ("utime", cal.time_text(s)), st.integers(2**32, 2**32 + 400 * 86400)),
    st.builds(lambda y, f: (f, "%04d-06-15" % y), st.one_of(st.integers(YHI + 1, 10**7), st.integers(-10**7, YLO - 1), st.sampled_from([YHI + 1, YLO - 1, 2**31 + 2000, 2**32 + 2000, 2**64 + 2000])), st.sampled_from(["udate", "utime", "utime64"])),
)
def rejects(ctx, items):
    out = ctx.call("b", *[x for f, t in items for x in (f, t)])
    for i, (f, t) in enumerate(items):
        ok, v, adv = out[3 * i:3 * i + 3]
        if ok != b"0":
            raise Violation("%s accepted %r as %s" % (f, t, v.decode()))

SUBS = [
    Sub("calendar", "drv_utils", None, block, 0, fixed=blocks, rule="block of 4000 consecutive days, each printed and scanned"),
    Sub("points", "drv_utils", st.lists(ITEM, min_size=1, max_size=40), cases, 4000, nontrivial=lambda l: len(l) > 3, label=lambda l: {x[0] for x in l}, rule="batch of more than three conversions"),
    Sub("rejects", "drv_utils", st.lists(bads, min_size=1, max_size=30), rejects, 2000, nontrivial=lambda l: len(l) > 3, label=lambda l: {x[0] for x in l}, rule="batch of more than three texts that are no dates"),
]
