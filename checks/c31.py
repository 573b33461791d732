"""C31: a converted file says what it was made from."""
import struct, json
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X
from checks.c28 import ref_name
from checks import c19 as T

TSYM, PSYM, PAYLOAD = -3, -4, -6

def fits(tool, ext):
    """Tools which take the source."""
    if tool == "getxb":
        return ext != "json"
    if tool == "byname":
        return True
    return True

def out_of(src):
    return src.rsplit(".", 1)[0] + ".xb"

def oracle(ctx, case):
    sources, steps = case
    a = ["seq"]
    texts, mt, made = {}, {}, {}
    for d in sorted({n.rsplit("/", 1)[0] for n, _ in sources if "/" in n} | {"out"}):
        cur = ""
        for x in d.split("/"):
            cur += x
            a += ["mkdir", cur]
            cur += "/"
    for n, t in sources:
        a += ["file", n, t, "mtime", n, 1000000000]
        texts[n], mt[n] = t, 1000000000
    want = []                       # of every "head" and its position
    for st_ in steps:
        op = st_[0]
        if op == "conv":
            _, k, tool, dst = st_
            n = sources[k % len(sources)][0]
            if n not in texts:
                continue
            ext = n.rsplit(".", 1)[1]
            if tool in ("getxb", "byname"):
                if tool == "getxb" and ext == "json":
                    tool = "byname"
                dst = out_of(n)
                a += ["byname", "getxb" if tool == "getxb" else "open", n]
                want.append(("made", None, 2))
            else:
                a += ["conv", tool, n, dst]
                want.append(("made", None, 1))
            made[dst] = (n, mt[n], len(names_of(texts[n])) if ext != "json" else None)
            a += ["head", dst]
            want.append(("head", (dst, made[dst]), None))
        elif op == "touch":
            n = sources[st_[1] % len(sources)][0]
            if n in texts:
                a += ["mtime", n, st_[2]]
                mt[n] = st_[2]
        elif op == "edit":
            n = sources[st_[1] % len(sources)][0]
            if n in texts and n.rsplit(".", 1)[1] != "json":
                texts[n] = st_[2]
                a += ["file", n, st_[2], "mtime", n, st_[3]]
                mt[n] = st_[3]
        elif op == "gone":
            n = sources[st_[1] % len(sources)][0]
            if n in texts:
                del texts[n]
                a += ["unlink", n]
        elif op == "move" and made:
            d = sorted(made)[st_[1] % len(made)]
            to = "out/moved%d.xb" % (st_[1] % 3)
            if to != d:
                made[to] = made.pop(d)
                a += ["rename", d, to]
        elif op == "look" and made:
            d = sorted(made)[st_[1] % len(made)]
            a += ["head", d]
            want.append(("head", (d, made[d]), None))
    for d in sorted(made):
        a += ["head", d]
        want.append(("head", (d, made[d]), None))
    b = ctx.call(*a)
    pos = 0
    for kind, info, n in want:
        if kind == "made":
            if b[pos] != b"1":
                raise Violation("conversion failed")
            pos += n
            continue
        dst, (src, t, tags) = info
        pos = head(b, pos, dst, src, t, tags)
    if pos != len(b):
        raise Violation("internal: %d of %d answers read" % (pos, len(b)))

def head(b, pos, dst, src, t, tags):
    if b[pos] != b"1":
        raise Violation("%s from %s cannot be opened" % (dst, src))
    f = b[pos + 1:pos + 4 + 8 + 2 + 12 + 2 + 2 + 2]
    n = [int(x) for x in f[:3]]
    if n[0] != -2:
        raise Violation("head of %s is element %d" % (dst, n[0]))
    vt, vd, nt, nd, mt, md, ht, hd = f[3:11]
    if int(vt) != T.INT32 or f[12] != b[pos + 32] or vd != b"=" + struct.pack("<i", int(f[12])):
        raise Violation("%s: version is type %s, %r" % (dst, vt, f[12]))
    ref = ref_name(src, None, None).encode()
    if int(nt) != T.STRING or f[11] != b"=" + ref or nd.rstrip(b"\0") != b"=" + ref:
        raise Violation("%s: name of source is %r, expected %r" % (dst, f[11], ref))
    if int(mt) != T.TIME or md != b"=" + struct.pack("<I", t):
        raise Violation("%s: time of source is %r, expected %d" % (dst, md, t))
    if int(ht) != T.SHA1 or len(hd) != 21:
        raise Violation("%s: hash is type %s, %r" % (dst, ht, hd))
    g = [int(x) for x in f[13:25]]
    for k, what in enumerate(("table of elements", "table of attributes", "content")):
        ok, at, x, y = g[4 * k:4 * k + 4]
        if not ok or at < 0 or x != y:
            raise Violation("%s: %s: found %d at %d, %d and %d" % (dst, what, ok, at, x, y))
    if len({g[1], g[5], g[9]}) != 3:
        raise Violation("%s: parts are at %r" % (dst, (g[1], g[5], g[9])))
    if tags is not None and g[2] != tags:
        raise Violation("%s: %d names of elements, source has %d" % (dst, g[2], tags))
    if [int(x) for x in f[25:27]] != [1, 1]:
        raise Violation("%s: absent parts of the head were found" % dst)
    if [int(x) for x in f[27:29]] != [1, 1]:
        raise Violation("%s: pointers into the file do not translate back" % dst)
    if b[pos + 31] != b"=" + dst.encode():
        raise Violation("%s: reader says its name is %r" % (dst, b[pos + 31]))
    if int(b[pos + 30]) <= 0:
        raise Violation("%s: size is %s" % (dst, b[pos + 30]))
    return pos + 33

def names_of(text):
    s = set()
    st_ = [X.parse(text)]
    while st_:
        e = st_.pop()
        s.add(e.name)
        st_ += e.children
    return s

@st.composite
def cases(draw):
    part = st.one_of(st.sampled_from(["a", "dir.d", "b c", "\u00e9\u4e2d", "x" * 100, "n" * 240, "..a"]), st.from_regex(r"[a-z][a-z0-9._-]{0,7}", fullmatch=True))
    srcs = []
    for i in range(draw(st.integers(1, 3))):
        d = draw(st.lists(part, max_size=4))
        stem = draw(st.one_of(part, st.sampled_from(["doc", "v1.2"])))
        ext = draw(st.sampled_from(["xml", "xml", "xsd", "wsdl", "json"]))
        n = draw(st.sampled_from(["", "", "", "./"])) + "/".join(["s%d" % i + (x if len(x) < 200 else x[:200]) for x in d] + ["f%d%s.%s" % (i, stem, ext)])
        t = json.dumps(draw(st.dictionaries(st.sampled_from("abc"), st.integers(0, 99), min_size=1))) if ext == "json" else draw(X.documents(X.SAFE_VALUES, max_nodes=8))
        srcs.append((n, t))
    time = st.one_of(st.integers(0, 2**31 - 1), st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 86399, 951782400]))
    steps = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(["conv", "conv", "conv", "touch", "edit", "gone", "move", "look"]))
        k = draw(st.integers(0, 5))
        if op == "conv":
            steps.append((op, k, draw(st.sampled_from(["plain", "pack", "all", "static", "getxb", "byname"])), draw(st.sampled_from(["o.xb", "out/p.xb", "out/q.r.xb"]))))
        elif op == "touch":
            steps.append((op, k, draw(time)))
        elif op == "edit":
            steps.append((op, k, draw(X.documents(X.SAFE_VALUES, max_nodes=5)), draw(time)))
        else:
            steps.append((op, k))
    return srcs, [("touch", 0, draw(time)), ("conv", 0, "plain", "o.xb")] + steps

SUBS = [Sub("head", "drv_xml", cases(), oracle, 1500, nontrivial=lambda c: len([s for s in c[1] if s[0] == "conv"]) > 1, rule="more than one conversion in the history",
            label=lambda c: {s[2] for s in c[1] if s[0] == "conv"} | {s[0] for s in c[1]})]
