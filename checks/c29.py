"""C29: failures of the file system are reported: a call either does everything it does without the fault, or it says it failed."""
import hashlib, json, random
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X, values as V, jsongen as J
from vlib.bwmachine import *
from vlib.bwread import *
from checks import c14, c15

READ, WRITE, OPEN, MMAP, TRUNC, STAT, CLOSE, MUNMAP, MKDIR, OPENDIR = [1 << i for i in range(10)]
ALL = 1023
KINDS = ["read", "write", "open", "mmap", "ftruncate", "stat", "close", "munmap", "mkdir", "opendir"]
MODE = st.sampled_from([0, 0, 1, 1, 2, 3, 4])
ASSUMPTIONS = ["faults are put under the calls of the library itself (--wrap): read, write, open, creat, mmap, munmap, ftruncate, stat, fstat, close, mkdir, opendir; calls made inside of libc and libxml2 meet real limits only (RLIMIT_FSIZE)",
               "close and munmap which report an error have done their work"]

def what(mode, kind, at):
    return "%s %s (call %d)" % (KINDS[kind] if kind >= 0 else "nothing", ["fails once", "fails from now on", "is done partly", "is done partly, then fails", "is interrupted"][mode], at)

# --- conversion --------------------------------------------------------------------------------------------------------
TOOLS = ["plain", "all", "static", "pack", "xbw", "xbwall", "getxb"]
AT = list(range(14))
JSON = J.trees(st.text(st.sampled_from("abcd"), min_size=1, max_size=3), J.strings(), root="o", leaves=15).map(lambda t: bytes(J.Render(("o", [("root", t)]), None).b))
SRC = st.one_of(X.documents(V.ANY, max_nodes=15).map(lambda t: ("xml", t.encode())), X.documents(V.ANY, max_nodes=15).map(lambda t: ("xml", t.encode())), JSON.map(lambda b: ("json", b)),
                st.tuples(st.integers(0, 6), st.integers(100, 1500), st.integers(0, 99)).map(lambda c: ("xml", big(*c).encode())))

def big(k, n, m):
    from checks.c18 import many
    return many(k, n, m)

def convert(ctx, c):
    (ext, data), tool, mode, mask, limits, prior = c
    tool = TOOLS[tool % len(TOOLS)]
    if ext == "json" and tool == "getxb":
        tool = "pack"
    w = tool.startswith("xbw")
    src, ref, dst = "doc." + ext, ("ref.xbw" if w else "doc.xb"), ("dst.xbw" if w else "doc.xb")
    a = ["seq", "file", src, data, "mtime", src, 5000, "conv", tool, src, ref, "read", ref] + (["printw", ref] if w else ["open", ref, 2])
    r = ctx.call(*a)
    if r[0] != b"1":
        ctx.note("refused without faults")
        return
    good, dump = r[1], r[2:]
    show = ["printw", dst] if w else ["open", dst, 2]
    a, ats = ["seq", "file", src, data, "mtime", src, 5000], list(AT)
    for at in ats:
        a += ["unlink", dst] if prior == 0 else ["file", dst, b"old" * 50] if prior == 1 else []
        a += ["arm", at, mode, mask, "conv", tool, src, dst, "disarm", "read", dst]
    for l in limits:
        a += ["unlink", dst, "flimit", l * len(good) // 1000, "conv", tool, src, dst, "flimit", -1, "read", dst]
    a += ["unlink", dst, "conv", tool, src, dst, "read", dst]
    b = ctx.raw(*a)
    i = 0
    for at in ats:
        if len(b.blobs) < i + 4:
            raise Violation("%s: died when a call number %d of kinds %x fails (%d): %s" % (tool, at, mask, mode, b.describe()))
        res, n, kind, after = b.blobs[i:i + 4]
        i += 4
        kind = int(kind)
        f = what(mode, kind, at)
        ctx.note("%s: %s" % (KINDS[kind] if kind >= 0 else "no fault", "refused" if res == b"0" else "done"))
        if kind < 0 and res != b"1":
            raise Violation("%s: failed without a fault" % tool)
        if res == b"1" and after != good and not w and not (kind >= 0 and 1 << kind & STAT):
            raise Violation("%s: %s, success is reported but the result is different (%d bytes, without faults %d)" % (tool, f, len(after) - 1, len(good) - 1))
        if after not in (good, b"~", b"=") and after != b"=" + b"old" * 50 and (not w or res == b"1"):        # what is left is not taken for another document
            t = ctx.call("seq", "file", src, data, "file", dst, after[1:], *show)
            if t[0] == b"1" and t != dump or t[0] != b"1" and res == b"1":
                raise Violation("%s: %s, what is left opens with a different content" % (tool, f))
    for l in limits:
        if len(b.blobs) < i + 2:
            raise Violation("%s: died when files cannot be longer than %d of %d bytes: %s" % (tool, l * len(good) // 1000, len(good) - 1, b.describe()))
        res, after = b.blobs[i:i + 2]
        i += 2
        ctx.note("limit: %s" % ("refused" if res == b"0" else "done"))
        if res == b"1" and after != good and not w:
            raise Violation("%s: success is reported when files cannot be longer than %d of %d bytes" % (tool, l * len(good) // 1000, len(good) - 1))
        if (not w or res == b"1") and after not in (good, b"~", b"="):
            t = ctx.call("seq", "file", src, data, "file", dst, after[1:], *show)
            if t[0] == b"1" and t != dump or t[0] != b"1" and res == b"1":
                raise Violation("%s: files cannot be longer than %d of %d bytes, what is left opens with a different content" % (tool, l * len(good) // 1000, len(good) - 1))
    if len(b.blobs) < i + 2 or not b.ok:
        raise Violation("%s: died: %s" % (tool, b.describe()))
    if b.blobs[i] != b"1" or b.blobs[i + 1] != good:
        raise Violation("%s: conversion after all the faults %s" % (tool, "failed" if b.blobs[i] != b"1" else "has different result"))

MASK = st.sampled_from([ALL, ALL, ALL, READ | WRITE, WRITE, READ, OPEN | MMAP | TRUNC])
CONV = st.tuples(SRC, st.integers(0, 6), MODE, MASK, st.lists(st.integers(0, 1100), max_size=4), st.integers(0, 2))

# --- reading -----------------------------------------------------------------------------------------------------------
def reading(ctx, c):
    (ext, data), direct, mode, mask = c
    src = "doc." + ext
    a = ["seq", "file", src, data, "mtime", src, 5000, "conv", "plain", src, "doc.xb", "open", "doc.xb", 2]
    r = ctx.call(*a)
    if r[0] != b"1":
        return
    dump = r[1:]
    for at in AT:
        fn = "doc.xb" if direct else src
        b = ctx.raw(*a, "arm", at, mode, mask, "open", fn, 2, "disarm", "open", fn, 2)
        if not b.ok:
            raise Violation("opening of %s with call %d of kinds %x failing (%d): died: %s" % (fn, at, mask, mode, b.describe()))
        rest = b.blobs[len(r):]
        one = len(dump) if rest[0] == b"1" else 1
        kind = int(rest[one + 1])
        ctx.note("%s: %s" % (KINDS[kind] if kind >= 0 else "no fault", "refused" if rest[0] != b"1" else "opened"))
        if rest[0] == b"1" and rest[:one] != dump:
            raise Violation("%s, %s is opened with a different content" % (what(mode, kind, at), fn))
        if kind < 0 and rest[0] != b"1":
            raise Violation("%s is refused without a fault" % fn)
        if rest[one + 2:] != dump:
            raise Violation("%s, opening of %s after that %s" % (what(mode, kind, at), fn, "failed" if rest[one + 2] != b"1" else "gives a different content"))

# --- appending ---------------------------------------------------------------------------------------------------------
class Faulty(c14.History):
    faults = ()
    def write(self, o, e, how):
        S = self.S
        for x in rot(e):
            self.nf = getattr(self, "nf", 0)
            at, mode, mask, room = self.faults[self.nf % len(self.faults)]
            self.nf += 1
            got = []
            S.op("read", o.fn, out=[lambda b, got=got: got.append(b)])
            if mode == 5:   # no space on the disk
                S.op("flimit_rel", o.fn, room, out=[])
            else:
                S.op("arm", at, mode, mask, out=[])
            S.op("append", o.k, x.h, out=[lambda b, got=got: got.append(b)])
            S.op("flimit", -1, out=[]) if mode == 5 else S.op("disarm", out=[ANY, ANY])
            def after(b, got=got, o=o, x=copy_of(x), mode=mode):
                before, res = got[0], got[1]
                self.note("append under a fault: %s" % ("done" if res == b"1" else "refused"))
                if res == b"1":
                    if len(b) <= len(before) or not b.startswith(before):
                        return "append reports success but the file has %d bytes after %d" % (len(b), len(before))
                    o.el.kids.append(x)
                elif b != before:
                    return "failed append changed the file from %d to %d bytes" % (len(before) - 1, len(b) - 1)
            S.op("read", o.fn, out=[after])
            # what is there is decided at run time
            S.op("append", o.k, x.h)
            S.op("read", o.fn, out=[lambda b, o=o, x=copy_of(x): o.el.kids.append(x)])

    def look(self, o, keep=False):
        r = self.nr = self.nr + 1
        self.S.op("ropen", r, o.fn)
        self.S.op("rdump", r, 2, out=[lambda b, o=o: c14.Out.expected(o)(b)])
        self.S.op("rclose", r)

copy_of = c14.copy

def appending(ctx, case):
    types, ops, pos, hist, faults = case
    H = Faulty(types, pos)
    H.faults = faults
    H.M.begin()
    H.build(ops)
    H.create(pos, 0)
    for op in hist:
        H.step(op)
    H.look(H.outs[0])
    H.S.run(ctx)
    for n in H.notes:
        ctx.note(n)

FAULT = st.tuples(st.integers(0, 3), st.one_of(MODE, st.just(5)), st.sampled_from([ALL, WRITE, WRITE, STAT, OPEN]), st.integers(0, 200))
APPEND = st.tuples(TYPES, st.lists(op_strategy(c14.BUILD), max_size=8), IDX, c14.hist(("batch", "batch", "batch", "edit", "look"), SMALLB, SMALLS, 5), st.lists(FAULT, min_size=1, max_size=8))

# --- opening of .xbw ---------------------------------------------------------------------------------------------------
def reopen(ctx, case):
    types, ops, faults, flags = case
    M = Machine(types, verify=False)
    M.begin()
    for op in ops:
        M.step(op)
    S, D = M.S, M.D
    tree = D.dump(D.root)
    S.op("tree", 0, out=[tree])
    S.op("arm", -1, 0, ALL, out=[])
    S.op("fin", 0)
    S.op("disarm", out=[ANY, ANY])
    got = []
    S.op("read", M.fn, out=[got.append])
    for at, mode, mask in faults:
        S.op("arm", at, mode, mask, out=[])
        res = []
        S.op("new", 1, M.fn, M.pool, 0, out=[lambda b, res=res: res.append(b)])
        def hit(b, res=res):
            ctx.note("%s: %s" % (KINDS[int(b)] if int(b) >= 0 else "no fault", "refused" if res[0] == b"0" else "opened"))
            if int(b) < 0 and res[0] != b"1":
                return "refused without a fault"
        S.op("disarm", out=[ANY, hit])
        S.op("drop", 1, out=[])
        S.op("read", M.fn, out=[lambda b: None if b == got[0] else "file changed by opening"])
        S.op("new", 2, M.fn, M.pool, 0)
        S.op("tree", 2, out=[tree])
        S.op("dict", 2, out=D.dict())
        S.op("fin", 2)
    for i, (at, mode, mask) in enumerate(faults):     # a new file which cannot be created
        res, fn = [], "fresh%d.xbw" % i
        S.op("arm", at, mode, mask, out=[])
        S.op("new", 1, fn, M.pool, 0, out=[lambda b, res=res: res.append(b)])
        S.op("disarm", out=[ANY, ANY])
        S.op("drop", 1, out=[])
        S.op("new", 3, fn, M.pool, 0)
        S.op("regT", 3, 0, "r", T.NULL, out=[lambda b, res=res: None if b == b"1" or res[0] == b"1" else "registering in a file which could not be created before failed"])
        S.op("fin", 3)
    S.run(ctx)
REOPEN = st.tuples(TYPES, st.lists(op_strategy(c14.BUILD), max_size=12), st.lists(st.tuples(st.integers(0, 5), MODE, st.sampled_from([ALL, ALL, OPEN, MMAP, TRUNC, STAT])), min_size=1, max_size=6), st.just(0))

# --- growing -----------------------------------------------------------------------------------------------------------
FOP = st.tuples(st.sampled_from(["el", "size", "size", "fill", "fill", "at", "name", "name", "clear"]), st.integers(0, 2), st.integers(0, 30), c15.SIZE, st.integers(0, 30), st.integers(0, 2**31 - 1), c15.PAT, st.sampled_from([0, 0, 1, 1, 2]))
GROW = st.tuples(st.lists(c15.LIMIT, min_size=1, max_size=2), st.lists(FOP, min_size=5, max_size=40))

# --- small functions ---------------------------------------------------------------------------------------------------
def helpers(ctx, c):
    data, mode, mask, names = c
    sha = hashlib.sha1(data).digest()
    text = data.replace(b"\0", b".").replace(b"%", b".")
    a = ["b"]
    ops = []
    files = {n: data[:i * 7] for i, n in enumerate(names)}
    a += ["put", "f", data, "mkdir", "d"]
    for n in files:
        a += ["put", "d/" + n, files[n]]
    head = 2 + len(files)
    def ok_rfile(b):
        if b[0] == b"1" and (b[1] != str(len(data)).encode() or b[2] != data + b"\0"):
            return "ReadFile gives %d bytes of %d" % (len(b[2]) - 1, len(data))
    def ok_contents(b):
        n = int(b[0])
        if n >= 0 and (n > len(data) or b[1] != data[:n] + b"\0" * (len(data) + 5 - n)):
            return "file_get_contents gives %d of %d bytes, content differs" % (n, len(data))
    def ok_sha(b):
        if b[0] == b"1" and b[1] != sha:
            return "file_getsha1 gives SHA1 of something else"
    def ok_force(b):
        if b[0] == b"1" and b[3] != b"2":
            return "force_directory reports success without the directory"
    def ok_dir(b):
        pass
    def ok_share(b):
        pass
    L = [("ReadFile", ["rfile", "f"], 3, ok_rfile, [b"1", str(len(data)).encode(), data + b"\0"] if data else None),
         ("file_get_contents", ["contents", "f", len(data) + 5], 2, ok_contents, [str(len(data)).encode(), data + b"\0" * 5]),
         ("file_getsha1", ["shaf", "f"], 2, ok_sha, [b"1", sha]),
         ("scan_dir", ["dir", "d", 99], 3, ok_dir, None),
         ("FileGetSize", ["size", "f"], 3, lambda b: None if all(int(x) in (-1, len(data)) for x in b) else "size is %r of %d" % (b, len(data)), None),
         ("file_gettime", ["time", "f"], 1, ok_dir, None),
         ("file_exists", ["exists", "f"], 1, ok_dir, [b"1"]),
         ("ShareFile", ["share", "s", 0, 5000, b"abc", 100], None, ok_share, None)]
    for name, cmd, n, ok, good in L:
        for at in range(7):
            b = ctx.raw(*a, "arm", at, mode, mask, *cmd, "disarm", *cmd)
            if not b.ok:
                raise Violation("%s with call %d of kinds %x failing (%d): died: %s" % (name, at, mask, mode, b.describe()))
            r = b.blobs[head:]
            k = n
            if n is None:
                k = 1 if r[0] in (b"0", b"2") else 2
            kind = int(r[k + 1])
            ctx.note("%s: %s" % (name, KINDS[kind] if kind >= 0 else "no fault"))
            m = ok(r[:k])
            if m:
                raise Violation("%s: %s" % (what(mode, kind, at), m))
            if good is not None and r[k + 2:] != good:
                raise Violation("%s, %s after that gives %r" % (what(mode, kind, at), name, r[k + 2:]))
            if kind < 0 and r[:k] != r[k + 2:k + 2 + k]:
                raise Violation("%s: two results %r" % (name, r))
    # directories
    path = "/".join(names or ["x"]) + "/"
    for at in range(2 * len(names) + 2):
        b = ctx.call("b", "arm", at, mode, mask, "force", path, "disarm", "isdir", path, "force", path, "isdir", path)
        if b[0] == b"1" and b[3] != b"2":
            raise Violation("%s, force_directory reports success without the directory" % what(mode, int(b[2]), at))
        if b[4:] != [b"1", b"2"]:
            raise Violation("%s, force_directory after that fails: %r" % (what(mode, int(b[2]), at), b[4:]))
    # writing without space
    for l in {0, 1, len(text) // 2, max(0, len(text) - 1), len(text), len(text) + 1}:
        b = ctx.call("b", "flimit", l, "wfile", "w", text, "flimit", -1, "get", "w", "wfile", "w2", text, "get", "w2")
        if b[0] == b"1" and b[2] != text:
            raise Violation("WriteToFile reports success, %d of %d bytes are written" % (len(b[2]), len(text)))
        if b[0] == b"0" and l >= len(text):
            raise Violation("WriteToFile fails with enough of space")
        if b[3:] != [b"1", b"1", text]:
            raise Violation("WriteToFile after failed one: %r" % b[3:])
HELP = st.tuples(st.one_of(st.binary(max_size=60), st.builds(lambda b, n: b * (n // len(b)) + b[:n % len(b)], st.binary(min_size=1, max_size=5), st.sampled_from([4095, 4096, 4097, 8192, 9000, 20000]))), MODE, st.sampled_from([ALL, ALL, READ, OPEN | OPENDIR, STAT, CLOSE, MKDIR | STAT, MMAP | TRUNC]),
                st.lists(st.text(st.sampled_from("abc"), min_size=1, max_size=3), max_size=4, unique=True))

MODES = lambda m: ["fault: " + ["once", "lasting", "part", "part then lasting", "interrupted", "no space"][m]]
SUBS = [
    Sub("convert", "drv_xml", CONV, convert, 900, nontrivial=lambda c: len(c[0][1]) > 30, label=lambda c: MODES(c[2]) + [TOOLS[c[1] % 7]], rule="source over 30 bytes"),
    Sub("reading", "drv_xml", st.tuples(SRC, st.booleans(), MODE, MASK), reading, 300, nontrivial=lambda c: len(c[0][1]) > 30, label=lambda c: MODES(c[2]), rule="source over 30 bytes"),
    Sub("appending", "drv_bw", APPEND, appending, 900, nontrivial=lambda c: any(o[0] == "batch" for o in c[3]), label=lambda c: sorted({x for f in c[4] for x in MODES(f[1])}), rule="at least one batch is appended"),
    Sub("reopen", "drv_bw", REOPEN, reopen, 900, nontrivial=lambda c: len(c[1]) > 2, label=lambda c: sorted({x for f in c[2] for x in MODES(f[1])}), rule="more than two operations before"),
    Sub("growing", "drv_bw", GROW, c15.grow, 1500, nontrivial=lambda c: any(o[7] and o[0] in ("size", "fill", "name") for o in c[1]), rule="a fault during an allocation with a chosen size"),
    Sub("helpers", "drv_utils", HELP, helpers, 400, nontrivial=lambda c: len(c[0]) > 0, label=lambda c: MODES(c[1]), rule="file is not empty"),
]
