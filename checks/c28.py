"""C28: path and file helpers against Python's view of the same operations. Every driver case runs in its own scratch directory."""
import posixpath, re
from hypothesis import strategies as st
from vlib.core import Sub, Violation

# --- names
comp = st.one_of(st.sampled_from(["a", "data", "x.d", "v1.2", "src", "b c", "\u00e9", "long" * 20]), st.from_regex(r"[a-z][a-z0-9._-]{0,8}", fullmatch=True))
base = st.one_of(comp, st.builds(lambda a, e: a + e, comp, st.sampled_from([".xml", ".xb", ".json", ".tar.gz", ".", ".a.b.c", ""])))
prefix = st.sampled_from(["", "", "", "/", "./", "././"])
dirs = st.lists(comp, max_size=4).map(lambda l: "".join(x + "/" for x in l))
ext = st.sampled_from([".xb", ".xbw", ".xml", ".json", "", ".x.y", ".longextension", None])
target = st.one_of(st.none(), st.builds(lambda p, d, c: p + d + c, st.sampled_from(["", "/"]), dirs, comp))
names = st.tuples(st.builds(lambda p, d, b: p + d + b, prefix, dirs, base), ext, target)

def ref_name(name, e, tgt):
    while name.startswith("./"):
        name = name[2:]
    if tgt is not None:
        name = tgt + "/" + name[1 if name.startswith("/") else 0:]
    if e is None:
        return name
    d, b = posixpath.split(name)
    head = name[:len(name) - len(b)]
    return head + (b[:b.rindex(".")] if "." in b else b) + e

def name_oracle(ctx, items):
    out = ctx.call("b", *[x for it in items for x in ("ext", it[0], it[1], it[2])])
    for it, o in zip(items, out):
        w = "=" + ref_name(*it)
        if re.sub("/+", "/", o.decode()) != re.sub("/+", "/", w):
            raise Violation("AllocFilenameChangeExt%r gives %r, expected %r" % (it, o[1:].decode(), w[1:]))

def source_names(ctx, case):
    """Names of a source, changed many times."""
    first, steps = case
    cur = ref_name(first, None, None)
    want = [cur]
    a = ["seq", "pname", first, len(steps)]
    for (nm, e, tgt), how in steps:
        a += [nm, e, tgt, how]
        if how < 0:
            cur = ref_name(nm if nm != "@" else cur, e, tgt)
        else:
            cur = ref_name((nm if how & 1 else "%s%d" % (nm, how)).encode()[:4095].decode("utf-8", "ignore"), None, None)
        want.append(cur)
    for i, (o, w) in enumerate(zip(ctx.call(*a), want)):
        if re.sub("/+", "/", o.decode()) != re.sub("/+", "/", "=" + w):
            raise Violation("name %d of source is %r, expected %r after %r" % (i, o[1:].decode(), w, steps[:i]))

# --- files: a history over a few names
N = ["f1", "f2", "d1/f3", "d1/d2/f4", "missing", "d1", "d1/d2", "d3/f5", "f1/x"]
content = st.one_of(st.binary(max_size=30), st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=5), st.integers(0, 3000)), st.sampled_from([b"", b"\0", b"a\0b"]))
text = st.one_of(st.text(st.characters(codec="utf-8", exclude_categories=("Cs",), exclude_characters="\0"), max_size=40), st.sampled_from(["", "100%", "%s %d %n", "x" * 9000]))
OP = st.one_of(
    st.tuples(st.just("put"), st.sampled_from(N), content), st.tuples(st.just("wfile"), st.sampled_from(N), text), st.tuples(st.just("rfile"), st.sampled_from(N)), st.tuples(st.just("size"), st.sampled_from(N)),
    st.tuples(st.just("exists"), st.sampled_from(N)), st.tuples(st.just("contents"), st.sampled_from(N), st.one_of(st.integers(0, 40), st.integers(0, 20000))), st.tuples(st.just("mtime"), st.sampled_from(N), st.integers(0, 2**32)),
    st.tuples(st.just("force"), st.one_of(st.sampled_from(N + ["d1/", "d1/d2/", "p/q/r/", "./p/q/r", "d4/../d5/x", "p//q//r", "f1/x/y", "f2/", "d1/f3/z/w"]), st.lists(st.sampled_from(["a", "b", "f1", "d1"]), min_size=1, max_size=5).map("/".join))),
    st.tuples(st.just("dir"), st.sampled_from([".", "d1", "d1/d2", "missing", "f1"]), st.sampled_from([0, 0, 0, 1, 2])),
    st.tuples(st.just("mkdir"), st.sampled_from(["d1", "d1/d2", "d3", ".hidden", "d1/..x"])),
)

class FS:
    """Directories and files of the scratch directory."""
    def __init__(self):
        self.n = {"": None}        # path -> None for a directory, bytes for a file
        self.t = {}

    def norm(self, p):
        """Resolves a path step by step as the system does; None when a step is no directory."""
        cur = ""
        parts = p.split("/")
        for i, x in enumerate(parts):
            if x in ("", "."):
                if x == "." or i == len(parts) - 1 or True:
                    if cur not in self.n or self.n[cur] is not None:
                        return None
                continue
            if cur not in self.n or self.n[cur] is not None:
                return None
            if x == "..":
                cur = posixpath.dirname(cur)
            else:
                cur = posixpath.join(cur, x)
        return cur

    def get(self, p):
        q = self.norm(p)
        return ("none",) if q is None or q not in self.n else ("dir",) if self.n[q] is None else ("file", self.n[q])

    def write(self, p, data):
        q = self.norm(p)
        if q is None or posixpath.dirname(q) not in self.n or self.n.get(q, b"") is None:
            return False
        self.n[q] = data
        self.t.pop(q, None)
        return True

    def mkdir(self, p):
        q = self.norm(p.rstrip("/"))
        if q is None or q in self.n:
            return False
        self.n[q] = None
        return True

def file_oracle(ctx, ops):
    fs = FS()
    args, want = ["b"], []
    for op in ops:
        k, p = op[0], op[1]
        args += list(op)
        g = fs.get(p)
        if k in ("put", "wfile"):
            d = op[2] if k == "put" else op[2].encode()
            want.append((op, [int(fs.write(p, d))]))
        elif k == "rfile":
            if g[0] == "file" and g[1]:
                want.append((op, [1, len(g[1]), g[1] + b"\0"]))
            elif g[0] == "file":
                want.append((op, [None, 0, None]))       # empty file: no data, size 0
            else:
                want.append((op, [0, None, b""]))
        elif k == "size":
            n = len(g[1]) if g[0] == "file" else -1
            want.append((op, [n, n if g[0] != "dir" else None, n if g[0] == "file" else -1 if g[0] == "dir" else -5]))
        elif k == "exists":
            want.append((op, [int(g[0] != "none")]))
        elif k == "contents":
            if g[0] == "file":
                d = g[1][:op[2]]
                want.append((op, [len(d), d + bytes(op[2] - len(d))]))
            else:
                want.append((op, [-1, None]))
        elif k == "mtime":
            want.append((op, [op[2] if g[0] != "none" else -1]))
        elif k == "mkdir":
            want.append((op, [0 if fs.mkdir(p) else -1]))
        elif k == "force":
            ok = True
            for i in range(1, len(p)):
                if p[i] == "/":
                    part = p[:i]
                    if fs.get(part)[0] == "none":
                        ok = fs.mkdir(part)
                    elif fs.get(part)[0] == "file":
                        ok = False
                    if not ok:
                        break
            parents = p[:p.rfind("/")] if "/" in p else ""
            # a parent that ends as a regular file or cannot be made is a failure; a success means every parent is there
            want.append((op, [int(ok)]))
            if ok and parents:
                args += ["isdir", parents]
                want.append((("parents of", p), [2]))
        else:
            if g[0] != "dir":
                want.append((op, [0, 0, b""]))
            else:
                q = fs.norm(p)
                want.append((op, [1, ("entries", q), None]))
                ent = {posixpath.basename(x): ("d" if v is None else "f") for x, v in fs.n.items() if x and posixpath.dirname(x) == q}
                want[-1][1][1] = min(len(ent), op[2]) if op[2] else len(ent)
                want[-1][1][2] = ("set", p, ent, want[-1][1][1])
    out = ctx.call(*args)
    i = 0
    for op, w in want:
        for x in w:
            g = out[i]
            i += 1
            if x is None:
                continue
            if isinstance(x, tuple):
                lines = g.decode().splitlines()
                seen = {}
                for l in lines:
                    d, n, t = l.split("|")
                    if d != x[1] or n in seen or x[2].get(n) != t:
                        raise Violation("scan of %r reports %r; entries are %r" % (x[1], l, x[2]))
                    seen[n] = t
                if len(seen) != x[3]:
                    raise Violation("scan of %r reports %d of %d entries" % (x[1], len(seen), x[3]))
            elif g != (x if isinstance(x, bytes) else str(x).encode()):
                raise Violation("%r: got %r, expected %r (history %r)" % (op, g[:200], x if not isinstance(x, bytes) else x[:200], ops))

# --- shared mappings
def share_oracle(ctx, case):
    size, w, at, must, pre = case
    args = ["b"]
    if pre is not None:
        args += ["put", "m", pre]
    out = ctx.call(*(args + ["share", "m", must, size, w, at, "get", "m"]))[1 if pre is not None else 0:]
    if must and pre is None:
        if out[0] != b"0" or out[1] != b"0":
            raise Violation("a missing file that must exist was mapped or created")
        return
    want = ((pre or b"") + bytes(size))[:size]
    want = want[:at] + w + want[at + len(w):]
    if out[0] != b"1" or out[1] != want:
        raise Violation("read-only mapping does not show what was written through the shared one")
    if out[3] != want:
        raise Violation("file does not contain what was written through the mapping")

SHARE = st.integers(1, 9000).flatmap(lambda n: st.integers(0, n).flatmap(lambda at: st.tuples(st.just(n), st.binary(max_size=min(60, n - at)), st.just(at), st.booleans(), st.one_of(st.none(), st.binary(min_size=1, max_size=50)))))
@st.composite
def renames(draw):
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        it = draw(names)
        how = draw(st.sampled_from([-1, -1, -1, 0, 1, 7, 12, 2**31 - 1]))
        if how < 0 and draw(st.integers(0, 4)) == 0:
            it = ("@",) + it[1:]
        steps.append((it, how))
    return draw(names)[0], steps

SUBS = [
    Sub("names", "drv_utils", st.lists(names, min_size=1, max_size=25), name_oracle, 4000, nontrivial=lambda l: any("/" in x[0] for x in l), rule="at least one name with a directory"),
    Sub("source", "drv_xml", renames(), source_names, 1500, nontrivial=lambda c: len(c[1]) > 1, label=lambda c: {"own" if x[0][0] == "@" else "fmt" if x[1] >= 0 else "set" for x in c[1]}, rule="more than one change of name"),
    Sub("files", "drv_utils", st.lists(OP, min_size=1, max_size=30), file_oracle, 4000, nontrivial=lambda l: len({x[0] for x in l}) > 2, label=lambda l: {x[0] for x in l}, rule="more than two kinds of operation"),
    Sub("mapping", "drv_utils", SHARE, share_oracle, 800, nontrivial=lambda c: len(c[1]) > 0, rule="something is written"),
]
