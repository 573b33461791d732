"""C17: copies of elements and paths between documents, key comparison and search by key against the tree model."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *
from vlib.bwread import *
from vlib import xmlgen as X, values as V
from checks.c02 import columns

ASSUMPTIONS = ["the target document has the dictionary of the source (importTags, importParams)",
               "keys without value and several attributes of the same name in one element are not generated"]

class Source(Machine):
    def do_at(self, a, b, c, k, r):
        e = self.pick(self.elems(), b)
        if e and all(x.id != a % len(self.D.attrs) for x in e.attrs):
            Machine.do_at(self, a, b, c, k, r)

def clone(e, D, N, h=-1):
    """Copy of the tree with numbers of another dictionary."""
    tags, attrs = {n: i for i, (n, t) in enumerate(N.tags)}, {n: i for i, (n, t) in enumerate(N.attrs)}
    def c(e):
        n = El(h, e.elem, tags[D.tname(e.id)] if e.elem else attrs[D.aname(e.id)], e.vt, e.val, e.cap)
        for x in e.attrs:
            N.add(n, c(x))
        for x in e.kids:
            N.add(n, c(x))
        return n
    return c(e)

class Target(Source):
    """Document with the dictionary of a reader; copies are taken from cloned source trees."""
    def __init__(self, S, D, w, fn, reader, limit):
        self.S, self.D, self.w, self.fn, self.pool, self.limit, self.verify, self.done = S, Doc(), w, fn, 0x400000, limit, False, {}
        self.D.tags, self.D.attrs = sorted(map(list, D.tags)), sorted(map(list, D.attrs))
        S.op("new", w, fn, self.pool, 0)
        S.op("import", w, 3, reader)
        S.op("all", w)
        S.op("dict", w, out=self.D.dict())

    def handles(self, e):
        """Numbers for everything in the subtree of e, which has one."""
        self.D.els.append(e)
        for i, x in enumerate(e.attrs):
            x.h = self.S.h()
            self.S.op("attat", x.h, e.h, i)
            self.D.els.append(x)
        for i, x in enumerate(e.kids):
            x.h = self.S.h()
            self.S.op("kid", x.h, e.h, i)
            self.handles(x)

    def bare(self, s, value):
        """New element with the name of s and perhaps its value."""
        e = El(self.S.h(), True, s.id, T.NULL)
        if value:
            copy_value(self, s, e)
        return e

def nodes(e, path=()):
    yield e, path
    for i, k in enumerate(e.kids):
        yield from nodes(k, path + (i,))

def dots(p):
    return "".join("%d." % i for i in p)

def equal(a, b):
    """Equality of values of two attributes."""
    if a.vt == b.vt:
        return a.val == b.val
    if T.STRING in (a.vt, b.vt):
        s, o = (a, b) if a.vt == T.STRING else (b, a)
        return text_of(o) == s.val
    return False

def equal_keys(s, d, keys):
    """Are tag and key attributes equal?"""
    ka, kb = {x.id: x for x in s.attrs if x.id in keys}, {x.id: x for x in d.attrs if x.id in keys}
    return s.id == d.id and ka.keys() == kb.keys() and all(equal(ka[i], kb[i]) for i in ka)

def copy_value(W, s, n=None):
    n = n or El(-1, s.elem, s.id, T.NULL)
    n.vt, n.val, n.cap = s.vt, s.val, s.cap
    return n

def fill(W, d, s, keys):
    """Attributes (only keys when given) of s into d; with everything below when keys are not given."""
    for x in s.attrs:
        if keys is None or x.id in keys:
            W.D.add(d, copy_value(W, x))
    if keys is None:
        for k in s.kids:
            n = copy_value(W, k)
            fill(W, n, k, None)
            W.D.add(d, n)

def oracle(ctx, case):
    types, ops, edits, nkeys, tops = case
    M = Source(types, pool=0x200000, verify=False, limit=40)
    D, S = M.D, M.S
    M.begin()
    for op in ops:
        M.step(op)
    S.op("xb", 0, "o0.xb", "plain")
    S.op("ropen", 0, "o0.xb")
    W = Target(S, D, 1, "t.xbw", 0, 110)
    srcs = [clone(D.root, D, W.D)]
    for op in edits:
        M.step(op)
    S.op("xb", 0, "o1.xb", "pack")
    S.op("ropen", 1, "o1.xb")
    srcs.append(clone(D.root, D, W.D))
    before = []
    for n in ("o0.xb", "o1.xb"):
        S.op("read", n, out=[before.append])
    names = [n for n, t in W.D.attrs if t != T.NULL]
    names = [n for i, n in enumerate(names) if nkeys >> i & 1]
    keys = {i for i, (n, t) in enumerate(W.D.attrs) if n in names}
    for r in (0, 1):
        S.op("rkeys", r, len(names), *names)
    w, N = 1, W.D
    for op in tops:
        name, a, b, c, k, v, by, s = op
        r = a % 2
        all_nodes = list(nodes(srcs[r]))
        src, path = all_nodes[b % len(all_nodes)]
        if len(N.els) > W.limit and name != "rem":
            continue
        if name in ("copyall", "copytag", "copykeys"):
            e = W.bare(src, name != "copykeys" and (name == "copyall" or c % 2))
            S.op("copytag", w, e.h, r, dots(path), int(e.vt != T.NULL or (name != "copykeys" and c % 2)))
            if name == "copyall":
                S.op("copyall", w, e.h, e.h, r, dots(path))
                fill(W, e, src, None)
            elif name == "copykeys":
                S.op("copykeys", e.h, r, dots(path))
                fill(W, e, src, keys)
            p = W.pick(W.elems(), k)
            if N.root is None and c < 8:
                S.op("root", w, e.h)
                N.root = e
            elif p and c > 20:
                W.attach(p, e)
            W.handles(e)
            ctx.note(name)
            W.verify = True
            W.check(e)
            W.verify = False
        elif name in ("path", "pathonly"):
            if len(path) > 7:
                continue
            whole = name == "path"
            chain = [srcs[r]]
            for i in path:
                chain.append(chain[-1].kids[i])
            ok, top, new = True, None, None
            if N.root is None:
                cur = top = W.bare(chain[0], whole and len(chain) == 1)
                N.root, new, copied = cur, cur, True
            else:
                cur, copied = N.root, False
                if cur.id == -10:
                    if not cur.kids:
                        e = W.bare(chain[0], whole and len(chain) == 1)
                        W.D.add(cur, e)
                        new, copied = e, True
                    cur = cur.kids[0]
                if not copied:
                    ok = equal_keys(chain[0], cur, keys)
            if not ok:
                S.op("copypath", w, S.h(), int(whole), r, dots(path), out=[0])
                ctx.note("refused")
            else:
                for i, x in enumerate(chain):
                    last = i == len(chain) - 1
                    if i:
                        e = next((y for y in cur.kids if equal_keys(x, y, keys)), None)
                        copied = e is None
                        if copied:
                            e = W.bare(x, whole and last)
                            N.add(cur, e)
                            new = new or e
                        cur = e
                    if copied:
                        fill(W, cur, x, None if whole and last else keys)
                h = S.h()
                S.op("copypath", w, h, int(whole), r, dots(path))
                S.op("dump", w, h, out=[N.dump(cur)])
                if new is not None:
                    if new is N.root:
                        S.op("getroot", w, new.h)
                    else:
                        S.op("kid", new.h, new.parent.h, index(new.parent.kids, new))
                    W.handles(new)
                ctx.note(name + (" new" if new else " found"))
            S.op("tree", w, out=[N.dump(N.root)])
        elif name == "eqkeys":
            cand = [e for e in W.elems() if e.id == src.id] if c < 48 else W.elems()
            e = W.pick(cand, k)
            if e:
                q = equal_keys(src, e, keys)
                S.op("eqkeys", e.h, r, dots(path), out=[int(q)])
                ctx.note("equal" if q else "different")
        elif name == "trans":
            if N.root is None:
                e = El(S.h(), True, -10, T.NULL)
                S.op("mk", w, e.h, "tag", -10, "")
                S.op("root", w, e.h)
                N.root = e
                N.els.append(e)
        else:
            W.step(op)
    W.check_all()
    for n, x in zip(("o0.xb", "o1.xb"), (0, 1)):
        S.op("read", n, out=[lambda b, x=x: None if before[x] == b else "source file was changed"])
    for r in (0, 1):
        S.op("rdump", r, 2, out=[dump_check(N, srcs[r])])
    if N.root is not None:
        S.op("xb", w, "o2.xb", "plain")
        S.op("ropen", 2, "o2.xb")
        S.op("rdump", 2, 2, out=[dump_check(N, N.root)])
    S.run(ctx)

# few distinct values, so that equal keys are common
SV = st.sampled_from([0, 1, 2, -1])
SB = st.sampled_from([b"", b"a", b"ab"])
SS = st.sampled_from(["", "a", "b", "1", "2", "x" * 40])
TOPS = st.lists(st.tuples(st.sampled_from(("copyall", "copyall", "copytag", "copykeys", "path", "path", "path", "pathonly", "pathonly", "eqkeys", "eqkeys", "trans", "rem", "fparam", "newadd", "at", "sets", "seti")), IDX, IDX, IDX, IDX, SV, SB, SS), min_size=3, max_size=16)
BUILD = ("newadd", "newadd", "newadd", "at", "at", "at", "sets", "move", "retype")
KEYTYPES = st.tuples(st.lists(st.sampled_from([t for t in TAG_TYPES]), min_size=1, max_size=4), st.lists(st.sampled_from([t for t in ATTR_TYPES]), min_size=1, max_size=4))
def cases(v, b, s):
    return st.tuples(KEYTYPES, st.lists(op_strategy(BUILD, b=b, s=s).map(lambda o: o[:5] + ((o[5] % 3 if v else o[5]),) + o[6:]), min_size=3, max_size=25),
                     st.lists(op_strategy(("newadd", "at", "sets", "seti", "rem"), b=b, s=s).map(lambda o: o[:5] + ((o[5] % 3 if v else o[5]),) + o[6:]), max_size=6), st.integers(0, 15), TOPS)

def same_content(a, b):
    """Texts stored in a column of another type may get this type; everything else is the same."""
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        if a.name != b.name or a.attrs != b.attrs or a.text != b.text or len(a.children) != len(b.children):
            return "copied element differs: %r %r %r with %d children, expected %r %r %r with %d" % (b.name, b.attrs, b.text[:200], len(b.children), a.name, a.attrs, a.text[:200], len(a.children))
        for t, d, u, f in zip(a.atypes + [a.vtype], a.adata + [a.vdata], b.atypes + [b.vtype], b.adata + [b.vdata]):
            if t == u and d != f or t != u and t != T.STRING:
                return "value of type %d %r was copied as type %d %r" % (t, d, u, f)
        stack.extend(zip(a.children, b.children))

def xml_oracle(ctx, case):
    """The whole tree of a document made from text is copied into an empty document; its .xb reads the same."""
    doc, how = case
    S = Script()
    S.op("file", "s.xml", doc, out=[])
    S.op("conv", how, "s.xml", "o0.xb")
    S.op("ropen", 0, "o0.xb")
    seen = []
    S.op("rdump", 0, 2, out=[seen.append])
    S.op("new", 1, "t.xbw", 0x2000000, 0)
    S.op("import", 1, 3, 0)
    S.op("all", 1)
    S.op("copytag", 1, 0, 0, "", 1)
    S.op("root", 1, 0)
    S.op("copyall", 1, 0, 0, 0, "")
    S.op("xb", 1, "o1.xb", how)
    S.op("ropen", 1, "o1.xb")
    S.op("rdump", 1, 2, out=[lambda b: same_content(X.parse_dump(unpack(seen[0]), 0, True)[0], X.parse_dump(unpack(b), 0, True)[0])])
    S.run(ctx)

def bigdoc(n, la, lt, deep, seed):
    row = "".join('<i k="%d" v="%s">%s</i>' % (j * 7919 + seed, "ab" * (la * (j % 3) // 2) or "-", "t" * (lt * ((j + seed) % 4) // 3)) for j in range(n))
    return "<r>" + "".join("<d%d>" % (i % 5) for i in range(deep)) + row + "".join("</d%d>" % (i % 5) for i in reversed(range(deep))) + "</r>"
LEN = st.one_of(st.integers(0, 300), st.sampled_from([4095, 4096, 16000, 16384, 20000, 70000]))
BIG = st.tuples(st.one_of(st.integers(1, 40), st.integers(300, 1500)), LEN, LEN, st.one_of(st.integers(0, 4), st.integers(50, 230)), st.integers(0, 99)).filter(lambda c: c[0] * (c[1] + c[2]) < 2000000)
SUBS = [
    Sub("keys", "drv_bw", cases(True, SB, SS), oracle, 2500, nontrivial=lambda c: len(c[4]) >= 4, rule="at least four operations on the target"),
    Sub("values", "drv_bw", cases(False, SMALLB, SMALLS), oracle, 1500, nontrivial=lambda c: len(c[4]) >= 4, rule="at least four operations on the target"),
    Sub("xml", "drv_bw", st.tuples(st.one_of(X.documents(V.ANY, max_nodes=20), columns()), st.sampled_from(["xb", "pack"])), xml_oracle, 1500, nontrivial=lambda c: c[0].count("<") > 4, rule="document text with more than two elements"),
    Sub("big", "drv_bw", st.tuples(BIG, st.sampled_from(["xb", "pack"])), lambda ctx, c: xml_oracle(ctx, (bigdoc(*c[0]), c[1])), 150, nontrivial=lambda c: c[0][0] * (c[0][1] + c[0][2]) > 20000, rule="more than 20000 bytes of values", cpu=40),
]
