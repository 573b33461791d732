"""C09: symbol tables of .xb are complete and consistent."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib import xmlgen as X

TAGS = {-1: b"NULL", -2: b"meta_root", -3: b"tag_symbols", -4: b"param_symbols", -5: b"hash_index", -6: b"payload", -7: b"reference", -8: b"processed", -9: b"et-tecera", -10: b"transaction"}
PARS = {-1: b"NULL", -2: b"name", -3: b"hash", -4: b"modified", -5: b"count", -6: b"version", -7: b"type_count", -8: b"id", -9: b"author", -10: b"time_ms"}

def build(case):
    names, attrs, rows, _, _ = case
    out = ["<", names[0], ">"]
    for i, (n, a) in enumerate(rows):
        nm = names[n % len(names)]
        out.append("<" + nm + "".join(' %s="%s"' % (k, "v%d" % i) for k in dict.fromkeys(attrs[x % len(attrs)] for x in a)) + "/>")
    # every name at least once
    out += ["<%s/>" % n for n in names]
    for i in range(0, len(attrs), 300):
        out.append("<%s%s/>" % (names[-1], "".join(' %s="1"' % a for a in attrs[i:i + 300])))
    return "".join(out) + "</%s>" % names[0]

def oracle(ctx, case):
    names, attrs, rows, extra, tool = case
    N, A = {n.encode() for n in names}, {a.encode() for a in attrs}
    doc = build(case)
    b = ctx.call("seq", "file", "doc.xml", doc, "conv", tool, "doc.xml", "o.xb", "lookup", "o.xb", 0, 0, "open", "o.xb", 4)
    if b[0] != b"1" or b[1] != b"1" or b[2] != b"1":
        raise Violation("conversion or opening failed")
    _, pos = X.parse_dump(b, 3)
    tables = []
    for what, want in (("element", N), ("attribute", A)):
        n = int(b[pos])
        pos += 1
        tab = [b[pos + 3 * i] for i in range(n)]
        ids = [int(b[pos + 3 * i + 2]) for i in range(n)]
        pos += 3 * n
        if any(x == b"~" for x in tab):
            raise Violation("%s name table has an entry without name" % what)
        tab = [x[1:] for x in tab]
        if sorted(tab) != sorted(want):
            raise Violation("%s name table has %r, missing %r, duplicates %r" % (what, sorted(set(tab) - want)[:5], sorted(want - set(tab))[:5], [x for x in set(tab) if tab.count(x) > 1][:5]))
        if ids != list(range(n)):
            i = next(i for i in range(n) if ids[i] != i)
            raise Violation("%s name %r with id %d is found as id %d" % (what, tab[i], i, ids[i]))
        tables.append({x: i for i, x in enumerate(tab)})
    # look up present and absent names, valid and invalid ids
    cand = [x.encode() for x in extra] + list(N)[:40] + list(A)[:40]
    cand += [c[:-1] for c in cand[:30]] + [c + b"a" for c in cand[:30]] + [b"", b"\xff", b"0"]
    cand = [c for c in cand if b"\0" not in c]
    ids = sorted(set([-30, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, len(N) - 1, len(N), len(N) + 1, len(A) - 1, len(A), len(A) + 1, 32767, -32768]))
    b = ctx.call("seq", "file", "doc.xml", doc, "conv", tool, "doc.xml", "o.xb", "lookup", "o.xb", len(cand), *cand, len(ids), *ids)
    pos = 2
    for c in cand:
        for k, what in ((0, "element"), (1, "attribute")):
            got, want = int(b[pos + k]), tables[k].get(c, -1)
            if got != want:
                raise Violation("%s name %r has id %d, lookup says %d" % (what, c, want, got))
        pos += 2
    for i in ids:
        for k, (tab, meta, what) in enumerate(((tables[0], TAGS, "element"), (tables[1], PARS, "attribute"))):
            got = None if b[pos + k] == b"~" else b[pos + k][1:]
            inv = {v: n for n, v in tab.items()}
            if i in inv:
                if got != inv[i]:
                    raise Violation("%s id %d is %r, not %r" % (what, i, inv[i], got))
            elif i in meta:
                if got != meta[i]:
                    raise Violation("built-in %s id %d is %r, not %r" % (what, i, meta[i], got))
            elif got is not None and got != b"" and not (got.startswith(b"__") and got.endswith(b"__")) :
                raise Violation("%s id %d is out of range but has name %r" % (what, i, got))
        pos += 4

def bulk(prefix, n, step):
    return [prefix + ("%d" % (i * step)) for i in range(n)]
def table(attr):
    return st.one_of(st.lists(X.names(attr=attr), min_size=1, max_size=40, unique=True),
                 st.builds(bulk, X.names(max_size=3, attr=attr), st.one_of(st.integers(1, 300), st.sampled_from([127, 128, 129, 255, 256, 257, 700, 1500])), st.sampled_from([1, 7, 101])),
                 st.builds(lambda c, n: [c * i for i in range(1, n)], st.sampled_from(["a", "ab", "λ", "_"]), st.integers(2, 120)))
cases = st.tuples(table(False), table(True), st.lists(st.tuples(st.integers(0, 5000), st.lists(st.integers(0, 5000), max_size=5)), max_size=30), st.lists(X.names(attr=True), max_size=10), st.sampled_from(["plain", "pack"]))
cases = cases.filter(lambda c: not ({"et-tecera"} & set(c[0])))
SUBS = [Sub("tables", "drv_xml", cases, oracle, 1600, nontrivial=lambda c: len(c[0]) > 2 and len(c[1]) > 2, rule="documents with more than two element and attribute names",
            label=lambda c: [c[4]] + ["over 100 element names"] * (len(c[0]) > 100) + ["over 1000 names"] * (max(len(c[0]), len(c[1])) > 1000))]

from checks import c30
def of_source(ctx, case):
    """Names and types as a source plugin gives them (own tables or names found in its tree)."""
    c30.oracle(ctx, case)
SUBS.append(Sub("sources", "drv_xml", c30.cases(to=("x", "pack")), of_source, 1200, nontrivial=c30.nontrivial, rule="more than one element and some attribute", label=lambda c: ["own tables" if c["own"] else "names found in the tree"]))

# one reader opened again and again while the file changes
def again(ctx, case):
    how, docs, steps = case
    a = ["seq"]
    for i, d in enumerate(docs):
        a += ["file", "d%d.xml" % i, d, "conv", "pack" if i & 1 else "plain", "d%d.xml" % i, "s%d.xb" % i]
    a += ["hold", "o.xb", how]
    cur, want = None, []
    for op, k in steps:
        k %= len(docs)
        if op == "put":
            a += ["unlink", "o.xb", "rename", "s%d.xb" % k, "o.xb", "conv", "pack" if k & 1 else "plain", "d%d.xml" % k, "s%d.xb" % k]
            cur = k
            want.append("conv")
        elif op == "gone":
            a += ["unlink", "o.xb"]
            cur = None
        elif op == "bad":
            a += ["unlink", "o.xb", "file", "o.xb", [b"", b"no .xb file at all", bytes(300), b"\xfe\xff" + bytes(600)][k % 4]]
            cur = None
        else:
            a += ["hopen", 4 | k & 1]
            want.append(("open", cur))
    b = ctx.call(*a)
    if any(x != b"1" for x in b[:len(docs)]):
        raise Violation("conversion failed")
    pos = len(docs)
    if not how:
        if b[pos] != b"1":
            raise Violation("name of reader was not set")
        pos += 1
    for n, w in enumerate(want):
        if w == "conv":
            if b[pos] != b"1":
                raise Violation("conversion failed")
            pos += 1
            continue
        k = w[1]
        if b[pos] != (b"0" if k is None else b"1"):
            raise Violation("opening %d: result %s for %s file" % (n, b[pos].decode(), "no" if k is None else "a good"))
        pos += 1
        if k is None:
            continue
        it, pos = X.parse_dump(b, pos)
        ref = X.parse(docs[k])
        d = X.diff(ref, it, values=False)
        if d:
            raise Violation("opening %d: %s" % (n, d))
        tags, attrs = set(), set()
        todo = [ref]
        while todo:
            e = todo.pop()
            tags.add(e.name.encode())
            attrs |= {x.encode() for x, _ in e.attrs}
            todo += e.children
        for what, names in (("element", tags), ("attribute", attrs)):
            c = int(b[pos])
            pos += 1
            tab = [(b[pos + 3 * i][1:], int(b[pos + 3 * i + 2])) for i in range(c)]
            pos += 3 * c
            if sorted(x for x, _ in tab) != sorted(names) or any(i != j for i, (_, j) in enumerate(tab)):
                raise Violation("opening %d: %s names are %r, expected %r" % (n, what, tab[:10], sorted(names)[:10]))

AGAIN = st.tuples(st.integers(0, 1), st.lists(st.one_of(X.documents(X.SAFE_VALUES, max_nodes=8), X.documents(X.SAFE_VALUES, max_nodes=30), st.sampled_from(["<a/>", "<a><b/></a>", "<r x='1'/>"])), min_size=1, max_size=4),
                  st.lists(st.tuples(st.sampled_from(["put", "put", "open", "open", "open", "gone", "bad"]), st.integers(0, 7)), min_size=2, max_size=14))
SUBS.append(Sub("again", "drv_xml", AGAIN, again, 800, nontrivial=lambda c: sum(x[0] == "open" for x in c[2]) > 1 and sum(x[0] == "put" for x in c[2]) > 0, label=lambda c: {x[0] for x in c[2]}, rule="a file is there and the reader is opened more than once"))
