"""Generators of XML documents and the expat-based reference model."""
import io, re
import xml.parsers.expat as expat
from hypothesis import strategies as st

NAME_START = "abcdefgXYZ_"
NAME_CHARS = "abcXYZ019-._"
ALPHA_U = "éžŠßλж中あ"
WS = " \t\r\n"

def names(max_size=12, uni=True, attr=False):
    """XML names without colon; prefixes of one another and long names are frequent."""
    first = st.sampled_from(NAME_START + (ALPHA_U if uni else ""))
    rest = st.text(st.sampled_from(NAME_CHARS + (ALPHA_U if uni else "")), max_size=max_size)
    plain = st.builds(lambda a, b: a + b, first, rest)
    common = st.sampled_from(["a", "aa", "aaa", "ab", "b", "item", "items", "Item", "id", "ID", "name", "hash", "count", "version",
                              "payload", "meta_root", "NULL", "time_ms", "author", "transaction", "reference", "xml-x", "_", "a.b", "a-b", "root"])
    long = st.builds(lambda c, n, t: c * n + t, st.sampled_from(["n", "x-", "λ"]), st.sampled_from([31, 32, 63, 64, 127, 128, 255, 256, 700]), st.sampled_from(["", "", "a", "b", "-n"]))
    reserved = st.sampled_from(["et-tecera", "tag_symbols", "param_symbols", "hash_index", "processed", "__reserved__", "meta_root", "NULL", "payload", "transaction", "type_count", "modified", "__ARRAY_ITEM_NAME__", "__out_of_range__"])
    near = st.builds(lambda n, a, b, k: (n[:-1], n.upper(), n.lower(), n)[k] if k < 4 else a + n + b, reserved, st.sampled_from(["", "", "x", "_"]), st.sampled_from(["", "2", "s", "-", ".a", "_x"]), st.integers(0, 8))
    return st.one_of(common, plain, plain, plain, long, near).filter(lambda s: s not in ("xmlns", "xmlns" if attr else "et-tecera") and not s.lower().startswith("xml"))

def esc_text(s, mode=0):
    out = []
    for i, c in enumerate(s):
        if c == "&":
            out.append(("&amp;", "&#38;", "&#x26;")[mode % 3])
        elif c == "<":
            out.append(("&lt;", "&#60;", "&#x3c;")[mode % 3])
        elif c == ">":
            out.append("&gt;")
        elif c == "\r":
            out.append("&#13;")
        elif mode == 3 and c.isalnum():
            out.append("&#%d;" % ord(c))
        else:
            out.append(c)
    return "".join(out)

def esc_attr(s, mode=0, q='"'):
    t = esc_text(s, mode)
    return t.replace("\n", "&#10;").replace("\t", "&#9;").replace('"', "&quot;").replace("'", "&apos;")

MISC = ["", "", "", "", " ", "\n", "\n\t", "<!-- c -->", "<?pi x?>", "\n<!-- <a b='c'> -->\n", "<!---->", "  <?p?> <!--x-->"]

class Node:
    __slots__ = ("name", "attrs", "text", "children", "tpos")
    def __init__(self, name, attrs, text, tpos=0):
        self.name, self.attrs, self.text, self.children, self.tpos = name, attrs, text, [], tpos

def serialise(n, pick):
    """pick(k) -> int in [0,k): layout decisions drawn by the generator."""
    out = []
    stack = [(n, 0)]
    def rec(n):
        out.append("<" + n.name)
        for k, v in n.attrs:
            q = '"' if pick(4) else "'"
            out.append(("" + (" ", "\n ", "  ", " ")[pick(4)]) + k + "=" + q + esc_attr(v, pick(4)) + q)
        if n.text is None and not n.children and pick(2):
            out.append("/>")
            return
        out.append(">")
        tp = min(n.tpos, len(n.children)) if n.text is not None else -1
        for i in range(len(n.children) + 1):
            if i == tp:
                if pick(3) == 0:
                    out.append(("\n", " ", "<!--t-->", "\n<?t?>\n")[pick(4)])
                m = pick(6)
                if m == 5 and "]]>" not in n.text and "\r" not in n.text:
                    out.append("<![CDATA[" + n.text + "]]>")
                elif m == 4 and "]]>" not in n.text and len(n.text) > 1 and "\r" not in n.text:
                    h = len(n.text) // 2
                    out.append(esc_text(n.text[:h], 1) + "<![CDATA[" + n.text[h:] + "]]>")
                else:
                    out.append(esc_text(n.text, m % 4))
                if pick(4) == 0:
                    out.append(("\n", " ", "<!--t-->", "<?t?>")[pick(4)])
            else:
                out.append(MISC[pick(len(MISC))])
            if i < len(n.children):
                rec(n.children[i])
        out.append("</" + n.name + ">")
    rec(n)
    return "".join(out)

PROLOG = ["", '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0" encoding="UTF-8" standalone="yes"?><!-- c -->\n', "<!-- first -->\n"]

@st.composite
def documents(draw, values, max_nodes=40, name_pool=8, max_attrs=4, text_first=False, clone=0, uni=True, texts=None, single_text=True):
    """Returns the document text. Shape: each node hangs under an earlier one; `clone` biases to repeated subtrees."""
    pool = draw(st.lists(names(uni=uni), min_size=1, max_size=name_pool, unique=True))
    apool = draw(st.lists(names(uni=uni, attr=True), min_size=1, max_size=name_pool, unique=True))
    nn = draw(st.integers(1, max_nodes))
    shape = draw(st.sampled_from(["random", "random", "wide", "deep", "mixed"]))
    nodes = []
    def mk():
        nm = draw(st.sampled_from(pool))
        ks = draw(st.lists(st.sampled_from(apool), max_size=max_attrs, unique=True))
        attrs = [(k, draw(values)) for k in ks]
        text = draw(st.one_of(st.none(), texts if texts is not None else values))
        if text is not None and not text.strip(WS):
            text = None
        return Node(nm, attrs, text, 0 if text_first else draw(st.integers(0, 3)))
    def copy(n):
        m = Node(n.name, list(n.attrs), n.text, n.tpos)
        m.children = [copy(c) for c in n.children]
        return m
    def depth_ok(n, d):
        return d < 150
    root = mk()
    nodes.append((root, 0))
    for i in range(nn - 1):
        if shape == "wide":
            par, d = nodes[0]
        elif shape == "deep":
            par, d = nodes[-1]
        elif shape == "mixed":
            par, d = nodes[max(0, len(nodes) - 1 - draw(st.integers(0, 3)))]
        else:
            par, d = nodes[draw(st.integers(0, len(nodes) - 1))]
        if d > 140:
            par, d = nodes[0]
        if clone and len(nodes) > 1 and draw(st.integers(0, 9)) < clone:
            src = nodes[draw(st.integers(1, len(nodes) - 1))][0]
            if size(src) <= 30 and not contains(src, par):
                c = copy(src)
                if draw(st.integers(0, 3)) == 0:    # nearly the same
                    if c.attrs and draw(st.booleans()):
                        c.attrs[0] = (c.attrs[0][0], draw(values))
                    elif len(c.children) > 1:
                        c.children.reverse()
                    else:
                        c.name = draw(st.sampled_from(pool))
                par.children.append(c)
                nodes.append((c, d + 1))
                continue
        n = mk()
        par.children.append(n)
        nodes.append((n, d + 1))
        if sum(1 for _ in nodes) > 400:
            break
    layout = draw(st.sampled_from([0, 0, 1]))
    if layout:
        rnd = draw(st.randoms(use_true_random=False))
        pick = lambda k: rnd.randrange(k)
    else:
        seq = draw(st.lists(st.integers(0, 11), max_size=30)) or [1]
        it = [0]
        def pick(k):
            it[0] += 1
            return seq[it[0] % len(seq)] % k
    return draw(st.sampled_from(PROLOG)) + serialise(root, pick) + draw(st.sampled_from(["", "\n", "\n<!-- end -->\n"]))

def size(n):
    return 1 + sum(size(c) for c in n.children)

def contains(n, m):
    return n is m or any(contains(c, m) for c in n.children)

class Ref:
    """Element of the reference model: name, attrs list, text pieces, children."""
    __slots__ = ("name", "attrs", "pieces", "children")

def parse(text):
    """Independent parse by expat: Ref root. Raises expat.ExpatError."""
    p = expat.ParserCreate("utf-8")
    p.ordered_attributes = True
    p.buffer_text = False
    stack, root, brk = [], [None], [True]
    def start(name, attrs):
        r = Ref()
        r.name, r.attrs, r.pieces, r.children = name, list(zip(attrs[::2], attrs[1::2])), [], []
        if stack:
            stack[-1].children.append(r)
        else:
            root[0] = r
        stack.append(r)
        brk[0] = True
    def end(name):
        stack.pop()
        brk[0] = True
    def chars(d):
        s = stack[-1]
        if brk[0]:
            s.pieces.append("")
            brk[0] = False
        s.pieces[-1] += d
    def other(*a):
        brk[0] = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.CommentHandler, p.ProcessingInstructionHandler = other, other
    p.Parse(text if isinstance(text, bytes) else text.encode("utf-8"), True)
    return root[0]

def value_of(ref):
    """The single text value of an element, white space at both ends aside."""
    ps = [s for s in ref.pieces if s.strip(WS)]
    return ps[0].strip(WS) if ps else ""

def joined_value(ref):
    return "".join(ref.pieces).strip(WS)

# ---- what the driver dumps -----------------------------------------------------------------------------
class Item:
    __slots__ = ("name", "attrs", "atypes", "adata", "vtype", "text", "vdata", "children")

def cstr(b):
    return None if b == b"~" else b[1:]

def parse_dump(blobs, pos, raw=False):
    """Reads one dumped tree; returns (Item, next position)."""
    def one(pos):
        it = Item()
        it.name = cstr(blobs[pos])
        n = int(blobs[pos + 1])
        pos += 2
        it.attrs, it.atypes, it.adata, it.children = [], [], [], []
        for _ in range(n):
            it.attrs.append((cstr(blobs[pos]), blobs[pos + 2]))
            it.atypes.append(int(blobs[pos + 1]))
            pos += 3
            if raw:
                it.adata.append(cstr(blobs[pos]))
                pos += 1
        it.vtype = int(blobs[pos])
        it.text = blobs[pos + 1]
        pos += 2
        it.vdata = None
        if raw:
            it.vdata = cstr(blobs[pos])
            pos += 1
        k = int(blobs[pos])
        return it, k, pos + 1
    root, k, pos = one(pos)
    stack = [(root, k)]
    while stack:
        it, k = stack[-1]
        if len(it.children) == k:
            stack.pop()
            continue
        c, ck, pos = one(pos)
        it.children.append(c)
        stack.append((c, ck))
    return root, pos

def diff(ref, it, values=True, path="", text_of=value_of):
    """First difference between the reference element and the read element, or None."""
    stack = [(ref, it, "/" + ref.name)]
    while stack:
        r, i, path = stack.pop()
        if i.name != r.name.encode():
            return "%s: element name %r instead of %r" % (path, i.name, r.name)
        ra = [k.encode() for k, _ in r.attrs]
        ia = [k for k, _ in i.attrs]
        if ra != ia:
            return "%s: attributes %r instead of %r" % (path, ia, ra)
        if values:
            for (k, v), (_, w) in zip(r.attrs, i.attrs):
                if v.encode() != w:
                    return "%s/@%s: value %r instead of %r" % (path, k, w, v.encode())
            t = text_of(r).encode()
            if t != i.text.strip(b" \t\r\n"):
                return "%s: text %r instead of %r" % (path, i.text, t)
        if len(r.children) != len(i.children):
            return "%s: %d children instead of %d" % (path, len(i.children), len(r.children))
        for n, (a, b) in enumerate(zip(r.children, i.children)):
            stack.append((a, b, "%s/%s[%d]" % (path, a.name, n)))
    return None

def count(ref):
    n, s = 0, [ref]
    while s:
        x = s.pop()
        n += 1
        s.extend(x.children)
    return n

def depth(ref):
    m, s = 0, [(ref, 1)]
    while s:
        x, d = s.pop()
        m = max(m, d)
        s.extend((c, d + 1) for c in x.children)
    return m

SAFE_VALUES = st.one_of(st.sampled_from(["x", "hello", "ab cd", "value", "Petr Kundrata", "q" * 40, "w" * 300]),
                        st.text(st.sampled_from("ghijklmn opq"), min_size=1, max_size=20).map(lambda s: "v" + s.strip() + "z"))

# values of many chunks: patterns repeated to lengths around multiples of 4096
PATTERNS = ["t", "0123456789", "ab&", "<>", "é", "x中y", "word ", "A\"'", "ABCDEF01", "QUJDRA==", "1", "-", "a\nb", "\t&\r."]
LENGTH = st.one_of(st.integers(1, 300), st.builds(lambda k, d: max(1, 4096 * k + d), st.integers(1, 12), st.integers(-4, 4)), st.builds(lambda k, d: max(1, (1 << k) + d), st.integers(8, 18), st.integers(-3, 3)), st.integers(1, 200000))
PLACES = ["leaf", "before", "after", "attr", "both", "deep"]
LONGS = st.lists(st.tuples(st.sampled_from(PLACES), st.sampled_from(PATTERNS), LENGTH), min_size=1, max_size=4)
def long_document(items):
    out = ["<r>"]
    for i, (place, pat, n) in enumerate(items):
        v = "s" + (pat * (n // len(pat) + 1))[:max(1, n - 2)] + "e"
        t, a = esc_text(v, 0), esc_attr(v)
        out.append({"leaf": "<i>%s</i>" % t, "before": "<m>%s<b/></m>" % t, "after": "<n><b/><c k='1'/>%s</n>" % t, "attr": '<i a="%s"/>' % a,
                    "both": '<i a="%s" b="1">%s</i>' % (a, t), "deep": "<d>" * 40 + t + "</d>" * 40}[place])
    return "".join(out) + "</r>"
