"""What a reader must see of a modelled document."""
import struct
from .core import Violation
from .xmlgen import parse_dump
from .bwmodel import *
from checks import c19 as T

def unpack(b):
    out, i = [], 0
    while i < len(b):
        n = struct.unpack_from("<I", b, i)[0]
        out.append(b[i + 4:i + 4 + n])
        i += 4 + n
    return out

def raw_of(e):
    """(type, stored bytes) as getData of the reader gives them; None for no value."""
    if e.vt == T.NULL:
        return None
    if e.vt == T.BSTR:
        return struct.pack("<I", e.cap) + e.val + b"\0" * (e.cap - len(e.val))
    return e.data()

def text_of(e):
    r = raw_of(e)
    if r is None:
        return b""
    if e.vt in (T.DATE, T.MSEC) and not T.in_range(e.vt, r):
        return None
    return T.ref_text(e.vt, r)

def clean(t, d):
    """Bytes after the end of a text in reserved space have no meaning."""
    if t != T.BSTR or d is None or len(d) < 5:
        return d
    s = d[4:].split(b"\0", 1)[0]
    return d[:4] + s + b"\0" * (len(d) - 4 - len(s))

def compare(D, e, it, where="", text=True):
    """Compares a dumped item with the modelled element."""
    stack = [(e, it, "")]
    while stack:
        e, it, where = stack.pop()
        where = where + "/" + D.tname(e.id)
        if it.name != D.tname(e.id).encode():
            raise Violation("%s: name is %r" % (where, it.name))
        want = [(D.aname(a.id).encode(), a.vt, raw_of(a)) for a in e.attrs]
        got = [(n, t, clean(t, d)) for (n, _), t, d in zip(it.attrs, it.atypes, it.adata)]
        if want != got:
            raise Violation("%s: attributes are %s, expected %s" % (where, brief(got), brief(want)))
        if text:
            for a, (n, x) in zip(e.attrs, it.attrs):
                w = text_of(a)
                if w is not None and w != x:
                    raise Violation("%s@%s: text is %r, expected %r" % (where, n.decode(), x[:80], w[:80]))
        if it.vtype != e.vt or clean(it.vtype, it.vdata) != raw_of(e):
            raise Violation("%s: value is type %d %s, expected type %d %s" % (where, it.vtype, brief(it.vdata), e.vt, brief(raw_of(e))))
        w = text_of(e)
        if text and w is not None and w != it.text:
            raise Violation("%s: text is %r, expected %r" % (where, it.text[:80], w[:80]))
        if [c.name for c in it.children] != [D.tname(k.id).encode() for k in e.kids]:
            raise Violation("%s: children are %s, expected %s" % (where, [c.name for c in it.children][:20], [D.tname(k.id) for k in e.kids][:20]))
        stack.extend((k, c, where) for k, c in zip(e.kids, it.children))

def brief(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..(%d)" % len(s)

def snapshot(D, root):
    """Copy of the dictionary and of one tree as they are now."""
    def shallow(e):
        n = El(e.h, e.elem, e.id, e.vt, e.val, e.cap)
        n.attrs, n.kids = list(e.attrs), list(e.kids)
        return n
    N = Doc()
    N.tags, N.attrs = [list(t) for t in D.tags], [list(t) for t in D.attrs]
    N.root = shallow(root)
    stack = [N.root]
    while stack:
        e = stack.pop()
        e.attrs = [shallow(a) for a in e.attrs]
        e.kids = [shallow(k) for k in e.kids]
        stack.extend(e.kids)
    return N

def dump_check(D, root):
    """Expected output of rdump with data."""
    D = snapshot(D, root)
    root = D.root
    def f(b):
        it, pos = parse_dump(unpack(b), 0, True)
        try:
            compare(D, root, it)
        except Violation as v:
            return str(v)
    return f
