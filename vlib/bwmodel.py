"""Reference model of a .xbw document (ordered tree of typed elements) and builder of driver scripts with expected outputs."""
import struct
from .core import Violation
from checks import c19 as T

IS4 = frozenset((T.INT32, T.FLOAT, T.TIME, T.IP4, T.UINT32, T.DATE, T.DECI, T.CENTI, T.MILI, T.MICRO, T.NANO))
IS8 = frozenset((T.INT64, T.DOUBLE, T.UINT64, T.MSEC))
VAR = frozenset(T.VAR)
ANY = object()

def s32(v):
    return (v + 2**31) % 2**32 - 2**31

def s64(v):
    return (v + 2**63) % 2**64 - 2**63

class El:
    __slots__ = ("h", "elem", "id", "vt", "val", "cap", "attrs", "kids", "ring", "parent")
    def __init__(self, h, elem, id, vt, val=b"", cap=0):
        self.h, self.elem, self.id, self.vt, self.val, self.cap = h, elem, id, vt, val, cap
        self.attrs, self.kids, self.parent = [], [], None
        self.ring = [self]

    def data(self):
        """What getData() of the library gives for the value (data, not only content)."""
        if self.vt == T.NULL:
            return b""
        if self.vt == T.STRING:
            return self.val + b"\0"
        if self.vt in (T.BLOB, T.HEX):
            return struct.pack("<I", len(self.val)) + self.val
        return self.val

def bstr_cap(n):
    return T.bstr_size(n)

BUILTIN_T = {-9: "et-tecera", -10: "transaction"}
BUILTIN_A = {-8: "id", -2: "name", -9: "author", -10: "time_ms", -3: "hash", -4: "modified", -5: "count", -6: "version", -7: "type_count"}
BUILTIN_AT = {-8: T.INT32, -2: T.STRING, -9: T.INT64, -10: T.MSEC, -3: T.SHA1, -4: T.TIME, -5: T.INT32, -6: T.INT32, -7: T.INT32}
BUILTIN_ATTRS = [(-8, "i32"), (-9, "i64"), (-10, "time64"), (-2, "str"), (-3, "sha1"), (-4, "time"), (-5, "i32"), (-6, "i32"), (-7, "i32")]

class Doc:
    """Model of one document: dictionary and forest."""
    def __init__(self):
        self.tags, self.attrs = [], []      # [name, type]
        self.root = None
        self.els = []                       # all elements with a usable handle, in order of creation

    def ttype(self, id):
        return self.tags[id][1] if id >= 0 else T.NULL

    def atype(self, id):
        return self.attrs[id][1] if id >= 0 else BUILTIN_AT[id]

    def tname(self, id):
        return self.tags[id][0] if id >= 0 else BUILTIN_T[id]

    def aname(self, id):
        return self.attrs[id][0] if id >= 0 else BUILTIN_A[id]

    def sym(self, e):
        return self.ttype(e.id) if e.elem else self.atype(e.id)

    def dump(self, e):
        out = []
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, str):
                out.append(x)
                continue
            name = self.tname(x.id) if x.elem else self.aname(x.id)
            v = "%d,%s" % (x.cap, x.val.hex()) if x.vt == T.BSTR else x.data().hex()
            out.append("%s%d:%s:%d=%s" % ("E" if x.elem else "A", x.id, name, x.vt, v))
            if x.elem:
                seq = ["("]
                for a in x.attrs:
                    seq += [a, ";"]
                seq.append(")[")
                for c in x.kids:
                    seq += [c, ";"]
                seq.append("]")
                stack.extend(reversed(seq))
        return "".join(out)

    def dump_ring(self, e):
        r = rot(e)
        return "".join(self.dump(x) + ";" for x in r)

    def dict(self):
        return ["%d|" % len(t) + "".join("%d:%s:%d;" % (i, n, ty) for i, (n, ty) in enumerate(t)) for t in (self.tags, self.attrs)]

    # ---- structure -----------------------------------------------------------------------------------
    def top(self, e):
        while e.parent is not None:
            e = e.parent
        return e

    def add(self, p, e):
        r = rot(e)
        lst = p.kids if e.elem else p.attrs
        for x in r:
            x.ring, x.parent = None, p
        lst.extend(r)

    def join(self, a, b):
        rb = rot(b)
        if a.ring is not None:
            ra = rot(a) + rb
            for x in ra:
                x.ring = ra
        else:
            lst = a.parent.kids if a.elem else a.parent.attrs
            i = next(k for k, x in enumerate(lst) if x is a)
            for x in rb:
                x.ring, x.parent = None, a.parent
            if i == 0:
                lst.extend(rb)
            else:
                lst[i:i] = rb

    def detach(self, e):
        lst = e.parent.kids if e.elem else e.parent.attrs
        i = index(lst, e)
        del lst[i]
        e.parent, e.ring = None, [e]
        return i

    def replace(self, old, new, keep):
        p = old.parent
        lst = p.kids if old.elem else p.attrs
        lst[index(lst, old)] = new
        old.parent, old.ring = None, [old]
        new.parent, new.ring = p, None
        if keep:
            new.attrs, new.kids = old.attrs, old.kids
            for x in new.attrs + new.kids:
                x.parent = new
            old.attrs, old.kids = [], []

    def walk(self, e):
        yield e
        for a in e.attrs:
            yield a
        for k in e.kids:
            for x in self.walk(k):
                yield x

def index(lst, e):
    return next(k for k, x in enumerate(lst) if x is e)

def rot(e):
    i = index(e.ring, e)
    return e.ring[i:] + e.ring[:i]

# ---- which call makes which value ------------------------------------------------------------------------
def pack4(v):
    return struct.pack("<I", v % 2**32)

def pack8(v):
    return struct.pack("<Q", v % 2**64)

def rep(b, n):
    b = b or b"\0"
    return (b * (n // len(b) + 1))[:n]

def size_ok(t, raw):
    return True

class Raw:
    """Material for values of any type: an integer, bytes and a text."""
    __slots__ = ("v", "b", "s")
    def __init__(self, v, b, s):
        self.v, self.b, self.s = v, b, s.replace("\0", "")

    def data(self, t):
        """Stored bytes (as of getData) of a value of type t."""
        if t == T.NULL:
            return b""
        if t in IS4:
            return pack4(self.v)
        if t in IS8:
            return pack8(self.v)
        if t == T.STRING:
            return self.s.encode() + b"\0"
        if t in (T.BLOB, T.HEX):
            return struct.pack("<I", len(self.b)) + self.b
        if t == T.BSTR:
            b = self.s.encode()
            n = bstr_cap(len(b))
            return struct.pack("<I", n) + b + b"\0" * (n - len(b))
        return rep(self.b, T.SIZE[t])

def set_value(e, t, data):
    e.vt = t
    if t == T.STRING:
        e.val = data[:-1]
    elif t in (T.BLOB, T.HEX):
        e.val = data[4:]
    elif t == T.BSTR:
        e.cap = struct.unpack("<I", data[:4])[0]
        e.val = data[4:].split(b"\0")[0]
    else:
        e.val = data

# kind -> (argument for the driver, resulting (type, data) or None when the call must fail) given the declared type
def make_elem(kind, ty, r):
    """Returns (driver arguments after the id, None or (vt, data))."""
    g = lambda ok, vt: (vt, r.data(vt)) if ok else None
    if kind == "tag":
        return [""], (T.NULL, b"")
    if kind == "str":
        vt = T.STRING if ty == T.VARIANT else ty
        return [r.s], g(ty in (T.STRING, T.VARIANT, T.BSTR), vt)
    if kind == "strnull":
        vt = T.STRING if ty == T.VARIANT else ty
        return [""], (vt, Raw(0, b"", "").data(vt)) if ty in (T.STRING, T.VARIANT, T.BSTR) else None
    if kind == "blob":
        return [r.b], g(ty in (T.BLOB, T.VARIANT), T.BLOB)
    if kind == "blobnull":
        n = len(r.b)
        return [n], (T.BLOB, struct.pack("<I", n) + b"\0" * n) if ty in (T.BLOB, T.VARIANT) else None
    if kind == "hex":
        return [r.b], g(ty == T.HEX, T.HEX)
    if kind == "i32":
        return [s32(r.v)], g(ty in IS4, ty)
    if kind == "i64":
        return [s64(r.v)], g(ty in (T.INT64, T.VARIANT), T.INT64)
    if kind == "float":
        return [pack4(r.v)], g(ty == T.FLOAT, T.FLOAT)
    if kind == "guid":
        return [rep(r.b, 16)], g(ty == T.GUID, T.GUID)
    if kind == "sha1":
        return [rep(r.b, 20)], g(ty == T.SHA1, T.SHA1)
    if kind == "time":
        return [r.v % 2**32], g(ty in (T.TIME, T.VARIANT), T.TIME)
    if kind == "time64":
        return [s64(r.v)], g(ty in (T.MSEC, T.VARIANT), T.MSEC)
    if kind in ("u32", "u64"):
        return [r.v % 2**32], None
    if kind == "double":
        return [pack8(r.v)], None
    if kind == "data":
        return [r.data(ty), ty], (T.NULL, b"") if ty == T.NULL else g(ty not in (T.VARIANT,), ty)
    if kind == "ptag":
        return [""], (T.NULL, b"") if ty == T.NULL else None
    if kind == "pi32":
        return [s32(r.v)], g(ty in IS4, ty)
    if kind == "pi64":
        return [s64(r.v)], g(ty in IS8, ty)
    if kind == "pstr":
        return [r.s], g(ty == T.STRING, T.STRING)
    if kind == "ptime":
        return [r.v % 2**32], g(ty == T.TIME, T.TIME)
    if kind == "psha1":
        return [rep(r.b, 20)], g(ty == T.SHA1, T.SHA1)
    if kind == "psha1null":
        return [""], (T.SHA1, b"\0" * 20) if ty == T.SHA1 else None
    raise KeyError(kind)

ELEM_KINDS = ("tag", "str", "strnull", "blob", "blobnull", "hex", "i32", "i64", "float", "guid", "sha1", "time", "time64", "u32", "u64", "double", "data", "ptag", "pi32", "pi64", "pstr", "ptime", "psha1", "psha1null")
ELEM_OK = {}
for _t in range(T.LAST):
    if _t != T.UNKNOWN:
        ELEM_OK[_t] = [k for k in ELEM_KINDS if not (k == "data" and _t == T.VARIANT) and make_elem(k, _t, Raw(1, b"x", "x"))[1] is not None and (k != "tag" or _t == T.NULL)] or ["tag"]

def make_attr(kind, ty, r):
    """Returns (driver arguments, result code, None or (vt, data))."""
    g = lambda ok, vt: ((1, (vt, r.data(vt))) if ok else (0, None))
    if kind == "null":
        a, x = [""], g(ty == T.NULL, T.NULL)
    elif kind in ("str", "str2"):
        a, x = [r.s], g(ty == T.STRING, T.STRING)
    elif kind == "strnull":
        a, x = [""], (1, None)
    elif kind == "blob":
        a, x = [r.b], g(ty == T.BLOB, T.BLOB)
    elif kind == "blobnull":
        n = len(r.b)
        a, x = [n], (1, (T.BLOB, struct.pack("<I", n) + b"\0" * n)) if ty == T.BLOB else (0, None)
    elif kind == "hex":
        a, x = [r.b], g(ty == T.HEX, T.HEX)
    elif kind == "i32":
        a, x = [s32(r.v)], g(ty == T.INT32, ty)
    elif kind == "u32":
        a, x = [r.v % 2**32], g(ty == T.UINT32, ty)
    elif kind == "i64":
        a, x = [s64(r.v)], g(ty in IS8, ty)
    elif kind == "u64":
        a, x = [r.v % 2**64], g(ty == T.UINT64, ty)
    elif kind == "float":
        a, x = [pack4(r.v)], g(ty == T.FLOAT, ty)
    elif kind == "double":
        a, x = [pack8(r.v)], g(ty == T.DOUBLE, ty)
    elif kind == "guid":
        a, x = [rep(r.b, 16)], g(ty == T.GUID, ty)
    elif kind == "sha1":
        a, x = [rep(r.b, 20)], g(ty == T.SHA1, ty)
    elif kind == "time":
        a, x = [r.v % 2**32], g(ty == T.TIME, ty)
    elif kind == "time64":
        a, x = [s64(r.v)], g(ty == T.MSEC, ty)
    elif kind == "data":
        a, x = [r.data(ty), ty], g(ty != T.VARIANT, ty)
    else:
        raise KeyError(kind)
    return a, x[0], x[1]

ATTR_KINDS = ("null", "str", "str2", "strnull", "blob", "blobnull", "hex", "i32", "u32", "i64", "u64", "float", "double", "guid", "sha1", "time", "time64", "data")
ATTR_OK = {}
for _t in range(T.LAST):
    if _t not in (T.UNKNOWN, T.VARIANT):
        ATTR_OK[_t] = [k for k in ATTR_KINDS if k != "strnull" and make_attr(k, _t, Raw(1, b"x", "x"))[1]]
ATTR_OK[T.VARIANT] = ["strnull"]

# ---- scripts ---------------------------------------------------------------------------------------------
class Script:
    """Driver commands with the outputs the model expects."""
    def __init__(self):
        self.cmd = ["bw"]
        self.exp = []
        self.next_h = 0

    def h(self):
        self.next_h += 1
        return self.next_h - 1

    def op(self, *args, out=(1,), note=""):
        """out: expected outputs (int, bytes, str, None = null, ANY, or callable(bytes) -> error text or None)."""
        self.cmd += args
        for o in out:
            self.exp.append((o, "%s %s" % (" ".join(short(a) for a in args), note)))

    def run(self, ctx):
        r = ctx.raw(*self.cmd)
        for i, (e, what) in enumerate(self.exp):
            if i >= len(r.blobs):
                if r.ok:
                    raise Violation("no output of: " + what)
                raise Violation("died in: %s: %s" % (what, r.describe()))
            b = r.blobs[i]
            if e is ANY:
                continue
            if callable(e):
                m = e(b)
                if m:
                    raise Violation("%s: %s" % (what, m))
                continue
            if e is None:
                w = b"~"
            elif isinstance(e, bytes):
                w = e
            elif isinstance(e, str):
                w = e.encode()
            else:
                w = str(int(e)).encode()
            if b != w:
                raise Violation("%s: %s" % (what, differ(w, b)))
        if not r.ok:
            raise Violation("died after the last operation: " + r.describe())
        return r.blobs

def short(a):
    if isinstance(a, (bytes, str)) and len(a) > 40:
        return "%r..(%d)" % (a[:30], len(a))
    return a if isinstance(a, str) and a.isidentifier() else repr(a)

def differ(w, b):
    if len(w) < 200 and len(b) < 200:
        return "got %r, expected %r" % (b, w)
    i = next((k for k in range(min(len(w), len(b))) if w[k] != b[k]), min(len(w), len(b)))
    lo = max(0, i - 60)
    return "differs at %d: got ..%r, expected ..%r" % (i, b[lo:i + 80], w[lo:i + 80])
