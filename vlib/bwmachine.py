"""Interpreter of generated edit histories: runs them on the model and writes the matching driver script."""
import struct
from hypothesis import strategies as st
from checks import c19 as T, c21
from fractions import Fraction
from . import values
from .bwmodel import *

# one generated operation: (name, a, b, c, k, integer, bytes, text); small integers choose among what exists at that moment
INT = st.one_of(st.integers(-2**63, 2**64 - 1), st.integers(-300, 300), st.sampled_from([0, 1, -1, 2**31 - 1, -2**31, 2**32 - 1, 2**63 - 1, -2**63, 2**64 - 1]))
SMALLB = st.one_of(st.binary(max_size=12), st.builds(rep, st.binary(min_size=1, max_size=5), st.sampled_from([0, 15, 16, 17, 31, 63, 64, 255, 256, 1000])))
SMALLS = st.one_of(st.text(st.sampled_from("ab<&\"' 1é"), max_size=9), st.builds(lambda s, n: (s * n)[:n], st.text(st.sampled_from("xyz0€"), min_size=1, max_size=3), st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 31, 32, 60, 100, 255, 256, 1000])))
IDX = st.integers(0, 63)
OPS = ("new", "newadd", "newadd", "newadd", "at", "at", "at", "join", "joinkid", "add", "rem", "remat", "repl", "replv", "replat", "retype", "tset", "tset", "look", "fparam", "typed", "sets", "sets", "seti", "move", "moveat", "bat")

def variant(val, c):
    """A text similar to given one."""
    if not val.isascii() or not val:
        return val + b"x" * (c % 9)
    return [val.swapcase(), val[:-1], val[1:], val[:-1] + b"~", b"~" + val[1:], val + b"x" * (1 + c % 5), val.upper(), val[:len(val) // 2]][c % 8]

def op_strategy(names, b=SMALLB, s=SMALLS):
    return st.tuples(st.sampled_from(names), IDX, IDX, IDX, IDX, INT, b, s)

TAG_TYPES = [T.NULL, T.NULL, T.STRING, T.STRING, T.VARIANT, T.BSTR, T.BLOB, T.HEX, T.GUID, T.SHA1, T.IP6] + sorted(IS4) + sorted(IS8)
ATTR_TYPES = [T.NULL, T.STRING, T.STRING, T.BSTR, T.BLOB, T.HEX, T.GUID, T.SHA1, T.IP6] + sorted(IS4) + sorted(IS8)
TYPES = st.tuples(st.lists(st.sampled_from(TAG_TYPES), min_size=1, max_size=7), st.lists(st.sampled_from(ATTR_TYPES), min_size=1, max_size=6))

class Machine:
    def __init__(self, types, fn="d.xbw", pool=0x100000, w=0, limit=70, script=None, verify=True):
        self.S = script or Script()
        self.D = Doc()
        self.w, self.fn, self.pool, self.limit, self.verify = w, fn, pool, limit, verify
        self.done = {}
        self.D.tags = [["t%d" % i, t] for i, t in enumerate(types[0])]
        self.D.attrs = [["a%d" % i, t] for i, t in enumerate(types[1])]
        self.S.op("new", w, fn, pool, 0)
        for i, (n, t) in enumerate(self.D.tags):
            self.S.op("regT", w, i, n, t)
        for i, (n, t) in enumerate(self.D.attrs):
            self.S.op("regA", w, i, n, t)
        self.S.op("all", w)

    def count(self, what):
        self.done[what] = self.done.get(what, 0) + 1

    # ---- selections ------------------------------------------------------------------------------------
    def elems(self):
        return [e for e in self.D.els if e.elem]

    def pick(self, lst, i):
        return lst[i % len(lst)] if lst else None

    def detached(self, elem=True):
        return [e for e in self.D.els if e.elem == elem and e.ring is not None and e is not self.D.root]

    def check(self, e):
        """Compare the whole tree or list which contains e."""
        if not self.verify:
            return
        t = self.D.top(e)
        if t is self.D.root:
            self.S.op("dump", self.w, t.h, out=[self.D.dump(t)])
        else:
            self.S.op("ring", self.w, t.h, out=[self.D.dump_ring(t)])

    def check_all(self):
        seen = set()
        for e in self.D.els:
            t = self.D.top(e)
            if id(t) in seen:
                continue
            for x in (t.ring if t.ring else [t]):
                seen.add(id(x))
            if t is self.D.root:
                self.S.op("dump", self.w, t.h, out=[self.D.dump(t)])
            else:
                self.S.op("ring", self.w, t.h, out=[self.D.dump_ring(t)])
        self.S.op("tree", self.w, out=[self.D.dump(self.D.root) if self.D.root else None])

    # ---- operations ------------------------------------------------------------------------------------
    def create(self, a, k, r):
        D = self.D
        id = a % len(D.tags)
        kinds = ELEM_OK[D.ttype(id)]
        kind = kinds[k % len(kinds)] if k < 52 else "tag" if k < 56 else ELEM_KINDS[(k * 7 + a) % len(ELEM_KINDS)]
        if kind == "data" and D.ttype(id) == T.VARIANT:
            kind = "str"
        args, res = make_elem(kind, D.ttype(id), r)
        h = self.S.h()
        self.S.op("mk", self.w, h, kind, id, *args, out=[1 if res else 0])
        self.count("new " + kind if res else "refused new")
        if res is None:
            return None
        e = El(h, True, id, T.NULL)
        set_value(e, *res)
        D.els.append(e)
        return e

    def attach(self, p, e):
        self.S.op("add", p.h, e.h)
        self.D.add(p, e)

    def cyclic(self, p, e):
        """Would adding the list of e below p make a cycle?"""
        t = self.D.top(p)
        return any(x is t for x in (t.ring and rot(e)) or [])

    def step(self, op):
        name, a, b, c, k, v, by, s = op
        D, S, w = self.D, self.S, self.w
        r = Raw(v, by, s)
        n0 = len(S.exp)
        if len(D.els) >= self.limit and name in ("new", "newadd", "at", "tset"):
            return
        getattr(self, "do_" + name)(a, b, c, k, r)
        if len(S.exp) > n0:
            self.count(name)

    def begin(self):
        """Root element without value."""
        id = next((i for i, (n, t) in enumerate(self.D.tags) if t == T.NULL), 0)
        e = El(self.S.h(), True, id, T.NULL)
        self.S.op("mk", self.w, e.h, "tag", id, "", out=[1])
        self.S.op("root", self.w, e.h)
        self.D.root = e
        self.D.els.append(e)

    def do_new(self, a, b, c, k, r):
        e = self.create(a, k, r)
        if e and self.D.root is None and c < 16:
            self.S.op("root", self.w, e.h)
            self.D.root = e
        if e:
            self.check(e)

    def do_newadd(self, a, b, c, k, r):
        p = self.pick(self.elems(), b)
        e = self.create(a, k, r)
        if p and e:
            self.attach(p, e)
            self.check(p)

    def do_at(self, a, b, c, k, r):
        D = self.D
        e = self.pick(self.elems(), b)
        if not e:
            return
        id = a % len(D.attrs)
        ty = D.atype(id)
        kinds = ATTR_OK[ty]
        kind = kinds[k % len(kinds)] if k < 54 else ATTR_KINDS[(k * 5 + a) % len(ATTR_KINDS)]
        if kind == "data" and ty == T.VARIANT:
            kind = "strnull"
        args, code, res = make_attr(kind, ty, r)
        self.S.op("at", e.h, kind, id, *args, out=[code])
        self.count("attr " + kind if code else "refused attr")
        if res:
            x = El(self.S.h(), False, id, T.NULL)
            set_value(x, *res)
            D.add(e, x)
            D.els.append(x)
            self.S.op("attat", x.h, e.h, len(e.attrs) - 1)
        self.check(e)

    def do_bat(self, a, b, c, k, r):
        """Attribute with a name known without registration."""
        e = self.pick(self.elems(), b)
        if not e:
            return
        id, kind = BUILTIN_ATTRS[a % len(BUILTIN_ATTRS)]
        args, code, res = make_attr(kind, BUILTIN_AT[id], r)
        self.S.op("at", e.h, kind, id, *args, out=[1])
        x = El(self.S.h(), False, id, T.NULL)
        set_value(x, *res)
        self.D.add(e, x)
        self.D.els.append(x)
        self.S.op("attat", x.h, e.h, len(e.attrs) - 1)
        self.check(e)

    def do_btag(self, a, b, c, k, r):
        p = self.pick(self.elems(), b)
        if not p:
            return
        e = El(self.S.h(), True, -10, T.NULL)
        self.S.op("mk", self.w, e.h, "tag", -10, "")
        self.D.els.append(e)
        self.attach(p, e)
        self.check(p)

    def do_join(self, a, b, c, k, r):
        l = self.detached(c < 50)
        x, y = self.pick(l, a), self.pick(l, b)
        if not x or x.ring is y.ring:
            return
        self.S.op("join", x.h, y.h)
        self.D.join(x, y)
        self.check(x)

    def do_joinkid(self, a, b, c, k, r):
        elem = c < 50
        x = self.pick([e for e in self.D.els if e.elem == elem and e.parent is not None], a)
        y = self.pick(self.detached(elem), b)
        if not x or not y or self.cyclic(x, y):
            return
        self.S.op("join", x.h, y.h)
        self.D.join(x, y)
        self.check(x)

    def do_add(self, a, b, c, k, r):
        p = self.pick(self.elems(), a)
        e = self.pick(self.detached(c < 50), b)
        if not p or not e or self.cyclic(p, e):
            return
        self.attach(p, e)
        self.check(p)

    def child(self, a, elem):
        return self.pick([e for e in self.D.els if e.parent is not None and e.elem == elem], a)

    def do_rem(self, a, b, c, k, r, elem=True):
        e = self.child(a, elem)
        if not e:
            return
        p = e.parent
        self.S.op("rem", p.h, e.h)
        self.D.detach(e)
        self.check(p)
        self.check(e)

    def do_remat(self, a, b, c, k, r):
        self.do_rem(a, b, c, k, r, False)

    def do_move(self, a, b, c, k, r, elem=True):
        e, p = self.child(a, elem), self.pick(self.elems(), b)
        if not e or any(x is p for x in self.D.walk(e)):
            return
        q = e.parent
        self.S.op("rem", q.h, e.h)
        self.D.detach(e)
        self.attach(p, e)
        self.check(p)
        self.check(q)

    def do_moveat(self, a, b, c, k, r):
        self.do_move(a, b, c, k, r, False)

    def do_repl(self, a, b, c, k, r, keep=False, elem=True):
        old = self.child(a, elem)
        new = self.pick([e for e in self.detached(elem) if len(e.ring) == 1 and not (keep and (e.attrs or e.kids))], b)
        if new is None and elem and old:
            new = self.create(c, k % 52, r)
        if not old or not new or self.cyclic(old, new):
            return
        p = old.parent
        self.S.op("replv" if keep else "repl", p.h, old.h, new.h)
        self.D.replace(old, new, keep)
        self.check(p)
        self.check(old)

    def do_replv(self, a, b, c, k, r):
        self.do_repl(a, b, c, k, r, True)

    def do_replat(self, a, b, c, k, r):
        self.do_repl(a, b, c, k, r, c % 2 == 0, False)

    def do_retype(self, a, b, c, k, r):
        e = self.pick(self.D.els, a)
        if not e or e.vt == T.BSTR:
            return
        t = [T.INT32, T.UINT32, T.TIME, T.FLOAT, T.INT64, T.UINT64, T.MSEC, T.DOUBLE, T.BLOB, T.HEX, T.STRING, T.NULL, T.GUID][b % 13]
        ok = t == e.vt or (t in IS4 and e.vt in IS4) or (t in IS8 and e.vt in IS8) or (t in (T.BLOB, T.HEX) and e.vt in (T.BLOB, T.HEX))
        self.S.op("retype", e.h, t, out=[int(ok)])
        if ok:
            e.vt = t
        self.check(e)

    def do_tset(self, a, b, c, k, r):
        D = self.D
        p = self.pick(self.elems(), b)
        if not p:
            return
        id = a % len(D.tags)
        old = [x for x in D.els if x.elem and x.parent is not None and x.vt in (T.STRING, T.INT32, T.INT64, T.TIME, T.SHA1)]
        strs = [x for x in old if x.vt == T.STRING]
        if old and c % 8:    # an existing value is mostly changed
            x = self.pick(strs if strs and c % 2 else old, b + a)
            p, id = x.parent, x.id
        ty = D.ttype(id)
        kinds = ["tag"] + (["i32", "i32"] if ty in IS4 else []) + (["i64", "i64"] if ty in IS8 else []) + (["str", "str", "strnull"] if ty == T.STRING else []) + (["time"] if ty == T.TIME else []) + (["sha1", "sha1null"] if ty == T.SHA1 else [])
        kind = kinds[k % len(kinds)] if k < 54 else ("tag", "i32", "i64", "str", "time", "sha1")[k % 6]
        t = next((x for x in p.kids if x.id == id), None)
        if kind == "str" and t is not None and t.vt == T.STRING and c < 48:
            val = variant(t.val, c) if c < 12 else t.val + b"x" * (1 + c % 6) if c < 36 else t.val[:-1 - c % 6]
            r = Raw(r.v, r.b, val.decode("utf-8", "replace"))
        if kind == "tag":
            args, made = [""], make_elem("ptag", ty, r)[1]
        else:
            args, made = make_elem({"i32": "pi32", "i64": "pi64", "str": "pstr", "strnull": "pstr", "time": "ptime", "sha1": "psha1", "sha1null": "psha1null"}[kind], ty, Raw(0, b"", "") if kind == "strnull" else r)
        h = self.S.h()
        new = False
        if t is None:
            res, new = made, made is not None
        elif kind == "tag":
            res = (t.vt, None)
        elif kind == "i32" and t.vt == T.INT32:
            res = (T.INT32, pack4(r.v))
        elif kind == "i64" and t.vt == T.INT64:
            res = (T.INT64, pack8(r.v))
        elif kind in ("str", "strnull") and t.vt == T.STRING:
            res = (T.STRING, (b"" if kind == "strnull" else r.s.encode()) + b"\0")
            if made is None:
                return      # the declared type was changed: outcome depends on allocation sizes
        elif kind in ("time", "sha1", "sha1null"):
            want = T.TIME if kind == "time" else T.SHA1
            res = None
            if t.vt == want:
                res = (want, pack4(r.v) if kind == "time" else b"\0" * 20 if kind == "sha1null" else rep(r.b, 20))
        else:
            res = made
        self.S.op("tset", h, p.h, kind, id, *args, out=[1, 1, 1] if res is not None else [0])
        self.count("tset " + ("refused" if res is None else "new" if t is None else "old"))
        if res is not None:
            if t is None:
                t = El(h, True, id, T.NULL)
                D.add(p, t)
                D.els.append(t)
            else:
                t.h = h     # the element may live elsewhere now
            if res[1] is not None:
                set_value(t, *res)
        self.check(p)

    def do_look(self, a, b, c, k, r):
        e = self.pick(self.elems(), a)
        if not e:
            return
        D = self.D
        f = lambda lst, n: "".join("%s " % next((str(i) for i, x in enumerate(lst) if x.id == t), "-") for t in range(n))
        self.S.op("look", e.h, len(D.tags), len(D.attrs), out=[f(e.kids, len(D.tags)) + "|" + f(e.attrs, len(D.attrs))])

    def do_fparam(self, a, b, c, k, r):
        D = self.D
        cand = [x for x in D.els if not x.elem and x.parent is not None and x.parent.parent is not None and x.vt != T.NULL]
        x = self.pick(cand, a)
        if not x:
            return
        p, tag, at, vt = x.parent.parent, x.parent.id, x.id, x.vt
        raw = lambda y: struct.pack("<I", y.cap) + y.val + b"\0" * (y.cap - len(y.val)) if y.vt == T.BSTR else y.data()
        data = raw(x)
        if k < 16:      # a value that may be absent
            data = r.data(vt)
        elif k >= 40:   # the same or close value of other type
            key = c21.key((vt, data))
            if key and key[0] == "number":
                n = key[1] + (0, 0, 0, 1, Fraction(1, 10), -1)[b % 6]
                ty = c21.WHOLE[c % len(c21.WHOLE)]
                n *= 10 ** T.DEC.get(ty, 0)
                lo, hi = struct.calcsize(T.FMT[ty]) * 8, T.FMT[ty][1].islower()
                lo, hi = (-2 ** (lo - 1), 2 ** (lo - 1)) if hi else (0, 2 ** lo)
                if n.denominator == 1 and lo <= n < hi:
                    vt, data = ty, struct.pack(T.FMT[ty], int(n))
            elif key and key[0] == "bytes":
                vt, data = c21.bytesy(c21.BYTESY[c % len(c21.BYTESY)], key[1])
            elif key and key[0] == "text":
                vt, data = (T.STRING, key[1] + b"\0") if c % 2 else (T.BSTR, struct.pack("<I", len(key[1]) + 1 + c % 5) + key[1] + b"\0" * (1 + c % 5))
            else:
                vt, data = T.INT32, data[:4]
        match = lambda y: c21.want((y.vt, raw(y)), (vt, data)) == 0
        i = next((n for n, q in enumerate(p.kids) if q.id == tag and any(y.id == at and match(y) for y in q.attrs)), -1)
        self.count("fparam " + ("nothing" if i < 0 else "same type" if vt == x.vt else "other type"))
        self.S.op("fparam", p.h, tag, at, vt, data, out=[i])

    def do_typed(self, a, b, c, k, r):
        e = self.pick(self.D.els, a)
        if not e:
            return
        sym, vt = self.D.sym(e), e.vt
        hx = lambda ok: "=" + e.data().hex() if ok else None
        self.S.op("typed", e.h, out=[hx(sym in IS4 and vt in IS4), hx(sym == T.FLOAT and vt in IS4), hx(sym == T.TIME and vt in IS4),
                                     hx(vt in IS8 and (sym == T.INT64 or vt in (T.INT64, T.MSEC))), hx(sym == T.UINT64 and vt in IS8), hx(sym == T.GUID and vt == T.GUID),
                                     b"=" + e.val if vt in (T.STRING, T.BSTR) else None])

    def do_sets(self, a, b, c, k, r):
        D = self.D
        cand = [x for x in D.els if x.parent is not None and x.vt in (T.STRING, T.BSTR)]
        e = self.pick(cand, a) if k < 58 else self.child(a, k % 2 == 0)
        if not e:
            return
        p = e.parent
        val = e.val if c < 8 else variant(e.val, c) if c < 24 else r.s.encode()
        if e.vt not in (T.STRING, T.BSTR):
            self.S.op("sets", e.h, self.w, p.h, val, out=[0])
            self.check(p)
            return
        ty = D.sym(e)
        cap = e.cap if e.vt == T.BSTR else len(e.val) + 1
        if val == e.val:
            self.S.op("sets", e.h, self.w, p.h, val, out=[0])
        elif len(val) + 1 <= cap:
            self.S.op("sets", e.h, self.w, p.h, val)
            e.val = val
        elif e.elem and ty not in (T.STRING, T.VARIANT, T.BSTR):
            self.S.op("sets", e.h, self.w, p.h, val, out=[0])
        else:
            self.S.op("sets", e.h, self.w, p.h, val)
            e.vt = (T.STRING if ty == T.VARIANT else ty) if e.elem else T.STRING
            e.val, e.cap = val, bstr_cap(len(val))
            i = index(p.kids if e.elem else p.attrs, e)
            e.h = self.S.h()
            self.S.op("kid" if e.elem else "attat", e.h, p.h, i)
        self.count("sets real")
        self.check(p)

    def do_seti(self, a, b, c, k, r):
        e = self.pick([x for x in self.D.els if x.vt in IS4 and self.D.sym(x) in IS4 or x.vt == T.INT64], a)
        if not e:
            return
        if e.vt in IS4:
            self.S.op("seti", e.h, "i32", s32(r.v))
            e.val = pack4(r.v)
        else:
            self.S.op("seti", e.h, "i64", s64(r.v))
            e.val = pack8(r.v)
        self.check(e)

    # ---- dictionary and life cycle ---------------------------------------------------------------------
    def do_newtag(self, a, b, c, k, r):
        D = self.D
        kind, tab, types = (("regTn", D.tags, TAG_TYPES), ("regPn", D.attrs, ATTR_TYPES))[c % 2]
        if len(tab) > 14:
            return
        n, t = "%s%d" % ("t" if kind == "regTn" else "a", len(tab)), types[a % len(types)]
        self.S.op(kind, self.w, n, t, out=[len(tab)])
        tab.append([n, t])
        self.S.op("all", self.w)
        self.S.op("dict", self.w, out=D.dict())

    def do_reopen(self, a, b, c, k, r):
        """Close and open again; every fourth time without closing, in a new process."""
        D, S = self.D, self.S
        S.op("fin", self.w)
        S.op("new", self.w, self.fn, self.pool if k % 2 else 0x100000, 0)
        if c % 2:
            for i, (n, t) in enumerate(D.tags):
                S.op("regT", self.w, i, n, t)
            for i, (n, t) in enumerate(D.attrs):
                S.op("regA", self.w, i, n, t)
            S.op("all", self.w)
        self.after_open()

    def after_open(self):
        D, S = self.D, self.S
        S.op("dict", self.w, out=D.dict())
        D.els = []
        if D.root is None:
            S.op("tree", self.w, out=[None])
            return
        D.els = list(D.walk(D.root))
        h0 = S.next_h
        S.next_h += len(D.els)
        S.op("enum", self.w, h0, out=[len(D.els)])
        for i, e in enumerate(D.els):
            e.h = h0 + i
        S.op("tree", self.w, out=[D.dump(D.root)])
