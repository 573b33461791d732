"""C14: files with an open end: every appended element is visible, in order and whole, at any moment of any history."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *
from vlib.bwread import *

ASSUMPTIONS = ["all names are registered before the file is created (a batch with a later name must be refused and change nothing)",
               "the open end is the last child of its element"]

class Out:
    """One created file: what it has to show."""
    def __init__(self, k, fn, N, open_el):
        self.k, self.fn, self.N, self.el, self.sizes = k, fn, N, open_el, []

    def expected(self):
        return dump_check(self.N, self.N.root)

def copy(e):
    n = El(-1, e.elem, e.id, e.vt, e.val, e.cap)
    n.attrs = [copy(a) for a in e.attrs]
    n.kids = [copy(k) for k in e.kids]
    return n

class History:
    def __init__(self, types, opened):
        self.M = Machine(types, pool=0x4000000, verify=False, limit=60)
        self.D, self.S, self.w = self.M.D, self.M.S, self.M.w
        self.outs, self.readers, self.lists, self.notes, self.nr, self.late = [], [], [], {}, 0, []

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def build(self, ops):
        for op in ops:
            self.M.step(op)

    def create(self, pos, open_len):
        """Adds the open end to an element and writes the document."""
        S, D = self.S, self.D
        p = self.M.pick([e for e in D.walk(D.root) if e.elem], pos) if pos < 24 else D.root
        e = El(S.h(), True, -9, T.NULL)
        S.op("mk", self.w, e.h, "tag", -9, "")
        S.op("add", p.h, e.h)
        k = len(self.outs)
        fn = "x%d.xb" % k
        S.op("creator", k, self.w, fn)
        S.op("doall", k)
        old = D.root
        N = snapshot(D, D.root)
        q = N.root
        for i in self.path(p):
            q = q.kids[i]
        S.op("rem", p.h, e.h)       # the model keeps the document without it
        o = Out(k, fn, N, q)
        self.outs.append(o)
        self.look(o)

    def path(self, p):
        r = []
        while p.parent is not None:
            r.append(index(p.parent.kids, p))
            p = p.parent
        return reversed(r)

    def look(self, o, keep=False):
        r = self.nr = self.nr + 1
        self.S.op("ropen", r, o.fn)
        f = o.expected()
        self.S.op("rdump", r, 2, out=[f])
        if keep:
            self.readers.append((r, f))
        else:
            self.S.op("rclose", r)

    def write(self, o, e, how):
        """Appends the list starting with e; how 0 = Write (to the creator linked last), 1 = Append of every element."""
        S = self.S
        ring = rot(e)
        if how == 0 and o is self.outs[-1]:
            S.op("write", self.w, e.h)
            self.note("write %s" % ("one" if len(ring) == 1 else "several"))
        else:
            for x in ring:
                S.op("append", o.k, x.h)
            self.note("append")
        for x in ring:
            o.el.kids.append(copy(x))

    def step(self, op):
        name, a, b, k, ops = op
        S, D, M = self.S, self.D, self.M
        o = self.outs[a % len(self.outs)]
        if name == "batch":
            self.build([x if n else ("new",) + x[1:3] + (40,) + x[4:] for n, x in enumerate(ops)])
            tops = [e for e in M.detached() if e.ring[0] is e]
            take = tops[-1 - b % 4:]
            if not take:
                return
            for x in take[1:]:
                S.op("join", take[0].h, x.h)
                D.join(take[0], x)
            self.write(o, take[0], k % 2)
        elif name == "again":
            tops = [e for e in M.detached() if e.ring]
            if tops:
                self.write(o, tops[b % len(tops)], k % 2)
                self.note("again")
        elif name == "edit":
            self.build(ops)
        elif name == "clear":
            S.op("clear", self.w)
            D.root, D.els = None, []
            M.limit = 60
            S.op("tree", self.w, out=[None])
            N = Doc()
            N.tags, N.attrs = D.tags + self.late, D.attrs
            S.op("dict", self.w, out=N.dict())
            self.note("clear")
        elif name == "look":
            self.look(o, k % 4 == 0)
        elif name == "old":
            for r, f in self.readers:
                S.op("rdump", r, 2, out=[f])
                self.note("old reader")
        elif name == "create":
            if D.root is not None and len(self.outs) < 3:
                self.create(b, 0)
                self.note("second file")
        elif name == "late":
            if len(self.late) > 4:
                return
            id = len(D.tags) + len(self.late)
            n = "late%d" % id
            S.op("regTn", self.w, n, T.NULL, out=[id])
            self.late.append([n, T.NULL])       # not for other operations
            S.op("all", self.w)
            h, h2 = S.h(), S.h()
            S.op("mk", self.w, h, "tag", id, "")
            if b % 2:           # hidden inside of a known element
                S.op("mk", self.w, h2, "tag", 0, "")
                S.op("add", h2, h)
                h = h2
            got = []
            S.op("read", o.fn, out=[got.append])
            S.op("append", o.k, h, out=[0])
            S.op("read", o.fn, out=[lambda x: None if got[0] == x else "refused append changed the file"])
            self.note("late name")
        self.look(o)

def oracle(ctx, case):
    types, ops, pos, hist = case
    H = History(types, pos)
    H.M.begin()
    H.build(ops)
    H.create(pos, 0)
    for op in hist:
        H.step(op)
    for o in H.outs:
        H.look(o)
    H.S.run(ctx)
    for n in H.notes:
        ctx.note(n)

def cut(ctx, case):
    """The file with appended elements cut at any byte shows a prefix of them: those which fit as a whole."""
    types, ops, pos, hist, cuts = case
    H = History(types, pos)
    H.M.begin()
    H.build(ops)
    H.create(pos, 0)
    S, o = H.S, H.outs[0]
    n = len(o.el.kids)
    sizes, first = [], []
    S.op("fsize", o.fn, out=[first.append])
    def write(o, e, how):
        for x in rot(e):
            S.op("append", o.k, x.h)
            o.el.kids.append(copy(x))
            S.op("fsize", o.fn, out=[sizes.append])
    H.write = write
    for op in hist:
        H.step(("batch",) + op[1:])
    S.op("read", o.fn, out=[ANY])
    data = S.run(ctx)[-1][1:]
    sizes, base = [int(x) for x in sizes], int(first[0])
    ctx.note("elements %d" % min(len(sizes), 9))
    S = Script()
    kids = o.el.kids
    for i, c in enumerate(cuts):
        at = base + c % (len(data) - base + 1)
        if i % 3 == 0 and sizes:        # near the end of an element
            at = max(base, min(len(data), sizes[c % len(sizes)] + c % 7 - 3))
        whole = sum(s <= at for s in sizes)
        o.el.kids = kids[:n + whole]
        S.op("file", "c.xb", data[:at], out=[])
        S.op("ropen", 0, "c.xb")
        S.op("rdump", 0, 2, out=[o.expected()])
        S.op("rclose", 0)
    S.run(ctx)

BUILD = ("newadd", "newadd", "newadd", "newadd", "at", "at", "at", "bat", "btag", "new", "sets")
BIGB = st.one_of(SMALLB, st.builds(rep, st.binary(min_size=1, max_size=3), st.sampled_from([4000, 4096, 20000, 70000])))
BIGS = st.one_of(SMALLS, st.builds(lambda s, n: (s * n)[:n], st.text(st.sampled_from("xyz"), min_size=1, max_size=2), st.sampled_from([4000, 4096, 20000, 70000])))
def hist(names, b, s, n):
    return st.lists(st.tuples(st.sampled_from(names), IDX, IDX, IDX, st.lists(op_strategy(BUILD, b=b, s=s), min_size=1, max_size=9)), min_size=1, max_size=n)
def cases(b, s, n):
    return st.tuples(TYPES, st.lists(op_strategy(BUILD, b=b, s=s), max_size=10), IDX, hist(("batch", "batch", "batch", "batch", "batch", "again", "edit", "clear", "clear", "look", "old", "create", "late"), b, s, n))
CUT = st.tuples(TYPES, st.lists(op_strategy(BUILD), max_size=6), IDX, hist(("batch",), SMALLB, SMALLS, 4), st.lists(st.integers(0, 100000), min_size=4, max_size=24))
NT = lambda c: sum(o[0] == "batch" for o in c[3]) >= 2
SUBS = [
    Sub("histories", "drv_bw", cases(SMALLB, SMALLS, 10), oracle, 3000, nontrivial=NT, rule="at least two batches are appended"),
    Sub("large", "drv_bw", cases(BIGB, BIGS, 8), oracle, 500, nontrivial=NT, rule="at least two batches are appended"),
    Sub("cut", "drv_bw", CUT, cut, 1200, nontrivial=NT, rule="at least two batches are appended"),
]
