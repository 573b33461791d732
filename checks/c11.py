"""C11: histories of tree edits on a .xbw document against an ordered-tree model."""
from hypothesis import strategies as st
from vlib.core import Sub, Violation
from vlib.bwmachine import *

ASSUMPTIONS = ["operations are used as declared: a list is joined or added to one place only and no element becomes its own descendant"]

def oracle(ctx, case):
    types, ops = case
    M = Machine(types)
    for op in ops:
        M.step(op)
    M.check_all()
    M.S.op("dict", 0, out=M.D.dict())
    M.S.op("fin", 0)
    M.S.run(ctx)
    for k, n in M.done.items():
        ctx.note(k)

def convert(ctx, case):
    """tagData and attrData: values of the declared type, their canonical texts and values of other types."""
    S = Script()
    S.op("new", 0, "d.xbw", 0x100000, 0)
    ts = sorted({c[0] for c in case})
    D = Doc()
    D.tags, D.attrs = [["t%d" % t, t] for t in ts], [["a%d" % t, t] for t in ts]
    for i, t in enumerate(ts):
        S.op("regT", 0, i, "t%d" % t, t)
        S.op("regA", 0, i, "a%d" % t, t)
    S.op("all", 0)
    D.root = El(S.h(), True, 0, T.NULL)
    S.op("mk", 0, D.root.h, "tag", 0, "")
    S.op("root", 0, D.root.h)
    for t, (vt, raw), how in case:
        id = ts.index(t)
        if how == "text":       # canonical text of a value of the declared type
            given, data, want = T.STRING, T.ref_text(t, raw) + b"\0", raw
            vt = t
        elif how == "lost":     # a name declared to have no value
            given, data, want = T.STRING, b"x\0", None
        else:
            given, data = vt, raw
            want = raw if t in (vt, T.VARIANT) else None
        none = given == T.NULL
        if none:
            data, want = b"", b""
        h = S.h()
        S.op("mk", 0, h, "data", id, data, given, out=[1 if want is not None else 0])
        if want is not None:
            e = El(h, True, id, T.NULL)
            set_value(e, vt, want)
            S.op("add", D.root.h, h)
            D.add(D.root, e)
            ctx.note("%s %s" % (how, "ok"))
        if t != T.VARIANT and not (none and t != T.NULL):
            ok = want is not None
            S.op("at", D.root.h, "data", id, data, given, out=[1 if ok else 0])
            if ok:
                e = El(-1, False, id, T.NULL)
                set_value(e, vt, want)
                D.add(D.root, e)
    S.op("dump", 0, D.root.h, out=[D.dump(D.root)])
    S.op("fin", 0)
    S.run(ctx)

def conv_case(v, other, how, pick):
    t, raw = v
    if how == "text" and t not in T.EXT or t in (T.FLOAT, T.DOUBLE, T.BSTR, T.BLOB) and how == "text" or t in (T.DATE, T.MSEC) and not T.in_range(t, raw):
        how = "same"
    if t == T.NULL and how == "text":
        return t, v, "lost"
    if how == "other":
        if t == T.NULL or other[0] == t or other[0] == T.STRING:
            how = "same"
        else:
            return t, other, how
    if how == "variant":
        return T.VARIANT, v, how
    return t, v, how
CONVERT = st.lists(st.builds(conv_case, T.VALUE, T.VALUE, st.sampled_from(["text", "text", "same", "other", "variant"]), IDX), min_size=1, max_size=12)
BUILD = st.lists(op_strategy(("new", "newadd", "newadd", "newadd", "at")), min_size=3, max_size=12)
CASES = st.tuples(TYPES, st.builds(lambda a, b: a + b, BUILD, st.lists(op_strategy(OPS), min_size=6, max_size=60)))
FEW = st.tuples(st.tuples(st.lists(st.sampled_from([T.NULL, T.STRING, T.STRING, T.INT32, T.INT64, T.BSTR, T.SHA1, T.TIME]), min_size=1, max_size=3), st.lists(st.sampled_from(ATTR_TYPES), min_size=1, max_size=2)),
                st.builds(lambda a, b: a + b, BUILD, st.lists(op_strategy(("newadd", "rem", "repl", "replv", "tset", "tset", "tset", "sets", "sets", "at", "move", "look", "fparam", "join", "joinkid")), min_size=6, max_size=60)))

EDIT = ("join", "joinkid", "rem", "remat", "repl", "replv", "replat", "tset", "sets", "move", "moveat", "retype", "seti")
nontrivial = lambda c: sum(o[0] in EDIT for o in c[1]) >= 3
SUBS = [
    Sub("edits", "drv_bw", CASES, oracle, 6000, nontrivial=nontrivial, rule="at least three editing operations (join, remove, replace, set, move, retype) after building"),
    Sub("few", "drv_bw", FEW, oracle, 5000, nontrivial=nontrivial, rule="few names, so that several elements compete for one name"),
    Sub("convert", "drv_bw", CONVERT, convert, 3000, nontrivial=lambda c: any(x[2] == "text" for x in c), rule="a text is converted to a typed value"),
]
