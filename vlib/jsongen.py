"""JSON documents as trees, rendered with known token positions.
Node: ("o", [(key_raw, node)...]) | ("a", [node...]) | ("s", raw_string_body) | ("p", primitive_text)"""
from hypothesis import strategies as st

OBJ, ARR, STR, PRIM = 1, 2, 3, 4
numbers = st.one_of(st.sampled_from(["0", "-0", "1", "-1", "10", "3.25", "-0.5", "1e5", "1E-5", "1.5e+10", "123456789012345678901234567890", "0.1", "2147483648", "-2147483649", "9223372036854775808", "6", "7.8e9", "9E-06"]),
                    st.integers(-2**65, 2**65).map(str), st.integers(-1000, 1000).map(str), st.floats(allow_nan=False, allow_infinity=False).map(lambda f: repr(f)))
prims = st.one_of(numbers, st.sampled_from(["true", "false", "null"]))
ESC = st.sampled_from(['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\uD83D\\uDE00", "\\u20AC", "\\ufffd"])
UESC = st.text(st.sampled_from("0123456789abcdefABCDEF"), min_size=4, max_size=4).map(lambda h: "\\u" + h)  # not for checks which read the character
plainc = st.characters(codec="utf-8", exclude_categories=("Cs", "Cc"), exclude_characters="\"\\")
def strings(max_size=12, esc=True):
    piece = st.one_of(st.text(plainc, max_size=6), st.sampled_from(["{", "}", "[", "]", ",", ":", " ", "a:b", "1", "<&>", "'", "true", "\x7f", "\x80"]), *([ESC, UESC] if esc else []))
    return st.one_of(st.lists(piece, max_size=max_size // 2).map("".join), st.sampled_from(["", " ", "x", "long " * 60]))

def trees(key, strs, prim=prims, leaves=25, root="o"):
    leaf = st.one_of(strs.map(lambda s: ("s", s)), prim.map(lambda p: ("p", p)))
    def ext(n):
        return st.one_of(st.lists(n, max_size=5).map(lambda l: ("a", l)), st.lists(st.tuples(key, n), max_size=5).map(lambda l: ("o", l)))
    t = st.recursive(leaf, ext, max_leaves=leaves)
    if root == "o":
        return st.lists(st.tuples(key, t), max_size=6).map(lambda l: ("o", l))
    return t

WSS = ["", "", "", " ", "\n", "\t", "  ", "\r\n", "\n    "]

class Render:
    """Text (bytes) and tokens [type,start,end,size,parent]; ws(seed) picks white space."""
    def __init__(self, node, r):
        self.b, self.t, self.r = bytearray(), [], r
        self.ws()
        self.node(node, -1)
        self.ws()

    def ws(self):
        if self.r is not None:
            self.b += self.r.choice(WSS).encode()

    def string(self, s, parent, size):
        e = s.encode()
        self.b += b'"' + e + b'"'
        self.t.append([STR, len(self.b) - 1 - len(e), len(self.b) - 1, size, parent])

    def node(self, n, parent):
        k, v = n
        if k == "s":
            self.string(v, parent, 0)
        elif k == "p":
            self.b += v.encode()
            self.t.append([PRIM, len(self.b) - len(v), len(self.b), 0, parent])
        else:
            me = len(self.t)
            tok = [OBJ if k == "o" else ARR, len(self.b), None, len(v), parent]
            self.t.append(tok)
            self.b += b"{" if k == "o" else b"["
            for i, x in enumerate(v):
                if i:
                    self.b += b","
                self.ws()
                if k == "o":
                    kt = len(self.t)
                    self.string(x[0], me, 1)
                    self.ws()
                    self.b += b":"
                    self.ws()
                    self.node(x[1], kt)
                else:
                    self.node(x, me)
                self.ws()
            if not v:
                self.ws()
            self.b += b"}" if k == "o" else b"]"
            tok[2] = len(self.b)
