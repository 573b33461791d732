"""Independent Python reader of the .xb layout: gives the fields of a file for structure-aware mutation."""
import struct

VAR = (3, 8, 24)
FOUR = (4, 6, 11, 12, 17, 18, 19, 20, 21, 22, 23)
EIGHT = (5, 7, 15, 16)
ALIGN8 = EIGHT + (13,)

def al(p, t):
    if t in ALIGN8:
        return (p + 7) & ~7
    if t in (0, 1, 2, 14, 25):
        return p
    return (p + 3) & ~3

def fields(b):
    """List of (offset, size, kind) of all fields reachable from the root of a valid file (each shared node once)."""
    out, seen = [], set()
    stack = [0]
    top = []
    while stack or top is not None:
        if not stack:
            break
        o = stack.pop()
        if o in seen or o + 12 > len(b):
            continue
        seen.add(o)
        name, pc, cc, ln = struct.unpack_from("<hhii", b, o)
        out += [(o, 2, "name"), (o + 2, 2, "paramcount"), (o + 4, 4, "childcount"), (o + 8, 4, "length")]
        for i in range(pc):
            p = o + 12 + 8 * i
            t = b[p + 2]
            out += [(p, 2, "param name"), (p + 2, 1, "param type"), (p + 4, 4, "param data")]
            if t in VAR:
                d = struct.unpack_from("<i", b, p + 4)[0]
                out.append((al(o + d, t), 4, "blob size"))
            elif t not in FOUR and t:
                d = struct.unpack_from("<i", b, p + 4)[0]
                out.append((al(o + d, t), 1, "param bytes"))
        q = o + 12 + 8 * pc
        for i in range(cc):
            out.append((q + 4 * i, 4, "child"))
            stack.append(o + struct.unpack_from("<i", b, q + 4 * i)[0])
        q += 4 * cc
        t = b[q]
        out.append((q, 1, "value type"))
        v = al(q + 1, t)
        if t in VAR:
            out.append((v, 4, "blob size"))
            if name in (-3, -4):
                n = struct.unpack_from("<i", b, v)[0]
                cnt = struct.unpack_from("<i", b, o + 12 + 4)[0]
                out += [(v + 4 + 4 * i, 4, "symbol") for i in range(cnt) if v + 8 + 4 * i <= len(b)]
                out += [(v + 4 + n - 1, 1, "last symbol byte")]
        elif t:
            out.append((v, 1, "value bytes"))
    return [f for f in out if f[0] + f[1] <= len(b)]
