"""Inputs of a decoder, split into the classes the MessagePack specification distinguishes."""
from base import *
from domain import Infeasible

# (name, first byte low, high, kind, payload: 'fix' value in the byte, 'val' n bytes of value, 'len' n bytes of length)
FORMATS = [
    ("posfix", 0x00, 0x7f, "uint", "fix", 0), ("fixmap", 0x80, 0x8f, "map", "fix", 0), ("fixarray", 0x90, 0x9f, "array", "fix", 0),
    ("fixstr", 0xa0, 0xbf, "str", "fix", 0), ("nil", 0xc0, 0xc0, "nil", "none", 0), ("reserved", 0xc1, 0xc1, "reserved", "none", 0),
    ("false", 0xc2, 0xc2, "bool", "fix", 0), ("true", 0xc3, 0xc3, "bool", "fix", 0),
    ("bin8", 0xc4, 0xc4, "bin", "len", 1), ("bin16", 0xc5, 0xc5, "bin", "len", 2), ("bin32", 0xc6, 0xc6, "bin", "len", 4),
    ("ext8", 0xc7, 0xc7, "ext", "len", 1), ("ext16", 0xc8, 0xc8, "ext", "len", 2), ("ext32", 0xc9, 0xc9, "ext", "len", 4),
    ("float", 0xca, 0xca, "float", "val", 4), ("double", 0xcb, 0xcb, "double", "val", 8),
    ("u8", 0xcc, 0xcc, "uint", "val", 1), ("u16", 0xcd, 0xcd, "uint", "val", 2), ("u32", 0xce, 0xce, "uint", "val", 4), ("u64", 0xcf, 0xcf, "uint", "val", 8),
    ("i8", 0xd0, 0xd0, "int", "val", 1), ("i16", 0xd1, 0xd1, "int", "val", 2), ("i32", 0xd2, 0xd2, "int", "val", 4), ("i64", 0xd3, 0xd3, "int", "val", 8),
    ("fixext1", 0xd4, 0xd4, "ext", "fixlen", 1), ("fixext2", 0xd5, 0xd5, "ext", "fixlen", 2), ("fixext4", 0xd6, 0xd6, "ext", "fixlen", 4),
    ("fixext8", 0xd7, 0xd7, "ext", "fixlen", 8), ("fixext16", 0xd8, 0xd8, "ext", "fixlen", 16),
    ("str8", 0xd9, 0xd9, "str", "len", 1), ("str16", 0xda, 0xda, "str", "len", 2), ("str32", 0xdb, 0xdb, "str", "len", 4),
    ("array16", 0xdc, 0xdc, "array", "len", 2), ("array32", 0xdd, 0xdd, "array", "len", 4),
    ("map16", 0xde, 0xde, "map", "len", 2), ("map32", 0xdf, 0xdf, "map", "len", 4),
    ("negfix", 0xe0, 0xff, "int", "fix", 0),
]
assert sum(f[2] - f[1] + 1 for f in FORMATS) == 256


def ucuts(n):
    """classes of an n-bit unsigned value, cut where some integer type of C begins or ends"""
    c = sorted({x for x in (0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63) if x < (1 << n)}) + [1 << n]
    return [(a, b - 1) for a, b in zip(c, c[1:])]


def scuts(n):
    """the same for an n-bit two's complement value, as unsigned intervals"""
    pos = [(a, b) for a, b in ucuts(n) if b < (1 << (n - 1))]
    neg = sorted({(1 << n) - x for x in (1 << 7, 1 << 15, 1 << 31, 1 << 63) if x <= (1 << (n - 1))} | {1 << (n - 1), 1 << n})
    return pos + [(a, b - 1) for a, b in zip(neg, neg[1:])]


class Case:
    """one class of encoded values; after put(), self.v is the decoded value as a 64-bit term and (lo, hi) its range"""
    def __init__(self, name, fmt, iv=None):
        self.name, self.fmt, self.iv = name, fmt, iv
        self.kind = fmt[3]
        self.rel = None
        self.v = None

    def srange(self):
        """range of the decoded integer as Python integers"""
        f = self.fmt
        if f[0] == "negfix":
            return -32, -1
        if f[4] == "fix":
            return {"posfix": (0, 127), "fixmap": (0, 15), "fixarray": (0, 15), "fixstr": (0, 31), "false": (0, 0), "true": (1, 1)}[f[0]]
        lo, hi = self.iv
        if self.kind == "int" and lo >= 1 << (8 * f[5] - 1):
            return lo - (1 << 8 * f[5]), hi - (1 << 8 * f[5])
        return lo, hi


def int_cases(kinds=("uint", "int")):
    out = []
    for f in FORMATS:
        if f[3] not in kinds or f[3] not in ("uint", "int"):
            continue
        if f[4] == "fix":
            out.append(Case(f[0], f))
        else:
            for a, b in (ucuts if f[3] == "uint" else scuts)(8 * f[5]):
                out.append(Case("%s[%x..%x]" % (f[0], a, b), f, (a, b)))
    return out


def other_cases():
    return [Case(f[0], f) for f in FORMATS if f[3] not in ("uint", "int")]


def put_reader(eng, st, obj, case, room=32):
    """makes the reader's unread bytes start with a value of this class, at least `room` bytes of them"""
    F = Fields(eng, READER)
    d, e = F.get(st, obj, "data"), F.get(st, obj, "end")
    st.add_le(ladd(lsub(lin(d), lin(e)), (room, ())))
    key = ((d, 1),)
    f = case.fmt
    if f[1] == f[2]:
        b0 = const(8, f[1])
    else:
        b0 = atom(8, ("wire", f[0]), {})
        st.set_u(b0, f[1], f[2])
    eng.write_cells(st, key, 0, 1, b0)
    case.d = d
    case.size = 1
    case.b0 = b0
    if f[4] == "fix":
        if f[0] == "negfix":
            case.v = sext(b0, 64)
        elif f[0] == "posfix":
            case.v = zext(b0, 64)
        elif f[0] in ("false", "true"):
            case.v = const(64, f[0] == "true")
        else:
            case.v = zext(extract(b0, 0, 5 if f[0] == "fixstr" else 4), 64)
    elif f[4] in ("val", "len"):
        n = f[5]
        V = atom(8 * n, ("wirev", f[0]), {})
        if case.iv and case.iv[0] == case.iv[1]:
            V = const(8 * n, case.iv[0])
        elif case.iv:
            st.set_u(V, *case.iv)
        for k in range(n):
            eng.write_cells(st, key, 1 + k, 1, extract(V, 8 * (n - 1 - k), 8))
        case.v = (sext if f[3] == "int" else zext)(V, 64)
        case.raw = V
        case.size = 1 + n
    elif f[4] == "fixlen":
        case.v = const(64, f[5])
    if f[3] == "ext":
        case.exttype = atom(8, ("wiret", f[0]), {})
        eng.write_cells(st, key, case.size, 1, case.exttype)
        case.size += 1
    return case


def bit(s, t, i):
    """bit i of t: 0, 1 or (atom, bit)"""
    if i >= t.w:
        return 0
    t = s.norm(extract(t, i, 1))
    if t.k == "c":
        return t.a[0]
    if t.k == "ext":
        x, j = t.a[0], t.a[1]
        if x.k == "lin" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            x = x.a[1][0][0]
        if x.k in ("or", "and", "xor"):
            a, b = bit(s, x.a[0], j), bit(s, x.a[1], j)
            one = 1 if x.k == "and" else 0
            if a == one or b == one:
                return b if a == one else a
        if s.bounds(x)[1] < 1 << j:
            return 0
        lo, hi = s.bounds(x)
        if lo >> j == hi >> j:
            return lo >> j & 1
        return (x, j)
    return (t, 0)


def samebits(s, a, b):
    return a.w == b.w and all(bit(s, a, i) == bit(s, b, i) for i in range(a.w))


def put_node(eng, st, data, kind, v):
    """makes the node at data one of the given type and value (v: 64-bit term, or None)"""
    m = eng.m
    key, base = eng.split(data)
    o, n = m.offset_of(NODEDATA, "type")[:2]
    eng.write_cells(st, key, base + o, n, const(8 * n, m.enum_values("mpack_type_t")["mpack_type_" + kind]))
    if v is not None:
        o, n = m.offset_of(NODEDATA, "value")[:2]
        eng.write_cells(st, key, base + o, v.w // 8, v)
