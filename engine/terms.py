"""Hash-consed value terms: the value part of the abstract domain.

A term is an exact description of a w-bit value in terms of atoms:
  c      constant
  a      atom (an unknown value: parameter, loaded field, call result, join result)
  lin    exact integer  k + sum(coef*atom)   (built only when it provably does not wrap)
  cat    bit concatenation of pieces, least significant first (provenance of every bit)
  ext    bit slice of an opaque term
  op     any other operator application (opaque)
Floating point values are represented by their bit patterns.
"""

_table = {}
_next = [1]


class T:
    __slots__ = ("k", "w", "a", "id", "_lin", "meta", "_atoms")

    def __init__(self, k, w, a, meta=None):
        self.k = k
        self.w = w
        self.a = a
        self._lin = None
        self.meta = meta
        self._atoms = None
        self.id = _next[0]
        _next[0] += 1

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(k, w, a, meta=None):
    key = (k, w, a)
    t = _table.get(key)
    if t is None:
        t = T(k, w, a, meta)
        _table[key] = t
    elif meta is not None and t.meta is None:
        t.meta = meta
    return t


def const(w, v):
    return mk("c", w, (v & ((1 << w) - 1),))


def atom(w, name, meta=None):
    """meta: dict with optional keys ptr, di, birth, field, null"""
    return mk("a", w, (name,), meta)


def is_c(t):
    return t.k == "c"


def cval(t):
    return t.a[0]


def scval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def lin(t):
    """(const, ((atom, coef), ...)) exact integer value of t, read as unsigned."""
    l = t._lin
    if l is None:
        if t.k == "c":
            l = (t.a[0], ())
        elif t.k == "lin":
            l = t.a
        elif t.k == "cat":
            # value = sum piece_i * 2^pos_i ; keep only the zero-extension form linear
            ps = t.a
            if ps[-1].k == "c" and ps[-1].a[0] == 0:
                l = lin(concat(ps[:-1]))
            elif len(ps) == 2 and ps[0].k == "c" and ps[0].a[0] == 0:
                c, f = lin(ps[1])
                m = 1 << ps[0].w
                l = (c * m, tuple((x, y * m) for x, y in f))
            elif len(ps) == 3 and ps[0].k == "c" and ps[0].a[0] == 0 and ps[2].k == "c" and ps[2].a[0] == 0:
                c, f = lin(ps[1])
                m = 1 << ps[0].w
                l = (c * m, tuple((x, y * m) for x, y in f))
            else:
                l = (0, ((t, 1),))
        else:
            l = (0, ((t, 1),))
        t._lin = l
    return l


def ladd(a, b, m=1):
    """a + m*b on linear forms"""
    if not b[1]:
        return (a[0] + m * b[0], a[1])
    if not a[1]:
        if m == 1:
            return (a[0] + b[0], b[1])
        return (a[0] + m * b[0], tuple((x, m * y) for x, y in b[1]))
    d = dict(a[1])
    for x, y in b[1]:
        v = d.get(x, 0) + m * y
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return (a[0] + m * b[0], tuple(sorted(d.items(), key=lambda p: p[0].id)))


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, m):
    if m == 0:
        return (0, ())
    return (a[0] * m, tuple((x, y * m) for x, y in a[1]))


def mklin(w, l):
    c, f = l
    if not f:
        return const(w, c)
    if c == 0 and len(f) == 1 and f[0][1] == 1:
        x = f[0][0]
        if x.w == w:
            return x
        if x.w < w:
            return zext(x, w)
    return mk("lin", w, l)


# ---------------------------------------------------------------- bit structure

def pieces(t):
    return t.a if t.k == "cat" else (t,)


def extract(t, lo, w):
    if lo == 0 and w == t.w:
        return t
    assert lo >= 0 and lo + w <= t.w, (t, lo, w)
    k = t.k
    if k == "c":
        return const(w, t.a[0] >> lo)
    if k == "cat":
        out = []
        pos = 0
        for p in t.a:
            a = max(lo, pos)
            b = min(lo + w, pos + p.w)
            if a < b:
                out.append(extract(p, a - pos, b - a))
            pos += p.w
        return concat(out)
    if k == "ext":
        return extract(t.a[0], t.a[1] + lo, w)
    if k == "sext":
        x = t.a[0]
        if lo + w <= x.w:
            return extract(x, lo, w)
        if lo >= x.w - 1 and w == 1:
            return extract(x, x.w - 1, 1)
        if lo == 0:
            return sext(x, w)
        if lo >= x.w - 1:
            return sext(extract(x, x.w - 1, 1), w) if w > 1 else extract(x, x.w - 1, 1)
    if k == "lin":
        c, f = t.a
        if lo == 0 and c == 0 and len(f) == 1 and f[0][1] == 1:
            x = f[0][0]
            if x.w >= w:
                return extract(x, 0, w)
            return zext(x, w)
        if lo == 0 and len(f) == 1 and f[0][1] == 1 and c % (1 << w) == 0 and f[0][0].w <= w:
            return zext(f[0][0], w)
    if k == "select":
        a = extract(t.a[1], lo, w)
        b = extract(t.a[2], lo, w)
        return select(t.a[0], a, b)
    return mk("ext", w, (t, lo, w))


def concat(ps):
    out = []
    for p in ps:
        for q in pieces(p):
            if out:
                l = out[-1]
                if l.k == "c" and q.k == "c":
                    out[-1] = const(l.w + q.w, l.a[0] | (q.a[0] << l.w))
                    continue
                if q.k == "ext":
                    b, lo = q.a[0], q.a[1]
                    if l.k == "ext" and l.a[0] is b and l.a[1] + l.w == lo:
                        out[-1] = extract(b, l.a[1], l.w + q.w)
                        continue
                if q.k == "sext" and False:
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    # sign extension recognised: x followed by copies of its top bit is built by sext() only
    return mk("cat", w, tuple(out))


def zext(t, w):
    if w == t.w:
        return t
    if t.k == "c":
        return const(w, t.a[0])
    return concat([t, const(w - t.w, 0)])


def sext(t, w):
    if w == t.w:
        return t
    if t.k == "c":
        return const(w, scval(t))
    if t.k == "cat":
        last = t.a[-1]
        if last.k == "c" and not (last.a[0] >> (last.w - 1)):
            return zext(t, w)
    if t.k == "sext":
        return sext(t.a[0], w)
    return mk("sext", w, (t,))


def select(c, a, b):
    if c.k == "c":
        return a if c.a[0] else b
    if a is b:
        return a
    if a.w == 1 and a.k == "c" and b.k == "c":
        return c if a.a[0] else mknot(c)
    return mk("select", a.w, (c, a, b))


def mknot(c):
    if c.k == "c":
        return const(1, 1 - c.a[0])
    if c.k == "not":
        return c.a[0]
    if c.k == "icmp":
        return icmp(NEG[c.a[0]], c.a[1], c.a[2])
    return mk("not", 1, (c,))


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def icmp(pred, a, b):
    if a.k == "c" and b.k == "c":
        x, y = (cval(a), cval(b)) if pred in ("eq", "ne") or pred[0] == "u" else (scval(a), scval(b))
        r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
             "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]
        return const(1, int(r))
    if a is b:
        return const(1, int(pred in ("eq", "ule", "uge", "sle", "sge")))
    if a.k == "c":
        a, b, pred = b, a, SWAP[pred]
    if a.w == 1 and b.k == "c" and pred in ("eq", "ne"):
        return a if (b.a[0] == 1) == (pred == "eq") else mknot(a)
    if b.k == "c" and pred in ("eq", "ne") and a.k == "cat" and len(a.a) == 2 and a.a[1].k == "c" and a.a[1].a[0] == 0:
        if b.a[0] >> a.a[0].w:
            return const(1, int(pred == "ne"))
        return icmp(pred, a.a[0], const(a.a[0].w, b.a[0]))
    if pred in ("eq", "ne") and a.w == b.w and a.k == "cat" and b.k == "cat":
        # zero-extended operands of the same width
        if (len(a.a) == 2 and len(b.a) == 2 and a.a[1] is b.a[1] and a.a[1].k == "c" and a.a[1].a[0] == 0):
            return icmp(pred, a.a[0], b.a[0])
    if pred in ("eq", "ne") and b.k != "c" and b.id < a.id:
        a, b = b, a
    return mk("icmp", 1, (pred, a, b))


def bitmerge(a, b):
    """a|b if provably disjoint bit supports (constant zero pieces), else None"""
    pa, pb = list(pieces(a)), list(pieces(b))
    cuts = set()
    for ps in (pa, pb):
        pos = 0
        for p in ps:
            pos += p.w
            cuts.add(pos)
    out = []
    prev = 0
    for c in sorted(cuts):
        x = extract(a, prev, c - prev)
        y = extract(b, prev, c - prev)
        if x.k == "c" and x.a[0] == 0:
            out.append(y)
        elif y.k == "c" and y.a[0] == 0:
            out.append(x)
        elif x.k == "c" and y.k == "c":
            out.append(const(x.w, x.a[0] | y.a[0]))
        elif x.k == "c" or y.k == "c":
            # constant against unknown: resolve bit by bit where the constant is 0 / 1
            cc, o = (x, y) if x.k == "c" else (y, x)
            for i in range(cc.w):
                if (cc.a[0] >> i) & 1:
                    out.append(const(1, 1))
                else:
                    out.append(extract(o, i, 1))
        else:
            return None
        prev = c
    return concat(out)


def andmask(t, m):
    out = []
    i = 0
    while i < t.w:
        b = (m >> i) & 1
        j = i
        while j < t.w and ((m >> j) & 1) == b:
            j += 1
        out.append(extract(t, i, j - i) if b else const(j - i, 0))
        i = j
    return concat(out)


def atoms_of(t):
    """frozenset of 'a' atoms occurring anywhere in t"""
    s = t._atoms
    if s is None:
        if t.k == "a":
            s = frozenset((t,))
        elif t.k == "c":
            s = frozenset()
        elif t.k == "lin":
            s = frozenset().union(*[atoms_of(x) for x, _ in t.a[1]])
        else:
            s = frozenset().union(*([atoms_of(x) for x in t.a if isinstance(x, T)] or [frozenset()]))
        t._atoms = s
    return s


def subst(t, m, memo):
    """replace atoms by terms (m: atom -> term)"""
    if t.k == "c":
        return t
    if not (atoms_of(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == "a":
        r = m.get(t, t)
    elif t.k == "lin":
        c, f = t.a
        l = (c, ())
        for x, y in f:
            l = ladd(l, lin(subst(x, m, memo)), y)
        r = mklin(t.w, l)
        if r.w != t.w:
            r = mk("lin", t.w, l)
    elif t.k == "cat":
        r = concat([subst(x, m, memo) for x in t.a])
    elif t.k == "ext":
        r = extract(subst(t.a[0], m, memo), t.a[1], t.a[2])
    elif t.k == "sext":
        r = sext(subst(t.a[0], m, memo), t.w)
    elif t.k == "icmp":
        r = icmp(t.a[0], subst(t.a[1], m, memo), subst(t.a[2], m, memo))
    elif t.k == "select":
        r = select(*[subst(x, m, memo) for x in t.a])
    elif t.k == "not":
        r = mknot(subst(t.a[0], m, memo))
    else:
        r = mk(t.k, t.w, tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a), t.meta)
    memo[t] = r
    return r


def showl(l):
    c, f = l
    s = " + ".join((("%d*" % y) if y != 1 else "") + show(x) for x, y in f)
    if c or not s:
        s = (s + " + " if s else "") + str(c)
    return s


def show(t, d=0):
    if t is None:
        return "None"
    if isinstance(t, tuple):
        return "{" + ", ".join(show(x) for x in t) + "}"
    if d > 6:
        return "..."
    if t.k == "c":
        return str(t.a[0]) if t.a[0] < 1 << 16 else hex(t.a[0])
    if t.k == "a":
        n = t.a[0]
        return n if isinstance(n, str) else "%s" % (_n(n),)
    if t.k == "lin":
        return "(" + showl(t.a) + ")"
    if t.k == "cat":
        return "[" + "|".join("%s:%d" % (show(p, d + 1), p.w) for p in reversed(t.a)) + "]"
    if t.k == "ext":
        return "%s<%d+%d>" % (show(t.a[0], d + 1), t.a[1], t.a[2])
    return t.k + str(t.w) + "(" + ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a) + ")"


def _n(n):
    if isinstance(n, tuple):
        return ".".join(str(_n(x)) for x in n if not (isinstance(x, tuple) and len(x) > 4))
    if isinstance(n, T):
        return show(n)
    return n
