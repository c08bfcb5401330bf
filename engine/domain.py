"""Abstract states: intervals (unsigned and signed), excluded constants, linear inequality facts,
field-sensitive memory and typestate, with join/widening.  No solver is involved: entailment is a
bounded combination of recorded facts."""
from math import gcd
from terms import *
from native import Ctx, reduce as reduce_facts

STEPS = 120       # pivot budget of one entailment query
JSTEPS = 400      # the same while joining states (many candidate facts)
ASTEPS = 600     # the same for the deciding obligations

INF = float("inf")


class Infeasible(Exception):
    pass


class Obj:
    """contents of one memory object (or array slot): epoch names the unknown initial contents"""
    __slots__ = ("epoch", "cells")

    def __init__(self, epoch, cells):
        self.epoch = epoch
        self.cells = cells  # off -> (size, term)


class State:
    __slots__ = ("mem", "u", "s", "ne", "lf", "ts", "wins", "regs", "eng", "dead", "_pc", "_ix", "_steps")

    def __init__(self, eng):
        self.eng = eng
        self.mem = {}
        self.u = {}
        self.s = {}
        self.ne = {}
        self.lf = {}
        self.ts = {}
        self.wins = {}
        self.regs = {}
        self.dead = False
        self._pc = {}
        self._ix = None
        self._steps = 0

    def copy(self):
        n = State.__new__(State)
        n.eng = self.eng
        n.mem = dict(self.mem)
        n.u = dict(self.u)
        n.s = dict(self.s)
        n.ne = dict(self.ne)
        n.lf = dict(self.lf)
        n.ts = dict(self.ts)
        n.wins = dict(self.wins)
        n.regs = dict(self.regs)
        n.dead = False
        n._pc = self._pc if not self._pc else dict(self._pc)
        n._ix = self._ix
        n._steps = 0
        return n

    # ------------------------------------------------------------ intervals
    def bounds(self, t, depth=0):
        k = t.k
        if k == "c":
            return (t.a[0], t.a[0])
        top = (1 << t.w) - 1
        if k == "lin":
            lo, hi = self.lbounds(t.a, depth + 1)
            return (max(lo, 0), min(hi, top))
        lo, hi = self._struct_bounds(t, top, depth)
        e = self.u.get(t)
        if e is not None:
            if e[0] > lo:
                lo = e[0]
            if e[1] < hi:
                hi = e[1]
        return (lo, hi)

    def _struct_bounds(self, t, top, depth):
        k = t.k
        if k == "a":
            m = t.meta
            if m and "range" in m:
                return m["range"]
            return (0, top)
        if depth > 12:
            return (0, top)
        if k == "cat":
            lo = hi = 0
            pos = 0
            for p in t.a:
                a, b = self.bounds(p, depth + 1)
                lo += a << pos
                hi += b << pos
                pos += p.w
            return (lo, hi)
        if k == "ext":
            x, l, w = t.a
            if l + w == x.w:
                a, b = self.bounds(x, depth + 1)
                return (a >> l, b >> l)
            a, b = self.bounds(x, depth + 1)
            if b >> (l + w) == a >> (l + w) and l == 0:
                m = (1 << w) - 1
                if (a & m) <= (b & m):
                    return (a & m, b & m)
            elif b >> (l + w) == a >> (l + w):
                m = (1 << w) - 1
                return ((a >> l) & m, (b >> l) & m)
            return (0, top)
        if k == "select":
            a = self.bounds(t.a[1], depth + 1)
            b = self.bounds(t.a[2], depth + 1)
            return (min(a[0], b[0]), max(a[1], b[1]))
        if k == "sext":
            a, b = self.sbounds(t.a[0], depth + 1)
            if a >= 0:
                return (a, b)
            if b < 0:
                return ((1 << t.w) + a, (1 << t.w) + b)
            return (0, top)
        if k == "umin":
            a = self.bounds(t.a[0], depth + 1)
            b = self.bounds(t.a[1], depth + 1)
            return (min(a[0], b[0]), min(a[1], b[1]))
        if k == "udiv":
            a, b = self.bounds(t.a[0], depth + 1)
            c, d = self.bounds(t.a[1], depth + 1)
            if c > 0:
                return (a // d, b // c)
            if d == 0:      # undefined in the code, so that the term may take any value here
                return (top, top)
        if k == "urem":
            a, b = self.bounds(t.a[0], depth + 1)
            c, d = self.bounds(t.a[1], depth + 1)
            if d > 0:
                return (0, min(b, d - 1))
        if k == "and":
            return (0, min(self.bounds(t.a[0], depth + 1)[1], self.bounds(t.a[1], depth + 1)[1]))
        if k == "lshr":
            return (0, self.bounds(t.a[0], depth + 1)[1])
        if k == "mulx":  # exact product of two terms
            a, b = self.bounds(t.a[0], depth + 1)
            c, d = self.bounds(t.a[1], depth + 1)
            return (a * c, b * d)
        if k in ("fn", "g"):
            return (1, top)
        return (0, top)

    def lbounds(self, l, depth=0):
        lo = hi = l[0]
        for x, c in l[1]:
            a, b = self.bounds(x, depth)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def fbounds(self, t):
        """bounds of a value, from a recorded fact about exactly this sum as well"""
        lo, hi = self.bounds(t)
        if t.k == "lin":
            c, f = t.a
            u = self.lf.get(f)
            if u is not None and c + u < hi:
                hi = max(c + u, lo)
            u = self.lf.get(tuple((x, -k) for x, k in f))
            if u is not None and c - u > lo:
                lo = min(c - u, hi)
        return lo, hi

    def sbounds(self, t, depth=0):
        w = t.w
        half = 1 << (w - 1)
        if t.k == "c":
            v = scval(t)
            return (v, v)
        lo, hi = -half, half - 1
        e = self.s.get(t)
        if e:
            lo, hi = max(lo, e[0]), min(hi, e[1])
        a, b = self.bounds(t, depth + 1)
        if b < half:
            lo, hi = max(lo, a), min(hi, b)
        elif a >= half:
            lo, hi = max(lo, a - (1 << w)), min(hi, b - (1 << w))
        if t.k == "sext":
            x, y = self.sbounds(t.a[0], depth + 1)
            lo, hi = max(lo, x), min(hi, y)
        return (lo, hi)

    def set_u(self, t, lo, hi):
        """narrow the unsigned interval of t; raises Infeasible if empty"""
        if t.k == "c":
            if not (lo <= t.a[0] <= hi):
                raise Infeasible()
            return
        if t.k == "lin":
            self.add_le(lsub(t.a, (hi, ())))
            self.add_le(lsub((lo, ()), t.a))
            return
        l0, h0 = self.bounds(t)
        lo, hi = max(lo, l0), min(hi, h0)
        nes = self.ne.get(t)
        if nes:
            while lo in nes and lo <= hi:
                lo += 1
            while hi in nes and hi >= lo:
                hi -= 1
        if lo > hi:
            raise Infeasible()
        if (lo, hi) == (l0, h0):
            return
        self.u[t] = (lo, hi)
        self._pc = {}
        self._ix = None
        # reduce
        half = 1 << (t.w - 1)
        e = self.s.get(t)
        if e:
            if hi < half:
                if e[1] < lo or e[0] > hi:
                    raise Infeasible()
            elif lo >= half:
                if e[1] < lo - (1 << t.w) or e[0] > hi - (1 << t.w):
                    raise Infeasible()
        self._down(t, lo, hi)

    def _down(self, t, lo, hi):
        """push an unsigned interval down into the structure of t"""
        if t.k == "cat":
            pos = 0
            for p in t.a:
                # value range of this piece given everything else unknown
                hi_p = hi >> pos
                top = (1 << p.w) - 1
                lastpiece = p is t.a[-1]
                if lastpiece:
                    self.set_u(p, min(lo >> pos, top), min(hi_p, top))
                elif hi_p <= top and lo >> (pos + p.w) == 0 and hi >> (pos + p.w) == 0:
                    self.set_u(p, lo >> pos, hi_p)
                if lo == hi:
                    v = (lo >> pos) & top
                    self.set_u(p, v, v)
                pos += p.w
        elif t.k == "ext":
            x, l, w = t.a
            if l + w == x.w:
                self.set_u(x, lo << l, (hi << l) | ((1 << l) - 1))
            else:
                a, b = self.bounds(x)
                if a >> (l + w) == b >> (l + w):
                    base = (a >> (l + w)) << (l + w)
                    self.set_u(x, base + (lo << l), base + ((hi << l) | ((1 << l) - 1)))
        elif t.k == "sext":
            half = 1 << (t.w - 1)
            if hi < half:
                self.set_s(t.a[0], lo, hi)
            elif lo >= half:
                self.set_s(t.a[0], lo - (1 << t.w), hi - (1 << t.w))
        elif t.k in ("icmp", "not") and lo == hi:
            self.assume(t, bool(lo), top=False)
        elif t.k == "select" and lo == hi:
            c, a, b = t.a
            ca, cb = self.bounds(a), self.bounds(b)
            if lo < ca[0] or lo > ca[1]:
                self.assume(c, False)
                self.set_u(b, lo, hi)
            elif lo < cb[0] or lo > cb[1]:
                self.assume(c, True)
                self.set_u(a, lo, hi)

    def set_s(self, t, lo, hi):
        if t.k == "c":
            if not (lo <= scval(t) <= hi):
                raise Infeasible()
            return
        l0, h0 = self.sbounds(t)
        lo, hi = max(lo, l0), min(hi, h0)
        if lo > hi:
            raise Infeasible()
        if (lo, hi) != (l0, h0):
            self.s[t] = (lo, hi)
            self._pc = {}
            self._ix = None
        if lo >= 0:
            self.set_u(t, lo, hi)
        elif hi < 0:
            self.set_u(t, (1 << t.w) + lo, (1 << t.w) + hi)
        if t.k == "sext":
            self.set_s(t.a[0], lo, hi)

    # ------------------------------------------------------------ linear facts
    def add_le(self, l):
        """assume  const + form <= 0"""
        c, f = l
        if not f:
            if c > 0:
                raise Infeasible()
            return
        if len(f) == 1:
            x, k = f[0]
            if k > 0:
                self.set_u(x, 0, (-c) // k)
            else:
                # k*x <= -c  ->  x >= c/(-k)
                self.set_u(x, -((-c) // (-k)), (1 << x.w) - 1)
            return
        g = 0
        for _, k in f:
            g = gcd(g, k)
        ub = -c
        if g > 1:
            f = tuple((x, k // g) for x, k in f)
            ub = ub // g
        old = self.lf.get(f)
        if old is not None and old <= ub:
            return
        self.lf[f] = ub
        self._pc = {}
        self._ix = None
        for i, (x, k) in enumerate(f):
            rest_lo = 0
            for j, (y, m) in enumerate(f):
                if j != i:
                    a, b = self.bounds(y)
                    rest_lo += m * a if m > 0 else m * b
            r = ub - rest_lo  # k*x <= r
            if k > 0:
                h = r // k
                if h < self.bounds(x)[1]:
                    self.set_u(x, 0, h)
            else:
                lo = -(r // (-k))
                if lo > self.bounds(x)[0]:
                    self.set_u(x, lo, (1 << x.w) - 1)

    def prove(self, l, steps=0, depth=6):
        """is  const + form <= 0  entailed by the recorded facts and intervals?"""
        c, f = l
        if not f:
            return c <= 0
        key = (c, f)
        r = self._pc.get(key)
        if not steps:
            steps = self._steps or STEPS
        if r is None or r is not True and r < steps:
            hi = c
            lo = c
            for x, k in f:
                a, b = self.bounds(x)
                if k > 0:
                    hi += k * b
                    lo += k * a
                else:
                    hi += k * a
                    lo += k * b
            if hi <= 0:
                r = True
            elif lo > 0 or len(f) > 9:
                r = False
            else:
                ub = self.lf.get(f)
                if ub is not None and ub + c <= 0:
                    r = True
                else:
                    ctx = self._ix
                    if ctx is None:
                        ctx = self._ix = Ctx(self)
                    r = ctx.prove(self, c, f, depth, steps)
            if r is not True:
                r = steps
            self._pc[key] = r
        return r is True

    def le(self, a, b, off=0):
        """prove a + off <= b (terms, unsigned)"""
        return self.prove(ladd(lsub(lin(a), lin(b)), (off, ())))

    # ------------------------------------------------------------ assumptions
    def assume(self, c, truth, top=True):
        """assume boolean term; raises Infeasible"""
        if c.k == "c":
            if bool(c.a[0]) != truth:
                raise Infeasible()
            return
        if c.k == "not":
            return self.assume(c.a[0], not truth)
        b = self.bounds(c)
        if b[0] == b[1]:
            if bool(b[0]) != truth:
                raise Infeasible()
            if c.k != "icmp":
                return
        if c.k == "icmp":
            pred, a, b = c.a
            if not truth:
                pred = NEG[pred]
            self.assume_cmp(pred, a, b)
            if a.k != "c" and b.k != "c" or top:
                self.u[c] = (int(truth), int(truth))
            return
        if c.k == "and" and truth:
            self.assume(c.a[0], True)
            self.assume(c.a[1], True)
            return
        if c.k == "or" and not truth:
            self.assume(c.a[0], False)
            self.assume(c.a[1], False)
            return
        if c.k == "select":
            cc, a, b = c.a
            # boolean select used for && and ||
            if b.k == "c" and b.a[0] == 0 and truth:
                self.assume(cc, True)
                self.assume(a, True)
                return
            if a.k == "c" and a.a[0] == 1 and not truth:
                self.assume(cc, False)
                self.assume(b, False)
                return
        if c.k == "ext" and c.w == 1:
            self.set_u(c, int(truth), int(truth))
            return
        if c.k == "xor":
            x, y = c.a
            bx, by = self.bounds(x), self.bounds(y)
            if by[0] == by[1]:
                return self.assume(x, truth != bool(by[0]))
            if bx[0] == bx[1]:
                return self.assume(y, truth != bool(bx[0]))
        self.set_u(c, int(truth), int(truth))

    def assume_cmp(self, pred, a, b):
        if pred == "eq":
            if a.k in ("fn", "g") and b.k in ("fn", "g") and a is not b:
                raise Infeasible()
            la, lb = self.bounds(a), self.bounds(b)
            lo, hi = max(la[0], lb[0]), min(la[1], lb[1])
            if lo > hi:
                raise Infeasible()
            sa, sb = self.s.get(a), self.s.get(b)
            if a.k != "c":
                self.set_u(a, lo, hi)
            if b.k != "c":
                self.set_u(b, lo, hi)
            if sb and a.k != "c":
                self.set_s(a, *sb)
            if sa and b.k != "c":
                self.set_s(b, *sa)
            if b.k == "c":
                if b.a[0] in self.ne.get(a, ()):
                    raise Infeasible()
                return
            if a.k == "c":
                return
            d = lsub(lin(a), lin(b))
            if self.prove(ladd((1, ()), d)) or self.prove(ladd((1, ()), d, -1)):
                raise Infeasible()
            self.add_le(d)
            self.add_le(lscale(d, -1))
            return
        if pred == "ne":
            la, lb = self.bounds(a), self.bounds(b)
            if b.k == "c":
                v = b.a[0]
                self.ne[a] = self.ne.get(a, frozenset()) | {v}
                if la[0] == v == la[1]:
                    raise Infeasible()
                if la[0] == v:
                    self.set_u(a, v + 1, la[1])
                elif la[1] == v:
                    self.set_u(a, la[0], v - 1)
                if a.k == "lin":
                    d = lsub(lin(a), lin(b))
                    if self.prove(d):
                        self.add_le(ladd(d, (1, ())))
                    elif self.prove(lscale(d, -1)):
                        self.add_le(ladd(lscale(d, -1), (1, ())))
                if a.k == "sext":
                    x = a.a[0]
                    sv = scval(b)
                    if -(1 << (x.w - 1)) <= sv < (1 << (x.w - 1)):
                        self.assume_cmp("ne", x, const(x.w, sv))
                return
            if a is b:
                raise Infeasible()
            d = lsub(lin(a), lin(b))
            up, dn = self.prove(d), self.prove(lscale(d, -1))
            if up and dn:
                raise Infeasible()
            if up:
                self.add_le(ladd(d, (1, ())))
            elif dn:
                self.add_le(ladd(lscale(d, -1), (1, ())))
            return
        if pred in ("ugt", "uge"):
            return self.assume_cmp(SWAP[pred], b, a)
        if pred in ("ult", "ule"):
            d = lsub(lin(a), lin(b))
            if pred == "ult":
                d = ladd(d, (1, ()))
            if self.prove(ladd((1, ()), d, -1)):
                raise Infeasible()
            self.add_le(d)
            return
        if pred in ("sgt", "sge"):
            return self.assume_cmp(SWAP[pred], b, a)
        if pred in ("slt", "sle"):
            k = 1 if pred == "slt" else 0
            sa, sb = self.sbounds(a), self.sbounds(b)
            if sa[0] > sb[1] - k:
                raise Infeasible()
            self.set_s(a, sa[0], sb[1] - k)
            self.set_s(b, sa[0] + k, sb[1])
            sa, sb = self.sbounds(a), self.sbounds(b)
            if sa[0] >= 0 and sb[0] >= 0 or sa[1] < 0 and sb[1] < 0:
                self.assume_cmp("u" + pred[1:], a, b)
            return

    def decide(self, c):
        """True/False/None for a boolean term"""
        if c.k == "c":
            return bool(c.a[0])
        b = self.bounds(c)
        if b[0] == b[1]:
            return bool(b[0])
        if c.k == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.k == "icmp":
            pred, x, y = c.a
            return self.decide_cmp(pred, x, y)
        return None

    def decide_cmp(self, pred, x, y):
        if pred in ("ne", "uge", "ugt", "sge", "sgt"):
            r = self.decide_cmp(NEG[pred], x, y)
            return None if r is None else not r
        if pred in ("slt", "sle"):
            sa, sb = self.sbounds(x), self.sbounds(y)
            k = 1 if pred == "slt" else 0
            if sa[1] <= sb[0] - k:
                return True
            if sa[0] > sb[1] - k:
                return False
            if (sa[0] < 0 or sb[0] < 0) and not (sa[1] < 0 and sb[1] < 0):
                return None
            pred = "u" + pred[1:]
        d = lsub(lin(x), lin(y))
        if pred == "ult":
            if self.prove(ladd(d, (1, ()))):
                return True
            if self.prove(lscale(d, -1)):
                return False
            return None
        if pred == "ule":
            if self.prove(d):
                return True
            if self.prove(ladd((1, ()), d, -1)):
                return False
            return None
        if pred == "eq":
            if x.k in ("fn", "g") and y.k in ("fn", "g"):
                return x is y
            if y.k == "c" and y.a[0] in self.ne.get(x, ()):
                return False
            bx, by = self.bounds(x), self.bounds(y)
            if bx[0] == bx[1] == by[0] == by[1]:
                return True
            if bx[1] < by[0] or by[1] < bx[0]:
                return False
            if self.prove(ladd(d, (1, ()))) or self.prove(ladd((1, ()), d, -1)):
                return False
            if self.prove(d) and self.prove(lscale(d, -1)):
                return True
            return None
        return None

    def norm(self, t):
        """constant if the state pins t to one value"""
        if t is None or isinstance(t, tuple) or t.k == "c":
            return t
        a, b = self.bounds(t)
        if a == b:
            return const(t.w, a)
        return t

    # ------------------------------------------------------------ renaming
    def rename(self, m):
        """substitute atoms (atom -> term) everywhere"""
        memo = {}

        def sb(t):
            if isinstance(t, tuple):
                return tuple(sb(x) for x in t)
            if t is None:
                return None
            return subst(t, m, memo)

        def sform(f):
            l = (0, ())
            for x, k in f:
                l = ladd(l, lin(sb(x)), k)
            return l
        n = State(self.eng)
        mk_ = m.keys()

        def touched(t):
            return bool(atoms_of(t) & mk_)
        for key, o in self.mem.items():
            k2 = key
            if any(touched(x) for x, _ in key):
                k2 = sform(key)
                c, k2 = k2
            else:
                c = 0
            cells = {off + c: (sz, sb(v)) for off, (sz, v) in o.cells.items()}
            if k2 in n.mem:
                n.mem[k2] = Obj(("clash", k2), {})
            else:
                n.mem[k2] = Obj(o.epoch, cells)
        for t, v in self.u.items():
            t2 = sb(t)
            if t2.k not in ("c", "lin"):
                o = n.u.get(t2)
                n.u[t2] = v if o is None else (max(v[0], o[0]), min(v[1], o[1]))
            elif t2.k == "lin":
                pass
        for t, v in self.s.items():
            t2 = sb(t)
            if t2.k not in ("c", "lin"):
                n.s[t2] = v
        for t, v in self.ne.items():
            t2 = sb(t)
            if t2.k != "c":
                n.ne[t2] = v
        for f, ub in self.lf.items():
            if any(touched(x) for x, _ in f):
                c, g = sform(f)
                if len(g) >= 2:
                    o = n.lf.get(g)
                    if o is None or ub - c < o:
                        n.lf[g] = ub - c
            else:
                n.lf[f] = ub
        n.ts = {(sb(k) if isinstance(k, T) else k): v for k, v in self.ts.items()}
        n.wins = {k: tuple(sb(x) if isinstance(x, T) else x for x in v) for k, v in self.wins.items()}
        n.regs = {k: sb(v) for k, v in self.regs.items()}
        return n


def ptr_pick(form):
    """which of the pointers in a sum the result points into: in p + (end - data) it is p"""
    c = [x for x, k in form if k == 1 and (x.k in ("g", "fn") or (x.meta or {}).get("ptr"))]
    if len(c) < 2:
        return c[0] if c else None
    home = {(x.meta or {}).get("home", (None,))[0] for x, k in form if k == -1}
    home.discard(None)
    d = [x for x in c if (x.meta or {}).get("home", (None,))[0] not in home] or c
    for x in d:
        if (x.meta or {}).get("alloca") or (x.meta or {}).get("heap"):
            return x
    return d[0]


def ptr_root(v):
    """the atom or global a pointer value was derived from, through joins"""
    if v.k in ("g", "fn"):
        return v
    x = ptr_pick(lin(v)[1])
    if x is None:
        return None
    r = (x.meta or {}).get("root")
    return r if r is not None and r is not False else x


def extent(st, v):
    """(mode, bytes) when v is the start of a window of constant size"""
    for m, lo, hi in st.wins.values():
        if lo is v:
            d = lsub(lin(hi), lin(lo))
            if not d[1]:
                return (m, d[0])
    return None


DBG = None


def join_states(A, B, point, header, birth, widen=0, lfilter=None):
    """Least-upper-bound-like join.  `point` names the join; differing locations get atoms
    named by (point, location).  header: the point is a loop head and A is the current head state."""
    eng = A.eng
    A._steps = B._steps = JSTEPS
    n = State(eng)
    sa, sb = {}, {}   # phi atom -> value in A / B
    pairs = {}

    def phi(va, vb, loc):
        if va is vb:
            return va
        if isinstance(va, tuple) or isinstance(vb, tuple):
            if isinstance(va, tuple) and isinstance(vb, tuple) and len(va) == len(vb):
                return tuple(phi(x, y, (loc, i)) for i, (x, y) in enumerate(zip(va, vb)))
            return None
        if va is None or vb is None or va.w != vb.w:
            return None
        p = pairs.get((va, vb))
        if p is not None:
            return p
        # widths of constants etc.
        meta = {"birth": birth, "phi": True}
        for v in (va, vb):
            l = lin(v)[1]
            for x, k in l:
                if x.meta and x.meta.get("ptr") and k == 1:
                    meta["ptr"] = True
                    if "di" in x.meta and lin(v)[0] == 0 and len(l) == 1:
                        meta["di"] = x.meta["di"]
            if v.k in ("g", "fn"):
                meta["ptr"] = True
        x = atom(va.w, ("J", point, loc), None)
        if meta.get("ptr"):
            # the object it points into, if both sides agree
            ra, rb = ptr_root(va), ptr_root(vb)
            old = (x.meta or {}).get("root")
            if ra is x:
                ra = rb
            if rb is x:
                rb = ra
            meta["root"] = ra if ra is not None and ra is rb and (old is None or old is ra) else False
        if x.meta is None:
            x.meta = meta
        else:
            x.meta.update(meta)
        pairs[(va, vb)] = x
        sa[x] = va
        sb[x] = vb
        return x

    # registers
    for r, va in A.regs.items():
        vb = B.regs.get(r)
        if vb is None:
            continue
        v = phi(va, vb, r)
        if v is not None:
            n.regs[r] = v
    # memory
    if eng.parse:
        eng.parse.same_cells(A, B)
    for key in union(A.mem, B.mem):
        oa, ob = A.mem.get(key), B.mem.get(key)
        if oa is None:
            oa = Obj(eng.init_epoch(key), {})
        if ob is None:
            ob = Obj(eng.init_epoch(key), {})
        if oa is ob:
            n.mem[key] = oa
            continue
        ra, rb = refine(oa.cells, ob.cells), refine(ob.cells, oa.cells)
        if ra is not None:
            oa = Obj(oa.epoch, ra)
        if rb is not None:
            ob = Obj(ob.epoch, rb)
        cells = {}
        if oa.epoch == ob.epoch:
            for off in union(oa.cells, ob.cells):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is None:
                    if overlaps(oa.cells, off, cb[0]):
                        continue
                    ca = (cb[0], eng.init_cell(key, oa.epoch, off, cb[0]))
                if cb is None:
                    if overlaps(ob.cells, off, ca[0]):
                        continue
                    cb = (ca[0], eng.init_cell(key, ob.epoch, off, ca[0]))
                if ca[0] != cb[0]:
                    # differing granularity: forget -> need a fresh unknown
                    x = phi(eng.read_cells(A, key, off, max(ca[0], cb[0])), eng.read_cells(B, key, off, max(ca[0], cb[0])), (key, off))
                    if x is not None and not overlaps(cells, off, max(ca[0], cb[0])):
                        cells[off] = (max(ca[0], cb[0]), x)
                    continue
                v = phi(ca[1], cb[1], (key, off))
                if v is not None and not overlaps(cells, off, ca[0]):
                    cells[off] = (ca[0], v)
            # cells dropped because of overlap must not silently become initial contents
            bad = False
            for off in union(oa.cells, ob.cells):
                sz = max(oa.cells.get(off, (0,))[0], ob.cells.get(off, (0,))[0])
                if not overlaps(cells, off, sz):
                    bad = True
            ep = oa.epoch if not bad else ("j", point, key)
        else:
            ep = ("j", point, key)
            for off in inter(oa.cells, ob.cells):
                ca, cb = oa.cells[off], ob.cells[off]
                if ca[0] == cb[0]:
                    v = phi(ca[1], cb[1], (key, off))
                    if v is not None:
                        cells[off] = (ca[0], v)
        n.mem[key] = Obj(ep, cells)
        if isinstance(ep, tuple) and ep[0] == "j":
            eng.epoch_birth[ep] = birth
    # what joined pointers to structures point at
    for x in list(sa):
        di = (x.meta or {}).get("di")
        if di is None or not eng.m.struct_name(di):
            continue
        (ka, oa_), (kb, ob_) = eng.split(sa[x]), eng.split(sb[x])
        if not ka or not kb:
            continue
        k = ((x, 1),)
        a, b = A.mem.get(ka), B.mem.get(kb)
        if (a is None or b is None) and k not in n.mem:
            continue
        cells = {}
        for off, (sz, va) in a.cells.items() if a and b else ():
            o = off - oa_
            c = b.cells.get(o + ob_)
            if o >= 0 and c is not None and c[0] == sz and eng.m.member(di, o, sz) is not None:
                v = phi(va, c[1], (k, o))
                if v is not None:
                    cells[o] = (sz, v)
        if cells or k in n.mem:
            n.mem[k] = Obj(("j", point, k), cells)
            eng.epoch_birth[("j", point, k)] = birth
    if eng.parse:
        eng.parse.pre(A)
        eng.parse.pre(B)
        eng.parse.cells(A, B, n, phi, point, birth)
    # typestate
    for k, va in A.ts.items():
        if B.ts.get(k, _MISS) == va:
            n.ts[k] = va
        else:
            n.ts[k] = eng.join_ts(k, va, B.ts.get(k))
    for k, vb in B.ts.items():
        if k not in A.ts:
            n.ts[k] = eng.join_ts(k, None, vb)
    n.ts = {k: v for k, v in n.ts.items() if v is not None}
    # windows
    for k, wa in A.wins.items():
        wb = B.wins.get(k)
        if wb is None or wa[0] != wb[0] or eng.parse and k[1] is eng.parse.obj:
            continue
        if wa == wb:
            n.wins[k] = wa
        else:
            l = phi(wa[1], wb[1], ("win", k, 0))
            h = phi(wa[2], wb[2], ("win", k, 1))
            if l is not None and h is not None:
                n.wins[k] = (wa[0], l, h)
    if eng.parse:
        eng.parse.windows(A, B, n)
    # a pointer to the start of some object: the extent both of them have
    for x in sa:
        if (x.meta or {}).get("ptr"):
            wa, wb = extent(A, sa[x]), extent(B, sb[x])
            if wa and wb:
                k = wa[0] if wa[0] == wb[0] else "r" if "W" not in (wa[0], wb[0]) else None
                if k:
                    n.wins[("J", x)] = (k, x, mklin(x.w, ladd(lin(x), (min(wa[1], wb[1]), ()))))

    def toA(l):
        r = (l[0], ())
        for x, k in l[1]:
            r = ladd(r, lin(subst(x, sa, mA)), k)
        return r

    def toB(l):
        r = (l[0], ())
        for x, k in l[1]:
            r = ladd(r, lin(subst(x, sb, mB)), k)
        return r
    mA, mB = {}, {}
    phis = list(sa.keys())
    phiset = set(phis)
    # intervals
    for t in union(A.u, B.u):
        if t in phiset:
            continue
        if atoms_of(t) & phiset:
            # t is about the head's own phi atoms (from A)
            ta, tb = subst(t, sa, mA), subst(t, sb, mB)
            if header and t in A.u:
                a = A.u[t]
            else:
                a = A.bounds(ta)
            b = B.bounds(tb) if tb.w == t.w else (0, (1 << t.w) - 1)
        else:
            a, b = A.bounds(t), B.bounds(t)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if widen and (lo, hi) != A.u.get(t, (lo, hi)):
            lo, hi = widen_iv(A.u.get(t, (lo, hi)), (lo, hi), t.w, widen > 3)
        d = n._struct_bounds(t, (1 << t.w) - 1, 0)
        if lo > d[0] or hi < d[1]:
            n.u[t] = (lo, hi)
    for t in union(A.s, B.s):
        if t in phiset or atoms_of(t) & phiset:
            continue
        a, b = A.sbounds(t), B.sbounds(t)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if lo > -(1 << (t.w - 1)) or hi < (1 << (t.w - 1)) - 1:
            n.s[t] = (lo, hi)
    for t, v in A.ne.items():
        if t in phiset or atoms_of(t) & phiset:
            continue
        w = B.ne.get(t)
        bl, bh = B.bounds(t)
        r = frozenset(x for x in v if (w and x in w) or x < bl or x > bh)
        if r:
            n.ne[t] = r
    for t, v in B.ne.items():
        if t in phiset or atoms_of(t) & phiset or t in A.ne and A.ne[t] >= v:
            continue
        al, ah = A.bounds(t)
        w = A.ne.get(t, ())
        r = frozenset(x for x in v if x in w or x < al or x > ah)
        if r:
            n.ne[t] = n.ne.get(t, frozenset()) | r
    # head's own atoms: old head interval knowledge about phi atoms lives in A.u[phi]
    for x in phis:
        a = A.fbounds(sa[x])
        b = B.fbounds(sb[x])
        if x.w != sa[x].w:
            continue
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if widen and (lo, hi) != a:
            lo, hi = widen_iv(a, (lo, hi), x.w, widen > 3)
        if lo > 0 or hi < (1 << x.w) - 1:
            n.u[x] = (lo, hi)
        a2, b2 = A.sbounds(sa[x]), B.sbounds(sb[x])
        lo, hi = min(a2[0], b2[0]), max(a2[1], b2[1])
        half = 1 << (x.w - 1)
        if widen and (lo, hi) != a2:
            lo = a2[0] if lo == a2[0] else -half
            hi = a2[1] if hi == a2[1] else half - 1
        if (lo > -half or hi < half - 1) and not n.bounds(x)[1] < half:
            n.s[x] = (lo, hi)
    # linear facts -----------------------------------------------------------------
    cand = {}
    single = []
    if eng.parse:
        single = [g for g in eng.template_facts(n) if len(g[1]) == 1 and A.prove(toA(g)) and B.prove(toB(g))]

    def addc(f, ub):
        if len(f) < 2 or len(f) > 7:
            return
        o = cand.get(f)
        if o is None or ub < o:
            cand[f] = ub

    def both(l):
        """keep const+form<=0 if it holds on both sides"""
        f = l[1]
        if len(f) < 2:
            return False
        if A.prove(toA(l)) and B.prove(toB(l)):
            addc(f, -l[0])
            return True
        return False
    for f, ub in A.lf.items():
        # facts of A in A's own vocabulary: valid in A
        o = B.lf.get(f)
        hasphi = any(atoms_of(x) & phiset for x, _ in f)
        if not hasphi:
            if o is not None:
                m = max(ub, o)
                addc(f, m)
            elif B.prove((-ub, f)):
                addc(f, ub)
            else:
                hi = B.lbounds((0, f))[1]
                if hi < INF and hi > ub and False:
                    addc(f, hi)
        else:
            # (header) fact about the head's atoms: holds in A as is; test in B for new values
            if B.prove(toB((-ub, f))):
                addc(f, ub)
    if not (widen >= 2):
        for f, ub in B.lf.items():
            if f in cand:
                continue
            if any(atoms_of(x) & phiset for x, _ in f):
                continue
            if A.prove((-ub, f)):
                addc(f, ub)
    if phis and widen < 3:
        # rewrite facts of each side over phi atoms
        for S, ss, O, to in ((A, sa, B, toB), (B, sb, A, toA)):
            inv = {}
            for x in phis:
                l = lin(ss[x])
                for y, k in l[1]:
                    if k in (1, -1):
                        inv.setdefault(y, []).append((x, l, k))
            if not inv:
                continue
            for f, ub in list(S.lf.items()):
                opts = []
                for y, ky in f:
                    for (x, l, k) in inv.get(y, ())[:3]:
                        # x = l ; y = (x - (l - k*y))/k
                        rest = ladd(l, (0, ((y, 1),)), -k)
                        yy = lscale(lsub((0, ((x, 1),)), rest), k)
                        opts.append((y, ky, yy))
                # single substitutions
                for (y, ky, yy) in opts:
                    g = ladd(ladd((-ub, f), (0, ((y, 1),)), -ky), yy, ky)
                    if any((z not in phiset) and (atoms_of(z) & phiset) for z, _ in g[1]):
                        continue
                    if len(g[1]) >= 2 and g[1] not in cand:
                        both(g)
                # double substitution
                if len(opts) >= 2:
                    for i in range(len(opts)):
                        for j in range(i + 1, len(opts)):
                            (y, ky, yy), (z, kz, zz) = opts[i], opts[j]
                            if y is z:
                                continue
                            g = ladd(ladd((-ub, f), (0, ((y, 1),)), -ky), yy, ky)
                            g = ladd(ladd(g, (0, ((z, 1),)), -kz), zz, kz)
                            if len(g[1]) >= 2 and g[1] not in cand:
                                both(g)
        # what a value was computed from, in terms of the joined values
        for ss in (sa, sb):
            exact = {}
            for x in phis:
                v = ss[x]
                if v.k == "a":
                    exact.setdefault(v, x)
            for x in phis:
                l = lin(ss[x])
                if not 2 <= len(l[1]) <= 4 or not any(y in exact for y, _ in l[1]):
                    continue
                g = (l[0], ())
                for y, k in l[1]:
                    g = ladd(g, (0, ((exact.get(y, y), 1),)), k)
                if any((z not in phiset) and (atoms_of(z) & phiset) for z, _ in g[1]):
                    continue
                d = lsub((0, ((x, 1),)), g)
                both(d)
                both(lscale(d, -1))
            # ... as a difference of two of them
            ptrs = [x for x in phis if (x.meta or {}).get("ptr") and len(lin(ss[x])[1]) > 0]
            if 2 <= len(ptrs) <= 12:
                diffs = {}
                for y in ptrs:
                    for z in ptrs:
                        if y is not z:
                            d = lsub(lin(ss[y]), lin(ss[z]))
                            if d[1] and len(d[1]) <= 5:
                                diffs.setdefault(d[1], []).append((y, z, d[0]))
                for x in phis:
                    l = lin(ss[x])
                    for y, z, c in diffs.get(l[1], ())[:4]:
                        if x is y or x is z:
                            continue
                        d = (c - l[0], ((x, 1),))
                        d = ladd(ladd(d, (0, ((y, 1),)), -1), (0, ((z, 1),)))
                        both(d)
                        both(lscale(d, -1))
        # monotonicity / affine templates
        for x in phis:
            la, lb = lin(sa[x]), lin(sb[x])
            for l in ((la, lb) if not header else (la,)):
                if any(z in phiset or atoms_of(z) & phiset for z, _ in l[1]):
                    continue
                if eng.loop_local(l, birth) and header:
                    continue
                d = lsub((0, ((x, 1),)), l)
                both(d)
                both(lscale(d, -1))
        for i in range(len(phis)):
            x = phis[i]
            ax, bx = lin(sa[x]), lin(sb[x])
            for j in range(i):
                y = phis[j]
                ay, by = lin(sa[y]), lin(sb[y])
                for sgn in (-1, 1):
                    da, db = ladd(ax, ay, sgn), ladd(bx, by, sgn)
                    if da[1] == db[1]:
                        if any(atoms_of(z) & phiset for z, _ in da[1]):
                            continue
                        if len(da[1]) > 5:
                            continue
                        l = ladd((0, ((x, 1),)), (0, ((y, 1),)), sgn)
                        base = (0, da[1])
                        hi, lo = max(da[0], db[0]), min(da[0], db[0])
                        if not (widen and hi != lo):
                            g = lsub(l, base)
                            addc2(addc, ladd(g, (-hi, ())))
                            addc2(addc, ladd(lscale(g, -1), (lo, ())))
                # scaled relation from constant steps
                dx, dy = lsub(bx, ax), lsub(by, ay)
                if not dx[1] and not dy[1] and dx[0] and dy[0] and abs(dx[0]) != abs(dy[0]):
                    l = ladd((0, ((x, dy[0]),)), (0, ((y, dx[0]),)), -1)
                    v = ladd(lscale(ax, dy[0]), ay, -dx[0])
                    if not any(atoms_of(z) & phiset for z, _ in v[1]) and len(v[1]) <= 3:
                        g = lsub(l, v)
                        addc2(addc, g)
                        addc2(addc, lscale(g, -1))
        # template facts from object invariants
        for g in eng.template_facts(n):
            if len(g[1]) >= 2 and g[1] not in cand:
                r = both(g)
                if not r and DBG and DBG(point):
                    pa, pb = A.prove(toA(g)), B.prove(toB(g))
                    print("TPL", str(point)[-60:], pa, pb, show(mklin(64, g))[:300])
        if not widen:
            # values that differ together: x - t bounded by the worse of the two sides
            diff = [t for t in inter(A.u, B.u) if t not in phiset and A.u[t] != B.u[t] and t.k == "a"
                    and not (atoms_of(t) & phiset)]
            for x in phis:
                if x.w < 16:
                    continue
                xa, xb = A.bounds(sa[x]), B.bounds(sb[x])
                if xa == xb:
                    continue
                for t in diff[:12]:
                    ta, tb = A.u[t], B.u[t]
                    ub = max(xa[1] - ta[0], xb[1] - tb[0])
                    if ub < max(xa[1], xb[1]) - min(ta[0], tb[0]) and ub < 1 << 40:
                        g = lsub((-ub, ((x, 1),)), (0, ((t, 1),)))
                        addc(g[1], -g[0])
        # pairwise ordering of pointer-like phis and values sharing cells (cheap)
        for i in range(len(phis)):
            x = phis[i]
            for j in range(i):
                y = phis[j]
                if x.w != y.w or x.w < 16:
                    continue
                d = lsub((0, ((x, 1),)), (0, ((y, 1),)))
                if d[1] not in cand:
                    both(d)
                e = lscale(d, -1)
                if e[1] not in cand:
                    both(e)
    for f, ub in cand.items():
        if n.lbounds((0, f))[1] > ub:
            n.lf[f] = ub
    A._steps = B._steps = 0
    if header and widen >= 2:
        n.lf = {f: ub for f, ub in n.lf.items() if f in A.lf and (ub <= A.lf[f] or widen == 2)}
        forget_dead(n)
    else:
        prune(n)
    if eng.parse:
        for g in single:
            n.add_le(g)
        eng.parse.after(n)
    return n


_MISS = object()


def addc2(addc, l):
    f = l[1]
    if len(f) < 2:
        return
    g = 0
    for _, k in f:
        g = gcd(g, k)
    ub = -l[0]
    if g > 1:
        f = tuple((x, k // g) for x, k in f)
        ub = ub // g
    addc(f, ub)


def refine(a, b):
    """a's cells, cut where b's cells begin and end"""
    out = None
    for off, (sz, v) in a.items():
        if sz == 1 or off in b and b[off][0] == sz or not isinstance(v, T):
            continue
        cut = sorted({c for o, (z, _) in b.items() for c in (o, o + z) if off < c < off + sz})
        if not cut:
            continue
        if out is None:
            out = dict(a)
        del out[off]
        ps = [off] + cut + [off + sz]
        for x, y in zip(ps, ps[1:]):
            out[x] = (y - x, extract(v, (x - off) * 8, (y - x) * 8))
    return out


def overlaps(cells, off, size):
    if off in cells:
        return True
    for o, (s, _) in cells.items():
        if o < off + size and off < o + s:
            return True
    return False


THR = sorted(set([0, 1, 2, 4, 8, 9, 12, 16, 32, 33, 64, 128, 255, 256, 1 << 15, (1 << 15) - 1, 65535, 65536, (1 << 31) - 1, 1 << 31,
                  (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]))


def widen_iv(old, new, w, hard=False):
    top = (1 << w) - 1
    lo, hi = new
    if lo < old[0]:
        c = [] if hard else [x for x in THR if x <= lo]
        lo = c[-1] if c else 0
    if hi > old[1]:
        c = [] if hard else [x for x in THR if x >= hi]
        hi = min(c[0] if c else top, top)
    return lo, hi


def live_atoms(n):
    """atoms something still refers to: registers, windows, owned resources, and memory reachable from those"""
    s = set()

    def add(t):
        if t.k != "c":
            s.update(atoms_of(t))
    for v in n.regs.values():
        for t in (v if isinstance(v, tuple) else (v,)):
            if isinstance(t, T):
                add(t)
    for w in n.wins.values():
        for t in w[1:]:
            if isinstance(t, T):
                add(t)
    for k in n.wins:
        for t in k if isinstance(k, tuple) else ():
            if isinstance(t, T):
                add(t)
    for k, v in n.ts.items():
        if isinstance(k, T) and v != "freed":
            add(k)
    for f in n.eng.keepstack:
        s |= f
    pend = list(n.mem.items())
    while True:
        rest = []
        for k, o in pend:
            for x, _ in k:
                for a in atoms_of(x):
                    if a not in s and not at_home(n, a, s):
                        break
                else:
                    continue
                break
            else:
                for sz, v in o.cells.values():
                    add(v)
                continue
            rest.append((k, o))
        if len(rest) == len(pend) or not rest:
            break
        pend = rest
    if rest:
        for k, o in rest:
            del n.mem[k]
    for k in [k for k, v in n.ts.items() if v == "freed" and isinstance(k, T)]:
        if not any(a in s for a in atoms_of(k)):
            del n.ts[k]
    return s


def at_home(n, a, s, depth=0):
    """a is a parameter, or names the initial contents of a reachable location that still holds them"""
    m = a.meta
    if not m:
        return False
    if "arg" in m or a.a[0][0] == "arg":
        return True
    h = m.get("home")
    if not h:
        return False
    o = n.mem.get(h[0])
    if o is None:
        if h[3] != n.eng.init_epoch(h[0]):
            return False
    elif o.epoch != h[3] or overlaps(o.cells, h[1], h[2]):
        return False
    if depth > 6:
        return False
    for x, _ in h[0]:
        if x.k == "g":
            continue
        if n.ts.get(x) == "freed":
            return False
        for b in atoms_of(x):
            if b not in s and not at_home(n, b, s, depth + 1):
                return False
    return True


def forget_dead(n):
    s = live_atoms(n)

    def dead(x):
        for a in atoms_of(x):
            if a not in s and not at_home(n, a, s):
                return True
        return False
    n.lf = {f: ub for f, ub in n.lf.items() if not any(dead(x) for x, _ in f)}
    for d in (n.u, n.s, n.ne):
        for t in [t for t in d if dead(t)]:
            del d[t]
    n._ix = None
    n._pc = {}


def prune(n):
    """project the facts onto the values something still refers to"""
    s = live_atoms(n)

    def dead(x):
        for a in atoms_of(x):
            if a not in s and not at_home(n, a, s):
                return True
        return False
    cache = {}
    deadset = set()
    for f in n.lf:
        for x, _ in f:
            if x not in cache:
                cache[x] = dead(x)
                if cache[x]:
                    deadset.add(x)
    if deadset:
        reduce_facts(n)
    facts = n.lf
    top = 0
    while deadset:
        best = None
        for x in sorted(deadset, key=lambda t: t.id):
            pos = [(f, ub, k) for f, ub in facts.items() for y, k in f if y is x and k > 0]
            neg = [(f, ub, k) for f, ub in facts.items() for y, k in f if y is x and k < 0]
            c = (len(pos) * len(neg), x.id)
            if best is None or c < best[0]:
                best = (c, x, pos, neg)
        _, x, pos, neg = best
        deadset.discard(x)
        if not pos and not neg:
            continue
        for f, ub, k in pos + neg:
            facts.pop(f, None)
        lo, hi = n.bounds(x)
        new = []
        for f, ub, k in pos:
            new.append(((-ub + k * lo), tuple(q for q in f if q[0] is not x)))
        for f, ub, k in neg:
            new.append(((-ub + k * hi), tuple(q for q in f if q[0] is not x)))
        if len(pos) * len(neg) <= 48:
            for f, ub, k in pos:
                for g, vb, m in neg:
                    a, b = -m, k
                    d = gcd(a, b)
                    new.append(ladd(lscale((-ub, f), a // d), (-vb, g), b // d))
        for c, f in new:
            if len(f) < 2 or len(f) > 7:
                if len(f) == 1:
                    try:
                        n.add_le((c, f))
                    except Infeasible:
                        pass
                continue
            g = 0
            for _, k in f:
                g = gcd(g, k)
            u = -c
            if g > 1:
                f = tuple((y, k // g) for y, k in f)
                u //= g
            if n.lbounds((0, f))[1] <= u:
                continue
            o = facts.get(f)
            if o is None or u < o:
                facts[f] = u
        top += 1
        if top % 4 == 3 and len(facts) > 24:
            n._ix = None
            reduce_facts(n)
            facts = n.lf
    n._ix = None
    n._pc = {}
    reduce_facts(n)
    for d in (n.u, n.s, n.ne):
        for t in list(d):
            for a in atoms_of(t):
                if a not in s and not at_home(n, a, s):
                    del d[t]
                    break


def same_state(a, b):
    if a.regs != b.regs or a.u != b.u or a.s != b.s or a.ne != b.ne or a.lf != b.lf or a.ts != b.ts or a.wins != b.wins:
        return False
    if a.mem.keys() != b.mem.keys():
        return False
    for k, o in a.mem.items():
        p = b.mem[k]
        if o is not p and (o.epoch != p.epoch or o.cells != p.cells):
            return False
    return True


def union(a, b):
    """keys of both, in a fixed order"""
    return list(a) + [k for k in b if k not in a]


def inter(a, b):
    return [k for k in a if k in b]
