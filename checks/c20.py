"""C20: the UTF-8 check accepts exactly well-formed UTF-8 (table 3-7 of the Unicode standard, RFC 3629)."""
from wire import *

FNS = {"mpack_utf8_check": True, "mpack_utf8_check_no_null": True, "mpack_str_check_no_null": False}


def B(top, low, lo, hi):
    """byte with the given top bits, whose low bits range over [lo, hi]"""
    return (top, low, lo, hi)


def cont(lo=0x80, hi=0xbf):
    return B(2, 6, lo & 63, hi & 63)


NOTCONT = [B(0, 7, 0, 127), B(3, 6, 0, 63)]
# lead bytes and the range of the first continuation byte
LEADS = [("C2..DF", B(6, 5, 2, 31), 0x80, 0xbf, 2), ("E0", B(0xe, 4, 0, 0), 0xa0, 0xbf, 3), ("E1..EC", B(0xe, 4, 1, 12), 0x80, 0xbf, 3), ("ED", B(0xe, 4, 13, 13), 0x80, 0x9f, 3),
         ("EE..EF", B(0xe, 4, 14, 15), 0x80, 0xbf, 3), ("F0", B(0x1e, 3, 0, 0), 0x90, 0xbf, 4), ("F1..F3", B(0x1e, 3, 1, 3), 0x80, 0xbf, 4), ("F4", B(0x1e, 3, 4, 4), 0x80, 0x8f, 4)]


def tails():
    """(name, bytes, well-formed, has a NUL)"""
    out = [("nothing", [], True, False), ("NUL", [B(0, 7, 0, 0)], True, True), ("01..7F", [B(0, 7, 1, 127)], True, False),
           ("stray 80..BF", [B(2, 6, 0, 63)], False, False), ("C0..C1", [B(6, 5, 0, 1), cont()], False, False), ("C0..C1 alone", [B(6, 5, 0, 1)], False, False),
           ("F5..F7", [B(0x1e, 3, 5, 7), cont(), cont(), cont()], False, False), ("F8..FF", [B(0x1f, 3, 0, 7)] + [cont()] * 5, False, False), ("F8..FF alone", [B(0x1f, 3, 0, 7)], False, False)]
    for n, lead, lo, hi, k in LEADS:
        rest = [cont()] * (k - 2)
        out.append((n + " well-formed", [lead, cont(lo, hi)] + rest, True, False))
        if lo > 0x80:
            out.append((n + " 80..%X" % (lo - 1), [lead, cont(0x80, lo - 1)] + rest, False, False))
        if hi < 0xbf:
            out.append((n + " %X..BF" % (hi + 1), [lead, cont(hi + 1, 0xbf)] + rest, False, False))
        for x in NOTCONT:
            w = "00..7F" if x[0] == 0 else "C0..FF"
            out.append(("%s %s" % (n, w), [lead, x] + rest, False, x[0] == 0 or None))
            for j in range(k - 2):
                r = list(rest)
                r[j] = x
                out.append(("%s .. byte %d %s" % (n, j + 3, w), [lead, cont(lo, hi)] + r, False, x[0] == 0 or None))
        for j in range(1, k):
            out.append((n + " cut to %d" % j, ([lead, cont(lo, hi)] + rest)[:j], False, False))
    return out


PREFIX = [("", []), ("01..7F + ", [B(0, 7, 1, 127)])] + [(n + " + ", [lead, cont(lo, hi)] + [cont()] * (k - 2)) for n, lead, lo, hi, k in LEADS if n in ("C2..DF", "E1..EC", "ED", "F4")]
PREFIX += [("%d ASCII + " % k, [B(0, 7, 1, 127)] * k) for k in (7, 8, 15)]


class Utf8(Rule):
    def splits(self, eng, st, fn, args, label):
        out = []
        for pn, pb in PREFIX:
            for n, bs, good, nul in tails():
                if len(pb) > 6 and not (good or "alone" in n or "cut" in n):
                    continue
                if not FNS[fn.name] and nul is None:
                    continue
                for more in ((0, 1) if not good and "cut" not in n and not pb else (0,)):
                    c = Case(pn + n + (" and more" if more else ""), ("", 0, 0, "", "", 0))
                    c.bytes, c.good, c.nul, c.more = pb + bs, good, nul, more
                    out.append(c)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        p = args[0]
        n = len(c.bytes)
        key, off = eng.split(p)
        c.p = p
        for i, (top, low, lo, hi) in enumerate(c.bytes):
            if lo == hi:
                t = const(8, top << low | lo)
            else:
                x = atom(low, ("u8", i, low), {})
                st.set_u(x, lo, hi)
                t = concat([x, const(8 - low, top)])
            eng.write_cells(st, key, off + i, 1, t)
        if c.more:
            st.set_u(args[1], n, (1 << (eng.pb - 1)) - 1)
        else:
            args[1] = const(args[1].w, n)

    def on_load(self, eng, st, addr, size, r, fr, ins):
        c = self.case
        d = lsub(lin(st.norm(addr)), lin(c.p))
        if c.more or any(x.meta and x.meta.get("alloca") for x, k in d[1]):
            return None
        b = st.lbounds(d)
        return self.chk(0 <= b[0] and b[1] + size <= len(c.bytes), "within-length", lambda: "%s: reads offset %s of %d bytes" % (c.name, b, len(c.bytes)), eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        if FNS[fn.name]:
            want = c.good and not ("no_null" in fn.name and c.nul)
        else:
            want = not c.nul
            if want and c.more:
                return []
            if c.nul and c.bytes[-1][0:2] == (0, 7) and c.bytes[-1][2] == c.bytes[-1][3] == 0 or not any(b[0] == 0 and b[2] == 0 for b in c.bytes):
                pass
            else:
                return []               # a byte that may or may not be NUL
        out = []
        for rv, s in rs:
            b = s.bounds(s.norm(rv))
            out.append(self.chkexit(b == ((1, 1) if want else (0, 0)), "accepts" if want else "rejects",
                                    lambda: "%s is %s" % (c.name, "accepted" if b[0] == 1 else "not accepted" if b[1] == 0 else "accepted or not depending on something else (%s)" % show(s.norm(rv))), eng, fn))
        return out


def mk(eng):
    return [Utf8()]


def run(rep, tier):
    rep.explain = ("The check functions are analysed on every class of byte sequences of the Unicode standard's table of well-formed sequences and of each way to violate it (overlong, surrogate, "
                   "too large, stray, bad or missing continuation byte), the bytes symbolic within the class, at the start and behind each kind of valid sequence. Every exit must agree with the "
                   "table, and no load may lie outside the given length.")
    for c in ["rel64"] + (["freestanding64", "rel32"] if tier == "thorough" else []):
        m = driver.module(c)
        rep.run([(c, f) for f in FNS if f in m.fns], mk, dict(peel=20))
    if {k[2] for k in rep.obl} & set(FNS) != set(FNS):
        raise Broken("a check function is missing")
    rep.cov["cases"] = rep.entries
