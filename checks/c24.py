"""C24: timestamps are encoded and decoded losslessly, and validated."""
from wire import *
from c05 import lineq

NSMAX = 999999999
READ = {"mpack_read_timestamp": "both", "mpack_expect_timestamp": "both", "mpack_expect_timestamp_truncate": "s",
        "mpack_node_timestamp": "both", "mpack_node_timestamp_seconds": "s", "mpack_node_timestamp_nanoseconds": "n"}
WRITE = ("mpack_write_timestamp", "mpack_write_timestamp_seconds", "mpack_write_timestamp_struct")


class C:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


class Write(Rule):
    def splits(self, eng, st, fn, args, label):
        if label != "ok,noflush":
            return []                       # how bytes reach the buffer otherwise is C06's matter
        out = []
        s = [(-(1 << 63), -1), (0, 0), (1, (1 << 32) - 1), (1 << 32, (1 << 34) - 1), (1 << 34, (1 << 63) - 1)]
        ns = [(0, 0), (1, NSMAX), (NSMAX + 1, (1 << 32) - 1)] if fn.name != "mpack_write_timestamp_seconds" else [(0, 0)]
        for a in s:
            for b in ns:
                for v in (4, 5):
                    out.append(C("seconds in [%d..%d], nanoseconds in [%d..%d]%s" % (a + b + (" (v4)" if v == 4 else "",)), s=a, n=b, v=v))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        F = Fields(eng, WRITER)
        w = self.w = args[0]
        o = F.at("version")
        if o:
            F.put(st, w, "version", const(o[1] * 8, c.v))
        elif c.v == 4:
            raise Infeasible()
        self.pos, end = F.get(st, w, "position"), F.get(st, w, "end")
        st.add_le(ladd(ladd(lin(self.pos), (18, ())), lin(end), -1))

        def val(n, w, iv):
            if iv[0] == iv[1]:
                return const(w, iv[0])
            t = atom(w, ("ts", n, w), {})
            st.set_u(t, iv[0] % (1 << w), iv[1] % (1 << w))
            return t
        c.sec, c.ns = val("s", 64, c.s), val("n", 32, c.n)
        args[1] = c.sec
        if len(args) > 2:
            args[2] = c.ns if args[2].w == 32 else zext(c.ns, args[2].w)

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", "%s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        F = Fields(eng, WRITER)
        out = []
        for rv, s in rs:
            b = s.bounds(s.norm(F.get(s, args[0], "error")))
            if c.v == 4 or c.n[0] > NSMAX:
                out.append(self.chkexit(b[0] > 0, "invalid-refused", lambda: "%s is not refused" % c.name, eng, fn))
                continue
            out.append(self.chkexit(b == (0, 0), "valid-accepted", lambda: "%s ends in error %s" % (c.name, b), eng, fn))
            if b != (0, 0):
                continue
            S, N = s.norm(c.sec), s.norm(c.ns)
            if c.s[0] >= 0 and c.s[1] < 1 << 32 and c.n[1] == 0:
                want = [0xd6, 0xff] + self.be(S, 4)
            elif c.s[0] >= 0 and c.s[1] < 1 << 34:
                packed = concat([extract(S, 0, 34), extract(N, 0, 30)])
                want = [0xd7, 0xff] + self.be(packed, 8)
            else:
                want = [0xc7, 12, 0xff] + self.be(N, 4) + self.be(S, 8)
            key, off = eng.split(s.norm(self.pos))
            bad = None
            for i, x in enumerate(want):
                got = s.norm(eng.read_cells(s, key, off + i, 1))
                if isinstance(x, int):
                    ok = s.bounds(got) == (x, x)
                else:
                    x = s.norm(x)
                    ok = got is x or lineq(s, got, x) or samebits(s, got, x)
                if not ok:
                    bad = "byte %d is %s instead of %s" % (i, show(got), x if isinstance(x, int) else show(x))
                    break
            out.append(self.chkexit(bad is None, "layout", lambda: "%s: %s" % (c.name, bad), eng, fn))
            p = s.norm(F.get(s, args[0], "position"))
            d = ladd(lsub(lin(p), lin(self.pos)), (-len(want), ()))
            out.append(self.chkexit(s.prove(d) and s.prove(lscale(d, -1)), "size", lambda: "%s: the position moves from %s to %s instead of by %d bytes" % (
                c.name, show(self.pos), show(p), len(want)), eng, fn))
        return out

    @staticmethod
    def be(t, n):
        return [extract(t, 8 * (n - 1 - i), 8) for i in range(n)]


class Read(Rule):
    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        for n in (4, 8, 12):
            for ok in ((1,) if n == 4 else (1, 0)):
                for hdr in (("fix", "ext8", "ext32") if fn.name.startswith("mpack_expect") else ("",)):
                    if hdr == "fix" and n == 12:
                        continue
                    out.append(C("%d bytes%s%s" % (n, hdr and " " + hdr, "" if ok else ", too many nanoseconds"), n=(n, n), ok=ok, hdr=hdr, et=-1))
        for a, b in ((0, 3), (5, 7), (9, 11), (13, (1 << 32) - 1)):
            for hdr in (("ext32", "ext8", "fix") if fn.name.startswith("mpack_expect") else ("",)):
                if hdr == "fix":
                    for k in (1, 2, 16):
                        if a <= k <= b:
                            out.append(C("%d bytes fix" % k, n=(k, k), ok=0, hdr=hdr, et=-1))
                else:
                    out.append(C("%d to %d bytes %s" % (a, b, hdr), n=(a, min(b, 255) if hdr == "ext8" else b), ok=0, hdr=hdr, et=-1))
        if fn.name != "mpack_read_timestamp":
            for et in ((0, 127), (128, 254)):
                for n in (4, 8, 12):
                    out.append(C("extension type in %s, %d bytes" % (et, n), n=(n, n), ok=0, hdr="ext8", et=et))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        n = c.n[0] if c.n[0] == c.n[1] else None
        ln = const(32, n) if n is not None else atom(32, ("tslen",), {})
        if n is None:
            st.set_u(ln, *c.n)
        if c.et == -1:
            et = const(8, 255)
        else:
            et = atom(8, ("tset",), {})
            st.set_u(et, *c.et)
        key = None
        if fn.name.startswith("mpack_node"):
            self.node = True
            data = args[0]
            put_node(eng, st, data, "ext", None)
            k, b = eng.split(data)
            o, z = m.offset_of(NODEDATA, "len")[:2]
            eng.write_cells(st, k, b + o, z, ln if ln.w == 8 * z else zext(ln, 8 * z))
            o, z = m.offset_of(NODEDATA, "value")[:2]
            off = eng.read_cells(st, k, b + o, eng.pb // 8)
            td = Fields(eng, TREE).get(st, args[1], "data")
            key, at = eng.split(mklin(eng.pb, ladd(lin(td), lin(off))))
            eng.write_cells(st, key, at - 1, 1, et)
        else:
            self.node = False
            F = Fields(eng, READER)
            d, e = F.get(st, args[0], "data"), F.get(st, args[0], "end")
            st.add_le(ladd(lsub(lin(d), lin(e)), (32, ())))
            key, at = ((d, 1),), 0
            if fn.name == "mpack_read_timestamp":
                args[1] = zext(ln, args[1].w) if args[1].w > 32 else ln
            else:
                if c.hdr == "fix":
                    h = [const(8, {1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n])]
                else:
                    k = {"ext8": 1, "ext32": 4}[c.hdr]
                    h = [const(8, 0xc7 if k == 1 else 0xc9)] + [extract(ln, 8 * (k - 1 - i), 8) for i in range(k)]
                for t in h + [et]:
                    eng.write_cells(st, key, at, 1, t)
                    at += 1
        if n in (4, 8, 12):
            c.S = atom({4: 32, 8: 34, 12: 64}[n], ("tsS",), {})
            c.N = atom(30 if n == 8 else 32, ("tsN",), {}) if n > 4 else const(32, 0)
            if n > 4:
                if c.ok:
                    st.set_u(c.N, 0, NSMAX)
                elif c.et == -1:
                    st.set_u(c.N, NSMAX + 1, (1 << c.N.w) - 1)
            t = c.S if n == 4 else concat([c.S, c.N])
            for i in range(n):
                eng.write_cells(st, key, at + i, 1, extract(t, 8 * (n - 1 - i), 8))

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", "%s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        out = []
        for rv, s in rs:
            e = Fields(eng, TREE).get(s, args[1], "error") if self.node else Fields(eng, READER).get(s, args[0], "error")
            b = s.bounds(s.norm(e))
            what = READ[fn.name]
            vals = rv if isinstance(rv, (tuple, list)) else (rv,)
            if not c.ok:
                out.append(self.chkexit(b[0] > 0, "invalid-refused", lambda: "%s: accepted" % c.name, eng, fn))
                out.append(self.chkexit(all(s.bounds(s.norm(v)) == (0, 0) for v in vals), "zero-when-refused", lambda: "%s: returns a value other than zero" % c.name, eng, fn))
                continue
            out.append(self.chkexit(b == (0, 0), "valid-accepted", lambda: "%s ends in error %s" % (c.name, b), eng, fn))
            if b != (0, 0):
                continue
            want = {"both": [c.S, c.N], "s": [c.S], "n": [c.N]}[what]
            bad = None
            for v, x in zip(vals, want):
                v = s.norm(v)
                if x is c.N and v.w > 32:
                    v = s.norm(extract(v, 0, 32))       # the rest of the register is padding
                x = zext(x, v.w) if x.w < v.w else extract(x, 0, v.w)
                if not (v is s.norm(x) or lineq(s, v, x) or samebits(s, v, x)):
                    bad = "returns %s instead of %s" % (show(v), show(s.norm(x)))
            out.append(self.chkexit(bad is None and len(vals) == len(want), "decoded", lambda: "%s: %s" % (c.name, bad), eng, fn))
        return out


def mkw(eng):
    return [Write()]


def mkr(eng):
    return [Read()]


def run(rep, tier):
    rep.explain = ("Writing: seconds and nanoseconds are split at the limits of the three layouts; in each class the bytes stored must be, bit for bit, the smallest layout that can hold "
                   "it, and anything above 999999999 nanoseconds (or v4 mode) must be refused. Reading: for each layout the bytes are symbolic; the returned seconds and nanoseconds must be "
                   "exactly the fields of the layout, and every other length, extension type or nanosecond value must end in an error and zero.")
    cfgs = ["rel64", "size64"] + (["nobuilder64", "freestanding64", "nodouble64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: r in WRITE, False), mkw)
        rep.run(roots(c, lambda m, r: r in READ, False), mkr)
    fns = {k[2] for k in rep.obl}
    if not set(READ) | set(WRITE[:1]) <= fns:
        raise Broken("a timestamp function is missing")
