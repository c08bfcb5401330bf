"""C06 / C07: every value is written in a correct, and the shortest, format."""
import re
from wire import *
from c05 import lineq

INTS = re.compile(r"mpack_write_(u8|u16|u32|u64|uint|i8|i16|i32|i64|int)$")
LENS = {"mpack_start_array": "array", "mpack_start_map": "map", "mpack_start_str": "str", "mpack_start_bin": "bin", "mpack_start_ext": "ext",
        "mpack_write_str": "str", "mpack_write_bin": "bin", "mpack_write_ext": "ext", "mpack_write_utf8": "str"}
FIXED = {"mpack_write_nil": "nil", "mpack_write_true": "true", "mpack_write_false": "false"}
RAW = {"mpack_write_float": 32, "mpack_write_double": 64, "mpack_write_raw_float": 32, "mpack_write_raw_double": 64}
VCUTS = [-(1 << 63), -(1 << 31), -(1 << 15), -(1 << 7), -32, 0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64]
# representable values of each integer format and sizes
RANGE = {"posfix": (0, 127), "negfix": (-32, -1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1),
         "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1)}
LIMIT = {"fixmap": 15, "fixarray": 15, "fixstr": 31, "bin8": 255, "bin16": 65535, "bin32": (1 << 32) - 1, "ext8": 255, "ext16": 65535, "ext32": (1 << 32) - 1,
         "str8": 255, "str16": 65535, "str32": (1 << 32) - 1, "array16": 65535, "array32": (1 << 32) - 1, "map16": 65535, "map32": (1 << 32) - 1}


def hdrsize(f):
    return 1 + (f[5] if f[4] in ("val", "len") else 0) + (1 if f[3] == "ext" else 0)


class Val:
    pass


class Encode(Rule):
    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        versions = (4, 5) if self.hasversion(eng) else (5,)

        def add(name, **kw):
            for ver in versions:
                for room in ((1, 0) if label == "ok,flush" else (1,)):
                    c = Val()
                    c.__dict__.update(kw)
                    c.name = name + (" (v4)" if ver == 4 else "") + ("" if room else " after a flush")
                    c.ver, c.room = ver, room
                    out.append(c)
        g = INTS.match(fn.name)
        tag = fn.name == "mpack_write_tag"
        if g or tag:
            for ty in ([g.group(1)] if g else ["uint", "int"]):
                w = 64 if ty in ("uint", "int") else int(ty[1:])
                sg = ty[0] == "i"
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                for a, b in zip(VCUTS, VCUTS[1:]):
                    a, b = max(a, lo), min(b - 1, hi)
                    if a <= b:
                        add("%s in [%d..%d]" % (ty, a, b), kind="int", lo=a, hi=b, w=w, tagtype="uint" if not sg else "int")
        if fn.name in LENS or tag:
            for kind in ([LENS[fn.name]] if not tag else ["array", "map", "str", "bin"] + (["ext"] if eng.m.enum_values("mpack_type_t").get("mpack_type_ext") else [])):
                cuts = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 256, 65536, 1 << 32] if kind == "ext" else [0, 16, 32, 256, 65536, 1 << 32]
                for a, b in zip(cuts, cuts[1:]):
                    add("%s of [%d..%d]" % (kind, a, b - 1), kind=kind, lo=a, hi=b - 1, w=32, tagtype=kind)
        if fn.name in FIXED:
            add(FIXED[fn.name], kind="fixed", op={"nil": 0xc0, "false": 0xc2, "true": 0xc3}[FIXED[fn.name]])
        if tag:
            add("nil", kind="fixed", op=0xc0, tagtype="nil")
        if fn.name == "mpack_write_bool" or tag:
            for v in (0, 1):
                add(("false", "true")[v], kind="fixed", op=0xc2 + v, bool=v, tagtype="bool")
        if fn.name in RAW or tag:
            for w in ([RAW[fn.name]] if not tag else [32, 64]):
                add("float%d" % w, kind="raw", w=w, tagtype="float" if w == 32 else "double")
        return out

    def hasversion(self, eng):
        return eng.m.offset_of(WRITER, "version") is not None

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        F = Fields(eng, WRITER)
        self.w = w = args[0]
        o = F.at("version")
        if o:
            F.put(st, w, "version", const(o[1] * 8, c.ver))
        pos, end = F.get(st, w, "position"), F.get(st, w, "end")
        self.pos0 = pos
        tag = fn.name == "mpack_write_tag"
        self.data = None
        c.v = None
        if c.kind in ("int", "array", "map", "str", "bin", "ext", "raw"):
            c.v = atom(c.w, ("enc", fn.name, c.w), {}) if getattr(c, "lo", None) is None or c.lo != c.hi else const(c.w, c.lo)
            if c.v.k != "c" and c.kind != "raw":
                lo, hi = c.lo, c.hi
                if lo < 0:
                    lo, hi = lo + (1 << c.w), hi + (1 << c.w)
                st.set_u(c.v, lo, hi)
        c.ext = None
        if tag:
            ty = m.enum_values("mpack_type_t")["mpack_type_" + c.tagtype]
            cells = {}
            # the tag arrives in two registers: bytes 0..7 and 8..15 of the structure
            o, n = m.offset_of(TAG, "type")[:2]
            lowp = [const(8 * n, ty)]
            at = n
            e = m.offset_of(TAG, "exttype")
            if e is not None:
                c.ext = atom(8, ("enc", "exttype"), {})
                if e[0] > at:
                    lowp.append(const(8 * (e[0] - at), 0))
                lowp.append(c.ext)
                at = e[0] + 1
            if at < args[1].w // 8:
                lowp.append(const(args[1].w - 8 * at, 0))
            args[1] = concat(lowp) if len(lowp) > 1 else lowp[0]
            v = st.norm(c.v) if c.v is not None else const(8, getattr(c, "bool", 0))
            args[2] = v if v.w == 64 else zext(v, 64)
        elif c.v is not None:
            if c.kind == "ext":
                c.ext = args[1]
                self.data = args[2] if fn.name.startswith("mpack_write") else None
                args[-1] = c.v
            elif fn.name.startswith("mpack_write_") and c.kind in ("str", "bin"):
                self.data = args[1]
                args[2] = c.v
            else:
                args[1] = c.v
        elif hasattr(c, "bool"):
            args[1] = const(args[1].w, c.bool)
        if self.data is not None:
            st.add_le(ladd(ladd(lin(self.data), lin(c.v)), (-((1 << eng.pb) - 65536), ())))
        # room in the buffer
        need = (18, ())
        if self.data is not None:
            need = ladd(need, lin(c.v))
        if c.room:
            st.add_le(ladd(ladd(lin(pos), need), lin(end), -1))
        else:
            F.put(st, w, "position", end)
            self.pos0 = None

    def on_unreachable(self, eng, st, fr, ins):
        c = self.case
        return self.chk(False, "assertion", "%s leads to an assertion that fails" % c.name, eng, fr, ins)

    def on_memcpy_done(self, eng, st, dst, src, n, fr, ins):
        if self.data is not None and st.norm(src) is st.norm(self.data) and "payload" not in st.ts:
            st.ts["payload"] = (st.norm(dst), st.norm(n))
            # the header stands right before the first byte of the data
            c = self.case
            b = st.norm(Fields(eng, WRITER).get(st, self.w, "buffer"))
            if st.norm(dst) is b:
                st.ts["payload"] = ("?", None)      # the header was flushed before the data
            elif not (c.kind == "ext" and c.ver == 4):
                bad = None
                for f in sorted(self.candidates(c), key=hdrsize):
                    x = self.matches(eng, st, mklin(eng.pb, ladd(lin(st.norm(dst)), (-hdrsize(f), ()))), f, c)
                    if x is None:
                        st.ts["header"] = f[0]
                        return None
                    bad = bad or x
                if c.room:
                    st.ts["header"] = "!" + bad
        return None

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        F = Fields(eng, WRITER)
        out = []
        refused = c.kind == "ext" and c.ver == 4
        for rv, s in rs:
            b = s.bounds(s.norm(F.get(s, args[0], "error")))
            if refused:
                if b == (0, 0):
                    out.append(("v4", self.chkexit(False, "v4-refuses-ext", "an extension type is written in v4 compatibility mode", eng, fn)))
                else:
                    out.append(("v4", self.chkexit(b[0] > 0, "v4-refuses-ext", "an extension type is not refused in v4 compatibility mode", eng, fn)))
                continue
            if b[0] > 0:
                # only running out of memory or a failed flush may refuse a value that fits
                ok = not c.room or label.endswith("build")
                if fn.name == "mpack_write_utf8" and b == (err["mpack_error_invalid"],) * 2:
                    ok = True
                out.append(("ok", self.chkexit(ok, "accepted", lambda: "%s is refused with error %s" % (c.name, b), eng, fn)))
                continue
            if b[1] > 0:
                s = s.copy()
                try:
                    s.set_u(s.norm(F.get(s, args[0], "error")), 0, 0)
                except Infeasible:
                    continue
            out += self.judge(eng, s, fn, args, label, c)
        return [x for k, x in out if k in self.keep]

    def judge(self, eng, s, fn, args, label, c):
        m = eng.m
        F = Fields(eng, WRITER)
        out = []
        pos = s.norm(F.get(s, args[0], "position"))
        # where the header begins
        pay = s.ts.get("payload")
        start = self.pos0
        if start is None or label.endswith("build"):
            # behind a flush or in a page of a builder: count back from where writing ended
            start = None
        fmts = self.candidates(c)
        best = min(hdrsize(f) for f in fmts)
        if start is None and self.data is not None:
            h = s.ts.get("header")
            if h is None:
                return out           # written in several pieces, or no data
            out.append(("ok", self.chkexit(h[0] != "!", "correct-format", lambda: "%s: the data is not preceded by a correct header: %s" % (c.name, h[1:]), eng, fn)))
            for f in fmts:
                if f[0] == h:
                    out.append(("short", self.chkexit(hdrsize(f) == best, "shortest", lambda: "%s is written as %s" % (c.name, f[0]), eng, fn)))
            return out
        msg = None
        for f in sorted(fmts, key=hdrsize):
            n = hdrsize(f)
            if start is not None:
                st0 = start
            else:
                if True:
                    st0 = mklin(eng.pb, ladd(lin(pos), (-n, ())))
            bad = self.matches(eng, s, st0, f, c)
            if bad is None:
                if start is not None:
                    total = (n, ())
                    if self.data is not None:
                        total = ladd(total, lin(c.v))
                    d = ladd(lsub(lin(pos), lin(start)), total, -1)
                    out.append(("ok", self.chkexit(s.prove(d) and s.prove(lscale(d, -1)), "position", lambda: "given %s, the position moves from %s to %s" % (c.name, show(start), show(pos)), eng, fn)))
                    if self.data is not None and not (s.bounds(c.v)[1] == 0):
                        okp = pay is not None and isinstance(pay, tuple) and lineq(s, pay[0], mklin(eng.pb, ladd(lin(start), (n, ())))) and lineq(s, zext(pay[1], 64) if pay[1].w < 64 else pay[1], zext(c.v, 64))
                        out.append(("ok", self.chkexit(okp, "payload", "given %s, the data is not copied right behind the header" % c.name, eng, fn)))
                out.append(("ok", self.chkexit(True, "correct-format", "", eng, fn)))
                out.append(("short", self.chkexit(n == best, "shortest", lambda: "%s is written as %s (%d bytes) instead of %d bytes" % (c.name, f[0], n, best), eng, fn)))
                return out
            msg = msg or bad
        b = None
        if start is not None:
            key, off = eng.split(start)
            b = s.bounds(s.norm(eng.read_cells(s, key, off, 1)))
        if c.ver == 4 and b is not None and c.kind in ("str", "bin") and (b[0] in (0xd9, 0xc4, 0xc5, 0xc6)):
            out.append(("v4", self.chkexit(False, "v4-format", "%s is written with opcode %x, which v4 does not have" % (c.name, b[0]), eng, fn)))
        out.append(("ok", self.chkexit(False, "correct-format", lambda: "%s is not written in a correct format (%s, first byte in %s)" % (c.name, msg, b), eng, fn)))
        return out

    def candidates(self, c):
        out = []
        for f in FORMATS:
            if c.kind == "int":
                ok = f[0] in RANGE and RANGE[f[0]][0] <= c.lo and c.hi <= RANGE[f[0]][1]
            elif c.kind == "fixed":
                ok = f[1] == c.op and f[2] == c.op
            elif c.kind == "raw":
                ok = f[0] == ("float" if c.w == 32 else "double")
            else:
                kind = c.kind
                if c.ver == 4 and kind == "bin":
                    kind = "str"
                if f[3] != kind or c.ver == 4 and f[0] == "str8":
                    continue
                ok = c.hi <= LIMIT.get(f[0], -1) or f[4] == "fixlen" and c.lo == c.hi == f[5]
            if ok:
                out.append(f)
        return out

    def matches(self, eng, s, start, f, c):
        """None if the bytes at start are this format of the value, else what differs"""
        key, off = eng.split(s.norm(start))

        def byte(i):
            return s.norm(eng.read_cells(s, key, off + i, 1))
        b0 = byte(0)
        if f[1] == f[2]:
            if s.bounds(b0) != (f[1], f[1]):
                return "opcode %s for %s" % (show(b0), f[0])
        elif f[0] in ("posfix", "negfix"):
            lo = mklin(8, lin(extract(c.v, 0, 8))) if c.v.w > 8 else c.v
            if not (b0 is s.norm(lo) or self.same(s, b0, c.v, 8, c.lo < 0)):
                return "byte %s for %s" % (show(b0), f[0])
        else:
            d = ladd(lsub(lin(b0), lin(c.v)), (-f[1], ()))
            if not (s.prove(d) and s.prove(lscale(d, -1))) and not self.ored(s, b0, c.v, f):
                return "byte %s for %s" % (show(b0), f[0])
        if f[4] in ("val", "len"):
            n = f[5]
            for i in range(n):
                want = self.vbyte(c, n - 1 - i)
                got = byte(1 + i)
                if got is not s.norm(want) and not lineq(s, got, want) and not self.same_byte(s, got, c, n - 1 - i):
                    return "byte %d is %s instead of %s" % (1 + i, show(got), show(s.norm(want)))
        if f[3] == "ext" and c.ext is not None:
            got = byte(hdrsize(f) - 1)
            if got is not s.norm(c.ext) and not lineq(s, got, c.ext):
                return "extension type byte is %s" % show(got)
        return None

    def vbyte(self, c, i):
        """byte i (0 the lowest) of the value"""
        if 8 * i < c.v.w:
            return extract(c.v, 8 * i, 8)
        return const(8, 0xff if c.kind == "int" and c.lo < 0 else 0)

    def same(self, s, got, v, w, neg):
        d = ladd(lsub(lin(got), lin(v)), (((1 << v.w) - (1 << w)) if neg else 0, ()))
        return s.prove(d) and s.prove(lscale(d, -1))

    def same_byte(self, s, got, c, i):
        """got is a byte of a narrowed copy of the value"""
        if got.k == "ext" and got.a[1] == 8 * i:
            x = got.a[0]
            return self.same(s, x, c.v, x.w, c.kind == "int" and c.lo < 0)
        if i == 0:
            return self.same(s, got, c.v, 8, c.kind == "int" and c.lo < 0)
        return False

    def ored(self, s, b0, v, f):
        """b0 = base | low bits of v"""
        lowbits = {0x80: 4, 0x90: 4, 0xa0: 5}[f[1]]
        def bit(t, i):
            t = s.norm(extract(t, i, 1)) if i < t.w else const(1, 0)
            if t.k == "ext":
                x = t.a[0]
                if x.k == "lin" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                    x = x.a[1][0][0]
                if x.k != "c" and s.bounds(x)[1] < 1 << t.a[1]:
                    return const(1, 0)
                return (x, t.a[1])
            return t
        return all(bit(b0, i) == (bit(v, i) if i < lowbits else const(1, f[1] >> i & 1)) for i in range(8))

    keep = ("ok",)


class Shortest(Encode):
    keep = ("short", "v4")


def mk7(eng):
    return [Shortest()]


def mk(eng):
    return [Encode()]


def pred(m, r):
    return INTS.match(r) or r in LENS or r in FIXED or r in RAW or r in ("mpack_write_bool", "mpack_write_tag")


def run(rep, tier):
    rep.explain = ("For every function that writes a value or a header, the values are split at every boundary of a MessagePack format (and by protocol version, room in the "
                   "buffer, builder or not). In each class the bytes stored at the old position must be a format of that type able to represent the whole class, with big-endian "
                   "payload bytes that are terms over the value, and the position must move by exactly those bytes.")
    cfgs = ["rel64", "size64", "def64"] + (["nobuilder64", "nostdlib64", "freestanding64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, pred, False), mk)
    if len({k[2] for k in rep.obl}) < 25:
        raise Broken("fewer than 25 writing functions found")
