"""C31: a built map or array carries its true element count, and everything written, in order."""
import re
from wire import *

BUILD, PAGE = "mpack_build_t", "mpack_builder_page_t"
ONE = re.compile(r"mpack_(write_(nil|bool|true|false|[ui](8|16|32|64|nt)|float|double|raw_float|raw_double|str|utf8|cstr|cstr_or_nil|utf8_cstr|utf8_cstr_or_nil|"
                 r"bin|ext|timestamp.*|tag|object_bytes)|start_(array|map|str|bin|ext)|build_(array|map))$")
NONE = re.compile(r"mpack_(write_bytes|finish_(array|map|str|bin|ext|type))$")


def ALIGN(eng):
    return eng.pb // 8          # of the members of mpack_build_t


class C:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


class Count(Rule):
    """each element written counts once in the open build at its own level"""

    def splits(self, eng, st, fn, args, label):
        if label != "ok,build":
            return []
        out = []
        for typ in ("array", "map"):
            for key in ((0, 1) if typ == "map" else (0,)):
                for nested in (0, 1):
                    if fn.name in ("mpack_finish_array", "mpack_finish_map") and not nested:
                        continue
                    out.append(C("in %s%s%s" % (typ, " after a key" if key else "", ", inside of another container" if nested else ""), typ=typ, key=key, nested=nested, full=False))
        out.append(C("in array of 2^32-1 elements", typ="array", key=0, nested=0, full=True))
        out.append(C("in map of 2^32-1 pairs after a key", typ="map", key=1, nested=0, full=True))
        return [c for c in out if not c.full or ONE.match(fn.name)]

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        ty = m.enum_values("mpack_type_t")
        F, B = Fields(eng, WRITER), Fields(eng, BUILD)
        self.b = b = st.norm(F.get(st, args[0], "builder.current_build"))
        B.put(st, b, "type", const(8 * B.at("type")[1], ty["mpack_type_" + c.typ]))
        B.put(st, b, "key_needs_value", const(8, c.key))
        n = B.at("nested_compound_elements")[1] * 8
        if c.nested:
            self.nested = B.get(st, b, "nested_compound_elements")
            st.set_u(self.nested, 1, (1 << n) - 2)
        else:
            self.nested = const(n, 0)
            B.put(st, b, "nested_compound_elements", self.nested)
        if c.full:
            self.count = const(32, (1 << 32) - 1)
            B.put(st, b, "count", self.count)
        else:
            self.count = B.get(st, b, "count")
            st.set_u(self.count, 0, (1 << 32) - 2)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        F, B = Fields(eng, WRITER), Fields(eng, BUILD)
        out, n = [], 0
        one = ONE.match(fn.name) is not None
        key, add = c.key, 0
        if one and not c.nested:
            if c.typ == "map" and not c.key:
                key = 1
            else:
                key, add = 0, 1
        push = {"mpack_start_array": 1, "mpack_start_map": 1, "mpack_finish_array": -1, "mpack_finish_map": -1}.get(fn.name, 0)
        for rv, s in rs:
            if s.bounds(s.norm(F.get(s, args[0], "error")))[0] != 0:
                continue
            n += 1
            if c.full:
                continue

            def same(name, old, d):
                x = lsub(lin(s.norm(B.get(s, self.b, name))), ladd(lin(s.norm(old)), (d, ())))
                return x == (0, ()) or s.prove(x) and s.prove(lscale(x, -1))
            out.append(self.chkexit(same("count", self.count, add), "counted-once", lambda: "%s: the count of the build becomes %s, not %s %+d" % (
                c.name, show(s.norm(B.get(s, self.b, "count")))[:80], show(self.count)[:60], add), eng, fn))
            out.append(self.chkexit(s.bounds(s.norm(B.get(s, self.b, "key_needs_value"))) == (key, key), "counted-once",
                                    lambda: "%s: key_needs_value becomes %s instead of %d" % (c.name, s.bounds(s.norm(B.get(s, self.b, "key_needs_value"))), key), eng, fn))
            if fn.name not in ("mpack_write_tag", "mpack_finish_type"):
                out.append(self.chkexit(same("nested_compound_elements", self.nested, push), "nesting",
                                        lambda: "%s: the depth of other containers changes by other than %d" % (c.name, push), eng, fn))
            cb = s.norm(F.get(s, args[0], "builder.current_build"))
            g = re.match(r"mpack_build_(array|map)$", fn.name)
            if g:
                ty = eng.m.enum_values("mpack_type_t")
                new = [s.bounds(s.norm(B.get(s, cb, f))) for f in ("type", "count", "key_needs_value", "nested_compound_elements")]
                t = ty["mpack_type_" + g.group(1)]
                out.append(self.chkexit(cb is not self.b and new == [(t, t), (0, 0), (0, 0), (0, 0)] and s.norm(B.get(s, cb, "parent")) is self.b, "new-build",
                                        lambda: "%s: the new build does not start empty below the current one" % c.name, eng, fn))
            else:
                out.append(self.chkexit(cb is self.b, "current-build", lambda: "%s: the current build changes" % c.name, eng, fn))
        if c.full:
            return [self.chkexit(n == 0, "count-limit", lambda: "%s: one more element is accepted" % c.name, eng, fn)]
        out.append(self.chkexit(n > 0, "counted-once", lambda: "%s: never succeeds" % c.name, eng, fn))
        return out


# ---------------------------------------------------------------- whole builds
class Layout:
    """puts a writer with an open build into a state that a history of writes leads to, and reads such states back"""

    def __init__(self, eng, st, w):
        self.eng, self.st, self.w = eng, st, w
        m = eng.m
        self.F, self.B, self.P = Fields(eng, WRITER), Fields(eng, BUILD), Fields(eng, PAGE)
        self.bsz, self.psz = sizeof(m, BUILD), sizeof(m, PAGE)
        o = self.F.at("builder.internal")
        self.pages = []
        self.ipage = o is not None
        self.npage = m.consts["MPACK_BUILDER_PAGE_SIZE"]
        self.isize = o[1] if o else self.npage
        st.set_u(w, 1 << (eng.pb - 4), 1 << (eng.pb - 3))
        self.stream = []           # ("build", type, count term, index) | (bytes term)
        self.builds = []
        self.natoms = 0
        self.page()

    def page(self):
        i = len(self.pages)
        pb = self.eng.pb
        if i == 0 and self.ipage:
            p = mklin(pb, ladd(lin(self.w), (self.F.at("builder.internal")[0], ())))
        else:
            p = atom(pb, ("bp", i), {"ptr": True, "heap": True})
            self.st.set_u(p, 4096 + (1 << 20) * i, 4096 + (1 << 20) * i + (1 << 19))
        if self.pages:
            self.P.put(self.st, self.pages[-1], "next", p)
            self.close()
        self.pages.append(p)
        self.used = self.psz
        self.size = self.isize if i == 0 else self.npage

    def close(self):
        self.P.put(self.st, self.pages[-1], "bytes_used", const(self.eng.pb, self.used))

    def build(self, typ, count, parent):
        """parent: index of the enclosing build"""
        off = -(-self.used // ALIGN(self.eng)) * ALIGN(self.eng)
        if off + self.bsz > self.size:
            self.page()
            off = -(-self.used // ALIGN(self.eng)) * ALIGN(self.eng)
        b = mklin(self.eng.pb, ladd(lin(self.pages[-1]), (off, ())))
        self.builds.append([b, typ, count, parent, 0])
        self.stream.append(("build", typ, count))
        self.used = off + self.bsz
        if self.size - self.used < 32:
            self.page()

    def bytes(self, n):
        """n bytes of elements, split over pages as mpack_write_native() does"""
        while n:
            k = min(n, self.size - self.used)
            if k:
                self.natoms += 1
                v = atom(8 * k, ("content", self.natoms), {})
                self.put(v)
                n -= k
            if n:
                self.page()

    def put(self, v):
        k = v.w // 8
        key, off = self.eng.split(self.pages[-1])
        self.eng.write_cells(self.st, key, off + self.used, k, v)
        self.used += k
        self.builds[-1][4] += k
        self.stream.append(v)

    def open(self, cur, pending):
        """cur: index of the innermost open build; the last `pending` bytes have not been added to the page yet"""
        eng, st, w, F, B = self.eng, self.st, self.w, self.F, self.B
        pb = eng.pb
        ty = eng.m.enum_values("mpack_type_t")
        self.used -= pending
        self.builds[-1][4] -= pending
        self.close()
        self.P.put(st, self.pages[-1], "next", const(pb, 0))
        for b, typ, count, parent, n in self.builds:
            B.put(st, b, "parent", self.builds[parent][0] if parent is not None else const(pb, 0))
            B.put(st, b, "bytes", const(pb, n))
            B.put(st, b, "count", count)
            B.put(st, b, "type", const(8 * B.at("type")[1], ty["mpack_type_" + typ]))
            B.put(st, b, "key_needs_value", const(8, 0))
            B.put(st, b, "nested_compound_elements", const(32, 0))
        F.put(st, w, "builder.current_build", self.builds[cur][0])
        F.put(st, w, "builder.latest_build", self.builds[-1][0])
        F.put(st, w, "builder.current_page", self.pages[-1])
        F.put(st, w, "builder.pages", self.pages[0])
        at = lambda k: mklin(pb, ladd(lin(self.pages[-1]), (k, ())))
        F.put(st, w, "buffer", at(self.used))
        F.put(st, w, "position", at(self.used + pending))
        F.put(st, w, "end", at(self.size))

    def room(self, n):
        """the stashed buffer has room for n bytes"""
        st, F, w = self.st, self.F, self.w
        for x in ("stash_buffer", "stash_position", "stash_end"):
            st.set_u(F.get(st, w, "builder." + x), 1 << (self.eng.pb - 2), (1 << (self.eng.pb - 1)) - 1)
        st.add_le(ladd(lsub(lin(F.get(st, w, "builder.stash_position")), lin(F.get(st, w, "builder.stash_end"))), (n, ())))


def sizeof(m, name):
    return m.sizeof(m.struct_di(name))


def header(typ, count, st):
    """(bytes) of the shortest header for a count in one class"""
    lo, hi = st.bounds(st.norm(count))
    fix, t16 = {"map": (0x80, 0xde), "array": (0x90, 0xdc)}[typ]
    if hi < 16:
        return [("fix", fix, count)]
    n = 2 if hi < 65536 else 4
    return [const(8, t16 + (n == 4))] + [extract(count, 8 * (n - 1 - k), 8) for k in range(n)]


COUNTS = {"small": (0, 15), "medium": (16, 65535), "large": (65536, (1 << 32) - 1)}


def capacity(eng):
    m = eng.m
    o = Fields(eng, WRITER).at("builder.internal")
    n = m.consts["MPACK_BUILDER_PAGE_SIZE"]
    return (o[1] if o else n) - sizeof(m, PAGE) - sizeof(m, BUILD), n - sizeof(m, PAGE)


def scenarios(F, G):
    """(name, steps, innermost open build, pending bytes): steps are ('b', type, class of count, parent) and ('d', bytes)"""
    out = []

    def add(name, steps, cur=0, pend=(0,)):
        for p in pend:
            out.append(C(name + (" with %d bytes pending" % p if p else ""), steps=steps, cur=cur, pend=p))
    for t in ("array", "map"):
        for k in COUNTS:
            add("an empty %s of %s count" % (t, k), [("b", t, k, None)])
            add("%s of %s count" % (t, k), [("b", t, k, None), ("d", 7)], 0, (0, 7, 3))
        add("a %s up to the end of the first page" % t, [("b", t, "small", None), ("d", F)], 0, (0, 5))
        add("a %s into the second page" % t, [("b", t, "small", None), ("d", F + 1)], 0, (0, 1))
        add("a %s over three pages" % t, [("b", t, "small", None), ("d", F + G + 9)], 0, (0, 9))
        for u in ("array", "map"):
            add("a %s with a %s at its start" % (t, u), [("b", t, "small", None), ("b", u, "medium", 0), ("d", 5)], 0, (0, 2))
            add("a %s with a %s in its middle" % (t, u), [("b", t, "small", None), ("d", 3), ("b", u, "small", 0), ("d", 9)], 0, (0, 9))
            add("a %s with an empty %s at its end" % (t, u), [("b", t, "small", None), ("d", 3), ("b", u, "small", 0)])
    for n in [F - k for k in (88, 65, 64, 63, 48, 40, 39, 33, 32, 31, 24, 9, 8, 1, 0)]:
        add("an array with a map %d bytes after its start" % n, [("b", "array", "small", None), ("d", n), ("b", "map", "small", 0), ("d", 4)], 0, (0, 4))
        add("an array with an empty map %d bytes after its start" % n, [("b", "array", "small", None), ("d", n), ("b", "map", "small", 0)])
    for a in [0, 40] + [F - k for k in (112, 104, 96, 72, 64)]:
        add("three levels (%d)" % a, [("b", "map", "small", None), ("d", a), ("b", "array", "medium", 0), ("b", "map", "small", 1), ("d", 30), ("b", "array", "large", 0), ("d", 1)], 0, (0, 1))
    add("a build at the end of the second page", [("b", "array", "small", None), ("d", F + G - 40), ("b", "array", "small", 0), ("d", 2)], 0, (0, 2))
    add("builds on three pages", [("b", "array", "small", None), ("d", F - 8), ("b", "array", "small", 0), ("d", G - 50), ("b", "map", "medium", 1), ("d", 3)], 0, (0, 3))
    return out


class Walk(Rule):
    """in a state that is known completely, nothing but what it consists of is touched"""

    def known(self, eng, st, fn, args, pages):
        F = Fields(eng, WRITER)
        self.objs = set(pages) | {a for a in args if isinstance(a, T)}
        for f in ("buffer", "position", "end", "builder.stash_buffer", "builder.stash_position", "builder.stash_end"):
            self.objs.add(st.norm(F.get(st, args[0], f)))

    def on_access(self, eng, st, addr, ln, mode, fr, ins):
        p = eng.prov(eng.split(addr)[0])
        mt = (p.meta or {}) if p is not None else {}
        ok = p is not None and (p.k == "g" or p in self.objs or mt.get("alloca") or mt.get("heap"))
        r = self.chk(ok, "within-the-build", lambda: "%s: accesses %s, which is no part of the writer or its pages" % (self.case.name, show(addr)[:100]), eng, fr, ins)
        if not ok:
            self.add(r)
            raise Infeasible()
        return r


class Resolve(Walk):
    """completing the outermost build writes each build's header and what follows it, in order"""

    def splits(self, eng, st, fn, args, label):
        if label != "ok,build":
            return []
        t = fn.name.rsplit("_", 1)[1]
        return [c for c in scenarios(*capacity(eng)) if c.steps[0][1] == t]

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        L = self.L = Layout(eng, st, args[0])
        total = 0
        for k, s in enumerate(c.steps):
            if s[0] == "b":
                n = atom(32, ("cnt", k), {})
                st.set_u(n, *COUNTS[s[2]])
                L.build(s[1], n, s[3])
                total += 5
            else:
                L.bytes(s[1])
                total += s[1]
        L.open(c.cur, c.pend)
        L.room(total + 64)
        self.sp = L.F.get(st, args[0], "builder.stash_position")
        self.known(eng, st, fn, args, L.pages)
        self.sb, self.se = (L.F.get(st, args[0], "builder.stash_" + x) for x in ("buffer", "end"))

    def exits(self, eng, rs, fn, args, label):
        c, L = self.case, self.L
        F = L.F
        out = []
        if not rs:
            return [self.chkexit(False, "resolved", lambda: "completing %s: never returns" % c.name, eng, fn)]
        for rv, s in rs:
            e = s.bounds(s.norm(F.get(s, args[0], "error")))
            out.append(self.chkexit(e == (0, 0), "resolved", lambda: "completing %s: ends with error %s" % (c.name, e), eng, fn))
            if e != (0, 0):
                continue
            key, off = eng.split(s.norm(self.sp))
            bad = None
            for x in L.stream:
                ps = header(x[1], x[2], s) if isinstance(x, tuple) else [x]
                for q in ps:
                    if isinstance(q, tuple):
                        n = 1
                        want = q[1]
                        got = s.norm(eng.read_cells(s, key, off, 1))
                        d = lsub(lin(got), ladd(lin(s.norm(extract(q[2], 0, 8))), (want, ())))
                        ok = d == (0, ()) or s.prove(d) and s.prove(lscale(d, -1)) or orbits(s, got, q[2], want)
                    else:
                        n = q.w // 8
                        got = s.norm(eng.read_cells(s, key, off, n))
                        ok = got is s.norm(q) or n == 1 and samebits(s, got, q)
                    if not ok and bad is None:
                        bad = "at byte %d: %s" % (off, show(got)[:100]), "%s" % (x[:2] if isinstance(x, tuple) else show(x)[:60],)
                    off += n
            out.append(self.chkexit(bad is None, "contents", lambda: "completing %s: %s is written instead of %s" % ((c.name,) + bad), eng, fn))
            p = s.norm(F.get(s, args[0], "position"))
            d = lsub(lin(p), ladd((off, ()), (0, key)))
            out.append(self.chkexit(d == (0, ()), "length", lambda: "completing %s: the position ends up %s behind the bytes" % (c.name, showl(d)), eng, fn))
            for f, w in (("buffer", self.sb), ("end", self.se), ("builder.current_build", const(eng.pb, 0))):
                out.append(self.chkexit(s.norm(F.get(s, args[0], f)) is s.norm(w), "restored", lambda: "completing %s: %s is not restored" % (c.name, f), eng, fn))
        return out


def orbits(s, got, cnt, want):
    """got == want | cnt, bit by bit (cnt < 16)"""
    c8 = extract(cnt, 0, 8)
    for i in range(8):
        w = want >> i & 1 if i >= 4 or want >> i & 1 else bit(s, c8, i)
        if bit(s, got, i) != w:
            return False
    return True


# operations on an open build: name -> variants
APPEND = {"mpack_write_nil": (0,), "mpack_write_u64": (0,), "mpack_write_bytes": (0, 1, 5, 40, 300), "mpack_write_str": (40,), "mpack_start_array": (0,), "mpack_write_double": (0,),
          "mpack_build_array": (0,), "mpack_build_map": (0,), "mpack_complete_array": (0,), "mpack_complete_map": (0,)}


def bytes_of(v):
    return [extract(v, 8 * i, 8) for i in range(v.w // 8)]


class Append(Walk):
    """every operation on an open build appends exactly its bytes, or a new build, to what was written before, wherever pages end"""

    def splits(self, eng, st, fn, args, label):
        if fn.name.startswith("mpack_build") and label in ("ok,flush", "ok,noflush"):
            return [C("the first build", steps=None, cur=0, pend=0, v=0)]
        if label != "ok,build":
            return []
        out = []

        def add(name, steps, cur, pend, v):
            out.append(C("%s, %d bytes pending%s" % (name, pend, ", of %d bytes" % v if v else ""), steps=steps, cur=cur, pend=pend, v=v))
        done = fn.name.startswith("mpack_complete")
        t = fn.name.rsplit("_", 1)[1] if done else "array"
        F = capacity(eng)[0]
        for v in APPEND[fn.name]:
            for n in [0, 1] + [F - k for k in (65, 64, 63, 48, 41, 40, 39, 33, 32, 31, 9, 8, 5, 4, 1, 0, -42)]:
                for pend in sorted({0, min(n, 1), n if n <= F else n - F}):
                    if done:
                        # the inner build has the bytes, and then the outer one goes on
                        add("after %d bytes of an inner build" % n, [("b", "map", "small", None), ("b", t, "small", 0), ("d", n)], 1, pend if n <= F - 40 else min(pend, 1), v)
                    else:
                        add("after %d bytes of a build" % n, [("b", "map", "small", None), ("d", n)], 0, pend, v)
            for n in (0, 5, F - 108, F - 80):
                for pend in {0, n}:
                    if done:
                        add("in the third level, %d bytes" % n, [("b", "array", "small", None), ("b", "map", "small", 0), ("d", 9), ("b", t, "small", 1), ("d", n)], 2, pend, v)
                        add("behind a completed build, %d bytes" % n, [("b", "array", "small", None), ("b", t, "small", 0), ("d", 9), ("b", "map", "small", 1), ("d", n)], 1, pend, v)
                    else:
                        add("behind a completed build, %d bytes" % n, [("b", "array", "small", None), ("d", 9), ("b", "map", "medium", 0), ("d", n)], 0, pend, v)
                        add("in an inner build, %d bytes" % n, [("b", "array", "small", None), ("d", 9), ("b", "map", "medium", 0), ("d", n)], 1, pend, v)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        self.w = args[0]
        if c.steps is None:
            st.set_u(args[0], 1 << (eng.pb - 4), 1 << (eng.pb - 3))
            F = Fields(eng, WRITER)
            self.before = [F.get(st, args[0], f) for f in ("buffer", "position", "end")]
            self.want, self.cur, self.builds = [], None, []
        else:
            L = Layout(eng, st, args[0])
            for k, s in enumerate(c.steps):
                if s[0] == "b":
                    n = atom(32, ("cnt", k), {})
                    st.set_u(n, *COUNTS[s[2]])
                    L.build(s[1], n, s[3])
                else:
                    L.bytes(s[1])
            L.open(c.cur, c.pend)
            self.want = []
            for x in L.stream:
                self.want += [x] if isinstance(x, tuple) else bytes_of(x)
            self.builds = [b[0] for b in L.builds]
            self.cur = self.builds[c.cur]
            self.parent = L.builds[c.cur][3]
        n = fn.name
        v = Fields(eng, WRITER).at("version")
        if v:
            Fields(eng, WRITER).put(st, args[0], "version", const(8 * v[1], 5))
        data = None
        if n == "mpack_write_nil":
            self.want.append(const(8, 0xc0))
        elif n in ("mpack_write_u64", "mpack_write_double"):
            if n == "mpack_write_u64":
                st.set_u(args[1], 1 << 32, (1 << 64) - 1)
            self.want += [const(8, 0xcf if n == "mpack_write_u64" else 0xcb)] + bytes_of(args[1])[::-1]
        elif n == "mpack_start_array":
            st.set_u(args[1], 1 << 16, (1 << 32) - 1)
            self.want += [const(8, 0xdd)] + bytes_of(args[1])[::-1]
        elif n in ("mpack_write_bytes", "mpack_write_str"):
            data = args[1]
            args[2] = const(args[2].w, c.v)
            if n == "mpack_write_str":
                self.want += [const(8, 0xd9), const(8, c.v)]
        elif n.startswith("mpack_build"):
            self.want.append(("build", n.rsplit("_", 1)[1], const(32, 0)))
        if data is not None and c.v:
            key, off = eng.split(data)
            st.set_u(data, 1 << (eng.pb - 2), (1 << (eng.pb - 1)) - 1)
            self.want += [eng.read_cells(st, key, off + i, 1) for i in range(c.v)]
        self.known(eng, st, fn, args, [] if c.steps is None else L.pages)

    def on_allocated(self, eng, st, p, *rest):
        if isinstance(p, T) and p.k == "a":
            st.set_u(p, 4096, 1 << (eng.pb - 5))

    def read(self, eng, s):
        """what has been written, or a string saying why that cannot be told"""
        F, B, P = Fields(eng, WRITER), Fields(eng, BUILD), Fields(eng, PAGE)
        ty = {v: k for k, v in eng.m.enum_values("mpack_type_t").items()}
        pb = eng.pb
        get = lambda X, o, f: s.norm(X.get(s, o, f))
        o = F.at("builder.internal")
        page = s.norm(mklin(pb, ladd(lin(self.w), (o[0], ())))) if o else get(F, self.w, "builder.pages")
        psz, bsz = sizeof(eng.m, PAGE), sizeof(eng.m, BUILD)
        buf, pos = get(F, self.w, "buffer"), get(F, self.w, "position")
        cur, latest = get(F, self.w, "builder.current_page"), get(F, self.w, "builder.latest_build")
        d = lsub(lin(pos), lin(buf))
        if d[1]:
            return "the number of bytes pending is not determined"
        pend = d[0]
        got, builds = [], []
        off = -(-psz // ALIGN(eng)) * ALIGN(eng)
        for _ in range(50):
            b = s.norm(mklin(pb, ladd(lin(page), (off, ()))))
            builds.append(b)
            t, left = s.bounds(get(B, b, "type")), s.bounds(get(B, b, "bytes"))
            if t[0] != t[1] or left[0] != left[1]:
                return "a build has no determined type or size"
            got.append(("build", ty.get(t[0], "?")[11:], get(B, b, "count")))
            left = left[0] + (pend if b is latest else 0)
            off += bsz
            while True:
                used = s.bounds(get(P, page, "bytes_used"))
                if used[0] != used[1]:
                    return "the bytes used of a page are not determined"
                used = used[0]
                if page is cur:
                    if lsub(lin(buf), ladd(lin(page), (used, ()))) != (0, ()):
                        return "the buffer does not follow what is used of the page"
                    used += pend
                k = max(0, min(left, used - off))
                key, base = eng.split(page)
                got += [s.norm(eng.read_cells(s, key, base + off + i, 1)) for i in range(k)]
                off += k
                left -= k
                if not left:
                    break
                nx = get(P, page, "next")
                if page is cur or s.bounds(nx)[1] == 0:
                    return "%d bytes are missing" % left
                page, off = nx, psz
            off = -(-off // ALIGN(eng)) * ALIGN(eng)
            while off + bsz > used:
                nx = get(P, page, "next")
                if s.bounds(nx)[1] == 0:
                    if page is not cur:
                        return "the current page is not the last"
                    if b is not latest:
                        return "the latest build is not the last"
                    return got, builds
                page = nx
                u = s.bounds(get(P, page, "bytes_used"))
                used = u[0] + (pend if page is cur else 0)
                off = -(-psz // ALIGN(eng)) * ALIGN(eng)
        return "the builds do not end"

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        F, B = Fields(eng, WRITER), Fields(eng, BUILD)
        out, n = [], 0
        what = lambda: "%s %s" % (fn.name, c.name)
        for rv, s in rs:
            if s.bounds(s.norm(F.get(s, args[0], "error")))[0] != 0:
                continue
            n += 1
            r = self.read(eng, s)
            if isinstance(r, str):
                out.append(self.chkexit(False, "appended", lambda: "%s: %s" % (what(), r), eng, fn))
                continue
            got, builds = r
            bad = "%d instead of %d items" % (len(got), len(self.want)) if len(got) != len(self.want) else None
            for i, (g, w) in enumerate(zip(got, self.want)):
                if bad:
                    break
                if isinstance(g, tuple) != isinstance(w, tuple):
                    bad = "a build is out of place at %d" % i
                elif isinstance(g, tuple):
                    last = isinstance(g, tuple) and i == 0
                    if g[1] != w[1]:
                        bad = "a build has the wrong type"
                elif g is not s.norm(w) and not samebits(s, g, s.norm(w)):
                    bad = "byte %d is %s instead of %s" % (i, show(g)[:60], show(s.norm(w))[:60])
            out.append(self.chkexit(bad is None, "appended", lambda: "%s: %s" % (what(), bad), eng, fn))
            cb = s.norm(F.get(s, args[0], "builder.current_build"))
            if fn.name.startswith("mpack_build"):
                okc = cb is builds[-1]
                p = s.norm(B.get(s, cb, "parent"))
                okp = p is self.cur if self.cur is not None else s.bounds(p)[1] == 0
            else:
                okp = True
                okc = cb is (self.cur if not fn.name.startswith("mpack_complete") else self.builds[self.parent])
            out.append(self.chkexit(okc and okp, "current-build", lambda: "%s: the current build or its parent is not the right one" % what(), eng, fn))
            if c.steps is None:
                st = [s.norm(F.get(s, args[0], "builder.stash_" + f)) for f in ("buffer", "position", "end")]
                out.append(self.chkexit(st == [s.norm(x) for x in self.before], "stashed", "the buffer in use before the first build is not stashed", eng, fn))
        out.append(self.chkexit(n > 0, "appended", lambda: "%s: never succeeds" % what(), eng, fn))
        return out


def mk_append(eng):
    return [Append()]


def mk_count(eng):
    return [Count()]


def mk_resolve(eng):
    return [Resolve()]


def run(rep, tier):
    rep.explain = ("Every function that writes an element is analysed in every kind of open build: exactly one element is counted at its own level, or none. From concrete layouts of builds over pages "
                   "(symbolic contents, counts and values; page ends at every critical distance) each kind of operation must append exactly its bytes or a new build to the stream the pages stand for, and "
                   "completing the outermost build must write that stream with the shortest headers for the counts to the original buffer.")
    for c in ["rel64"] + (["size64", "rel32"] if tier == "thorough" else []):
        rep.run(roots(c, lambda m, r: ONE.match(r) or NONE.match(r), False), mk_count)
    for c in ["bpage64", "internal64"] + (["rel64", "rel32"] if tier == "thorough" else []):
        rep.run(roots(c, lambda m, r: r in ("mpack_complete_array", "mpack_complete_map"), False), mk_resolve, {"peel": 12, "copymax": 1 << 14})
        rep.run(roots(c, lambda m, r: r in APPEND, False), mk_append, {"peel": 12, "copymax": 1 << 14})
    rep.cov["cases"] = rep.entries
