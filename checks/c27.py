"""C27: with tracking, each element and byte counts once in what is open, and what does not fit or match is flagged"""
import re
from base import *
from domain import ASTEPS
from wire import *
import terms

ELEM = "mpack_track_element_t"
WHOLE = re.compile(r"mpack_discard$|mpack_expect_\w*(_buf|cstr\w*|utf8\w*|str_match|bin_alloc|ext_alloc|enum\w*|key_cstr|timestamp\w*)$")
# reads and writes of bytes: (argument that counts them, only strings and all of it, closes the type)
BYTES = {"mpack_read_bytes": (2, 0, None), "mpack_skip_bytes": (1, 0, None), "mpack_read_bytes_inplace": (1, 0, None), "mpack_read_bytes_alloc_impl": (1, 0, None),
         "mpack_read_bytes_alloc": (1, 0, None), "mpack_read_utf8": (2, 1, None), "mpack_read_utf8_inplace": (1, 1, None), "mpack_read_cstr": (3, 1, None),
         "mpack_read_utf8_cstr": (3, 1, None), "mpack_read_timestamp": (1, 0, "ext"), "mpack_write_bytes": (2, 0, None)}
CLOSE = re.compile(r"mpack_(done|finish|complete)_(array|map|str|bin|ext)$")
CLOSEANY = ("mpack_done_type", "mpack_finish_type")
END = ("mpack_writer_destroy", "mpack_writer_flush_message", "mpack_reader_destroy", "mpack_reader_remaining")
OPEN = {"mpack_start_array": ("array", 1), "mpack_start_map": ("map", 1), "mpack_start_str": ("str", 1), "mpack_start_bin": ("bin", 1), "mpack_start_ext": ("ext", 2),
        "mpack_build_array": ("array", None), "mpack_build_map": ("map", None)}
WRITES = re.compile(r"mpack_write_(nil|true|false|bool|u\d+|i\d+|u?int|float|double|str|utf8|cstr|cstr_or_nil|utf8_cstr|utf8_cstr_or_nil|bin|ext|object_bytes|timestamp\w*)$")
SAMPLE = ("nil", "true", "posfix", "u16", "uint16", "i32", "int32", "float", "float32", "double", "float64", "fixarray", "array16", "fixmap", "map32", "fixstr", "str8", "str16", "str32", "bin8", "bin32", "fixext4", "ext8", "ext16", "ext32", "array32", "map16")
PAYLOAD = ("str", "bin", "ext")


class Top:
    """what is open before: count elements, the innermost of this type with `left` in a range relative to what is done"""
    def __init__(self, name, count=2, typ="array", left="some", key=0, builder=0, bad=False, arg=None):
        self.arg = arg
        self.name, self.count, self.typ, self.left, self.key, self.builder, self.bad = name, count, typ, left, key, builder, bad


def tops(n, writer):
    """the states before a call"""
    out = []
    if n in BYTES:
        i, full, close = BYTES[n]
        for t in ((close,) if close else ("str",) if full else PAYLOAD):
            out.append(Top("%s with these bytes left" % t, typ=t, left="equal"))
            if not full and not close:
                out.append(Top("%s with more bytes left" % t, typ=t, left="more"))
            out.append(Top("%s with fewer bytes left" % t, typ=t, left="fewer", bad=True))
        if full or close:
            out.append(Top("another type with these bytes left", typ="bin", left="equal", bad=True))
            out.append(Top("more bytes left", typ=close or "str", left="more", bad=True))
        out.append(Top("nothing open", count=0, bad=True))
        return out + [Top("in " + t, typ=t, bad=True) for t in ("array", "map")]
    if n in CLOSEANY:
        for t in ("array", "map") + PAYLOAD:
            out += [Top("closing a %s that is done" % t, typ=t, left="none", arg=t), Top("closing a %s with some left" % t, typ=t, bad=True, arg=t),
                    Top("closing a %s with nothing open" % t, count=0, bad=True, arg=t)]
            out += [Top("closing a %s in a %s" % (t, x), typ=x, left="none", bad=True, arg=t) for x in ("array", "map") + PAYLOAD if x != t]
        return out
    if n in END:
        return [Top("nothing open", count=0), Top("one element open", count=1, bad=True), Top("elements open", bad=True),
                Top("a finished array open", left="none", bad=True), Top("a finished string open", typ="str", left="none", bad=True)]
    c = CLOSE.match(n)
    if c:
        b = int(c.group(1) == "complete")
        t = c.group(2)
        out = [Top("all done", typ=t, left="none", builder=b), Top("elements or bytes left", typ=t, left="some", builder=0, bad=True),
               Top("nothing open", count=0, bad=True)]
        if t in ("array", "map") and writer:
            out.append(Top("the other kind of build", typ=t, left="none", builder=1 - b, bad=True))
        if t == "map":
            out.append(Top("a key without value", typ=t, left="none", key=1, builder=b, bad=True))
        return out + [Top("in " + x, typ=x, left="none", builder=b if x in ("array", "map") else 0, bad=True) for x in ("array", "map", "str", "bin", "ext") if x != t]
    out = [Top("nothing open", count=0), Top("in an array"), Top("in a map", typ="map"), Top("in a map after a key", typ="map", key=1),
           Top("array full", left="none", bad=True), Top("map full", typ="map", left="none", bad=True)]
    out += [Top("in " + t, typ=t, bad=True) for t in PAYLOAD]
    if writer:
        out += [Top("in a built array", left="none", builder=1), Top("in a built map", typ="map", left="none", builder=1),
                Top("in a built map after a key", typ="map", left="none", key=1, builder=1)]
    return out


class Both:
    def __init__(self, top, case):
        self.top, self.case = top, case
        self.name = top.name + (", given " + case.name if case else "")


class Tracks(Rule):
    def splits(self, eng, st, fn, args, label):
        if "err" in label:
            return []
        n = fn.name
        writer = objects(eng, args)[0][0] == WRITER
        ts = tops(n, writer)
        if writer or n in BYTES or CLOSE.match(n) or n in CLOSEANY + END:
            if writer and n.startswith("mpack_complete"):
                ts = [t for t in ts if t.bad] if label != "ok,build" else ts
            return [Both(t, None) for t in ts]
        fs = [f for f in FORMATS if f[0] in SAMPLE and not (n == "mpack_discard" and f[3] in ("array", "map"))]
        # one format of each kind is enough to see that what does not fit is flagged
        return [Both(t, Case(f[0], f)) for t in ts for f in fs if not t.bad or f[0] in ("nil", "fixstr")]

    def elem(self, eng, st, F, o, i, what, w=None):
        key, base = eng.split(st.norm(F.get(st, o, "track.elements")))
        f = eng.m.offset_of(ELEM, what)
        at = base + i * self.size + f[0]
        if w is None:
            return st.norm(eng.read_cells(st, key, at, f[1]))
        eng.write_cells(st, key, at, f[1], const(8 * f[1], w) if isinstance(w, int) else w)

    def start(self, eng, st, fn, args, label):
        self.sp = eng.split_name
        t = self.top = self.sp.top
        n = fn.name
        self.sn, self.o = objects(eng, args)[0]
        F = self.F = Fields(eng, self.sn)
        m = eng.m
        self.size = m.sizeof(m.struct_di(ELEM))
        self.ty = {k[len("mpack_type_"):]: v for k, v in m.enum_values("mpack_type_t").items()}
        self.bug = m.enum_values("mpack_error_t")["mpack_error_bug"]
        if self.sp.case:
            put_reader(eng, st, self.o, self.sp.case)
        c = self.sp.case
        if c and c.kind == "array" and "_alloc" in n:
            st.set_u(c.v, 1, (1 << c.v.w) - 1) if c.v.k != "c" else None
        if "cstr_alloc" in n and len(args) == 2:
            st.set_u(args[1], 1, (1 << args[1].w) - 1)
        if t.arg:
            st.set_u(args[1], self.ty[t.arg], self.ty[t.arg])
        if self.sn == WRITER and F.at("version"):
            F.put(st, self.o, "version", const(F.at("version")[1] * 8, m.enum_values("mpack_version_t")["mpack_version_v5"]))
        if n in ("mpack_write_timestamp", "mpack_write_timestamp_struct"):
            st.set_u(args[2], 0, 999999999)
        p = st.norm(F.get(st, self.o, "track.elements"))
        st.set_u(p, 1 << (eng.pb - 4), 1 << (eng.pb - 3))
        cw = F.at("track.count")[1] * 8
        F.put(st, self.o, "track.count", const(cw, t.count))
        F.put(st, self.o, "track.capacity", const(cw, 8))
        self.left = const(32, 0)
        self.n = None
        if n in BYTES:
            self.n = args[BYTES[n][0]]
            if n == "mpack_read_timestamp":
                st.set_u(self.n, 12, 12)
            if n in ("mpack_read_cstr", "mpack_read_utf8_cstr"):
                st.set_u(args[2], 1, (1 << args[2].w) - 1)
        if t.count:
            if t.left != "none":
                self.left = atom(32, ("trackleft",), {})
                if t.left == "some":
                    st.set_u(self.left, 1, (1 << 32) - 1)
                else:
                    d = lsub(lin(self.n), lin(zext(self.left, eng.pb)))
                    if t.left == "equal":
                        st.add_le(d)
                        st.add_le(lscale(d, -1))
                    elif t.left == "more":
                        st.add_le(ladd(d, (1, ())))
                    else:
                        st.add_le(ladd(lscale(d, -1), (1, ())))
            for i, (ty, left, key, b) in enumerate((("map", 7, 1, 0), (t.typ, self.left, t.key, t.builder))):
                self.elem(eng, st, F, self.o, i, "type", self.ty[ty])
                self.elem(eng, st, F, self.o, i, "left", left)
                self.elem(eng, st, F, self.o, i, "key_needs_value", key)
                self.elem(eng, st, F, self.o, i, "builder", b)
        eng.keepstack.append({self.left} | (atoms_of(self.n) if self.n is not None else set()))

    def on_store(self, eng, st, addr, size, v, fr, ins):
        if isinstance(v, T) and lin(addr) == ladd(lin(self.o), (self.F.at("error")[0], ())):
            v = st.norm(v)
            st.ts["ev"] = v.a[0] if v.k == "c" else -1

    def on_cb_error(self, eng, st, *a):
        st.ts["cberr"] = 1

    def on_allocfail(self, eng, st, *a):
        st.ts["cberr"] = 1

    def exits(self, eng, rs, fn, args, label):
        out, n, F, t = [], fn.name, self.F, self.top
        good = 0
        # no call to make in this state
        wrong = n == "mpack_writer_destroy" and "build" in label or n == "mpack_writer_flush_message" and ("noflush" in label or "build" in label)
        for rv, s in rs:
            e = s.bounds(s.norm(F.get(s, self.o, "error")))
            if e[1] != 0:
                if not t.bad and not s.ts.get("cberr") and not n.startswith("mpack_complete") and not wrong:
                    out.append(self.chkexit(not e[0] <= self.bug <= e[1], "not-flagged", "%s: a bug is flagged" % self.sp.name, eng, fn))
                elif t.bad:
                    out.append(self.chkexit(e[0] > 0, "flagged", "%s: no error is flagged" % self.sp.name, eng, fn))
                continue
            if t.bad:
                out.append(self.chkexit(False, "flagged", "%s: no error is flagged" % self.sp.name, eng, fn))
                continue
            good += 1
            if n in END:
                continue
            out += self.after(eng, s, fn, args)
        if not good and not t.bad and not wrong and (not self.sp.case and n != "mpack_read_timestamp"):
            out.append(self.chkexit(False, "not-flagged", "%s: never succeeds" % self.sp.name, eng, fn))
        return out

    def after(self, eng, s, fn, args):
        n, F, t, o, c = fn.name, self.F, self.top, self.o, self.sp.case
        left, key, count, new = lin(zext(self.left, eng.pb)), t.key, t.count, None
        peek = n == "mpack_peek_tag"
        if n in BYTES:
            left = lsub(left, lin(self.n))
            if BYTES[n][2]:
                count -= 1
        elif CLOSE.match(n) or n in CLOSEANY:
            count -= 1
        elif not peek:
            if t.count:
                if t.typ == "map" and not t.key:
                    key = 1
                else:
                    key = 0
                    if not t.builder:
                        left = ladd(left, (-1, ()))
            if n in OPEN:
                ty, i = OPEN[n]
                new = (ty, None if i is None else args[i], int(i is None))
            elif c and c.kind in ("array", "map") or c and c.kind in PAYLOAD and not WHOLE.match(n):
                new = (c.kind, c.v, 0)
            if new:
                count += 1
        out = []

        def chk(ok, msg):
            out.append(self.chkexit(ok, "accounted", lambda: "%s: %s" % (self.sp.name, msg()), eng, fn))
        have = s.bounds(s.norm(F.get(s, o, "track.count")))
        chk(have == (count, count), lambda: "%s elements are open afterwards instead of %d" % (have[0] if have[0] == have[1] else have, count))
        if have != (count, count):
            return out
        el = lambda i, w: self.elem(eng, s, F, o, i, w)

        def same(a, b):
            d = lsub(lin(zext(a, eng.pb)), b)
            return d == (0, ()) or s.prove(d, ASTEPS) and s.prove(lscale(d, -1), ASTEPS)
        if t.count and count >= 2:
            chk(same(el(1, "left"), left), lambda: "%s are left of the open %s instead of %s" % (show(el(1, "left")), t.typ, show(mklin(eng.pb, left))))
            chk(s.bounds(el(1, "key_needs_value")) == (key, key), lambda: "whether a key waits for its value becomes %s instead of %d" % (s.bounds(el(1, "key_needs_value")), key))
        if t.count:
            chk(s.bounds(el(0, "left")) == (7, 7) and s.bounds(el(0, "key_needs_value")) == (1, 1), lambda: "an outer element changes")
        if new:
            k = count - 1
            chk(s.bounds(el(k, "type")) == (self.ty[new[0]],) * 2, lambda: "what is opened is not a %s" % new[0])
            chk(s.bounds(el(k, "builder")) == (new[2],) * 2 and s.bounds(el(k, "key_needs_value")) == (0, 0), lambda: "what is opened does not start empty")
            want = lin(new[1] if new[1].w == eng.pb else zext(new[1], eng.pb) if new[1].w < eng.pb else terms.extract(new[1], 0, eng.pb)) if new[1] is not None else (0, ())
            chk(same(el(k, "left"), want), lambda: "%s instead of %s are left of the %s opened" % (show(el(k, "left")), show(mklin(eng.pb, want)), new[0]))
        return out


def mk(eng):
    return [Tracks()]


def wanted(m, r):
    a = arg_structs(m, r)
    if READER in a:
        return r in BYTES or CLOSE.match(r) or r in END + CLOSEANY or r in ("mpack_read_tag", "mpack_peek_tag", "mpack_discard") or r.startswith("mpack_expect_") and not re.search(r"key_|enum", r)
    return WRITER in a and (r in BYTES or r in OPEN or r in END + CLOSEANY or CLOSE.match(r) or WRITES.match(r))


def run(rep, tier):
    rep.explain = ("With tracking compiled in, each reading, writing, opening, closing and ending function is run from states whose stack of open elements is given: what it leaves open (how many, "
                   "of which type, how much is left of each, whether a key waits) is what its documented effect makes it, and it flags a bug exactly when the operation does not fit what is open.")
    for c in ["track64"] + (["track32"] if tier == "thorough" else []):
        rep.run(roots(c, wanted, False), mk)
    for r, least in (("accounted", 80), ("flagged", 100)):
        n = len([k for k in rep.obl if k[0] == r])
        if n < least:
            raise Broken("%s was decided for only %d functions" % (r, n))
