"""C30: map lookups and enumeration matching find exactly the matching key."""
import re
from wire import *

LOOKUP = re.compile(r"mpack_node_map_(contains_)?(int|uint|str|cstr)(_optional)?$")
ENUM = {"mpack_node_enum": "required", "mpack_node_enum_optional": "optional", "mpack_expect_enum": "required",
        "mpack_expect_enum_optional": "optional", "mpack_expect_key_cstr": "key"}
MATCH = ("mpack_expect_str_match", "mpack_expect_cstr_match")
MANY = 40


class C:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


def eq(st, a, b):
    d = lsub(lin(a), lin(b))
    st.add_le(d)
    st.add_le(lscale(d, -1))


def lt(st, a, b):
    st.add_le(ladd(lsub(lin(a), lin(b)), (1, ())))


def num_cases(kind):
    """[(name, sign of the number, [key...])], a key is (type, relation, matches)"""
    out = []
    signs = ("negative", "nonnegative") if kind == "int" else ("below 2^63", "from 2^63")
    for s in signs:
        keys = []
        for t in ("int", "uint"):
            own = t == kind
            both = s in ("nonnegative", "below 2^63")
            keys.append((t, "same bits", own or both))
            for r in ("less", "greater"):
                keys.append((t, r, False))
        for t in ("nil", "bool", "float", "double", "str", "bin", "array", "map", "ext"):
            keys.append((t, "same bits", False))
        m = [k for k in keys if k[2]]
        no = [k for k in keys if not k[2]]
        out.append((s, keys, m, [no[0], [k for k in no if k[1] == "greater"][0], ("nil", "same bits", False)]))
    return out


def str_cases():
    keys = [("str", x, x == "same") for x in ("same", "other content", "shorter", "longer")]
    keys += [(t, "same", False) for t in ("nil", "bool", "int", "uint", "float", "double", "bin", "array", "map", "ext")]
    return [("", keys, [keys[0]], [keys[1], keys[2], ("bin", "same", False)])]


def maps(cases):
    out = []
    for s, keys, m, no in cases:
        M, N = m[0], no[0]
        ms = [()] + [(k,) for k in keys]
        few = m + no
        ms += [(a, b) for a in few for b in few]
        ms += [(a, b, c) for a in (M, N) for b in (M, N) for c in (M, N)]
        # one pair that matters among many, to notice loops that stop early or count narrowly
        for l in ms:
            out.append(C("%s in a map with keys [%s]" % (s, ", ".join("%s %s" % (k[0], k[1]) for k in l)), sign=s, keys=l))
    return out


class Find(Rule):
    """node.map_*: each small map of every combination of key classes"""

    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        self.kind = LOOKUP.match(fn.name).group(2)
        ty = eng.m.enum_values("mpack_type_t")
        cs = maps(str_cases() if self.kind in ("str", "cstr") else num_cases(self.kind))
        return [c for c in cs if all("mpack_type_" + k[0] in ty for k in c.keys)]

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        self.opt = "_optional" in fn.name
        self.contains = "_contains_" in fn.name
        ty = m.enum_values("mpack_type_t")
        put_node(eng, st, args[0], "map", None)
        key, base = eng.split(args[0])
        o, n = m.offset_of(NODEDATA, "len")[:2]
        eng.write_cells(st, key, base + o, n, const(8 * n, len(c.keys)))
        self.node_data = args[0]
        ch = self.children = atom(eng.pb, ("children",), {"ptr": True, "di": None})
        st.set_u(ch, 4096, (1 << eng.pb) - (1 << 20))
        o, n = m.offset_of(NODEDATA, "value")[:2]
        eng.write_cells(st, key, base + o, eng.pb // 8, ch)
        self.sz = nsz = m.sizeof_struct(NODEDATA) if hasattr(m, "sizeof_struct") else 16
        lo, ln = m.offset_of(NODEDATA, "len")[:2]
        to, tn = m.offset_of(NODEDATA, "type")[:2]
        vo = m.offset_of(NODEDATA, "value")[0]
        ck = ((ch, 1),)
        num = args[2]
        strs = self.kind in ("str", "cstr")
        if not strs:
            if c.sign in ("negative", "from 2^63"):
                st.set_u(num, 1 << 63, (1 << 64) - 1)
            else:
                st.set_u(num, 0, (1 << 63) - 1)
        else:
            self.sought = args[2]
            self.len = args[3] if self.kind == "str" else mkterm_strlen(eng, args[2])
            st.set_u(self.len, 1, (1 << 31) - 1)
            F = Fields(eng, TREE)
            self.data = F.get(st, args[1], "data")
        self.cells = []
        for i, k in enumerate(c.keys):
            at = 2 * i * nsz
            eng.write_cells(st, ck, at + to, tn, const(8 * tn, ty["mpack_type_" + k[0]]))
            eng.write_cells(st, ck, at + nsz + to, tn, const(8 * tn, ty["mpack_type_" + ("str" if strs else self.kind)]))
            if not strs:
                v = num
                if k[1] != "same bits":
                    v = atom(64, ("keyv", i), {})
                    b = st.bounds(num)
                    st.set_u(v, *b)
                    if k[0] == "int" and self.kind == "int" and c.sign == "nonnegative":
                        # anything else: it may also be negative
                        st.set_u(v, 0, b[1])
                    lt(st, v, num) if k[1] == "less" else lt(st, num, v)
                eng.write_cells(st, ck, at + vo, 8, v)
                # its value looks like a match
                eng.write_cells(st, ck, at + nsz + vo, 8, num)
                L = atom(8 * ln, ("keyl", i), {})
                eng.write_cells(st, ck, at + lo, ln, L)
            else:
                L = atom(8 * ln, ("keyl", i), {})
                K = zext(L, eng.pb) if 8 * ln < eng.pb else L
                if k[1] == "shorter":
                    lt(st, K, self.len)
                elif k[1] == "longer":
                    lt(st, self.len, K)
                else:
                    eq(st, K, self.len)
                O = atom(eng.pb, ("keyo", i), {})
                st.set_u(O, 0, 1 << 30)
                eng.write_cells(st, ck, at + lo, ln, L)
                eng.write_cells(st, ck, at + nsz + lo, ln, L)
                eng.write_cells(st, ck, at + vo, eng.pb // 8, O)
                eng.write_cells(st, ck, at + nsz + vo, eng.pb // 8, O)
                self.cells.append((O, K, k))

    def on_memcmp(self, eng, st, p, q, n, fr, ins):
        if not hasattr(self, "sought"):
            return None
        st_full = None
        for a, b in ((p, q), (q, p)):
            if st.norm(a) is not st.norm(self.sought):
                continue
            for O, K, k in self.cells:
                d = lsub(lin(st.norm(b)), ladd(lin(self.data), lin(O)))
                if d == (0, ()) or st.prove(d) and st.prove(lscale(d, -1)):
                    st_full = k
                    e = lsub(lin(n), lin(self.len))
                    whole = st.prove(e) and st.prove(lscale(e, -1))
                    r = mk_term("memcmp", 32, (p, q, n))
                    if k[1] == "same":
                        st.set_u(r, 0, 0)
                    elif k[1] == "other content" and whole:
                        st.set_u(r, 1, (1 << 32) - 1)
        return self.chk(st_full is not None, "compares-the-keys", lambda: "compares %s with %s, which is not the sought string with a key" % (show(p)[:80], show(q)[:80]), eng, fr, ins)

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", lambda: "looking up %s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        F = Fields(eng, TREE)
        hits = [i for i, k in enumerate(c.keys) if k[2]]
        out = []
        if not rs:
            out.append(self.chkexit(False, "found", lambda: "looking up %s never returns" % c.name, eng, fn))
        for rv, s in rs:
            e = s.norm(F.get(s, args[1], "error"))
            eb = s.bounds(e)
            if len(hits) > 1:
                want = err["mpack_error_data"]
            elif hits or self.opt or self.contains:
                want = 0
            else:
                want = err["mpack_error_data"]
            if self.contains and len(hits) > 1:
                want = err["mpack_error_data"]
            rule = "duplicate" if len(hits) > 1 else "found" if hits else "not-found"
            out.append(self.chkexit(eb == (want, want), rule, lambda: "looking up %s ends with error %s instead of %d" % (c.name, eb, want), eng, fn))
            if self.contains:
                r = s.bounds(s.norm(extract(rv, 0, 1)))
                w = len(hits) == 1
                out.append(self.chkexit(r == (w, w), rule, lambda: "%s is reported to %sexist" % (c.name, "not " if w else ""), eng, fn))
                continue
            d = s.norm(rv[0] if isinstance(rv, (tuple, list)) else rv)
            if len(hits) == 1:
                w = ladd(lin(self.children), ((2 * hits[0] + 1) * self.sz, ()))
                what = "its value"
            else:
                miss = self.opt and not hits
                w = ladd(lin(args[1]), (m.offset_of(TREE, "missing_node" if miss else "nil_node")[0], ()))
                what = "a missing node" if miss else "a nil node"
            dd = lsub(lin(d), w)
            out.append(self.chkexit(dd == (0, ()) or s.prove(dd) and s.prove(lscale(dd, -1)), rule,
                                    lambda: "looking up %s does not give %s but %s" % (c.name, what, show(d)[:120]), eng, fn))
        return out


import terms
mk_term = terms.mk


def mkterm_strlen(eng, p):
    return mk_term("strlen", eng.pb, (p,), {"range": (0, (1 << (eng.pb - 1)) - 1)})


class Enum(Rule):
    """strings[] matched against the string read or held by the node"""

    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        n = fn.name
        rel = ("same", "other content", "shorter", "longer")
        lists = [(a,) for a in rel] + [(a, b) for a in rel for b in rel] + [(a, b, c) for a in ("same", "longer") for b in ("same", "longer") for c in ("same", "longer")]
        if ENUM[n] != "key" and not n.endswith("expect_enum_optional"):
            lists.insert(0, ())
        for k, l in enumerate(lists):
            # which strings come up depends on the list only; formats and found flags vary with short lists
            fm = ("fixstr", "str8", "str16", "str32") if len(l) <= 1 and n.startswith("mpack_expect") else ("fixstr",)
            for f in fm:
                for fl in ((0,), (1,)) if ENUM[n] == "key" else ((0,),):
                    out.append(C("a %s in a list of [%s] strings%s" % (f, ", ".join(l), ", already found" if fl[0] else ""), list=l, fmt=f, found=fl[0], type="str"))
        if n.startswith("mpack_expect"):
            for f in ("nil", "posfix", "u32", "double"):
                out.append(C("a %s" % f, list=("same", "same"), fmt=f, found=0, type=f))
        else:
            for t in ("nil", "bin", "uint", "map"):
                out.append(C("a %s" % t, list=("same", "same"), fmt="", found=0, type=t))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        self.node = fn.name.startswith("mpack_node")
        self.out = 2 if self.node else 0
        if self.node:
            put_node(eng, st, args[0], c.type, None)
            F = Fields(eng, NODEDATA)
            L = F.get(st, args[0], "len")
            self.obj, self.sname = args[1], TREE
            O = Fields(eng, NODEDATA).get(st, args[0], "value")
            O = extract(O, 0, eng.pb)
            st.set_u(O, 0, 1 << 30)
            self.key = ladd(lin(Fields(eng, TREE).get(st, args[1], "data")), lin(O))
            self.len = zext(L, eng.pb) if L.w < eng.pb else L
            sp, cnt = args[2], 3
        else:
            f = [x for x in FORMATS if x[0] == c.fmt][0]
            w = Case(f[0], f)
            put_reader(eng, st, args[0], w)
            self.obj, self.sname = args[0], READER
            if c.type == "str":
                V = w.v
                self.len = extract(V, 0, eng.pb) if V.w > eng.pb else V
                st.add_le(lsub(ladd(ladd(lin(w.d), (w.size, ())), lin(self.len)), lin(Fields(eng, READER).get(st, args[0], "end"))))
                self.key = ladd(lin(w.d), (w.size, ()))
            sp, cnt = args[1], len(args) - 1
        if c.type == "str":
            # the shorter strings need something to be shorter than
            st.set_u(self.len, 1, (1 << 31) - 1 if c.fmt != "fixstr" or self.node else 31)
        args[cnt] = const(eng.pb, len(c.list))
        key, base = eng.split(sp)
        self.strs = []
        for i, k in enumerate(c.list):
            p = atom(eng.pb, ("option", i), {"user": True, "ptr": True})
            st.set_u(p, 4096, (1 << eng.pb) - (1 << 33) if eng.pb == 64 else (1 << eng.pb) - (1 << 28))
            eng.write_cells(st, key, base + i * eng.pb // 8, eng.pb // 8, p)
            if c.type == "str":
                n = mkterm_strlen(eng, p)
                st.set_u(n, 0, (1 << (eng.pb - 1)) - 1)
                if k == "shorter":
                    lt(st, n, self.len)
                elif k == "longer":
                    lt(st, self.len, n)
                else:
                    eq(st, n, self.len)
                self.strs.append((p, n, k))
        if ENUM[fn.name] == "key":
            self.fkey, self.fbase = eng.split(args[2])
            for i in range(len(c.list)):
                eng.write_cells(st, self.fkey, self.fbase + i, 1, const(8, c.found and self.hit() == i))

    def hit(self):
        c = self.case
        if c.type != "str":
            return None
        h = [i for i, k in enumerate(c.list) if k == "same"]
        return h[0] if h else None

    def on_memcmp(self, eng, st, p, q, n, fr, ins):
        k = None
        for a, b in ((p, q), (q, p)):
            for s, l, kk in getattr(self, "strs", ()):
                if st.norm(a) is not s:
                    continue
                d = lsub(lin(st.norm(b)), self.key)
                if not (st.prove(d) and st.prove(lscale(d, -1))):
                    continue
                k = kk
                e = lsub(lin(n), lin(self.len))
                whole = st.prove(e) and st.prove(lscale(e, -1))
                r = mk_term("memcmp", 32, (p, q, n))
                if kk == "same":
                    st.set_u(r, 0, 0)
                elif kk == "other content" and whole:
                    st.set_u(r, 1, (1 << 32) - 1)
        return self.chk(k is not None, "compares-the-keys", lambda: "compares %s with %s, which is not the string with an option" % (show(p)[:80], show(q)[:80]), eng, fr, ins)

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", lambda: "%s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        mode = ENUM[fn.name]
        h = self.hit()
        out = []
        want = len(c.list) if h is None or c.found else h
        we = err["mpack_error_invalid"] if c.found and h is not None else err["mpack_error_type"] if h is None and mode == "required" else 0
        if not rs:
            return [self.chkexit(False, "enum", lambda: "%s: never returns" % c.name, eng, fn)]
        for rv, s in rs:
            e = s.bounds(s.norm(Fields(eng, self.sname).get(s, self.obj, "error")))
            if c.type != "str" and mode == "required":
                out.append(self.chkexit(e == (we, we), "enum", lambda: "%s ends with error %s instead of %d" % (c.name, e, we), eng, fn))
            elif c.type == "str" or e[0] == 0:
                out.append(self.chkexit(e == (we, we), "enum", lambda: "%s ends with error %s instead of %d" % (c.name, e, we), eng, fn))
            r = s.bounds(s.norm(rv))
            out.append(self.chkexit(r == (want, want), "enum", lambda: "%s gives %s instead of %d" % (c.name, r, want), eng, fn))
            if mode == "key":
                got = [s.bounds(s.norm(eng.read_cells(s, self.fkey, self.fbase + i, 1))) for i in range(len(c.list))]
                exp = [((i == h) + 0,) * 2 for i in range(len(c.list))]
                out.append(self.chkexit(got == exp, "found-flags", lambda: "%s leaves the found flags %s instead of %s" % (c.name, got, exp), eng, fn))
        return out


class KeyUint(Rule):
    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        for f in ("posfix", "u8", "u16", "u32", "u64"):
            for v in (0, 1, 2, 3, 4):
                for fl in (0, 1):
                    out.append(C("%s %d%s" % (f, v, " already found" if fl else ""), fmt=f, iv=(v, v), found=fl))
        for f, lo in (("u16", 1 << 8), ("u32", 1 << 16), ("u64", 1 << 32)):
            hi = {"u16": 0xffff, "u32": 0xffffffff, "u64": (1 << 64) - 1}[f]
            out.append(C("%s from %x" % (f, lo), fmt=f, iv=(lo, hi), found=1))
        for f in ("nil", "negfix", "fixstr", "double", "true"):
            out.append(C(f, fmt=f, iv=None, found=1))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        f = [x for x in FORMATS if x[0] == c.fmt][0]
        w = Case(f[0], f, c.iv)
        put_reader(eng, st, args[0], w)
        if c.fmt == "posfix":
            st.set_u(w.b0, *c.iv)
        self.n = 4
        args[2] = const(eng.pb, self.n)
        self.key, self.base = eng.split(args[1])
        self.hit = c.iv[0] if c.iv and c.iv[0] == c.iv[1] and c.iv[0] < self.n else None
        for i in range(self.n):
            eng.write_cells(st, self.key, self.base + i, 1, const(8, c.found and (i == self.hit)))

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", lambda: "%s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        err = eng.m.enum_values("mpack_error_t")
        dup = self.hit is not None and c.found
        want = self.n if self.hit is None or dup else self.hit
        we = err["mpack_error_invalid"] if dup else 0
        out = []
        if not rs:
            return [self.chkexit(False, "key", lambda: "%s: never returns" % c.name, eng, fn)]
        for rv, s in rs:
            e = s.bounds(s.norm(Fields(eng, READER).get(s, args[0], "error")))
            if c.fmt not in ("fixstr",) or e[0] == 0:
                out.append(self.chkexit(e == (we, we), "key", lambda: "%s ends with error %s instead of %d" % (c.name, e, we), eng, fn))
            r = s.bounds(s.norm(rv))
            out.append(self.chkexit(r == (want, want), "key", lambda: "%s gives %s instead of %d" % (c.name, r, want), eng, fn))
            got = [s.bounds(s.norm(eng.read_cells(s, self.key, self.base + i, 1))) for i in range(self.n)]
            exp = [((i == self.hit) + 0,) * 2 for i in range(self.n)]
            out.append(self.chkexit(got == exp, "found-flags", lambda: "%s leaves the found flags %s instead of %s" % (c.name, got, exp), eng, fn))
        return out


class Match(Rule):
    """expect_str_match: the string equals the given one, byte for byte, or there is a type error"""

    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        rel = ("same low", "same high", "less", "greater")
        for n in range(4):
            for l in ([()], [(r,) for r in rel], [(r, q) for r in rel for q in rel], [("same low",) * i + ("less",) + ("same high",) * (2 - i) for i in range(3)] + [("same high",) * 3])[n]:
                out.append(C("a string of bytes [%s]" % ", ".join(l), bytes=l, len=n, fmt="fixstr"))
        for f in ("fixstr", "str8", "str16", "str32"):
            for ln in (1, 3):
                if f == "fixstr" or ln == 3:
                    out.append(C("a %s of length %d instead of 2" % (f, ln), bytes=("same low",) * 2, len=ln, fmt=f))
        out.append(C("a str8 of the same length", bytes=("same low",) * 2, len=2, fmt="str8"))
        for f in ("nil", "bin8", "posfix"):
            out.append(C("a " + f, bytes=("same low",) * 2, len=2, fmt=f))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        f = [x for x in FORMATS if x[0] == c.fmt][0]
        w = Case(f[0], f, (c.len, c.len) if f[4] == "len" else None)
        put_reader(eng, st, args[0], w)
        if f[0] == "fixstr":
            eng.write_cells(st, ((w.d, 1),), 0, 1, const(8, 0xa0 + c.len))
        key, base = eng.split(args[1])
        n = len(c.bytes)
        if len(args) > 2:
            args[2] = const(eng.pb, n)
        else:
            st.set_u(mkterm_strlen(eng, args[1]), n, n)
        for i, r in enumerate(c.bytes):
            b = atom(8, ("sb", i), {})
            x = b
            if r == "same low":
                st.set_u(b, 1, 127)
            elif r == "same high":
                st.set_u(b, 128, 255)
            else:
                x = atom(8, ("wb", i), {})
                st.set_u(b, 1, 255)
                lt(st, x, b) if r == "less" else lt(st, b, x)
            eng.write_cells(st, key, base + i, 1, b)
            eng.write_cells(st, ((w.d, 1),), w.size + i, 1, x)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        err = eng.m.enum_values("mpack_error_t")
        ok = c.len == len(c.bytes) and c.fmt in ("fixstr", "str8") and all(b.startswith("same") for b in c.bytes)
        we = 0 if ok else err["mpack_error_type"]
        out = []
        if not rs:
            return [self.chkexit(False, "match", lambda: "%s: never returns" % c.name, eng, fn)]
        for rv, s in rs:
            e = s.bounds(s.norm(Fields(eng, READER).get(s, args[0], "error")))
            out.append(self.chkexit(e == (we, we), "match", lambda: "%s ends with error %s instead of %d" % (c.name, e, we), eng, fn))
        return out


def mk_find(eng):
    return [Find()]


def mk_enum(eng):
    return [Enum()]


def mk_key(eng):
    return [KeyUint()]


def mk_match(eng):
    return [Match()]


KINDS = ((lambda m, r: LOOKUP.match(r) is not None, mk_find), (lambda m, r: r in ENUM, mk_enum),
         (lambda m, r: r == "mpack_expect_key_uint", mk_key), (lambda m, r: r in MATCH, mk_match))


def run(rep, tier):
    rep.explain = ("The lookups run on maps of zero to three pairs with keys in every class (equal, smaller, greater, other type with the same bits; strings equal, different, shorter, longer), the enumeration and "
                   "string matchers on every list of up to three such strings, with loops unrolled. On every exit the result must be the value of the single equal key, "
                   "a data error for two, and an error, a missing node or the count for none.")
    for c in ["rel64"] + (["size64", "rel32", "freestanding64"] if tier == "thorough" else ["size64"]):
        for pred, mk in KINDS:
            rep.run(roots(c, pred, False), mk, {"peel": 6})
    if len({k[2] for k in rep.obl if k[0] in ("found", "not-found")}) < 10 or len({k[2] for k in rep.obl if k[0] == "enum"}) < 5:
        raise Broken("a lookup function is missing")
    rep.cov["cases"] = rep.entries
