"""C12: data is only interpreted as the type it was decoded as."""
import re
from wire import *

# accepted kinds of value, by function
NODE_T = [
    (r"array_(at|length)", {"array"}), (r"map_.*", {"map"}), (r"bin_(data|size)", {"bin"}),
    (r"str|strlen|copy_cstr|copy_utf8_cstr|cstr_alloc|utf8_cstr_alloc|check_utf8|check_utf8_cstr|copy_utf8|enum", {"str"}),
    (r"copy_data|data|data_alloc|data_len", {"str", "bin", "ext"}), (r"exttype|timestamp.*", {"ext"}),
    (r"missing", {"missing"}), (r"nil", {"nil"}), (r"bool|true|false", {"bool"}), (r"[ui](8|16|32|64|nt)", {"int", "uint"}),
    (r"float|double", {"int", "uint", "float", "double"}), (r"float_strict", {"float"}), (r"double_strict", {"float", "double"}),
]
EXPECT_T = [
    (r"array_(match|max|range)|array", {"array"}), (r"map_(match|max|range)|map", {"map"}),
    (r"array_((max_)?or_nil|alloc_impl)", {"array", "nil"}), (r"map_(max_)?or_nil", {"map", "nil"}),
    (r"bin(_.*)?", {"bin"}), (r"str(_.*)?|cstr(_.*)?|utf8(_.*)?|enum", {"str"}), (r"ext(_.*)?|timestamp.*", {"ext"}),
    (r"[ui](8|16|32|64|nt)(_max|_range|_match)?", {"int", "uint"}), (r"(float|double)(_range)?", {"int", "uint", "float", "double"}), (r"float_strict", {"float"}), (r"double_strict", {"float", "double"}),
    (r"nil", {"nil"}), (r"bool|true|false", {"bool"}),
]
KINDS = ("missing", "nil", "bool", "int", "uint", "float", "double", "str", "bin", "array", "map", "ext")


def accept(name):
    for pre, tab in (("mpack_node_", NODE_T), ("mpack_expect_", EXPECT_T)):
        if name.startswith(pre):
            for p, a in tab:
                if re.fullmatch(p, name[len(pre):]):
                    return a
    return None


class Kind(Rule):
    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        if fn.name.startswith("mpack_node_"):
            for k in KINDS:
                if "mpack_type_" + k not in eng.m.enum_values("mpack_type_t"):
                    continue
                c = Case(k, ("node", 0, 0, k, "none", 0))
                out.append(c)
        else:
            out = [Case(f[0], f) for f in FORMATS if f[3] != "ext" or "mpack_type_ext" in eng.m.enum_values("mpack_type_t")]
        if fn.name.endswith("alloc_impl"):
            for c in list(out):
                d = Case(c.name + " or nil", c.fmt)
                d.nil = True
                out.append(d)
        return out

    def start(self, eng, st, fn, args, label):
        self.case = c = eng.split_name
        self.acc = accept(fn.name)
        if fn.name.endswith("alloc_impl"):
            args[-1] = const(args[-1].w, hasattr(c, "nil"))
            self.acc = {"array", "nil"} if hasattr(c, "nil") else {"array"}
        self.node = fn.name.startswith("mpack_node_")
        self.bytes = self.node and c.kind not in self.acc
        if self.node:
            # the node's bytes; everything but the type
            self.data = args[0]
            put_node(eng, st, args[0], c.kind, None)
            o, n = eng.m.offset_of(NODEDATA, "type")[:2]
            self.typ = (o, o + n)
            self.key, self.base = eng.split(args[0])
        else:
            put_reader(eng, st, args[0], c)
        # calls with a zero-sized buffer for a C-string, or an empty range, are the caller's mistake
        if "cstr" in fn.name:
            for a in args:
                if a.k == "a" and a.w == eng.pb and not a.meta.get("ptr"):
                    st.set_u(a, 1, st.bounds(a)[1])

    def on_load(self, eng, st, addr, size, r, fr, ins):
        m = eng.m
        key, off = eng.split(addr)
        di = eng.key_type(key)
        if self.node and key == self.key:
            base = self.base
        elif di is not None and di >= 0 and m.struct_name(di) == NODEDATA:
            base = off - off % m.sizeof(di)
        else:
            return None
        off -= base
        if self.bytes and key == self.key and not (self.typ[0] <= off and off + size <= self.typ[1]):
            return self.chk(False, "wrong-type-touched", "the value of a %s node is read" % self.case.kind, eng, fr, ins)
        ln, val = m.offset_of(NODEDATA, "len"), m.offset_of(NODEDATA, "value")
        ty = m.enum_values("mpack_type_t")
        if off == ln[0]:
            ok = ("str", "bin", "ext", "array", "map")
        elif off == val[0]:
            t = ins["ty"]
            ok = {"ptr": ("array", "map"), "float": ("float",), "double": ("double",), "i8": ("bool",)}.get(t, ("int", "uint", "str", "bin", "ext"))
            if size == 4 and t == "i32":
                ok = ("float", "str", "bin", "ext")          # raw floats, 32-bit offsets
        else:
            return None
        o, n = m.offset_of(NODEDATA, "type")[:2]
        b = st.bounds(st.norm(eng.read_cells(st, key, base + o, n)))
        good = {ty["mpack_type_" + x] for x in ok if "mpack_type_" + x in ty}
        return self.chk(b[1] - b[0] < 16 and set(range(b[0], b[1] + 1)) <= good, "type-established",
                        lambda: "a %s is read from a node whose type is only known to be in %s" % ("length" if off == ln[0] else ins["ty"], b), eng, fr, ins)

    def on_unreachable(self, eng, st, fr, ins):
        if self.case.kind in self.acc or re.search("_(range|max)$", eng.root):
            return None
        return self.chk(False, "assertion", "a %s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        out = []
        if c.kind in self.acc:
            if c.kind in ("int", "uint", "bool") or c.kind == "ext" and "timestamp" in fn.name:
                return out                       # which of their values are accepted is C11's and C24's matter
            ok = 0
            for rv, s in rs:
                e = Fields(eng, TREE).get(s, args[1], "error") if self.node else Fields(eng, READER).get(s, args[0], "error")
                ok |= s.bounds(s.norm(e))[0] == 0
            out.append(self.chkexit(ok, "right-type-accepted", lambda: "a %s is always refused" % c.name, eng, fn))
            return out
        want = "mpack_error_type"
        ev = {err[want]} | ({err["mpack_error_invalid"]} if c.kind == "reserved" else set())
        for rv, s in rs:
            e = Fields(eng, TREE).get(s, args[1], "error") if self.node else Fields(eng, READER).get(s, args[0], "error")
            b = s.bounds(s.norm(e))
            out.append(self.chkexit(min(ev) <= b[0] and b[1] <= max(ev), "wrong-type-refused",
                                    lambda: "given a %s, ends in error %s instead of %s" % (c.name, b if b[0] != b[1] else [k for k, x in err.items() if x == b[0]], want), eng, fn))
        return out


def mk(eng):
    return [Kind()]


def run(rep, tier):
    rep.explain = ("Every getter of the node and expect APIs is run once for each kind of value (each of the 36 formats for the expect API). For a kind the function is not documented "
                   "to accept, every exit must have flagged a type error (invalid for the reserved byte) and, for nodes, no byte of the node other than its type may have been read; "
                   "for an accepted kind some exit must be free of errors.")
    cfgs = ["rel64", "size64"] + (["rel32", "nobuilder64", "def64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: accept(r) is not None, False), mk)
    if len({k[2] for k in rep.obl}) < 90:
        raise Broken("fewer than ninety getters found")
    rep.cov["cases"] = rep.entries
