"""C34: no assertion fails because of a message's content or an I/O failure"""
import re
from base import *
import domain
import c31
import membounds
from membounds import PARSE, STORES, Parse, Fields, lin, lsub
from domain import ASTEPS

FAIL = ("mpack_assert_fail", "mpack_break_hit")
# what only the caller sets, or what tells which calls the caller made
CONFIG = {READER: ("fill", "skip", "size", "buffer"), WRITER: ("flush", "version", "buffer", "end", "builder.current_build"), TREE: ("read_fn", "parser.state")}
BUILD = "mpack_build_t"
HISTORY = ("type", "key_needs_value", "nested_compound_elements")


# arguments that must not be zero: sizes of buffers, numbers of things
NONZERO = {"mpack_tag_debug_pseudo_json": (3,), "mpack_tag_debug_describe": (3,), "mpack_expect_cstr": (2,), "mpack_expect_utf8_cstr": (2,),
           "mpack_expect_cstr_alloc": (1,), "mpack_expect_utf8_cstr_alloc": (1,), "mpack_expect_enum_optional": (2,), "mpack_expect_enum": (2,),
           "mpack_expect_key_uint": (2,), "mpack_expect_key_cstr": (3,), "mpack_tree_init_pool": (4,), "mpack_tree_init_stream": (3, 4),
           "mpack_tree_set_limits": (1, 2), "mpack_node_print_to_buffer": (3,), "mpack_node_copy_cstr": (3,), "mpack_node_copy_utf8_cstr": (3,),
           "mpack_node_cstr_alloc": (2,), "mpack_node_utf8_cstr_alloc": (2,), "mpack_print_data_to_buffer": (3,), "mpack_read_cstr": (2,), "mpack_read_utf8_cstr": (2,)}
# the state in which the caller may make a call
CALLS = {"mpack_complete_array": lambda l: "noflush" not in l and ",flush" not in l, "mpack_complete_map": lambda l: "noflush" not in l and ",flush" not in l,
         "mpack_writer_flush_message": lambda l: "noflush" not in l, "mpack_writer_destroy": lambda l: l != "ok,build"}


def fails(fn):
    """the blocks that report a failure"""
    if not hasattr(fn, "failblocks"):
        fn.failblocks = {b: i for b, blk in enumerate(fn.blocks) for i in blk
                         if i["op"] == "call" and i["callee"][0] == "fn" and i["callee"][1].startswith(FAIL)}
    return fn.failblocks


def switches(fn, b):
    """the blocks that may enter a block other than by a condition"""
    if not hasattr(fn, "uncond"):
        fn.uncond = {}
        for k, blk in enumerate(fn.blocks):
            t = blk[-1]
            if t["op"] == "switch":
                for d in [d for _, d in t["cases"]]:
                    fn.uncond.setdefault(d, set()).add((k, "case"))
                fn.uncond.setdefault(t["def"], set()).add((k, "default"))
            elif t["op"] == "br" and "cond" not in t:
                fn.uncond.setdefault(t["t"], set()).add((k, ""))
    out, wl, seen = set(), [b], set()
    while wl:
        for k, e in fn.uncond.get(wl.pop(), ()):
            if e:
                out.add((k, e))
            elif k not in seen:
                seen.add(k)
                wl.append(k)
    return out, bool(seen)


class Asserts(membounds.Mem):
    prop = "none"

    def start(self, eng, st, fn, args, label):
        super().start(eng, st, fn, args, label)
        self.mine = set()
        self.sw = {}
        own = {o for s, o in self.objs}
        self.documented(eng, st, fn, args)
        for s, o in self.objs:
            F = Fields(eng, s)
            for f in CONFIG.get(s, ()):
                if F.at(f):
                    self.mine |= atoms_of(st.norm(F.get(st, o, f)))
        self.mine -= own
        E = eng.m.enum_values("mpack_type_t").values()
        for i, a in enumerate(args):        # tags made by the caller have a type
            if ".coerce" in fn.args[i]["name"]:
                self.mine |= atoms_of(a)
            if fn.args[i]["name"].endswith(".coerce0") and a.w == 64:
                o = eng.m.offset_of(TAG, "type")
                if o is not None and o[0] == 0:
                    st.set_u(extract(a, 0, 8 * o[1]), min(E), max(E))
            if eng.m.struct_name((a.meta or {}).get("di", -1)) == NODEDATA:
                o = eng.m.offset_of(NODEDATA, "type")
                st.set_u(eng.read_cells(st, ((a, 1),), o[0], o[1]), min(E), max(E))
        self.plain = {a for a in args if isinstance(a, T) and eng.m.struct_name((a.meta or {}).get("di", -1)) == TAG} - own
        m = eng.m
        for s, o in self.objs:
            F = Fields(eng, s)
            if s == WRITER and F.at("builder.current_build") and st.bounds(st.norm(F.get(st, o, "builder.current_build")))[1] == 0:
                for f in ("builder.latest_build", "builder.pages"):
                    F.put(st, o, f, const(eng.pb, 0))
        if fn.name == "mpack_reader_ensure_straddle":       # the way in is mpack_reader_ensure()
            F = Fields(eng, READER)
            e = F.get(st, args[0], "error")
            if st.bounds(e)[0] > 0:
                raise domain.Infeasible()
            left = lsub(lin(F.get(st, args[0], "end")), lin(F.get(st, args[0], "data")))
            st.add_le(ladd(lsub(left, lin(args[1])), (1, ())))
        if fn.name in m.installed and "nofill" in label or fn.name in CALLS and not CALLS[fn.name](label):
            raise domain.Infeasible()
        if fn.name in m.installed:
            self.contract(eng, st, fn, args)

    def splits(self, eng, st, fn, args, label):
        if re.match(r"mpack_write_i(8|16|32|64|nt)$", fn.name):
            return ["small", "negative", "positive", "large"]
        return super().splits(eng, st, fn, args, label)

    def documented(self, eng, st, fn, args):
        """what the documentation asks of arguments"""
        n, top = fn.name, (1 << eng.pb) - 1
        if eng.split_name in ("small", "negative", "positive", "large") and not eng.parse:
            t = 1 << args[1].w
            st.set_u(args[1], *{"small": (t - 32, t - 1), "negative": (t // 2, t - 33), "positive": (0, 127), "large": (128, t // 2 - 1)}[eng.split_name])
        if n in NONZERO:
            for i in NONZERO[n]:
                st.set_u(args[i], 1, (1 << args[i].w) - 1)
        if n in ("mpack_tree_init_filename", "mpack_tree_init_stdfile"):
            st.set_u(args[2], 0, top >> 1)
        if n == "mpack_write_timestamp":
            st.set_u(args[2], 0, 999999999)
        if re.match(r"mpack_expect_\w+_range$", n):
            self.mine |= atoms_of(args[1]) | atoms_of(args[2])
        if re.match(r"mpack_(error|type)_to_string$", n):
            self.mine |= atoms_of(args[0])
        if re.match(r"mpack_expect_i(\d+|nt)_max$", n):
            st.set_u(args[1], 0, (1 << (args[1].w - 1)) - 1)

    def contract(self, eng, st, fn, args):
        """how the library calls what it installed"""
        for s, o in self.objs:
            F = Fields(eng, s)
            if s == READER and len(args) == 2:         # skip: what was buffered is used up
                F.put(st, o, "data", F.get(st, o, "end"))
                st.set_u(args[1], 1, (1 << eng.pb) - 1)
            if s == WRITER and len(args) == 3:         # flush: the buffer, or what does not fit it
                buf, pos, end = (lin(F.get(st, o, x)) for x in ("buffer", "position", "end"))
                if not st.same(lin(args[1]), buf) if hasattr(st, "same") else args[1] is not F.get(st, o, "buffer"):
                    st.add_le(ladd(lsub(lsub(end, pos), lin(args[2])), (1, ())))

    def on_access(self, *a):
        return None

    def on_load(self, eng, st, addr, size, v, fr, ins):
        if eng.parse:
            eng.parse.loaded(st, addr, size, v)
        if isinstance(v, T):
            key, off = eng.split(addr)
            p = key[0][0] if len(key) == 1 else None
            if p is None:
                return None
            di = (p.meta or {}).get("di")
            if p in self.plain or p.k == "g" or di is not None and di >= 0 and eng.m.struct_name(di) == BUILD and off in self.history(eng):
                self.mine |= atoms_of(v)

    def history(self, eng):
        B = Fields(eng, BUILD)
        return {B.at(f)[0] for f in HISTORY if B.at(f)}

    def on_store(self, eng, st, addr, size, v, fr, ins):
        if eng.parse:
            eng.parse.store(st, addr, size, v)

    def others(self, eng, fr):
        """the trackers judge what the caller opened and closed (C27); whole builds are laid out below"""
        return any(f in eng.m.fns and (TRACK in arg_structs(eng.m, f) or f == "mpack_builder_resolve") for f in fr.stack)

    def on_branch(self, eng, st, c, fr, t, d):
        bad = fails(fr.fn)
        if bad and self.others(eng, fr):
            return None
        for tgt, tr in ((t["t"], True), (t["f"], False)):
            if tgt not in bad:
                continue
            yes = d is None or d == tr
            if yes:
                s2 = st.copy()
                try:
                    s2.assume(c, tr)
                except domain.Infeasible:
                    yes = False
            ats = atoms_of(c)
            return self.chk(not yes or ats and ats <= self.mine, "assert", lambda: "may fail when not %s" % show(st.norm(c)), eng, fr, bad[tgt])

    def on_assumed(self, eng, st, c, tr, fr, t):
        # tests of what a switch decides on are kept apart
        i = fr.fn.insts.get(t["cond"][1]) if t["cond"][0] == "r" else None
        if i is None or i["op"] != "icmp" or i["pred"] not in ("eq", "ne") or (i["pred"] == "eq") != tr or i["ops"][1][0] == "r":
            return
        if not hasattr(fr.fn, "swregs"):
            fr.fn.swregs = {b[-1]["cond"][1] for b in fr.fn.blocks if b[-1]["op"] == "switch" and b[-1]["cond"][0] == "r"}
        if i["ops"][0][1] in fr.fn.swregs:
            st.ts[("eq", fr.fn.name)] = repr(i["ops"][1])

    def on_switch(self, eng, st, c, fr, t):
        b, cases = st.bounds(st.norm(c)), {int(v) & ((1 << c.w) - 1) for v, _ in t["cases"]}
        k = [i for i, b in enumerate(fr.fn.blocks) if b[-1] is t][0]
        mine = bool(atoms_of(c)) and atoms_of(c) <= self.mine
        for e in ("case", "default"):
            if e == "default" and b[1] - b[0] < 1024 and all(v in cases or v in st.ne.get(c, ()) for v in range(b[0], b[1] + 1)):
                continue
            self.sw[fr.fn.name, (k, e)] = self.sw.get((fr.fn.name, (k, e)), True) and mine

    def on_call(self, eng, st, name, args, fr, ins):
        if eng.parse:
            eng.parse.cut(st, args, fr, ins)
        if name.startswith(FAIL):
            if self.others(eng, fr):
                raise domain.Infeasible()
            if not fr.fn.name.startswith(FAIL):
                b = [b for b, i in fails(fr.fn).items() if i is ins][0]
                sw, other = switches(fr.fn, b)
                if sw or other:
                    self.add(self.chk(bool(sw) and all(self.sw.get((fr.fn.name, k)) for k in sw), "assert", "may fail: no case applies", eng, fr, ins))
            raise domain.Infeasible()

    def exit(self, eng, s, rv, fn, args, label):
        out = []
        for sn, o in self.objs:
            F = Fields(eng, sn)
            if sn == WRITER and F.at("builder.current_build"):
                b = lambda f: s.bounds(s.norm(F.get(s, o, f)))[1]
                if b("error") == 0 and b("builder.current_build") == 0:
                    out.append(self.chkexit(b("builder.latest_build") == b("builder.pages") == 0, "no-build-left", "no build is open, and the next one would find one", eng, fn))
            if sn == TREE and fn.name in PARSE:
                st = s.norm(F.get(s, o, "parser.state"))
                done = eng.m.enum_values("mpack_tree_parse_state_t").get("mpack_tree_parse_state_parsed")
                if s.bounds(s.norm(F.get(s, o, "error")))[1] == 0 and done is not None and (rv is None or s.bounds(s.norm(rv))[0] > 0):
                    out.append(self.chkexit(s.bounds(st) == (done, done), "parsed", "the root of a tree parsed is refused", eng, fn))
        return out


class Layouts:
    """in builds of concrete layout, where the ordinary runs know nothing of the pages"""
    def on_access(self, *a):
        return None

    def on_call(self, eng, st, name, args, fr, ins):
        if name.startswith(FAIL):
            self.add(self.chk(False, "assert", "fails in a build laid out as " + eng.split_name.name, eng, fr, ins))
            raise domain.Infeasible()

    def start(self, eng, st, fn, args, label):
        super().start(eng, st, fn, args, label)
        F = Fields(eng, WRITER)
        if st.bounds(st.norm(F.get(st, args[0], "builder.current_build")))[1] == 0:
            for f in ("builder.latest_build", "builder.pages"):
                F.put(st, args[0], f, const(eng.pb, 0))

    def exits(self, eng, rs, fn, args, label):
        out = [self.chkexit(True, "layouts", "", eng, fn)]
        F = Fields(eng, WRITER)
        for rv, s in rs:
            b = lambda f: s.bounds(s.norm(F.get(s, args[0], f)))[1]
            if b("error") == 0 and b("builder.current_build") == 0:
                out.append(self.chkexit(b("builder.latest_build") == b("builder.pages") == 0, "no-build-left", "no build is open, and the next one would find one", eng, fn))
        return out


class AppendAsserts(Layouts, c31.Append):
    pass


class ResolveAsserts(Layouts, c31.Resolve):
    pass


def mk(eng):
    return [Asserts()]


def mk_append(eng):
    return [AppendAsserts()]


def mk_resolve(eng):
    return [ResolveAsserts()]


def run(rep, tier):
    rep.explain = ("In the debug configuration, from every state a public function may be called in, each branch into a failing assertion or break is shown infeasible, or its "
                   "condition is built only from what the caller passed, set or called.")
    cfgs = ["dbg64"]
    rep.run(membounds.tasks(cfgs, parse=True), mk)
    o = {"peel": 12, "copymax": 1 << 14}
    rep.run(roots("bpagedbg64", lambda m, r: r in ("mpack_complete_array", "mpack_complete_map"), False), mk_resolve, o)
    rep.run(roots("bpagedbg64", lambda m, r: r in c31.APPEND, False), mk_append, o)
    if len(rep.obl) < 100:
        raise Broken("only %d assertions found" % len(rep.obl))
