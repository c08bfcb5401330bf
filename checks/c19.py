"""C19: C-string getters terminate, and reject NUL and invalid UTF-8."""
from base import *
from domain import Infeasible
from c05 import lineq

NONUL, UTF8, BOTH = {"mpack_str_check_no_null", "mpack_utf8_check_no_null"}, {"mpack_utf8_check", "mpack_utf8_check_no_null"}, {"mpack_utf8_check_no_null"}
# function: (checks that will do, where the bytes are, their number, terminated)
# where: an argument index, "ret" or "node"; number: argument index, "ret", "node" or "term" (wherever the terminator is)
T = {
    "mpack_expect_cstr": (NONUL, 1, "term", True), "mpack_expect_utf8_cstr": (BOTH, 1, "term", True),
    "mpack_expect_cstr_alloc": (NONUL, "ret", "term", True), "mpack_expect_utf8_cstr_alloc": (BOTH, "ret", "term", True),
    "mpack_expect_utf8": (UTF8, 1, "ret", False),
    "mpack_read_cstr": (NONUL, 1, 3, True), "mpack_read_utf8_cstr": (BOTH, 1, 3, True),
    "mpack_read_utf8": (UTF8, 1, 2, False), "mpack_read_utf8_inplace": (UTF8, "ret", 1, False),
    "mpack_node_check_utf8": (UTF8, "node", "node", False), "mpack_node_check_utf8_cstr": (BOTH, "node", "node", False),
    "mpack_node_copy_utf8": (UTF8, "node", "node", False),
    "mpack_node_copy_cstr": (NONUL, "node", "node", True), "mpack_node_copy_utf8_cstr": (BOTH, "node", "node", True),
    "mpack_node_cstr_alloc": (NONUL, "node", "node", True), "mpack_node_utf8_cstr_alloc": (BOTH, "node", "node", True),
    "mpack_write_utf8": (UTF8, 1, 2, False), "mpack_write_utf8_cstr": (UTF8, 1, "strlen", False), "mpack_write_utf8_cstr_or_nil": (UTF8, 1, "strlen", False),
}
DEST = {"mpack_node_copy_cstr": 2, "mpack_node_copy_utf8_cstr": 2, "mpack_node_cstr_alloc": "ret", "mpack_node_utf8_cstr_alloc": "ret"}


class Cstr(Rule):
    def start(self, eng, st, fn, args, label):
        # a zero-sized buffer for a C-string is the caller's mistake
        if T[fn.name][3] or "alloc" in fn.name:
            for i, a in enumerate(fn.args):
                if any(x in a["name"] for x in ("bufsize", "buffer_size", "maxlen", "maxsize")) and args[i].k == "a":
                    st.set_u(args[i], 1, st.bounds(args[i])[1])
        self.node = None
        if fn.name.startswith("mpack_node"):
            key, base = eng.split(args[0])
            o, z = eng.m.offset_of(NODEDATA, "len")[:2]
            ln = eng.read_cells(st, key, base + o, z)
            o, z = eng.m.offset_of(NODEDATA, "value")[:2]
            off = eng.read_cells(st, key, base + o, eng.pb // 8)
            td = Fields(eng, TREE).get(st, args[1], "data")
            self.node = (mklin(eng.pb, ladd(lin(td), lin(off))), ln)

    def on_returned(self, eng, st, name, args, rv, fr, ins):
        if name in NONUL | UTF8:
            b = st.bounds(st.norm(rv)) if isinstance(rv, T_) else (0, 1)
            st.ts["checked"] = (name, st.norm(args[0]), st.norm(args[1]), b == (1, 1))
        return None

    def exit(self, eng, s, rv, fn, args, label):
        need, where, num, term = T[fn.name]
        if fn.name.startswith("mpack_node"):
            e = Fields(eng, TREE).get(s, args[1], "error")
        elif fn.name.startswith("mpack_write"):
            e = Fields(eng, WRITER).get(s, args[0], "error")
        else:
            e = Fields(eng, READER).get(s, args[0], "error")
        b = s.bounds(s.norm(e))
        out = []
        dest = DEST.get(fn.name, where)
        if b[0] > 0 or b[1] > 0 and "err" in label:
            if term:
                if dest == "ret":
                    out.append(self.chkexit(s.bounds(s.norm(rv)) == (0, 0), "null-on-failure", lambda: "returns %s after a failure (error %s)" % (show(s.norm(rv)), b), eng, fn))
                else:
                    key, off = eng.split(s.norm(args[dest]))
                    c = s.norm(eng.read_cells(s, key, off, 1))
                    out.append(self.chkexit(s.bounds(c) == (0, 0), "empty-on-failure", lambda: "leaves %s at the start of the buffer after a failure (error %s)" % (show(c), b), eng, fn))
            return out
        if fn.name == "mpack_write_utf8_cstr_or_nil" and s.bounds(s.norm(args[1])) == (0, 0):
            return out
        if not isinstance(rv, T_) and (where == "ret" or dest == "ret"):
            return out
        ck = s.ts.get("checked")
        p = self.node[0] if where == "node" else rv if where == "ret" else args[where]
        n = self.node[1] if num == "node" else rv if num == "ret" else ck and ck[2] if num in ("term", "strlen") else args[num]
        if n is not None and s.bounds(s.norm(n)) == (0, 0) and ck is None:
            pass                                    # nothing to check in an empty string
        else:
            ok = ck is not None and ck[0] in need and ck[3]
            out.append(self.chkexit(ok, "checked", lambda: "succeeds without %s" % (
                "having checked the string" if ck is None else "the check having passed" if not ck[3] else "the right check (%s)" % ck[0]), eng, fn))
            if not ok:
                return out
            okp = lineq(s, ck[1], p)
            if not okp and dest != where:
                okp = lineq(s, ck[1], rv if dest == "ret" else args[dest])       # the copy may be checked instead
            okn = lineq(s, zext(s.norm(ck[2]), eng.pb) if ck[2].w < eng.pb else ck[2], zext(s.norm(n), eng.pb) if n.w < eng.pb else n)
            if num == "strlen":
                x = mk_("strlen", eng.pb, (args[where],))
                okn = lineq(s, ck[2], x) or s.norm(ck[2]) is s.norm(zext(extract(x, 0, 32), eng.pb))
            out.append(self.chkexit(okp and okn, "whole-string", lambda: "checks %s bytes at %s instead of %s at %s" % (show(s.norm(ck[2])), show(s.norm(ck[1])), show(s.norm(n)), show(s.norm(p))), eng, fn))
        if term:
            d = rv if dest == "ret" else args[dest]
            key, off = eng.split(s.norm(mklin(eng.pb, ladd(lin(s.norm(d)), lin(s.norm(n))))))
            c = s.norm(eng.read_cells(s, key, off, 1))
            out.append(self.chkexit(s.bounds(c) == (0, 0), "terminated", lambda: "the byte behind the string is %s on success" % show(c), eng, fn))
        return out


from terms import T as T_, mk as mk_


def mk(eng):
    return [Cstr()]


def run(rep, tier):
    rep.explain = ("For every getter of C-strings or UTF-8, every exit without an error must have passed the check function its name promises, on the start and full length of the string (or of the "
                   "copy), and have a zero byte behind the string; every exit with an error leaves an empty string or returns NULL.")
    cfgs = ["rel64", "size64"] + (["rel32", "freestanding64", "track64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: r in T, False), mk)
    if len({k[2] for k in rep.obl} & set(T)) < 17:
        raise Broken("C-string getters are missing")
