"""C25: every error code and every type is handled wherever they are switched on."""
from base import *


class Handled(Rule):
    """the entry point, run with one enumerator fixed (and everything else arbitrary), reaches no assertion or
    unhandled case"""

    def start(self, eng, st, fn, args, label):
        for i, v in (eng.fixargs or {}).items():
            a = args[i]
            if a.w > 32:
                args[i] = concat([const(32, v), extract(a, 32, a.w - 32)])
            else:
                st.set_u(a, v, v)
        for i, v in (eng.fixnode or {}).items():
            F = Fields(eng, NODEDATA)
            F.put(st, args[i], "type", const(32, v))
        self.fn = fn
        self.seen = getattr(self, "seen", {})
        self.seen[label] = dict(fn=fn.name, where="%s:%s" % (fn.file, fn.line), what=eng.what, cfg=eng.cfg, n=0)

    def finish(self):
        for l, d in self.seen.items():
            k = ("returns", d["where"], d["fn"] + "(" + d["what"] + ")")
            self.obl[k] = self.obl.get(k, 0) + 1
            if not d["n"]:
                self.bad[k] = dict(msg="no path returns for " + d["what"], root=d["fn"], entry=l, cfg=d["cfg"], path=[d["fn"]])

    def name(self, eng):
        return eng.what

    def on_default(self, eng, st, v, fr, ins):
        st.ts[("dflt", fr.ctx)] = 1
        return None

    def fell(self, st, fr):
        return any(isinstance(k, tuple) and k and k[0] == "dflt" and fr.ctx[:len(k[1])] == k[1] for k in st.ts)

    def on_unreachable(self, eng, st, fr, ins):
        if self.fell(st, fr):
            return self.no("handled", fr.fn.where(ins), eng.root, "%s falls through to an unhandled case in %s" % (eng.what, fr.stack[0]), eng, fr)

    def on_noreturn(self, eng, st, how, args, fr, ins):
        if self.fell(st, fr):
            return self.no("handled", fr.fn.where(ins), eng.root, "%s falls through to an assertion in %s" % (eng.what, fr.stack[0]), eng, fr)

    def exit(self, eng, s, rv, fn, args, label):
        out = [("handled", "%s:%s" % (fn.file, fn.line), fn.name + "(" + eng.what + ")", None)]
        self.seen[label]["n"] += 1
        k = eng.kind
        if k == "name":
            t = None
            if isinstance(rv, T) and rv.k == "g":
                g = eng.m.globals.get(rv.a[0])
                if g and "str" in g:
                    t = bytes.fromhex(g["str"]).split(b"\0")[0].decode(errors="replace")
            out.append(self.chkexit(t is not None and (eng.strings is False or t and "unknown" not in t), "named",
                                    "%s has no name (%r)" % (eng.what, t), eng, fn))
            out.append(("=", eng.what, t or "", None))
        elif k == "tag":
            # the tag made from a node carries the node's type
            if "ok" in label:
                ty = extract(rv[0], 0, 32) if isinstance(rv, tuple) else self.sret(eng, s, fn, args)
                b = s.bounds(s.norm(ty))
                out.append(self.chkexit(b == (eng.value, eng.value), "node-to-tag", "node of %s becomes a tag of type %s" % (eng.what, b), eng, fn))
                e = Fields(eng, TREE).get(s, args[1], "error")
                out.append(self.chkexit(s.bounds(e)[1] == 0, "node-to-tag", "node of %s flags an error" % eng.what, eng, fn))
        elif k == "write":
            o = objects(eng, args)[0][1]
            F = Fields(eng, WRITER)
            if label.startswith("ok") and not eng.errors_expected:
                e = F.get(s, o, "error")
                if s.bounds(e)[1] == 0:
                    # something was written (or a flush moved the position)
                    p0 = self.pos0
                    out.append(("written", eng.root, eng.what, None))
        return out

    pos0 = None

    def sret(self, eng, s, fn, args):
        a = [x for x in args if (x.meta or {}).get("where") == "return value"]
        F = Fields(eng, TAG)
        return F.get(s, a[0], "type")


def mk(eng):
    return [Handled()]


DEF = dict(fixargs=None, fixnode=None, kind="", errors_expected=False, strings=True, value=0)


def run(rep, tier):
    rep.explain = ("For every enumerator of mpack_error_t and mpack_type_t: the naming functions return a string of its own, and "
                   "tag comparison, tag writing, tag description and node-to-tag conversion run with that type reach no assertion "
                   "or unhandled case and keep the type.")
    names = {}
    for cfg in ["rel64", "dbg64"] + (["size64", "rel32", "def64", "nofloat64"] if tier == "thorough" else []):
        m = driver.module(cfg)
        errs, types = m.enum_values("mpack_error_t"), m.enum_values("mpack_type_t")
        if len(errs) < 5 or len(types) < 10:
            raise Broken("error and type enumerations not found")
        tasks = []

        def add(root, **o):
            if root in m.fns:
                tasks.append((cfg, root, dict(DEF, **o)))
        for fn, en in (("mpack_error_to_string", errs), ("mpack_type_to_string", types)):
            if fn not in m.fns:
                raise Broken(fn + " not found")
            for n, v in en.items():
                add(fn, fixargs={0: v}, kind="name", what=n)
        byval = "byval" not in m.fns["mpack_tag_cmp"].args[0]
        if byval:
            for n, v in types.items():
                if n == "mpack_type_missing":
                    continue
                add("mpack_tag_cmp", fixargs={0: v, 2: v}, what=n)
                add("mpack_write_tag", fixargs={1: v}, what=n, kind="write")
                for d in ("mpack_tag_debug_pseudo_json", "mpack_tag_debug_describe"):
                    add(d, fixargs={0: v}, what=n)
            for n, v in types.items():
                if n != "mpack_type_missing":
                    add("mpack_node_tag", fixnode={0: v}, kind="tag", value=v, what=n)
        rep.run(tasks, mk)
        got = {}
        for k in [k for k in rep.obl if k[0] == "="]:
            got[k[1]] = k[2]
            del rep.obl[k]
        for en in (errs, types):
            seen = {}
            for n in en:
                s = got.get(n)
                rep.check(bool(s) and s not in seen, "own-name", n, "mpack_%s_to_string" % ("error" if en is errs else "type"),
                          "%s and %s have the same name %r" % (n, seen.get(s), s), cfg=cfg)
                seen[s] = n
        names[cfg] = len(got)
    rep.cov["named_enumerators"] = names
