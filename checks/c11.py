"""C11: typed getters return the decoded value unchanged or flag a type error."""
import re
from wire import *

INT = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "uint": (0, 32),
       "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "int": (1, 32)}
FLT = {"float": ("uint", "int", "float", "double"), "double": ("uint", "int", "float", "double"),
       "float_strict": ("float",), "double_strict": ("float", "double")}
NAME = re.compile(r"mpack_(expect|node)_(u8|u16|u32|u64|uint|i8|i16|i32|i64|int|float_strict|double_strict|float|double|bool|nil|true|false)(_range|_max|_match)?$")


def typerange(t):
    s, w = INT[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


class Exact(Rule):
    def splits(self, eng, st, fn, args, label):
        g = NAME.match(fn.name)
        if "err" in label or ",fill" in label:
            return []
        self.api, self.ty, self.rel = g.groups()
        if self.rel == "_match":
            self.ty = {"uint": "u64", "int": "i64"}.get(self.ty, self.ty)
        cs = []
        if self.api == "expect":
            cs = int_cases() + other_cases()
        else:
            T64 = [("n", 0, 0, "uint", "val", 8), ("n", 0, 0, "int", "val", 8)]
            for f, cuts in zip(T64, (ucuts, scuts)):
                cs += [Case("%s[%x..%x]" % (f[3], a, b), f, (a, b)) for a, b in cuts(64)]
            for k in ("nil", "false", "true", "float", "double", "str", "bin", "array", "map") + (("ext",) if eng.m.enum_values("mpack_type_t").get("mpack_type_ext") else ()) + ("missing",):
                cs.append(Case(k, (k, 0, 0, "bool" if k in ("false", "true") else k, "none", 0)))
        if self.rel:
            out = []
            for c in cs:
                ok = self.ty in INT and c.kind in ("uint", "int") and typerange(self.ty)[0] <= c.srange()[0] and c.srange()[1] <= typerange(self.ty)[1]
                for r, signs in self.rels(c, (("below", "in", "above") if self.rel == "_range" else ("in", "above") if self.rel == "_max" else ("in", "below", "above")) if ok else (None,)):
                    c2 = Case(c.name + (" " + r + "".join({None: "", 0: "+", 1: "-"}[x] for x in signs) if r else ""), c.fmt, c.iv)
                    c2.rel, c2.signs = r, signs
                    out.append(c2)
            cs = out
        return cs

    def rels(self, c, rs):
        """the relations of a value to the limits, and for signed types the signs of the limits that allow them"""
        out = []
        for r in rs:
            n = {"_range": 2, "_max": 1, "_match": 1}[self.rel]
            if r is None or not INT[self.ty][0]:
                out.append((r, (None,) * n))
                continue
            neg = int(c.srange()[1] < 0)
            for s in ([(0, 0), (1, 0), (1, 1)] if n == 2 else [(0,), (1,)]):
                lo, hi = (s + s)[:2]
                ok = {"below": lo <= neg, "above": hi >= neg, "in": (lo >= neg or self.rel == "_max") and hi <= neg}[r]
                if self.rel == "_match":
                    ok = {"below": lo <= neg, "above": lo >= neg, "in": lo == neg}[r]
                if ok:
                    out.append((r, s))
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        if self.api == "expect":
            put_reader(eng, st, args[0], c)
            lim = args[1:]
        else:
            v = None
            if c.kind in ("uint", "int"):
                v = c.raw = c.v = atom(64, ("nodev", c.kind), {})
                st.set_u(v, *c.iv)
            elif c.kind == "bool":
                v = const(8, c.name == "true")
                c.v = zext(v, 64)
            elif c.kind in ("float", "double"):
                v = c.raw = atom(32 if c.kind == "float" else 64, ("nodev", c.kind), {})
            put_node(eng, st, args[0], c.kind, v)
            lim = args[2:]
        self.w = None
        if self.ty in INT:
            sg, w = INT[self.ty]
            self.sg, self.w = sg, w
        # relation of the value to the caller's limits
        if self.rel == "_range" and self.ty in INT:
            self.order(st, lim[0], lim[1], 0, True)
        if c.rel:
            v = c.raw if c.fmt[4] != "fix" else c.b0
            vs = c.srange()
            for i, (a, neg) in enumerate(zip(lim, c.signs)):
                if neg is not None:
                    st.set_u(a, *(((1 << (self.w - 1)), (1 << self.w) - 1) if neg else (0, (1 << (self.w - 1)) - 1)))
            lo, hi = (lim + lim)[:2]
            want = dict(_range=dict(below=[(v, lo, 1)], above=[(hi, v, 1)]), _max=dict(above=[(hi, v, 1)]),
                        _match=dict(below=[(v, lo, 1)], above=[(hi, v, 1)]))[self.rel].get(c.rel)
            if want is None:
                want = dict(_range=[(lo, v, 0), (v, hi, 0)], _max=[(v, hi, 0)], _match=[(lo, v, 0), (v, lo, 0)])[self.rel]
            for a, b, strict in want:
                self.order(st, a, b, strict, False)

    def val(self, st, x):
        """(linear form of the value as an integer, certainly negative)"""
        c = self.case
        if self.rel and x is (c.raw if c.kind in ("uint", "int") and c.fmt[4] != "fix" else getattr(c, "b0", None)):
            neg = c.srange()[1] < 0
        else:
            neg = self.sg and st.bounds(x)[0] >= 1 << (self.w - 1)
            if self.sg and not neg and st.bounds(x)[1] >= 1 << (self.w - 1):
                return None
        return ladd(lin(x), (-(1 << x.w) if neg else 0, ()))

    def order(self, st, a, b, strict, maybe):
        """a <= b (or <) as the integers they stand for; both of known sign"""
        x, y = self.val(st, a), self.val(st, b)
        if x is None or y is None:
            assert maybe
            st.assume(icmp("sle", a, b), True)
            return
        st.add_le(ladd(lsub(x, y), (strict, ())))

    def accepted(self):
        c = self.case
        if self.ty in INT:
            if c.kind not in ("uint", "int"):
                return False
            lo, hi = typerange(self.ty)
            a, b = c.srange()
            if not (lo <= a and b <= hi):
                return False
            return c.rel in (None, "in") and not (self.rel == "_max" and b < 0)   # documented: _max also rejects negative values
        if self.ty in FLT:
            return c.kind in FLT[self.ty]
        if self.ty == "bool":
            return c.kind == "bool"
        if self.ty == "nil":
            return c.kind == "nil"
        return c.fmt[0] == self.ty          # true, false

    def value_ok(self, s, rv):
        c = self.case
        rv = s.norm(rv)
        if self.ty in INT:
            if rv is s.norm(extract(c.v, 0, self.w)):
                return True
            b = c.b0 if c.fmt[4] == "fix" else c.raw
            off = (1 << self.w) - (1 << b.w) if c.srange()[1] < 0 else 0
            d = ladd(lsub(lin(rv), lin(b)), (-off, ()))
            return s.prove(d) and s.prove(lscale(d, -1))
        if self.ty == "bool":
            b = s.bounds(rv)
            return b == ((1, 1) if c.fmt[0] == "true" else (0, 0))
        if self.ty in FLT:
            if c.kind in ("uint", "int"):
                b = c.b0 if c.fmt[4] == "fix" else c.raw
                if c.srange()[1] < 0:
                    src = mklin(64, ladd(lin(b), ((1 << 64) - (1 << b.w), ())))
                else:
                    src = s.norm(zext(b, 64))
                if rv.k not in ("uitofp", "sitofp"):
                    return False
                x = s.norm(rv.a[0])
                lo, hi = c.srange()
                if x.w < 64:
                    x = s.norm((sext if rv.k == "sitofp" else zext)(x, 64))
                return (s.decide_cmp("eq", x, src) is True or x is s.norm(c.v)) and (rv.k == "sitofp" if lo < 0 else rv.k == "uitofp" or hi < (1 << 63))
            tw = 32 if self.ty.startswith("float") else 64
            raw = s.norm(c.raw)
            if raw.w == tw:
                return rv is raw
            return rv.k == ("fpext" if tw > raw.w else "fptrunc") and s.norm(rv.a[0]) is raw
        return True

    def on_unreachable(self, eng, st, fr, ins):
        if self.rel:
            return None                 # limits in the wrong order, say
        return self.chk(False, "assertion", lambda: "given %s, an assertion fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        byte = self.ty in ("bool", "nil", "true", "false") and self.api == "expect"   # these look at the byte alone
        want = "mpack_ok" if self.accepted() else "mpack_error_invalid" if c.kind == "reserved" and not byte else "mpack_error_type"
        ev = err[want]
        out = []
        if not rs and not self.rel:
            return [self.chkexit(False, "outcome", lambda: "given %s, never returns" % c.name, eng, fn)]
        for rv, s in rs:
            if self.api == "expect":
                e = Fields(eng, READER).get(s, args[0], "error")
            else:
                e = Fields(eng, TREE).get(s, args[1], "error")
            b = s.bounds(s.norm(e))
            if self.rel == "_range" and self.ty in FLT and want == "mpack_ok":
                # whether a floating-point value lies in the range is not tracked; only that the outcome is one of the two
                out.append(self.chkexit(b in ((0, 0), (err["mpack_error_type"],) * 2), "outcome", "ends in error %s for a %s value" % (b, c.name), eng, fn))
            else:
                out.append(self.chkexit(b == (ev, ev), "outcome",
                                        lambda: "given %s, the error is %s instead of %s" % (c.name, b if b[0] != b[1] else [k for k, x in err.items() if x == b[0]], want), eng, fn))
            if b == (0, 0) and rv is not None:
                out.append(self.chkexit(isinstance(rv, T) and self.value_ok(s, rv), "value-unchanged",
                                        lambda: "given %s, returns %s instead of the value" % (c.name, show(s.norm(rv))), eng, fn))
        return out


def mk(eng):
    return [Exact()]


def run(rep, tier):
    rep.explain = ("For every typed numeric, boolean and nil getter the input is split into the classes its outcome may depend on: every first byte class "
                   "(or node type) and, for integers, every interval between the limits of the C integer types, and for the range functions the position "
                   "relative to the caller's limits. In each class all exits must agree with the specification: success with the decoded value, or a type error.")
    cfgs = ["rel64"] + (["size64", "rel32", "nobuilder64"] if tier == "thorough" else ["size64"])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: NAME.match(r), False), mk)
    fns = {k[2] for k in rep.obl}
    if len(fns) < 40:
        raise Broken("fewer than forty typed getters found")
    rep.cov["cases"] = rep.entries
