"""C26: tag comparison is a total order consistent with equality."""
from wire import *

CLASSES = ("missing", "nil", "bool", "negint", "nonneg", "float", "double", "str", "bin", "array", "map", "ext")
WIDTH = {"negint": 64, "nonneg": 64, "float": 32, "double": 64, "str": 32, "bin": 32, "array": 32, "map": 32, "ext": 32}
SIGNS = {-1: "negative", 0: "zero", 1: "positive"}


class C:
    pass


class Cmp(Rule):
    def __init__(self):
        Rule.__init__(self)
        self.signs = {}

    def classes(self, eng):
        ty = eng.m.enum_values("mpack_type_t")
        return [c for c in CLASSES if c in ("negint", "nonneg") or "mpack_type_" + c in ty]

    def splits(self, eng, st, fn, args, label):
        out = []

        def add(a, b, ra=None, rel=None, xrel=None, xs=None, ta=None, tb=None):
            c = C()
            c.a, c.b, c.rel, c.xrel, c.xs, c.ta, c.tb = a, b, rel, xrel, xs, ta or a, tb or b
            c.name = "%s and %s%s%s%s" % (a, b, "" if rel is None else ", value %s" % {-1: "smaller", 0: "equal", 1: "greater"}[rel],
                                          "" if xrel is None else ", extension type %s" % {-1: "smaller", 0: "equal", 1: "greater"}[xrel], "" if xs is None else " (%s)" % (xs,))
            if a == "nonneg" or b == "nonneg":
                c.name += " as %s and %s" % (c.ta, c.tb)
            out.append(c)
        for a in self.classes(eng):
            for b in self.classes(eng):
                for ta in (("int", "uint") if a == "nonneg" else (a,)):
                    for tb in (("int", "uint") if b == "nonneg" else (b,)):
                        if a != b:
                            add(a, b, ta=ta, tb=tb)
                        elif a in ("missing", "nil"):
                            add(a, b, rel=0)
                        elif a == "ext":
                            for x in (-1, 0, 1):
                                for xs in ((0, 0), (1, 1)) if x == 0 else ((0, 0), (1, 1), (1, 0) if x < 0 else (0, 1)):
                                    for r in (-1, 0, 1):
                                        add(a, b, rel=r, xrel=x, xs=xs)
                        else:
                            for r in (-1, 0, 1):
                                if a == "nonneg":
                                    # values above the range of int64 exist as unsigned only
                                    add(a, b, rel=r, ta=ta, tb=tb)
                                else:
                                    add(a, b, rel=r)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        ty = m.enum_values("mpack_type_t")
        per = len(args) // 2
        c.val = []
        for side, (cl, t, n) in enumerate(((c.a, c.ta, "l"), (c.b, c.tb, "r"))):
            typ = ty["mpack_type_" + ("int" if t == "negint" else t)]
            v = x = None
            if cl == "bool":
                v = const(8, 0 if c.rel is None and n == "l" else {None: 1, -1: (0, 1)[side], 1: (1, 0)[side], 0: 1}[c.rel])
            elif cl in WIDTH:
                if c.rel == 0 and side:
                    v = c.val[0]
                else:
                    v = atom(WIDTH[cl], ("tag", n, WIDTH[cl]), {})
                    if cl == "negint":
                        st.set_u(v, 1 << 63, (1 << 64) - 1)
                    elif t == "int":
                        st.set_u(v, 0, (1 << 63) - 1)
                if c.rel == 0 and side and t == "int" and cl == "nonneg":
                    st.set_u(v, 0, min(st.bounds(v)[1], (1 << 63) - 1))
            if cl == "ext":
                if c.xrel == 0 and side:
                    x = c.x
                else:
                    x = atom(8, ("tagx", n), {})
                    if c.xs is not None:
                        st.set_u(x, *((128, 255) if c.xs[side] else (0, 127)))
                    if side and c.xrel and c.xs[0] == c.xs[1]:
                        d = lsub(lin(c.x), lin(x)) if c.xrel < 0 else lsub(lin(x), lin(c.x))
                        st.add_le(ladd(d, (1, ())))
                    c.x = x
            c.val.append(v)
            if side and c.rel and cl in WIDTH:
                d = lsub(lin(c.val[0]), lin(v)) if c.rel < 0 else lsub(lin(v), lin(c.val[0]))
                st.add_le(ladd(d, (1, ())))
            o, z = m.offset_of(TAG, "type")[:2]
            low = [const(8 * z, typ)]
            e = m.offset_of(TAG, "exttype")
            at = z
            if e is not None:
                low += [x if x is not None else const(8, 0)]
                at += 1
            w = args[side * per].w
            if at < w // 8:
                low.append(const(w - 8 * at, 0))
            args[side * per] = concat(low) if len(low) > 1 else low[0]
            args[side * per + 1] = zext(v, 64) if v is not None and v.w < 64 else v if v is not None else const(64, 0)

    def on_memcmp(self, eng, st, p, q, n, fr, ins):
        c = self.case
        if c.a in ("float", "double") and c.a == c.b:
            k = WIDTH[c.a] // 8
            full = n.k == "c" and n.a[0] == k
            if full:
                a, b = (st.norm(eng.read_cells(st, *eng.split(st.norm(x)), k)) for x in (p, q))
                full = {a, b} == {st.norm(x) for x in c.val}
            st.ts["memcmp"] = "full" if full else "part"
        return None

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", "comparing %s leads to an assertion that fails" % self.case.name, eng, fr, ins)

    def sign(self, s, rv):
        rv = s.norm(rv)
        if rv.k == "c":
            v = rv.a[0]
            return 0 if v == 0 else 1 if v < 1 << (rv.w - 1) else -1
        if rv.k == "ext" and rv.a[1] == 0:
            rv = rv.a[0]
        if rv.k in ("icmp", "cat"):
            x = rv if rv.k == "icmp" else rv.a[0]
            if x.k == "icmp" and x.a[0] in ("eq", "ne"):
                g = self.sign(s, x.a[1]) if x.a[2].k == "c" and x.a[2].a[0] == 0 else None
                if g is not None:
                    return int((g == 0) == (x.a[0] == "eq"))
        L = lin(rv)
        for k in (0, 1 << rv.w):
            d = ladd(L, (-k, ()))
            if s.prove(ladd(d, (1, ()))) and s.prove(ladd(lscale(d, -1), (-(1 << (rv.w - 1)), ()))):
                return -1
            if s.prove(ladd(lscale(d, -1), (1, ()))) and s.prove(ladd(d, (-(1 << (rv.w - 1)) + 1, ()))):
                return 1
        b = s.bounds(rv)
        return 1 if b[0] > 0 and b[1] < 1 << (rv.w - 1) else -1 if b[0] >= 1 << (rv.w - 1) else None

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        equal = fn.name == "mpack_tag_equal"
        got = set()
        for rv, s in rs:
            r = s.norm(rv)
            if c.a == c.b and c.a in ("float", "double") and "memcmp" in s.ts:
                out = []
                if not equal:
                    out.append(self.chkexit(s.ts["memcmp"] == "full" and r.k == "memcmp", "full-width", lambda: "%s are not compared in full width" % c.name, eng, fn))
                else:
                    out.append(self.chkexit(s.ts["memcmp"] == "full", "full-width", lambda: "%s are not compared in full width" % c.name, eng, fn))
                return out
            got.add(self.sign(s, r))
        if not rs:
            return []
        ok = len(got) == 1 and None not in got
        out = []
        if not ok:
            return [self.chkexit(False, "determined", lambda: "comparing %s gives %s%s" % (c.name, sorted(map(str, got)), [show(s.norm(rv)) for rv, s in rs]), eng, fn)]
        g = got.pop()
        same = c.a == c.b and not c.rel and not c.xrel
        if equal:
            return [self.chkexit(bool(g) == same, "equality", lambda: "%s are %sequal" % (c.name, "" if g else "not "), eng, fn)]
        out.append(self.chkexit((g == 0) == same, "zero-iff-equal", lambda: "comparing %s gives a %s result" % (c.name, SIGNS[g]), eng, fn))
        if same or g == 0:
            return out
        # a total order: one direction within each class, one between each two classes, without cycles
        if c.a == c.b and c.a != "ext":
            k, v = (c.a,), g * c.rel
        elif c.a == c.b:
            # lexicographic, by extension type and length in either order
            self.ext = getattr(self, "ext", {})
            self.ext[c.xrel, c.rel] = g
            ok = any(all(len({v * (x[f] or x[1 - f]) for x, v in self.ext.items() if bool(x[f]) == top}) <= 1 for top in (True, False)) for f in (0, 1))
            return out + [self.chkexit(ok, "antisymmetric", lambda: "comparing %s gives a %s result, against the order of other extensions" % (c.name, SIGNS[g]), eng, fn)]
        else:
            k, v = tuple(sorted((c.a, c.b))), g if c.a < c.b else -g
        was = self.signs.setdefault(k, v)
        out.append(self.chkexit(was == v, "antisymmetric", lambda: "comparing %s gives a %s result, against the order of other %s" % (
            c.name, SIGNS[g], "values of that type" if c.a == c.b else "tags of these types"), eng, fn))
        cyc = None
        if len(k) == 2:
            less = {}
            for (x, *y), d in self.signs.items():
                if y and y[0] in CLASSES:
                    less.setdefault(x if d < 0 else y[0], set()).add(y[0] if d < 0 else x)
            for x in less:
                for y in less[x]:
                    for z in less.get(y, ()):
                        if x in less.get(z, ()):
                            cyc = (x, y, z)
        out.append(self.chkexit(cyc is None, "transitive", lambda: "%s, %s and %s are ordered in a circle" % cyc, eng, fn))
        return out


def mk(eng):
    return [Cmp()]


def run(rep, tier):
    rep.explain = ("mpack_tag_cmp() is analysed for every pair of kinds of tags (non-negative integers in both representations) and, within a kind, for smaller, equal and greater values "
                   "in full width. The sign of the result must be determined in each class, zero only for equal tags, and the signs together must describe one total order.")
    for c in ["rel64", "def64", "size64"] + (["freestanding64", "nofloat64", "nodouble64"] if tier == "thorough" else []):
        rep.run(roots(c, lambda m, r: r in ("mpack_tag_cmp", "mpack_tag_equal"), False), mk)
    if len({k[2] for k in rep.obl}) < 2:
        raise Broken("a comparison function is missing")
    rep.cov["cases"] = rep.entries
