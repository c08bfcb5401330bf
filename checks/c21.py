"""C21: a parse that stops for lack of data leaves the tree as it was after the last complete node"""
from base import *
from parse import Parse, STORES
from membounds import PARSE


class Resume(Rule):
    def splits(self, eng, st, fn, args, label):
        return Parse(eng, args[0]).splits(st)

    def start(self, eng, st, fn, args, label):
        eng.starve = True
        eng.parse = Parse(eng, args[0])
        eng.parse.resuming = True
        eng.templates.append(eng.parse.template)
        eng.parse.start(st, eng.split_name)

    def on_load(self, eng, st, addr, size, v, fr, ins):
        eng.parse.loaded(st, addr, size, v)

    def on_store(self, eng, st, addr, size, v, fr, ins):
        eng.parse.store(st, addr, size, v)

    def on_callback(self, eng, st, kind, *a):
        pass

    def exit(self, eng, s, rv, fn, args, label):
        p = eng.parse
        out = [self.chkexit(ok, rule, msg, eng, fn) for rule, ok, msg in p.interrupted(s)]
        if s.ts.get("starved") and rv is not None:
            err = s.norm(p.get(s, "error"))
            out.append(self.chkexit(s.bounds(err)[1] == 0, "waiting-is-no-error", "an error is left by an attempt that only ran out of data", eng, fn))
            out.append(self.chkexit(s.bounds(rv)[1] == 0, "waiting-is-not-done", "the attempt reports a complete message though it ran out of data", eng, fn))
        return out


def mk(eng):
    return [Resume()]


def run(rep, tier):
    rep.explain = ("When an attempt to parse stops because the source has no more data, the position, the number of nodes counted and used, and the open levels are proved "
                   "to be what they were after the last complete node, so resuming repeats that node and nothing else; no error is left.")
    cfgs = ["rel64"] + (["size64"] if tier == "thorough" else [])
    rep.run([(c, r[1], {"node_store": z}) for c in cfgs for r in roots(c) if r[1] in PARSE for z in STORES], mk)
    if len(rep.obl) < 3:
        raise Broken("only %d obligations" % len(rep.obl))
