"""Common parts of the property checks: obligations, findings, evidence, exit status."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))

import build                                   # noqa: E402
import driver                                  # noqa: E402
import api                                     # noqa: E402
from terms import *                            # noqa: E402,F401,F403
from models import Fields, READER, WRITER, TREE, NODEDATA, NODE, TAG, TRACK, OBJECTS   # noqa: E402

EVID = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))


class Broken(Exception):
    """the check cannot do its job on this tree (nothing to analyse, anchors gone)"""


def objects(eng, args):
    """[(struct name, object pointer)] of a root's arguments"""
    out = []
    for a in args:
        if isinstance(a, T) and a.k == "a":
            s = eng.models.objptr(eng, a)
            if s in OBJECTS and (s, a) not in out:
                out.append((s, a))
    return out


def objnames(eng, args):
    return [s for s, _ in objects(eng, args)]


def error_params(eng, st, fn, args):
    """a caller flags errors, not mpack_ok"""
    for a in args:
        if isinstance(a, T) and a.k == "a" and (a.meta or {}).get("enum") == "mpack_error_t":
            st.set_u(a, 1, 0xffff)


class Rule:
    """base of the engine-driven rules; records are (rule, where, function, None | message, samples)"""
    name = ""

    def __init__(self):
        self.obl = {}      # (rule, where, fn) -> count
        self.bad = {}      # (rule, where, fn) -> dict

    def ok(self, rule, where, fn):
        return (rule, where, fn, None)

    def no(self, rule, where, fn, msg, eng, fr=None):
        return (rule, where, fn, dict(msg=msg, root=eng.root, entry=eng.label, cfg=eng.cfg, path=list(fr.stack) if fr is not None else [eng.root]))

    def chk(self, cond, rule, msg, eng, fr, ins):
        w, f = fr.fn.where(ins), fr.fn.name
        if cond:
            return (rule, w, f, None)
        return self.no(rule, w, f, msg() if callable(msg) else msg, eng, fr)

    def chkexit(self, cond, rule, msg, eng, fn):
        w = "%s:%s" % (fn.file, fn.line)
        if cond:
            return (rule, w, fn.name, None)
        return self.no(rule, w, fn.name, msg() if callable(msg) else msg, eng)

    def add(self, rec):
        k = rec[:3]
        self.obl[k] = self.obl.get(k, 0) + 1
        if rec[3] is not None and k not in self.bad:
            self.bad[k] = rec[3]

    def result(self):
        return (type(self).__name__, self.obl, self.bad)


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = {}          # (rule, where, fn) -> count of states in which it was decided
        self.bad = {}          # same key -> dict
        self.cov = {}
        self.functions = set()
        self.roots = 0
        self.entries = 0
        self.exits = 0
        self.insts = 0
        self.undecided = []
        self.assumptions = []
        self.samples = []
        self.level = "other"
        self.explain = ""
        self.configs = []

    # ---- direct obligations (rules not driven by the interpreter)
    def check(self, cond, rule, where, fn, msg, path=(), cfg=""):
        k = (rule, where, fn)
        self.obl[k] = self.obl.get(k, 0) + 1
        if not cond and k not in self.bad:
            self.bad[k] = dict(msg=msg() if callable(msg) else msg, root=fn, entry="", cfg=cfg, path=list(path) or [fn])
        return cond

    def absorb(self, r):
        self.roots += 1
        self.entries += r["entries"]
        self.exits += r["exits"]
        self.insts += r.get("stats", {}).get("insts", 0)
        self.functions |= set(r["functions"])
        if r["error"]:
            self.undecided.append(dict(root=r["root"], cfg=r["cfg"], why=r["error"].strip().split("\n")[-1][:300]))
        for c in r["checks"]:
            _, obl, bad = c
            for k, n in obl.items():
                self.obl[k] = self.obl.get(k, 0) + n
            for k, b in bad.items():
                self.bad.setdefault(k, b)

    def run(self, tasks, mk, opts=None, mayfail=0.05):
        tasks = list(tasks)
        if not tasks:
            raise Broken("no function to analyse")
        for c in dict.fromkeys(t[0] for t in tasks):
            if c not in self.configs:
                self.configs.append(c)
        n0 = len(self.undecided)
        for r in driver.run_all(tasks, mk, opts):
            self.absorb(r)
        f = len(self.undecided) - n0
        if f > max(2, mayfail * len(tasks)):
            raise Broken("%d of %d functions could not be analysed: %s" % (f, len(tasks), self.undecided[-1]))

    # ---- end
    def finish(self):
        known = load_known(self.prop)
        viol, kn, used = [], [], set()
        for k in sorted(self.bad, key=str):
            b = self.bad[k]
            m = None
            for i, e in enumerate(known):
                if e["rule"] == k[0] and (e["function"] == k[2] or isinstance(e["function"], list) and k[2] in e["function"]) and (not e.get("match") or e["match"] in b["msg"]):
                    m = i
                    break
            if m is None:
                viol.append((k, b))
            else:
                kn.append((k, b))
                if m not in used:
                    used.add(m)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, known[m]["what"]))
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, self.prop + ".violations.json")
        if viol:
            json.dump([dict(rule=k[0], where=k[1], function=k[2], **b) for k, b in viol], open(replay, "w"), indent=1)
            for k, b in viol[:12]:
                print("%s: %s: in %s: %s [config %s, entry point %s %s, path %s]" % (
                    k[1], k[0], k[2], b["msg"], b["cfg"], b["root"], b["entry"], " > ".join(b["path"])))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        elif os.path.exists(replay):
            os.remove(replay)
        rules = {}
        for (r, w, f), n in self.obl.items():
            d = rules.setdefault(r, dict(sites=0, states=0, functions=set()))
            d["sites"] += 1
            d["states"] += n
            d["functions"].add(f)
        for d in rules.values():
            d["functions"] = len(d["functions"])
        nobl = len(self.obl)
        cov = dict(explanation=self.explain, obligations=nobl, discharged=nobl - len(self.bad),
                   decided_in_states=sum(self.obl.values()), rules=rules, configurations=self.configs,
                   entry_points=self.roots, entry_states=self.entries, exit_states=self.exits,
                   functions_analysed=len(self.functions), instructions_interpreted=self.insts,
                   known_findings=len(kn), undecided=self.undecided,
                   samples=self.samples[:10] + [dict(rule=k[0], site=k[1], function=k[2], states=n)
                                                for k, n in sorted(self.obl.items(), key=str)[::max(1, nobl // 6)]][:8])
        if self.level == "proof":
            cov["checker_cmd"] = "python3 check.py %s" % self.prop
            cov["trusted_base"] = TRUSTED
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1, default=str)
        print("%s: %d obligations over %d entry points, %d undischarged, %d known, %d undecided entry points, %.1f s" % (
            self.prop, nobl, self.roots, len(viol), len(kn), len(self.undecided), time.time() - self.t0))
        if not nobl:
            raise Broken("no obligation found: the rule's anchors are gone")
        return 1 if viol else 0


TRUSTED = ["clang 18 front end and mem2reg", "engine/irexport.cpp", "engine/*.py abstract interpreter and its models of libc and of user callbacks"]


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e["property"] == prop and e["kind"] == "known"]


def roots(cfg, pred=None, callbacks=True):
    m = driver.module(cfg)
    rs = list(dict.fromkeys(api.roots(m) + (list(m.installed) if callbacks else [])))
    return [(cfg, r) for r in sorted(rs) if pred is None or pred(m, r)]


def arg_structs(m, name):
    """names of the object types a function takes"""
    out = set()
    for di in m.fns[name].argdi[1:]:
        if di is None or di < 0:
            continue
        s = m.struct_name(di)
        if s:
            out.add(s)
        p = m.pointee(di)
        if p is not None and p >= 0 and m.struct_name(p):
            out.add(m.struct_name(p))
    if NODE in out:
        out.add(TREE)
    return out
