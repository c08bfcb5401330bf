"""Analyse the API functions of one configuration in parallel and collect what the checks recorded."""
import multiprocessing as mp
import os
import sys
import time
import traceback

import build
import api
from interp import Module, Engine, AnalysisError
from models import Models, READER, WRITER, TREE, NODEDATA
from entry import Entry
from domain import Infeasible

_M = {}


def module(cfg):
    m = _M.get(cfg)
    if m is None:
        m = _M[cfg] = Module(build.ir(cfg))
        m.cfg = cfg
        m.installed = frozenset(api.address_taken(m))
    return m


def track_errors(eng, args):
    eng.tracked = []
    eng.exact = []
    m = eng.m
    for a in args:
        s = eng.models.objptr(eng, a) if a.k == "a" else None
        if s in (READER, WRITER, TREE):
            o = m.offset_of(s, "error")
            eng.tracked.append((((a, 1),), o[0], o[1]))
        elif a.k == "a" and a.meta and "di" in a.meta and m.struct_name(a.meta["di"]) == NODEDATA:
            o = m.offset_of(NODEDATA, "type")
            eng.exact.append((((a, 1),), o[0], o[1]))


def run_root(cfg, name, mk, opts=None):
    """one API function; returns dict"""
    m = module(cfg)
    fn = m.fns[name]
    t = time.time()
    eng = Engine(m, [], Models(m))
    eng.cfg = cfg
    checks = mk(eng)
    eng.checks = checks
    eng.root = name
    eng.installed = m.installed
    for k, v in (opts or {}).items():
        setattr(eng, k, v)
    res = dict(root=name, cfg=cfg, entries=0, exits=0, error=None)
    try:
        for label, st, args in Entry(eng, fn).build():
            eng.label = label
            track_errors(eng, args)
            splits = [""]
            for c in checks:
                f = getattr(c, "splits", None)
                if f:
                    splits = f(eng, st, fn, args, label)
            for sp in splits:
                # a check may look at several cases of one entry state
                eng.split_name = sp
                if sp:
                    eng.label = label + " " + (sp if isinstance(sp, str) else sp.name)
                s0, a0 = (st, args) if len(splits) == 1 else (st.copy(), list(args))
                try:
                    for c in checks:
                        f = getattr(c, "start", None)
                        if f:
                            f(eng, s0, fn, a0, label)
                except Infeasible:
                    continue
                r = eng.run(fn, a0, s0)
                res["entries"] += 1
                res["exits"] += len(r)
                for c in checks:
                    f = getattr(c, "exit", None)
                    if f:
                        for rv, s in r:
                            x = f(eng, s, rv, fn, a0, label)
                            if x is not None:
                                eng.buf.extend((c, y) for y in (x if isinstance(x, list) else [x]))
                    f = getattr(c, "exits", None)
                    if f:
                        x = f(eng, r, fn, a0, label)
                        if x is not None:
                            eng.buf.extend((c, y) for y in (x if isinstance(x, list) else [x]))
            for c, x in eng.buf:
                c.add(x)
            eng.buf = []
    except AnalysisError as ex:
        res["error"] = str(ex)
        for c, x in eng.buf:
            c.add(x)
    res["stats"] = dict(eng.stats)
    res["functions"] = sorted(eng.functions)
    res["checks"] = checks
    for c in checks:
        c.eng = None
        f = getattr(c, "finish", None)
        if f and not res["error"]:
            f()
    res["wall"] = time.time() - t
    return res


def _task(a):
    cfg, name, mk, opts = a
    try:
        r = run_root(cfg, name, mk, opts)
        r["checks"] = [c.result() if hasattr(c, "result") else c for c in r["checks"]]
        return r
    except Exception:
        return dict(root=name, cfg=cfg, error="internal: " + traceback.format_exc(), checks=[], entries=0, exits=0, stats={},
                    functions=[], wall=0)


COST = {"mpack_tree_parse": 100, "mpack_tree_try_parse": 99, "mpack_expect_enum_optional": 9}


def run_all(tasks, mk, opts=None, jobs=None):
    """tasks: list of (cfg, root).  mk: picklable factory engine -> [checks]"""
    for cfg in dict.fromkeys(t[0] for t in tasks):
        module(cfg)
    jobs = jobs or min(8, os.cpu_count() or 1)
    ts = sorted(tasks, key=lambda t: -COST.get(t[1], 0))
    ts = [(t[0], t[1], mk, dict(opts or {}, **(t[2] if len(t) > 2 else {}))) for t in ts]
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=1) as p:
        yield from p.imap_unordered(_task, ts, chunksize=1)
