"""Runs the witnesses of one property and reports."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import pipeline
from irparse import Module, IRError
from vgraph import Unanalysable
from oblig import Eval
import cases as C


class Witness:
    """body: C++ statements using `k` (wit::Ctx).  rules: list of (method, kwargs)."""

    def __init__(self, name, body, nx=1, ny=1, np=0, rules=(), pre='', **opt):
        self.name, self.body, self.nx, self.ny, self.np = name, body, nx, ny, np
        self.rules, self.pre, self.opt = list(rules), pre, opt

    def source(self):
        return '%s\nWITNESS(%s)\n{\n%s\n}\n' % (self.pre, self.name, self.body)


def chunk_source(ws, header=''):
    pres = []
    for w in ws:
        if w.pre and w.pre not in pres:
            pres.append(w.pre)
    out = ['#include "wit.hpp"', header, 'using namespace ad;', 'using wit::S; using wit::V; using wit::M; using wit::Mem;']
    out += pres
    for w in ws:
        out.append('WITNESS(%s)\n{\n%s\n}\n' % (w.name, w.body))
    return '\n'.join(out)


def eval_witness(text_cache, ll0, w):
    last = None
    for level in range(len(pipeline.OPTS)):
        if level not in text_cache:
            text_cache[level] = Module(pipeline.optimise(ll0, level))
        mod = text_cache[level]
        try:
            ev = Eval(mod, w)
            for r in w.rules:
                m, kw = (r, {}) if isinstance(r, str) else r
                getattr(ev, 'rule_' + m)(**kw)
            return ev
        except (Unanalysable, IRError, C.Budget) as e:
            last = e
    raise Unanalysable(str(last) or type(last).__name__)


def do_chunk(args):
    ws, workdir, idx, header, extra = args
    sys.setrecursionlimit(20000)
    res = []
    try:
        ll0 = pipeline.compile_ir(chunk_source(ws, header), workdir, 'c%s' % idx, extra)
        cache = {0: None}
        cache = {}
    except pipeline.CompileError as e:
        if len(ws) == 1:
            return [dict(name=ws[0].name, error='compile', detail=first_errors(str(e)), frames=error_frames(str(e)))]
        out = []
        for j, w in enumerate(ws):
            out += do_chunk(([w], workdir, '%s_%d' % (idx, j), header, extra))
        return out
    for w in ws:
        t0 = time.time()
        try:
            ev = eval_witness(cache, ll0, w)
            res.append(dict(name=w.name, viol=[v.as_dict() for v in ev.viol], counts=ev.counts,
                            functions=sorted(ev.functions()), insts=ev.A.ninst, accesses=len(ev.A.accesses),
                            wall=time.time() - t0))
        except Unanalysable as e:
            res.append(dict(name=w.name, error='unanalysable', detail=str(e)))
        except Exception as e:
            res.append(dict(name=w.name, error='internal', detail=traceback.format_exc()[-2500:]))
    return res


def first_errors(s):
    ls = [l for l in s.split('\n') if 'error:' in l]
    return '\n'.join(ls[:3]) or s[:600]


def error_frames(s):
    import re
    out = []
    for l in s.split('\n'):
        m = re.search(r'(include/fastad\S*?):(\d+):\d+: (error|note)', l)
        if m:
            out.append((m.group(1), int(m.group(2)), '?'))
    return out[:4]


def run_witnesses(ws, header='', extra=(), jobs=8, per=None):
    names = [w.name for w in ws]
    assert len(set(names)) == len(names), 'duplicate witness names: ' + str([n for n in names if names.count(n) > 1][:5])
    workdir = tempfile.mkdtemp(prefix='fastad-sa-')
    try:
        per = per or max(1, min(14, (len(ws) + jobs - 1) // jobs))
        # interleave so that heavy neighbours spread out
        nchunk = (len(ws) + per - 1) // per
        pch = pipeline.precompile(workdir) if nchunk > 3 else None
        if pch:
            extra = list(extra) + ['-include-pch', pch]
        chunks = [ws[i::nchunk] for i in range(nchunk)]
        jobsl = [(c, workdir, i, header, extra) for i, c in enumerate(chunks)]
        res = []
        with cf.ProcessPoolExecutor(max_workers=jobs) as ex:
            for r in ex.map(do_chunk, jobsl):
                res += r
        order = {n: i for i, n in enumerate(names)}
        res.sort(key=lambda r: order[r['name']])
        return res
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
