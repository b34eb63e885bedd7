#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current working tree by static analysis.

Exit 0: holds on everything analysed.  Exit 1 with `VIOLATION property=<id> replay=<path>`: violated.  Exit 2: no answer.
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('FASTAD_VT') != '1' and os.path.exists(VT):
    os.environ['FASTAD_VT'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'witness')]
sys.dont_write_bytecode = True


def known(prop):
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


RULES = {
    'value': 'the value graph of every evaluated component equals the value graph of its mathematical definition',
    'gradient': 'every delivered adjoint equals initial adjoint + seed^T * formal derivative of the evaluated value graph',
    'storage': 'every cache access is inside the cells reported, and binding consumes exactly the reported number',
    'readonly': 'operand values and constants end as they began',
    'stale-storage': 'no result depends on cells that the pass did not write itself',
    'agree': 'two computations that must agree have equal value graphs',
    'tangent': 'the tangent equals the directional derivative of the value graph',
    'leak': 'on every returning path every heap block was released',
    'traps': 'no path from an ill-formed use returns normally',
    'memory': 'no null, dangling, out-of-bounds or uninitialised access, no failed assertion, no abort on any path',
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    kind, gen = props.PROPS[prop]
    broken = None
    recs = []        # dicts: name, ok|None, key, detail, frames, extra
    cov = {}
    if kind in ('wit', 'heap'):
        recs, cov, broken = witnesses(prop, gen, tier, ['--keep-heap'] if kind == 'heap' else [])
        kind = 'wit'
    elif kind == 'types':
        import types_ as T
        recs = [dict(r, key=r['name']) for r in T.run_types(tier)]
        cov = dict(obligations=len(recs), programs_accepted=sum(r['kind'] == 'accept' for r in recs),
                   programs_rejected=sum(r['kind'] == 'reject' for r in recs))
        if len(recs) < 900:
            broken = 'only %d type witnesses were generated' % len(recs)
        if all(not r['ok'] for r in recs if r['kind'] == 'accept'):
            broken = 'no witness compiles: ' + recs[0]['detail']
    else:
        import shapecheck as H
        try:
            recs = {'headers': H.run_headers, 'state': H.run_state}[kind](tier)
        except RuntimeError as e:
            broken = str(e)
        cov = dict(obligations=len(recs))
    kf = known(prop)
    viol, seenk = [], set()
    for r in recs:
        if r['ok'] is False:
            if r['key'] in kf:
                if r['key'] not in seenk:
                    print('KNOWN-FINDING: property=%s %s' % (prop, kf[r['key']]))
                seenk.add(r['key'])
            else:
                viol.append(r)
    und = [r for r in recs if r['ok'] is None]
    wall = time.time() - t0
    replay = None
    if viol:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replay', prop + '.json')
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, violations=viol[:50]), f, indent=1)
    cov.update(
        explanation='Static analysis of the library as instantiated by %d generated client programs (witnesses): the unoptimised IR '
        'of each is inlined, unrolled and abstracted to a gated value graph over symbolic operands, on which the rules are decided '
        'for all operand values at once (by normal form; a difference is reported only with a point of the domain at which the two '
        'graphs differ). Nothing of the library is executed.' % len(recs) if kind == 'wit' else
        'Static analysis of the headers: %d program/declaration-level obligations decided by the compiler front end and queries over '
        'the resolved syntax tree and symbol table.' % len(recs),
        held=sum(r['ok'] is True for r in recs), violated=len(viol), known=len(seenk), undecided=len(und),
        undecided_names=[r['name'] for r in und][:40],
        samples=[dict(name=r['name'], expression=r.get('expr', ''), functions=r.get('functions', [])[:6], counts=r.get('counts', {}))
                 for r in recs[:: max(1, len(recs) // 4)]][:5])
    assumptions = ['clang 18 translates C++ to IR faithfully and its inlining/unrolling/simplification passes preserve semantics',
                   'floating-point operations are abstracted to exact real operations; rounding is out of scope',
                   'libm functions denote the mathematical functions; Eigen is analysed from its sources as instantiated',
                   'operand shapes are those enumerated by the witnesses'] if kind == 'wit' else \
                  ['the installed compilers implement C++17 name lookup, overload resolution and constraints']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 2),
                       violations=len(viol), assumptions=assumptions, broken=broken), f, indent=1)
    for r in viol[:12]:
        fr = r.get('frames') or []
        loc = '%s:%s (%s)' % tuple(fr[0]) if fr else '?'
        print('%s: %s: %s [%s]' % (prop, loc, r['detail'], r['name']))
        for f in fr[1:4]:
            print('      from %s:%s (%s)' % tuple(f))
        if r.get('point'):
            print('      at ' + ', '.join('%s=%s' % kv for kv in sorted(r['point'].items())[:10]))
        if r.get('expr'):
            print('      in ' + r['expr'][:200])
    if len(viol) > 12:
        print('... and %d more' % (len(viol) - 12))
    print('%s tier=%s: %d obligation groups, %d held, %d violated, %d known, %d undecided, %.0f s' % (
        prop, tier, len(recs), cov['held'], len(viol), len(seenk), len(und), wall))
    for r in und[:8]:
        print('  undecided: %s: %s' % (r['name'], r['detail'].strip().split('\n')[-1][:200]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if broken:
        print('ANALYSIS BROKEN: ' + broken)
        return 2
    return 0


# floor on the number of witnesses, well under today's count: a rule that matches nothing is not a pass
FLOOR = 4


def witnesses(prop, gen, tier, extra):
    import driver
    ws = gen(tier)
    by = {w.name: w for w in ws}
    rs = []
    for keep in (False, True):      # witnesses about heap storage keep every allocation visible
        part = [w for w in ws if bool(w.opt.get('heap')) == keep]
        if part:
            rs += driver.run_witnesses(part, extra=extra + (['--keep-heap'] if keep and '--keep-heap' not in extra else []))
    recs, cov = [], dict(witnesses=len(ws), obligations=0, cases=0, normal_form=0, random_interpretation=0, infeasible=0,
                         instructions=0, memory_accesses=0)
    fns = set()
    nres = 0
    for r in rs:
        w = by[r['name']]
        e = getattr(w, 'src_expr', '')
        fam = getattr(w, 'family', '')
        if r.get('error') == 'compile':
            recs.append(dict(name=r['name'], ok=False, key='compile:' + r['name'], frames=r['frames'], expr=e, family=fam,
                             detail='a program the documentation allows does not compile: ' + r['detail'][:300], source=w.source()))
        elif 'error' in r:
            recs.append(dict(name=r['name'], ok=None, key=r['name'], frames=[], detail=r['error'] + ': ' + r['detail'], expr=e, family=fam))
        else:
            nres += 1
            for a, b in (('obligations', 'obligations'), ('cases', 'cases'), ('nf', 'normal_form'),
                         ('random_interp', 'random_interpretation'), ('infeasible', 'infeasible')):
                cov[b] += r['counts'].get(a, 0)
            cov['instructions'] += r['insts']
            cov['memory_accesses'] += r['accesses']
            fns |= set(map(tuple, r['functions']))
            if r['viol']:
                kf = known(prop)        # a recorded failure does not hide another one of the same witness
                new = [x for x in r['viol'] if '%s:%s' % (x['rule'], r['name']) not in kf]
                v = (new or r['viol'])[0]
                recs.append(dict(name=r['name'], ok=False, key='%s:%s' % (v['rule'], r['name']), frames=v['location'], expr=e, family=fam,
                                 detail='%s: %s' % (v['rule'], v['message']), point=v['point'], functions=[], counts=r['counts'],
                                 rule=RULES.get(v['rule'].split(':')[0], v['rule']), source=w.source()))
            else:
                recs.append(dict(name=r['name'], ok=True, key=r['name'], frames=[], detail='', expr=e, family=fam,
                                 functions=['%s:%s' % x for x in r['functions']], counts=r['counts']))
    cov['library_functions'] = len(fns)
    cov['rules'] = sorted({x if isinstance(x, str) else x[0] for w in ws for x in w.rules})
    fams = {}
    for r in recs:
        fams[r['family']] = fams.get(r['family'], 0) + 1
    cov['families'] = fams
    broken = None
    if len(ws) < FLOOR:
        broken = 'only %d witnesses' % len(ws)
    ncomp = sum(r['ok'] is False and r['key'].startswith('compile:') for r in recs)
    if ncomp == len(recs):
        broken = 'no witness compiles: ' + recs[0]['detail']
        recs = [dict(r, ok=None) for r in recs]
    elif nres * 2 < len(recs) - ncomp:
        broken = 'more than half of the witnesses could not be analysed'
    elif not fns:
        broken = 'no library function was reached'
    return recs, cov, broken


if __name__ == '__main__':
    sys.exit(main())
