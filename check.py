#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR]

Decides one property of kcorrect from the source text in /repo (nothing of kcorrect is executed or imported).
Exit 0: no obligation violated; exit 1: violated, with VIOLATION lines; exit 2: the analysis could not be carried out."""
import argparse
import collections
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known(pid):
    """[(rule, instance)] of the findings recorded for this property"""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    a = [x.strip() for x in rest.split('|')]
                    out.append((a[0], a[1] if len(a) > 1 else ''))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    from sa import registry
    from sa.report import run_tasks
    from sa.contexts import Program
    from sa import valuation
    if tier == 'thorough':
        valuation.EFFORT[:] = [6000, 800, 40.0]
    if pid not in registry.PROPS:
        print('unknown property', pid)
        return 2
    try:
        prog = Program(os.path.join(a.repo, 'src', 'kcorrect'))
        tasks = registry.tasks(pid, tier)
    except Exception as e:
        print('ERROR: the sources could not be analysed: %s: %s' % (type(e).__name__, e))
        return 2
    res = run_tasks(tasks, prog, tier, limit=registry.LIMIT.get(pid, 150) if tier == 'quick' else 1500, deadline=600 if tier == 'quick' else None)
    recs, funcs, stmts, anchors = [], set(), set(), []
    nev = ncase = 0
    seen = set()
    for label, rs, fs, ns, ne, nc, secs, err, st in res:
        for r in rs:
            k = (r[0], r[1], r[3], r[4])
            if k not in seen:
                seen.add(k)
                recs.append(r)
        funcs |= set(map(tuple, fs))
        stmts |= set(map(tuple, st))
        nev += ne
        ncase += nc
        if err:
            anchors.append('%s: %s' % (label, err))
    ok = [r for r in recs if r[0] == 'ok']
    bad = [r for r in recs if r[0] == 'bad']
    und = [r for r in recs if r[0] == 'und']
    weak = [r for r in und if re.search(r'none of [1-9]\d* interpretations', r[4])]
    kn = known(pid)
    new, old = [], []
    for r in bad:
        (old if any(r[1] == rule and (not inst or r[3].startswith(inst)) for rule, inst in kn) else new).append(r)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.violations.txt')
    if new:
        with open(replay, 'w') as fp:
            fp.write('property %s on %s\nrepeat with: python3 %s/check.py %s --tier %s\n\n' % (pid, a.repo, HERE, pid, tier))
            for r in new:
                fp.write('rule      %s\ninstance  %s\nat        %s\nfound     %s\n\n' % (r[1], r[3], r[2], r[4]))
    elif os.path.exists(replay):
        os.remove(replay)
    rules = collections.Counter(r[1] for r in ok)
    cov = dict(
        explanation='Abstract interpretation of the current source of every function reached from the entry points below, on symbolic inputs of symbolic sizes; '
                    'each obligation compares a computed abstract value, effect or event with the rule. Rule: ' + registry.PROPS[pid][2],
        obligations=len(recs), decided=len(ok) + len(bad), discharged=len(ok), violated=len(bad), undecided=len(und),
        not_separated=len(weak),
        rules={k: v for k, v in sorted(rules.items())},
        contexts=ncase, functions_analysed=len(funcs), statements_analysed=len(stmts), effects_recorded=nev, tasks=len(tasks),
        functions=sorted('%s.%s' % f for f in funcs)[:120],
        samples=['%s: %s at %s' % (r[1], r[3], r[2]) for r in ok[:3] + ok[len(ok) // 2:len(ok) // 2 + 2]],
        undecided_samples=['%s: %s: %s' % (r[1], r[3], r[4][:200]) for r in und[:10]],
        violations=['%s: %s: %s' % (r[1], r[3], r[4][:300]) for r in new[:20]],
        known_findings=['%s: %s' % (r[1], r[3]) for r in old])
    doc = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
               assumptions=['the models of NumPy, SciPy and Astropy in sa/libmodel.py and sa/handlers.py describe the installed versions',
                            'real arithmetic in place of floating point'],
               wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(ev, pid + '.json'), 'w') as fp:
        json.dump(doc, fp, indent=1)
    print('%s: %d obligations, %d discharged, %d violated, %d undecided; %d contexts, %d functions, %d statements, %.1f s'
          % (pid, len(recs), len(ok), len(bad), len(und), ncase, len(funcs), len(stmts), time.time() - t0))
    for r in und[:20 if a.v else 5]:
        print('  undecided: %s | %s | %s' % (r[1], r[3], r[4][:240]))
    for r in old:
        print('KNOWN-FINDING: property=%s %s: %s: %s' % (pid, r[1], r[3], r[4][:200]))
    if new:
        shown = set()
        for r in new:
            k = (r[1], r[2])
            if len(shown) < 12 and k not in shown:
                shown.add(k)
                print('  %s | %s | %s | %s' % (r[2], r[1], r[3], r[4][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if not ok and not weak and und:
        print('NOTE: none of the %d obligations could be decided on this tree; nothing is claimed for it' % len(und))
        return 0
    if not ok and not weak:
        print('ERROR: nothing was decided (%d anchors missing)%s' % (len(anchors), ': ' + anchors[0] if anchors else ''))
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
