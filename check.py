#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py <property id> [--tier quick|thorough] [-v]
exit 0: no violation found, 1: VIOLATION printed, 2: the source does not parse.
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load_findings(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                key, _, what = line.split(' ', 2)[2].partition(' :: ')
                out.append((key, what))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verbose = '-v' in argv
    root = os.environ.get('CHANNELPACK_ROOT', '/repo')
    t0 = time.time()
    from props.common import Report, Project, AnalysisError
    mod = importlib.import_module('props.' + pid.lower())
    r = Report(pid)
    try:
        P = Project(root)
        r.tier = tier
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    from pyflow.interp import Engine
    Engine.deadline = t0 + float(os.environ.get('VERIF_TIME', 300 if tier == 'quick' else 780))
    try:
        mod.check(P, r)
    except AnalysisError as e:  # a function of the public interface is not where it was
        r.undecided('analysis', 'anchor: %s' % e)
    except Exception as e:      # an internal limit of the analysis decides nothing
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.undecided('analysis', 'internal: %s: %s (%s:%d)' % (type(e).__name__, e, tb.filename, tb.lineno))
    known = dict(load_findings(pid))
    fresh = [v for v in r.violations if v['key'] not in known]
    for k, what in known.items():
        if any(v['key'] == k for v in r.violations):
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    st = {'holds': 0, 'undecided': 0, 'violated': 0}
    for o in r.obligations:
        st[o[1]] += 1
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              coverage=dict(explanation=mod.RULE.strip(),
                            obligations=len(r.obligations), discharged=st['holds'], undecided=st['undecided'],
                            functions_analysed=len(r.functions), functions=sorted(r.functions)[:80],
                            source_digest=P.digest(), modules_parsed=len(P.modules),
                            counts=r.stats,
                            samples=[dict(obligation=n, status=s, detail=str(d)[:400])
                                     for n, s, d in r.obligations[:40]],
                            undecided_items=[dict(obligation=n, why=d[:300]) for n, s, d in r.obligations
                                             if s == 'undecided'][:40]),
              assumptions=getattr(mod, 'ASSUME', []) + [
                  'Python semantics and library calls behave as modelled in pyflow/models.py; nothing of the '
                  'analysed program is executed'],
              wall_s=round(time.time() - t0, 3), violations=len(fresh))
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('property %s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed (%.1fs)' % (
        pid, len(r.obligations), st['holds'], st['undecided'], st['violated'], len(r.functions),
        time.time() - t0))
    for n, s, d in r.obligations:
        if s == 'undecided' or verbose:
            print('  %-9s %s  %s' % (s, n, str(d)[:300]))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\nrule: %s\nre-run: cd /verif && python3 check.py %s -v\n\n' % (
                pid, mod.RULE.strip(), pid))
            for v in fresh:
                f.write('- [%s] %s\n  at %s\n' % (v['key'], v['msg'], v['where']))
        for v in fresh:
            print('  [%s] %s (%s)' % (v['key'], v['msg'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
