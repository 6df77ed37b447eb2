"""Write MANIFEST.json from the property list and the checkers present."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
sys.path.insert(0, HERE)
NA = {
    'C29': 'what a human reader takes as delimiter, header and names is no function of the source; preparse is regular '
           'expression heuristics over line contents, and no static argument in reach bounds what they match',
    'C30': 'numeric exactness over all integers is a fact about integer arithmetic (powers, div/mod chains), which '
           'dataflow and syntax analyses do not decide; it needs a solver, proof or runs',
}
TECH = {
 'default': 'abstract interpretation of the syntax tree'
}
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(HERE, 'props', pid.lower() + '.py')
    if os.path.exists(f) and pid not in NA:
        import importlib
        m = importlib.import_module('props.' + pid.lower())
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid,
                           thorough_cmd='python3 check.py %s --tier thorough' % pid,
                           technique=getattr(m, 'TECHNIQUE', TECH['default']), level='other',
                           level_note=getattr(m, 'NOTE', 'Static: decides the rule below on all paths of the current source; '
                           'an obligation the analysis cannot follow is reported as undecided and raises no alarm. '
                           'Trusts the models of Python, numpy and library calls in pyflow/models.py. ') + ' Rule: ' +
                           ' '.join(m.RULE.split())))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'checker not built yet')))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q pyflow props check.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. All checks parse /repo/channelpack and execute nothing of it. '
                     'CHANNELPACK_ROOT points a check at another tree (used by tools/mut.py only).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
