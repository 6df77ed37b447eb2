#!/usr/bin/env python3
"""Developer tool: build /verif/seeded/<id> from a spec and confirm it in a scratch copy.
usage: mkseed.py SPEC [id ...]
  ## id | prop | path      then <<<< old ==== new >>>> edits (@@ path switches file)
  %% needs text / %% breaks text / %% demo ... %% end
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'


def specs(path):
    out, mode = [], None
    for line in open(path):
        if mode == 'demo':
            if line.startswith('%% end'):
                mode = None
            else:
                if line.startswith('#include '):
                    line = open(os.path.join(os.path.dirname(path), line[9:].strip())).read()
                cur['demo'] += line
        elif mode is None and line.startswith('## '):
            i, prop, p = [x.strip() for x in line[3:].split('|')]
            cur = dict(id=i, prop=prop, path=p, edits=[], demo='', needs='', breaks='')
            out.append(cur)
        elif mode is None and line.startswith('@@ '):
            cur['path'] = line[3:].strip()
        elif mode is None and line.startswith('<<<<'):
            mode, old, new = 'old', [], []
        elif mode == 'old' and line.startswith('===='):
            mode = 'new'
        elif mode == 'new' and line.startswith('>>>>'):
            cur['edits'].append((cur['path'], ''.join(old), ''.join(new)))
            mode = None
        elif mode == 'old':
            old.append(line)
        elif mode == 'new':
            new.append(line)
        elif line.startswith('%% needs '):
            cur['needs'] += line[9:].strip() + ' '
        elif line.startswith('%% breaks '):
            cur['breaks'] += line[10:].strip() + ' '
        elif line.startswith('%% demo'):
            mode = 'demo'
    return out


DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    base = {t for t in json.load(open('/opt/vp/BASELINE.json'))['stable']} if 'stable' in json.load(
        open('/opt/vp/BASELINE.json')) else None
    for s in specs(sys.argv[1]):
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        shutil.rmtree(W, ignore_errors=True)
        sh(['git', 'clone', '-q', '/repo', W])
        d = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(s['demo'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'].strip(), what_it_breaks=s['breaks'].strip()),
                  open(d + '/meta.json', 'w'), indent=1)
        ok0 = sh(['bash', d + '/demo.sh'], cwd=W)
        good = True
        for p, old, new in s['edits']:
            f = os.path.join(W, p)
            t = open(f, newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                print('%s: %d matches for %r' % (s['id'], t.count(old), old[:60]))
                good = False
            open(f, 'w', newline='').write(t.replace(old, new, 1))
        if not good:
            continue
        open(d + '/patch.diff', 'w', newline='').write(sh(['git', 'diff'], cwd=W).stdout)
        ok1 = sh(['bash', d + '/demo.sh'], cwd=W)
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', W + '-rep').replace('/repo', W)
        open('/tmp/seedtest.sh', 'w').write(t)
        sh(['bash', '/tmp/seedtest.sh', '/tmp/seedout.json'])
        res = json.load(open('/tmp/seedout.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))
        want = set(st.get('stable_pass') or st.get('stable') or st.get('passed') or [])
        got = set(res.get('passed') or [])
        miss = sorted(want - got)
        chk = {}
        env = dict(os.environ, CHANNELPACK_ROOT=W, VERIF_EVIDENCE=W)
        c = sh([sys.executable, HERE + '/check.py', s['prop']], env=env, cwd=HERE)
        okk = ok0.returncode == 0 and ok1.returncode != 0 and not miss and want
        print('%s %s: demo clean %d patched %d, tests missing %d/%d, check %s -> %s' % (
            'OK ' if okk else 'BAD', s['id'], ok0.returncode, ok1.returncode, len(miss), len(want), s['prop'],
            {0: 'quiet', 1: 'CAUGHT'}.get(c.returncode, c.returncode)))
        if not okk:
            print('   ', miss[:5], ok0.stderr[-300:], ok1.stderr[-300:])
            shutil.rmtree(d)
        else:
            rf = HERE + '/tools/seed_results.txt'
            old = {l.split()[0]: l for l in open(rf)} if os.path.exists(rf) else {}
            old[s['id']] = '%s %s\n' % (s['id'], {0: 'missed', 1: 'caught'}.get(c.returncode, 'no answer'))
            open(rf, 'w').writelines(old[k] for k in sorted(old))
        shutil.rmtree(W, ignore_errors=True)
        shutil.rmtree(W + '-rep', ignore_errors=True)


main()
