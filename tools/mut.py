#!/usr/bin/env python3
"""Developer tool: run checks on a scratch copy with textual replacements.
usage: mut.py FILE  where FILE holds blocks:
  ## name | expect(V/Q) | props | path
  <<<<
  old
  ====
  new
  >>>>
"""
import os, shutil, subprocess, sys, re, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blocks(path):
    cur = None
    out = []
    mode = None
    for line in open(path):
        if line.startswith('## '):
            name, exp, props, p = [x.strip() for x in line[3:].split('|')]
            cur = dict(name=name, exp=exp, props=props.split(), edits=[], path=p)
            out.append(cur)
        elif line.startswith('@@ '):
            cur['path'] = line[3:].strip()
        elif line.startswith('<<<<'):
            mode, old, new = 'old', [], []
        elif line.startswith('====') and mode == 'old':
            mode = 'new'
        elif line.startswith('>>>>'):
            cur['edits'].append((cur['path'], ''.join(old)[:-1], ''.join(new)[:-1]))
            mode = None
        elif mode == 'old':
            old.append(line)
        elif mode == 'new':
            new.append(line)
    return out


def run(b):
    out, bad = [], 0
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/channelpack', d + '/channelpack', ignore=shutil.ignore_patterns('__pycache__'))
        for p, old, new in b['edits']:
            f = os.path.join(d, p)
            s = open(f).read()
            if s.count(old) < 1:
                return ['NOMATCH %s %r' % (b['name'], old[:80])], 1
            s = s.replace(old, new, 1)
            try:
                compile(s, f, 'exec')
            except SyntaxError as e:
                return ['SYNTAX %s %s' % (b['name'], e)], 1
            open(f, 'w').write(s)
        env = dict(os.environ, CHANNELPACK_ROOT=d, VERIF_EVIDENCE=d)
        for p in b['props']:
            if not os.path.exists(HERE + '/props/%s.py' % p.lower()):
                continue
            pr = subprocess.run([sys.executable, HERE + '/check.py', p], capture_output=True, text=True, env=env)
            got = {0: 'Q', 1: 'V' if 'VIOLATION' in pr.stdout else 'CRASH'}.get(pr.returncode, 'E%d' % pr.returncode)
            und = len([l for l in pr.stdout.splitlines() if l.startswith('  undecided')])
            flag = 'ok ' if got == b['exp'] else 'BAD'
            bad += got != b['exp']
            out.append('%s %s %s expected %s got %s%s' % (flag, b['name'], p, b['exp'], got, ' (%d undecided)' % und if und else ''))
            if flag == 'BAD' or '-v' in sys.argv:
                out.append('    ' + '\n    '.join(l[:300] for l in (pr.stdout + pr.stderr[-1500:]).splitlines()[:(12 if "-v" in sys.argv else 4)]))
            elif got == 'V':
                out.append('       ' + ''.join(l[:200] for l in pr.stdout.splitlines() if l.startswith('  ['))[:200])
    finally:
        shutil.rmtree(d)
    return out, bad


def main():
    from concurrent.futures import ThreadPoolExecutor
    only = [a for a in sys.argv[2:] if a != '-v' and not re.match(r'C\d\d$', a)]
    props = [a for a in sys.argv[2:] if re.match(r'C\d\d$', a)]
    bs = [b for b in blocks(sys.argv[1]) if not only or any(o in b['name'] for o in only)]
    if props:
        for b in bs:
            b['props'] = [p for p in b['props'] if p in props]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for o, n in ex.map(run, [b for b in bs if b['props']]):
            print('\n'.join(o))
            bad += n
    print('bad:', bad)


if __name__ == "__main__":
    main()
