#!/usr/bin/env python3
"""Runs the checker on small edits of scratch copies of /repo (never on /repo itself).

Every file in this directory named *.mut holds entries

  === <name> <kill|keep> <props,comma separated> <file>
  <old text>
  --- 
  <new text>

kill: the named checks must report a violation; keep: they must stay quiet.
usage: run.py [-p PROP] [-n NAME-substring] [-all]   (-all: kill entries run every check)
"""
import sys, os, re, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
chk = os.environ.get('CHK', '/verif/bin/chk')
args = sys.argv[1:]
prop = args[args.index('-p')+1] if '-p' in args else None
name = args[args.index('-n')+1] if '-n' in args else None
muts = []
for f in sorted(glob.glob(here+'/*.mut')):
    cur = None
    for line in open(f):
        if line.startswith('=== '):
            p = line.split()
            cur = dict(name=p[1], exp=p[2], props=p[3].split(','), edits=[[p[4], [], []]], side=1)
            muts.append(cur)
        elif line.startswith('+++ '):
            cur['edits'].append([line.split()[1], [], []]); cur['side'] = 1
        elif line.rstrip() == '---':
            cur['side'] = 2
        elif cur is not None and not (line.startswith('#') and cur['side'] == 1 and not cur['edits'][-1][1]):
            cur['edits'][-1][cur['side']].append(line)
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', CGO_ENABLED='0')
def one(m):
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        r = d+'/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in m['edits']:
            s = open(r+'/'+f).read()
            o, n = ''.join(old)[:-1], ''.join(new)[:-1]
            if s.count(o) != 1:
                return m, 'BAD: old text occurs %d times in %s' % (s.count(o), f)
            open(r+'/'+f, 'w').write(s.replace(o, n))
        b = subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode:
            return m, 'BAD: does not build: '+b.stderr[:300]
        out = []
        for p in m['props']:
            if prop and p != prop: continue
            c = subprocess.run([chk, '-repo', r, '-verif', '/verif', '-prop', p, '-noevidence'], env=env, capture_output=True, text=True)
            hit = 'VIOLATION property='+p in c.stdout and c.returncode == 1
            quiet = c.returncode == 0
            good = hit if m['exp'] == 'kill' else quiet
            why = ' | '.join(l.strip() for l in c.stdout.splitlines() if l.startswith('rule:') or l.startswith('  '))[:400]
            out.append('%s %s%s' % ('ok  ' if good else 'MISS' if m['exp'] == 'kill' else 'ALARM', p, ': '+why if not good or '-v' in args else ''))
        return m, '; '.join(out)
    finally:
        shutil.rmtree(d)
todo = [m for m in muts if (not name or name in m['name']) and (not prop or prop in m['props'])]
bad = 0
with ThreadPoolExecutor(7) as ex:
    for m, r in ex.map(one, todo):
        if '-v' in args or not r.startswith('ok') or 'MISS' in r or 'ALARM' in r:
            print(m['exp'], m['name'], r, flush=True)
        if 'MISS' in r or 'ALARM' in r or r.startswith('BAD'): bad += 1
print('%d entries, %d bad' % (len(todo), bad))
