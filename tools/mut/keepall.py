#!/usr/bin/env python3
"""Packs the keep entries of *.mut (behaviour-preserving edits) into groups that apply together and
runs every check on each group; all of them must stay quiet. usage: keepall.py [-g SIZE] [-f FILE.mut ...]"""
import sys, os, subprocess, shutil, tempfile, glob, json
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
chk = os.environ.get('CHK', '/verif/bin/chk')
args = sys.argv[1:]
size = int(args[args.index('-g')+1]) if '-g' in args else 16
files = args[args.index('-f')+1:] if '-f' in args else sorted(glob.glob(here+'/*.mut'))
muts = []
for f in files:
    cur = None
    for line in open(f):
        if line.startswith('=== '):
            p = line.split()
            cur = dict(name=p[1], exp=p[2], edits=[[p[4], [], []]], side=1)
            if p[2] == 'keep': muts.append(cur)
        elif line.startswith('+++ '):
            cur['edits'].append([line.split()[1], [], []]); cur['side'] = 1
        elif line.rstrip() == '---':
            cur['side'] = 2
        elif cur is not None and not (line.startswith('#') and cur['side'] == 1 and not cur['edits'][-1][1]):
            cur['edits'][-1][cur['side']].append(line)
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', CGO_ENABLED='0')
props = os.environ['PROPS'].split() if 'PROPS' in os.environ else [c['property'] for c in json.load(open(here+'/../../MANIFEST.json'))['checks']]
bad = 0
left = muts
g = 0
while left:
    d = tempfile.mkdtemp(prefix='keep.')
    r = d+'/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    names, rest = [], []
    for m in left:
        if len(names) >= size:
            rest.append(m); continue
        saved, ok = {}, True
        for f, old, new in m['edits']:
            p = r+'/'+f
            s = open(p).read()
            saved.setdefault(p, s)
            o, n = ''.join(old)[:-1], ''.join(new)[:-1]
            if s.count(o) != 1:
                ok = False; break
            open(p, 'w').write(s.replace(o, n))
        if ok:
            ok = subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True).returncode == 0
        if not ok:
            for p, s in saved.items(): open(p, 'w').write(s)
            if not names and not rest and len(left) == 1: print('BAD', m['name'])
            rest.append(m)
        else:
            names.append(m['name'])
    if not names:
        print('do not apply:', [m['name'] for m in rest]); break
    def run(p):
        c = subprocess.run([chk, '-repo', r, '-verif', '/verif', '-prop', p, '-noevidence'], env=env, capture_output=True, text=True)
        return p, c.returncode, ' | '.join(l.strip() for l in c.stdout.splitlines() if l.startswith('rule:') or l.startswith('  '))[:500]
    print('group', g, len(names), ' '.join(names), flush=True)
    with ThreadPoolExecutor(6) as ex:
        for p, rc, why in ex.map(run, props):
            if rc: bad += 1; print('  ALARM', p, rc, why, flush=True)
    shutil.rmtree(d)
    left = rest
    g += 1
print(bad, 'alarms')
