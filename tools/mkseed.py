#!/usr/bin/env python3
"""Turns NAME.seed descriptions into /verif/seeded/NAME after confirming them in scratch copies.

A .seed file:
  === <property>
  needs: ...
  breaks: ...
  @@@ <file in the repository>
  old text
  ---
  new text
  @@@ main.go          (the demonstration, built beside apkgen.go)
  ...
usage: mkseed.py FILE.seed...
"""
import sys, os, re, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
stable = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, shell=isinstance(cmd, str), **k)
def one(f):
    name = os.path.basename(f)[:-5]
    parts = re.split(r'(?m)^@@@ (\S+)\n', open(f).read())
    head = parts[0]
    meta = {'property': re.search(r'=== (\S+)', head).group(1), 'needs': re.search(r'(?m)^needs: (.*)', head).group(1),
            'what_it_breaks': re.search(r'(?m)^breaks: (.*)', head).group(1)}
    main, edits = None, []
    for p, b in zip(parts[1::2], parts[2::2]):
        if p == 'main.go': main = b
        else:
            o, n = [x[:-1] for x in re.split(r'(?m)^---\n', b)]
            edits.append((p, o, n))
    t = tempfile.mkdtemp(prefix='seed.')
    try:
        r = t+'/repo'
        sh(['git', 'clone', '-q', '/repo', r], '/')
        for p, o, n in edits:
            s = open(r+'/'+p).read()
            if s.count(o) != 1: return name, 'old text occurs %d times in %s' % (s.count(o), p)
            open(r+'/'+p, 'w').write(s.replace(o, n))
        patch = sh(['git', 'diff'], r).stdout
        # only lines of the original repository
        d = V+'/seeded/'+name
        os.makedirs(d, exist_ok=True)
        open(d+'/patch.diff', 'w').write(patch)
        json.dump(meta, open(d+'/meta.json', 'w'), indent=1)
        open(d+'/main.go', 'w').write(main)
        for x in ('apkgen.go', 'v.go', 'demo.sh'): shutil.copy(V+'/tools/apkgen/'+x, d+'/'+x)
        b = sh('go build ./... && gofmt -l *.go signingblock fullsailor/pkcs7', r)
        if b.returncode: return name, 'build: '+b.stderr
        for p, o, n in edits:  # removed lines must come from the base commit
            base = sh(['git', '-C', '/repo', 'show', '4b780f4:'+p], '/').stdout
            for l in patch.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in base.splitlines():
                    if p in patch: return name, 'changes a repaired line: '+l
        bl = sh('go test ./... -json 2>/dev/null', r).stdout
        failed = {(json.loads(l).get('Package','')+'/'+json.loads(l)['Test']) for l in bl.splitlines() if l.startswith('{') and json.loads(l).get('Action') == 'fail' and json.loads(l).get('Test')}
        ok = failed & set(stable['stable'])
        if ok: return name, 'stable tests fail: %s' % list(ok)[:3]
        bad = sh(['bash', d+'/demo.sh'], r)
        good = sh(['bash', d+'/demo.sh'], '/repo')
        if good.returncode != 0: return name, 'demo fails on the unchanged tree: '+(good.stdout+good.stderr)[-600:]
        if bad.returncode in (0, 3): return name, 'demo passes with the patch (rc %d): %s' % (bad.returncode, (bad.stdout+bad.stderr)[-800:])
        return name, 'confirmed (%s)' % (bad.stdout.strip().splitlines() or [''])[-1][:100]
    finally:
        shutil.rmtree(t)
with ThreadPoolExecutor(4) as ex:
    for n, r in ex.map(one, sys.argv[1:]): print(n, r, flush=True)
