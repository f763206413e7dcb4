"""plant.py BATCH.py : writes /verif/seeded/<id>/ for each bug in BATCH (list BUGS of dicts) and confirms the demo in a scratch copy.
keys: id prop edits[(file, old, new)] demo needs breaks [flags] [files{name:text}] [build: shell lines instead of default]"""
import sys, os, subprocess, shutil, json, runpy
def sh(c, **k): return subprocess.run(c, shell=True, **k)
R = '/tmp/sr'
def main():
    B = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    sh('rm -rf /tmp/sr; mkdir -p /tmp/sr; git -C /root/rx archive HEAD | tar x -C /tmp/sr; cd /tmp/sr; git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm x')
    for b in B:
        if only and b['id'] not in only: continue
        D = os.environ.get('SEEDDIR', '/root/w/seeded/') + b['id']; os.makedirs(D, exist_ok=True)
        for f, o, n, *ix in b['edits']:
            p = R + '/' + f; s = open(p).read(); assert s.count(o) == (ix[1] if ix else 1), (b['id'], f, s.count(o), o[:60]); pp = s.split(o); i = ix[0] if ix else 0; open(p, 'w').write(o.join(pp[:i+1]) + n + o.join(pp[i+1:]))
        d = subprocess.run('git diff', shell=True, cwd=R, capture_output=True, text=True).stdout; open(D + '/patch.diff', 'w').write(d)
        ext = b.get('ext', 'cpp'); open(D + '/demo.' + ext, 'w').write(b['demo'])
        if 'baton.h' in b['demo']: shutil.copy('/root/w/tools/baton.h', D)
        for f, t in b.get('files', {}).items(): open(D + '/' + f, 'w').write(t)
        cc = 'g++ -std=c++17' if ext == 'cpp' else 'gcc -std=gnu11'
        build = b.get('build') or '%s -O1 -g -w -march=native -pthread -I. %s -I"$D" "$D/demo.%s" -o "$T/demo" %s' % (cc, b.get('flags', ''), ext, b.get('libs', ''))
        open(D + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property held; nonzero: it was broken\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\n%s || exit 3\ncd "$T" && timeout 120 ./demo\n' % build); os.chmod(D + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(D + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % D, cwd=R, capture_output=True, text=True)
        sh('git checkout -q -- .', cwd=R); r0 = sh('bash %s/demo.sh' % D, cwd=R, capture_output=True, text=True)
        print(b['id'], 'clean', r0.returncode, 'patched', r1.returncode, 'OK' if r0.returncode == 0 and r1.returncode not in (0, 3) else 'BAD', (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', (r1.stdout + r1.stderr)[-200:], flush=True)
main()
