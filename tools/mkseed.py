"""tools/mkseed.py SPEC.py : build /verif/seeded/<id>/ from a spec (id, prop, needs, what, edits=[(file, old, new)], demo)
The change is made in a scratch clone; the demo must pass without and fail with it."""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
for s in spec['SEEDS']:
    wt = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.py', 'w').write(s['demo'])
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    ok = subprocess.run(['bash', f'{d}/demo.sh'], cwd=wt, capture_output=True, text=True)
    for f, old, new in s['edits']:
        p = f'{wt}/src/dga/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True, check=True).stdout)
    bad = subprocess.run(['bash', f'{d}/demo.sh'], cwd=wt, capture_output=True, text=True)
    print(s['id'], 'clean', ok.returncode, 'patched', bad.returncode, (ok.stderr[-300:] if ok.returncode else ''), bad.stderr[-160:].replace('\n', ' '))
    shutil.rmtree(wt)
