"""mkseed.py <spec.py>: create and confirm /verif/seeded/<id> from a spec.

The spec defines id, prop, needs, breaks, edits = [(file, old, new), ...] and
demo (python source, exits non-zero on the broken tree).  Reports which of the
given checks catch it: mkseed.py spec.py C01 C02 ...
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
out = '/verif/seeded/' + ns['id']
d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
r = os.path.join(d, 'repo')
try:
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'],
                          cwd=r, capture_output=True, text=True).stdout.strip()
    for f, old, new in ns['edits']:
        p = os.path.join(r, 'spaudiopy', f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: pattern found %d times: %r' % (f, s.count(old), old))
        o = subprocess.run(['git', 'show', base + ':spaudiopy/' + f], cwd=r,
                           capture_output=True, text=True).stdout
        if not any(l in o.splitlines() for l in old.splitlines() if l.strip()):
            sys.exit('changes only lines of a fix commit')
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True,
                          text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(ns['demo'])
    open(out + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
        'MPLCONFIGDIR="$(mktemp -d)"\n'
        'PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        'rc=$?\nrm -rf "$MPLCONFIGDIR"\nexit $rc\n')
    json.dump({'property': ns['prop'], 'needs': ns['needs'],
               'what_it_breaks': ns['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo',
                       capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=r,
                       capture_output=True, text=True)
    e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1',
             MPLBACKEND='Agg')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                        'no:cacheprovider', '--timeout=300', '-x', 'tests'],
                       cwd=r, capture_output=True, text=True, env=e)
    tail = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-300:]
    print(ns['id'], 'clean', a.returncode, 'broken', b.returncode, '|', tail)
    if a.returncode or not b.returncode:
        print(a.stdout[-800:], a.stderr[-1500:], b.stdout[-500:])
    for c in sys.argv[2:]:
        v = subprocess.run(['/opt/venv/bin/python',
                            '/verif/harness/check.py', c],
                           capture_output=True, text=True,
                           env=dict(os.environ, SPA_REPO=r))
        print('  ', c, v.returncode, [x[:230] for x in v.stdout.splitlines()
                                      if 'event' in x or 'ERROR' in x][:2])
finally:
    shutil.rmtree(d, ignore_errors=True)
