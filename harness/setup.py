"""Build the framework: TLC overrides, then check them and the modules."""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

vlib.ensure_build()
mods = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith('.tla'))


def sany(f):
    p = subprocess.run(['java', '-cp', vlib.BUILD + ':' + vlib.TLA,
                        'tla2sany.SANY', f], cwd=vlib.SPEC,
                       capture_output=True, text=True)
    return f, p.returncode or 'Errors:' in p.stdout, p.stdout


with ThreadPoolExecutor(4) as ex:
    for f, bad, out in ex.map(sany, mods):
        if bad:
            sys.exit('SANY %s\n%s' % (f, out[-2000:]))
# the arithmetic overrides agree with the pure TLA+ definitions
r = vlib.tlc('FxTest', open(os.path.join(vlib.SPEC, 'FxTest.cfg')).read(),
             timeout=900, xss='200m')
if not r.ok:
    sys.exit('FxTest\n' + r.out[-3000:])
print('setup ok: %d modules parsed, FxTest %d states' % (len(mods),
                                                        r.distinct))
