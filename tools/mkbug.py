"""mkbug.py SPEC.py : plant bugs.  SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Each is made in a scratch copy, built, tested and demonstrated; kept under /verif/seeded/<id> only when all of that holds."""
import json, os, shutil, subprocess, sys, runpy
TMP = '/tmp/w/bugcopy'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
base = json.load(open('/opt/vp/BASELINE.json'))

stable = set(base['stable'])

DEMO = '''#!/bin/sh
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only: continue
        shutil.rmtree(TMP, ignore_errors=True)
        sh('cp -a /repo %s' % TMP)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(TMP, f); s = open(p, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
            if s.count(old) != 1: print(b['id'], 'EDIT does not apply', f, s.count(old)); ok = False; break
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        if not ok: continue
        diff = subprocess.run('git diff', shell=True, capture_output=True, cwd=TMP).stdout
        d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        c = sh('%s/demo.sh' % d, cwd='/repo'); m = sh('%s/demo.sh' % d, cwd=TMP)
        # stable tests on the patched copy, through the real runner on /repo's layout
        j = '/tmp/w/junit_bug.xml'
        sh('cd %s/test && PYTHONPATH=%s:/opt/vp/plugins PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p fixed_seed --timeout=180 -o junit_family=xunit2 --deselect test/test_main.py::test_equalization --junitxml=%s .' % (TMP, TMP, j))
        sh('/usr/bin/python3 /opt/vp/results.py /tmp/w/bug_res.json junit:%s' % j)
        passed = set(json.load(open('/tmp/w/bug_res.json'))['passed'])
        broke = stable - passed
        if broke: print(b['id'], 'TESTS FAIL', broke)
        print(b['id'], 'clean', c.returncode, 'patched', m.returncode, 'OK' if c.returncode == 0 and m.returncode else 'BAD', (c.stderr[-300:] if c.returncode else ''))
    shutil.rmtree(TMP, ignore_errors=True)
main()
