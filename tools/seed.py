#!/usr/bin/env python3
"""seed.py SPEC.py [...]: confirm a planted bug in a scratch copy and write seeded/<id>/.
SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text run with cwd = repository)."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests(d):
    os.makedirs(d + '/_pl')
    t = open('/opt/vp/lib/skip_testing_init.py').read().replace('/repo/', d + '/')
    open(d + '/_pl/skip_testing_init.py', 'w').write(t)
    env = dict(os.environ, PYTHONPATH=d + '/_pl:' + d, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-c', '/dev/null', '--rootdir=' + d, '-p', 'skip_testing_init', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300', '-o', 'junit_family=xunit2',
                        '--continue-on-collection-errors', '--junitxml=' + d + '/junit.xml', 'Testing'], cwd=d, env=env, capture_output=True, text=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(d + '/junit.xml').getroot().iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(base - ok)


def one(path):
    g = {}
    exec(open(path).read(), g)
    i = g['ID']
    d = tempfile.mkdtemp(prefix='seed_')
    sh('cp -a /repo/. %s/' % d)
    try:
        for f, o, n in g['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(o) < 1:
                return print(i, 'EDIT NOT FOUND', f, o[:60])
            open(p, 'w').write(s.replace(o, n, 1))
        diff = sh('git diff', cwd=d).stdout
        if not diff.strip():
            return print(i, 'no diff')
        out = os.path.join(V, 'seeded', i)
        dd = tempfile.mkdtemp(prefix='demo_')
        open(dd + '/demo.py', 'w').write('import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter("ignore")\n' + g['DEMO'].strip() + '\n')
        open(dd + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        a = sh('bash %s/demo.sh' % dd, cwd='/repo')
        b = sh('bash %s/demo.sh' % dd, cwd=d)
        if a.returncode != 0 or b.returncode == 0:
            shutil.rmtree(dd)
            return print(i, 'DEMO unchanged rc', a.returncode, (a.stdout + a.stderr)[-400:], '| changed rc', b.returncode, (b.stdout + b.stderr)[-200:])
        t = tests(d)
        if t:
            shutil.rmtree(dd)
            return print(i, 'TESTS FAIL', t)
        os.makedirs(out, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(dd, f), out)
        shutil.rmtree(dd)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        r = sh('python3 %s/check.py %s' % (V, g['PROP']), env=dict(os.environ, PYNITE_ROOT=d))
        print(i, g['PROP'], 'kept; demo:', b.stdout.strip()[-100:], b.stderr.strip()[-100:], '| check rc', r.returncode, [x[:200] for x in r.stdout.splitlines() if 'violated by' in x][:1])
    finally:
        shutil.rmtree(d)


for p in sys.argv[1:]:
    one(p)
