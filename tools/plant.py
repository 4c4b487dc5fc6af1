#!/usr/bin/env python3
"""Make and confirm planted changes:  plant.py DEFS.py [id ...]

DEFS.py defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo='python source')}.
Each change is applied to a scratch copy of /repo; it is kept below /verif/seeded only when the copy still builds, passes
every stable test, and the demonstration succeeds on /repo and fails on the copy.  Then all checks are run on the copy and
the outcome is printed (never used to select changes).
"""
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')
SH = '#!/bin/sh\n# exit 0 when the property holds in this scenario\nHERE=$(cd "$(dirname "$0")" && pwd)\n' \
     'PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n'


def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, stdin=subprocess.DEVNULL)


def script(name, copy, tmp):
    s = open('/opt/vp/' + name).read().replace('/opt/vp/reports', tmp + '/reports').replace("'/repo'", "'%s'" % copy)
    s = s.replace('cd /repo', 'cd ' + copy).replace('rootdir=/repo', 'rootdir=' + copy)
    p = os.path.join(tmp, name)
    open(p, 'w').write(s)
    return p


def plant(sid, d, checks=True):
    tmp = '/tmp/plant/' + sid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    copy = tmp + '/repo'
    try:
        run(['git', 'clone', '-q', '/repo', copy], '/tmp')
        for f, old, new in d['edits']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, 'REJECT edit does not match once (%d): %s' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], copy).stdout
        b = run(['bash', script('build.sh', copy, tmp)], copy)
        if b.returncode:
            return sid, 'REJECT build: ' + b.stdout[-300:]
        out = tmp + '/o.json'
        run(['bash', script('test.sh', copy, tmp), out], copy)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        lost = base - set(json.load(open(out))['passed'])
        if lost:
            return sid, 'REJECT tests: ' + ', '.join(sorted(x.split('::')[-1] for x in lost))
        dest = tmp + '/seed'
        os.makedirs(dest)
        shutil.copy(os.path.join(HERE, 'seedlib', 'chain.py'), dest)
        open(dest + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
        open(dest + '/demo.sh', 'w').write(SH)
        os.chmod(dest + '/demo.sh', 0o755)
        open(dest + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(dest + '/meta.json', 'w'), indent=1)
        r0 = run([dest + '/demo.sh'], '/repo', 300)
        r1 = run([dest + '/demo.sh'], copy, 300)
        if r0.returncode:
            return sid, 'REJECT demo fails on /repo: ' + r0.stdout[-700:]
        if not r1.returncode:
            return sid, 'REJECT demo passes with the change'
        final = os.path.join(VERIF, 'seeded', sid)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        res = 'kept (%s)' % (r1.stdout.strip().splitlines() or ['?'])[-1][:90]
        if checks:
            caught, odd = [], []
            for c in sorted(json.load(open(VERIF + '/MANIFEST.json'))['checks'], key=lambda c: c['property']):
                i = c['property']
                r = run([sys.executable, VERIF + '/check.py', i, '--repo', copy, '--out', tmp + '/ev-' + i], VERIF, 900)
                if r.returncode == 1:
                    caught.append(i)
                elif r.returncode:
                    odd.append('%s(rc %d)' % (i, r.returncode))
            res += '\n      own check %s: %s; caught by %s %s' % (d['prop'], 'CAUGHT' if d['prop'] in caught else '*** MISSED',
                                                                ' '.join(caught) or 'none', ' '.join(odd))
        return sid, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    ids = sys.argv[2:] or list(ns['SEEDS'])
    with ThreadPoolExecutor(8) as ex:
        for sid, res in ex.map(lambda i: plant(i, ns['SEEDS'][i]), ids):
            print('%-28s %s' % (sid, res), flush=True)


main()
