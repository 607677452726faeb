"""Development tool: turn a bug definition into seeded/<id>/ after confirming it in a scratch copy.
   mkseed.py defs.py [id ...]     defs.py: BUGS = {id: dict(prop, file, edits=[(old,new)...], needs, breaks, demo)}"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

SEED = '/verif/seeded'
W = '/tmp/seedwork'
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; run with cwd = the repository, after a build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -Isrc "$here/demo.cc" _build/lib/libslalib.a -o "$t/demo" || exit 99
"$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build(d):
    r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" >/dev/null && ninja -C _build', cwd=d)
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]


def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    base = W + '/base'
    sh('git clone -q /repo %s' % base)
    ok, o = build(base)
    assert ok, o
    for i in ids:
        b = m.BUGS[i]
        d = W + '/' + i
        sh('cp -a %s %s' % (base, d))
        sh('rm -rf %s/_build/CMakeCache.txt' % d)
        edits = b['edits']
        good = True
        for e in edits:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = os.path.join(d, 'src', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'EDIT not unique/present (%d): %r' % (s.count(old), old))
                good = False
            s = s.replace(old, new)
            open(p, 'w').write(s)
        if not good:
            continue
        diff = sh('git diff', cwd=d).stdout
        out = os.path.join(W, 'out', i)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cc', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        ok, o = build(d)
        if not ok:
            print(i, 'BUILD FAILED', o)
            continue
        t = sh('./_build/bin/sla-test', cwd=d)
        if 'SLALIB validation PASSED.' not in t.stdout:
            print(i, 'TESTS FAIL', t.stdout[-600:])
            continue
        g = sh('bash %s/demo.sh' % out, cwd=base)
        x = sh('bash %s/demo.sh' % out, cwd=d)
        if g.returncode != 0 or x.returncode == 0 or x.returncode == 99:
            print(i, 'DEMO base=%d bug=%d' % (g.returncode, x.returncode), g.stdout[-300:], g.stderr[-500:], x.stdout[-300:])
            continue
        shutil.rmtree(os.path.join(SEED, i), ignore_errors=True)
        shutil.copytree(out, os.path.join(SEED, i))
        print(i, 'kept')
        shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
