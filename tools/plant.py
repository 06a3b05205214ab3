#!/usr/bin/env python3
"""plant.py BUGFILE.py [ids]: confirms planted bugs in a scratch copy of /repo and files them under seeded/.
BUGFILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ body of main, needs, breaks)]."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/plant.scratch'
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input, nonzero otherwise; run in the repository root after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -Isrc "$d/demo.cc" _build/lib/libslalib.a -lpthread -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
# the same with every translation unit compiled in the thread-safe configuration
TDEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input, nonzero otherwise; run in the repository root after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r src "$t/src" || exit 3
sed -i 's/define SLALIB_THREAD_SAFE 0/define SLALIB_THREAD_SAFE 1/' "$t/src/slalib.h"
ls "$t"/src/*.cc | xargs -P 8 -n 12 sh -c 'cd "$0/src" && g++ -std=c++17 -O1 -w -c "$@"' "$t" || exit 3
g++ -std=c++17 -O1 -w -I"$t/src" "$d/demo.cc" "$t"/src/*.o -lpthread -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
HEAD = '''#include <slalib.h>
#include <cmath>
#include <cstdio>
#include <cstring>
using namespace sla;
[[maybe_unused]] static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
[[maybe_unused]] static const double PI = 3.14159265358979323846;
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(root):
    r = run('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" '
            '-DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build' % (root, root, root), shell=True)
    return r


def fresh():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    run(['git', 'clone', '-q', '/repo', SCR])
    r = build(SCR)
    assert r.returncode == 0, r.stdout[-2000:]


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    fresh()
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        run(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
        build(SCR)
        out = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.cc'), 'w').write(HEAD + b.get('pre', '') + 'int main() {\n' + b['demo'].rstrip() + '\n}\n')
        open(os.path.join(out, 'demo.sh'), 'w').write(TDEMO if b.get('threads') else DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r0 = run(['bash', os.path.join(out, 'demo.sh')], cwd=SCR)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b['id'], 'EDIT does not match once:', f, t.count(old), repr(old[:50]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            shutil.rmtree(out)
            continue
        d = run(['git', '-C', SCR, 'diff']).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        rb = build(SCR)
        if rb.returncode:
            print(b['id'], 'DOES NOT BUILD', rb.stdout[-800:])
            shutil.rmtree(out)
            continue
        rt = run([SCR + '/_build/bin/sla-test'])
        passed = 'SLALIB validation PASSED.' in rt.stdout and rt.returncode == 0
        r1 = run(['bash', os.path.join(out, 'demo.sh')], cwd=SCR)
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and passed
        env = dict(os.environ, VERIF_REPO=SCR)
        c = run([sys.executable, os.path.join(HERE, 'check.py'), b['property']], env=env, cwd=HERE)
        print('%-28s %s demo %d->%d tests %s | check %s rc=%d %s' % (
            b['id'], 'VALID' if good else 'INVALID', r0.returncode, r1.returncode, passed, b['property'], c.returncode,
            'CAUGHT' if c.returncode == 1 else 'MISSED'))
        if r0.returncode or r1.returncode == 3:
            print(r0.stdout[-600:], r1.stdout[-600:])
        if not passed:
            print(rt.stdout[-400:])
        for l in c.stdout.split('\n')[:8]:
            if c.returncode == 1 and ('where' in l or 'e.g.' in l) or c.returncode != 1:
                print('      ', l[:230])
        if not good:
            shutil.rmtree(out)
    run(['git', '-C', SCR, 'checkout', '-q', '--', '.'])


main()
