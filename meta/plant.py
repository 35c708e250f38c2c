#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes seeded/<id>/. usage: plant.py specs.py [id...]
specs.py defines SEEDS: list of dict(id, property, needs, breaks, edits=[(file, old, new, nth)], demo=C++ main body)."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = '/tmp/pl'
PRE = r'''
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <complex>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#define private public
#define protected public
'''
SH = r'''#!/bin/bash
# cwd: the repository, built in _build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -O1 -w -I include -I source -I source/himalaya -I /usr/include/eigen3 "$here/demo.cpp" \
   _build/libHimalaya.a _build/libDSZ.a -lgfortran -lm -lpthread -o "$d/demo" || exit 3
timeout 120 "$d/demo"
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def build():
    return sh('export CC=gcc CXX=g++ FC=gfortran; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_EXAMPLES=ON '
              '-DENABLE_MATHEMATICA=OFF && ninja -C _build -j8', cwd=PL)

def prepare():
    if not os.path.isdir(PL):
        sh('git clone -q /repo %s' % PL)
    sh('git fetch -q /repo && git checkout -q -f FETCH_HEAD', cwd=PL)
    r = build()
    if r.returncode:
        sys.exit(r.stdout[-2000:])

def tests():
    sh('python3 /opt/vp/run_tests.py %s/_build /tmp/pl.json' % PL)
    r = json.load(open('/tmp/pl.json'))
    need = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return need - set(r['passed'])

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    prepare()
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        if len(sys.argv) <= 2 and os.path.exists('%s/seeded/%s/meta.json' % (V, s['id'])):
            continue
        d = '/tmp/seed_' + s['id']
        os.makedirs(d, exist_ok=True)
        body = s['demo'] if 'int main' in s['demo'] else s['demo'] + ''
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        if '@' in body:
            open(d + '/demo.cpp', 'w').write(PRE + ns.get('COMMON', '') + body.replace('@', '0'))
            a = sh('bash %s/demo.sh' % d, cwd=PL)
            for x in re.findall(r': (\S+), expected 0$', a.stdout, re.M):
                body = body.replace('@', x, 1)
        open(d + '/demo.cpp', 'w').write(PRE + ns.get('COMMON', '') + body)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=PL)
        if a.returncode != 0:
            print(s['id'], 'demo FAILS on clean tree', a.stdout[-600:], a.stderr[-800:])
            continue
        ok = True
        for e in s['edits']:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 0
            t = open(PL + '/' + f).read().split(old)
            if len(t) - 1 <= n:
                print(s['id'], 'edit not found', f, old)
                ok = False
                break
            open(PL + '/' + f, 'w').write(old.join(t[:n + 1]) + new + old.join(t[n + 1:]))
        if ok:
            r = build()
            if r.returncode:
                print(s['id'], 'BUILD fails', r.stdout[-1500:])
                ok = False
            else:
                miss = tests()
                b = sh('bash %s/demo.sh' % d, cwd=PL)
                if miss:
                    print(s['id'], 'tests FAIL', sorted(miss)[:4])
                    ok = False
                if b.returncode == 0:
                    print(s['id'], 'demo does not notice', b.stdout[-500:])
                    ok = False
        if ok:
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=PL).stdout)
            sh('mkdir -p {0}/seeded/{1} && cp {2}/* {0}/seeded/{1}/'.format(V, s['id'], d))
            print(s['id'], 'ok;', b.stdout.strip().split('\n')[-1][:150])
        sh('git checkout -q -- .', cwd=PL)

main()
