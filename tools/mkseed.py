#!/usr/bin/env python3
"""tools/mkseed.py [ids...]: (re)creates seeded/<id>/ from tools/seeds.py and confirms each change in a scratch copy of /repo:
applies, builds, passes the stable tests, demo 0 without / nonzero with it; then runs the property's quick check against the copy."""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from seeds import SEEDS
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build: exit 0 when the property holds for this demonstration
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O0 -w %(flags)s-I include %(inc)s"$here/demo.cpp" src/*.cpp %(src)s-o "$tmp/demo" %(lib)s-llapack -lblas || exit 3
cd "$tmp" && ASAN_OPTIONS=detect_leaks=0 timeout 120 "$tmp/demo"
'''
PRE = '''#include "linalgcpp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
using namespace linalgcpp;
#define NEED(c) do { if (!(c)) { std::printf("violated: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
'''
MINI = '''#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <unistd.h>
namespace mc
{
inline void put(std::ostream&) {}
template <typename T, typename... R> void put(std::ostream& o, const T& t, const R&... r) { o << t; put(o, r...); }
template <typename... T> std::string S(const T&... t) { std::ostringstream o; put(o, t...); return o.str(); }
inline void fail(const std::string& s) { std::fprintf(stderr, "violated: %s\\n", s.c_str()); _exit(1); }
inline int choose(int) { return 0; }
inline int deviate(int) { return 0; }
}
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    os.makedirs(W, exist_ok=True)
    if os.path.isdir(W + '/repo'): sh('git -C %s/repo checkout -q . ; git -C %s/repo pull -q' % (W, W))
    else: sh('git clone -q /repo %s/repo' % W)
    r = W + '/repo'
    assert sh('git -C /repo rev-parse HEAD').stdout == sh('git -C %s rev-parse HEAD' % r).stdout, 'scratch copy is not at HEAD'
    return r
def build_and_test(r):
    b = sh('cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLINALGCPP_ENABLE_METIS=ON -DLINALGCPP_ENABLE_SUITESPARSE=ON -DLINALGCPP_ENABLE_MPI=OFF -DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON >/dev/null && ninja -C _build -j8' % r)
    if b.returncode: return 'build failed ' + b.stdout[-1500:]
    t = sh('ctest --test-dir %s/_build -j8 --timeout 300' % r)
    if t.returncode: return 'tests failed ' + t.stdout[-800:]
    R = W + '/rep'; os.makedirs(R, exist_ok=True)
    names = sh('python3 /opt/vp/split_main.py %s/tests/test_linalg.cpp %s/driver.cpp' % (r, R)).stdout.split()
    d = sh('g++ -std=c++11 -g -w -I%s/include -I%s/tests %s/driver.cpp %s/_build/liblinalgcpp.a -llapack -lblas -o %s/driver' % (r, r, R, r, R))
    if d.returncode: return 'driver failed'
    for n in names:
        os.makedirs(R + '/w', exist_ok=True)
        if sh('cd %s/w && timeout 100 ../driver %s' % (R, n)).returncode: return 'test %s failed' % n
    return ''
def main():
    ids = sys.argv[1:]
    quick = '--nocheck' in ids
    ids = [i for i in ids if not i.startswith('--')]
    r = fresh()
    for s in SEEDS:
        if ids and s['id'] not in ids and s['prop'] not in ids: continue
        d = HERE + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        sh('git -C %s checkout -q .' % r)
        for f, a, b in s['edits']:
            t = open(r + '/' + f).read()
            if t.count(a) != 1: print(s['id'], 'EDIT DOES NOT APPLY (%d) in' % t.count(a), f, repr(a[:60])); break
            open(r + '/' + f, 'w').write(t.replace(a, b))
        else:
            patch = sh('git -C %s diff' % r).stdout
            open(d + '/patch.diff', 'w').write(patch)
            for f in sorted({e[0] for e in s['edits']}):   # only lines of the original repository may change
                for h in re.finditer(r'^@@ -(\d+),?(\d*) ', sh('git -C %s diff -U0 -- %s' % (r, f)).stdout, re.M):
                    a, n = int(h.group(1)), int(h.group(2) or 1)
                    if n:
                        bl = sh('git -C %s blame -s -L %d,%d HEAD -- %s' % (r, a, a + n - 1, f)).stdout
                        new = [l for l in bl.split('\n') if l and not l.startswith('^') and l.split(')', 1)[1].strip()]
                        if new: print('   touches lines of fix commits:', s['id'], new[:3])
            m = s.get('mod', '')
            inc = src = lib = ''
            if m == 'sparsesolver': inc, src, lib = '-I modules/sparsesolver/include -I/usr/include/suitesparse ', 'modules/sparsesolver/src/*.cpp ', '-lumfpack '
            if m == 'parlinalgcpp':
                # the stand-ins for MPI and hypre lie beside the demonstration, with a small replacement of the explorer's interface
                inc, src = '-fsanitize=address -I "$here" -I modules/parlinalgcpp/include ', 'modules/parlinalgcpp/src/*.cpp "$here/ranks.cpp" "$here/hypre.cpp" '
                for x in os.listdir(HERE + '/standin'): shutil.copy(HERE + '/standin/' + x, d)
                open(d + '/mc.hpp', 'w').write(MINI)
            if m == 'partition': inc, lib = '-I modules/partition/include ', '-lmetis '
            pre = PRE + ('#include "sparsesolve.hpp"\n' if m == 'sparsesolver' else '#include "partition.hpp"\n' if m == 'partition' else '#include "parlinalgcpp.hpp"\n#include "ranks.hpp"\n' if m == 'parlinalgcpp' else '')
            open(d + '/demo.cpp', 'w').write(pre + s['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % dict(inc=inc, src=src, lib=lib, flags=s.get('flags', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            e = build_and_test(r)
            bad = sh('cd %s && bash %s/demo.sh' % (r, d))
            chk = ''
            if not quick:
                t0 = time.time()
                c = sh('%s/check %s quick' % (HERE, s['prop']), env=dict(os.environ, MC_REPO=r))
                v = [l for l in c.stdout.split('\n') if 'violated in' in l or 'VIOLATION' in l or 'failed' in l]
                chk = 'check exit %d %.0fs %s' % (c.returncode, time.time() - t0, (v[0] if v else c.stdout[-200:])[:150])
            sh('git -C %s checkout -q .' % r)
            good = sh('cd %s && bash %s/demo.sh' % (r, d))
            ok = not e and good.returncode == 0 and bad.returncode not in (0, 3)
            print(('OK   ' if ok else 'BAD  ') + s['id'], s['prop'], e, 'demo', good.returncode, bad.returncode, chk)
            if not ok: print('   ', good.stdout[-300:], '|', bad.stdout[-300:])
            sys.stdout.flush()
    sh('git -C %s checkout -q .' % r)
main()
