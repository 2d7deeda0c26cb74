#!/usr/bin/env python3
"""Development tool: undoes each fix commit of /repo in a scratch copy and runs the check of its property, which must report it."""
import re, subprocess, sys, os, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
fixes = [re.match(r'fixed: property=(\w+) (\w+) (.*)', l).groups() for l in open(V + '/known-findings.txt') if l.startswith('fixed:')]
only = sys.argv[1:]
def one(x):
    p, c, t = x; w = '/tmp/rev-' + c
    sh('rm -rf %s; git clone -q /repo %s' % (w, w))
    r = sh('git -c user.name=x -c user.email=x@x -C %s revert --no-commit %s' % (w, c))
    if r.returncode: sh('rm -rf ' + w); return (p, c, 'CONFLICT', t)
    r = sh('MC_REPO=%s timeout 800 %s/check %s quick' % (w, V, p)); sh('rm -rf ' + w)
    o = r.stdout
    return (p, c, 'caught' if r.returncode == 1 and 'VIOLATION property=' + p in o else 'build failed' if 'build failed' in o else 'MISSED rc=%d' % r.returncode, t)
for x in fixes:
    if only and x[1] not in only and x[0] not in only: continue
    print(*one(x), flush=True)
