#!/usr/bin/env python3
"""Mutation campaign (development tool; no registered check uses it).
run.py exclude | build [props] | cover [props] | kill [props] | report
All mutants are compiled into one scratch copy (/tmp/mut/repo, made by mut.cpp) and selected by the environment variable MCM."""
import resource, concurrent.futures as cf, glob, json, os, re, subprocess, sys, time, importlib.util, threading
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = '/tmp/mut'; R = W + '/repo'
os.environ['MC_REPO'] = R
src = open(V + '/check').read().rsplit('\nmain()', 1)[0].replace("os.path.dirname(os.path.abspath(__file__))", repr(V), 1)
ck = {'__name__': 'ck', '__file__': V + '/check'}; exec(compile(src, 'check', 'exec'), ck)
PROPS = ck['PROPS']
DEF = ['C09', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C33', 'C34', 'C10', 'C18', 'C29']
FL = ['-std=gnu++17', '-O1', '-g1', '-w', '-I' + V + '/tools/mutate']
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def muts():
    m = {}
    for l in open(W + '/list.tsv'):
        k, kind, f, line, t = l.rstrip('\n').split('\t'); m[int(k)] = (kind, f, int(line), t)
    return m
def exclude():
    exc = set(int(x) for x in open(W + '/excl').read().split())
    while True:
        sh('bash %s/gen.sh' % W); m = muts()
        bad = set()
        def syntax(c): return sh(c).stdout
        cs = ['g++ -std=gnu++17 -w -fsyntax-only -fmax-errors=100000 -I%s/tools/mutate -I%s/include -I%s/modules/partition/include -I%s/modules/sparsesolver/include -I/usr/include/suitesparse %s/all.cpp' % (V, R, R, R, W)]
        for p in DEF:
            P, cxx, inc, flags, files = ck['plan'](p)
            cs.append(' '.join(['g++ -w -fsyntax-only -fmax-errors=100000'] + ['-std=gnu++17', '-I%s/tools/mutate' % V] + inc + [V + '/' + x for x in P['src']]))
        with cf.ThreadPoolExecutor(8) as ex: o = '\n'.join(ex.map(syntax, cs))
        for l in o.split('\n'):
            if 'error' not in l: continue
            x = re.match(r'(?:/tmp/mut/)?repo/([^:]+):(\d+):(\d+):', l)
            if not x: continue
            ids = [int(i) for i in re.findall(r'mcm::on\((\d+)\)', l)]
            here = [k for k, v in m.items() if v[1] == x.group(1) and v[2] == int(x.group(2)) and k not in exc]
            line = open(R + '/' + x.group(1)).read().split('\n')[int(x.group(2)) + 1]
            near = [int(y.group(1)) for y in re.finditer(r'mcm::\w+\((\d+)', line) if y.start() < int(x.group(3)) and int(y.group(1)) in here and m[int(y.group(1))][0].startswith('var')]
            ids = [i for i in ids if i not in exc] or near[-1:] or [k for k in here if m[k][0].startswith('var')] or here
            bad |= set(ids)
        print('errors', o.count('error:'), 'excluding', len(bad), flush=True)
        if o.count('error:') and not bad: print([l for l in o.split('\n') if 'error' in l][:20]); return
        if not bad: break
        exc |= bad; open(W + '/excl', 'w').write(' '.join(map(str, sorted(exc))))
    print('excluded', len(exc))
def exe(p): return W + '/bin/' + p
def build(ps):
    os.makedirs(W + '/bin', exist_ok=True)
    sh('g++ -O1 -c %s/tools/mutate/mcm.cpp -o %s/mcm.o' % (V, W))
    ck['HERE'] = V
    for p in ps: PROPS[p]['base'] = FL; PROPS[p]['ld'] = ['-g1']; PROPS[p]['link'] = [W + '/mcm.o'] + PROPS[p].get('link', [])
    h = V + '/framework'
    # framework and harness stay where they are; objects go to /tmp/mut
    real = os.path.join
    os.path.join = lambda *a: W + '/build' if a == (V, 'build') else real(*a)
    ck['build_all']([(exe(p), p, None) for p in ps])
    os.path.join = real
def run(p, k, timeout, cover=None, j=1):
    P = PROPS[p]; env = ck['environment'](P); env['MCM'] = str(k); env['MALLOC_PERTURB_'] = '90'
    if cover: env['MCM_COVER'] = cover
    d = W + '/replays/%s-%d' % (p, k); os.makedirs(d, exist_ok=True); t = time.time()
    try:
        pr = subprocess.Popen(ck['command'](exe(p), p, 'quick', P, d) + ['-j', str(j)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=d, start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
        out, _ = pr.communicate(timeout=timeout); rc = pr.returncode
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9); pr.communicate(); rc = 'timeout'; out = ''
    sh('rm -rf ' + d)
    return rc, time.time() - t, out
def cover(ps):
    os.makedirs(W + '/cov', exist_ok=True); base = json.load(open(W + '/base.json')) if os.path.exists(W + '/base.json') else {}
    def one(p):
        c = W + '/cov/' + p
        if os.path.exists(c): os.remove(c)
        rc, t, out = run(p, 0, 900, c); base[p] = t; b = open(c, 'rb').read(); print(p, rc, '%.1f s' % t, sum(x & 1 for x in b), 'reached', flush=True)
        if rc: print(out[-600:])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, ps))
    json.dump(base, open(W + '/base.json', 'w'))
lock = threading.Lock()
def kill(ps):
    m = muts(); exc = set(int(x) for x in open(W + '/excl').read().split()); base = json.load(open(W + '/base.json'))
    cov = {p: open(W + '/cov/' + p, 'rb').read() for p in ps}
    done = {}
    rf = W + '/results.jsonl'
    if os.path.exists(rf):
        for l in open(rf):
            x = json.loads(l); done.setdefault(x['k'], {}).update(x['r'])
    order = sorted(ps, key=lambda p: base[p])
    todo = [k for k in m if k not in exc and not any(v not in (0,) for v in done.get(k, {}).values())]
    F = os.environ.get('MUT_FILES')
    if F: todo = [k for k in todo if re.search(F, m[k][1])]
    print(len(todo), 'to do', flush=True); n = [0, 0]
    def one(k):
        r = {}
        for p in order:
            if not cov[p][k] & 1 or p in done.get(k, {}): continue
            rc, t, out = run(p, k, max(20, 4 * base[p] + 10)); r[p] = rc
            if rc != 0: break
        with lock:
            n[0] += 1; n[1] += all(v == 0 for v in r.values())
            open(rf, 'a').write(json.dumps(dict(k=k, r=r)) + '\n')
            if n[0] % 100 == 0: print(time.strftime('%H:%M:%S'), n, flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '8'))) as ex: list(ex.map(one, todo))
def report():
    m = muts(); exc = set(int(x) for x in open(W + '/excl').read().split()); done = {}
    for l in open(W + '/results.jsonl'):
        x = json.loads(l); done.setdefault(x['k'], {}).update(x['r'])
    killed = [k for k, r in done.items() if any(v != 0 for v in r.values())]; surv = [k for k in done if k not in set(killed)]
    print('mutants', len(m) - len(exc), 'tried', len(done), 'killed', len(killed), 'survived', len(surv), 'of these never reached', sum(1 for k in surv if not done[k]))
    for k in sorted(surv, key=lambda k: (m[k][1], m[k][2], k)): print(k, *m[k], '' if done[k] else 'UNREACHED', sep='\t')
a = sys.argv[2:] or DEF
if sys.argv[1] in ('exclude', 'report'): globals()[sys.argv[1]]()
else:
    globals()[sys.argv[1]](a)
