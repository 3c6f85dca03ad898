#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree, runs its cases over all cores and decides.

  check.py ID [--thorough] [--jobs N] [--only SUBSTR]     exit 0: held on everything explored, 1: violation
  check.py --replay FILE                                  re-runs the case and item of a reported violation
  check.py --build [ID...]                                builds only
"""
import sys, os, json, subprocess, hashlib, time, threading, fnmatch, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
OUT = os.path.join(HERE, 'out')
LIBS = '-lboost_thread -lboost_system -lboost_timer -lboost_chrono -lboost_filesystem -lboost_iostreams'.split()

def files_under(*roots):
    r = []
    for root in roots:
        if os.path.isfile(root): r.append(root)
        for d, ds, fs in os.walk(root):
            ds.sort()
            r += [os.path.join(d, f) for f in sorted(fs)]
    return r
def tree_hash(*roots):
    h = hashlib.sha256()
    for f in files_under(*roots):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

HDF = ('/usr/include/hdf5/serial', '/usr/lib/x86_64-linux-gnu/hdf5/serial')
class Err(Exception): pass
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Err('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))

def build(pid, jobs, log):
    """returns the list of executables"""
    spec = CHECKS[pid]
    key = tree_hash(os.path.join(REPO, 'libmpdata++'), os.path.join(HERE, 'mc'), os.path.join(HERE, 'mock'), os.path.join(HERE, 'check.py'), *[os.path.join(HERE, 'harness', f) for f in sorted({x['src'] for x in spec['exes']} | set(spec.get('deps', [])))]) + hashlib.sha256(repr(spec['exes']).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, pid)
    stamp = os.path.join(d, 'stamp')
    todo, links, exes = [], [], []
    for x in spec['exes']:
        exe = os.path.join(d, x['name'])
        exes.append(exe)
        mode = x.get('mode', 'seq')
        cxx = ['g++', '-std=c++17', x.get('opt', '-O1'), '-w', '-pthread', '-fopenmp'] + x.get('flags', []) 
        inc = []
        for i in x.get('inc', []): inc += ['-I', os.path.join(HERE, i)]
        inc += ['-I', REPO]
        if x.get('hdf5'): inc += ['-I', HDF[0]]
        objs = []
        for i in range(x.get('parts', 1)):
            o = '%s.%d.o' % (exe, i); objs.append(o)
            todo.append((x.get('weight', {}).get(i, 1), cxx + inc + (['-fsanitize=thread'] if mode == 'mc' else []) + ['-DPART=%d' % i, '-c', os.path.join(HERE, 'harness', x['src']), '-o', o]))
        for src in ['suite.cpp'] + (['mc_rt.cpp'] if mode in ('mc', 'mcplain') else []) + x.get('rt', []):
            o = '%s.%s.o' % (exe, src.replace('/', '_')); objs.append(o)
            todo.append((0, ['g++', '-std=c++17', '-O1', '-g', '-w', '-pthread'] + x.get('rtflags', []) + ['-I', os.path.join(HERE, 'mock')] * bool(x.get('rt')) + ['-c', os.path.join(HERE, 'mc', src), '-o', o]))
        l = ['g++', '-o', exe] + objs + ['-rdynamic', '-pthread', '-fopenmp' if mode == 'seq' else '-pthread', '-ldl']
        if mode in ('mc', 'mcplain'): l += ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']
        if x.get('hdf5'): l += ['-L', HDF[1], '-lhdf5_cpp', '-lhdf5']
        l += LIBS + x.get('libs', [])
        if mode in ('mc', 'mcplain'): l += ['-Wl,--no-as-needed', '-lgomp']
        links.append(l)
    if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(e) for e in exes): return exes
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t0 = time.time()
    todo.sort(key=lambda t: -t[0])
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(sh, c) for _, c in todo]: f.result()
        for f in [ex.submit(sh, l) for l in links]: f.result()
    for f in os.listdir(d):
        if f.endswith('.o'): os.unlink(os.path.join(d, f))
    open(stamp, 'w').write(key)
    log('built in %.0f s' % (time.time() - t0))
    return exes

def load_known():
    known, p = [], os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'): # finding: property=<id> key=<key> | <what fails>
                head, what = l[8:].split('|', 1)
                kv = dict(t.split('=', 1) for t in [head.strip().split(' ', 1)[0]]); kv['key'] = head.strip().split(' ', 1)[1].strip()[4:]
                known.append((kv['property'], kv['key'], what.strip()))
    return known

class Runner:
    def __init__(self, pid, thorough, known, budget):
        self.pid, self.thorough, self.known, self.deadline = pid, thorough, known, time.time() + budget
        self.viols, self.done, self.unfinished, self.errors = [], [], [], []
        self.lock = threading.Lock()
        self.stop = False
    def run(self, exe, case, item=None):
        if self.stop or time.time() > self.deadline:
            with self.lock: self.unfinished.append(case)
            return
        cmd = [exe, '--case', case] + (['--thorough'] if self.thorough else []) + (['--item', item] if item else [])
        env = dict(os.environ, SUITE_KNOWN='\x1f'.join(k for _, k, _ in self.known))
        env.pop('OMP_NUM_THREADS', None)
        scratch = os.path.join(OUT, 'scratch-%d-%d' % (os.getpid(), threading.get_ident()))
        os.makedirs(scratch, exist_ok=True); env['SUITE_SCRATCH'] = scratch
        err = os.path.join(scratch, 'stderr')
        left = max(10, self.deadline - time.time())
        t0 = time.time(); timed = False
        with open(err, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=env, cwd=scratch, start_new_session=True)
            try: o, _ = p.communicate(timeout=left)
            except subprocess.TimeoutExpired:
                timed = True
                os.killpg(p.pid, 9); o, _ = p.communicate()
        tail = open(err, 'rb').read()[-400:].decode('latin1')
        shutil.rmtree(scratch, ignore_errors=True)
        fin = False
        with self.lock:
            for l in o.decode('latin1').splitlines():
                if not l.startswith('@@'): continue
                try: j = json.loads(l[2:])
                except ValueError: continue
                j['exe'] = os.path.basename(exe)
                if 'viol' in j: self.viols.append(j)
                else: j['wall'] = round(time.time() - t0, 2); self.done.append(j); fin = True
            if timed: self.unfinished.append(case)
            elif not fin: self.errors.append('%s: ended with %s without a verdict: %s' % (case, p.returncode, tail))

def main():
    a = sys.argv[1:]
    jobs = min(8, os.cpu_count() or 8); only = None; thorough = os.environ.get('VERIF_TIER') == 'thorough'; rep = None
    if '--jobs' in a: i = a.index('--jobs'); jobs = int(a[i + 1]); del a[i:i + 2]
    if '--only' in a: i = a.index('--only'); only = a[i + 1]; del a[i:i + 2]
    if '--thorough' in a: a.remove('--thorough'); thorough = True
    if '--replay' in a: rep = json.load(open(a[a.index('--replay') + 1])); a = [rep['property']]; thorough = rep['tier'] == 'thorough'
    if '--build' in a:
        for p in a[1:] or CHECKS: build(p, jobs, lambda s: print(p, s, flush=True))
        return 0
    pid = a[0]; t0 = time.time()
    log = lambda s: print(s, flush=True)
    budget = 7200 if thorough else 780
    exes = build(pid, jobs, log)
    known = [k for k in load_known() if k[0] == pid]
    todo = []
    for e in exes:
        p = subprocess.run([e, '--list'] + (['--thorough'] if thorough else []), stdout=subprocess.PIPE, text=True)
        if p.returncode: raise Err('cannot list the cases of ' + e)
        for l in p.stdout.splitlines():
            c, n = l.split(' ', 1)
            if only and only not in n: continue
            if rep and (n != rep['case'] or os.path.basename(e) != rep['exe']): continue
            todo.append((-int(c), e, n))
    todo.sort()
    if not todo: raise Err('no cases')
    r = Runner(pid, thorough, known, budget - (time.time() - t0))
    with ThreadPoolExecutor(jobs) as ex:
        for _, e, n in todo: ex.submit(r.run, e, n, rep['item'] if rep else None)
    tot = {'states': 0, 'transitions': 0, 'traces': 0}; extra = {}; samples = []
    for d in sorted(r.done, key=lambda d: d['case']):
        for k in tot: tot[k] += d.get(k, 0)
        for k, v in d.get('extra', {}).items(): extra[k] = max(extra.get(k, 0), v) if k.startswith('max_') else extra.get(k, 0) + v
        if d.get('samples'): samples.append({'case': d['case'], 'samples': d['samples'][:2]})
    kn = {k: w for _, k, w in known}
    new = [v for v in r.viols if v['key'] not in kn]
    hit = sorted({v['key'] for v in r.viols if v['key'] in kn})
    spec = CHECKS[pid]
    n = len(samples); samples = [samples[i * n // 8] for i in range(8)] if n > 8 else samples
    capped = [k for k in extra if k.endswith('_beyond_cap') and extra[k]]
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'], 'samples': samples or ['(none)'],
                       'cases': len(todo), 'cases_completed': len(r.done), 'cases_not_reached': r.unfinished, 'counters': extra, 'bounds': spec.get('bounds', ''),
                       'exhaustive': not r.unfinished and not r.errors and not capped and not new},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    if not rep and not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d/%d cases, %d states, %d transitions, %d executions compared, %.0f s; %s' % (pid, len(r.done), len(todo), tot['states'], tot['transitions'], tot['traces'], time.time() - t0, ' '.join('%s=%d' % k for k in sorted(extra.items()))))
    if '-v' in a:
        for d in sorted(r.done, key=lambda d: -d['wall'])[:12]: log('  %.1f s  %s' % (d['wall'], d['case']))
    for k in hit: log('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    for u in r.unfinished: log('not reached within the time limit: ' + u)
    for i, v in enumerate(new[:20]):
        os.makedirs(OUT, exist_ok=True)
        f = os.path.join(OUT, '%s-%d.json' % (pid, i))
        v2 = dict(v, property=pid, tier=ev['tier']); v2.pop('viol')
        json.dump(v2, open(f, 'w'), indent=1)
        log('  case "%s", %s' % (v['case'], v['item'])); log('    ' + v['what'][:1500]); log('    key: ' + v['key'])
        log('VIOLATION property=%s replay=%s' % (pid, f))
    if new: return 1
    if r.errors:
        for e in r.errors: log('error: ' + e)
        return 2
    return 0

try: sys.exit(main())
except Err as e: print(e); sys.exit(2)
