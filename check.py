#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check could not decide."""
import sys, os, json, time, subprocess, threading, hashlib, shutil, queue
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import props
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)

def env():
    e = dict(os.environ)
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable')
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    return e
class Broken(Exception): pass
def run(cmd, cwd, e, log):
    with open(log, 'wb') as f: r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode: raise Broken('%s failed:\n%s' % (' '.join(cmd), ''.join(l for l in open(log, errors='replace').readlines()[-40:])))
def stale(target):
    # cargo goes by file times; force every crate whose source is under test to be rebuilt from what is on disk now
    for prof in ('release', 'debug'):
        fp = os.path.join(target, prof, '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('thermal', 'harness', 'replay')): shutil.rmtree(os.path.join(fp, d))
def tool(name):
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env(), capture_output=True, text=True).stdout.strip()
    for d, _, fs in os.walk(os.path.join(sysroot, 'lib', 'rustlib')):
        if name in fs and d.endswith('bin'): return os.path.join(d, name)
    raise Broken('no ' + name)
def build_symex(out):
    e = env(); e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'symex')
    run(['cargo', 'build', '--release', '--offline', '-q'], os.path.join(ROOT, 'symex'), e, os.path.join(BUILD, 'symex.log'))
    out['symex'] = os.path.join(BUILD, 'symex/release/symex')
def build_ir(out):
    t = os.path.join(BUILD, 'ir'); e = env(); e['CARGO_TARGET_DIR'] = t
    e['RUSTFLAGS'] = '-C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static'
    stale(t)
    deps = os.path.join(t, 'release/deps')
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith('harness-') and f.endswith('.bc'): os.remove(os.path.join(deps, f))
    run(['cargo', 'rustc', '--release', '--offline', '-q', '--', '--emit=llvm-bc'], os.path.join(ROOT, 'harness'), e, os.path.join(BUILD, 'ir.log'))
    bc = [f for f in os.listdir(deps) if f.startswith('harness-') and f.endswith('.bc')]
    if len(bc) != 1: raise Broken('expected one bitcode file, got %r' % bc)
    ll = os.path.join(BUILD, 'harness.ll')
    run([tool('llvm-dis'), os.path.join(deps, bc[0]), '-o', ll], ROOT, e, os.path.join(BUILD, 'dis.log'))
    out['ll'] = ll
def build_replay(out):
    t = os.path.join(BUILD, 'replay'); e = env(); e['CARGO_TARGET_DIR'] = t
    stale(t)
    run(['cargo', 'build', '--release', '--offline', '-q'], os.path.join(ROOT, 'replay'), e, os.path.join(BUILD, 'replay.log'))
    out['replay'] = os.path.join(t, 'release/replay')
def build(what=(build_symex, build_ir, build_replay)):
    os.makedirs(BUILD, exist_ok=True)
    out, errs = {}, []
    def go(f):
        try: f(out)
        except Exception as x: errs.append(x)
    ts = [threading.Thread(target=go, args=(f,)) for f in what]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise Broken(str(errs[0]))
    return out

class Replayer:
    def __init__(s, exe): s.exe = exe; s.n = 0; s.lock = threading.Lock()
    def many(s, items, timeout=60):
        """items: [(job, hex)] -> list of result dicts; a crash or hang is reported for the item that caused it"""
        res = []
        while len(res) < len(items):
            with s.lock: s.n += 1; f = os.path.join(BUILD, 'replay.%d.%d.out' % (os.getpid(), s.n))
            if os.path.exists(f): os.remove(f)
            inp = ''.join('%s | %s\n' % x for x in items[len(res):])
            why = None
            p = subprocess.Popen([s.exe, f], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (6 << 30, 6 << 30)))
            try: p.communicate(inp, timeout=timeout)
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); why = 'hang'
            got = [json.loads(l) for l in open(f)] if os.path.exists(f) else []
            if os.path.exists(f): os.remove(f)
            res += got
            if len(res) < len(items): res.append({'r': why or 'abort %s' % p.returncode, 'short': False, 'used': 0, 'outs': []})
        return res

class Pool:
    def __init__(s, symex, ll, jobs, opts):
        s.jobs = list(jobs); s.i = 0; s.lock = threading.Lock(); s.results = []; s.covs = []; s.errs = []; s.stop = False; s.running = {k: None for k in range(min(NPROC, len(jobs)))}
        s.opts = opts; s.symex = symex; s.ll = ll; s.cond = threading.Condition(s.lock)
        s.threads = [threading.Thread(target=s.work, args=(k,), daemon=True) for k in range(min(NPROC, len(s.jobs)))]
        [t.start() for t in s.threads]
    def work(s, k):
        p = subprocess.Popen([s.symex, s.ll] + ['%s=%s' % x for x in s.opts.items()] + ['cov=1'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(BUILD, 'symex.%d.err' % k), 'wb'), text=True)
        with s.lock: s.running[k] = p
        try:
            while not s.stop:
                with s.lock:
                    if s.i >= len(s.jobs): break
                    j = s.jobs[s.i]; s.i += 1
                p.stdin.write(j + '\n'); p.stdin.flush()
                l = p.stdout.readline()
                if not l:
                    if s.stop: return
                    raise Broken('engine died on job "%s" (status %s)' % (j, p.wait()))
                with s.cond: s.results.append(json.loads(l)); s.cond.notify_all()
            p.stdin.close()
            l = p.stdout.readline()
            if l:
                with s.lock: s.covs.append(json.loads(l))
            p.wait()
        except Exception as x:
            with s.cond:
                if not s.stop: s.errs.append(str(x))
        finally:
            if p.poll() is None: p.kill()
            with s.cond: s.running.pop(k, None); s.cond.notify_all()
    def halt(s):
        s.stop = True
        with s.lock: ps = [p for p in s.running.values() if p]
        for p in ps:
            try: p.kill()
            except Exception: pass

def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        try: build(); return 0
        except Broken as x: print(x); return 2
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--seed' in a: seed = int(a[a.index('--seed') + 1])
    verbose = '-v' in a
    t0 = time.time()
    P = props.PROPS[prop]
    limit = P.get('limit', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
    try:
        tools = build()
        rc = decide(prop, P, tier, seed, tools, t0, limit, verbose)
    except Broken as x:
        print('ERROR %s: %s' % (prop, x)); return 2
    return rc

def sig(v): return '%s|%s' % (v['kind'], v['what'])
def expected(v, r):
    if v['kind'] == 'assert': return r['r'] == 'assert ' + v['what'].split()[-1]
    if v['kind'] == 'hang' or v['what'].startswith('hang'): return r['r'] == 'hang' or r['r'].startswith('abort')
    return r['r'].startswith('panic') or r['r'].startswith('abort')

def decide(prop, P, tier, seed, tools, t0, limit, verbose):
    jobs = P['jobs'](tier)
    if not jobs: raise Broken('no jobs')
    opts = dict(secs=limit, samples=P.get('samples', 3), seed=seed, max_viol=8)
    opts.update(P.get('opts', {}))
    known = [k for k in json.load(open(os.path.join(ROOT, 'known-findings.json'))).get('findings', []) if k['property'] == prop]
    rp = Replayer(tools['replay'])
    pool = Pool(tools['symex'], tools['ll'], jobs, opts)
    tot = {}; covers = {}; asserts = {}; bad = []; unconfirmed = []; hits = {}; samples = []; validated = 0; err = None; perjob = []
    seen = 0
    while True:
        with pool.cond:
            while len(pool.results) == seen and not pool.errs and pool.running and time.time() - t0 < limit: pool.cond.wait(1)
            new = pool.results[seen:]; seen = len(pool.results); live = bool(pool.running) or seen < len(pool.results)
            if pool.errs: err = pool.errs[0]
        for r in new:
            if verbose: print('%7.1f %s %s paths=%d q=%d wall=%.1f viol=%d %s' % (time.time() - t0, r['job'], 'ok' if r['ok'] else 'ERR', r['paths'], r['queries'], r['wall_s'], len(r['violations']), r['error']), file=sys.stderr)
            for k in ('paths', 'forks', 'states', 'insts', 'branches', 'dom_decided', 'cache_hits', 'asserts', 'asserts_sym', 'asserts_const', 'concretised', 'symloads', 'xchecks', 'queries', 'sat', 'unsat', 'solver_s', 'infeasible'): tot[k] = tot.get(k, 0) + r[k]
            tot['vars_max'] = max(tot.get('vars_max', 0), r['vars']); tot['solver_max_s'] = max(tot.get('solver_max_s', 0), r['solver_max_s'])
            for k, v in r['covers'].items(): covers[k] = covers.get(k, 0) + v
            for k, v in r['assert_ids'].items(): asserts[k] = asserts.get(k, 0) + v
            perjob.append((r['wall_s'], r['job'], r['paths']))
            if not r['ok'] and not r['violations']: err = err or 'job "%s": %s' % (r['job'], r['error'])
            if r['violations']:
                res = rp.many([(r['job'], v['inputs']) for v in r['violations']])
                for v, n in zip(r['violations'], res):
                    v['job'] = r['job']; v['native'] = n['r']
                    if not expected(v, n) or 'harness/src' in n['r']: unconfirmed.append(v); continue
                    k = next((k for k in known if k['job'] == r['job'].split()[0] and k['what'] in (v['kind'] + ' ' + v['what'])), None)
                    if k: hits.setdefault(k['id'], (k, v))
                    else: bad.append(v)
            tr = [t for t in r['traces']]
            if tr and len(samples) < 12: samples.append(dict(job=r['job'], inputs=tr[0]['inputs'], outputs=len(tr[0]['outs'])))
            if tr and not r['violations']:
                res = rp.many([(r['job'], t['inputs']) for t in tr])
                for t, n in zip(tr, res):
                    validated += 1
                    if n['r'] != 'ok' or n['short'] or n['outs'] != t['outs']: err = err or 'engine and native run differ on "%s | %s": %s %s / %s' % (r['job'], t['inputs'], n['r'], str(n['outs'])[:300], str(t['outs'])[:300])
        if bad or err or unconfirmed: pool.halt(); break
        if not live and not new: break
        if time.time() - t0 > limit: err = err or 'time limit of %d s reached' % limit; pool.halt(); break
    if not bad and not err and len(perjob) != len(jobs): err = 'only %d of %d jobs finished' % (len(perjob), len(jobs))
    funs = sorted(set(f for c in pool.covs for f in c['functions']))
    files = {}
    for c in pool.covs:
        for f, n in c['lines'].items(): files[f] = max(files.get(f, 0), n)
    need = [str(c) for c in P.get('covers', lambda t: [])(tier)]
    missing = [c for c in need if c not in covers]
    missing_a = [str(a) for a in P.get('asserts', []) if str(a) not in asserts]
    if not bad and not err:
        if missing: err = 'vacuous: required situations never reached: %s' % missing
        elif missing_a: err = 'vacuous: assertions never reached: %s' % missing_a
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 1), violations=len(bad),
        coverage=dict(states=tot.get('states', 0), transitions=tot.get('branches', 0), traces_validated_against_impl=validated, samples=samples or [dict(job=jobs[0])],
            paths=tot.get('paths', 0), instructions=tot.get('insts', 0), jobs=len(perjob), job_list_sha=hashlib.sha256('\n'.join(jobs).encode()).hexdigest()[:16], job_examples=jobs[:5] + jobs[-3:],
            bounds=P['bounds'][tier], outside=P.get('outside', ''), stubs=P.get('stubs', []),
            functions_encoded=funs, lines_executed_per_file=files,
            queries=dict(solver_calls=tot.get('queries', 0), sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), cached=tot.get('cache_hits', 0), byte_domain_decided=tot.get('dom_decided', 0), byte_domain_crosschecked_with_z3=tot.get('xchecks', 0)),
            solver_s=round(tot.get('solver_s', 0), 2), solver_max_s=tot.get('solver_max_s', 0),
            assertions=dict(evaluated=tot.get('asserts', 0), symbolic=tot.get('asserts_sym', 0), constant=tot.get('asserts_const', 0), ids={k: asserts[k] for k in sorted(asserts, key=int)}),
            reachability={k: covers[k] for k in sorted(covers, key=int)}, max_symbolic_bytes=tot.get('vars_max', 0), slowest_jobs=[dict(s=a, job=b, paths=c) for a, b, c in sorted(perjob, reverse=True)[:5]],
            known_findings_hit=sorted(hits)),
        assumptions=P.get('assumptions', []) + ['LLVM IR of rustc (release profile, overflow checks on) is executed by /verif/symex; z3 decides path and assertion queries; sampled paths are compared with the native build'])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, v in hits.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if bad:
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        for n, v in enumerate(bad):
            f = os.path.join(ROOT, 'out', '%s.%d.json' % (prop, n))
            with open(f, 'w') as o: json.dump(dict(property=prop, job=v['job'], inputs=v['inputs'], kind=v['kind'], what=v['what'], native=v['native'], stack=v['stack'], meaning=props.MEANING.get(v['what'].split()[-1], ''), replay_cmd="printf '%s | %s\\n' | %s /dev/stdout" % (v['job'], v['inputs'], tools['replay'])), o, indent=1)
            print('  %s: %s %s; input %s of %s; native run: %s' % (prop, v['kind'], props.MEANING.get(v['what'].split()[-1], v['what']), v['inputs'], v['job'], v['native']))
            if n == 0: first = f
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    if unconfirmed: raise Broken('counterexample not reproduced natively: ' + json.dumps(unconfirmed[0]))
    if err: raise Broken(err)
    print('%s held: %d jobs, %d paths, %d states, %d solver calls (%.1f s), %d traces validated, %.1f s' % (prop, len(perjob), tot['paths'], tot['states'], tot['queries'], tot['solver_s'], validated, wall))
    return 0
sys.exit(main())
