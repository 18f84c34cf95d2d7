"""Runs verification jobs in forked children, combines them with the concrete search, decides the verdict."""
import os, sys, time, json, pickle, select, signal, random, traceback, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')

class Child:
    def __init__(self, name, f, limit):
        self.name = name; self.t0 = time.time(); self.limit = limit; self.buf = b''
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                sys.setrecursionlimit(100000)
                try: res = ('ok', f())
                except BaseException as e:
                    res = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                with os.fdopen(w, 'wb') as o: pickle.dump(res, o)
            finally:
                os._exit(0)
        os.close(w)
        self.pid = pid; self.fd = r
    def kill(self):
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
    def finish(self):
        os.close(self.fd)
        try: os.waitpid(self.pid, 0)
        except OSError: pass
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError: pass
        try: return pickle.loads(self.buf)
        except Exception: return ('exc', 'child ended without a result')

def run_jobs(jobs, ncpu, deadline, on_result):
    """jobs: list of (name, callable, seconds limit)"""
    pend = list(jobs); live = []
    while pend or live:
        while pend and len(live) < ncpu and time.time() < deadline:
            n, f, lim = pend.pop(0)
            live.append(Child(n, f, lim))
        if time.time() >= deadline and pend:
            for n, f, lim in pend: on_result(n, ('exc', 'time limit: not started'))
            pend = []
        if not live: break
        rd, _, _ = select.select([c.fd for c in live], [], [], 0.5)
        now = time.time()
        for c in list(live):
            done = False
            if c.fd in rd:
                d = os.read(c.fd, 1 << 20)
                if d: c.buf += d
                else: done = True
            if not done and (now - c.t0 > c.limit or now > deadline + 5):
                c.kill(); live.remove(c); c.finish()
                on_result(c.name, ('exc', 'time limit')); continue
            if done:
                live.remove(c); on_result(c.name, c.finish())

def known_findings(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop): r.append(json.loads(l.split(' ', 2)[2]))
    except OSError: pass
    return r

def is_known(v, kf):
    """a listed finding is identified by target and exact input line"""
    for k in kf:
        if k.get('target') == v['target'] and k.get('line') == v['line']: return k
    return None

def check(prop, tier='quick', seed=1):
    from dv import props, search, native
    t0 = time.time()
    thorough = tier == 'thorough'
    deadline = t0 + (5400 if thorough else 560)
    spec = props.PROPS[prop]
    tasks = []; problems = []; searches = []
    jobs = []
    def do_search(sd, budget, hints=None):
        def f():
            if hints: search.HINTS[:] = hints
            b = native.Build(); v = []; st = {}
            try: search.run(prop, b, sd, budget, v, st)
            finally: b.close()
            st['errors'] = {str(k): x for k, x in b.errors.items()}
            st['violations'] = v[:50]
            return st
        return f
    if prop in search.GEN and search.GEN[prop]:
        jobs.append(('search', do_search(seed, 300 if thorough else spec.get('search', 6)), 900 if thorough else 150))
    load_err = []
    try: js = spec['jobs'](tier)
    except Exception as e:
        js = []; load_err.append('%s: %s' % (type(e).__name__, e)); problems.append(('load', 'program could not be loaded: %s\n%s' % (e, traceback.format_exc()[-800:])))
    jobs += js
    def on_result(name, r):
        if name == 'search' or name.startswith('search '):
            if r[0] == 'ok': searches.append(r[1])
            else: problems.append((name, r[1]))
            return
        if r[0] == 'ok': tasks.extend(r[1] if isinstance(r[1], list) else [r[1]])
        else: problems.append((name, r[1]))
    run_jobs(jobs, 8, deadline, on_result)
    failed = [dict(f, unit=t['name']) for t in tasks for f in t['failed']]
    viol = [v for s in searches for v in s['violations']]
    undecided = [u for t in tasks for u in t['unsupported']]
    if (failed or undecided) and not viol and prop in search.GEN and search.GEN[prop]:
        # turn the failed obligation into a failing input: counterexample values seed the generators
        hints = set()
        for f in failed:
            for x in (f.get('model') or {}).values():
                v = int(x, 16)
                hints.add(v)
        hints = sorted(hints)[:400]
        extra = [('search hints %d' % i, do_search(seed * 100 + 7 + i, 200 if thorough else 40, hints if i % 2 == 0 else None), 400 if thorough else 120) for i in range(2)]
        run_jobs(extra, 8, max(deadline, time.time() + 60), on_result)
        viol = [v for s in searches for v in s['violations']]
    # ---------------------------------------------------------------- verdict
    out = []
    kf = known_findings(prop); known = []
    fresh = []
    for v in viol:
        k = is_known(v, kf)
        (known if k else fresh).append(v)
    for k in kf: out.append('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', k.get('line'))))
    rdir = os.path.join(HERE, 'replay'); rc = 0
    if fresh or failed:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'repo': REPO, 'failing_inputs': fresh[:20], 'failed_obligations': failed[:40],
                   'how': 'python3-vt /verif/replay.py %s   (re-runs the failing inputs against /repo; lists the failed obligations and the verifier output)' % rp}, open(rp, 'w'), indent=1)
        for v in fresh[:3]: out.append('failing input: %s <- %s ; got %s ; %s' % (v['target'], v['line'][:300], v['got'][:200], v['why'][:200]))
        for f in failed[:6]: out.append('failed obligation: %s :: %s :: %s' % (f['function'], f['obligation'], f['info'][:200]))
        out.append('VIOLATION property=%s replay=%s' % (prop, rp) + ('' if fresh else ' no-failing-input-found'))
    # ---------------------------------------------------------------- evidence
    unsupported = [u for t in tasks for u in t['unsupported']] + ['%s: %s' % (a, b.split('\n')[0]) for a, b in problems]
    by = {}
    for t in tasks:
        for k, n in t['by'].items(): by[k] = by.get(k, 0) + n
    cov = {
        'obligations': sum(t['total'] for t in tasks), 'discharged': sum(t['ok'] for t in tasks),
        'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d python3-vt /verif/check.py %s' % (tier, seed, prop),
        'trusted_base': props.TRUSTED + spec.get('trusted', []),
        'back_ends': by,
        'functions_under_contract': sorted({f for t in tasks for f in t['functions']}),
        'solver_seconds': round(sum(t['time'] for t in tasks), 2),
        'preconditions_shown_satisfiable': sum(t['covers'] for t in tasks),
        'not_decided_here': unsupported,
        'bounded': sorted({b for t in tasks for b in t['bounded']}) + spec.get('bounded', []),
        'notes': sorted({n for t in tasks for n in t['notes']}),
        'evaluations': sum(s.get('evaluations', 0) for s in searches),
        'distinct_nontrivial': sum(s.get('distinct', 0) for s in searches),
        'rule': 'concrete runs of the sanitizer build of /repo against independent references; generators biased to carries, moduli and block boundaries; distinct = different (target, input) pairs. Never counted as proof.',
        'samples': [x for s in searches for x in s.get('samples', [])][:8],
        'search_skipped': sorted({x for s in searches for x in s.get('skipped', [])}),
        'explanation': spec.get('explanation', ''),
    }
    level = spec['level']
    if level == 'proof' and not tasks: level = 'exploration'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted({a for t in tasks for a in t['assumed']}) + spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh) + len(failed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in out: print(l)
    print('%s: %d/%d obligations discharged, %d functions, %d concrete runs, %d not decided, %.1f s' % (
        prop, cov['discharged'], cov['obligations'], len(cov['functions_under_contract']), cov['evaluations'], len(unsupported), time.time() - t0))
    for u in unsupported[:10]: print('  not decided by proof:', u[:300])
    sys.stdout.flush()
    return rc
