"""Driver: generates cases with Hypothesis (CPython), decides them in a PyPy worker against /repo, shrinks failures.

  run.py check <PROPERTY>          (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay <file>             re-run a replay file without Hypothesis
  run.py case <PROPERTY> <facet>   read one case (JSON) on stdin
"""
import collections
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = os.environ.get('VERIF_PYPY', '/opt/pypyenv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
OUTDIR = os.environ.get('VERIF_OUT', HERE)
LEVEL = 'exploration'
# quick budgets: the number of cases a facet asks for, times this
QUICK_TIMES = {'C04': 1.5, 'C05': 2, 'C14': 1.5, 'C20': 2, 'C29': 1}
QUICK_TIMES_DEFAULT = 3
CASE_TIMEOUT = 60.0
RETRY_TIMEOUT = 180.0
BUDGET = {'quick': 300.0, 'thorough': 720.0}
SHRINK_S = {'quick': 45.0, 'thorough': 90.0}
RESTART_EVERY = 2500

from vf import registry  # noqa: E402


class HarnessError(Exception):
    pass


class Worker:
    """One PyPy process that holds the code under test."""

    def __init__(self):
        self.p = None
        self.n = 0

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP')}
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_REPO=REPO)
        r_in, w_in = os.pipe()
        r_out, w_out = os.pipe()

        def pre():
            # move to 3/4 without clobbering each other
            a = fcntl.fcntl(r_in, fcntl.F_DUPFD, 100)
            b = fcntl.fcntl(w_out, fcntl.F_DUPFD, 100)
            os.dup2(a, 3, inheritable=True)
            os.dup2(b, 4, inheritable=True)

        self.p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'vf', 'worker.py')], env=env, cwd=HERE,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                  preexec_fn=pre, close_fds=False)
        os.close(r_in)
        os.close(w_out)
        self.w = os.fdopen(w_in, 'w', encoding='utf-8', buffering=1)
        self.rfd = r_out
        self.buf = b''
        self.n = 0
        self.history = []
        self.err = collections.deque(maxlen=50)
        import threading
        threading.Thread(target=self._drain, args=(self.p.stderr,), daemon=True).start()
        rep = self._read(180.0)
        if not rep or not rep.get('ready'):
            raise HarnessError('worker does not start: %s\n%s' % (rep, self.stderr()))

    def _drain(self, f):
        for line in f:
            self.err.append(line.decode('utf-8', 'replace'))

    def stderr(self):
        return ''.join(self.err)

    def _read(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.rfd], [], [], left)
            if not r:
                return None
            chunk = os.read(self.rfd, 65536)
            if not chunk:
                raise EOFError
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode('utf-8'))

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            try:
                self.w.close()
            except OSError:
                pass
            os.close(self.rfd)
            self.p = None

    def ask(self, prop, facet, case, timeout=CASE_TIMEOUT):
        if self.p is None:
            self.start()
        self.history.append([facet, case])
        self.n += 1
        try:
            self.w.write(json.dumps({'prop': prop, 'facet': facet, 'case': case}) + '\n')
            rep = self._read(timeout)
        except (EOFError, BrokenPipeError, OSError) as e:
            err = self.stderr()
            self.stop()
            return {'status': 'died', 'msg': 'the process running the library died: %s' % e, 'detail': err[-2000:]}
        if rep is None:
            self.stop()
            return {'status': 'timeout', 'msg': 'no answer within %.0f s' % timeout}
        return rep


def decide(worker, prop, facet, case):
    """Status of one case; hangs and deaths are retried alone in a fresh worker before they count."""
    rep = worker.ask(prop, facet, case)
    if rep['status'] in ('timeout', 'died'):
        worker.stop()
        rep = worker.ask(prop, facet, case, RETRY_TIMEOUT)
        if rep['status'] in ('timeout', 'died'):
            worker.stop()
            rep = {'status': 'violation', 'msg': rep['msg'], 'info': {}}
    return rep


def chash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def read_known():
    """known_findings.txt: lines 'known: {json}' (an unrepaired defect) and 'fixed: property=.. commit what' (inert)."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                k = json.loads(line[len('known:'):])
                out[k['id']] = k
    return out


def run_task(args):
    prop, fname, shard, n_examples, seed, tier, deadline, stop_flag = args
    out = {'facet': fname, 'shard': shard, 'evaluations': 0, 'nontrivial': [], 'tags': {}, 'samples': [],
           'failures': [], 'error': None, 'truncated': False, 'known': {}, 'history': None}
    worker = Worker()
    try:
        f = registry.load(prop)[fname]
        known = read_known()
        state = {'t_fail': None}
        tags = collections.Counter()
        nontriv = set()
        seen_fail = {}

        def evaluate(case):
            if out['error'] is not None:
                return
            now = time.time()
            if state['t_fail'] is not None:
                if now - state['t_fail'] > SHRINK_S[tier]:
                    return
            elif now > deadline or os.path.exists(stop_flag):
                out['truncated'] = True
                return
            key = chash(case)
            if key in seen_fail:
                raise AssertionError('violation')
            if worker.n >= RESTART_EVERY:
                worker.stop()
            rep = decide(worker, prop, fname, case)
            out['evaluations'] += 1
            st = rep['status']
            if st == 'known':
                k = rep.get('finding')
                if k in known and known[k]['property'] == prop:
                    out['known'][k] = out['known'].get(k, 0) + 1
                    return
                rep = {'status': 'violation', 'msg': 'known-finding %s is not listed: %s' % (k, rep.get('msg')),
                       'info': rep.get('info', {})}
                st = 'violation'
            if st == 'error':
                out['error'] = 'oracle error in %s/%s: %s\ncase: %s' % (prop, fname, rep.get('detail'), json.dumps(case))
                return
            if st == 'violation':
                if state['t_fail'] is None:
                    state['t_fail'] = time.time()
                    out['history'] = list(worker.history) if worker.p is not None else [[fname, case]]
                seen_fail[key] = True
                out['failures'].append({'case': case, 'msg': rep['msg'], 'info': rep.get('info', {})})
                raise AssertionError('violation')
            for t in rep.get('tags', ()):
                tags[t] += 1
            if rep.get('nontrivial'):
                if key not in nontriv:
                    nontriv.add(key)
                    if len(out['samples']) < 2 and len(json.dumps(case)) < 1500:
                        out['samples'].append(case)

        if shard == 0:
            for case in f.fixed():
                try:
                    evaluate(case)
                except AssertionError:
                    break
        if isinstance(shard, str):
            large_cases(f, '%s/%s/%s%s' % (prop, fname, seed, shard[1:]), n_examples, evaluate, out)
        elif not out['failures'] and out['error'] is None and n_examples > 0 and f.gen is not None:
            from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
            from hypothesis import strategies as st_
            from vf.gen import D

            @st_.composite
            def cases(draw):
                return f.gen(D(draw, tier))

            @hseed(int(hashlib.blake2b(('%s/%s/%s/%s' % (prop, fname, shard, seed)).encode(),
                                       digest_size=6).hexdigest(), 16))
            @settings(max_examples=n_examples, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(cases())
            def test(case):
                evaluate(case)

            try:
                test()
            except BaseException as e:
                if not out['failures'] and out['error'] is None:
                    raise
        out['nontrivial'] = sorted(nontriv)
        out['tags'] = dict(tags)
        if out['failures']:
            open(stop_flag, 'w').close()
            best = min(out['failures'], key=lambda x: len(json.dumps(x['case'])))
            first = out['failures'][0]
            out['failures'] = [best] if best is first else [best, first]
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        worker.stop()
    if not out['failures']:
        out['history'] = None
    return out


def large_cases(f, key, n, evaluate, out):
    """Large cases from a plain pseudo-random stream; a failure is reduced by a search among smaller ones."""
    from vf.draws import RandD

    def fails(sd, lvl):
        try:
            evaluate(f.gen(RandD(sd, lvl)))
        except AssertionError:
            return True
        return False
    for i in range(n):
        if fails('%s/%d' % (key, i), 2):
            t0 = time.time()
            j = 0
            while time.time() - t0 < 20:
                fails('%s/small/%d' % (key, j), 0 if j % 3 else 1)
                j += 1
            return
        if out['error'] is not None:
            return


def confirm(prop, fname, failure, history):
    """Reproduce a failure in a fresh process: alone, else after the history that led to it."""
    w = Worker()
    try:
        rep = decide(w, prop, fname, failure['case'])
        if rep['status'] == 'violation':
            return [[fname, failure['case']]], rep
    finally:
        w.stop()
    hist = history or []

    def repro(h):
        w2 = Worker()
        try:
            r = None
            for fn, c in h:
                r = w2.ask(prop, fn, c)
            return r
        finally:
            w2.stop()

    if hist:
        r = repro(hist)
        if r and r['status'] == 'violation':
            t0 = time.time()
            k = 1
            while k < len(hist) and time.time() - t0 < 120:  # shortest suffix, by doubling
                r2 = repro(hist[-k:])
                if r2 and r2['status'] == 'violation':
                    return hist[-k:], r2
                k *= 2
            return hist, r
    return None, None


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    facets = registry.load(prop)
    only = os.environ.get('VERIF_FACETS')
    if only:
        facets = {k: v for k, v in facets.items() if k in only.split(',')}
    known = {k: v for k, v in read_known().items() if v['property'] == prop}
    deadline = t0 + BUDGET[tier]
    stop_flag = '/tmp/.vf_stop_%s_%d' % (prop, os.getpid())
    tasks = []
    for f in facets.values():
        n = int(f.quick * QUICK_TIMES.get(prop, QUICK_TIMES_DEFAULT)) if tier == 'quick' else f.thorough
        shards = 1 if n <= 60 else (2 if n <= 200 else 4)
        if tier == 'thorough':
            shards = 8 if n >= 400 else max(shards, 4)
        for sh in range(shards):
            tasks.append((prop, f.name, sh, max(1, n // shards), seed, tier, deadline, stop_flag))
        if f.gen is not None and f.large:
            nl = int(f.large * (1 if tier == 'quick' else 12))
            parts = 4 if nl >= 16 else 1
            for sh in range(parts):
                tasks.append((prop, f.name, 'L%d' % sh, (nl + parts - 1) // parts, seed, tier, deadline, stop_flag))
    # longest first, interleaved over facets
    tasks.sort(key=lambda a: (0.5 if isinstance(a[2], str) else a[2], -a[3]))
    procs = int(os.environ.get('VERIF_PROCS', '0')) or min(8, max(2, os.cpu_count() or 2))
    try:
        with mp.get_context('fork').Pool(procs, maxtasksperchild=1) as pool:
            results = pool.map(run_task, tasks, chunksize=1)
    finally:
        if os.path.exists(stop_flag):
            os.unlink(stop_flag)
    errors = [r['error'] for r in results if r['error']]
    by_facet = {}
    for f in facets.values():
        rs = [r for r in results if r['facet'] == f.name]
        nt = set()
        tags = collections.Counter()
        for r in rs:
            nt.update(r['nontrivial'])
            tags.update(r['tags'])
        by_facet[f.name] = {'evaluations': sum(r['evaluations'] for r in rs), 'distinct_nontrivial': len(nt),
                            'classes': dict(tags.most_common(40)), 'rule': f.rule,
                            'truncated_by_time': any(r['truncated'] for r in rs)}
    samples = []
    for name in facets:
        for r in results:
            if r['facet'] == name and r['samples']:
                samples.append({'facet': name, 'case': r['samples'][-1]})
                break
    samples = samples[:6]
    # failures
    violations = []
    for name in facets:
        cand = [(fl, r['history']) for r in results if r['facet'] == name for fl in r['failures']]
        cand.sort(key=lambda x: len(json.dumps(x[0]['case'])))
        done = False
        for fl, hist in cand:
            hs, rep = confirm(prop, name, fl, hist)
            if hs is not None:
                violations.append((name, fl, hs, rep, True))
                done = True
                break
        if cand and not done:
            fl, hist = cand[0]
            violations.append((name, fl, hist or [[name, fl['case']]], {'msg': fl['msg'], 'info': fl['info']}, False))
    lines = []
    repdir = os.path.join(OUTDIR, 'replays')
    for name, fl, hs, rep, conf in violations:
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, '%s-%s.json' % (prop, name))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'facet': name, 'seed': seed, 'tier': tier, 'cases': hs,
                       'message': rep['msg'], 'info': rep.get('info', {}), 'reproduced_from_fresh_process': conf,
                       'how': 'bash /verif/check.sh replay %s' % path}, fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s/%s: %s\n  case: %s\n  info: %s' % (prop, name, rep['msg'], json.dumps(hs[-1][1])[:1500],
                                                    json.dumps(rep.get('info', {}))[:1500]))
    # listed findings: report the ones that still fail
    for k, kf in known.items():
        w = Worker()
        try:
            rep = decide(w, prop, kf['facet'], kf['case'])
        finally:
            w.stop()
        if rep['status'] in ('known', 'violation'):
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
          'coverage': {
              'evaluations': sum(v['evaluations'] for v in by_facet.values()),
              'distinct_nontrivial': sum(v['distinct_nontrivial'] for v in by_facet.values()),
              'rule': ' | '.join('%s: %s' % (n, f.rule) for n, f in facets.items()),
              'samples': samples, 'by_facet': by_facet},
          'assumptions': ['oracles and generators in vf/props/%s.py' % prop.lower(),
                          'numpy/scipy linear algebra of the installed PyPy environment'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    evdir = os.path.join(OUTDIR, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for e in errors:
        print('HARNESS ERROR: ' + e, file=sys.stderr)
    for ln in lines:
        print(ln)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (
        prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], len(violations),
        ev['wall_s']))
    if violations:
        return 1
    if errors:
        return 2
    dead = [n for n, v in by_facet.items() if v['evaluations'] == 0]
    if dead:
        print('HARNESS ERROR: no case evaluated in %s' % dead, file=sys.stderr)
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    w = Worker()
    try:
        rep = None
        for fn, c in r['cases']:
            rep = w.ask(r['property'], fn, c, RETRY_TIMEOUT)
    finally:
        w.stop()
    print(json.dumps(rep, indent=1))
    if rep['status'] in ('violation', 'timeout', 'died'):
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0 if rep['status'] in ('ok', 'known') else 2


def main(argv):
    if argv[0] == 'check':
        return check(argv[1])
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'case':
        w = Worker()
        try:
            print(json.dumps(decide(w, argv[1], argv[2], json.load(sys.stdin)), indent=1))
        finally:
            w.stop()
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
