#!/usr/bin/python3
"""Driver of one property check:  runner.py <ID> [--tier quick|thorough] [--replay FILE] [--no-build]

Builds /repo's tree, splits the property's bounded space into jobs, runs them in worker processes that
drive the real libyade/yade Python package, and merges counts into evidence/<ID>.json.
Outcomes: exit 0 (held on everything explored), exit 1 + VIOLATION line, exit 2/3 (the check itself failed).
"""
import argparse, collections, json, mmap, os, select, signal, struct, subprocess, sys, time, importlib, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
B = V + '/.cache/b'
MM = 1 << 16  # shared page per worker: 8 bytes progress counter, 4 bytes length, current case (json)

def worker_env(extra=None):
    e = dict(os.environ)
    for k in ('LD_PRELOAD',): e.pop(k, None)
    e.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONWARNINGS='ignore', MPLBACKEND='Agg', OMPI_MCA_plm_rsh_agent='', PYTHONHASHSEED='0',
             MALLOC_PERTURB_='165', MALLOC_CHECK_='0',
             PYTHONPATH='/opt/vp/py3compat/modules:%s/inst/lib/x86_64-linux-gnu/yade/py:%s' % (B, V))
    if extra: e.update(extra)
    return e

class Worker:
    def __init__(self, wid, cid, env, scratch):
        self.wid = wid; self.cid = cid; self.env = env; self.scratch = scratch
        self.path = '%s/w%d.mm' % (scratch, wid)
        with open(self.path, 'wb') as f: f.write(b'\0' * MM)
        self.fd = os.open(self.path, os.O_RDWR); self.mm = mmap.mmap(self.fd, MM)
        self.proc = None; self.job = None; self.start()
    def start(self):
        self.mm[:12] = b'\0' * 12
        self.err = open('%s/w%d.err' % (self.scratch, self.wid), 'ab')
        d = '%s/cwd%d' % (self.scratch, self.wid); os.makedirs(d, exist_ok=True)
        r, w = os.pipe()
        self.proc = subprocess.Popen(['/usr/bin/python3', V + '/vf/worker.py', self.cid, self.path, str(w)],
            stdin=subprocess.PIPE, stdout=self.err, stderr=self.err, env=self.env, cwd=d, pass_fds=(w,), bufsize=0,
            preexec_fn=os.setpgrp)
        os.close(w); self.rfd = r; self.buf = b''; self.last = -1; self.tlast = time.time(); self.job = None; self.ready = False
    def kill(self):
        try: os.killpg(self.proc.pid, signal.SIGKILL)
        except Exception: pass
        try: self.proc.kill()
        except Exception: pass
        self.proc.wait(); os.close(self.rfd); self.err.close()
    def send(self, job, tier):
        self.job = job; self.tlast = time.time(); self.mm[:12] = b'\0' * 12; self.last = -1
        self.proc.stdin.write((json.dumps({'job': job, 'tier': tier}) + '\n').encode())
    def current(self):
        n = struct.unpack('<I', self.mm[8:12])[0]
        if not n: return None
        try: return json.loads(bytes(self.mm[12:12 + n]).decode())
        except Exception: return None
    def progress(self): return struct.unpack('<Q', self.mm[:8])[0]

def run_single(cid, payload, tier, env, scratch, timeout):
    """Run one job or one case alone in a fresh process; returns (status, result)."""
    w = Worker(900 + int(time.time() * 1000) % 90000, cid, env, scratch)
    try:
        w.send(payload, tier)
        t0 = time.time()
        while time.time() - t0 < timeout:
            r, _, _ = select.select([w.rfd], [], [], 1)
            if r:
                d = os.read(w.rfd, 1 << 20)
                if not d: return ('crash', w.proc.wait())
                w.buf += d
                while b'\n' in w.buf:
                    line, w.buf = w.buf.split(b'\n', 1)
                    m = json.loads(line)
                    if m.get('t') == 'result': return ('ok', m)
                    if m.get('t') == 'error': return ('error', m)
        return ('hang', w.current())
    finally:
        w.kill()

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid'); ap.add_argument('--tier'); ap.add_argument('--replay'); ap.add_argument('--no-build', action='store_true')
    ap.add_argument('-j', type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if not a.no_build:
        rc = subprocess.run([sys.executable, V + '/bin/vbuild.py']).returncode
        if rc: print('check %s: the tree does not build' % a.cid); return 3
    tb = time.time() - t0
    mod = importlib.import_module('vf.checks.' + a.cid.lower())
    scratch = V + '/.cache/run/%s.%d' % (a.cid, os.getpid())
    os.makedirs(scratch)
    env = worker_env(getattr(mod, 'ENV', None))
    env['VF_SCRATCH'] = scratch
    if hasattr(mod, 'prepare'): mod.prepare(env, tier)   # e.g. compile an interposer
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            st, r = run_single(a.cid, rp['payload'], rp.get('tier', tier), env, scratch, 300)
            print(st, json.dumps(r, indent=1)[:4000])
            bad = st in ('crash', 'hang') or (st == 'ok' and r['violations'])
            if bad: print('VIOLATION property=%s replay=%s' % (a.cid, a.replay))
            return 1 if bad else 0
        return explore(a, mod, tier, seed, env, scratch, t0, tb)
    finally:
        import shutil; shutil.rmtree(scratch, ignore_errors=True)

def explore(a, mod, tier, seed, env, scratch, t0, tb):
    jobs = list(mod.jobs(tier))
    nw = a.j or min(getattr(mod, 'WORKERS', 8), os.cpu_count() or 1, len(jobs))
    hang_s = getattr(mod, 'HANG', 90)
    queue = collections.deque(jobs)
    tot = collections.Counter(); states = set(); outcomes = collections.Counter(); samples = []; viol = []; known = collections.Counter(); errors = []
    workers = [Worker(i, a.cid, env, scratch) for i in range(nw)]
    done = 0; bad_jobs = []; lost = []
    try:
        active = set()
        for w in workers:
            if queue: w.send(queue.popleft(), tier); active.add(w)
        budget = getattr(mod, 'BUDGET', {'quick': 700, 'thorough': 6 * 3600})[tier]
        while active:
            if len(viol) + len(bad_jobs) >= 8: break
            if time.time() - t0 > budget: errors.append('time budget exceeded with %d jobs left' % (len(queue) + len(active))); break
            rl, _, _ = select.select([w.rfd for w in active], [], [], 1.0)
            for w in list(active):
                fin = False
                if w.rfd in rl:
                    d = os.read(w.rfd, 1 << 20)
                    if not d:
                        rc = w.proc.wait(); bad_jobs.append(('crash', rc, w.job, w.current()))
                        w.kill(); w.start(); fin = True
                    else:
                        w.buf += d
                        while b'\n' in w.buf:
                            line, w.buf = w.buf.split(b'\n', 1)
                            m = json.loads(line)
                            if m['t'] == 'result':
                                tot.update(m['counts']); states.update(m['states']); outcomes.update(m['outcomes'])
                                if len(samples) < 6: samples += m['samples'][:2]
                                viol += m['violations']; known.update(m['known']); done += 1; fin = True
                            elif m['t'] == 'error':
                                errors.append(m['error']); fin = True
                else:
                    p = w.progress()
                    if p != w.last: w.last = p; w.tlast = time.time()
                    elif time.time() - w.tlast > hang_s:
                        bad_jobs.append(('hang', None, w.job, w.current())); w.kill(); w.start(); fin = True
                if fin:
                    if queue: w.send(queue.popleft(), tier)
                    else: active.discard(w)
            if errors: break
    finally:
        for w in workers: w.kill()
    # a crash or a hang counts only when it comes back alone, in a fresh process
    for kind, rc, job, case in bad_jobs[:3]:
        confirmed = None
        for payload in ([{'replay': case, 'job': job}] if case is not None else []) + [job]:
            st, r = run_single(a.cid, payload, tier, env, scratch, 150 if payload is not job else 400)
            if st in ('crash', 'hang'):
                confirmed = (st, payload, r); break
            if st == 'ok' and r['violations']: viol += r['violations']; confirmed = True; break
        if confirmed is None: lost.append((kind, rc, job, case))
        elif confirmed is not True:
            viol.append({'what': 'the process %s (%s) on this case' % ({'crash': 'died', 'hang': 'hung'}[confirmed[0]], confirmed[2] if confirmed[0] == 'crash' else 'no progress'), 'case': case, 'payload': confirmed[1]})
    # violations found inside a worker are replayed in a fresh process
    real = []
    for v in viol[:4]:
        if 'payload' in v: real.append(v); continue
        pay = {'replay': v['case'], 'job': v.get('job')}
        st, r = run_single(a.cid, pay, tier, env, scratch, 150)
        if st in ('crash', 'hang') or (st == 'ok' and r['violations']): v['payload'] = pay; real.append(v)
        else:
            # maybe it depends on what ran before it in the same process: replay its whole job
            st, r = run_single(a.cid, v.get('job'), tier, env, scratch, 400)
            if st in ('crash', 'hang') or (st == 'ok' and r['violations']): v['payload'] = v.get('job'); real.append(v)
            else: errors.append('violation did not replay: ' + json.dumps(v)[:800])
    wall = time.time() - t0
    cov = {'states': len(states), 'transitions': tot.get('transitions', 0), 'traces_validated_against_impl': tot.get('traces', 0),
           'evaluations': tot.get('traces', 0), 'distinct_nontrivial': tot.get('nontrivial', len(outcomes)), 'rule': getattr(mod, 'RULE', ''),
           'distinct_outcomes': len(outcomes), 'jobs': done, 'samples': samples[:6],
           'exhaustive': bool(not errors and not queue and done == len(jobs)), 'bounds': mod.BOUNDS[tier] if hasattr(mod, 'BOUNDS') else ''}
    for k, n in tot.items():
        if k not in ('transitions', 'traces', 'nontrivial'): cov['n_' + k] = n
    ev = {'property': a.cid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(real)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % a.cid, 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(known): print('KNOWN-FINDING: property=%s %s' % (a.cid, k))
    print('%s %s: %d jobs, %d traces, %d transitions, %d states, %d distinct outcomes, %.1f s (build %.1f s)' % (a.cid, tier, done, tot.get('traces', 0), tot.get('transitions', 0), len(states), len(outcomes), wall, tb))
    if real:
        os.makedirs(V + '/replays', exist_ok=True)
        for v in real[:3]:
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            p = V + '/replays/%s-%s.json' % (a.cid, h)
            with open(p, 'w') as f: json.dump({'property': a.cid, 'tier': tier, 'what': v['what'], 'case': v['case'], 'payload': v['payload']}, f, indent=1)
            print('  ' + v['what'][:1500]); print('  case: ' + json.dumps(v['case'])[:1500])
            print('VIOLATION property=%s replay=%s' % (a.cid, p))
        return 1
    if lost: errors.append('unconfirmed crash/hang: ' + json.dumps(lost)[:1500])
    if errors:
        print('CHECK ERROR %s: %s' % (a.cid, '\n'.join(errors)[:6000]))
        for w in workers[:1]:
            try: print(open('%s/w%d.err' % (scratch, w.wid), 'rb').read()[-3000:].decode(errors='replace'))
            except OSError: pass
        return 2
    return 0
if __name__ == '__main__': sys.exit(main())
