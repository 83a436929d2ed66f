"""Worker process: imports the real yade, then executes jobs or single replays of one check module."""
import sys, os, json, mmap, struct, importlib, traceback
cid, mmpath, wfd = sys.argv[1], sys.argv[2], int(sys.argv[3])
os.environ['VF_WFD'] = str(wfd)
import ctypes; ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)   # end with the runner

class Stop(Exception): pass
class Ctx:
    def __init__(self, mm, out):
        self.mm = mm; self.out = out; self.n = 0; self.reset()
    def reset(self):
        self.counts = {'transitions': 0, 'traces': 0}; self.states = set(); self.outcomes = {}; self.samples = []; self.viol = []; self.known = {}; self.job = None
    def tick(self):
        self.n += 1; self.mm[:8] = struct.pack('<Q', self.n)
    def case(self, case):
        """Announce the case about to run (so that a crash or a hang is attributable)."""
        self.n += 1
        s = json.dumps(case).encode()[:65000]
        self.mm[:12] = struct.pack('<QI', self.n, len(s)); self.mm[12:12 + len(s)] = s
        self.cur = case
    def trace(self, n_ops=1, outcome=None):
        self.counts['traces'] += 1; self.counts['transitions'] += n_ops
        if outcome is not None:
            o = str(outcome); self.outcomes[o] = self.outcomes.get(o, 0) + 1
    def add(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def state(self, key):
        self.states.add(hash(key) & 0xffffffffffff)
    def sample(self, s):
        if len(self.samples) < 2: self.samples.append(s)
    def known_finding(self, s): self.known[s] = self.known.get(s, 0) + 1
    def violation(self, what, case=None):
        self.viol.append({'what': str(what), 'case': self.cur if case is None else case, 'job': self.job})
        if len(self.viol) >= 3: raise Stop()

def main():
    fd = os.open(mmpath, os.O_RDWR); mm = mmap.mmap(fd, 1 << 16)
    out = os.fdopen(wfd, 'wb', 0)
    def send(m): out.write((json.dumps(m) + '\n').encode())
    try:
        mod = importlib.import_module('vf.checks.' + cid.lower())
        if getattr(mod, 'NEED_YADE', True):
            import yade
            assert yade.__file__.startswith('/verif/.cache/b/inst/') or os.environ.get('VF_ANY'), yade.__file__
            import vp_iter; vp_iter.patch()
        if hasattr(mod, 'setup'): mod.setup()
    except BaseException:
        send({'t': 'error', 'error': traceback.format_exc()}); os._exit(4)
    ctx = Ctx(mm, out)
    for line in sys.stdin:
        m = json.loads(line); ctx.reset(); ctx.tier = m['tier']
        try:
            job = m['job']
            try:
                if isinstance(job, dict) and 'replay' in job:
                    ctx.job = job.get('job'); ctx.case(job['replay']); mod.replay(job['replay'], ctx)
                else:
                    ctx.job = job; mod.run(job, ctx)
            except Stop: pass
            st = ctx.states
            send({'t': 'result', 'counts': ctx.counts, 'states': list(st), 'outcomes': ctx.outcomes, 'samples': ctx.samples, 'violations': ctx.viol, 'known': ctx.known})
        except BaseException:
            send({'t': 'error', 'error': 'job %r case %r: %s' % (m.get('job'), getattr(ctx, 'cur', None), traceback.format_exc())})
    os._exit(0)
main()
