"""A simulated MPI communicator under full control: every rank is a forked process, every MPI call (Python or C++) is a request to the
controller.  When all ranks are blocked, the controller has the complete set of enabled actions and picks one, so the interleaving of
the ranks is decided here; whether a standard send is buffered or waits for its receiver is a parameter of the run."""
import os, pickle, select, socket, struct, sys, time, traceback, types, ctypes, signal
H = struct.Struct('<5i')
sock = None; RANK = 0; SIZE = 1
def _rdn(n):
    b = b''
    while len(b) < n:
        d = sock.recv(n - len(b))
        if not d: os._exit(77)
        b += d
    return b
def rpc(op, peer=0, tag=0, req=0, pay=b''):
    if sock is None: raise RuntimeError('MPI call outside of a simulated run')
    sock.sendall(H.pack(ord(op), peer, tag, req, len(pay)) + pay)
    o, p, t, r, n = H.unpack(_rdn(H.size))
    return chr(o), p, t, r, _rdn(n) if n else b''
class Status:
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
    source = tag = -1
class Request:
    def __init__(self, id, recv): self.id = id; self.r = recv; self.done = False; self.val = None
    def wait(self, status=None):
        if not self.done:
            d = rpc('W', req=self.id)[4]; self.done = True
            if self.r: self.val = pickle.loads(d)
        return self.val
    Wait = wait
    def test(self, status=None):
        if self.done: return True, self.val
        o, p, t, r, d = rpc('T', req=self.id)
        if o == 'N': return False, None
        self.done = True
        if self.r: self.val = pickle.loads(d)
        return True, self.val
    @staticmethod
    def waitall(rs, statuses=None): return [r.wait() for r in rs]
    Waitall = waitall
class Comm:
    rank = property(lambda s: RANK); size = property(lambda s: SIZE)
    def Get_rank(self): return RANK
    def Get_size(self): return SIZE
    def send(self, obj, dest, tag=0): rpc('S', dest, tag, 0, pickle.dumps(obj, 2))
    def ssend(self, obj, dest, tag=0): rpc('Y', dest, tag, 0, pickle.dumps(obj, 2))
    bsend = send
    def isend(self, obj, dest, tag=0): return Request(rpc('I', dest, tag, 0, pickle.dumps(obj, 2))[3], False)
    def recv(self, buf=None, source=-1, tag=-1, status=None):
        o, p, t, r, d = rpc('R', source, tag)
        if status is not None: status.source = p; status.tag = t
        return pickle.loads(d)
    def irecv(self, buf=None, source=-1, tag=-1):
        if isinstance(buf, int): raise TypeError('buffer')
        return Request(rpc('P', source, tag)[3], True)
    def sendrecv(self, obj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1):
        r = self.isend(obj, dest, sendtag); v = self.recv(None, source, recvtag); r.wait(); return v
    def _coll(self, name, obj, root=0): return pickle.loads(rpc('C', root, 0, 0, pickle.dumps((name, obj), 2))[4])
    def bcast(self, obj=None, root=0): return self._coll('bcast', obj if RANK == root else None, root)[root]
    def gather(self, obj, root=0): v = self._coll('gather', obj, root); return v if RANK == root else None
    def allgather(self, obj): return self._coll('allgather', obj)
    def scatter(self, obj=None, root=0): return self._coll('scatter', obj if RANK == root else None, root)[root][RANK]
    def alltoall(self, obj): return [v[RANK] for v in self._coll('alltoall', obj)]
    def barrier(self): self._coll('barrier', None)
    Barrier = barrier
    def _red(self, name, obj, op):
        v = self._coll(name, obj); r = v[0]
        for x in v[1:]: r = op(r, x)
        return r
    def allreduce(self, obj, op=lambda a, b: a + b): return self._red('allreduce', obj, op)
    def reduce(self, obj, op=lambda a, b: a + b, root=0):
        r = self._red('reduce%d' % root, obj, op); return r if RANK == root else None
    def Dup(self): return self
    def Abort(self, code=1): os._exit(79)
def install():
    """Put the simulated mpi4py in place of the real one (before yade.mpy is imported)."""
    m = types.ModuleType('mpi4py'); M = types.ModuleType('mpi4py.MPI')
    M.COMM_WORLD = Comm(); M.ANY_SOURCE = -1; M.ANY_TAG = -1; M.Status = Status; M.Request = Request; M.Comm = Comm
    M.SUM = lambda a, b: a + b; M.MAX = max; M.MIN = min; M.LOR = lambda a, b: a or b; M.LAND = lambda a, b: a and b; M.Wtime = time.time
    m.MPI = M; sys.modules['mpi4py'] = m; sys.modules['mpi4py.MPI'] = M
_libc = ctypes.CDLL(None)
def orphan(): _libc.prctl(1, signal.SIGKILL, 0, 0, 0)   # end with the process that made this one
class Deadlock(Exception): pass
class Failed(Exception): pass
def run(R, fn, eager=True, early=False, prefix=(), timeout=60, lib=None):
    """Fork R ranks running fn(rank); returns (results by rank, trace of choices [(options, chosen)], number of messages)."""
    global sock, RANK, SIZE
    ps = []; cs = []; socks = []
    for r in range(R):
        a, b = socket.socketpair(); pid = os.fork()
        if pid == 0:
            try:
                orphan()
                for s in socks: s.close()
                a.close(); sock = b; RANK = r; SIZE = R
                if lib: lib.vm_set(b.fileno())
                n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2)
                try: res = ('ok', fn(r))
                except BaseException: res = ('exc', traceback.format_exc())
                try: d = pickle.dumps(res, 2)
                except Exception as e: d = pickle.dumps(('exc', 'result: %r' % e), 2)
                sock.sendall(H.pack(ord('X'), 0, 0, 0, len(d)) + d)
            finally: os._exit(0)
        b.close(); socks.append(a); ps.append(pid)
    try: return _control(R, socks, eager, early, list(prefix), timeout)
    finally:
        for s in socks: s.close()
        for p in ps:
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
        for p in ps: os.waitpid(p, 0)
class Pool:
    """R rank processes kept for successive runs of fn(rank, argument); any failure ends them."""
    def __init__(self, R, fn, lib=None):
        global sock, RANK, SIZE
        self.R = R; self.n = 0; self.socks = []; self.ps = []
        for r in range(R):
            a, b = socket.socketpair(); pid = os.fork()
            if pid == 0:
                try:
                    orphan()
                    for s in self.socks: s.close()
                    a.close(); sock = b; RANK = r; SIZE = R
                    n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2)
                    while True:
                        o, p, t, q, k = H.unpack(_rdn(H.size)); arg = pickle.loads(_rdn(k))
                        if lib: lib.vm_set(b.fileno())
                        try: res = ('ok', fn(r, arg))
                        except BaseException: res = ('exc', traceback.format_exc())
                        d = pickle.dumps(res, 2); sock.sendall(H.pack(ord('X'), 0, 0, 0, len(d)) + d)
                finally: os._exit(0)
            b.close(); self.socks.append(a); self.ps.append(pid)
    def run(self, arg, eager=True, prefix=(), timeout=60):
        d = pickle.dumps(arg, 2); self.n += 1
        for s in self.socks: s.sendall(H.pack(ord('G'), 0, 0, 0, len(d)) + d)
        return _control(self.R, self.socks, eager, False, list(prefix), timeout)
    def close(self):
        for s in self.socks: s.close()
        for p in self.ps:
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
        for p in self.ps: os.waitpid(p, 0)
def _control(R, socks, eager, early, prefix, timeout):
    buf = [b''] * R; pend = [None] * R; res = [None] * R; trace = []; nmsg = 0; pos = 0
    queue = []      # messages in flight: [src, dst, tag, payload, blocked sender (rank or None), req of isend]
    posted = []     # posted irecvs: [rank, src, tag, req, payload or None, consumed message?]
    sreq = {}; nreq = 1; t0 = time.time()
    def match(rank, src, tag):
        """Messages that may be received: first of each source (non-overtaking)."""
        seen = set(); out = []
        for i, q in enumerate(queue):
            if q[1] != rank or (src >= 0 and q[0] != src) or (tag >= 0 and q[2] != tag): continue
            if q[0] in seen: continue
            seen.add(q[0]); out.append(i)
        return out
    def reply(r, op='A', peer=0, tag=0, req=0, pay=b''):
        pend[r] = None; socks[r].sendall(H.pack(ord(op), peer, tag, req, len(pay)) + pay)
    def consume(i):
        q = queue.pop(i)
        if q[4] is not None: rel.append(q[4])
        if q[5] is not None: sreq[q[5]] = True
        return q
    while True:
        # let every running rank reach its next request
        run_ = [r for r in range(R) if pend[r] is None and res[r] is None]
        if run_:
            if time.time() - t0 > timeout: raise Failed('no progress (rank %s computing)' % run_)
            rl, _, _ = select.select([socks[r] for r in run_], [], [], 1.)
            for r in run_:
                if socks[r] not in rl: continue
                d = socks[r].recv(1 << 15)
                if not d: raise Failed('rank %d died' % r)
                buf[r] += d
                if len(buf[r]) >= H.size:
                    op, peer, tag, req, n = H.unpack(buf[r][:H.size])
                    if len(buf[r]) >= H.size + n:
                        pay = buf[r][H.size:H.size + n]; buf[r] = buf[r][H.size + n:]; op = chr(op)
                        if op == 'X':
                            res[r] = pickle.loads(pay)
                            if res[r][0] != 'ok': raise Failed('rank %d: %s' % (r, res[r][1]))
                        else: pend[r] = [op, peer, tag, req, pay, False]
            continue
        if all(x is not None for x in res):
            if queue: raise Failed('messages never received: %s' % [(q[0], q[1], q[2]) for q in queue])
            return [x[1] for x in res], trace, nmsg
        # immediate effects: sends and posted receives enter the tables
        for r in range(R):
            p = pend[r]
            if p and not p[5] and p[0] in 'SYI':
                p[5] = True; nmsg += 1
                if not 0 <= p[1] < R: raise Failed('rank %d sends to rank %d' % (r, p[1]))
                if p[0] == 'I': queue.append([r, p[1], p[2], p[4], None, nreq]); sreq[nreq] = False; p[3] = nreq; nreq += 1
                else: queue.append([r, p[1], p[2], p[4], r, None])
            if p and not p[5] and p[0] == 'P': p[5] = True; posted.append([r, p[1], p[2], nreq, None]); p[3] = nreq; nreq += 1
        rel = []
        # posted receives take messages as soon as they are there, in the order they were posted
        for q in posted:
            if q[4] is None:
                m = match(q[0], q[1], q[2])
                if m: q[4] = consume(m[0])
        for r in rel:
            if pend[r] and pend[r][0] in 'SY': pend[r][3] = -1   # receiver has it
        # enabled actions
        en = []
        for r in range(R):
            p = pend[r]
            if not p: continue
            if p[0] in 'S' and (p[3] == -1 or eager): en.append((r, None))
            elif p[0] == 'Y' and p[3] == -1: en.append((r, None))
            elif p[0] in 'IP': en.append((r, None))
            elif p[0] == 'R':
                for i in match(r, p[1], p[2]): en.append((r, queue[i][0]))
            elif p[0] in 'WT':
                q = [x for x in posted if x[3] == p[3]]
                if (q and q[0][4] is not None) or (not q and (eager or sreq.get(p[3]))): en.append((r, None))
                elif p[0] == 'T': en.append((r, -1))
            elif p[0] == 'C':
                if all(pend[k] and pend[k][0] == 'C' for k in range(R)): en.append((r, None)); break
        if not en:
            raise Deadlock('; '.join('rank %d: %s' % (r, 'finished' if res[r] is not None else '%s %d tag %d' % ({'S': 'send to', 'Y': 'send to', 'R': 'recv from', 'W': 'wait', 'C': 'collective'}.get(pend[r][0], pend[r][0]), pend[r][1], pend[r][2])) for r in range(R)))
        c = 0
        if len(en) > 1:
            c = prefix[pos] if pos < len(prefix) and prefix[pos] < len(en) else 0
            trace.append((len(en), c)); pos += 1
        r, src = en[c]; p = pend[r]; rel = []
        if p[0] in 'SY':
            for q in queue:
                if q[4] == r: q[4] = None   # buffered: the sender goes on
            reply(r)
        elif p[0] == 'I': reply(r, req=p[3])
        elif p[0] == 'P':
            q = [x for x in posted if x[3] == p[3]][0]
            if early and q[4] is not None and p[4] == b'' and False: pass
            reply(r, req=p[3])
        elif p[0] == 'R':
            i = [i for i in match(r, p[1], p[2]) if queue[i][0] == src][0]; q = consume(i)
            for k in rel:
                if pend[k]: pend[k][3] = -1
            reply(r, peer=q[0], tag=q[2], pay=q[3])
        elif p[0] in 'WT':
            if src == -1: reply(r, op='N')
            else:
                q = [x for x in posted if x[3] == p[3]]
                if q: posted.remove(q[0]); reply(r, peer=q[0][4][0], tag=q[0][4][2], pay=q[0][4][3])
                else: reply(r)
        elif p[0] == 'C':
            names = [pickle.loads(pend[k][4]) for k in range(R)]
            if len(set((n[0], pend[k][1]) for k, n in enumerate(names))) > 1: raise Failed('collective calls do not match: %s' % [(n[0], pend[k][1]) for k, n in enumerate(names)])
            v = pickle.dumps([n[1] for n in names], 2)
            for k in range(R): reply(k, pay=v)
