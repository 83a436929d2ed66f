"""Exhaustive enumeration of operation sequences: the reference model proposes the operations enabled in
its state, every sequence up to the depth bound is executed on the real library, and the observable
state is compared with the model after every operation (each prefix is checked once)."""
import copy

def prefixes(M, depth, cfgs=(None,)):
    """Split the space into jobs: every (configuration, enabled sequence of length `depth`)."""
    out = []
    for cfg in cfgs:
        def rec(m, path):
            ops = M.enabled(m) if len(path) < depth else []
            if not ops: out.append([cfg, path]); return
            for op in ops:
                m2 = copy.deepcopy(m); M.step(m2, op); rec(m2, path + [op])
        rec(M.init(cfg), [])
    return out

class Seq:
    """Subclass: init(cfg)->model, enabled(model)->[op], step(model,op)->expected result (mutates model),
    reset(cfg), do(op)->observed result, check(model)->None or a text, key(model)->hashable."""
    raises_ok = ()
    def final(self, m): return None
    def begin(self, cfg): self.reset(cfg)
    def replay_path(self, ctx, cfg, path, first=0):
        m = self.init(cfg); ctx.case([cfg, path])
        self.begin(cfg)
        for i, op in enumerate(path):
            exp = self.step(m, op)
            try: got = self.do(op)
            except Exception as e:
                ctx.violation('operation #%d %r raised %s: %s' % (i, op, type(e).__name__, str(e)[:300])); return False
            if exp is not Ellipsis and got != exp:
                ctx.violation('operation #%d %r returned %r, expected %r' % (i, op, got, exp)); return False
            if i >= first:
                try: bad = self.check(m)
                except Exception as e: bad = 'observation raised %s: %s' % (type(e).__name__, str(e)[:300])
                if bad: ctx.violation('after operation #%d %r: %s' % (i, op, bad)); return False
                ctx.state((cfg if not isinstance(cfg, list) else str(cfg), self.key(m)))
        try: bad = self.final(m)
        except Exception as e: bad = 'final observation raised %s: %s' % (type(e).__name__, str(e)[:300])
        if bad: ctx.violation('at the end of the history: %s' % bad); return False
        ctx.trace(len(path), self.outcome(m))
        return True
    def key(self, m): return repr(m)
    def outcome(self, m): return None
    def run(self, job, ctx, depth):
        cfg, pre = job
        self.firstnew = 0
        def rec(m, path, first):
            ops = self.enabled(m) if len(path) < depth else []
            if not ops:
                self.replay_path(ctx, cfg, path, first); return
            f = first
            for op in ops:
                m2 = copy.deepcopy(m); self.step(m2, op)
                rec(m2, path + [op], f)
                f = len(path)   # only the ops from here on are new for the next sibling
        m = self.init(cfg)
        for op in pre: self.step(m, op)
        rec(m, list(pre), 0)
        ctx.sample([cfg, pre])
