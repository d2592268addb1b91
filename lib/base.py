"""Base class of property drivers."""
import os, random, tempfile
import runner, tlc
from ops import Env
import sc as S


class Prop:
    level = 'model_checking'
    targets = ('scotch', 'scotcherr')
    assumptions = []
    racy = False                      # scenarios involve real thread schedules
    nproc = 8

    def models(self, ctx):
        return []

    def coverage(self, ctx):
        return {}

    def scenarios(self, ctx):
        """list of (sid, fn(E))"""
        raise NotImplementedError

    def load(self, ctx):
        return S.Sc(ctx.bdir)

    def _wrap(self, ctx, sid, fn):
        def f(rec):
            rng = random.Random('%d:%s:%s' % (ctx.seed, ctx.prop, sid))
            E = Env(self.scobj, rng, rec, ctx.scratch)
            self.scobj.seed(rng.randrange(1, 1 << 20))
            fn(E)
            rec.call('contextExit')
            self.scobj.cleanup()
        return (sid, f)

    def run(self, ctx):
        self.scobj = self.load(ctx)
        self.fns = dict(self.scenarios(ctx))
        sc = [self._wrap(ctx, sid, fn) for sid, fn in self.fns.items()]
        return sc, runner.run(sc, ctx.scratch, self.nproc)

    def confirm(self, ctx, r):
        """Re-runs a rejected scenario; returns (rejection, events) or (None, None)."""
        tries = 40 if self.racy else 2
        sid = r['sid']
        batch = 8 if self.racy else 1
        for t in range(0, tries, batch):
            res = []
            lab = {}
            sc = []
            for k in range(batch):
                s2 = self._wrap(ctx, sid, self.fns[sid])
                sc.append(('%s#%d' % (sid, k), s2[1]))
            lines = runner.run(sc, ctx.scratch, min(self.nproc, batch))
            rej, g, d = tlc.validate(lines, ctx.scratch, workers=4)
            if rej:
                x = rej[0]
                ev = dict(lines)[x['sid']]
                x = dict(x)
                x['sid'] = sid
                return x, ev
        return None, None
