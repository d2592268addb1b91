"""C20: execution contexts and thread primitives under controlled schedules.
C21: multi-threaded algorithms under controlled schedules."""
import ctypes, os
import vbuild
import sc as S
from base import Prop

CODES = {1: 'Launch', 2: 'Enter', 3: 'BarIn', 4: 'BarOut', 5: 'RedIn', 6: 'RedOut', 7: 'ScanIn', 8: 'ScanOut', 9: 'Leave', 10: 'LaunchRet',
         11: 'CtxExit', 12: 'CtxExited', 13: 'Released', 14: 'CtxReady', 15: 'CtxEnded', 16: 'Split', 17: 'Sub', 18: 'SubEnd', 19: 'SplitRet',
         20: 'CtxInit'}
MAXPTS = 20000000


def sched(d):
    v = ctypes.CDLL(os.path.join(d, 'libvsched.so'), ctypes.RTLD_GLOBAL)
    v.vs_begin.argtypes = [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint, ctypes.c_uint64]
    v.vs_switches.restype = ctypes.c_long
    return v


def schedule(rng):
    """(seed, mean length of a slice, spurious wake-ups)"""
    return rng.randrange(1 << 40), rng.choice((1, 2, 3, 5, 10, 20, 40)), rng.choice((0, 0, 0, 5, 20))


class C20(Prop):
    def load(self, ctx):
        d = vbuild.build(('scotch', 'scotcherr'), 'sched')
        self.vs = sched(d)
        self.libs = [ctypes.CDLL(vbuild.helper(d, 'thr.c', 'libthr.so')),
                     ctypes.CDLL(vbuild.helper(d, 'thr.c', 'libthrc.so', ['-DCOMMON_PTHREAD_REDUCE_CANONICAL', '-DCOMMON_PTHREAD_SCAN_CANONICAL'],
                                               ['common_thread.c']))]
        return S.Sc(d)

    def models(self, ctx):
        return [dict(module='ThreadSync', cfg='ThreadSync.cfg')] + ([dict(module='ThreadSync', cfg='ThreadSyncBig.cfg')] if ctx.thorough else [])

    def drive(self, E, lib, pool, n, prog, core=None):
        P = (ctypes.c_int * (len(prog) + 1))(*prog, -1)
        C = None if core is None else (ctypes.c_int * n)(*core)
        lg = (ctypes.c_int * 100000)()
        s, m, sp = schedule(E.rng)
        self.vs.vs_begin(s, m, sp, MAXPTS)
        E.rec.call('context of %d threads (%s), tasks %s, schedule %d %d %d' % (n, 'imported' if pool else 'spawned', list(prog), s, m, sp))
        r = lib.thr_run(pool, n, P, C, lg, 100000)
        for i in range(r):
            c, k, t, a, b = lg[5 * i:5 * i + 5]
            E.rec.ev(CODES[k], c=c, t=t, a=a, b=b)

    def scenarios(self, ctx):
        N = 6000 if ctx.thorough else 1100

        def task(rng, k):
            return [rng.choice((1, 1, 1, 10 * rng.randrange(6) + 2, 10 * rng.randrange(6) + 2, 3, 3, 10 * rng.randint(1, 12) + 4)) for _ in range(k)] + [0]

        def f(E):
            rng = E.rng
            lib = self.libs[rng.random() < .25]
            n = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 7))
            prog = []
            for _ in range(rng.choice((0, 1, 1, 2, 3))):
                prog += task(rng, rng.choice((0, 1, 2, 3, 5)))
            if rng.random() < .3:
                prog.append(-2)
                for _ in range(rng.choice((0, 1, 2))):
                    prog += task(rng, rng.choice((0, 1, 2)))
                if rng.random() < .4:
                    prog += [-2] + task(rng, 1)
            self.drive(E, lib, rng.choice((0, 0, 1)), n, prog, [rng.randrange(16) for _ in range(n)] if rng.random() < .3 else None)

        return [('thr/%d' % i, f) for i in range(N)]


class Sc2(S.Sc):
    """Contexts always have several threads."""
    def context(self, nthr=None, det=None, seed=None):
        return S.Sc.context(self, self.rng.choice((2, 2, 3, 4, 5)), det, seed)


class C21(Prop):
    def load(self, ctx):
        d = vbuild.build(('scotch', 'scotcherr'), 'sched')
        self.vs = sched(d)
        return Sc2(d)

    def _wrap(self, ctx, sid, fn):
        def g(E):
            E.sc.rng = E.rng
            r = E.rng.random()
            m = E.rng.choice((3, 8, 20, 60, 200)) if r < .9 else E.rng.choice((1, 1000, 5000))
            s = E.rng.randrange(1 << 40)
            self.vs.vs_begin(s, m, E.rng.choice((0, 0, 0, 40)), 1 << 40)
            E.rec.call('schedule %d %d' % (s, m))
            fn(E)
        return Prop._wrap(self, ctx, sid, g)

    def scenarios(self, ctx):
        import p_graph, p_map, p_order, p_mesh

        def via(E, cg, p=1):
            return E.sc.bind(E.sc.context(det=E.rng.choice((None, None, None, 1)), seed=E.rng.randrange(99)), cg)
        p_map.via_context = p_order.via_context = via
        T = ctx.thorough
        out = []
        for m, c, k in ((p_graph, 'C05', 330), (p_graph, 'C06', 50), (p_map, 'C07', 300), (p_map, 'C08', 150), (p_map, 'C09', 120), (p_order, 'C10', 200), (p_order, 'C11', 60)):
            p = getattr(m, c)()
            p.scobj = self.scobj
            l = [x for x in p.scenarios(ctx)]
            st = max(1, len(l) // (k * (12 if T else 1)))
            out += [('%s/%s' % (c.lower(), i), f) for i, f in l[ctx.seed % st::st]]
        return out
