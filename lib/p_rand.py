"""C19: reproducibility, pseudo-random generators, context options."""
import ctypes, hashlib, json, os, random, subprocess, sys, tempfile
import gen, maps, strats, vbuild
import sc as S
from base import Prop
from sc import Buf, P
from p_thread import sched, schedule

WIDE = 2147483647


class Sim:
    """Executes a script on the library and yields the events."""
    def __init__(self, sc, vs, tmp, call, ev):
        self.sc, self.vs, self.tmp, self.call, self.ev = sc, vs, tmp, call, ev
        self.ctx = {}
        self.gr = {}
        self.nosave = set()

    def graph(self, i, spec):
        """The same graph, at another place in memory."""
        rng = random.Random(spec)
        n = rng.choice((12, 30, 30, 60, 60, 120, 200))
        g = gen.weight(rng, gen.any_graph(rng, n, n), vzero=False)
        cg = self.sc.graph_build(g.raw(rng, 'compact'))
        assert cg.ret == 0
        cg.g = g
        return cg

    def run(self, script):
        L = self.sc.call
        for op in script:
            k, a = op[0], op[1:]
            self.call('%s %s' % (k, str(a)[:300]))
            if k == 'process':
                self.ev('RndProcess', c=0)
            elif k == 'seed':
                if a[0]: L('SCOTCH_contextRandomSeed', self.ctx[a[0]], a[1])
                else: L('SCOTCH_randomSeed', a[1])
                self.ev('RndSeed', c=a[0], val=a[1])
            elif k == 'reset':
                if a[0]: L('SCOTCH_contextRandomReset', self.ctx[a[0]])
                else: L('SCOTCH_randomReset')
                self.ev('RndReset', c=a[0])
            elif k == 'proc':
                L('SCOTCH_randomProc', a[0])
                self.ev('RndProc', c=0, val=a[0])
            elif k == 'val':
                self.ev('RndVal', c=0, max=a[0], odd=a[1], val=L('SCOTCH_randomVal', a[0]))
            elif k == 'save':
                p = os.path.join(self.tmp, 'r%s' % a[0])
                f = self.sc.fopen(p, 'w')
                r = L('SCOTCH_randomSave', f)
                self.sc.fclose(f)
                (self.nosave.discard if r == 0 else self.nosave.add)(a[0])
                self.ev('RndSave', c=0, f=a[0], ret=r, txt=' '.join(open(p).read().split()))
            elif k == 'load':
                p = os.path.join(self.tmp, 'r%s' % a[0])
                tk = open(p).read().split()
                if not tk: tk = ['1']
                if a[1] == 'cut': tk = tk[:a[2] % len(tk)]
                if a[1] == 'word': tk[a[2] % len(tk)] = 'x7'
                if a[1] == 'version': tk[0] = str(2 + a[2])
                with open(p + 'b', 'w') as h:
                    h.write(('\n' if a[2] & 1 else '\t ').join(tk) + '\n')
                f = self.sc.fopen(p + 'b', 'r')
                r = L('SCOTCH_randomLoad', f)
                self.sc.fclose(f)
                self.ev('RndLoad', c=0, f=a[0], bad=int(a[1] != '' or a[0] in self.nosave), ret=int(r != 0))
            elif k == 'ctx':
                o = self.sc.obj('context')
                r = L('SCOTCH_contextInit', o)
                if r == 0 and a[1]: r = L('SCOTCH_contextThreadSpawn', o, a[1], None)
                self.ctx[a[0]] = o
                self.ev('RndCtx', c=a[0], n=a[1] or 1, ret=r)
            elif k == 'exit':
                for cg in [x for x in self.gr if x[0] == a[0]]: del self.gr[cg]
                L('SCOTCH_contextExit', self.ctx.pop(a[0]))
                self.ev('RndExit', c=a[0])
            elif k == 'clone':
                self.ev('RndClone', c=a[0], ret=L('SCOTCH_contextRandomClone', self.ctx[a[0]]))
            elif k == 'set':
                self.ev('RndSet', c=a[0], num=a[1], val=a[2], ret=L('SCOTCH_contextOptionSetNum', self.ctx[a[0]], a[1], a[2]))
            elif k == 'get':
                v = Buf([-77], 1)
                r = L('SCOTCH_contextOptionGetNum', self.ctx[a[0]], a[1], P(v))
                self.ev('RndGet', c=a[0], num=a[1], ret=r, val=v.list()[0])
            elif k == 'parse':
                r = L('SCOTCH_contextOptionParse', self.ctx[a[0]], a[1].encode())
                self.ev('RndParse', c=a[0], s=list(a[1]), ret=int(r != 0))
            elif k == 'call':
                self.libcall(*a)

    def libcall(self, c, gi, what, st, par, sch):
        L, sc = self.sc.call, self.sc
        cg = self.gr.get((0, gi)) or self.graph(0, gi)
        self.gr[(0, gi)] = cg
        g = cg
        if c:
            g = self.gr.get((c, gi))
            if g is None:
                g = sc.bind(self.ctx[c], cg)
                self.gr[(c, gi)] = g
        n = cg.g.n
        self.vs.vs_begin(sch[0], sch[1], sch[2], 1 << 40)
        o = Buf([0] * (n + 2), n + 2)
        s = None
        x = []
        if what in ('part', 'map', 'order', 'ovl', 'repart'):
            s = sc.strat()
            if isinstance(st, str):
                r = L({'order': 'SCOTCH_stratGraphOrder', 'ovl': 'SCOTCH_stratGraphPartOvl'}.get(what, 'SCOTCH_stratGraphMap'), s, st.encode())
            elif st:
                r = L({'order': 'SCOTCH_stratGraphOrderBuild', 'ovl': 'SCOTCH_stratGraphPartOvlBuild'}.get(what, 'SCOTCH_stratGraphMapBuild'), s, *(st[:2] + [ctypes.c_double(st[2])]))
            else:
                r = 0
            assert r == 0, st
        if what == 'part': r = L('SCOTCH_graphPart', g, par, s, o)
        elif what == 'repart':
            ob = Buf([(i * 7 + par) % par for i in range(n)], n)
            r = L('SCOTCH_graphRepart', g, par, ob, ctypes.c_double(2.0), None, s, o)
        elif what == 'map':
            a = sc.obj('arch')
            L('SCOTCH_archInit', a)
            r = L('SCOTCH_archTorus2' if par & 1 else 'SCOTCH_archMesh2', a, 2 + par % 3, 3)
            r = L('SCOTCH_graphMap', g, a, s, o)
            L('SCOTCH_archExit', a)
        elif what == 'ovl': r = L('SCOTCH_graphPartOvl', g, par, s, o)
        elif what == 'order':
            q = [Buf([0] * (n + 2), n + 2) for _ in range(3)]
            cn = Buf([0], 1)
            r = L('SCOTCH_graphOrder', g, s, o, q[0], P(cn), q[1], q[2])
            k = cn.list()[0]
            x = [cn.list(), q[0].list()[:n], q[1].list()[:k + 1], q[2].list()[:k]]
        elif what == 'color':
            cn = Buf([0], 1)
            r = L('SCOTCH_graphColor', g, o, P(cn), 0)
            x = [cn.list()]
        elif what == 'match':
            cn = Buf([n], 1)
            r = L('SCOTCH_graphCoarsenMatch', g, P(cn), ctypes.c_double(par / 10.), 0, o)
            x = [cn.list()]
        if s is not None: sc.strat_free(s)
        res = hashlib.md5(json.dumps([r, o.list(), x]).encode()).hexdigest()[:16] if r == 0 else 'error %d' % r
        self.ev('RndCall', c=c, what='%s g%s %s %s' % (what, gi, json.dumps(st).replace('"', '').replace('\\', '').replace('|', '/'), par), res=res)


def calls(rng, k):
    """k library calls: [graph, what, strategy, parameter]"""
    r = []
    for _ in range(k):
        what = rng.choice(('part', 'part', 'part', 'map', 'order', 'order', 'ovl', 'color', 'match', 'repart'))
        par = rng.choice((2, 3, 4, 7, 8)) if what != 'match' else rng.randint(5, 10)
        st = None
        p = rng.random()
        if what in ('part', 'map', 'repart') and p < .7:
            st = strats.kmap(rng) if p < .35 else [rng.choice((0, 1, 2, 4, 0x100, 0x104)), par if what != 'map' else 9, .05]
        if what == 'order' and p < .7:
            st = strats.hord(rng) if p < .4 else [rng.choice((0, 1, 2, 4, 0x4000)), rng.choice((0, 1, 3)), .2] if 0 else strats.ndiss(rng)
        if what == 'ovl' and p < .6:
            st = strats.ovl(rng)
        r.append([rng.randrange(1 << 30), what, st, par])
    return r


def known(rng):
    """Sets the generator in a process that has been used before."""
    return [['proc', rng.choice((0, 0, 0, 2, 5))], ['seed', 0, rng.randrange(1000)]]


class C19(Prop):
    def load(self, ctx):
        self.d = vbuild.build(('scotch', 'scotcherr'), 'sched')
        self.vs = sched(self.d)
        return S.Sc(self.d)

    def script_gen(self, rng):
        """Histories of the generators without long calls."""
        sc = [['process']]
        files, ctx, odd = [], {}, (None, None)
        seed, proc, fresh = None, 0, False
        for _ in range(rng.randint(5, 60)):
            k = rng.random()
            if k < .2:
                seed, fresh = rng.choice((0, 1, 3, 7, 12, 101, 4243, rng.randrange(1 << 30), -5)), True
                sc.append(['seed', 0, seed])
            elif k < .3:
                sc.append(['reset', 0])
                fresh = True
            elif k < .35:
                proc = rng.choice((0, 1, 2, 3, 4, 16))
                sc += [['proc', proc], ['reset', 0]][:rng.choice((1, 2, 2))]
                fresh = False
            elif k < .38:
                # the same seed for several instances
                seed = rng.choice((1, 3, 7, 101))
                sc.append(['seed', 0, seed])
                for proc in rng.sample((0, 2, 4, 16), rng.choice((2, 3))):
                    sc += [['proc', proc], ['reset', 0], ['val', WIDE, 1]]
            elif k < .7:
                # wide values first, so that streams of different seeds are compared
                m = rng.choice((WIDE, WIDE, 1, 2, 3, 10, 97, 1 << 20))
                sc.append(['val', m, int(seed is not None and seed % 2 == 1 and seed > 0 and proc % 2 == 0)])
            elif k < .76:
                files.append(len(files))
                sc.append(['save', files[-1]])
            elif k < .82 and files:
                bad = rng.choice(('', '', '', 'cut', 'word', 'version'))
                sc.append(['load', rng.choice(files), bad, rng.randint(0, 6)])
                seed = None
                proc = 1
            elif k < .88 and len(ctx) < 3:
                c = len(ctx) + 1 + 10 * rng.randrange(1000)
                ctx[c] = 1
                sc.append(['ctx', c, rng.choice((0, 1))])
            elif ctx:
                c = rng.choice(list(ctx))
                j = rng.random()
                if j < .1:
                    del ctx[c]
                    sc.append(['exit', c])
                elif j < .25: sc.append(['clone', c])
                elif j < .35: sc.append(['seed', c, rng.randrange(1000)])
                elif j < .45: sc.append(['reset', c])
                elif j < .65: sc.append(['set', c, rng.choice((0, 0, 1, 1, 1, 2, -1, 77)), rng.choice((0, 0, 1, 1, 2, -3, 100))])
                elif j < .85: sc.append(['get', c, rng.choice((0, 1, 0, 1, 0, 1, 2, -1))])
                else:
                    t = ''.join(rng.choice(('d', 'u', 'f', 'r', 'd,', 'f,', 'r, ', 'u ', ' d', 'f ,')) for _ in range(rng.randint(0, 4)))
                    if rng.random() < .25:
                        i = rng.randint(0, len(t))
                        t = t[:i] + rng.choice((',', ' ', 'x', '0', ',,', 'D', '=')) + t[i:]
                    sc += [['parse', c, t], ['get', c, 0], ['get', c, 1]]
                if seed is not None and c and j >= .25 and j < .45: seed = None   # may be the global generator
        for c in ctx:
            sc += [['get', c, 0], ['get', c, 1], ['exit', c]]
        return sc

    def script_rep(self, rng, nctx):
        """The same calls in several contexts, in the same position of their generators."""
        cs = calls(rng, rng.choice((1, 1, 2, 3)))
        sc = []
        sd = rng.randrange(1, 1 << 20)
        vals = [['val', 97, 0]] * rng.choice((0, 0, 1, 3))      # a copy starts where the original is
        if vals: hows = rng.choice((.6, .9)), .6, .9, rng.random()
        else: hows = [rng.random() for _ in range(4)]
        for k in range(nctx):
            c = k + 1
            n = rng.choice((1, 2, 2, 3, 4, 5)) if nctx > 1 else 0
            if rng.random() < .3: sc.append(['call', 0] + rng.choice(calls(rng, 1)) + [schedule(rng)])      # perturbs the global generator
            how = hows[k % 4]
            if how < .5:
                sc += [['ctx', c, n], ['set', c, 0, 1], ['clone', c], ['seed', c, sd]]
            elif how < .8:
                sc += [['seed', 0, sd]] + vals + [['ctx', c, n], ['parse', c, rng.choice(('d', ' d', 'u,d'))], ['clone', c]]
            else:
                sc += [['ctx', c, n], ['seed', 0, sd]] + vals + [['set', c, 0, 1]] + rng.choice(([], [['clone', c]]))
            for x in cs:
                sc.append(['call', c] + x + [schedule(rng)])
                if rng.random() < .3:
                    sc += [['reset', c]] + [['call', c] + y + [schedule(rng)] for y in cs[:1 + cs.index(x)]]
            if rng.random() < .6: sc.append(['exit', c])
        return sc

    def script_seq(self, rng):
        """Sequential contexts without determinism, and the global context."""
        cs = calls(rng, rng.choice((1, 2, 3)))
        sc = []
        sd = rng.randrange(1, 1 << 20)
        for k in range(rng.choice((2, 2, 3))):
            if rng.random() < .4:
                sc += [['seed', 0, sd]] + ([['reset', 0]] if rng.random() < .5 else [])
                c = 0
            else:
                c = k + 1
                sc += [['ctx', c, 1], ['clone', c], ['seed', c, sd]]
            sc += [['call', c] + x + [schedule(rng)] for x in cs]
            if c == 0 and rng.random() < .5:
                sc += [['save', k], ['val', 1000, 0]] + [['call', 0] + x + [schedule(rng)] for x in cs[:1]] + [['load', k, '', k], ['val', 1000, 0]] + [['call', 0] + x + [schedule(rng)] for x in cs[:1]]
        return sc

    def child(self, E, script):
        e = dict(os.environ, SCOTCH_PTHREAD_NUMBER='1', PAD='x' * E.rng.randrange(4000))
        E.rec.call('new process: %s' % str(script)[:300])
        p = subprocess.run([sys.executable, os.path.abspath(__file__), self.d, E.tmp], input=json.dumps(script), capture_output=True, text=True, env=e, timeout=100)
        for l in p.stdout.splitlines():
            if l.startswith('E '):
                d = json.loads(l[2:])
                E.rec.ev(d.pop('op'), **d)
        if p.returncode:
            if p.returncode == 1 and 'Traceback' in p.stderr:
                raise RuntimeError(p.stderr)
            E.rec.ev('Crash', why='exit %d' % p.returncode, during='child process')

    def scenarios(self, ctx):
        T = ctx.thorough
        out = []

        def sim(E):
            return Sim(E.sc, self.vs, E.tmp, E.rec.call, E.rec.ev)

        def gens(E):
            s = sim(E)
            s.tmp = tempfile.mkdtemp(dir=E.tmp)
            g = self.script_gen(E.rng)
            s.run(g[:1] + known(E.rng) + g[1:])

        def rep(E):
            sim(E).run([['process']] + known(E.rng) + self.script_rep(E.rng, E.rng.choice((2, 2, 3, 4))))

        def seq(E):
            s = sim(E)
            s.tmp = tempfile.mkdtemp(dir=E.tmp)
            s.run([['process']] + known(E.rng) + self.script_seq(E.rng))

        def proc(E):
            rng = E.rng
            E.tmp = tempfile.mkdtemp(dir=E.tmp)
            k = rng.random()
            pre = rng.choice(([], [['val', 100, 0]], [['proc', 3]], [['reset', 0]], [['val', WIDE, 0], ['save', 0]]))
            if k < .5: body = [['call', 0] + x + [schedule(rng)] for x in calls(rng, rng.choice((1, 2)))] + [['val', 100, 0]]
            elif k < .8: body = self.script_rep(rng, 2)
            else: body = self.script_gen(rng)[1:]
            for _ in range(2):
                self.child(E, [['process']] + pre + body)

        for i in range(4000 if T else 400): out.append(('gen/%d' % i, gens))
        for i in range(4000 if T else 400): out.append(('rep/%d' % i, rep))
        for i in range(1500 if T else 160): out.append(('seq/%d' % i, seq))
        for i in range(600 if T else 60): out.append(('proc/%d' % i, proc))
        return out


if __name__ == '__main__':
    d, tmp = sys.argv[1:3]
    script = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    vs = sched(d)

    def ev(op, **kw):
        kw['op'] = op
        out.write('E ' + json.dumps(kw) + '\n')
        out.flush()
    try:
        Sim(S.Sc(d), vs, tmp, lambda w: None, ev).run(script)
    except Exception:
        import traceback
        out.write(traceback.format_exc())
        out.flush()
        os._exit(3)
    os._exit(0)
