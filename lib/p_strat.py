"""C18 strategy strings."""
import os, re
import gen, ops, maps
from base import Prop
from sc import Buf, P
from strattab import METH, COND, FILL
from ctypes import c_double


def ws(rng):
    return rng.choice((' ', '\t', '\n', '  ')) if rng.random() < .04 else ''


def up(rng, w):
    return w.upper() if rng.random() < .04 else w


def number(rng, whole=False, sign=True):
    s = rng.choice(('-', '+')) if sign and rng.random() < .15 else ''
    if whole:
        return s + str(rng.choice((0, 1, 2, 7, 10, 100, 999, 20000, rng.randint(0, 300)))) + (rng.choice(('.5', '.0', '.99')) if rng.random() < .03 else '')
    return s + rng.choice(('0', '1', '0.05', '0.5', '00.70', '0.250', '12', '3.0', '1e-9', '2.5E-3', '1e3', '0.123456789', '0.3333333', '12345678.875',
                           '%.4g' % rng.random() if rng.random() > .001 else '0.1', '%d' % rng.randint(0, 500)))


def pname(rng, p):
    return up(rng, p) + (rng.choice(('s', 'es', '2', 'Z')) if rng.random() < .03 else '')


class Expr:
    """Random conditions, with parentheses where needed and sometimes elsewhere."""
    LEV = {'|': 0, '&': 1, '!': 2, '<': 3, '=': 3, '>': 3, '+': 4, '-': 4, '*': 5, '%': 6}

    def __init__(self, rng, names, num, mod=True):
        self.rng, self.names, self.num, self.mod = rng, names, num, mod

    def wrap(self, r, need):
        t, l = r
        return '(%s%s%s)' % (ws(self.rng), t, ws(self.rng)) if l < need or self.rng.random() < .1 else t

    def arith(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < .4:
            if self.names and rng.random() < .55: return up(rng, rng.choice(self.names)), 9
            return self.num(), 9
        op = rng.choice('++--*%' if self.mod else '++--*')
        if op == '%' and self.mod == 'int':
            return '%s%%%d' % (rng.choice(self.names), rng.randint(1, 9)), 6
        l = self.LEV[op]
        return self.wrap(self.arith(d - 1), l) + ws(rng) + op + ws(rng) + self.wrap(self.arith(d - 1), l + 1), l

    def logic(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < .35:
            op = rng.choice('<=>')
            return self.wrap(self.arith(2), 4) + ws(rng) + op + ws(rng) + self.wrap(self.arith(2), 4), 3
        op = rng.choice('||&&!')
        if op == '!':
            return '!' + self.wrap(self.logic(d - 1), 2), 2
        l = self.LEV[op]
        return self.wrap(self.logic(d - 1), l) + op + self.wrap(self.logic(d - 1), l + 1), l


class Gen:
    """Random valid strings of the grammar."""
    def __init__(self, rng):
        self.rng = rng

    def sel(self, T, d):
        rng = self.rng
        return ('|' if rng.random() < .9 else ' | ').join(self.cat(T, d) for _ in range(rng.choice((1, 1, 1, 1, 2, 3))))

    def cat(self, T, d):
        rng = self.rng
        return ws(rng).join(self.test(T, d) for _ in range(rng.choice((0, 1, 1, 1, 1, 1, 2, 3))))

    def test(self, T, d):
        rng = self.rng
        r = rng.random()
        if d > 0 and r < .2 and COND[T]:
            c = Expr(rng, COND[T], lambda: number(rng)).logic(2)[0]
            e = ':' + self.sel(T, d - 1) if rng.random() < .5 else ''
            return '/%s%s?%s%s;' % (ws(rng), c, self.sel(T, d - 1), e)
        if d > 0 and r < .35:
            return '(%s)' % self.sel(T, d - 1)
        m = rng.choice(sorted(METH[T]))
        ps = METH[T][m]
        l = []
        if ps and rng.random() < .7:
            names = rng.sample(sorted(ps), rng.randint(1, len(ps)))
            if rng.random() < .05: names.append(rng.choice(names))
            for p in names:
                y = ps[p]
                if y[0] in 'id': v = number(rng, True)
                elif y[0] == 'f': v = number(rng)
                elif y[0] == 'c': v = up(rng, rng.choice(y[1])) if y[1] != 'rlsLS' else rng.choice(y[1])
                else:
                    v = self.sel(y[1], d - 1) if d > 0 else rng.choice(sorted(METH[y[1]]))
                    if rng.random() < .5: v = '(%s)' % v
                l.append('%s%s%s=%s%s' % (ws(rng), pname(rng, p), ws(rng), ws(rng), v))
        return up(rng, m) + ('%s{%s}' % (ws(rng), ','.join(l)) if l else '')


def mutate(rng, s):
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(5)
        if k == 0: s = s[:i]
        elif k == 1: s = s[:i] + s[i + 1:]
        elif k == 2: s = s[:i] + rng.choice('(){}|/?:;=,<>&!+-*%.@#"smnbfrxz 19') + s[i:]
        elif k == 3:
            j = min(len(s), i + rng.randint(1, 8))
            s = s[:i] + s[j:]
        elif i + 1 < len(s): s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
    return s


class C18(Prop):
    targets = ('scotch', 'scotcherr', 'ptscotch', 'ptscotcherr')

    def load(self, ctx):
        import sc
        return sc.Sc(ctx.bdir, dist=True)

    def scenarios(self, ctx):
        th = ctx.thorough

        def call(E, name, *a):
            return E.sc.call('SCOTCH_' + name, *a, lib=E.sc.pt) if name.startswith('stratDgraph') else E.sc.call('SCOTCH_' + name, *a)

        def save(E, s):
            p = E.path('str')
            f = E.sc.fopen(p, 'w')
            r = E.sc.call('SCOTCH_stratSave', s, f)
            E.sc.fclose(f)
            t = open(p, encoding='latin-1').read()
            os.unlink(p)
            return r, t

        def fill(E, s, T, t):
            """One filling and its saved form."""
            E.rec.call('strat%s "%s"' % (FILL[T], t))
            ret = call(E, 'strat' + FILL[T], s, t.encode('latin-1'))
            sret, out = save(E, s) if ret == 0 else (0, '')
            E.rec.ev('Strat', t=T, s=list(t), ret=ret, sret=sret, out=list(out))
            return out if ret == 0 else None

        def fresh(E):
            o = E.sc.obj('strat')
            E.sc.call('SCOTCH_stratInit', o)
            return o

        def one(i):
            def f(E):
                rng = E.rng
                T = rng.choice(sorted(FILL))
                s = fresh(E)
                for _ in range(5):
                    t = Gen(rng).sel(T, rng.choice((0, 1, 1, 2, 2, 3)))
                    if len(t) > 300: continue
                    if rng.random() < .45: t = mutate(rng, t)
                    if re.search(r'[eE][-+]?\d{3}|\d{10}|\d\d[eE]\+?\d\d', t): continue      # beyond the range of numbers
                    out = fill(E, s, T, t)
                    if out is not None and len(out) < 600 and rng.random() < .4:
                        fill(E, s, T, out)
                    if rng.random() < .2:
                        E.sc.call('SCOTCH_stratExit', s)
                        s = fresh(E)
                        T = rng.choice(sorted(FILL))
                E.sc.call('SCOTCH_stratExit', s)
            return ('string/%d' % i, f)
        out = [one(i) for i in range(6000 if th else 700)]

        def built(i):
            def f(E):
                rng = E.rng
                k = rng.choice(('GraphMap', 'GraphCluster', 'GraphOrder', 'GraphPartOvl', 'MeshOrder', 'DgraphMap', 'DgraphOrder', 'DgraphCluster'))
                T = {'GraphMap': 'K', 'GraphCluster': 'K', 'GraphOrder': 'O', 'GraphPartOvl': 'W', 'MeshOrder': 'M', 'DgraphMap': 'Q', 'DgraphCluster': 'Q', 'DgraphOrder': 'S'}[k]
                fl = rng.choice((0, 1, 2, 4, 8)) | rng.choice((0, 0, 0x100)) | rng.choice((0, 0, 0x200))
                bal = c_double(rng.choice((0.01, .05, .1, .5)))
                n = rng.choice((1, 2, 3, 4, 7, 16, 64))
                if 'Order' in k:
                    fl = (fl & 0xff) | rng.choice((0, 0x1000, 0x2000, 0x3000)) | rng.choice((0, 0x4000)) | rng.choice((0, 0x8000)) | rng.choice((0, 0x10000))
                a = {'GraphMap': (fl, n, bal), 'GraphPartOvl': (fl, n, bal), 'GraphCluster': (fl, n, c_double(rng.choice((0., .3, 1.))), bal),
                     'GraphOrder': (fl, rng.randint(0, 5), bal), 'MeshOrder': (fl, bal), 'DgraphMap': (fl, rng.randint(1, 8), n, bal),
                     'DgraphCluster': (fl, rng.randint(1, 8), n, c_double(rng.choice((0., .3, 1.))), bal),
                     'DgraphOrder': (fl, rng.randint(1, 8), rng.randint(0, 5), bal)}[k]
                s = fresh(E)
                E.rec.call('strat%sBuild %s' % (k, [getattr(x, 'value', x) for x in a]))
                ret = call(E, 'strat%sBuild' % k, s, *a)
                sret, o = save(E, s) if ret == 0 else (0, '')
                E.rec.ev('StratBuilt', t=T, ret=ret, sret=sret, out=list(o))
                if ret == 0:
                    fill(E, s, T, o)
                E.sc.call('SCOTCH_stratExit', s)
            return ('built/%d' % i, f)
        out += [built(i) for i in range(600 if th else 80)]

        def cond(i):
            def f(E):
                rng = E.rng
                g = gen.any_graph(rng, *([rng.randint(2, 30)] * 2))
                if g.n < 2: return
                g.vw = [rng.randint(1, 5) for _ in range(g.n)] if rng.random() < .5 else None
                cg = ops.build(E, 'g', g)
                for _ in range(6):
                    near = lambda: str(rng.choice((g.n, g.n + rng.randint(-2, 2), rng.randint(0, 12))))
                    num = lambda: near() if rng.random() < .85 else rng.choice(('0.5', '1.25', '-2', '2.75', '1e1', '+3'))
                    c = Expr(rng, ['edge', 'levl', 'load', 'vert', 'vert', 'mdeg'], num, 'int').logic(3)[0]
                    t = '/%s?b{strat=s,cmin=1}:s;' % c
                    s = fresh(E)
                    E.rec.call('graphOrder ' + t)
                    ret = call(E, 'stratGraphOrder', s, t.encode())
                    B = Buf([-1], 1)
                    pe = Buf([-1] * g.n, g.n)
                    if ret == 0:
                        if rng.random() < .5:
                            r2, o = save(E, s)
                            E.sc.call('SCOTCH_stratExit', s)
                            s = fresh(E)
                            ret = call(E, 'stratGraphOrder', s, o.encode())
                        if ret == 0:
                            ret = E.sc.call('SCOTCH_graphOrder', cg, s, P(pe), None, P(B), None, None)
                    E.rec.ev('StratCond', h='g', s=list(c), ret=ret, cblk=B.list()[0])
                    E.sc.call('SCOTCH_stratExit', s)
            return ('cond/%d' % i, f)
        out += [cond(i) for i in range(1500 if th else 200)]
        return out
