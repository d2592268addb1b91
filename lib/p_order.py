"""C10 block orderings, C11 separator trees and fill-in."""
import re
import gen, ops, maps, strats
from base import Prop
from sc import Buf, P
from p_graph import pick_size
from p_map import mgraph, via_context

LEVELMAX, LEVELMIN, LEAFSIMPLE, SEPASIMPLE, DISCONN = 0x1000, 0x2000, 0x4000, 0x8000, 0x10000


def pick_strat(E, p_rand=.5):
    rng, S = E.rng, E.sc
    r = rng.random()
    if r < .15:
        return S.strat(), 'default'
    if r < 1 - p_rand:
        fl = rng.choice((0, maps.QUALITY, maps.SPEED, maps.BALANCE, maps.SAFETY)) | rng.choice((0, 0, LEVELMAX, LEVELMIN, LEVELMAX | LEVELMIN)) | rng.choice((0, 0, LEAFSIMPLE)) | rng.choice((0, 0, SEPASIMPLE)) | rng.choice((0, 0, DISCONN))
        lv, bal = rng.randint(0, 5), rng.choice((.01, .1, .2, .5))
        s = S.strat()
        assert S.call('SCOTCH_stratGraphOrderBuild', s, fl, lv, bal) == 0
        return s, 'build %x %d %s' % (fl, lv, bal)
    t = strats.hord(rng)
    return S.strat('GraphOrder', t), t


def sep_mode(t):
    """How far the separator tree can be trusted: 0: separators are single
    blocks, 1: separators may be chains of blocks, 2: they may be anything."""
    if t == 'default' or t.startswith('build'):
        return 0
    mode, rest = 0, t
    i = t.find('ose=(')
    while i >= 0:
        d, j = 0, i + 4
        while True:
            d += (t[j] == '(') - (t[j] == ')')
            j += 1
            if d == 0:
                break
        x = t[i + 5:j - 1]
        if 'n{' in x or 'o{' in x:
            return 2
        if not re.match(r'^(s|g({pass=\d+})?)$', x):
            mode = 1
            if re.match(r'^b{strat=\((s|g({pass=\d+})?)\),cmin=\d+}$', x):
                rest = rest.replace(x, '')
        i = t.find('ose=(', j)
    if 'b{strat=' in rest:
        return 2
    return mode


class OrdBufs:
    def __init__(self, rng, n, every=False):
        give = lambda: every or rng.random() < .9
        mk = lambda k: Buf([-7] * k, max(k, 1)) if give() else None
        self.n = n
        self.perm, self.peri, self.cblk, self.rang, self.tree = mk(n), mk(n), mk(1), mk(n + 1), mk(n)

    def args(self):
        return [P(x) for x in (self.perm, self.peri, self.cblk, self.rang, self.tree)]

    def result(self):
        n = self.n
        r = dict(perm=[], peri=[], cblk=-1, rang=[], tree=[])
        has = ''
        if self.perm is not None: r['perm'] = self.perm.list(n); has += 'p'
        if self.peri is not None: r['peri'] = self.peri.list(n); has += 'i'
        if None not in (self.cblk, self.rang, self.tree):
            c = r['cblk'] = self.cblk.list(1)[0]
            has += 'b'
            if 0 <= c <= n:
                r['rang'], r['tree'] = self.rang.list(c + 1), self.tree.list(c)
        return r, has

    def guard(self):
        return 1 if all(x is None or x.guard() for x in (self.perm, self.peri, self.cblk, self.rang, self.tree)) else 0


def order(E, cg, via=None, lst=None, fill=0, strat=None, every=False):
    """One ordering computation; lst: 1-based vertices."""
    S, rng, n, b = E.sc, E.rng, cg.g.n, cg.g.b
    s, d = strat or pick_strat(E)
    g = via or cg
    B = OrdBufs(rng, n, every or fill)
    L = Buf([v - 1 + b for v in lst]) if lst is not None else None
    low = rng.random() < .5
    E.rec.call('graphOrder%s low=%s %s' % ('List %d' % len(lst) if lst is not None else '', low, d))
    chk = 0
    if low:
        o = S.obj('order')
        ret = S.call('SCOTCH_graphOrderInit', g, o, *B.args())
        if ret == 0:
            ret = S.call('SCOTCH_graphOrderComputeList', g, o, len(lst), P(L), s) if lst is not None else S.call('SCOTCH_graphOrderCompute', g, o, s)
            if ret == 0:
                chk = S.call('SCOTCH_graphOrderCheck', g, o)
            S.call('SCOTCH_graphOrderExit', g, o)
    elif lst is not None:
        ret = S.call('SCOTCH_graphOrderList', g, len(lst), P(L), s, *B.args())
    else:
        ret = S.call('SCOTCH_graphOrder', g, s, *B.args())
    r, has = B.result()
    E.rec.ev('Order', h=cg.h, ret=ret, chk=chk, r=r, hasperm=1 if 'p' in has or 'i' in has else 0, hasblk=1 if 'b' in has else 0, lst=lst or [], all=0 if lst is not None else 1, guard=B.guard(),
             same=1 if cg.same() and (L is None or L.same()) else 0, fill=fill, st=d, sep=sep_mode(d))
    return r if ret == 0 else None


def ograph(rng, i, zero=0, hi=120):
    g = mgraph(rng, i, hi)
    r = rng.random()
    g.vw = None if r < .5 else [1 if rng.random() < zero else rng.randint(1, 9) for _ in range(g.n)] if r < .9 else [rng.choice((0, 1, 2)) for _ in range(g.n)] if zero else [1 + (v % 7 == 0) * 40 for v in range(g.n)]
    return g


class C10(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                cg = ops.build(E, 'g', ograph(rng, i, rng.choice((0, 0, .2))))
                n = cg.g.n
                via = via_context(E, cg)
                for k in range(2):
                    lst = None
                    if rng.random() < .35:
                        q = rng.choice((0, .1, .5, .9, 1))
                        lst = [v + 1 for v in range(n) if rng.random() < q]
                        rng.shuffle(lst)
                    order(E, cg, via, lst)
            return ('ord/%d' % i, f)

        k = 8 if ctx.thorough else 1
        return [one(i) for i in range(700 * k)]


class C11(Prop):
    """Separator trees and fill-in."""
    racy = True

    def models(self, ctx):
        return [dict(module='NestDiss', cfg='NestDiss5.cfg' if ctx.thorough else 'NestDiss.cfg')]

    def scenarios(self, ctx):
        def tree(i):
            def f(E):
                rng = E.rng
                cg = ops.build(E, 'g', ograph(rng, i, 0, 160))
                n = cg.g.n
                via = via_context(E, cg)
                for k in range(3):
                    lst = None
                    if rng.random() < .25:
                        q = rng.choice((.3, .5, .9))
                        lst = [v + 1 for v in range(n) if rng.random() < q]
                        rng.shuffle(lst)
                    t = None
                    if rng.random() < .6:
                        t = strats.ndiss(rng)
                        t = (E.sc.strat('GraphOrder', t), t)
                    order(E, cg, via, lst, 0, t, True)
            return ('tree/%d' % i, f)

        def fill(i):
            def f(E):
                rng = E.rng
                r, c = rng.randint(5, 14), rng.randint(5, 14)
                cg = ops.build(E, 'g', gen.grid(r, c), 'compact')
                st = pick_strat(E, 0)
                simple = st[1].startswith('build') and int(st[1].split()[1], 16) & LEAFSIMPLE
                order(E, cg, None, None, 23 if simple else 15, st)
            return ('fill/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [tree(i) for i in range(500 * k)] + [fill(i) for i in range(80 * k)]
