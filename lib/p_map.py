"""C07 mappings, C08 fixed vertices and remapping, C09 overlap partitioning."""
import gen, ops, archs, maps, strats
from base import Prop
from sc import Buf
from p_graph import pick_size


def mgraph(rng, i, hi=120):
    n = pick_size(rng, i, (hi // 3, hi))
    g = gen.any_graph(rng, n, n)
    return gen.weight(rng, g, pl=.2)


def via_context(E, cg, p=.4):
    rng = E.rng
    if rng.random() >= p:
        return None
    return E.sc.bind(E.sc.context(nthr=rng.choice((1, 2, 3, 4)), det=rng.choice((None, 1)), seed=rng.randrange(99)), cg)


def setup(E, i, hi=120, mx=16):
    rng = E.rng
    g = mgraph(rng, i, hi)
    cg = ops.build(E, 'g', g)
    style = rng.choice(('part', 'map', 'map', 'comp'))
    a = dict(k='cmplt', n=rng.randint(1, mx)) if style == 'part' else archs.gen_arch(rng, mx)
    ca = archs.ev_make(E, 'a', a)
    return g, cg, style, a, ca, via_context(E, cg)


class C07(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                g, cg, style, a, ca, via = setup(E, i)
                for _ in range(2):
                    s, d, bal = maps.pick_strat(E, archs.asize(a), .5)
                    maps.run(E, cg, a, s, d, bal=bal, style=style, via=via, ca=ca)
            return ('map/%d' % i, f)

        def grid(i):
            def f(E):
                rng = E.rng
                r, c = rng.randint(4, 24), rng.randint(4, 24)
                cg = ops.build(E, 'g', gen.grid(r, c), 'compact')
                k = rng.randint(2, 6)
                s, d, bal = maps.pick_strat(E, k, 0)
                part = Buf([-1] * (r * c), r * c)
                E.rec.call('graphPart grid %d x %d / %d, %s' % (r, c, k, d))
                ret = E.sc.call('SCOTCH_graphPart', cg, k, s, part)
                E.rec.ev('MapGrid', h='g', rc=[r, c], k=k, ret=ret, part=part.list(r * c), bal=int(bal * 1000), st=d)
            return ('grid/%d' % i, f)

        def cluster(i):
            def f(E):
                rng = E.rng
                g = gen.any_graph(rng, *[pick_size(rng, i, (20, 90))] * 2)
                if rng.random() < .3:
                    g = gen.weight(rng, g, pl=.2)
                maps.cluster(E, ops.build(E, 'g', g), rng.choice((0, maps.QUALITY, maps.SPEED, maps.BALANCE, maps.SAFETY)))
            return ('cluster/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [one(i) for i in range(700 * k)] + [grid(i) for i in range(60 * k)] + [cluster(i) for i in range(80 * k)]


class C08(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                g, cg, style, a, ca, via = setup(E, i)
                ts = maps.terms(a)
                old = None
                for k in range(3):
                    s, d, bal = maps.pick_strat(E, archs.asize(a), .5)
                    q = rng.choice((0, .1, .5, 1))
                    fix = [rng.choice(ts) if rng.random() < q else -1 for _ in range(g.n)] if rng.random() < .7 else None
                    if old is not None or rng.random() < .5:
                        if old is None:
                            old = [rng.choice(ts) for _ in range(g.n)]
                        if rng.random() < .3:
                            old = [x if rng.random() < .8 else -1 for x in old]
                    vml = [rng.randint(0, 9) for _ in range(g.n)] if rng.random() < .5 else None
                    p = maps.run(E, cg, a, s, d, bal=None, fix=fix, old=old, emra=rng.choice((0., .5, 1., 10.)), vml=vml, style=style, via=via, ca=ca)
                    old = p if rng.random() < .7 else None
            return ('fix/%d' % i, f)
        return [one(i) for i in range(5000 if ctx.thorough else 600)]


class C09(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                cg = ops.build(E, 'g', mgraph(rng, i))
                via = via_context(E, cg)
                for _ in range(2):
                    maps.overlap(E, cg, via)
            return ('ovl/%d' % i, f)
        return [one(i) for i in range(5000 if ctx.thorough else 600)]
