"""Random strategy strings of every method table."""


def _f(rng, *v):
    return rng.choice(v)


def params(rng, name, ps, p=.7):
    l = ['%s=%s' % (k, v() if callable(v) else v) for k, v in ps if rng.random() < p or k in ('sep', 'bnd', 'org', 'asc', 'low', 'strat')]
    return name + ('{' + ','.join(l) + '}' if l else '')


def cond(rng, names=('load', 'levl', 'edge', 'vert'), d=0):
    if d < 2 and rng.random() < .3:
        k = rng.randrange(3)
        if k == 0: return '(%s)&(%s)' % (cond(rng, names, d + 1), cond(rng, names, d + 1))
        if k == 1: return '(%s)|(%s)' % (cond(rng, names, d + 1), cond(rng, names, d + 1))
        return '!(%s)' % cond(rng, names, d + 1)
    n = rng.choice(names)
    e = rng.choice(('%d' % rng.randint(0, 60), '%d' % rng.randint(1, 9), '(2*%s)' % rng.choice(names), '(%s+3)' % rng.choice(names), '(%s-1)' % rng.choice(names), '(%s%%3)' % rng.choice(names)))
    return '%s%s%s' % (n, rng.choice('<>='), e)


def combine(rng, one, names, d, opt=True):
    """Sequencing, selection and conditions over the strategies that one() makes."""
    r = rng.random()
    if d > 2 or r < .5: return one()
    if r < .7 and opt: return one() + one()
    if r < .8: return '(%s)|(%s)' % (one(), one())
    if r < .9 or not opt: return '/%s?(%s):(%s);' % (cond(rng, names), one(), one())
    return '/%s?(%s);' % (cond(rng, names), one())


def bipart(rng, d=0, z=False):
    """Bipartitioning strategy."""
    init = lambda: rng.choice((lambda: params(rng, 'h', [('pass', lambda: rng.randint(1, 8))]), lambda: params(rng, 'g', [('pass', lambda: rng.randint(1, 8))]), lambda: 'z' if z else 'h'))()
    # diffusion only works on band graphs, which have anchor vertices
    dif = lambda: params(rng, 'd', [('pass', lambda: rng.randint(1, 40)), ('type', lambda: rng.choice('bk'))]) if rng.random() < .5 else ''
    ref = lambda: rng.choice((lambda: params(rng, 'f', [('move', lambda: rng.choice((-1, 0, 5, 120))), ('pass', lambda: rng.choice((-1, 1, 5))), ('bal', lambda: rng.choice(('0', '0.05', '0.3'))), ('type', lambda: rng.choice('ab'))]),
                              lambda: 'x',
                              lambda: params(rng, 'b', [('bnd', lambda: '(%s%s)' % (dif(), ref())), ('org', lambda: '(%s)' % ref()), ('width', lambda: rng.randint(1, 4))]) if rng.random() < .5 else 'x'))()
    r = rng.random()
    if d < 2 and r < .4:
        return 'm{vert=%d,rat=%s,low=(%s),asc=(%s)}' % (rng.randint(2, 30), rng.choice(('0.7', '0.8', '0.9')), bipart(rng, d + 1, z), ref())
    return combine(rng, init, ('load', 'load0', 'levl', 'edge', 'vert'), d, z) + (ref() if rng.random() < .7 else '')


def kmap(rng, d=0):
    """K-way mapping strategy."""
    init = lambda: params(rng, 'r', [('job', lambda: rng.choice('ut')), ('map', lambda: rng.choice('ut')), ('poli', lambda: rng.choice('rlsLS')), ('bal', lambda: rng.choice(('0', '0.05', '0.2'))), ('sep', lambda: '(%s)' % bipart(rng, z=rng.random() < .3))])
    dif = lambda: params(rng, 'd', [('pass', lambda: rng.randint(1, 40))]) if rng.random() < .5 else ''
    ref = lambda: rng.choice((lambda: params(rng, 'f', [('move', lambda: rng.choice((-1, 0, 5, 120))), ('pass', lambda: rng.choice((-1, 1, 5))), ('bal', lambda: rng.choice(('0', '0.05', '0.3')))]),
                              lambda: params(rng, 'x', [('bal', lambda: rng.choice(('0', '0.05', '0.3')))]),
                              lambda: params(rng, 'b', [('bnd', lambda: '(%s%s)' % (dif(), ref())), ('org', lambda: '(%s)' % ref()), ('width', lambda: rng.randint(1, 4))]) if rng.random() < .5 else 'f'))()
    r = rng.random()
    if d < 2 and r < .4:
        return 'm{vert=%d,rat=%s,low=(%s),asc=(%s)}' % (rng.randint(2, 40), rng.choice(('0.7', '0.8', '0.9')), kmap(rng, d + 1), ref())
    return combine(rng, init, ('load', 'levl', 'edge', 'vert'), d, False) + (ref() if rng.random() < .6 else '')


def vsep(rng, d=0):
    """Vertex separation strategy."""
    init = lambda: rng.choice((lambda: params(rng, 'h', [('pass', lambda: rng.randint(1, 8))]),
                               lambda: params(rng, 'g', [('pass', lambda: rng.randint(1, 8))]),
                               lambda: 'z',
                               lambda: 'e{strat=(%s),type=%s}' % (bipart(rng, 1, z=True), rng.choice('tf'))))()
    ref = lambda: rng.choice((lambda: params(rng, 'f', [('move', lambda: rng.choice((-1, 0, 5, 120))), ('pass', lambda: rng.choice((-1, 1, 5))), ('bal', lambda: rng.choice(('0', '0.05', '0.3')))]),
                              lambda: params(rng, 'b', [('bnd', lambda: '(%s)' % ref()), ('org', lambda: '(%s)' % ref()), ('width', lambda: rng.randint(1, 4))]) if rng.random() < .5 else 'f'))()
    if d < 2 and rng.random() < .4:
        return 'm{vert=%d,rat=%s,type=%s,low=(%s),asc=(%s)}' % (rng.randint(2, 30), rng.choice(('0.7', '0.8', '0.9')), rng.choice('hs'), vsep(rng, d + 1), ref())
    return combine(rng, init, ('load', 'levl', 'edge', 'vert'), d) + (ref() if rng.random() < .7 else '')


def ovl(rng, d=0):
    """Partitioning with overlap strategy."""
    init = lambda: rng.choice((lambda: 'r{sep=(%s)}' % vsep(rng), lambda: 'e{strat=(%s)}' % kmap(rng, 1)))()
    ref = lambda: params(rng, 'f', [('move', lambda: rng.choice((-1, 0, 5, 120))), ('pass', lambda: rng.choice((-1, 1, 5))), ('bal', lambda: rng.choice(('0', '0.05', '0.3')))])
    if d < 2 and rng.random() < .4:
        return 'm{vert=%d,rat=%s,low=(%s),asc=(%s)}' % (rng.randint(2, 40), rng.choice(('0.7', '0.8', '0.9')), ovl(rng, d + 1), ref())
    return combine(rng, init, ('part', 'edge', 'vert'), d, False) + (ref() if rng.random() < .6 else '')


def hord(rng, d=0, leaf=False):
    """Ordering strategy."""
    amd = lambda: params(rng, rng.choice('df'), [('cmin', lambda: rng.choice((0, 1, 5, 15, 100))), ('cmax', lambda: rng.choice((1, 10, 100, 100000))), ('frat', lambda: rng.choice(('0', '0.08', '0.5')))])
    base = [lambda: 's', amd, amd, lambda: params(rng, 'g', [('pass', lambda: rng.randint(1, 6))])]
    if d >= 3 or leaf and rng.random() < .6:
        return rng.choice(base)()
    comp = [lambda: 'b{strat=(%s),cmin=%d}' % (hord(rng, d + 1), rng.choice((1, 3, 10, 64))),
            lambda: 'o{strat=(%s)}' % hord(rng, d + 1),
            lambda: 'c{rat=%s,cpr=(%s),unc=(%s)}' % (rng.choice(('0.5', '0.7', '0.9', '1')), hord(rng, d + 1), hord(rng, d + 1)),
            lambda: 'k{siz=%d,strat=(%s)}' % (rng.choice((1, 2, 5, 20)), kmap(rng, 1)),
            lambda: 'n{sep=(%s),ole=(%s),ose=(%s)}' % (ndsep(rng), hord(rng, d + 1, True), hord(rng, d + 1, True)),
            lambda: 'n{sep=(%s),ole=(%s),ose=(%s)}' % (ndsep(rng), hord(rng, d + 1, True), rng.choice(('s', 'g{pass=%d}' % rng.randint(1, 6), 'b{strat=(g),cmin=%d}' % rng.randint(1, 4)))),
            lambda: '/%s?(%s):(%s);' % (cond(rng, ('load', 'levl', 'edge', 'vert', 'mdeg')), hord(rng, d + 1), hord(rng, d + 1))]
    return rng.choice(base + comp * 2)()


def ndiss(rng):
    """Nested dissection with separators made of single blocks or chains."""
    amd = lambda: params(rng, rng.choice('df'), [('cmin', lambda: rng.choice((0, 1, 5, 15))), ('cmax', lambda: rng.choice((1, 10, 100000))), ('frat', lambda: rng.choice(('0', '0.08')))])
    t = 'n{sep=(%s),ole=(%s),ose=(%s)}' % (ndsep(rng), rng.choice((lambda: 's', amd, lambda: 'g', lambda: 'k{siz=%d,strat=(r{sep=(h{pass=5})})}' % rng.randint(2, 9)))(), rng.choice(('s', 's', 'g', 'b{strat=(g),cmin=%d}' % rng.randint(1, 3))))
    r = rng.random()
    return t if r < .6 else 'o{strat=(%s)}' % t if r < .8 else 'c{rat=%s,cpr=(%s),unc=(%s)}' % (rng.choice(('0.7', '1')), t, t)


def ndsep(rng):
    r = rng.random()
    s = vsep(rng, 1)
    return '/%s?(%s);' % (cond(rng, ('levl', 'vert')), s) if r < .5 else s if r < .7 else '(%s)|(%s)' % (s, vsep(rng, 1))


def msep(rng, d=0):
    """Separation of meshes by nodes."""
    fm = lambda: params(rng, 'f', [('move', lambda: rng.choice((0, 10, 80))), ('pass', lambda: rng.choice((-1, 1, 10))), ('bal', lambda: rng.choice(('0', '0.1', '0.5')))])
    gg = lambda: params(rng, 'h', [('pass', lambda: rng.choice((1, 5, 10)))])
    base = [gg, gg, lambda: 'h%s' % fm()]
    if d < 2:
        base += [lambda: 'm{vnod=%d,low=(%s),asc=(%s)%s%s}' % (rng.choice((2, 5, 20, 100)), msep(rng, d + 1), fm(),
                                                          rng.choice(('', ',type=h')), rng.choice(('', ',rat=0.8', ',rat=0.5'))),
                 lambda: '(%s)|(%s)' % (msep(rng, d + 1), msep(rng, d + 1)),
                 lambda: '/%s?(%s):(%s);' % (cond(rng, ('load', 'levl', 'edge', 'velm', 'vnod')), msep(rng, d + 1), msep(rng, d + 1))]
    return rng.choice(base)()


def mord(rng, d=0, leaf=False):
    """Ordering of meshes."""
    amd = lambda: params(rng, rng.choice('df'), [('cmin', lambda: rng.choice((0, 1, 5, 15, 100))), ('cmax', lambda: rng.choice((1, 10, 100, 100000))), ('frat', lambda: rng.choice(('0', '0.08', '0.5')))])
    base = [lambda: 's', lambda: 'g', lambda: 'g{pass=%d}' % rng.randint(1, 6), amd, lambda: 'v{strat=(%s)}' % amd()]
    if d >= 2 or leaf and rng.random() < .7:
        return rng.choice(base)()
    comp = [lambda: 'b{strat=(%s),cmin=%d}' % (mord(rng, d + 1, leaf), rng.choice((1, 3, 10, 64))),
            lambda: 'c{rat=%s,cpr=(%s),unc=(%s)}' % (rng.choice(('0.5', '0.7', '0.9', '1')), mord(rng, d + 1, leaf), mord(rng, d + 1, leaf)),
            lambda: 'n{sep=(%s),ole=(%s),ose=(%s)}' % (mdsep(rng), mord(rng, d + 1, True), rng.choice(('s', 'g', 'b{strat=(g),cmin=%d}' % rng.randint(1, 4)))),
            lambda: 'n{sep=(%s),ole=(%s),ose=(%s)}' % (mdsep(rng), mord(rng, d + 1, True), rng.choice(('s', 'g', mord(rng, d + 1, True)))),
            lambda: '/%s?(%s):(%s);' % (cond(rng, ('load', 'levl', 'edge', 'mdeg', 'velm', 'vnod')), mord(rng, d + 1, leaf), mord(rng, d + 1, leaf))]
    if leaf:                                      # Compression refuses meshes that have halo nodes
        del comp[1]
    return rng.choice(base + comp * 2)()


def mdsep(rng):
    s = msep(rng, 1)
    return '/%s?(%s):;' % (cond(rng, ('levl', 'vnod')), s) if rng.random() < .5 else s


def dseq(rng, d=0):
    """Sequential refinement of a distributed bipartition."""
    return rng.choice(('q{strat=f}', 'q{strat=(%s)}' % ('f' if rng.random() < .5 else 'fx'), 'q{strat=f{bal=0.05,move=20}}'))


def dbipart(rng, d=0):
    """Distributed bipartitioning strategy."""
    seq = lambda: 'q{strat=(%s)}' % bipart(rng)
    ex = lambda: params(rng, 'x', [('bal', lambda: rng.choice(('0', '0.05', '0.2'))), ('sbbt', lambda: rng.randint(1, 8))]) if rng.random() < .6 else ''
    dif = lambda: params(rng, 'd', [('pass', lambda: rng.randint(1, 40)), ('type', lambda: rng.choice('bk'))])
    band = lambda: 'b{width=%d,bnd=(%s),org=(%s)}' % (rng.randint(1, 4), rng.choice(('', dif(), '(%s|)' % dif())) + dseq(rng) + ex(), dseq(rng) + ex())
    ref = lambda: rng.choice((band, band, lambda: dseq(rng) + ex()))()
    r = rng.random()
    if d < 2 and r < .6:
        return 'm{vert=%d,dvert=%d,fold=%s,pass=%d,rat=%s,low=(%s),asc=(%s),seq=(%s)}' % (
            rng.choice((2, 4, 10, 20, 40)), rng.choice((1, 1, 2, 10, 10000)), rng.choice('nfd'), rng.randint(1, 6), rng.choice(('0.6', '0.7', '0.8', '0.9')),
            dbipart(rng, d + 1), ref(), seq())
    if d < 2 and r < .75:
        c = cond(rng, ('load', 'load0', 'levl', 'edge', 'vert', 'proc'))
        return '/(%s)?(%s):(%s);' % (c, dbipart(rng, d + 1), dbipart(rng, d + 1))
    return seq() + ref()


def dkmap(rng):
    return 'r{bal=%s,sep=(%s),seq=(%s)}' % (rng.choice(('0', '0.05', '0.2')), dbipart(rng), kmap(rng) if rng.random() < .5 else 'r{sep=(%s)}' % bipart(rng))


def dvsep(rng, d=0):
    """Distributed vertex separation strategy."""
    seq = lambda: 'q{strat=(%s)}' % vsep(rng, 1)
    band = lambda: 'b{width=%d,strat=(%s)}' % (rng.randint(1, 4), rng.choice(('q{strat=f}', 'q{strat=(f{bal=0.1})}', '(q{strat=f})|(q{strat=(f{move=5})})')))
    r = rng.random()
    if d < 2 and r < .55:
        ps = ['low=(%s)' % dvsep(rng, d + 1), 'asc=(%s)' % rng.choice((band, band, lambda: 'q{strat=f}'))(), 'seq=(%s)' % seq()]
        for p, f in (('vert', lambda: rng.choice((2, 5, 20, 60))), ('dvert', lambda: rng.choice((1, 2, 10, 10000))), ('fold', lambda: rng.choice('nfd')),
                     ('pass', lambda: rng.randint(1, 6)), ('rat', lambda: rng.choice(('0.6', '0.7', '0.8', '0.9')))):
            if rng.random() < .8:
                ps.append('%s=%s' % (p, f()))
        rng.shuffle(ps)
        return 'm{%s}' % ','.join(ps)
    if d < 2 and r < .65:
        return '/(%s)?(%s):(%s);' % (cond(rng, ('load', 'levl', 'edge', 'vert', 'proc')), dvsep(rng, d + 1), dvsep(rng, d + 1))
    if d < 2 and r < .7:
        return '(%s)|(%s)' % (dvsep(rng, d + 1), dvsep(rng, d + 1))
    if r < .74:
        return 'z'
    return seq() + (band() if rng.random() < .3 else '')


def dord(rng, mode, d=0):
    """Distributed ordering strategy, and how far its separator tree can be trusted.
    mode(text): same for a sequential ordering strategy."""
    hs = lambda: ndiss(rng) if rng.random() < .5 else hord(rng, 1)
    def q():
        t = hs()
        return 'q{strat=(%s)}' % t, mode(t)
    r = rng.random()
    if d > 1 or r < .1:
        return q() if rng.random() < .8 else ('s', 0)
    if r < .2:
        (a, ma), (b, mb) = dord(rng, mode, d + 1), dord(rng, mode, d + 1)
        return '/(%s)?(%s):(%s);' % (cond(rng, ('load', 'levl', 'edge', 'vert', 'proc', 'mdeg')), a, b), max(ma, mb)
    sep = dvsep(rng)
    k = rng.random()
    if k < .6:
        sep = '/(%s)?(%s);' % (cond(rng, ('levl', 'vert', 'proc')), sep)
    ole, m1 = ('s', 0) if rng.random() < .2 else q()
    ose, m2 = rng.choice((('s', 0), ('s', 0), ('q{strat=s}', 0), ('q{strat=g}', 0), ('q{strat=(g{pass=3})}', 0), ('q{strat=b{strat=g,cmin=2}}', 1), None)) or (q()[0], 2)
    osq = hs()
    return 'n{sep=(%s),ole=(%s),ose=(%s),osq=(%s)}' % (sep, ole, ose, osq), max(m1, m2, mode(osq))
