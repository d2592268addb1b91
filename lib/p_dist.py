"""Distributed graphs: C22 (build, check, ghosts, halo, statistics, grids)."""
import copy
import gen, dops
from dist import Dist


def agraph(rng, lo=0, hi=36, kinds=None, **kw):
    return gen.weight(rng, gen.any_graph(rng, lo, hi, kinds), bases=(0, 0, 1, 1, 2, 5), **kw)


def local_graph(rng, np, hi, **kw):
    """A graph and a distribution such that few processes are neighbors of each other: beyond one pair of processes
    in four, the library uses collective communications instead of messages."""
    left = np * (np - 1) // 8
    ps = list(range(np))
    rng.shuffle(ps)
    shape = rng.choice(('star', 'star', 'path', 'tree'))
    prs = [(ps[0] if shape == 'star' else ps[i - 1] if shape == 'path' else ps[rng.randrange(i)], ps[i]) for i in range(1, np)][:left]
    n = rng.randint(np, max(np, hi))
    cnt = [n // np] * np
    for _ in range(n % np + n // 3):
        p, q = rng.randrange(np), rng.randrange(np)
        if cnt[p] > 1:
            cnt[p] -= 1
            cnt[q] += 1
    beg = [sum(cnt[:p]) for p in range(np)]
    vs = [range(beg[p], beg[p] + cnt[p]) for p in range(np)]
    n = sum(cnt)
    e = set()
    for p in range(np):
        e |= {(rng.choice(vs[p][:i]), vs[p][i]) for i in range(1, cnt[p]) if rng.random() < .8}
        if cnt[p] > 2:
            e |= {tuple(sorted(rng.sample(list(vs[p]), 2))) for _ in range(rng.randrange(cnt[p] + 1))}
    for p, q in prs:
        if cnt[p] and cnt[q]:
            e |= {tuple(sorted((rng.choice(vs[p]), rng.choice(vs[q])))) for _ in range(rng.randint(1, cnt[p] + cnt[q]))}
    return gen.weight(rng, gen.from_edges(n, sorted(e), 'local'), bases=(0, 0, 1, 1, 2, 5), **kw), cnt


def dgraph(rng, np, lo=0, hi=36, kinds=None, loc=.25, **kw):
    """Local records of a random graph and distribution."""
    if kinds is None and np > 3 and rng.random() < loc:
        g, cnt = local_graph(rng, np, hi, **kw)
        return dops.spread(rng, g, np, cnt)
    return dops.spread(rng, agraph(rng, lo, hi, kinds, **kw), np)


def nps(ctx, n):
    """n numbers of processes."""
    base = (2, 3, 4, 8, 5, 2, 1, 4, 3, 6) if not ctx.thorough else (2, 3, 4, 3, 5, 2, 1, 4, 3, 6, 7, 8)
    return [base[i % len(base)] for i in range(n)]


def spoil(rng, S, g):
    """One inconsistency in the arrays of one process."""
    ls = S['locs']
    ks = ('drop', 'loop', 'dup', 'load', 'range', 'hole', 'vneg', 'eneg', 'enbr', 'vend', 'big', 'dlabel', 'ulabel')
    for _ in range(30):
        k = rng.choice(ks)
        p = rng.randrange(len(ls))
        L = ls[p]
        arcs = [(i, j) for i in range(L['n']) for j in range(L['vt'][i], (L['ve'][i] if L['ve'] else L['vt'][i + 1]))]
        if k == 'vneg' and L['hv'] and L['n']:
            L['vw'][rng.randrange(L['n'])] = -2
            return k
        if k == 'enbr':
            L['e'] += rng.choice((-1, 1))
            if 0 <= L['e'] <= len(L['et']):
                return k
            L['e'] = len(arcs)
            continue
        if k == 'vend' and L['ve']:
            i = rng.randrange(L['n'])
            L['ve'][i] = L['vt'][i] - 1
            return k
        if k == 'big' and L['hv'] and L['n'] > 0 and sum(x['n'] for x in ls) > 1:
            tot = [(q, i) for q in range(len(ls)) for i in range(ls[q]['n'])]
            for q, i in rng.sample(tot, 2):
                ls[q]['vw'][i] = 0x7FFFFFFF
            return k
        if k == 'dlabel' and L['hl']:
            tot = [(q, i) for q in range(len(ls)) for i in range(ls[q]['n'])]
            if len(tot) > 1:
                (q, i), (r, j) = rng.sample(tot, 2)
                ls[q]['lb'][i] = ls[r]['lb'][j]
                return k
            continue
        if not arcs:
            continue
        i, j = rng.choice(arcs)
        j -= L['b']
        me = L['lb'][i] if L['hl'] else L['b'] + sum(x['mx'] for x in ls[:p]) + i
        same = [y - L['b'] for x, y in arcs if x == i and y - L['b'] != j]
        if k == 'drop' and L['ve']:
            if L['vt'][i] < L['ve'][i]:
                L['ve'][i] -= 1
                L['e'] -= 1
                return k
        elif k == 'loop':
            L['et'][j] = me
            return k
        elif k == 'dup' and same:
            L['et'][j] = L['et'][rng.choice(same)]
            if L['he']:
                L['ew'][j] = 1
            return k
        elif k == 'load' and L['he']:
            L['ew'][j] += 1
            return k
        elif k == 'eneg' and L['he']:
            L['ew'][j] = -1
            return k
        elif k == 'range' and not L['hl']:
            L['et'][j] = rng.choice((L['b'] - 1, L['b'] + sum(x['mx'] for x in ls), 77777, -4))
            return k
        elif k == 'hole' and not L['hl']:
            h = []
            v = L['b']
            for x in ls:
                h += range(v + x['n'], v + x['mx'])
                v += x['mx']
            if h:
                L['et'][j] = rng.choice(h)
                return k
        elif k == 'ulabel' and L['hl']:
            L['et'][j] = 88888
            return k
    return None


def sc_build(bad):
    def f(E):
        rng = E.rng
        g = agraph(rng, 0 if not bad else 3, 30, pl=0.35)
        S = dops.spread(rng, g, E.np)
        if bad:
            spoil(rng, S, g)
        G = dops.build(E, 'd', S, gst=rng.random() < 0.3)
        if G is None:
            return
        dops.check(E, G)
        if not bad:
            dops.observe(E, G)
        dops.free(E, G)
    return f


def sc_halo(E):
    rng = E.rng
    S = dgraph(rng, E.np, 1, 40, pl=0.3)
    G = dops.build(E, 'd', S, gst=rng.random() < 0.3)
    if G is None:
        return
    if rng.random() < 0.6:
        dops.ghst(E, G)
        if rng.random() < 0.3:
            dops.ghst(E, G)
        dops.observe(E, G, 1)
        if rng.random() < 0.4:
            dops.check(E, G)
    for _ in range(rng.randrange(1, 4)):
        dops.halo(E, G, rng)
    dops.observe(E, G, 1)
    if rng.random() < 0.5:
        dops.check(E, G)
    dops.free(E, G)


def sc_stat(E):
    rng = E.rng
    G = dops.build(E, 'd', dgraph(rng, E.np, 0, 40, pe=0.6))
    if G is None:
        return
    dops.stat(E, G)
    dops.free(E, G)


def sc_grid(E):
    rng = E.rng
    d = [rng.choice((1, 2, 3, 4, 5)) for _ in range(3)]
    n = d[0] * d[1] * d[2]
    inc = [i for i in range(2, 12) if all(i % q for q in range(2, 12) if n % q == 0) and i % n]
    from math import gcd
    inc = [i for i in range(2, 12) if gcd(i, n) == 1 and n > 2]
    G = dops.grid(E, 'd', rng.choice((0, 1, 3)), d[0], d[1], d[2], rng.choice(inc) if inc and rng.random() < 0.5 else 1,
                  int(rng.random() < 0.5), int(rng.random() < 0.5), int(rng.random() < 0.5), int(rng.random() < 0.5))
    if G is None:
        return
    dops.check_made(E, G)
    dops.halo(E, G, rng)
    dops.observe(E, G, 1)
    dops.free(E, G)


class C22(Dist):
    def scenarios(self, ctx):
        k = 40 if ctx.thorough else 4
        out = []
        for name, n, fn in (('build', 60 * k, sc_build(False)), ('bad', 120 * k, sc_build(True)), ('halo', 90 * k, sc_halo),
                            ('stat', 40 * k, sc_stat), ('grid', 40 * k, sc_grid)):
            for i, np in enumerate(nps(ctx, n)):
                out.append(('p%d/%s%d' % (np, name, i), np, fn))
        return out


# ---------------------------------------------------------------------------
# C23: gather, scatter, induce, redistribute, save, load
def start(E, lo=0, hi=34, gst=0.3, **kw):
    rng = E.rng
    kw.setdefault('pl', 0.3)
    return dops.build(E, 'd', dgraph(rng, E.np, lo, hi, **kw), gst=rng.random() < gst)


def parts(rng, G, np, kind=None):
    """A destination process for every vertex, per process."""
    k = kind or rng.choice(('rand', 'rand', 'same', 'one', 'rev', 'band'))
    n = sum(G.cnt)
    if k == 'rand':
        f = [rng.randrange(np) for _ in range(n)]
    elif k == 'same':
        f = [p for p in range(np) for _ in range(G.cnt[p])]
    elif k == 'one':
        f = [rng.randrange(np)] * n
    elif k == 'rev':
        f = [np - 1 - p for p in range(np) for _ in range(G.cnt[p])]
    else:
        f = [v * np // max(n, 1) for v in range(n)]
        if rng.random() < 0.5:
            f.reverse()
    return per(G, f)


def per(G, f):
    out = []
    o = 0
    for c in G.cnt:
        out.append(f[o:o + c])
        o += c
    return out


def use(E, G):
    """Any use of a graph that the library made."""
    rng = E.rng
    k = rng.choice(('check', 'check', 'halo', 'gather', 'obs'))
    if k == 'check':
        dops.check_made(E, G)
    elif k == 'halo':
        dops.halo(E, G, rng)
    elif k == 'gather':
        dops.gather(E, G, rng.choice((None, rng.randrange(E.np))))
    else:
        dops.observe(E, G)


def move(E, G, c, kind=None):
    rng = E.rng
    k = kind or rng.choice(('induce', 'redist', 'redist'))
    if k == 'induce':
        m = rng.choice((1, 2, 3, 5))
        f = per(G, [rng.randrange(m) for _ in range(sum(G.cnt))])
        return dops.induce(E, G, c, f, rng.randrange(m + 1) if rng.random() < 0.3 else rng.randrange(m), rng.random() < 0.4)
    f = parts(rng, G, E.np)
    keys = None
    if rng.random() < 0.5:
        fl = [x for l in f for x in l]
        ks = [0] * len(fl)
        for q in range(E.np):
            vs = [v for v in range(len(fl)) if fl[v] == q]
            rng.shuffle(vs)
            for i, v in enumerate(vs):
                ks[v] = i
        keys = per(G, ks)
    return dops.redist(E, G, c, f, keys, rng.choice((-1, 0, 0, 1, 4)), rng.choice((-1, 0, 0, 3)))


def sc_gather(E):
    rng = E.rng
    if rng.random() < 0.4:
        G = dops.scatter(E, 'd', agraph(rng, 0, 36, pl=0.3), rng.randrange(E.np))
        if G is None:
            return
        use(E, G)
    else:
        G = start(E)
        if G is None:
            return
    if rng.random() < 0.3:
        dops.ghst(E, G)
    dops.gather(E, G, rng.choice((None, rng.randrange(E.np))))
    if rng.random() < 0.3:
        dops.gather(E, G, rng.choice((None, rng.randrange(E.np))))
    dops.free(E, G)


def sc_move(kind):
    def f(E):
        rng = E.rng
        G = start(E, 1)
        if G is None:
            return
        if rng.random() < 0.3:
            dops.ghst(E, G)
        gs = [G]
        for i in range(rng.choice((1, 1, 2, 3))):
            H = move(E, gs[-1], 'm%d' % i, kind)
            if H is None:
                return
            gs.append(H)
            use(E, H)
        use(E, gs[-1])
        if rng.random() < 0.4:
            dops.observe(E, G)
        for H in gs:
            dops.free(E, H)
    return f


def sc_save(E):
    rng = E.rng
    G = start(E, 1)
    if G is None:
        return
    if rng.random() < 0.3:
        H = move(E, G, 'm')
        dops.free(E, G)
        if H is None:
            return
        G = H
    txt = dops.save(E, G)
    dops.free(E, G)
    if txt is None:
        return
    L = dops.load(E, 'l', txt, rng.choice((-1, -1, 0, 1)), rng.choice((0, 0, 0, 1, 2, 3)))
    if L is None:
        return
    use(E, L)
    if rng.random() < 0.3:
        dops.save(E, L)
    dops.free(E, L)


def sc_loadc(E):
    rng = E.rng
    g = agraph(rng, 0, 40, pl=0.4)
    n = g.n
    name = g.lb if g.lb is not None else [g.b + v for v in range(n)]
    out = ['0', '%d %d' % (n, sum(map(len, g.nb))), '%d %d%d%d' % (g.b, g.lb is not None, g.ew is not None, g.vw is not None)]
    for v in range(n):
        w = []
        if g.lb is not None:
            w.append(name[v])
        if g.vw is not None:
            w.append(g.vw[v])
        w.append(len(g.nb[v]))
        for k, u in enumerate(g.nb[v]):
            if g.ew is not None:
                w.append(g.ew[v][k])
            w.append(name[u])
        out.append(' '.join(map(str, w)))
    txt = '\n'.join(out) + '\n'
    sp = False
    if rng.random() < 0.15:
        txt = txt[:rng.randrange(0, len(txt))]
    elif rng.random() < 0.2:
        sp = True
        t = txt.split()
        i = rng.choice((0, 1, 2, 2, 3, 4, rng.randrange(len(t))))
        t[i] = 'x' if rng.random() < 0.2 else str(int(t[i]) + rng.choice((-1, 1)) if rng.random() < 0.8 else -3)
        txt = ' '.join(t) + '\n'
    L = dops.load(E, 'l', txt, rng.choice((-1, 0, 1)), rng.choice((0, 0, 1, 2, 3)), root=rng.randrange(E.np), cent=True)
    if L is None:
        return
    if not sp:
        use(E, L)
        if rng.random() < 0.4:
            dops.gather(E, L)
    dops.free(E, L)


def frag_texts(rng, g, np):
    """Fragment texts written from the format alone."""
    cnt = dops.cuts(rng, g.n, np)
    n = g.n
    name = g.lb if g.lb is not None else [g.b + v for v in range(n)]
    txt = []
    o = 0
    for p in range(np):
        vs = range(o, o + cnt[p])
        o += cnt[p]
        out = ['2', '%d %d' % (np, p), '%d %d' % (n, sum(map(len, g.nb))), '%d %d' % (cnt[p], sum(len(g.nb[v]) for v in vs)),
               '%d %d%d%d' % (g.b, g.lb is not None, g.ew is not None, g.vw is not None)]
        for v in vs:
            w = []
            if g.lb is not None:
                w.append(name[v])
            if g.vw is not None:
                w.append(g.vw[v])
            w.append(len(g.nb[v]))
            for k, u in enumerate(g.nb[v]):
                if g.ew is not None:
                    w.append(g.ew[v][k])
                w.append(name[u])
            out.append(' '.join(map(str, w)))
        txt.append('\n'.join(out) + '\n')
    return txt


def spoil_frags(rng, txt):
    p = rng.randrange(len(txt))
    t = txt[p].split()
    k = rng.choice(('cut', 'cut', 'n', 'e', 'np', 'rank', 'swap', 'ln', 'le', 'ver', 'flag', 'base', 'word', 'neg'))
    if k == 'cut':
        t = t[:rng.randrange(0, len(t))]
    elif k == 'swap' and len(txt) > 1:
        q = (p + 1) % len(txt)
        txt[p], txt[q] = txt[q], txt[p]
        return
    elif k == 'word':
        t[rng.randrange(len(t))] = 'x'
    elif k == 'flag':
        t[8] = rng.choice(('1111', '002', '000', '111', '9'))
    elif k in ('n', 'e', 'np', 'rank', 'ln', 'le', 'ver', 'base'):
        i = dict(ver=0, np=1, rank=2, n=3, e=4, ln=5, le=6, base=7)[k]
        t[i] = str(int(t[i]) + rng.choice((-1, 1)))
    if k == 'neg':
        i = rng.randrange(9, len(t)) if len(t) > 9 else 5
        t[i] = str(-1 - int(t[i]))
    txt[p] = ' '.join(t) + '\n'


def sc_loadf(bad):
    def f(E):
        rng = E.rng
        txt = frag_texts(rng, agraph(rng, 1 if bad else 0, 34, pl=0.3), E.np)
        if bad:
            spoil_frags(rng, txt)
        L = dops.load(E, 'l', txt, rng.choice((-1, -1, 0, 1)), rng.choice((0, 0, 0, 1, 2, 3)))
        if L is None:
            return
        if not bad:
            use(E, L)
        dops.free(E, L)
    return f


class C23(Dist):
    def scenarios(self, ctx):
        k = 40 if ctx.thorough else 4
        out = []
        for name, n, fn in (('gather', 80 * k, sc_gather), ('induce', 60 * k, sc_move('induce')), ('redist', 80 * k, sc_move('redist')),
                            ('chain', 40 * k, sc_move(None)), ('save', 80 * k, sc_save), ('loadc', 60 * k, sc_loadc),
                            ('loadf', 40 * k, sc_loadf(False)), ('loadx', 60 * k, sc_loadf(True))):
            for i, np in enumerate(nps(ctx, n)):
                out.append(('p%d/%s%d' % (np, name, i), np, fn))
        return out


# ---------------------------------------------------------------------------
# C24: coarsening, region growing, band graphs
def some_seeds(rng, G):
    k = rng.choice((0, 1, 1, 2, 4, 100))
    n = sum(G.cnt)
    pick = set(rng.sample(range(n), min(n, k)))
    out = []
    o = 0
    for c in G.cnt:
        l = [G.b + i for i in range(c) if o + i in pick]
        rng.shuffle(l)
        out.append(l)
        o += c
    return out


def sc_grow(E):
    rng = E.rng
    G = start(E, 1, 40)
    if G is None:
        return
    dops.ghst(E, G)
    for _ in range(rng.choice((1, 1, 2))):
        seeds = some_seeds(rng, G)
        m = rng.choice((1, 2, 5))
        obst = rng.random() < 0.4
        part = []
        for p in range(E.np):
            l = [-1] * G.cnt[p]
            for i in range(G.cnt[p]):
                if obst and rng.random() < 0.15:
                    l[i] = 50 + rng.randrange(3)
            for s in seeds[p]:
                l[s - G.b] = rng.randrange(m)
            part.append(l)
        dops.grow(E, G, seeds, part, rng.choice((0, 1, 1, 2, 3, 50)))
    if rng.random() < 0.4:
        dops.observe(E, G, 1)
    dops.free(E, G)


def sc_band(E):
    rng = E.rng
    G = start(E, 1, 40)
    if G is None:
        return
    H = dops.band(E, G, 'm', some_seeds(rng, G), rng.choice((0, 1, 1, 2, 3, 50)))
    if H is not None:
        use(E, H)
        use(E, H)
        if rng.random() < 0.3:
            I = move(E, H, 'n')
            if I is not None:
                use(E, I)
                dops.free(E, I)
        dops.free(E, H)
    if rng.random() < 0.3:
        dops.observe(E, G)
    dops.free(E, G)


def sc_coarsen(fold):
    def f(E):
        rng = E.rng
        G = start(E, 1, 60)
        if G is None:
            return
        via = None
        if rng.random() < 0.4:
            via = dops.bind(E, G, rng.choice((1, 2, 3, 4)), rng.choice((0, 0, 1)), rng.randrange(1000))
        gs = [G]
        for i in range(rng.choice((1, 1, 2, 3)) if not fold else 1):
            C = dops.coarsen(E, gs[-1], 'c%d' % i, rng.choice((0, 1, 1, 3, 10, 30)), rng.choice((500, 625, 750, 875, 875, 1000, 1000)), fold,
                             rng.random() < 0.4, rng.random() < 0.1, via if i == 0 else None)
            if C is None:
                break
            gs.append(C)
            if not fold:
                use(E, C)
        if rng.random() < 0.3:
            dops.observe(E, G)
        if via:
            dops.unbind(E, via)
        for C in reversed(gs):
            dops.free(E, C)
    return f


class C24(Dist):
    def models(self, ctx):
        return [dict(module=m, cfg=c + '.cfg', timeout=3000) for m, c in
                (('DistMatch', 'DistMatch3'), ('DistMatch', 'DistMatch22'), ('DistGrow', 'DistGrow22')) +
                ((('DistMatch', 'DistMatch'), ('DistMatch', 'DistMatchDeep'), ('DistGrow', 'DistGrow')) if ctx.thorough else ())]

    def scenarios(self, ctx):
        k = 20 if ctx.thorough else 2
        out = []
        for name, n, fn in (('grow', 80 * k, sc_grow), ('band', 80 * k, sc_band), ('coarsen', 120 * k, sc_coarsen(0)),
                            ('fold', 60 * k, sc_coarsen(1)), ('folddup', 80 * k, sc_coarsen(2))):
            for i, np in enumerate(nps(ctx, n)):
                out.append(('p%d/%s%d' % (np, name, i), np, fn))
        return out


# ---------------------------------------------------------------------------
# C25: mappings
def maybe_bind(E, G, p=0.4):
    return dops.bind(E, G, E.rng.choice((1, 2, 3, 4)), E.rng.choice((0, 0, 1)), E.rng.randrange(1000)) if E.rng.random() < p else None


def sc_map(kind):
    def f(E):
        import archs
        rng = E.rng
        G = start(E, 1 if rng.random() < .95 else 0, 160 if rng.random() < .4 else 50)
        if G is None:
            return
        via = maybe_bind(E, G)
        for _ in range(rng.choice((1, 1, 2))):
            if kind == 'var':
                a, st = None, rng.choice(('map', 'comp', 'comp'))
            else:
                a = archs.gen_arch(rng, 12, ('cmplt',) if kind == 'part' else ('cmplt', 'cmpltw', 'cmpltw'))
                st = 'part' if kind == 'part' else rng.choice(('map', 'comp', 'comp', 'comp'))
            if dops.mapping(E, G, a, st, via) is None:
                break
        if rng.random() < 0.3:
            dops.observe(E, G)
        if via:
            dops.unbind(E, via)
        dops.free(E, G)
    return f


def sc_mapgrid(E):
    rng = E.rng
    r, c = rng.randint(6, 14), rng.randint(6, 14)
    g = gen.grid(r, c)
    G = dops.build(E, 'd', dops.spread(rng, g, E.np))
    k = rng.choice((2, 3, 4, 5, 8))
    st, desc = E.sc.strat(), 'default'
    if rng.random() < .5:
        assert dops.pt(E, 'stratDgraphMapBuild', st, rng.choice((0, 1, 4, 8)), E.np, k, dops.c_double(.05)) == 0
    part = dops.Buf([-3] * G.n, G.n)
    ret = dops.pt(E, 'dgraphPart', G.o, k, st, part)
    E.rec.ev('DMapGrid', h=G.h, rc=[r, c], k=k, loc=dict(ret=ret, part=part.list(G.n)))
    dops.free(E, G)


class C25(Dist):
    def scenarios(self, ctx):
        k = 20 if ctx.thorough else 2
        out = []
        for name, n, fn in (('part', 120 * k, sc_map('part')), ('map', 120 * k, sc_map('map')), ('clus', 40 * k, sc_map('var')), ('grid', 20 * k, sc_mapgrid)):
            for i, np in enumerate(nps(ctx, n)):
                out.append(('p%d/%s%d' % (np, name, i), np, fn))
        return out


def sc_order(E):
    rng = E.rng
    G = start(E, 1 if rng.random() < .95 else 0, 160 if rng.random() < .4 else 50)
    if G is None:
        return
    via = maybe_bind(E, G)
    for k in range(rng.choice((1, 1, 2))):
        if dops.ordering(E, G, 'o%d' % k, via) != 0:
            break
    if rng.random() < 0.2:
        dops.observe(E, G)
    if via:
        dops.unbind(E, via)
    dops.free(E, G)


class C26(Dist):
    def scenarios(self, ctx):
        k = 20 if ctx.thorough else 2
        return [('p%d/ord%d' % (np, i), np, sc_order) for i, np in enumerate(nps(ctx, 300 * k))]


# ---------------------------------------------------------------------------
# C27: reproducibility
def contents(L):
    """What a local piece of graph means: several threads make non-compact graphs, with another layout."""
    ve = L['ve'] or L['vt'][1:]
    return [L[k] for k in ('b', 'nglb', 'n', 'eglb', 'e', 'vw', 'lb')] + [
        sorted((L['et'][e - L['b']], L['ew'][e - L['b']] if L['he'] else 1) for e in range(v, w)) for v, w in zip(L['vt'], ve)]


def rep_call(E, G, via, c, k):
    """Performs a call and records a digest of its result on every process."""
    import hashlib, random
    from sc import Buf, P
    from ctypes import c_double
    what, arg = k
    S = E.sc
    E.rec.call('%s %s' % (what, str(arg)[:300]))
    res = []
    if what == 'part':
        kk, st = arg
        b = Buf([-3] * G.n, G.n)
        s = dops.dstrat(E, 'DgraphMap', st) if isinstance(st, str) else S.strat()
        if not isinstance(st, str) and st:
            assert dops.pt(E, 'stratDgraphMapBuild', s, st[0], E.np, kk, c_double(st[1])) == 0
        r = dops.pt(E, 'dgraphPart', via, kk, s, b)
        res = b.list(G.n)
        S.strat_free(s)
    elif what == 'order':
        st = arg
        s = dops.dstrat(E, 'DgraphOrder', st) if isinstance(st, str) else S.strat()
        if not isinstance(st, str) and st:
            assert dops.pt(E, 'stratDgraphOrderBuild', s, st[0], E.np, 3, c_double(st[1])) == 0
        o = S.obj('dorder', lib=S.pt)
        r = dops.pt(E, 'dgraphOrderInit', via, o)
        r = r or dops.pt(E, 'dgraphOrderCompute', via, o, s)
        b = Buf([-3] * G.n, G.n)
        if r == 0:
            r = dops.pt(E, 'dgraphOrderPerm', via, o, b)
            res = b.list(G.n)
        dops.pt(E, 'dgraphOrderExit', via, o, res=None)
        S.strat_free(s)
    elif what in ('grow', 'band'):
        sd, dist = arg
        rng = random.Random(sd)
        seeds = some_seeds(rng, G)
        sb = Buf(seeds[E.me], G.n)
        if what == 'grow':
            part = [-1] * G.n
            for s in seeds[E.me]:
                part[s - G.b] = E.me * 1000 + s
            dops.ghst(E, G)
            pb = Buf(part, max(dops.data(E, G)['gst'], G.n))
            r = dops.pt(E, 'dgraphGrow', via, len(seeds[E.me]), sb, dist, pb)
            res = pb.list(G.n)
        else:
            C = dops.DG(E, 'x', False)
            r = dops.pt(E, 'dgraphBand', via, len(seeds[E.me]), sb, dist, C.o)
            if r == 0:
                L = dops.data(E, C)
                res = contents(L)
            dops.free(E, C)
    else:
        permil, fl = arg
        mx = dops.pt(E, 'dgraphCoarsenVertLocMax', via, fl)
        mb = Buf([], 2 * mx)
        C = dops.DG(E, 'x', False)
        r = dops.pt(E, 'dgraphCoarsen', via, 1, c_double(permil / 1000.0), fl, C.o, mb)
        if r == 0:
            L = dops.data(E, C)
            res = [mb.list(2 * L['n']) if L['n'] <= mx else [], contents(L)]
        dops.free(E, C)
    E.rec.ev('RndDCall', c=c, what='%s %s' % (what, arg), loc=dict(res=hashlib.sha1(repr((r, res)).encode()).hexdigest()[:16]))


def sc_repro(E):
    import random
    import p_order as po, strats
    rng = E.rng
    E.rec.ev('RndProcess', c=0)
    E.rec.ev('RndSeed', c=0, val=1)
    gs = rng.randrange(1 << 30)
    big = rng.random() < .5
    S = dgraph(random.Random(gs), E.np, 20 if big else 1, 150 if big else 40, loc=.5)
    gst = rng.random() < .5
    calls = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        w = rng.choice(('part', 'part', 'order', 'order', 'coarsen', 'coarsen', 'grow', 'band'))
        if w == 'part':
            k = rng.choice((2, 3, 4, 7, 8))
            calls.append((w, (k, rng.choice((None, (rng.choice((0, 1, 2, 4, 8)), .05), strats.dkmap(rng), strats.dkmap(rng))))))
        elif w == 'order':
            calls.append((w, rng.choice((None, (rng.choice((0, 1, 2, 4, 8)), .2), strats.dord(rng, po.sep_mode)[0], strats.dord(rng, po.sep_mode)[0]))))
        elif w in ('grow', 'band'):
            calls.append((w, (rng.randrange(1 << 30), rng.choice((1, 2, 3, 5)))))
        else:
            calls.append((w, (rng.choice((800, 900, 990)), rng.choice((0, 0x4000)))))
    seed = rng.randrange(1, 1 << 20)
    for rep in range(rng.choice((2, 2, 3, 4))):
        E.vm.vm_begin(rng.randrange(1 << 40) * 8 + E.me, rng.choice((0, 30, 300)), rng.choice((0, 50, 500)))
        G = dops.build(E, 'g%d' % rep, S, gst)
        if G is None:
            return
        n = rng.choice((1, 1, 2, 3, 4))
        ctx = E.sc.context(n, 1, seed)
        o = E.sc.obj('dgraph', lib=E.sc.pt)
        E.sc.call('SCOTCH_dgraphInit', o, E.D.world, lib=E.sc.pt)
        assert dops.pt(E, 'contextBindDgraph', ctx, G.o, o) == 0
        c = rep + 1
        E.rec.ev('RndCtx', c=c, n=n, ret=0)
        E.rec.ev('RndSet', c=c, num=0, val=1, ret=0)
        E.rec.ev('RndClone', c=c, ret=0)
        E.rec.ev('RndSeed', c=c, val=seed)
        for k in calls:
            rep_call(E, G, o, c, k)
        dops.unbind(E, o)
        dops.free(E, G)


class C27(Dist):
    def scenarios(self, ctx):
        k = 20 if ctx.thorough else 2
        return [('p%d/rep%d' % (np, i), np, sc_repro) for i, np in enumerate([n for n in nps(ctx, 170 * k) if n > 1])]
