"""C16 files of mappings and orderings, C17 statistics."""
import math
import os
import re

import archs, gen, maps, ops
from base import Prop
from sc import Buf, Gr, P
from p_map import mgraph, via_context
from p_order import OrdBufs, pick_strat as ord_strat


def leading_ints(txt):
    """What a reader of integers sees of a text."""
    t = []
    for w in txt.split():
        m = re.match(r'[+-]?\d+$', w)
        if not m:
            break
        t.append(int(w))
    return t


def labelled(rng, g):
    if g.n and rng.random() < .5:
        hi = rng.choice((g.n, 3 * g.n, 100000))
        g.lb = rng.sample(range(0, hi + 1), g.n)
    return g


def tab_save(E, cg, part, how, via=None):
    S, n = E.sc, cg.g.n
    p = E.path('map')
    B = Buf(part, max(n, 1))
    g = via or cg
    f = S.fopen(p, 'w')
    E.rec.call('graph%sSave' % how)
    if how == 'Tab':
        r = S.call('SCOTCH_graphTabSave', g, B, f)
    else:
        m = S.obj('map')
        a = archs.make(E, dict(k='cmplt', n=4))[0]
        S.call('SCOTCH_graphMapInit', g, m, a.obj, B)
        r = S.call('SCOTCH_graphMapSave', g, m, f)
        S.call('SCOTCH_graphMapExit', g, m)
    S.fclose(f)
    txt = open(p).read()
    os.unlink(p)
    t = ops.tokens(txt)
    E.rec.ev('TabSave', h=cg.h, a='', ret=r, part=part, tok=t if t is not None else [-77], same=1 if cg.same() and B.same() else 0)
    return txt


def tab_load(E, cg, txt, how, via=None):
    S, n = E.sc, cg.g.n
    p = E.path('map')
    open(p, 'w').write(txt)
    B = Buf([-3] * n, max(n, 1))
    g = via or cg
    f = S.fopen(p, 'r')
    E.rec.call('graph%sLoad' % how)
    if how == 'Tab':
        r = S.call('SCOTCH_graphTabLoad', g, B, f)
    else:
        m = S.obj('map')
        a = archs.make(E, dict(k='cmplt', n=4))[0]
        S.call('SCOTCH_graphMapInit', g, m, a.obj, B)
        r = S.call('SCOTCH_graphMapLoad', g, m, f)
        S.call('SCOTCH_graphMapExit', g, m)
    S.fclose(f)
    os.unlink(p)
    E.rec.ev('TabLoad', h=cg.h, a='', ret=r, part=B.list(n), tok=leading_ints(txt), guard=1 if B.guard() else 0)


def pairs_text(rng, g, val, miss=.0, extra=0):
    """A file of pairs, in a random order; then maybe damaged."""
    lb = g.lb or [v + g.b for v in range(g.n)]
    ps = [(lb[v], val[v]) for v in range(g.n) if rng.random() >= miss]
    for _ in range(extra):
        x = rng.choice((-5, g.n + g.b, 2 * g.n + 7, 123456))
        if x not in lb and x not in [q[0] for q in ps]:
            ps.append((x, rng.randint(0, 9)))
    if rng.random() < .6:
        rng.shuffle(ps)
    return ps


def text_of(rng, ps, cnt=None):
    return '%d\n' % (len(ps) if cnt is None else cnt) + ''.join('%d%s%d%s' % (a, rng.choice('\t '), b, rng.choice(('\n', '\n', ' '))) for a, b in ps)


def damage(rng, ps, txt_of):
    k = rng.randrange(6)
    if k == 0 and ps:                               # duplicate label
        ps = ps + [(rng.choice(ps)[0], rng.randint(0, 5))]
        return txt_of(rng, ps)
    if k == 1:                                      # truncated
        t = txt_of(rng, ps)
        return t[:rng.randrange(max(len(t), 1))]
    if k == 2:
        return txt_of(rng, ps, len(ps) + rng.randint(1, 3))
    if k == 3:
        return txt_of(rng, ps, rng.choice((-1, 0)))
    if k == 4:
        t = txt_of(rng, ps).split(' ')
        t.insert(rng.randrange(len(t) + 1), 'x')
        return ' '.join(t)
    return ''


def ord_files(E, cg, via=None):
    S, rng, n = E.sc, E.rng, cg.g.n
    s, d = ord_strat(E)
    g = via or cg
    B = OrdBufs(rng, n, True)
    o = S.obj('order')
    E.rec.call('graphOrder save %s' % d)
    ret = S.call('SCOTCH_graphOrderInit', g, o, *B.args())
    ret = ret or S.call('SCOTCH_graphOrderCompute', g, o, s)
    out = {}
    for k, fn in (('tok', 'Save'), ('tokmap', 'SaveMap'), ('toktree', 'SaveTree')):
        p = E.path('ord')
        f = S.fopen(p, 'w')
        if ret == 0:
            ret = S.call('SCOTCH_graphOrder' + fn, g, o, f)
        S.fclose(f)
        txt = open(p).read()
        os.unlink(p)
        t = ops.tokens(txt)
        out[k] = t if t is not None else [-77]
        if k == 'tok':
            text = txt
    S.call('SCOTCH_graphOrderExit', g, o)
    r, has = B.result()
    E.rec.ev('OrdFiles', h=cg.h, a='', ret=ret, r=r, st=d, **out)
    return text, r


def ord_load(E, cg, txt, via=None):
    S, rng, n = E.sc, E.rng, cg.g.n
    p = E.path('ord')
    open(p, 'w').write(txt)
    B = OrdBufs(rng, n, True)
    o = S.obj('order')
    g = via or cg
    E.rec.call('graphOrderLoad')
    S.call('SCOTCH_graphOrderInit', g, o, *B.args())
    f = S.fopen(p, 'r')
    ret = S.call('SCOTCH_graphOrderLoad', g, o, f)
    S.fclose(f)
    os.unlink(p)
    chk = S.call('SCOTCH_graphOrderCheck', g, o) if ret == 0 else 0
    S.call('SCOTCH_graphOrderExit', g, o)
    E.rec.ev('OrdLoad', h=cg.h, a='', ret=ret, perm=B.perm.list(n), peri=B.peri.list(n), tok=leading_ints(txt), guard=B.guard(), chk=chk)


class C16(Prop):
    racy = True

    def scenarios(self, ctx):
        def tab(i):
            def f(E):
                rng = E.rng
                g = labelled(rng, mgraph(rng, i, 60))
                cg = ops.build(E, 'g', g)
                via = via_context(E, cg, .2)
                part = [rng.choice((-1, 0, 1, 2, 3, 100)) for _ in range(g.n)]
                txt = tab_save(E, cg, part, rng.choice(('Tab', 'Map')), via)
                tab_load(E, cg, txt, rng.choice(('Tab', 'Map')), via)
                for _ in range(3):
                    val = [rng.choice((-1, 0, 1, 7, 100000, -9)) for _ in range(g.n)]
                    ps = pairs_text(rng, g, val, rng.choice((0, 0, .3, 1)), rng.choice((0, 0, 1, 4)))
                    txt = text_of(rng, ps) if rng.random() < .6 else damage(rng, ps, text_of)
                    tab_load(E, cg, txt, rng.choice(('Tab', 'Map')), via)
            return ('tab/%d' % i, f)

        def order(i):
            def f(E):
                rng = E.rng
                g = labelled(rng, mgraph(rng, i, 60))
                cg = ops.build(E, 'g', g)
                n = g.n
                via = via_context(E, cg, .2)
                txt, r = ord_files(E, cg, via)
                ord_load(E, cg, txt, via)
                for _ in range(3):
                    perm = list(range(g.b, g.b + n))
                    rng.shuffle(perm)
                    k = rng.random()
                    if n and k < .15: perm[rng.randrange(n)] = rng.choice((g.b - 1, g.b + n, perm[0], -7, 10 ** 6))
                    ps = pairs_text(rng, g, perm, 0 if k < .9 else .1, 0 if k < .95 else 1)
                    txt = text_of(rng, ps) if rng.random() < .7 else damage(rng, ps, text_of)
                    ord_load(E, cg, txt, via)
            return ('ord/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [tab(i) for i in range(500 * k)] + [order(i) for i in range(300 * k)]


# -- statistics -------------------------------------------------------------
def k1000(s):
    try:
        x = float(s)
    except ValueError:
        return -10 ** 9
    if math.isnan(x) or math.isinf(x) or abs(x) > 9e5:
        return -10 ** 9
    return int(round(x * 1000))


NUM = r'([-+0-9.einfa]+)'
V0 = dict(nbr=-1, tgt=-1, lmin=-1, lmax=-1, lavg=-1, ldlt=-1, lmxa=-1, nmin=-1, nmax=-1, nsum=-1, dil=-1, dilsum=-1, exp=-1, expsum=-1, cut=-1,
          cutsum=-1, total=-1, dlt=-1, hist=[], dmin=-1, dmax=-1, davg=-1, mnbr=-1, mpct=-1, mdst=-1, mlod=-1, mcst=-1, raw=0)


def parse_view(txt, remap):
    v = dict(V0, hist=[])
    def get(pat, *names):
        m = re.search(pat.replace('#', NUM), txt)
        if m:
            for (nm, sc), s in zip(names, m.groups()):
                v[nm] = k1000(s) if sc else int(s)
    I, D = 0, 1
    get(r'Processors #/# ?', ('nbr', I), ('tgt', I))
    get(r'Target min=#\tmax=#\tavg=#\tdlt=#\tmaxavg=#', ('lmin', I), ('lmax', I), ('lavg', D), ('ldlt', D), ('lmxa', D))
    get(r'Neighbors min=#\tmax=#\tsum=#', ('nmin', I), ('nmax', I), ('nsum', I))
    get(r'CommDilat=#\t\(#\)', ('dil', D), ('dilsum', I))
    get(r'CommExpan=#\t\(#\)', ('exp', D), ('expsum', I))
    get(r'CommCutSz=#\t\(#\)', ('cut', D), ('cutsum', I))
    get(r'CommDelta=#', ('dlt', D))
    get(r'PartDiam\tmin=#\tmax=#\tavg=#', ('dmin', I), ('dmax', I), ('davg', D))
    h = re.findall(r'CommLoad\[(\d+)\]=' + NUM, txt)
    v['hist'] = [k1000(x) for _, x in h] if [int(a) for a, _ in h] == list(range(len(h))) else [-9]
    if remap:
        get(r'MigrNbr=#\(# %\)', ('mnbr', I), ('mpct', D))
        get(r'AvgMigrDist=#', ('mdst', D))
        get(r'AvgMigrLoad=#', ('mlod', D))
        get(r'MigrCost=#', ('mcst', D))
    return v


def parse_raw(txt, remap):
    v = dict(V0, raw=1, hist=[])
    t = txt.split()
    if len(t) != (18 if remap else 13):
        return v
    for nm, s in zip(('nbr', 'tgt', 'lmin', 'lmax'), t):
        v[nm] = int(s)
    for nm, s in zip(('lavg', 'ldlt', 'lmxa'), t[4:]):
        v[nm] = k1000(s)
    v['total'], v['expsum'] = int(round(float(t[7]))), int(round(float(t[8])))
    for nm, s in zip(('dil', 'exp', 'cut', 'dlt'), t[9:]):
        v[nm] = k1000(s)
    if remap:
        for nm, s in zip(('mpct', 'mdst', 'mlod', 'mcst'), t[14:]):
            v[nm] = k1000(s)
    return v


def map_view(E, cg, a, ca, part, old=None, emra=100, vml=None, raw=0, via=None):
    S, n = E.sc, cg.g.n
    g = via or cg
    B, ob, vb = Buf(part, max(n, 1)), None, None
    m, m2 = S.obj('map'), None
    S.call('SCOTCH_graphMapInit', g, m, ca.obj, B)
    p = E.path('txt')
    f = S.fopen(p, 'w')
    E.rec.call('graph%sView%s %s' % ('Remap' if old is not None else 'Map', 'Raw' if raw else '', a))
    if old is not None:
        ob, m2 = Buf(old, max(n, 1)), S.obj('map')
        vb = Buf(vml, max(n, 1)) if vml is not None else None
        S.call('SCOTCH_graphMapInit', g, m2, ca.obj, ob)
        r = S.call('SCOTCH_graphRemapView' + 'Raw' * raw, g, m, m2, emra / 100, P(vb), f)
        S.call('SCOTCH_graphMapExit', g, m2)
    else:
        r = S.call('SCOTCH_graphMapView' + 'Raw' * raw, g, m, f)
    S.call('SCOTCH_graphMapExit', g, m)
    S.fclose(f)
    txt = open(p).read()
    os.unlink(p)
    v = (parse_raw if raw else parse_view)(txt, old is not None)
    same = cg.same() and B.same() and (ob is None or ob.same()) and (vb is None or vb.same())
    E.rec.ev('MapView', h=cg.h, a='a', ret=r, part=part, old=old or [], emra=emra, vml=vml or [], v=v, lines=len(txt.split('\n')) - 1, same=1 if same else 0)


def ovl_view(E, cg, k, part, via=None):
    S, n = E.sc, cg.g.n
    B = Buf(part, max(n, 1))
    p = E.path('txt')
    f = S.fopen(p, 'w')
    E.rec.call('graphPartOvlView')
    r = S.call('SCOTCH_graphPartOvlView', via or cg, k, B, f)
    S.fclose(f)
    txt = open(p).read()
    os.unlink(p)
    v = dict(sep=-1, lmin=-1, lmax=-1, lavg=-1, mxa=-1, mna=-1)
    m = re.search(r'sep=#\n.*min=#\tmax=#\tavg=#\n.*maxavg=#\tminavg=#'.replace('#', NUM), txt)
    if m:
        x = m.groups()
        v = dict(sep=int(x[0]), lmin=int(x[1]), lmax=int(x[2]), lavg=k1000(x[3]), mxa=k1000(x[4]), mna=k1000(x[5]))
    E.rec.ev('OvlView', h=cg.h, a='', ret=r, k=k, part=part, v=v, same=1 if cg.same() and B.same() else 0)


class C17(Prop):
    def scenarios(self, ctx):
        def clump(rng, n, ts):
            """Values by runs of vertices, or at random."""
            if rng.random() < .5:
                return [rng.choice(ts) for _ in range(n)]
            o = []
            while len(o) < n:
                o += [rng.choice(ts)] * rng.randint(1, 9)
            return o[:n]

        def view(i):
            def f(E):
                rng = E.rng
                g = mgraph(rng, i, 30 if rng.random() < .85 else 60)
                cg = ops.build(E, 'g', g)
                via = via_context(E, cg, .2)
                a = archs.gen_arch(rng, 12)
                ca = archs.ev_make(E, 'a', a)
                ts = maps.terms(a)
                for _ in range(2):
                    t = rng.sample(ts, rng.randint(1, len(ts))) + ([-1] if rng.random() < .3 else [])
                    part = clump(rng, g.n, t)
                    old = clump(rng, g.n, ts + ([-1] if rng.random() < .3 else [])) if rng.random() < .5 else None
                    if old and rng.random() < .5:
                        old = [p if rng.random() < .7 else x for p, x in zip(part, old)]
                    vml = [rng.randint(0, 9) for _ in range(g.n)] if rng.random() < .5 else None
                    map_view(E, cg, a, ca, part, old, rng.choice((0, 50, 100, 325)), vml if old else None, rng.choice((0, 0, 1)), via)
            return ('view/%d' % i, f)

        def ovl(i):
            def f(E):
                rng = E.rng
                g = mgraph(rng, i, 30 if rng.random() < .85 else 60)
                cg = ops.build(E, 'g', g)
                k = rng.randint(1, 8)
                ovl_view(E, cg, k, clump(rng, g.n, list(range(k)) + [-1]), via_context(E, cg, .2))
            return ('ovl/%d' % i, f)

        def stat(i):
            def f(E):
                rng = E.rng
                g = mgraph(rng, i, 28 if rng.random() < .85 else 70)
                cg = ops.build(E, 'g', g)
                ops.stat(E, cg)
                ops.diam(E, cg, via_context(E, cg, .3))
            return ('stat/%d' % i, f)
        def wdiam(i):                           # paths get shorter many times: wide loads, cycles
            def f(E):
                rng = E.rng
                n = rng.randint(4, 26)
                m = rng.choice((5, 50, 1000))
                w = {(v, rng.randrange(v)): rng.randint(1, m) for v in range(1, n)}
                for _ in range(n * rng.randint(1, 5)):
                    a, b = rng.randrange(n), rng.randrange(n)
                    if a != b and (b, a) not in w:
                        w[a, b] = rng.randint(1, m)
                nb, ew = [[] for _ in range(n)], [[] for _ in range(n)]
                p = list(range(n))
                rng.shuffle(p)
                for (a, b), x in w.items():
                    for u, v in ((p[a], p[b]), (p[b], p[a])):
                        nb[u].append(v)
                        ew[u].append(x)
                g = Gr(n, nb, ew, [rng.randint(0, m) for _ in range(n)] if rng.random() < .3 else None, None, rng.choice((0, 1)))
                cg = ops.build(E, 'g', g)
                via = via_context(E, cg, .3)
                for _ in range(3):
                    ops.diam(E, cg, via)
            return ('wdiam/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [wdiam(i) for i in range(150 * k)] + [view(i) for i in range(300 * k)] + [ovl(i) for i in range(80 * k)] + [stat(i) for i in range(250 * k)]
