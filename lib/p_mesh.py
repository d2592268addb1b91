"""C12 meshes: check, files, geometry, statistics, node and dual graphs; C13 orderings of meshes."""
import copy
import ctypes
import os
from ctypes import c_int, c_double, c_void_p, byref
import gen, ops, maps, strats
from base import Prop
from sc import Buf, P
from p_order import OrdBufs, sep_mode


class Mesh:
    """el: 0-based lists of nodes; nd: 0-based lists of elements."""
    def __init__(self, nn, el, nd=None):
        self.nn, self.el = nn, el
        self.nd = nd or [[i for i, e in enumerate(el) if j in e] for j in range(nn)]
        self.b, self.first, self.vel, self.vnl, self.lb = 0, 'e', None, None, None

    def raw(self, rng, lay):
        b, en, nn = self.b, len(self.el), self.nn
        eb, nb = (b, b + en) if self.first == 'e' else (b + nn, b)
        ls = [[nb - b + x for x in e] for e in self.el], [[eb - b + x for x in e] for e in self.nd]
        nbs = ls[0] + ls[1] if self.first == 'e' else ls[1] + ls[0]
        from sc import Gr
        r = Gr(en + nn, nbs, None, None, self.lb, b).raw(rng, lay)
        r.update(vw=[], ew=[], eb=eb, nb=nb, en=en, nn=nn, vel=list(self.vel or []), vnl=list(self.vnl or []))
        return r


def gmesh(rng, i, hi=30):
    k = rng.choice(('rnd', 'rnd', 'quad', 'tri', 'hex', 'tiny', 'path', 'iso', 'dup'))
    if i < 6:
        m = [Mesh(0, []), Mesh(1, []), Mesh(0, [[]]), Mesh(1, [[0]]), Mesh(3, [[], [0, 2]]), Mesh(4, [[0, 1, 2, 3]])][i]
    elif k == 'tiny':
        nn = rng.randint(0, 4)
        m = Mesh(nn, [rng.sample(range(nn), rng.randint(0, nn)) for _ in range(rng.randint(0, 4))])
    elif k in ('rnd', 'iso', 'dup'):
        nn = rng.randint(1, hi)
        el = [rng.sample(range(nn), min(nn, rng.choice((0, 1, 2, 3, 4, 4, 6)) if k == 'iso' else rng.randint(1, 5))) for _ in range(rng.randint(1, hi))]
        if k == 'dup':                              # identical or included elements
            for _ in range(rng.randint(1, 5)):
                e = rng.choice(el)
                el.append(rng.sample(e, rng.randint(max(1, len(e) - 2), len(e))) if e else [])
        m = Mesh(nn, el)
    elif k == 'path':
        nn = rng.randint(2, hi)
        m = Mesh(nn, [[v, v + 1] for v in range(nn - 1)] + ([[nn - 1, 0]] if rng.random() < .5 and nn > 2 else []))
    else:
        s = max(2, int(hi ** .5))
        r, c, d = rng.randint(1, s), rng.randint(1, s), rng.randint(1, 3) if k == 'hex' else 0
        at = lambda x, y, z=0: (z * (r + 1) + x) * (c + 1) + y
        el = []
        for z in range(max(d, 1)):
            for x in range(r):
                for y in range(c):
                    q = [at(x, y, z), at(x, y + 1, z), at(x + 1, y + 1, z), at(x + 1, y, z)]
                    if k == 'hex': q += [at(x, y, z + 1), at(x, y + 1, z + 1), at(x + 1, y + 1, z + 1), at(x + 1, y, z + 1)]
                    if k == 'tri': el += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                    else: el.append(q)
        m = Mesh((r + 1) * (c + 1) * (d + 1), el)
        if rng.random() < .3:                       # numbers in any order
            p = list(range(m.nn))
            rng.shuffle(p)
            el = [[p[x] for x in e] for e in el]
            rng.shuffle(el)
            m = Mesh(m.nn, el)
    m.el = [rng.sample(e, len(e)) for e in m.el]
    m.nd = [rng.sample(e, len(e)) for e in m.nd]
    m.b, m.first = rng.choice((0, 1)), rng.choice('en')
    en = len(m.el)
    if rng.random() < .35: m.vel = [rng.randint(1, 9) for _ in range(en)]
    if rng.random() < .4: m.vnl = [rng.randint(1, 9) for _ in range(m.nn)]
    if rng.random() < .3:
        m.lb = rng.sample(range(3 * (en + m.nn) + 1), en + m.nn)
        if rng.random() < .4:                       # elements and nodes may have the same labels
            x, y = rng.sample(range(2 * en + 2), en), rng.sample(range(2 * m.nn + 2), m.nn)
            m.lb = x + y if m.first == 'e' else y + x
    return m


def corrupt(rng, raw):
    r = copy.deepcopy(raw)
    n, b, e = r['n'], r['b'], len(r['et'])
    used = []
    for i in range(n):
        s = r['vt'][i]
        t = r['ve'][i] if r['ve'] else r['vt'][i + 1]
        used += list(range(s - b, t - b))
    k = rng.choice(('end', 'end', 'lo', 'hi', 'kind', 'dup', 'e+', 'e-', 'vel', 'vnl', 'drop', 'vend', 'swap', 'none', 'near'))
    if k in ('end', 'lo', 'hi', 'dup', 'near', 'swap', 'kind') and not used:
        return r
    j = rng.choice(used) if used else 0
    if k == 'end': r['et'][j] = b + rng.randrange(n)
    elif k == 'lo': r['et'][j] = b - rng.choice((1, 2))
    elif k == 'hi': r['et'][j] = b + n + rng.choice((0, 1))
    elif k == 'near': r['et'][j] += rng.choice((-1, 1))
    elif k == 'swap':
        i = rng.choice(used)
        r['et'][i], r['et'][j] = r['et'][j], r['et'][i]
    elif k == 'kind':
        r['et'][j] = rng.choice([x for x in range(b, b + n) if (x >= r['eb'] and x < r['eb'] + r['en']) != (r['et'][j] >= r['eb'] and r['et'][j] < r['eb'] + r['en'])] or [b])
    elif k == 'dup':
        v = rng.randrange(n)
        s, t = r['vt'][v] - b, (r['ve'][v] if r['ve'] else r['vt'][v + 1]) - b
        if t > s + 1: r['et'][s] = r['et'][t - 1]
    elif k == 'e+': r['e'] += 1
    elif k == 'e-': r['e'] = max(0, r['e'] - 1)
    elif k in ('vel', 'vnl'):
        m = r['en'] if k == 'vel' else r['nn']
        if m:
            r[k] = r[k] or [1] * m
            r[k][rng.randrange(m)] = rng.choice((0, -1, -4))
    elif k == 'drop' and r['ve']:
        i = rng.randrange(n)
        if r['ve'][i] > r['vt'][i]:
            r['ve'][i] -= 1
            if rng.random() < .5: r['e'] -= 1
    elif k == 'vend' and r['ve'] and n:
        i = rng.randrange(n)
        r['ve'][i] = r['vt'][i] - 1
    return r


class CMesh:
    pass


def build(E, h, raw, legal=True):
    S = E.sc
    o = S.obj('mesh')
    S.call('SCOTCH_meshInit', o)
    K = ('vt', 've', 'vel', 'vnl', 'lb', 'et')
    B = {k: Buf(raw[k]) if raw[k] else None for k in K}
    B['vt'] = B['vt'] or Buf([raw['b']])
    B['et'] = B['et'] or Buf([0])
    E.rec.call('meshBuild')
    ret = S.call('SCOTCH_meshBuild', o, raw['eb'], raw['nb'], raw['en'], raw['nn'], B['vt'], P(B['ve']), P(B['vel']), P(B['vnl']), P(B['lb']), raw['e'], B['et'])
    if ret == 0:
        E.rec.call('meshCheck')
        ret = S.call('SCOTCH_meshCheck', o)
    cm = CMesh()
    cm.o, cm.h, cm.bufs, cm.raw = o, h, B, raw
    E.rec.ev('MeshBuild', h=h, raw=raw, ret=1 if ret else 0, guard=same(cm))
    return cm if ret == 0 else None


def same(cm):
    return 1 if all(x is None or x.same() for x in cm.bufs.values()) else 0


def data(S, o):
    iv = [c_int() for _ in range(6)]
    eb, nb, en, nn, e, dg = iv
    ps = [c_void_p() for _ in range(6)]
    vt, ve, vel, vnl, lb, et = ps
    S.call('SCOTCH_meshData', o, byref(eb), byref(nb), byref(en), byref(nn), byref(vt), byref(ve), byref(vel), byref(vnl), byref(lb), byref(e), byref(et), byref(dg))
    eb, nb, en, nn, e = [x.value for x in iv[:5]]
    b, n = min(eb, nb), en + nn

    def rd(p, k):
        return list((c_int * k).from_address(p.value)) if (p.value and k > 0) else []
    r = dict(b=b, n=n, e=e, vw=[], ew=[], eb=eb, nb=nb, en=en, nn=nn)
    if not ve.value or ve.value == (vt.value or 0) + 4:
        r['vt'], r['ve'] = rd(vt, n + 1) if vt.value else [b] * (n + 1), []
        mx = max(r['vt'])
    else:
        r['vt'], r['ve'] = rd(vt, n), rd(ve, n)
        mx = max(r['ve']) if n else b
    k = mx - b
    if k < 0 or k > 4 * max(e, 0) + 100000:
        k = max(e, 0)
    r['vel'], r['vnl'], r['lb'], r['et'] = rd(vel, en), rd(vnl, nn), rd(lb, n), rd(et, k)
    return r, dg.value


def free(E, cm):
    E.rec.call('meshExit')
    E.sc.call('SCOTCH_meshExit', cm.o)


def observe(E, cm):
    E.rec.call('meshData')
    r, dg = data(E.sc, cm.o)
    sz = [c_int() for _ in range(3)]
    E.sc.call('SCOTCH_meshSize', cm.o, *[byref(x) for x in sz])
    E.rec.ev('MeshObserve', h=cm.h, raw=r, deg=dg, size=[x.value for x in sz])


def save(E, cm):
    p = E.path('msh')
    f = E.sc.fopen(p, 'w')
    E.rec.call('meshSave')
    r = E.sc.call('SCOTCH_meshSave', cm.o, f)
    E.sc.fclose(f)
    t = open(p).read()
    os.unlink(p)
    E.rec.ev('MeshSave', h=cm.h, ret=r, tok=ops.tokens(t) or [])
    return t


def load(E, h, txt, b):
    S = E.sc
    p = E.path('msh')
    open(p, 'w').write(txt)
    o = S.obj('mesh')
    S.call('SCOTCH_meshInit', o)
    f = S.fopen(p, 'r')
    E.rec.call('meshLoad')
    r = S.call('SCOTCH_meshLoad', o, f, b)
    S.fclose(f)
    if r == 0:
        E.rec.call('meshCheck')
        chk = S.call('SCOTCH_meshCheck', o)
        r = 0 if chk == 0 else 1                  # inconsistent files may be refused by the check
    raw = data(S, o)[0] if r == 0 else {}
    os.unlink(p)
    E.rec.ev('MeshLoad', h=h, ret=1 if r else 0, b=b, tok=ops.tokens(txt) or [], raw=raw)
    if r:
        return None
    cm = CMesh()
    cm.o, cm.h, cm.bufs, cm.raw = o, h, {}, raw
    return cm


def graphs(E, cm, ncom=None):
    S = E.sc
    g = S.graph_new()
    E.rec.call('meshGraph' if ncom is None else 'meshGraphDual %d' % ncom)
    r = S.call('SCOTCH_meshGraph', cm.o, g) if ncom is None else S.call('SCOTCH_meshGraphDual', cm.o, g, ncom)
    raw = S.graph_data(g) if r == 0 else {}
    chk = 0
    if r == 0:
        E.rec.call('graphCheck')
        chk = S.call('SCOTCH_graphCheck', g)
    E.rec.ev('MeshGraph' if ncom is None else 'MeshDual', h=cm.h, ret=r, raw=raw, chk=chk, ncom=ncom or 0)
    if r == 0:
        S.graph_exit(g)


def stat(E, cm):
    S = E.sc
    I = {k: c_int(-99) for k in ('vnlomin', 'vnlomax', 'vnlosum', 'edegmin', 'edegmax', 'ndegmin', 'ndegmax')}
    D = {k: c_double(-99) for k in ('vnloavg', 'vnlodlt', 'edegavg', 'edegdlt', 'ndegavg', 'ndegdlt')}
    E.rec.call('meshStat')
    X = dict(I, **D)
    S.call('SCOTCH_meshStat', cm.o, *[byref(X[k]) for k in ('vnlomin', 'vnlomax', 'vnlosum', 'vnloavg', 'vnlodlt', 'edegmin', 'edegmax', 'edegavg', 'edegdlt', 'ndegmin', 'ndegmax', 'ndegavg', 'ndegdlt')])
    ev = {k: v.value for k, v in I.items()}
    ev.update({k: ops.sc1000(v.value) for k, v in D.items()})
    E.rec.ev('MeshStat', h=cm.h, ret=0, **ev)


def geom(E, cm, m):
    """Loads coordinates given in any order, with more lines than nodes, then saves them."""
    S, rng = E.sc, E.rng
    dim, nn = rng.randint(1, 3), m.nn
    raw = cm.raw
    lbl = [(raw['lb'][raw['nb'] - raw['b'] + j] if raw['lb'] else raw['nb'] + j) for j in range(nn)]
    ls = [[x] + [rng.randint(-9999, 9999) for _ in range(dim)] for x in lbl]
    for x in range(rng.choice((0, 0, 3))):
        y = max(lbl + [0]) + 1 + 2 * x
        ls.append([y] + [rng.randint(-9, 9) for _ in range(dim)])
    if rng.random() < .7:
        rng.shuffle(ls)
    p, q = E.path('xyz'), E.path('xyz')
    open(p, 'w').write('%d\n%d\n' % (dim, len(ls)) + ''.join('%d\t' % x[0] + '\t'.join('%f' % (y / 10000) for y in x[1:]) + '\n' for x in ls))
    go = S.obj('geom')
    S.call('SCOTCH_geomInit', go)
    f = S.fopen(p, 'r')
    E.rec.call('meshGeomLoadScot')
    r = S.call('SCOTCH_meshGeomLoadScot', cm.o, go, None, f, None)
    S.fclose(f)
    os.unlink(p)
    got, dg = [], -1
    if r == 0:
        d, pt = c_int(), c_void_p()
        S.call('SCOTCH_geomData', go, byref(d), byref(pt), res=None)
        dg = d.value
        if nn and pt.value and dg > 0:
            a = list((c_double * (nn * dg)).from_address(pt.value))
            got = [[ops.micro(x) for x in a[i * dg:(i + 1) * dg]] for i in range(nn)]
    E.rec.ev('MeshGeom', h=cm.h, what='load', ret=r, dim=dim, dimgot=dg, lines=ls, got=got, cnt=len(ls))
    if r == 0 and nn and got:
        f = S.fopen(q, 'w')
        E.rec.call('meshGeomSaveScot')
        r = S.call('SCOTCH_meshGeomSaveScot', cm.o, go, None, f, None)
        S.fclose(f)
        x = [y.split() for y in open(q).read().split('\n') if y.strip()]
        E.rec.ev('MeshGeom', h=cm.h, what='save', ret=r, dim=dim, dimgot=int(x[0][0]) if x else -1, cnt=int(x[1][0]) if len(x) > 1 else -1,
                 lines=[[int(y[0])] + [ops.micro(float(z)) for z in y[1:]] for y in x[2:]], got=got)
        os.unlink(q)
    S.call('SCOTCH_geomExit', go)


def mut_tokens(rng, t):
    t = list(t)
    n = len(t)
    k = rng.choice(('cut', 'neg', 'chg', 'chg', 'del', 'ins', 'flag', 'e', 'n', 'ver', 'bas'))
    i = rng.randrange(n)
    if k == 'cut': t = t[:i]
    elif k == 'neg': t[i] = -t[i] - rng.choice((0, 1))
    elif k == 'chg' and n > 7:
        i = rng.randrange(7, n); t[i] = max(0, t[i] + rng.choice((-1, 1, 2, 7)))
    elif k == 'del': del t[i]
    elif k == 'ins': t.insert(i, rng.randrange(4))
    elif k == 'flag': t[6] = rng.choice((0, 1, 10, 11, 100, 101, 110, 111, 112, 200, -1))
    elif k == 'e': t[3] = max(0, t[3] + rng.choice((-2, -1, 1, 2)))
    elif k == 'n': j = rng.choice((1, 2)); t[j] = max(0, t[j] + rng.choice((-1, 1)))
    elif k == 'ver': t[0] = rng.choice((0, 2, 3))
    elif k == 'bas': j = rng.choice((4, 5)); t[j] = max(0, t[j] + rng.choice((-1, 1)))
    return t


class C12(Prop):
    def scenarios(self, ctx):
        def chk(i):
            def f(E):
                for k in range(6):
                    rng = E.rng
                    m = gmesh(rng, i if k == 0 else 9, 7)
                    raw = m.raw(rng, ops.layout(rng))
                    for _ in range(rng.choice((0, 1, 1, 2))):
                        raw = corrupt(rng, raw)
                    build(E, 'm%d' % k, raw)
            return ('chk/%d' % i, f)

        def io(i):
            def f(E):
                rng = E.rng
                m = gmesh(rng, i)
                cm = build(E, 'm', m.raw(rng, ops.layout(rng)))
                observe(E, cm)
                t = save(E, cm)
                c2 = load(E, 'l', t, rng.choice((-1, -1, 0, 1)))
                if c2:
                    observe(E, c2)
                    save(E, c2)
                    free(E, c2)
                for k in range(2):
                    tk = mut_tokens(rng, ops.tokens(t))
                    if rng.random() < .3 and tk:
                        tk = mut_tokens(rng, tk)
                    c3 = load(E, 'x%d' % k, ' '.join(map(str, tk)) + '\n', rng.choice((-1, 0, 1)))
                    if c3:
                        free(E, c3)
                observe(E, cm)
                free(E, cm)
            return ('io/%d' % i, f)

        def use(i):
            def f(E):
                rng = E.rng
                m = gmesh(rng, i)
                cm = build(E, 'm', m.raw(rng, ops.layout(rng)))
                graphs(E, cm)
                for c in rng.sample((1, 1, 2, 3, 4), 2):
                    graphs(E, cm, c)
                stat(E, cm)
                geom(E, cm, m)
                if rng.random() < .3:
                    c2 = load(E, 'l', save(E, cm), -1)
                    if c2:
                        graphs(E, c2)
                        graphs(E, c2, 2)
                        stat(E, c2)
                        m.lb = c2.raw['lb']
                        geom(E, c2, m)
                        free(E, c2)
                observe(E, cm)
            return ('use/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [chk(i) for i in range(200 * k)] + [io(i) for i in range(250 * k)] + [use(i) for i in range(250 * k)]


def order(E, cm, via=None, d=None):
    S, rng = E.sc, E.rng
    r = rng.random()
    if d: s = S.strat('MeshOrder', d)
    elif r < .2: s, d = S.strat(), 'default'
    elif r < .5:
        s, bal = S.strat(), rng.choice((.01, .1, .5))
        assert S.call('SCOTCH_stratMeshOrderBuild', s, 0, bal) == 0
        d = 'build %s' % bal
    else:
        d = strats.mord(rng)
        s = S.strat('MeshOrder', d)
    nn = cm.raw['nn']
    B = OrdBufs(rng, nn)
    o = via or cm.o
    low = rng.random() < .5
    E.rec.call('meshOrder low=%s %s' % (low, d))
    chk = 0
    if low:
        oo = S.obj('order')
        ret = S.call('SCOTCH_meshOrderInit', o, oo, *B.args())
        if ret == 0:
            ret = S.call('SCOTCH_meshOrderCompute', o, oo, s)
            if ret == 0:
                chk = S.call('SCOTCH_meshOrderCheck', o, oo)
            S.call('SCOTCH_meshOrderExit', o, oo)
    else:
        ret = S.call('SCOTCH_meshOrder', o, s, *B.args())
    r, has = B.result()
    E.rec.ev('MeshOrder', h=cm.h, ret=ret, chk=chk, r=r, hasperm=1 if 'p' in has or 'i' in has else 0, hasblk=1 if 'b' in has else 0,
             guard=B.guard(), same=same(cm), st=d, sep=0 if d == 'default' or d.startswith('build') else sep_mode(d))


class C13(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                m = gmesh(rng, i, rng.choice((10, 30, 90)))
                cm = build(E, 'm', m.raw(rng, ops.layout(rng)))
                for _ in range(3):
                    order(E, cm)
                observe(E, cm)
            return ('mord/%d' % i, f)
        def fan(i):
            """Few elements with many nodes of their own: the tables of the separators' refinement grow."""
            def f(E):
                rng = E.rng
                en, nn = rng.randint(8, 24), rng.randint(1200, 1600)
                nd = [[v % en, (v + 1) % en] if v < en - 1 else sorted(rng.sample(range(en), 2)) if v < 2 * en else [rng.randrange(en)] for v in range(nn)]
                el = [[] for _ in range(en)]
                for v, es in enumerate(nd):
                    for e in es: el[e].append(v)
                m = Mesh(nn, el, nd)
                m.b, m.first = rng.choice((0, 1)), rng.choice('en')
                if rng.random() < .3: m.vnl = [rng.randint(1, 3) for _ in range(nn)]
                cm = build(E, 'm', m.raw(rng, ops.layout(rng)))
                order(E, cm, d='n{sep=%sf{move=%d,pass=20,bal=%s},ole=s,ose=s}' % (rng.choice('zh'), rng.choice((3, 10, 30)), rng.choice((.1, .6, .9))))
            return ('mfan/%d' % i, f)
        k = 8 if ctx.thorough else 1
        return [one(i) for i in range(400 * k)] + [fan(i) for i in range(8 * k)]
