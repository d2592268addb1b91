"""Target architectures: generation, construction through the API, observation."""
from ctypes import c_int, c_void_p, byref
import ctypes
from sc import Buf


def gen_arch(rng, nmax=24, kinds=None, depth=0):
    k = rng.choice(kinds or ('cmplt', 'cmpltw', 'hcub', 'mesh', 'torus', 'tleaf', 'ltleaf', 'sub', 'mesh', 'torus', 'tleaf', 'sub'))
    if k == 'cmplt':
        return dict(k=k, n=rng.randint(1, nmax))
    if k == 'cmpltw':
        return dict(k=k, w=[rng.randint(1, rng.choice((1, 3, 9))) for _ in range(rng.randint(1, nmax))])
    if k == 'hcub':
        d = 1
        while 2 ** (d + 1) <= nmax and rng.random() < .8:
            d += 1
        return dict(k=k, d=d)
    if k in ('mesh', 'torus'):
        nd = rng.choice((2, 2, 3, 3, 1, 4, 5))
        dim = [1] * nd
        p = 1
        for _ in range(40):
            i = rng.randrange(nd)
            q = p // dim[i] * (dim[i] + 1)
            if q <= nmax:
                dim[i] += 1
                p = q
            if rng.random() < .08:
                break
        return dict(k=k, dim=dim, x=1 if (nd not in (2, 3) or rng.random() < .3) else 0)
    if k in ('tleaf', 'ltleaf'):
        nl = rng.randint(1, 4)
        sz = []
        p = 1
        for _ in range(nl):
            m = nmax // p
            if m < 2:
                break
            s = rng.randint(2, min(m, 6))
            sz.append(s)
            p *= s
        lk = [rng.randint(1, 12) for _ in sz]
        a = dict(k=k, sz=sz, lk=lk)
        if k == 'ltleaf':
            b = 1
            if rng.random() < .85:
                for s in reversed(sz[-rng.randint(1, len(sz)):]):
                    b *= s
            pm = list(range(b))
            rng.shuffle(pm)
            a['pm'] = pm
        return a
    if k == 'deco':
        n = rng.randint(1, nmax)
        dom = [1]
        while len(dom) < n:
            i = rng.randrange(len(dom))
            if dom[i] > 200:
                i = dom.index(min(dom))
            d = dom.pop(i)
            dom += [2 * d, 2 * d + 1]
        rng.shuffle(dom)
        lb = list(range(n))
        rng.shuffle(lb)
        dm = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                dm[i][j] = dm[j][i] = rng.randint(1, 9)
        return dict(k=k, lb=lb, w=[rng.randint(1, 5) for _ in lb], dom=dom, dm=dm)
    if k == 'sub':
        o = gen_arch(rng, nmax, ('cmplt', 'cmpltw', 'hcub', 'mesh', 'torus', 'tleaf') + (('sub',) if depth < 1 else ()), depth + 1)
        n = asize(o)
        l = list(range(n))
        if rng.random() < .7:
            rng.shuffle(l)
        m = rng.choice((n, 1, rng.randint(1, n), rng.randint(1, n)))
        return dict(k=k, org=o, lst=l[:m])
    raise ValueError(k)


def asize(a):
    k = a['k']
    if k == 'cmplt': return a['n']
    if k == 'cmpltw': return len(a['w'])
    if k == 'hcub': return 1 << a['d']
    if k == 'deco': return len(a['lb'])
    p = 1
    if k in ('mesh', 'torus'):
        for x in a['dim']: p *= x
        return p
    if k in ('tleaf', 'ltleaf'):
        for x in a['sz']: p *= x
        return p
    return len(a['lst'])


def words(a):
    """The text of the architecture file (used as an input of the loader)."""
    k = a['k']
    if k == 'cmplt': return ['cmplt', a['n']]
    if k == 'cmpltw': return ['cmpltw', len(a['w'])] + a['w']
    if k == 'hcub': return ['hcub', a['d']]
    if k in ('mesh', 'torus'):
        d = a['dim']
        return [k + 'XD', len(d)] + d if (a['x'] or len(d) not in (2, 3)) else ['%s%dD' % (k, len(d))] + d
    if k in ('tleaf', 'ltleaf'):
        w = [k, len(a['sz'])]
        for s, l in zip(a['sz'], a['lk']):
            w += [s, l]
        return w + ([len(a['pm'])] + a['pm'] if k == 'ltleaf' else [])
    if k == 'sub':
        return ['sub', len(a['lst'])] + a['lst'] + words(a['org'])
    if k == 'deco':
        n = len(a['lb'])
        w = ['deco', 0, n, max(a['dom'])]
        for i in range(n):
            w += [a['lb'][i], a['w'][i], a['dom'][i]]
        for i in range(n):
            w += [a['dm'][i][j] for j in range(i)]
        return w
    raise ValueError(k)


def text(rng, a):
    return ''.join('%s%s' % (w, rng.choice((' ', '\n', '\t', '  '))) for w in words(a))


class CArch:
    pass


def new(E):
    c = CArch()
    c.obj = E.sc.obj('arch')
    E.sc.call('SCOTCH_archInit', c.obj)
    c.keep = []
    return c


def make(E, a, c=None):
    """Builds an architecture through the API; returns (CArch, ret)."""
    c = c or new(E)
    S = E.sc
    k = a['k']
    if k == 'cmplt': r = S.call('SCOTCH_archCmplt', c.obj, a['n'])
    elif k == 'cmpltw':
        b = Buf(a['w']); r = S.call('SCOTCH_archCmpltw', c.obj, len(a['w']), b)
    elif k == 'hcub': r = S.call('SCOTCH_archHcub', c.obj, a['d'])
    elif k in ('mesh', 'torus'):
        n = 'Mesh' if k == 'mesh' else 'Torus'
        d = a['dim']
        if a['x'] or len(d) not in (2, 3):
            r = S.call('SCOTCH_arch%sX' % n, c.obj, len(d), Buf(d))
        else:
            r = S.call('SCOTCH_arch%s%d' % (n, len(d)), c.obj, *d)
    elif k == 'tleaf': r = S.call('SCOTCH_archTleaf', c.obj, len(a['sz']), Buf(a['sz']), Buf(a['lk']))
    elif k == 'ltleaf': r = S.call('SCOTCH_archLtleaf', c.obj, len(a['sz']), Buf(a['sz']), Buf(a['lk']), len(a['pm']), Buf(a['pm']))
    elif k == 'sub':
        o, r = make(E, a['org'])
        if r == 0:
            c.keep.append(o)
            r = S.call('SCOTCH_archSub', c.obj, o.obj, len(a['lst']), Buf(a['lst']))
    elif k == 'deco':
        return load(E, ' '.join(map(str, words(a))), c)
    c.a = a
    return c, r


def load(E, txt, c=None):
    c = c or new(E)
    p = E.path('tgt')
    open(p, 'w').write(txt)
    f = E.sc.fopen(p, 'r')
    r = E.sc.call('SCOTCH_archLoad', c.obj, f)
    E.sc.fclose(f)
    import os
    os.unlink(p)
    return c, r


def save(E, c):
    import os
    p = E.path('tgt')
    f = E.sc.fopen(p, 'w')
    r = E.sc.call('SCOTCH_archSave', c.obj, f)
    E.sc.fclose(f)
    t = open(p).read()
    os.unlink(p)
    return r, t


def ev_make(E, h, a):
    E.rec.call('arch' + a['k'])
    c, r = make(E, a)
    E.rec.ev('ArchMake', h=h, a=a, ret=r)
    c.a, c.h = a, h
    return c if r == 0 else None


def ev_load(E, h, a, txt=None):
    txt = text(E.rng, a) if txt is None else txt
    E.rec.call('archLoad')
    c, r = load(E, txt)
    E.rec.ev('ArchMake', h=h, a=a, ret=r)
    c.a, c.h = a, h
    return c if r == 0 else None


def ev_graph(E, h, cg, lst, ver):
    """lst: 0-based vertices, or None for all."""
    c = new(E)
    b = cg.g.b
    l = [v + b for v in lst] if lst is not None else []
    lb = Buf(l) if l else None
    from sc import P
    E.rec.call('archBuild%d' % ver)
    if ver == 0:
        r = E.sc.call('SCOTCH_archBuild0', c.obj, cg, len(l), P(lb), E.sc.strat())
    else:
        r = E.sc.call('SCOTCH_archBuild2', c.obj, cg, len(l), P(lb))
    use = lst if lst is not None and len(lst) < cg.g.n else list(range(cg.g.n))
    E.rec.ev('ArchGraph', h=h, g=cg.h, lst=[v + 1 for v in use], ver=ver, ret=r, same=cg.same())
    if r != 0:
        return None
    c.a = dict(k='deco', lb=[v + b for v in use] if ver == 0 else list(range(len(use))))
    c.h = h
    return c


def ev_info(E, c):
    E.rec.call('archSize')
    nm = E.sc.call('SCOTCH_archName', c.obj, res=ctypes.c_char_p)
    E.rec.ev('ArchInfo', h=c.h, size=E.sc.call('SCOTCH_archSize', c.obj), var=E.sc.call('SCOTCH_archVar', c.obj), name=nm.decode())


def dom(E):
    return E.sc.obj('archDom')


def dist(E, c, d, e):
    return E.sc.call('SCOTCH_archDomDist', c.obj, d, e)


def ev_tree(E, c, est=20):
    """Walks the whole domain tree."""
    S = E.sc
    T, D, par = [], [], []
    E.rec.call('archDom')
    d = dom(E)
    S.call('SCOTCH_archDomFrst', c.obj, d)
    lim = 2 * asize(c.a) + 4

    def walk(d, p):
        i = len(T)
        T.append(None); D.append(d); par.append(p)
        x, y = dom(E), dom(E)
        r = S.call('SCOTCH_archDomBipart', c.obj, d, x, y)
        nd = dict(s=S.call('SCOTCH_archDomSize', c.obj, d), w=S.call('SCOTCH_archDomWght', c.obj, d),
                  m=S.call('SCOTCH_archDomNum', c.obj, d), r=r, l=0, q=0)
        T[i] = nd
        if r == 0 and len(T) < lim:
            nd['l'] = walk(x, i) + 1
            nd['q'] = walk(y, i) + 1
        elif r == 0:
            nd['r'] = 3
        return i
    walk(d, -1)
    n = asize(c.a)
    tm, tds, dl = [], [], []
    leaf = {T[i]['m']: D[i] for i in range(len(T)) if T[i]['r'] == 1}
    nums = c.a['lb'] if c.a['k'] == 'deco' else range(n)
    for t in nums:
        x = dom(E)
        r = S.call('SCOTCH_archDomTerm', c.obj, x, t)
        if r != 0:
            tm.append(dict(r=r, m=-1, s=-1, w=-1)); dl.append(-1); tds.append(None)
            continue
        tm.append(dict(r=r, m=S.call('SCOTCH_archDomNum', c.obj, x), s=S.call('SCOTCH_archDomSize', c.obj, x),
                       w=S.call('SCOTCH_archDomWght', c.obj, x)))
        dl.append(dist(E, c, x, leaf[t]) if t in leaf else -1)
        tds.append(x)
    dm = [[dist(E, c, x, y) if x and y else -1 for y in tds] for x in tds]
    ov = S.call('SCOTCH_archDomTerm', c.obj, dom(E), max(nums) + 1)
    anc = []
    for i in range(len(T)):
        s = {i}
        j = i
        while par[j] >= 0:
            j = par[j]; s.add(j)
        anc.append(s)
    pr = []
    for _ in range(est):
        i, j = E.rng.randrange(len(T)), E.rng.randrange(len(T))
        if i in anc[j] or j in anc[i]:
            continue
        pr.append([i + 1, j + 1, dist(E, c, D[i], D[j]), dist(E, c, D[j], D[i])])
    E.rec.ev('ArchTree', h=c.h, T=T, tm=tm, dl=dl, dm=dm, ov=ov, pr=pr)


def ev_save(E, c):
    E.rec.call('archSave')
    r, t = save(E, c)
    E.rec.ev('ArchSave', h=c.h, ret=r, words=t.split())
    return t


def ev_loadbad(E, txt):
    E.rec.call('archLoad')
    c, r = load(E, txt)
    E.rec.ev('ArchRefuse', ret=r, words=txt.split())
