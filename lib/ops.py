"""Calls of the library recorded as events.  Every function performs one API
call on the real code and records arguments, results and frame data."""
import os
from ctypes import c_int, c_double, c_void_p, c_char_p, byref, POINTER
import ctypes
from sc import Buf, P, Gr, CGraph, Obj


class Env:
    """Per-scenario environment: binding, rng, scratch directory."""
    def __init__(self, sc, rng, rec, tmp):
        self.sc, self.rng, self.rec, self.tmp = sc, rng, rec, tmp
        self.k = 0

    def path(self, suffix='f'):
        self.k += 1
        return os.path.join(self.tmp, 'p%d_%d.%s' % (os.getpid(), self.k, suffix))


def layout(rng):
    return rng.choice(('compact', 'compact', 'gaps'))


def build(E, h, g, lay=None):
    raw = g.raw(E.rng, lay or layout(E.rng))
    E.rec.call('graphBuild')
    cg = E.sc.graph_build(raw)
    E.rec.ev('GraphBuild', h=h, raw=raw, ret=cg.ret)
    cg.g = g
    cg.h = h
    return cg


def check(E, cg):
    E.rec.call('graphCheck')
    r = E.sc.call('SCOTCH_graphCheck', cg)
    E.rec.ev('GraphCheck', h=cg.h, ret=r, same=cg.same())


def observe(E, cg, h=None):
    E.rec.call('graphData')
    E.rec.ev('GraphObserve', h=h or cg.h, raw=E.sc.graph_data(cg))


def base(E, cg, b):
    E.rec.call('graphBase')
    r = E.sc.call('SCOTCH_graphBase', cg, b)
    E.rec.ev('GraphBase', h=cg.h, b=b, ret=r)
    cg.g.b = b
    for x in cg.bufs.values():
        if x is not None:
            x.save()


def induce_list(E, cg, c, lst, via=None):
    """lst: 0-based vertices."""
    b = cg.g.b
    vt = Buf([v + b for v in lst]) if lst else Buf([0])
    o = E.sc.graph_new()
    E.rec.call('graphInduceList')
    r = E.sc.call('SCOTCH_graphInduceList', via or cg, len(lst), vt, o)
    raw = E.sc.graph_data(o) if r == 0 else {}
    E.rec.ev('GraphInduce', h=cg.h, c=c, ret=r, same=cg.same() & vt.same(), list=[v + b for v in lst], raw=raw)
    o.h = c
    o.g = Gr(len(lst), None, b=b)
    return o if r == 0 else None


def induce_part(E, cg, c, part, val, via=None):
    b, n = cg.g.b, cg.g.n
    pt = (ctypes.c_ubyte * max(1, n + 16))(*([255] * 8 + part + [255] * 8)) if n else (ctypes.c_ubyte * 16)()
    lst = [v for v in range(n) if part[v] == val]
    o = E.sc.graph_new()
    E.rec.call('graphInducePart')
    r = E.sc.call('SCOTCH_graphInducePart', via or cg, len(lst), c_void_p(ctypes.addressof(pt) + 8), ctypes.c_ubyte(val), o)
    raw = E.sc.graph_data(o) if r == 0 else {}
    E.rec.ev('GraphInduce', h=cg.h, c=c, ret=r, same=cg.same(), list=[v + b for v in lst], raw=raw)
    o.h = c
    o.g = Gr(len(lst), None, b=b)
    return o if r == 0 else None


def wfc(mult, cn, b, n):
    w = [0] * n
    for q in range(cn):
        for z in mult[2 * q:2 * q + 2]:
            if 0 <= z - b < n:
                w[z - b] = q + 1
    return w


def coarsen(E, cg, c, mn, permil, nomerge, via=None, n=None):
    b = cg.g.b
    n = cg.g.n if n is None else n
    mult = Buf([], 2 * n)
    o = E.sc.graph_new()
    E.rec.call('graphCoarsen')
    r = E.sc.call('SCOTCH_graphCoarsen', via or cg, mn, permil / 1000.0, 0x4000 if nomerge else 0, o, mult)
    raw = E.sc.graph_data(o) if r == 0 else {}
    ml = mult.list()
    E.rec.ev('GraphCoarsen', h=cg.h, c=c, ret=r, same=cg.same(), guard=mult.guard(), mult=ml, raw=raw,
             wfc=wfc(ml, raw['n'], b, n) if r == 0 else [], min=mn, permil=permil, nomerge=nomerge)
    if r != 0:
        return None
    o.h = c
    o.g = Gr(raw['n'], None, b=b)
    return o


def match_build(E, cg, c, mn, permil, nomerge, via=None, mate=None):
    b, n = cg.g.b, cg.g.n
    if mate is None:
        mt = Buf([], n)
        cn = c_int(mn)
        E.rec.call('graphCoarsenMatch')
        r = E.sc.call('SCOTCH_graphCoarsenMatch', via or cg, byref(cn), permil / 1000.0, 0x4000 if nomerge else 0, mt)
        E.rec.ev('GraphMatch', h=cg.h, ret=r, same=cg.same(), guard=mt.guard(), mate=mt.list(), cn=cn.value,
                 min=mn, permil=permil, nomerge=nomerge)
        if r != 0:
            return None
        mate, cn = mt.list(), cn.value
    else:
        mt = Buf(mate)
        cn = sum(1 for v in range(n) if mate[v] - b >= v)
    mult = Buf([], 2 * cn)
    o = E.sc.graph_new()
    E.rec.call('graphCoarsenBuild')
    r = E.sc.call('SCOTCH_graphCoarsenBuild', via or cg, cn, mt, o, mult)
    raw = E.sc.graph_data(o) if r == 0 else {}
    ml = mult.list()
    E.rec.ev('GraphCoarsenBuild', h=cg.h, c=c, ret=r, same=cg.same(), guard=mult.guard() & mt.guard(), mate=mate,
             mult=ml, raw=raw, fc=mt.list(), wfc=wfc(ml, raw['n'], b, n) if r == 0 else [])
    if r != 0:
        return None
    o.h = c
    o.g = Gr(raw['n'], None, b=b)
    return o


def color(E, cg, via=None):
    n = cg.g.n
    col = Buf([], n)
    nb = c_int(-5)
    E.rec.call('graphColor')
    r = E.sc.call('SCOTCH_graphColor', via or cg, col, byref(nb), 0)
    E.rec.ev('GraphColor', h=cg.h, ret=r, same=cg.same(), guard=col.guard(), col=col.list(), nbr=nb.value)


def sc1000(x):
    import math
    if math.isnan(x) or math.isinf(x) or abs(x) > 2e6:
        return -2147483000
    return int(round(x * 1000))


def stat(E, cg):
    i = {k: c_int(-9) for k in ('velomin', 'velomax', 'velosum', 'degrmin', 'degrmax', 'edlomin', 'edlomax', 'edlosum')}
    d = {k: c_double(-9) for k in ('veloavg', 'velodlt', 'degravg', 'degrdlt', 'edloavg', 'edlodlt')}
    E.rec.call('graphStat')
    a = []
    for k in ('velomin', 'velomax', 'velosum', 'veloavg', 'velodlt', 'degrmin', 'degrmax', 'degravg', 'degrdlt',
              'edlomin', 'edlomax', 'edlosum', 'edloavg', 'edlodlt'):
        a.append(byref(i[k] if k in i else d[k]))
    E.sc.call('SCOTCH_graphStat', cg, *a, res=None)
    f = {k: v.value for k, v in i.items()}
    f.update({k: sc1000(v.value) for k, v in d.items()})
    E.rec.ev('GraphStat', h=cg.h, **f)


def diam(E, cg, via=None):
    E.rec.call('graphDiamPV')
    r = E.sc.call('SCOTCH_graphDiamPV', via or cg)
    E.rec.ev('GraphDiam', h=cg.h, ret=r)


# -- files -----------------------------------------------------------------
def tokens(txt):
    t = []
    for x in txt.split():
        try:
            t.append(int(x))
        except ValueError:
            return None
    return t


def lines(txt, comment='%'):
    o = []
    for ln in txt.split('\n'):
        if ln.startswith(comment):
            continue
        t = tokens(ln)
        if t is None:
            return None
        o.append(t)
    while o and o[-1] == []:
        o.pop()
    return o


def save(E, cg, via=None):
    p = E.path('grf')
    f = E.sc.fopen(p, 'w')
    E.rec.call('graphSave')
    r = E.sc.call('SCOTCH_graphSave', via or cg, f)
    E.sc.fclose(f)
    txt = open(p).read()
    t = tokens(txt)
    E.rec.ev('GraphSave', h=cg.h, ret=r, num=0 if t is None else 1, tok=t or [], same=cg.same())
    return p, txt


def load_text(E, h, txt, b, fl, tok=None):
    p = E.path('grf')
    open(p, 'w').write(txt)
    o = E.sc.graph_new()
    f = E.sc.fopen(p, 'r')
    E.rec.call('graphLoad')
    r = E.sc.call('SCOTCH_graphLoad', o, f, b, fl)
    E.sc.fclose(f)
    raw = E.sc.graph_data(o) if r == 0 else {}
    t = tokens(txt) if tok is None else tok
    E.rec.ev('GraphLoad', h=h, ret=r, b=b, fl=fl, tok=t, raw=raw)
    os.unlink(p)
    if r == 0:
        o.h = h
        o.g = Gr(raw['n'], None, b=raw['b'])
        return o
    return None


def _geom(E):
    o = E.sc.obj('geom')
    E.sc.call('SCOTCH_geomInit', o)
    return o


def chaco_save(E, cg):
    p = E.path('chac')
    f = E.sc.fopen(p, 'w')
    go = _geom(E)
    E.rec.call('graphGeomSaveChac')
    r = E.sc.call('SCOTCH_graphGeomSaveChac', cg, go, f, None, None)
    E.sc.fclose(f)
    txt = open(p).read()
    os.unlink(p)
    ok = txt.endswith('\n')
    ls = [tokens(x) for x in txt.split('\n')[:-1]]
    ok = ok and all(x is not None for x in ls)
    E.rec.ev('ChacoSave', h=cg.h, ret=r, num=1 if ok else 0, lines=ls if ok else [])
    return txt


def chaco_load(E, h, txt, ls=None):
    p = E.path('chac')
    open(p, 'w').write(txt)
    o = E.sc.graph_new()
    f = E.sc.fopen(p, 'r')
    go = _geom(E)
    E.rec.call('graphGeomLoadChac')
    r = E.sc.call('SCOTCH_graphGeomLoadChac', o, go, f, None, None)
    E.sc.fclose(f)
    os.unlink(p)
    raw = E.sc.graph_data(o) if r == 0 else {}
    E.rec.ev('ChacoLoad', h=h, ret=r, lines=lines(txt) if ls is None else ls, raw=raw)
    if r == 0:
        o.h = h
        o.g = Gr(raw['n'], None, b=1)
        return o


def mmkt_parse(txt):
    ls = txt.split('\n')
    if not ls or not ls[0].startswith('%%MatrixMarket matrix coordinate') or txt[-1:] != '\n':
        return None
    rows = [tokens(x) for x in ls[1:-1] if not x.startswith('%')]
    if not rows or any(x is None for x in rows) or len(rows[0]) != 3 or len(rows) != rows[0][2] + 1 or any(len(x) != 2 for x in rows[1:]):
        return None
    return rows


def mmkt_save(E, cg):
    p = E.path('mm')
    f = E.sc.fopen(p, 'w')
    go = _geom(E)
    E.rec.call('graphGeomSaveMmkt')
    r = E.sc.call('SCOTCH_graphGeomSaveMmkt', cg, go, f, None, None)
    E.sc.fclose(f)
    txt = open(p).read()
    os.unlink(p)
    rows = mmkt_parse(txt)
    ok = rows is not None
    E.rec.ev('MmktSave', h=cg.h, ret=r, num=1 if ok else 0, n=rows[0][0] if ok else 0, cols=rows[0][1] if ok else 0,
             ents=rows[1:] if ok else [])
    return txt


def matrix_load(E, h, fmt, txt, b, n, cols, ents, data=None, trunc=False):
    """Matrix Market ('Mmkt') or Harwell-Boeing ('Habo')."""
    p = E.path('mm')
    open(p, 'w').write(txt)
    o = E.sc.graph_new()
    f = E.sc.fopen(p, 'r')
    go = _geom(E)
    E.rec.call('graphGeomLoad' + fmt)
    r = E.sc.call('SCOTCH_graphGeomLoad' + fmt, o, go, f, None, data)
    E.sc.fclose(f)
    os.unlink(p)
    raw = E.sc.graph_data(o) if r == 0 else {}
    if trunc:
        E.rec.ev('MmktTrunc', ret=r)
        return None
    E.rec.ev('MmktLoad', h=h, ret=r, b=b, n=n, cols=cols, ents=ents, raw=raw)
    if r == 0:
        o.h = h
        o.g = Gr(raw['n'], None, b=b)
        return o


def geom_load(E, h, txt, dim, glines, gtxt):
    p, q = E.path('grf'), E.path('xyz')
    open(p, 'w').write(txt)
    open(q, 'w').write(gtxt)
    o = E.sc.graph_new()
    f = E.sc.fopen(p, 'r')
    f2 = E.sc.fopen(q, 'r')
    go = _geom(E)
    E.rec.call('graphGeomLoadScot')
    r = E.sc.call('SCOTCH_graphGeomLoadScot', o, go, f, f2, None)
    E.sc.fclose(f)
    E.sc.fclose(f2)
    os.unlink(p)
    os.unlink(q)
    raw = E.sc.graph_data(o) if r == 0 else {}
    crd, dg = [], 0
    if r == 0:
        d = c_int()
        pt = c_void_p()
        E.sc.call('SCOTCH_geomData', go, byref(d), byref(pt), res=None)
        dg = d.value
        if raw['n'] and pt.value:
            a = list((c_double * (raw['n'] * dim)).from_address(pt.value))
            crd = [[micro(x) for x in a[i * dim:(i + 1) * dim]] for i in range(raw['n'])]
    E.rec.ev('GeomLoad', h=h, ret=r, tok=tokens(txt), dim=dim, lines=glines, raw=raw, dimgot=dg, crd=crd)
    if r == 0:
        o.h, o.geom = h, go
        o.g = Gr(raw['n'], None, b=raw['b'])
        return o


def micro(x):
    return int(round(x * 10000)) if abs(x) < 200000 else -2147483000


def geom_save(E, cg):
    p, q = E.path('grf'), E.path('xyz')
    f = E.sc.fopen(p, 'w')
    f2 = E.sc.fopen(q, 'w')
    E.rec.call('graphGeomSaveScot')
    r = E.sc.call('SCOTCH_graphGeomSaveScot', cg, cg.geom, f, f2, None)
    E.sc.fclose(f)
    E.sc.fclose(f2)
    t, gt = open(p).read(), open(q).read()
    os.unlink(p)
    os.unlink(q)
    ls = [x.split() for x in gt.split('\n') if x.strip()]
    dim = int(ls[0][0]) if ls else -1
    cnt = int(ls[1][0]) if len(ls) > 1 else -1
    E.rec.ev('GeomSave', h=cg.h, ret=r, tok=tokens(t) or [], dim=dim, cnt=cnt,
             lines=[[int(x[0])] + [micro(float(y)) for y in x[1:]] for x in ls[2:]])
    return t, gt


def check2(E, cg):
    """graphCheck on a graph that the library made itself."""
    E.rec.call('graphCheck')
    r = E.sc.call('SCOTCH_graphCheck', cg)
    E.rec.ev('GraphCheckMade', h=cg.h, ret=r)
