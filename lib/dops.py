"""Calls of the distributed library recorded as events.  Every process executes
the same function; `loc` holds what is local to the process."""
import ctypes
from ctypes import c_int, c_double, c_void_p, byref
import gen
from sc import Buf, P, Gr, Obj
from ops import sc1000, tokens
import os


class DG:
    """A SCOTCH_Dgraph with the local arrays it was built from."""
    def __init__(self, E, h, dup=False):
        self.h = h
        self.o = E.sc.obj('dgraph', lib=E.sc.pt)
        self.bufs = {}
        self.init = E.sc.call('SCOTCH_dgraphInit', self.o, E.D.dup() if dup else E.D.world, lib=E.sc.pt)

    def same(self):
        return 1 if all(b.same() for b in self.bufs.values() if b is not None) else 0


def pt(E, name, *a, **k):
    E.rec.call(name)
    return E.sc.call('SCOTCH_' + name, *a, lib=E.sc.pt, **k)


def cuts(rng, n, np):
    """Numbers of vertices per process, possibly none."""
    m = rng.random()
    if m < 0.45:
        c = [(n + np - 1 - p) // np for p in range(np)]
    elif m < 0.85:
        x = sorted(rng.randint(0, n) for _ in range(np - 1))
        c = [b - a for a, b in zip([0] + x, x + [n])]
    else:
        c = [0] * np
        c[rng.randrange(np)] = n
    return c


def spread(rng, g, np, cnt=None, holes=None, lay=None):
    """Local raw records of all processes for graph g."""
    cnt = cnt or cuts(rng, g.n, np)
    holes = (rng.random() < 0.35) if holes is None else holes
    mx = [c + (rng.randrange(0, 4) if holes else 0) for c in cnt]
    lay = lay or rng.choice(('compact', 'compact', 'gaps'))
    b = g.b
    glb = []
    vrt = b
    for p in range(np):
        glb += [vrt + i for i in range(cnt[p])]
        vrt += mx[p]
    name = g.lb if g.lb is not None else glb
    locs = []
    v0 = 0
    for p in range(np):
        vs = range(v0, v0 + cnt[p])
        v0 += cnt[p]
        L = dict(b=b, n=cnt[p], mx=mx[p], ve=[], hv=int(g.vw is not None), he=int(g.ew is not None), hl=int(g.lb is not None),
                 vw=[g.vw[v] for v in vs] if g.vw is not None else [], lb=[g.lb[v] for v in vs] if g.lb is not None else [])
        et, ew = [], []
        if lay == 'compact' or cnt[p] == 0:
            vt = [b]
            for v in vs:
                et += [name[u] for u in g.nb[v]]
                ew += g.ew[v] if g.ew is not None else []
                vt.append(b + len(et))
        else:
            vt, ve = [0] * cnt[p], [0] * cnt[p]
            o = list(vs)
            rng.shuffle(o)
            for v in o:
                for _ in range(rng.randrange(0, 3)):
                    et.append(rng.choice((-5, 0, 99999, b)))
                    if g.ew is not None:
                        ew.append(rng.choice((-3, 7)))
                vt[v - vs[0]] = b + len(et)
                et += [name[u] for u in g.nb[v]]
                ew += g.ew[v] if g.ew is not None else []
                ve[v - vs[0]] = b + len(et)
            L['ve'] = ve
        L.update(vt=vt, et=et, ew=ew, e=sum(len(g.nb[v]) for v in vs))
        locs.append(L)
    return dict(locs=locs, lay=lay, cnt=cnt, mx=mx, glb=glb)


def build(E, h, S, gst=False, ev=True):
    """S: result of spread; returns the object (None if refused)."""
    L = S['locs'][E.me]
    G = DG(E, h)
    B = {}
    noncomp = S['lay'] != 'compact'
    B['vt'] = Buf(L['vt'] if L['vt'] else [L['b']])
    B['ve'] = (Buf(L['ve']) if L['ve'] else Buf([L['b']])) if noncomp else None
    B['vw'] = Buf(L['vw']) if L['hv'] else None
    B['lb'] = Buf(L['lb']) if L['hl'] else None
    B['et'] = Buf(L['et'])
    B['ew'] = Buf(L['ew']) if L['he'] else None
    eg = Buf([-9] * len(L['et'])) if gst else None
    r = pt(E, 'dgraphBuild', G.o, L['b'], L['n'], L['mx'], B['vt'], P(B['ve']), P(B['vw']), P(B['lb']), L['e'], len(L['et']),
           B['et'], P(eg), P(B['ew']))
    B['et'].save()                              # labels are turned into global indices in place
    G.bufs, G.eg, G.S = B, eg, S
    G.n, G.cnt, G.b = L['n'], S['cnt'], L['b']
    a = c_int(r)
    D = E.D
    mx, mn = c_int(), c_int()
    D.m.MPI_Allreduce(byref(a), byref(mx), 1, D.INT, D.sym('ompi_mpi_op_max'), D.world)
    D.m.MPI_Allreduce(byref(a), byref(mn), 1, D.INT, D.sym('ompi_mpi_op_min'), D.world)
    loc = dict(L)
    loc['ret'] = r
    ok = mx.value == 0 and mn.value == 0
    E.rec.ev('DBuild' if ok else 'DRefuse', h=h, loc=loc)
    return G if ok else None


def data(E, G):
    s = E.sc
    iv = {k: c_int(-9) for k in ('b', 'nglb', 'n', 'mx', 'gst', 'eglb', 'e', 'siz')}
    pv = {k: c_void_p() for k in ('vt', 've', 'vw', 'lb', 'et', 'eg', 'ew')}
    cm = c_void_p()
    r = lambda d, k: byref(d[k])
    pt(E, 'dgraphData', G.o, r(iv, 'b'), r(iv, 'nglb'), r(iv, 'n'), r(iv, 'mx'), r(iv, 'gst'), r(pv, 'vt'), r(pv, 've'),
       r(pv, 'vw'), r(pv, 'lb'), r(iv, 'eglb'), r(iv, 'e'), r(iv, 'siz'), r(pv, 'et'), r(pv, 'eg'), r(pv, 'ew'), byref(cm), res=None)
    L = {k: v.value for k, v in iv.items()}
    z = [c_int(-9) for _ in range(4)]
    pt(E, 'dgraphSize', G.o, *[byref(x) for x in z], res=None)
    L.update(nglb2=z[0].value, n2=z[1].value, eglb2=z[2].value, e2=z[3].value)
    n, siz = L['n'], L['siz']

    def rd(k, m):
        p = pv[k].value
        return list((c_int * m).from_address(p)) if (p and 0 < m < 5000000) else []
    if n == 0:
        L.update(vt=[L['b']], ve=[])
    elif pv['ve'].value in (None, (pv['vt'].value or 0) + 4):
        L.update(vt=rd('vt', n + 1), ve=[])
    else:
        L.update(vt=rd('vt', n), ve=rd('ve', n))
    L.update(vw=rd('vw', n), lb=rd('lb', n), et=rd('et', siz), ew=rd('ew', siz),
             eg=rd('eg', siz) if L['gst'] >= 0 else [],
             hv=int(bool(pv['vw'].value)), he=int(bool(pv['ew'].value)), hl=int(bool(pv['lb'].value)))
    return L


def observe(E, G, gst=0):
    E.rec.ev('DObserve', h=G.h, gst=gst, loc=data(E, G))


def check(E, G):
    r = pt(E, 'dgraphCheck', G.o)
    E.rec.ev('DCheck', h=G.h, loc=dict(ret=r, same=G.same()))


def check_made(E, G):
    r = pt(E, 'dgraphCheck', G.o)
    E.rec.ev('DCheckMade', h=G.h, loc=dict(ret=r))


def ghst(E, G):
    r = pt(E, 'dgraphGhst', G.o)
    E.rec.ev('DGhst', h=G.h, loc=dict(ret=r, same=G.same()))


def halo(E, G, rng):
    """rng: common generator; values are drawn for all the processes."""
    L = data(E, G)
    gst = L['gst'] if L['gst'] >= 0 else None
    kind = rng.choice(('int', 'int', 'byte', 'vec2', 'vec3'))
    asy = rng.random() < 0.5
    k = dict(int=1, byte=1, vec2=2, vec3=3)[kind]
    ins = [[[rng.randrange(0, 250) for _ in range(k)] for _ in range(c)] for c in G.cnt]
    mine = ins[E.me]
    D = E.D
    typ = D.INT if kind == 'int' else D.BYTE if kind == 'byte' else D.vector(k)
    if gst is None:                                 # ghosts computed by the halo routine itself: bound their number
        gst = L['n'] + L['e']
    if kind == 'byte':
        mem = (ctypes.c_ubyte * (gst + 64))(*([0xEE] * (gst + 64)))
        for i, x in enumerate(mine):
            mem[32 + i] = x[0]
        p = c_void_p(ctypes.addressof(mem) + 32)
    else:
        buf = Buf([y for x in mine for y in x], gst * k)
        p = c_void_p(buf.p)
    if asy:
        rq = E.sc.obj('dgraphHaloReq', lib=E.sc.pt)
        r = pt(E, 'dgraphHaloAsync', G.o, p, typ, rq)
        r2 = pt(E, 'dgraphHaloWait', rq)
        r = r or r2
    else:
        r = pt(E, 'dgraphHalo', G.o, p, typ)
    L = data(E, G)
    m = max(0, min(L['gst'], gst))
    if kind == 'byte':
        out = [[mem[32 + i]] for i in range(m)]
        gd = int(all(x == 0xEE for x in mem[0:32]) and all(x == 0xEE for x in mem[32 + m:]))
    else:
        x = buf.list()
        out = [x[i * k:i * k + k] for i in range(m)]
        gd = buf.guard() & int(all(y == -77777 for y in x[m * k:]))
    E.rec.ev('DHalo', h=G.h, kind=kind, asy=int(asy), loc={'ret': r, 'guard': gd, 'in': mine, 'out': out})


def stat(E, G):
    i = {k: c_int(-9) for k in ('velomin', 'velomax', 'velosum', 'degrmin', 'degrmax', 'edlomin', 'edlomax', 'edlosum')}
    d = {k: c_double(-9) for k in ('veloavg', 'velodlt', 'degravg', 'degrdlt', 'edloavg', 'edlodlt')}
    a = []
    for k in ('velomin', 'velomax', 'velosum', 'veloavg', 'velodlt', 'degrmin', 'degrmax', 'degravg', 'degrdlt',
              'edlomin', 'edlomax', 'edlosum', 'edloavg', 'edlodlt'):
        a.append(byref(i[k] if k in i else d[k]))
    r = pt(E, 'dgraphStat', G.o, *a)
    f = {k: v.value for k, v in i.items()}
    f.update({k: sc1000(v.value) for k, v in d.items()})
    f['ret'] = r
    E.rec.ev('DStat', h=G.h, loc=f)


def grid(E, h, b, nx, ny, nz, incr, torus, diag, vl, el):
    G = DG(E, h)
    r = pt(E, 'dgraphBuildGrid3D', G.o, b, nx, ny, nz, incr, diag + 2 * torus + 4 * vl + 8 * el)
    L = data(E, G) if r == 0 else {}
    L['ret'] = r
    E.rec.ev('DGrid', h=h, b=b, nx=nx, ny=ny, nz=nz, incr=incr, torus=torus, diag=diag, vl=vl, el=el, loc=L)
    if r != 0:
        return None
    made(E, G, L)
    return G


def made(E, G, L):
    """Completes the description of a graph object created by the library."""
    G.n, G.b = L['n'], L['b']
    D = E.D
    a = (c_int * E.np)()
    x = c_int(L['n'])
    D.m.MPI_Allgather(byref(x), 1, D.INT, a, 1, D.INT, D.world)
    G.cnt = list(a)


def free(E, G):
    pt(E, 'dgraphExit', G.o, res=None)


def gather(E, G, root=None):
    """root: rank, or None for all."""
    mine = root is None or root == E.me
    g = E.sc.graph_new() if mine else None
    r = pt(E, 'dgraphGather', G.o, g if mine else None)
    raw = E.sc.graph_data(g) if mine and r == 0 else {}
    chk = pt(E, 'graphCheck', g) if mine and r == 0 else 0
    E.rec.ev('DGather', h=G.h, loc=dict(ret=r, same=G.same(), root=int(mine), raw=raw, chk=chk))
    if mine and r == 0:
        E.sc.graph_exit(g)


def scatter(E, c, g, root, lay=None):
    raw = g.raw(E.rng, lay or E.rng.choice(('compact', 'compact', 'gaps')))
    mine = root == E.me
    cg = E.sc.graph_build(raw) if mine else None
    G = DG(E, c, E.rng.random() < 0.3)
    r = pt(E, 'dgraphScatter', G.o, cg if mine else None)
    L = data(E, G) if r == 0 else {}
    L.update(ret=r, same=cg.same() if mine else 1)
    E.rec.ev('DScatter', c=c, raw=raw, loc=L)
    if mine:
        E.sc.graph_exit(cg)
    if r != 0:
        return None
    made(E, G, L)
    return G


def induce(E, G, c, parts, val, auto):
    """parts: per process lists."""
    pb = Buf(parts[E.me])
    I = DG(E, c, E.rng.random() < 0.3)
    r = pt(E, 'dgraphInducePart', G.o, pb, val, -1 if auto else sum(1 for x in parts[E.me] if x == val), I.o)
    L = data(E, I) if r == 0 else {}
    L.update(ret=r, same=G.same() & pb.same(), part=parts[E.me])
    E.rec.ev('DInduce', h=G.h, c=c, val=val, loc=L)
    if r != 0:
        return None
    made(E, I, L)
    return I


def redist(E, G, c, parts, keys, vdlt, edlt):
    """keys: None, or per process lists of ranks inside the parts (the permutation array is derived from them)."""
    pb = Buf(parts[E.me])
    R = DG(E, c, E.rng.random() < 0.3)
    kb = None
    if keys is not None:
        fp = [x for l in parts for x in l]
        fk = [x for l in keys for x in l]
        start = [G.b]
        for q in range(E.np):
            start.append(start[-1] + sum(1 for x in fp if x == q) + max(0, vdlt))
        perm = [0] * len(fp)
        for q in range(E.np):
            for i, v in enumerate(sorted((v for v in range(len(fp)) if fp[v] == q), key=lambda v: fk[v])):
                perm[v] = start[q] + i
        o = sum(G.cnt[:E.me])
        pt(E, 'dgraphGhst', G.o)
        L = data(E, G)
        kb = Buf(perm[o:o + G.n], max(L['gst'], 0))
        pt(E, 'dgraphHalo', G.o, kb, E.D.INT)
        kb.save()
    r = pt(E, 'dgraphRedist', G.o, pb, P(kb), vdlt, edlt, R.o)
    L = data(E, R) if r == 0 else {}
    L.update(ret=r, same=G.same() & pb.same() & (kb.same() if kb else 1), part=parts[E.me], key=keys[E.me] if keys else [])
    E.rec.ev('DRedist', h=G.h, c=c, perm=int(keys is not None), vdlt=max(0, vdlt), loc=L)
    if r != 0:
        return None
    made(E, R, L)
    return R


def save(E, G):
    """Returns the list of the texts of all fragments."""
    path = os.path.join(E.tmp, 'dg%d_%d' % (E.np, E.D.tag()))
    f = E.sc.fopen('%s.%d' % (path, E.me), 'w')
    r = pt(E, 'dgraphSave', G.o, f)
    E.sc.fclose(f)
    E.D.barrier()
    txt = [open('%s.%d' % (path, p), errors='replace').read() for p in range(E.np)]
    E.D.barrier()
    os.unlink('%s.%d' % (path, E.me))
    t = tokens(txt[E.me])
    E.rec.ev('DSave', h=G.h, loc=dict(ret=r, same=G.same(), num=0 if t is None else 1, tok=t or []))
    return txt if r == 0 else None


def load(E, c, txt, b, fl, root=None, cent=False):
    """txt: list of fragments (one per process) or the text of a centralized file."""
    path = os.path.join(E.tmp, 'dl%d_%d.%d' % (E.np, E.D.tag(), E.me))
    mine = root is None or root == E.me
    f = None
    if mine:
        with open(path, 'w') as w:
            w.write(txt if cent else txt[E.me])
        f = E.sc.fopen(path, 'r')
    G = DG(E, c)
    r = pt(E, 'dgraphLoad', G.o, f, b, fl)
    if mine:
        E.sc.fclose(f)
        os.unlink(path)
    a, mx = c_int(r), c_int()
    E.D.m.MPI_Allreduce(byref(a), byref(mx), 1, E.D.INT, E.D.sym('ompi_mpi_op_max'), E.D.world)
    L = data(E, G) if r == 0 and mx.value == 0 else {}
    L['ret'] = r
    if cent:
        E.rec.ev('DLoadCent', c=c, tok=tokens(txt) or [], b=b, fl=fl, loc=L)
    else:
        L['tok'] = tokens(txt[E.me]) or []
        E.rec.ev('DLoadFrag', c=c, b=b, fl=fl, loc=L)
    if mx.value != 0:
        return None
    made(E, G, L)
    return G


def grow(E, G, seeds, part, dist):
    """seeds, part: per process lists (local based indices, colors)."""
    L = data(E, G)
    sb = Buf(seeds[E.me], G.n)
    pb = Buf(part[E.me], max(L['gst'], G.n))
    r = pt(E, 'dgraphGrow', G.o, len(seeds[E.me]), sb, dist, pb)
    E.rec.ev('DGrow', h=G.h, dist=dist, loc=dict(ret=r, same=G.same(), guard=sb.guard() & pb.guard(), seed=seeds[E.me], part=part[E.me],
                                                out=pb.list()))


def band(E, G, c, seeds, dist):
    sb = Buf(seeds[E.me], G.n)
    I = DG(E, c, E.rng.random() < 0.3)
    r = pt(E, 'dgraphBand', G.o, len(seeds[E.me]), sb, dist, I.o)
    L = data(E, I) if r == 0 else {}
    L.update(ret=r, same=G.same(), guard=sb.guard(), seed=seeds[E.me])
    E.rec.ev('DBand', h=G.h, c=c, dist=dist, loc=L)
    if r != 0:
        return None
    made(E, I, L)
    return I


def coarsen(E, G, c, mn, permil, fold, nomerge, nomult=False, via=None):
    """via: an object bound to an execution context."""
    fl = (0x4000 if nomerge else 0) | (0, 0x100, 0x300)[fold]
    mx = pt(E, 'dgraphCoarsenVertLocMax', via or G.o, fl)
    mb = None if nomult else Buf([], 2 * mx)
    C = DG(E, c, E.rng.random() < 0.3)
    r = pt(E, 'dgraphCoarsen', via or G.o, mn, c_double(permil / 1000.0), fl, C.o, P(mb))
    L = dict(n=0, nglb=0)
    if r == 0:
        z = [c_int(-9) for _ in range(4)]
        pt(E, 'dgraphSize', C.o, *[byref(x) for x in z], res=None)
        if fold == 0 or z[0].value != 0 or z[1].value != 0:  # the graph is not defined on unused processes
            L = data(E, C)
    chk = 0
    if r == 0 and (fold == 0 or L['nglb'] > 0):
        chk = pt(E, 'dgraphCheck', C.o)
    L.update(ret=r, same=G.same(), guard=mb.guard() if mb else 1, max=mx, chk=chk, mult=mb.list(2 * L['n']) if mb and r == 0 and L['n'] <= mx else [])
    E.rec.ev('DCoarsenN' if nomult else 'DCoarsen', h=G.h, c=c, min=mn, permil=permil, fold=fold, nomerge=int(nomerge), loc=L)
    if r != 0:
        free(E, C)
        return None
    if fold == 0:
        made(E, C, L)
    return C


def bind(E, G, nthr, det, seed):
    E.rec.call('contextThreadSpawn')
    ctx = E.sc.context(nthr, det, seed)
    o = E.sc.obj('dgraph', lib=E.sc.pt)
    E.sc.call('SCOTCH_dgraphInit', o, E.D.world, lib=E.sc.pt)
    if pt(E, 'contextBindDgraph', ctx, G.o, o) != 0:
        raise ValueError('contextBindDgraph failed')
    return o


def unbind(E, o):
    pt(E, 'dgraphExit', o, res=None)


# ---------------------------------------------------------------------------
# Mappings
def dstrat(E, kind, text):
    s = E.sc.strat()
    if pt(E, 'strat' + kind, s, text.encode()) != 0:
        raise ValueError('strategy refused: %s %s' % (kind, text))
    return s


def pick_map(E, k):
    """(strategy object, description, maximum imbalance or None)"""
    import strats
    rng = E.rng
    r = rng.random()
    if r < .2:
        return E.sc.strat(), 'default', .05
    if r < .5:
        fl = rng.choice((0, 1, 2, 4, 8, 16, 1 | 4, 2 | 4, 8 | 4, 16 | 8))
        bal = rng.choice((.01, .05, .2, .5))
        s = E.sc.strat()
        assert pt(E, 'stratDgraphMapBuild', s, fl, E.np, k, c_double(bal)) == 0
        return s, 'build %x %s' % (fl, bal), bal
    t = strats.dkmap(rng)
    return dstrat(E, 'DgraphMap', t), t, None


STATS = ('tgt', 'nbr', 'lmin', 'lmax', 'lavg', 'ldlt', 'nsum', 'nmin', 'nmax', 'dmax', 'hist', 'total', 'dil', 'exp')
SKIP = -77777


def mapping(E, G, a, style, via=None, more=True):
    """Maps G onto architecture a (a record, or None for clustering)."""
    import archs
    rng, S = E.rng, E.sc
    k = archs.asize(a) if a else 0
    unit = G.S['locs'][0]['hv'] == 0
    if a:
        st, desc, bal = pick_map(E, k)
        pw = -1
    else:
        pw = rng.choice((1, 2, 5, 10, 30))
        fl = rng.choice((0, 1, 2, 4, 8, 16))
        st, desc, bal = S.strat(), 'cluster %x %d' % (fl, pw), None
        assert pt(E, 'stratDgraphClusterBuild', st, fl, E.np, pw, c_double(1.0), c_double(.05)) == 0
        if not unit:
            pw = -1
    part = Buf([-3] * G.n, G.n)
    o = via or G.o
    c = m = None
    E.rec.call('dgraphMap %s %s %s' % (style, desc, a))
    if style == 'part':
        r = pt(E, 'dgraphPart', o, k, st, part)
    else:
        if a:
            c, r = archs.make(E, a)
        else:
            c = archs.new(E)
            r = S.call('SCOTCH_archVcmplt', c.obj)
        assert r == 0
        if style == 'map':
            r = pt(E, 'dgraphMap', o, c.obj, st, part)
        else:
            m = S.obj('dmap', lib=S.pt)
            r = pt(E, 'dgraphMapInit', o, m, c.obj, part)
            if r == 0:
                r = pt(E, 'dgraphMapCompute', o, m, st)
    p = part.list(G.n)
    E.rec.ev('DMap', h=G.h, a=a or {'k': 'var'}, bal=int(bal * 1000) if bal is not None else -1, pwgt=pw, st=desc,
             loc=dict(ret=r, part=p, same=G.same(), guard=int(part.guard())))
    if m is not None:
        if r == 0 and more:
            for w in rng.sample(('save', 'view', 'stat'), rng.randint(1, 3)):
                if w == 'save':
                    map_save(E, G, m, p, o)
                elif a:
                    (map_view if w == 'view' else map_stat)(E, G, m, a, p, o)
        pt(E, 'dgraphMapExit', o, m, res=None)
    if c is not None:
        S.call('SCOTCH_archExit', c.obj, res=None)
    S.strat_free(st)
    return p if r == 0 else None


def root_file(E, G, call):
    """Text written by a routine that writes on one process."""
    root = E.rng.randrange(E.np)
    r, txt = root_write(E, root, call)
    return root, r, txt


def root_write(E, root, call):
    path = os.path.join(E.tmp, 'dm%d_%d' % (E.np, E.D.tag()))
    f = E.sc.fopen(path, 'w') if E.me == root else None
    r = call(f)
    txt = ''
    if E.me == root:
        E.sc.fclose(f)
        txt = open(path, errors='replace').read()
        os.unlink(path)
    return r, txt


def map_save(E, G, m, p, o):
    root, r, txt = root_file(E, G, lambda f: pt(E, 'dgraphMapSave', o, m, f))
    t = tokens(txt) if E.me == root else []
    E.rec.ev('DMapSave', h=G.h, root=root + 1, loc=dict(ret=r, part=p, same=G.same(), num=0 if t is None else 1, tok=t or []))


def map_view(E, G, m, a, p, o):
    import p_view
    root, r, txt = root_file(E, G, lambda f: pt(E, 'dgraphMapView', o, m, f))
    v = p_view.parse_view(txt.replace('Cmlosum[', 'CommLoad['), False) if E.me == root else {}
    E.rec.ev('DMapView', h=G.h, a=a, root=root + 1, loc=dict(ret=r, part=p, same=G.same(), v=v))


def map_stat(E, G, m, a, p, o):
    rng = E.rng
    seed = rng.randrange(1 << 20)
    import random
    R = random.Random(seed * 64 + (E.me if rng.random() < .5 else 0))     # every process may ask for other values
    q = R.choice((0, .3, 1))
    ask = [k for k in STATS if R.random() >= q] if q < 1 else []
    V = {k: (c_double(SKIP) if k in ('lavg', 'ldlt') else c_int(SKIP)) for k in STATS if k != 'hist'}
    h = Buf([SKIP] * 256, 256)
    r = pt(E, 'dgraphMapStat', o, m, *[(None if k not in ask else h if k == 'hist' else byref(V[k])) for k in STATS])
    v = {k: (SKIP if k not in ask else V[k].value if isinstance(V[k], c_int) else sc1000(V[k].value)) for k in V}
    hl = h.list(256) if 'hist' in ask else []
    while hl and hl[-1] == 0:
        hl.pop()
    v.update(hist=hl, ask=int('hist' in ask), guard=int(h.guard()))
    E.rec.ev('DMapStat', h=G.h, a=a, loc=dict(ret=r, part=p, same=G.same(), v=v))


# ---------------------------------------------------------------------------
# Orderings
def pick_ord(E):
    """(strategy object, description, trust in the separator tree)"""
    import strats, p_order as po
    rng = E.rng
    r = rng.random()
    if r < .1:
        return E.sc.strat(), 'default', 0
    if r < .35:
        fl = rng.choice((0, 1, 2, 4, 8, 16)) | rng.choice((0, 0, po.LEVELMAX, po.LEVELMIN, po.LEVELMAX | po.LEVELMIN)) | rng.choice((0, 0, po.LEAFSIMPLE)) | rng.choice((0, 0, po.SEPASIMPLE))
        lv, bal = rng.randint(0, 5), rng.choice((.01, .1, .2, .5))
        s = E.sc.strat()
        assert pt(E, 'stratDgraphOrderBuild', s, fl, E.np, lv, c_double(bal)) == 0
        return s, 'build %x %d %s' % (fl, lv, bal), 0
    t, m = strats.dord(rng, po.sep_mode)
    return dstrat(E, 'DgraphOrder', t), t, m


def ord_perm(E, G, o, c, m, st, new, ret, via):
    pb = Buf([-9] * G.n, G.n)
    if ret == 0:
        ret = pt(E, 'dgraphOrderPerm', via, o, pb)
    E.rec.ev('DOrder', h=G.h, c=c, st=st, sep=m, new=new, loc=dict(ret=ret, perm=pb.list(G.n), same=G.same(), guard=int(pb.guard())))
    return ret


def ordering(E, G, c, via=None):
    import p_order as po
    rng, S = E.rng, E.sc
    g = via or G.o
    o = S.obj('dorder', lib=S.pt)
    E.rec.call('dgraphOrderInit')
    r = pt(E, 'dgraphOrderInit', g, o)
    if r == 0 and rng.random() < .1:
        r = ord_perm(E, G, o, c, 0, 'none', 1, r, g)
    for _ in range(rng.choice((1, 1, 1, 2))):
        s, desc, m = pick_ord(E)
        E.rec.call('dgraphOrderCompute %s' % desc)
        if r == 0:
            r = pt(E, 'dgraphOrderCompute', g, o, s)
        r = ord_perm(E, G, o, c, m, desc, 0, r, g)
        S.strat_free(s)
        if r != 0:
            break
        for w in rng.sample(('gather', 'files', 'tree'), rng.randint(1, 3)):
            if w == 'tree':
                nb = pt(E, 'dgraphOrderCblkDist', g, o)
                tb, sb = Buf([-9] * max(nb, 0), max(nb, 1)), Buf([-9] * max(nb, 0), max(nb, 1))
                x = pt(E, 'dgraphOrderTreeDist', g, o, tb, sb)
                E.rec.ev('DOrderTree', c=c, loc=dict(ret=x, nbr=nb, tree=tb.list(max(nb, 0)), size=sb.list(max(nb, 0)), guard=int(tb.guard() & sb.guard())))
                continue
            root = rng.randrange(E.np)
            me = E.me == root
            n = pt_size(E, G)
            B = po.OrdBufs(rng, n, w == 'files')
            co = S.obj('order') if me else None
            x = pt(E, 'dgraphCorderInit', g, co, *B.args()) if me else 0
            x = pt(E, 'dgraphOrderGather', g, o, co) or x
            rr, has = B.result() if me else ({}, '')
            if me:
                pt(E, 'dgraphCorderExit', g, co, res=None)
            E.rec.ev('DOrderGather', c=c, root=root + 1, loc=dict(ret=x, r=rr, hasperm=int('p' in has or 'i' in has), hasblk=int('b' in has), guard=B.guard()))
            if w == 'files':
                out, y = {}, 0
                for k, fn in (('tok', 'Save'), ('tokmap', 'SaveMap'), ('toktree', 'SaveTree')):
                    y1, txt = root_write(E, root, lambda f: pt(E, 'dgraphOrder' + fn, g, o, f))
                    y = y or y1
                    t = tokens(txt) if me else []
                    out[k] = t if t is not None else [-77]
                E.rec.ev('DOrderFiles', c=c, root=root + 1, loc=dict(ret=y, r=rr, **out))
    pt(E, 'dgraphOrderExit', g, o, res=None)
    return r


def pt_size(E, G):
    z = [c_int(-9) for _ in range(4)]
    pt(E, 'dgraphSize', G.o, *[byref(x) for x in z], res=None)
    return z[0].value
