"""Recorded mapping, partitioning, remapping and overlap partitioning calls."""
import archs
import strats
from sc import Buf, P, Obj

QUALITY, SPEED, BALANCE, SAFETY, SCAL, RECU, REMAP = 1, 2, 4, 8, 16, 0x100, 0x200


def pick_strat(E, k=2, p_rand=.5):
    """(strategy object, description, maximum imbalance or None)"""
    rng = E.rng
    r = rng.random()
    if r < .2:
        return E.sc.strat(), 'default', .01
    if r < 1 - p_rand:
        fl = rng.choice((0, QUALITY, SPEED, BALANCE, SAFETY, RECU, QUALITY | BALANCE, RECU | BALANCE, REMAP | BALANCE, SAFETY | RECU))
        bal = rng.choice((.01, .05, .2, .5))
        s = E.sc.strat()
        E.rec.call('stratGraphMapBuild')
        ret = E.sc.call('SCOTCH_stratGraphMapBuild', s, fl, k, bal)
        assert ret == 0
        return s, 'build %x %s' % (fl, bal), bal
    t = strats.kmap(rng)
    return E.sc.strat('GraphMap', t), t, None


def arch_of(E, a, h='a'):
    return archs.ev_make(E, h, a)


def terms(a):
    """Values that a mapping onto a may take (of generated architectures)."""
    if a['k'] == 'deco':
        return list(a['lb'])
    return list(range(archs.asize(a)))


def run(E, cg, a, strat, desc, bal=None, fix=None, old=None, emra=1.0, vml=None, style='map', via=None, ah='a', ca=None):
    """style: part (graphPart & al.), map (graphMap & al.) or comp (graphMapInit + Compute).
    fix: list of terminals or -1; old: list of terminals or -1."""
    S, n = E.sc, cg.g.n
    g = via or cg
    part = Buf(fix if fix is not None else [-3] * n, max(n, 1))
    ob = Buf(old, max(n, 1)) if old is not None else None
    vb = Buf(vml, max(n, 1)) if vml is not None else None
    E.rec.call('%s %s fix=%d old=%d %s' % (style, desc, fix is not None, old is not None, a))
    if style == 'part':
        k = archs.asize(a)
        if old is not None:
            r = S.call('SCOTCH_graphRepartFixed' if fix is not None else 'SCOTCH_graphRepart', g, k, ob, emra, P(vb), strat, part)
        else:
            r = S.call('SCOTCH_graphPartFixed' if fix is not None else 'SCOTCH_graphPart', g, k, strat, part)
    elif style == 'map':
        if old is not None:
            r = S.call('SCOTCH_graphRemapFixed' if fix is not None else 'SCOTCH_graphRemap', g, ca.obj, ob, emra, P(vb), strat, part)
        else:
            r = S.call('SCOTCH_graphMapFixed' if fix is not None else 'SCOTCH_graphMap', g, ca.obj, strat, part)
    else:
        m = S.obj('map')
        r = S.call('SCOTCH_graphMapInit', g, m, ca.obj, part)
        if r == 0 and old is not None:
            m2 = S.obj('map')
            r = S.call('SCOTCH_graphMapInit', g, m2, ca.obj, ob)
            if r == 0:
                r = S.call('SCOTCH_graphRemapFixedCompute' if fix is not None else 'SCOTCH_graphRemapCompute', g, m, m2, emra, P(vb), strat)
            S.call('SCOTCH_graphMapExit', g, m2)
        elif r == 0:
            r = S.call('SCOTCH_graphMapFixedCompute' if fix is not None else 'SCOTCH_graphMapCompute', g, m, strat)
        S.call('SCOTCH_graphMapExit', g, m)
    same = cg.same() and (vb is None or vb.same()) and (ob is None or ob.same())
    gd = part.guard() and (ob is None or ob.guard())
    E.rec.ev('Map', h=cg.h, a=ah, fix=fix if fix is not None else [], old=old if old is not None else [],
             ret=r, part=part.list(n), same=1 if same else 0, guard=1 if gd else 0,
             bal=int(bal * 1000) if bal is not None else -1, st=desc)
    return part.list(n) if r == 0 else None


def cluster(E, cg, flags):
    """Clustering: mapping onto a variable-sized complete graph."""
    S, n, rng = E.sc, cg.g.n, E.rng
    a, s = S.obj('arch'), S.strat()
    assert S.call('SCOTCH_archVcmplt', a) == 0
    pw = rng.choice((1, 2, 5, 10, 30))
    E.rec.call('cluster %x %d' % (flags, pw))
    assert S.call('SCOTCH_stratGraphClusterBuild', s, flags, pw, 1.0, .05) == 0
    part = Buf([-3] * n, max(n, 1))
    r = S.call('SCOTCH_graphMap', cg, a, s, part)
    unit = cg.g.vw is None
    E.rec.ev('Cluster', h=cg.h, ret=r, part=part.list(n), same=1 if cg.same() else 0, guard=1 if part.guard() else 0, pwgt=pw if unit else -1, fl=flags)
    S.call('SCOTCH_archExit', a)


def overlap(E, cg, via=None):
    S, n, rng = E.sc, cg.g.n, E.rng
    k = rng.randint(1, 9)
    r = rng.random()
    if r < .15:
        s, d = S.strat(), 'default'
    elif r < .5:
        fl = rng.choice((0, QUALITY, SPEED, BALANCE, SAFETY, RECU))
        s, d = S.strat(), 'build %x' % fl
        assert S.call('SCOTCH_stratGraphPartOvlBuild', s, fl, k, rng.choice((.01, .05, .2))) == 0
    else:
        d = strats.ovl(rng)
        s = S.strat('GraphPartOvl', d)
    part = Buf([-3] * n, max(n, 1))
    E.rec.call('graphPartOvl %d %s' % (k, d))
    ret = S.call('SCOTCH_graphPartOvl', via or cg, k, s, part)
    E.rec.ev('Ovl', h=cg.h, k=k, ret=ret, part=part.list(n), same=1 if cg.same() else 0, guard=1 if part.guard() else 0, st=d)
