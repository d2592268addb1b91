"""Generators of input graphs, meshes, architectures (deterministic from the rng)."""
from sc import Gr


def from_edges(n, edges, name=''):
    nb = [[] for _ in range(n)]
    seen = set()
    for u, v in edges:
        if u == v or (u, v) in seen or (v, u) in seen:
            continue
        seen.add((u, v))
        nb[u].append(v)
        nb[v].append(u)
    return Gr(n, nb, name=name)


def path(n): return from_edges(n, [(i, i + 1) for i in range(n - 1)], 'path')
def cycle(n): return from_edges(n, [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)] if n == 2 else [], 'cycle')
def star(n): return from_edges(n, [(0, i) for i in range(1, n)], 'star')
def complete(n): return from_edges(n, [(i, j) for i in range(n) for j in range(i)], 'complete')
def empty(n): return from_edges(n, [], 'empty')


def grid(a, b, torus=False):
    e = []
    for i in range(a):
        for j in range(b):
            if i + 1 < a: e.append((i * b + j, (i + 1) * b + j))
            elif torus and a > 2: e.append((i * b + j, j))
            if j + 1 < b: e.append((i * b + j, i * b + j + 1))
            elif torus and b > 2: e.append((i * b + j, i * b))
    return from_edges(a * b, e, 'torus' if torus else 'grid')


def grid3(a, b, c):
    f = lambda i, j, k: (i * b + j) * c + k
    e = []
    for i in range(a):
        for j in range(b):
            for k in range(c):
                if i + 1 < a: e.append((f(i, j, k), f(i + 1, j, k)))
                if j + 1 < b: e.append((f(i, j, k), f(i, j + 1, k)))
                if k + 1 < c: e.append((f(i, j, k), f(i, j, k + 1)))
    return from_edges(a * b * c, e, 'grid3')


def tree(rng, n): return from_edges(n, [(rng.randrange(i), i) for i in range(1, n)], 'tree')


def rand(rng, n, m):
    if n < 2:
        return empty(n)
    e = set()
    for _ in range(m):
        u, v = rng.randrange(n), rng.randrange(n)
        if u != v:
            e.add((min(u, v), max(u, v)))
    e = list(sorted(e))
    rng.shuffle(e)
    return from_edges(n, e, 'rand')


def bipart(a, b): return from_edges(a + b, [(i, a + j) for i in range(a) for j in range(b)], 'kbip')


def union(gs, name='union'):
    nb = []
    for g in gs:
        o = len(nb)
        nb += [[u + o for u in x] for x in g.nb]
    return Gr(len(nb), nb, name=name)


def hubs(rng, n):
    """A few very high degree vertices on a sparse background."""
    e = [(rng.randrange(max(1, n // 20 + 1)), i) for i in range(1, n)]
    e += [(rng.randrange(n), rng.randrange(n)) for _ in range(n // 2)]
    return from_edges(n, e, 'hubs')


def relabel(rng, g):
    """Same graph with shuffled vertex numbers and adjacency orders."""
    p = list(range(g.n))
    rng.shuffle(p)
    nb = [None] * g.n
    for v in range(g.n):
        x = [p[u] for u in g.nb[v]]
        rng.shuffle(x)
        nb[p[v]] = x
    return Gr(g.n, nb, name=g.name + '~')


def small_or(rng, lo, hi):
    return rng.randrange(lo, hi + 1)


def any_graph(rng, lo=0, hi=40, kinds=None):
    n = small_or(rng, lo, hi)
    k = rng.choice(kinds or ('path', 'cycle', 'star', 'complete', 'grid', 'torus', 'tree', 'rand', 'randd', 'empty',
                             'union', 'iso', 'kbip', 'hubs', 'grid3', 'rand', 'tree', 'grid'))
    if k == 'path': g = path(n)
    elif k == 'cycle': g = cycle(n)
    elif k == 'star': g = star(n)
    elif k == 'complete': g = complete(min(n, 24))
    elif k in ('grid', 'torus'):
        a = max(1, int(n ** 0.5)) if n else 0
        b = max(1, n // max(a, 1)) if n else 0
        g = grid(a, b, k == 'torus')
    elif k == 'grid3':
        a = max(1, round(n ** (1 / 3))) if n else 0
        g = grid3(a, a, max(1, n // (a * a))) if n else empty(0)
    elif k == 'tree': g = tree(rng, n)
    elif k == 'rand': g = rand(rng, n, 2 * n)
    elif k == 'randd': g = rand(rng, n, n * n // 4 if n < 60 else 8 * n)
    elif k == 'empty': g = empty(n)
    elif k == 'kbip': g = bipart(n // 3, n - n // 3) if n < 60 else bipart(3, n - 3)
    elif k == 'hubs': g = hubs(rng, n) if n > 1 else empty(n)
    elif k == 'iso': g = union([rand(rng, n - n // 3, n), empty(n // 3)])
    else:
        m = n // 3
        g = union([any_graph(rng, m, m, ('path', 'grid', 'tree', 'rand', 'star')),
                   any_graph(rng, n - m, n - m, ('cycle', 'rand', 'complete', 'tree') if n < 60 else ('cycle', 'rand', 'tree'))])
    if g.n < lo:
        g = union([g, path(lo - g.n)])
    if rng.random() < 0.5:
        g = relabel(rng, g)
    return g


def weight(rng, g, pv=0.5, pe=0.5, pl=0.4, bases=(0, 0, 1, 1, 2, 5), vmax=9, emax=9, vzero=True):
    """Decorates a graph with random weights, labels and base."""
    if rng.random() < pv:
        lo = 0 if (vzero and rng.random() < 0.4) else 1
        g.vw = [rng.randint(lo, vmax) for _ in range(g.n)]
        if g.n and sum(g.vw) == 0:
            g.vw[rng.randrange(g.n)] = 1
    if rng.random() < pe:
        w = {}
        g.ew = []
        for v in range(g.n):
            x = []
            for u in g.nb[v]:
                k = (min(u, v), max(u, v))
                if k not in w:
                    w[k] = rng.randint(1, emax)
                x.append(w[k])
            g.ew.append(x)
    if rng.random() < pl:
        pool = list(range(3 * g.n + 5))
        rng.shuffle(pool)
        g.lb = pool[:g.n]
        if rng.random() < 0.3:
            g.lb = list(range(g.n)); rng.shuffle(g.lb)
    g.b = rng.choice(bases)
    return g
