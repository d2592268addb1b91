"""ctypes binding of the built libraries + projection of concrete objects to
the raw records that the specification reads."""
import ctypes, os
from ctypes import c_int, c_double, c_void_p, c_char_p, POINTER, byref, addressof, sizeof

G = 16                                   # guard words on both sides of every user array
CAN = 0x5AC0FFEE


class Buf:
    """An int array with canaries on both sides."""
    def __init__(self, data, n=None):
        if n is None:
            n = len(data)
        else:
            data = list(data) + [-77777] * (n - len(data))
        self.n = n
        self.a = (c_int * (n + 2 * G))()
        self.a[0:G] = [CAN] * G
        self.a[G + n:] = [CAN] * G
        if n:
            self.a[G:G + n] = list(data)
        self.p = addressof(self.a) + 4 * G
        self.saved = bytes(self.a)

    def list(self, n=None):
        return list(self.a[G:G + (self.n if n is None else n)])

    def guard(self):
        return 1 if (list(self.a[0:G]) == [CAN] * G and list(self.a[G + self.n:]) == [CAN] * G) else 0

    def same(self):
        return 1 if bytes(self.a) == self.saved else 0

    def save(self):
        self.saved = bytes(self.a)


def P(b):
    return c_void_p(b.p) if b is not None else None


class Gr:
    """A user-level graph: 0-based neighbour lists, optional weights and labels."""
    __slots__ = ('b', 'n', 'nb', 'ew', 'vw', 'lb', 'name')

    def __init__(self, n, nb, ew=None, vw=None, lb=None, b=0, name=''):
        self.n, self.nb, self.ew, self.vw, self.lb, self.b, self.name = n, nb, ew, vw, lb, b, name

    def arcs(self):
        return sum(len(x) for x in self.nb)

    def raw(self, rng=None, layout='compact'):
        b, n = self.b, self.n
        r = dict(b=b, n=n, e=self.arcs(), ve=[], vw=list(self.vw) if self.vw is not None else [],
                 lb=list(self.lb) if self.lb is not None else [])
        et, ew = [], []
        if layout == 'compact' or n == 0:
            vt = [b]
            for v in range(n):
                et += [u + b for u in self.nb[v]]
                if self.ew is not None:
                    ew += self.ew[v]
                vt.append(b + len(et))
            r['vt'] = vt
        else:
            vt, ve = [0] * n, [0] * n
            order = list(range(n))
            rng.shuffle(order)
            junk = lambda k: [rng.choice((-5, 0, 99999, b)) for _ in range(k)]
            for v in order:
                j = junk(rng.randrange(0, 3))
                et += j
                ew += [rng.choice((-3, 7)) for _ in j] if self.ew is not None else []
                vt[v] = b + len(et)
                et += [u + b for u in self.nb[v]]
                if self.ew is not None:
                    ew += self.ew[v]
                ve[v] = b + len(et)
            r['vt'], r['ve'] = vt, ve
        r['et'], r['ew'] = et, ew
        return r


class CGraph:
    """A SCOTCH_Graph together with the user arrays it was built from."""
    def __init__(self, sc, ptr, bufs=None):
        self.sc, self.ptr, self.bufs = sc, ptr, bufs or {}

    def same(self):
        return 1 if all(x.same() for x in self.bufs.values() if x is not None) else 0


class Sc:
    def __init__(self, bdir, dist=False, extra=()):
        self.bdir = bdir
        L = os.path.join(bdir, 'lib')
        self.libc = ctypes.CDLL(None)
        ctypes.CDLL(os.path.join(L, 'libscotcherr.so'), mode=ctypes.RTLD_GLOBAL)
        self.lib = ctypes.CDLL(os.path.join(L, 'libscotch.so'), mode=ctypes.RTLD_GLOBAL)
        self.pt = None
        if dist:
            self.mpi = ctypes.CDLL('libmpi.so', mode=ctypes.RTLD_GLOBAL)
            ctypes.CDLL(os.path.join(L, 'libptscotcherr.so'), mode=ctypes.RTLD_GLOBAL)
            self.pt = ctypes.CDLL(os.path.join(L, 'libptscotch.so'), mode=ctypes.RTLD_GLOBAL)
        for x in extra:
            setattr(self, x, ctypes.CDLL(os.path.join(L, 'lib%s.so' % x), mode=ctypes.RTLD_GLOBAL))
        lc = self.libc
        lc.fopen.restype = c_void_p
        lc.fopen.argtypes = [c_char_p, c_char_p]
        lc.fclose.argtypes = [c_void_p]
        lc.malloc.restype = c_void_p
        lc.malloc.argtypes = [ctypes.c_size_t]
        lc.free.argtypes = [c_void_p]
        lc.memset.argtypes = [c_void_p, c_int, ctypes.c_size_t]
        lc.fflush.argtypes = [c_void_p]
        self._seen = {}
        self.keep = []
        self.ctxs = []

    def f(self, name, lib=None):
        l = lib or self.lib
        k = (name, id(l))
        if k not in self._seen:
            fn = getattr(l, name)
            self._seen[k] = fn
        return self._seen[k]

    def call(self, name, *args, res=c_int, lib=None):
        fn = self.f(name, lib)
        fn.restype = res
        a = []
        for x in args:
            if isinstance(x, Buf):
                a.append(c_void_p(x.p))
            elif isinstance(x, CGraph):
                a.append(c_void_p(x.ptr))
            elif isinstance(x, Obj):
                a.append(c_void_p(x.p))
            elif isinstance(x, int):
                a.append(c_int(x))
            elif isinstance(x, float):
                a.append(c_double(x))
            elif isinstance(x, bytes):
                a.append(c_char_p(x))
            else:
                a.append(x)
        return fn(*a)

    def obj(self, kind, lib=None):
        """Allocates an opaque object through the library's own size function."""
        sz = self.call('SCOTCH_%sSizeof' % kind, lib=lib)
        return Obj(self, sz)

    def fopen(self, path, mode):
        p = self.libc.fopen(path.encode(), mode.encode())
        if not p:
            raise OSError('fopen ' + path)
        return c_void_p(p)

    def fclose(self, f):
        self.libc.fclose(f)

    # -- graphs ------------------------------------------------------------
    def graph_new(self):
        o = self.obj('graph')
        self.call('SCOTCH_graphInit', o)
        g = CGraph(self, o.p)
        g.obj = o
        return g

    def graph_build(self, raw):
        g = self.graph_new()
        B = {k: Buf(raw[k]) if raw[k] else None for k in ('vt', 've', 'vw', 'lb', 'et', 'ew')}
        if B['vt'] is None:
            B['vt'] = Buf([raw['b']])
        if B['et'] is None:
            B['et'] = Buf([0])
        g.bufs = B
        g.raw = raw
        g.ret = self.call('SCOTCH_graphBuild', g, raw['b'], raw['n'], B['vt'], P(B['ve']), P(B['vw']), P(B['lb']),
                          raw['e'], B['et'], P(B['ew']))
        return g

    def graph_data(self, g):
        """Projection of a graph object: the arrays SCOTCH_graphData returns."""
        b, n, e = c_int(), c_int(), c_int()
        ps = [c_void_p() for _ in range(6)]
        vt, ve, vw, lb, et, ew = ps
        self.call('SCOTCH_graphData', g, byref(b), byref(n), byref(vt), byref(ve), byref(vw), byref(lb),
                  byref(e), byref(et), byref(ew))
        b, n, e = b.value, n.value, e.value

        def rd(p, k):
            return list((c_int * k).from_address(p.value)) if (p.value and k > 0) else []
        r = dict(b=b, n=n, e=e)
        if n < 0 or n > 10000000:
            r.update(vt=[], ve=[], vw=[], lb=[], et=[], ew=[])
            return r
        if (not ve.value) or ve.value == (vt.value or 0) + 4:
            r['vt'], r['ve'] = (rd(vt, n + 1), []) if vt.value else ([b] * (n + 1), [])
            mx = max(r['vt'])
        else:
            r['vt'], r['ve'] = rd(vt, n), rd(ve, n)
            mx = max(r['ve']) if n else b
        k = mx - b
        if k < 0 or k > 4 * max(e, 0) + 100000:
            k = max(e, 0)
        r['vw'], r['lb'] = rd(vw, n), rd(lb, n)
        r['et'], r['ew'] = rd(et, k), rd(ew, k)
        return r

    def graph_exit(self, g):
        self.call('SCOTCH_graphExit', g)

    # -- strategies, contexts -------------------------------------------------
    def strat(self, kind=None, s=None, lib=None):
        o = self.obj('strat')
        self.call('SCOTCH_stratInit', o)
        if kind:
            r = self.call('SCOTCH_strat' + kind, o, s.encode() if isinstance(s, str) else s)
            if r != 0:
                raise ValueError('strategy refused: %s %s' % (kind, s))
        return o

    def strat_free(self, o):
        self.call('SCOTCH_stratExit', o)

    def seed(self, k):
        self.call('SCOTCH_randomSeed', k)
        self.call('SCOTCH_randomReset')

    def context(self, nthr=None, det=None, seed=None):
        o = self.obj('context')
        self.call('SCOTCH_contextInit', o)
        if det is not None:
            self.call('SCOTCH_contextOptionSetNum', o, 0, det)
        if seed is not None:
            self.call('SCOTCH_contextRandomClone', o)
            self.call('SCOTCH_contextRandomSeed', o, seed)
            self.call('SCOTCH_contextRandomReset', o)
        if nthr is not None:
            r = self.call('SCOTCH_contextThreadSpawn', o, nthr, None)
            if r != 0:
                raise ValueError('contextThreadSpawn failed')
        self.ctxs.append(o)
        return o

    def cleanup(self):
        for o in self.ctxs:
            self.call('SCOTCH_contextExit', o)
        self.ctxs = []

    def bind(self, ctx, g):
        o = self.graph_new_raw()
        if self.call('SCOTCH_contextBindGraph', ctx, g, o) != 0:
            raise ValueError('contextBindGraph failed')
        o.ctx, o.org = ctx, g
        return o

    def graph_new_raw(self):
        o = self.obj('graph')
        self.call('SCOTCH_graphInit', o)
        g = CGraph(self, o.p)
        g.obj = o
        return g


class Obj:
    def __init__(self, sc, sz):
        self.mem = (ctypes.c_double * ((sz + 15) // 8 + 8))()
        self.p = addressof(self.mem)
        ctypes.memset(self.p, 0xA5, sizeof(self.mem))


class Mpi:
    """The few MPI calls the distributed driver makes (Open MPI handles)."""
    def __init__(self, s):
        self.s, self.m = s, s.mpi
        got = c_int()
        self.m.MPI_Init_thread(None, None, 3, byref(got))
        self.world = self.sym('ompi_mpi_comm_world')
        self.INT = self.sym('ompi_mpi_int')
        self.BYTE = self.sym('ompi_mpi_byte')
        self.DOUBLE = self.sym('ompi_mpi_double')
        a = c_int()
        self.m.MPI_Comm_size(self.world, byref(a)); self.np = a.value
        self.m.MPI_Comm_rank(self.world, byref(a)); self.me = a.value
        self.types = {}
        self._dup = None
        self._tag = 0

    def tag(self):
        """Number unique to this group of processes (same on all of them)."""
        self._tag += 1
        a = c_int(os.getpid() * 0 + os.getppid())
        return a.value * 1000 + self._tag

    def dup(self):
        if self._dup is None:
            self._dup = c_void_p()
            self.m.MPI_Comm_dup(self.world, byref(self._dup))
        return self._dup

    def sym(self, name):
        return c_void_p(addressof(c_int.in_dll(self.m, name)))

    def barrier(self):
        self.m.MPI_Barrier(self.world)

    def final(self):
        self.m.MPI_Finalize()

    def vector(self, k):
        """A contiguous datatype of k integers."""
        if k not in self.types:
            t = c_void_p()
            self.m.MPI_Type_contiguous(k, self.INT, byref(t))
            self.m.MPI_Type_commit(byref(t))
            self.types[k] = t
        return self.types[k]
