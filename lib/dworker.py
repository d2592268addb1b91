"""One MPI process of a distributed run: dworker.py PROP TIER SEED SCRATCH BDIR SLOT GROUPS START [ONLY-SID TIMES]
All processes run the same scenarios in the same order (same random numbers), each
writing its own log; lib/dist.py merges the logs."""
import ctypes, json, os, random, sys, traceback
LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)
import runner
import sc as S
from ops import Env


def main():
    prop, tier, seed, scratch, bdir, slot, groups, start = sys.argv[1:9]
    only = sys.argv[9] if len(sys.argv) > 9 else None
    import registry
    Pr = registry.get(prop)

    class Ctx:
        pass
    ctx = Ctx()
    ctx.prop, ctx.tier, ctx.seed, ctx.scratch, ctx.bdir = prop, tier, int(seed), scratch, bdir
    ctx.thorough = tier == 'thorough'
    me = int(os.environ['OMPI_COMM_WORLD_RANK'])
    fd = os.open(os.path.join(scratch, 's%s.%d.log' % (slot, me)), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.write(fd, ('P %d\n' % os.getpid()).encode())
    rec = runner.Rec(fd)
    if not os.environ.get('VERIF_SHOW'):
        dn = os.open('/dev/null', os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        s = S.Sc(bdir, dist=True, extra=Pr.extra)
        D = S.Mpi(s)
        vm = ctypes.CDLL(None)
        vm.vm_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
        vm.vm_choices.restype = ctypes.c_long
        sl = Pr.dslot(ctx, D.np, int(slot), int(groups)) if only is None else \
            [(only, dict((i, f) for i, n, f in Pr.scenarios(ctx))[only.split('#')[0]])]
        for sid, fn in sl[int(start):]:
            D.barrier()
            os.write(fd, ('B ' + sid + '\n').encode())
            rng = random.Random('%d:%s:%s' % (ctx.seed, prop, sid.split('#')[0]))
            E = Env(s, rng, rec, scratch)
            E.D, E.np, E.me = D, D.np, D.me
            o = random.Random('order:%d:%s:%s' % (ctx.seed, prop, sid.split('#')[0]))
            E.vm = vm
            vm.vm_begin(o.randrange(1 << 40) + me, o.choice((0, 20, 200)), o.choice((0, 30, 300)))
            k = rng.randrange(1, 1 << 20)
            s.seed(k)
            fn(E)
            rec.call('end of scenario')
            s.cleanup()
            D.barrier()
            os.write(fd, b'D\n')
        os.write(fd, b'Z\n')
        D.barrier()
        D.final()
    except BaseException:
        os.write(fd, ('X ' + json.dumps(traceback.format_exc()) + '\n').encode())
        os._exit(99)
    os._exit(0)


if __name__ == '__main__':
    main()
