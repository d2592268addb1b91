"""C14, C15: target architectures."""
import archs
from base import Prop


class C14(Prop):
    def scenarios(self, ctx):
        out = []

        def one(i):
            def f(E):
                nmax = (6, 12, 24, 36)[i % 4] if i % 25 else 60
                a = archs.gen_arch(E.rng, nmax)
                c = archs.ev_make(E, 'a', a)
                if c:
                    archs.ev_info(E, c)
                    archs.ev_tree(E, c)
            return ('arch/%d' % i, f)
        out += [one(i) for i in range(3000 if ctx.thorough else 500)]

        def small(k, a):
            def f(E):
                c = archs.ev_make(E, 'a', a)
                if c:
                    archs.ev_info(E, c)
                    archs.ev_tree(E, c)
            return ('small/%d' % k, f)
        L = [dict(k='cmplt', n=n) for n in range(1, 18)] + [dict(k='hcub', d=d) for d in range(0, 6)]
        for kk in ('mesh', 'torus'):
            for x in (0, 1):
                L += [dict(k=kk, dim=[p, q], x=x) for p in range(1, 7) for q in range(1, 7)]
                L += [dict(k=kk, dim=[p, q, r], x=x) for p in range(1, 4) for q in range(1, 4) for r in range(1, 4)]
        out += [small(k, a) for k, a in enumerate(L)]
        return out


class C15(Prop):
    def scenarios(self, ctx):
        import gen, ops
        out = []

        def rt(i):
            def f(E):
                a = archs.gen_arch(E.rng, (6, 12, 24)[i % 3])
                c = (archs.ev_make if E.rng.random() < .5 else archs.ev_load)(E, 'a', a)
                if not c:
                    return
                t = archs.ev_save(E, c)
                d = archs.ev_load(E, 'b', a, t)
                if d:
                    archs.ev_info(E, d)
                    archs.ev_tree(E, d, 6)
                    archs.ev_save(E, d)
            return ('file/%d' % i, f)
        out += [rt(i) for i in range(1500 if ctx.thorough else 300)]

        def deco(i):
            def f(E):
                a = archs.gen_arch(E.rng, (3, 8, 16)[i % 3], ('deco',))
                c = archs.ev_load(E, 'a', a)
                if not c:
                    return
                archs.ev_info(E, c)
                archs.ev_tree(E, c, 10)
                t = archs.ev_save(E, c)
                d = archs.ev_load(E, 'b', a, t)
                if d:
                    archs.ev_info(E, d)
                    archs.ev_tree(E, d, 6)
            return ('deco/%d' % i, f)
        out += [deco(i) for i in range(600 if ctx.thorough else 120)]

        def grf(i):
            def f(E):
                n = E.rng.randint(1, (5, 12, 20)[i % 3])
                for _ in range(40):
                    g = gen.weight(E.rng, gen.any_graph(E.rng, n, n, ('path', 'cycle', 'star', 'complete', 'grid', 'tree', 'rand', 'randd', 'kbip')),
                                   pl=.2, pe=.3, vzero=False, bases=(0, 1) if i % 2 == 0 else (0,))
                    seen, st = {0}, [0]
                    while st:
                        for u in g.nb[st.pop()]:
                            if u not in seen:
                                seen.add(u); st.append(u)
                    if len(seen) == g.n:
                        break
                else:
                    return
                cg = ops.build(E, 'g', g)
                lst = None
                if E.rng.random() < .5:
                    lst = E.rng.sample(range(g.n), E.rng.randint(1, g.n))
                c = archs.ev_graph(E, 'a', cg, lst, 0 if i % 2 == 0 else 2)
                if c:
                    archs.ev_tree(E, c, 10)
                    if E.rng.random() < .5:
                        r, t = archs.save(E, c)
                        d, r = archs.load(E, t)
                        E.rec.ev('ArchReload', h='a', ret=r)
                        if r == 0:
                            d.a, d.h = c.a, c.h
                            archs.ev_tree(E, d, 6)
                            r, t2 = archs.save(E, d)
                            # the first text may declare edge loads for a level without edges
                            d2, r2 = archs.load(E, t2)
                            if r2 == 0:
                                r, t = archs.save(E, d2)
                            E.rec.ev('ArchResave', same=1 if t.split() == t2.split() else 0, ret=r)
            return ('graph/%d' % i, f)
        out += [grf(i) for i in range(1500 if ctx.thorough else 240)]

        def bad(i):
            def f(E):
                a = archs.gen_arch(E.rng, 12)
                w = [str(x) for x in archs.words(a)]
                for _ in range(3):
                    k = E.rng.choice(('trunc', 'trunc', 'name', 'word', 'neg'))
                    v = list(w)
                    j = E.rng.randrange(len(v))
                    nums = [x for x in range(len(v)) if v[x].isdigit()]
                    if k == 'trunc': v = v[:j]
                    elif k == 'name': v[0] = E.rng.choice(('foo', 'cmp', 'mesh4D', 'x' * 300, '7'))
                    elif k == 'word': v[E.rng.choice(nums)] = 'abc'
                    elif k == 'neg':
                        if a['k'] in ('ltleaf', 'sub'):
                            continue
                        v[E.rng.choice(nums)] = '-%d' % E.rng.randint(1, 3)
                    archs.ev_loadbad(E, ' '.join(v) + '\n')
            return ('bad/%d' % i, f)
        out += [bad(i) for i in range(1000 if ctx.thorough else 200)]
        return out
