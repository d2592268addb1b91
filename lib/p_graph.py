"""C01-C06: sequential graph handling."""
import copy, json, re
import gen, ops, tlc
from base import Prop
from sc import Buf, Gr


def pick_size(rng, i, big=(400, 1500)):
    k = i % 20
    if k == 19:
        return rng.randint(*big)
    if k >= 14:
        return rng.randint(60, 250)
    if k >= 6:
        return rng.randint(10, 60)
    return rng.randint(0, 10)


def sized(rng, i, big=(400, 1500), lo=0, **kw):
    n = max(lo, pick_size(rng, i, big))
    return gen.weight(rng, gen.any_graph(rng, n, n), **kw)


def tlc_raws(ctx, cfg='GenRaw.cfg'):
    rc, out = tlc.run_tlc('GenRaw', cfg=cfg, scratch=ctx.scratch)
    if rc != 0 or 'No error has been found' not in out:
        raise tlc.TlcError('GenRaw failed:\n' + out[-3000:])
    raws = []
    for m in re.finditer(r'"RAW\|(.*)\|"', out):
        raws.append(json.loads(m.group(1).replace('\\"', '"')))
    raws.sort(key=lambda r: json.dumps(r, sort_keys=True))
    g, d = tlc.stats(out)
    ctx.gen_states = d
    return raws


def mutate(rng, raw):
    """One random corruption that stays readable."""
    r = copy.deepcopy(raw)
    n, e, b = r['n'], len(r['et']), r['b']
    used = []
    for i in range(n):
        s = r['vt'][i]
        t = r['ve'][i] if r['ve'] else r['vt'][i + 1]
        used += list(range(s - b, t - b))
    k = rng.choice(('end', 'endlo', 'endhi', 'loop', 'dup', 'ewasym', 'ewneg', 'vwneg', 'vwover', 'ewover', 'e+', 'e-', 'vend',
                    'vtlo', 'swap', 'drop', 'none', 'vwbig', 'endnear', 'dupfar'))
    if k in ('end', 'endlo', 'endhi', 'loop', 'dup', 'endnear', 'dupfar', 'swap', 'ewasym', 'ewneg', 'ewover') and not used:
        return r
    if k == 'end': r['et'][rng.choice(used)] = b + rng.randrange(n)
    elif k == 'endlo': r['et'][rng.choice(used)] = b - rng.choice((1, 2, 100))
    elif k == 'endhi': r['et'][rng.choice(used)] = b + n + rng.choice((0, 1, 100))
    elif k == 'endnear':
        j = rng.choice(used); r['et'][j] = r['et'][j] + rng.choice((-1, 1))
    elif k in ('loop', 'dup', 'dupfar'):
        v = rng.choice([i for i in range(n)])
        s = r['vt'][v] - b
        t = (r['ve'][v] if r['ve'] else r['vt'][v + 1]) - b
        if t > s:
            if k == 'loop': r['et'][rng.randrange(s, t)] = v + b
            elif t > s + 1:
                a, c = (s, t - 1) if k == 'dupfar' else rng.sample(range(s, t), 2)
                r['et'][a] = r['et'][c]
    elif k in ('ewasym', 'ewneg', 'ewover'):
        if not r['ew']:
            r['ew'] = [1] * e
        j = rng.choice(used)
        r['ew'][j] = r['ew'][j] + 1 if k == 'ewasym' else -rng.choice((1, 5)) if k == 'ewneg' else r['ew'][j]
        if k == 'ewover':                              # symmetric and too large in total
            big = 2147483647 // len(used) + rng.choice((0, 1))
            r['ew'] = [big if i in set(used) else x for i, x in enumerate(r['ew'])]
    elif k in ('vwneg', 'vwover', 'vwbig') and n:
        if not r['vw']:
            r['vw'] = [1] * n
        if k == 'vwneg': r['vw'][rng.randrange(n)] = -rng.choice((1, 3))
        else:
            rest = sum(r['vw'][1:])
            r['vw'][0] = 2147483647 - rest + (1 if k == 'vwover' else 0)
            if k == 'vwover' and n > 1 and rng.random() < .5:
                r['vw'] = [2147483647 // n + 1] * n
            rng.shuffle(r['vw'])
    elif k == 'e+': r['e'] += rng.choice((1, 2))
    elif k == 'e-': r['e'] = max(0, r['e'] - rng.choice((1, 2)))
    elif k == 'vend' and n and r['ve']:
        i = rng.randrange(n); r['ve'][i] = r['vt'][i] - rng.choice((1, 1, 2))
    elif k == 'vtlo' and n and r['ve']:
        i = rng.randrange(n); d = r['ve'][i] - r['vt'][i]; r['vt'][i] = b - 1; r['ve'][i] = b - 1 + d
    elif k == 'drop' and n:
        i = rng.randrange(n)
        if r['ve'] and r['ve'][i] > r['vt'][i]:
            r['ve'][i] -= 1
            if rng.random() < .5: r['e'] -= 1
    return r


class C01(Prop):
    assumptions = ['array sizes given by the caller are truthful: index arrays designate readable memory']

    def scenarios(self, ctx):
        raws = tlc_raws(ctx)
        out = []

        def batch(k, rs):
            def f(E):
                for j, r in enumerate(rs):
                    r = copy.deepcopy(r)
                    if E.rng.random() < .5:
                        r['b'] += 1
                        r['vt'] = [x + 1 for x in r['vt']]
                        r['et'] = [x + 1 for x in r['et']]
                    self.one(E, 'g', r)
            return ('tlc/%d' % k, f)
        for k in range(0, len(raws), 40):
            out.append(batch(k // 40, raws[k:k + 40]))

        def rnd(i):
            def f(E):
                g = sized(E.rng, i)
                raw = g.raw(E.rng, ops.layout(E.rng))
                self.one(E, 'g', raw)
                for j in range(6):
                    m = mutate(E.rng, raw)
                    if E.rng.random() < .2:
                        m = mutate(E.rng, m)
                    self.one(E, 'm', m)
            return ('rnd/%d' % i, f)
        out += [rnd(i) for i in range(4000 if ctx.thorough else 700)]
        return out

    def one(self, E, h, raw):
        if any(x - raw['b'] > len(raw['et']) for x in (raw['ve'] or raw['vt'])):
            return
        E.rec.call('graphBuild')
        cg = E.sc.graph_build(raw)
        if cg.ret != 0:                                    # building may refuse as well
            E.rec.ev('GraphRefuse', raw=raw)
            return
        E.rec.ev('GraphBuild', h=h, raw=raw, ret=cg.ret)
        cg.h = h
        ops.check(E, cg)
        E.sc.graph_exit(cg)

    def coverage(self, ctx):
        return dict(tlc_generated_structures=ctx.gen_states,
                    rule='all graphs of at most 3 vertices and degree 2 (valid or not, enumerated by TLC) and random graphs with one or two corruptions')


def mut_tokens(rng, t):
    t = list(t)
    n = len(t)
    k = rng.choice(('cut', 'neg', 'chg', 'deg', 'del', 'ins', 'flag', 'm', 'n', 'ver', 'lab'))
    i = rng.randrange(n) if n else 0
    if k == 'cut': t = t[:rng.randrange(n)]
    elif k == 'neg': t[i] = -t[i] - rng.choice((0, 1))
    elif k in ('chg', 'deg', 'lab') and n > 5:
        i = rng.randrange(5, n); t[i] = max(0, t[i] + rng.choice((-1, 1, 2, 7)))
    elif k == 'del': del t[i]
    elif k == 'ins': t.insert(i, rng.randrange(4))
    elif k == 'flag' and n > 4: t[4] = rng.choice((0, 1, 10, 11, 100, 101, 110, 111, 112, 200, -1))
    elif k == 'm' and n > 2: t[2] = max(0, t[2] + rng.choice((-2, -1, 1, 2)))
    elif k == 'n' and n > 1: t[1] = max(0, t[1] + rng.choice((-1, 1)))
    elif k == 'ver' and n: t[0] = rng.choice((1, 2, 3))
    return t


class C02(Prop):
    assumptions = ['files are read from and written to regular files with 32-bit integers']

    def scenarios(self, ctx):
        def f1(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i, big=(300, 800))
                cg = ops.build(E, 'g', g)
                p, txt = ops.save(E, cg)
                for j, (b, fl) in enumerate([(-1, 0)] + [(rng.choice((-1, 0, 1, 3)), rng.randrange(4)) for _ in range(3)]):
                    sep = rng.choice((' ', '\n', '\t', '  \n'))
                    t2 = txt if rng.random() < .5 else sep.join(txt.split()) + rng.choice(('', '\n', '\nxx'))
                    tk = ops.tokens(txt)
                    o = ops.load_text(E, 'l%d' % j, t2, b, fl, tok=tk)
                    if o is not None and rng.random() < .5:
                        ops.check2(E, o)
                        ops.save(E, o)
                nb = rng.choice((0, 1, 2))
                ops.base(E, cg, nb)
                ops.observe(E, cg)
                ops.check2(E, cg)
                ops.save(E, cg)
                ops.base(E, cg, rng.choice((0, 1, 4)))
                ops.observe(E, cg)
            return ('rt/%d' % i, f)

        def f2(i):
            def f(E):
                rng = E.rng
                g = gen.weight(rng, gen.any_graph(rng, 0, 14))
                cg = ops.build(E, 'g', g)
                p, txt = ops.save(E, cg)
                for j in range(8):
                    t = mut_tokens(rng, ops.tokens(txt))
                    if rng.random() < .2 and t:
                        t = mut_tokens(rng, t)
                    s = ' '.join(map(str, t))
                    tk = t
                    if rng.random() < .2 and t:
                        k = rng.randrange(len(t))
                        s = ' '.join(list(map(str, t[:k])) + ['x'] + list(map(str, t[k:])))
                        tk = t[:k]
                    ops.load_text(E, 'm%d' % j, s, rng.choice((-1, 0, 1)), rng.randrange(4), tok=tk)
            return ('bad/%d' % i, f)
        N = 3000 if ctx.thorough else 400
        return [f1(i) for i in range(N)] + [f2(i) for i in range(N)]

    def models(self, ctx):
        return [dict(module='GenRaw', cfg='GenRawInv.cfg')]


class C03(Prop):
    def scenarios(self, ctx):
        def chac(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i, big=(200, 500), vzero=False)
                if g.lb is not None and rng.random() < .7:
                    g.lb = [x + g.b for x in rng.sample(range(g.n), g.n)]
                cg = ops.build(E, 'g', g)
                txt = ops.chaco_save(E, cg)
                body = txt.split('\n')
                o = ops.chaco_load(E, 'l', txt)
                if o is not None:
                    ops.check2(E, o)
                    ops.chaco_save(E, o)
                deco = ['% c'] * rng.randrange(3) + body[:1]
                for ln in body[1:-1]:
                    if rng.random() < .2: deco.append('%% %d' % rng.randrange(9))
                    deco.append(rng.choice(('', ' ')) + ln + rng.choice(('', ' ', '\t')))
                dt = '\n'.join(deco) + rng.choice(('', '\n'))
                if rng.random() < .3:
                    h = dt.split('\n')
                    hi = [k for k, x in enumerate(h) if not x.startswith('%')][0]
                    w = h[hi].split()
                    if w[2] == '000': h[hi] = ' '.join(w[:2])
                    dt = '\n'.join(h)
                ops.chaco_load(E, 'd', dt)
                ls = ops.lines(txt)
                for j in range(4):
                    m = [list(x) for x in ls]
                    k = rng.choice(('m', 'end', 'hi', 'dropline', 'w0', 'none'))
                    if k == 'm': m[0][1] = max(0, m[0][1] + rng.choice((-1, 1, 3)))
                    elif k in ('end', 'hi', 'w0') and len(m) > 1:
                        c = [(a, z) for a in range(1, len(m)) for z in range(len(m[a]))]
                        if c:
                            a, z = rng.choice(c)
                            m[a][z] = m[0][0] + rng.choice((1, 5)) if k == 'hi' else 0 if k == 'w0' else rng.randrange(1, m[0][0] + 1)
                    elif k == 'dropline' and len(m) > 1 and m[0][2] % 100 == 0 and m[0][2] < 100:
                        del m[rng.randrange(1, len(m))]
                    ops.chaco_load(E, 'm%d' % j, '\n'.join(' '.join(map(str, x)) for x in m) + '\n', ls=m)
            return ('chac/%d' % i, f)

        def mm(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i, big=(200, 500))
                cg = ops.build(E, 'g', g)
                txt = ops.mmkt_save(E, cg)
                if g.lb is None:
                    rows = ops.mmkt_parse(txt)
                    if rows:
                        o = ops.matrix_load(E, 'l', 'Mmkt', txt, 1, rows[0][0], rows[0][1], rows[1:])
                        if o is not None: ops.check2(E, o)
                n = rng.choice((1, 2, 3, 8, 20, 60))
                b = rng.choice((0, 1, 1, 2))
                m = rng.randrange(0, 4 * n)
                ents = [[b + rng.randrange(n), b + rng.randrange(n)] for _ in range(m)]
                cols = n
                bad = rng.random()
                if bad < .1: cols = n + 1
                elif bad < .25 and ents: ents[rng.randrange(len(ents))][rng.randrange(2)] = rng.choice((b - 1, b + n, b + n + 7))
                kind = rng.choice(('pattern symmetric', 'real general', 'integer general', 'PATTERN General'))
                t = '%%MatrixMarket matrix coordinate ' + kind + '\n' + '% c\n' * rng.randrange(3)
                t += '%d %d %d\n' % (n, cols, m)
                for e in ents:
                    t += '%d %d%s\n' % (e[0], e[1], ' %g' % rng.uniform(-9, 9) if 'real' in kind else '')
                data = None if b == 1 and rng.random() < .7 else b'%d' % b
                o = ops.matrix_load(E, 'r', 'Mmkt', t, b, n, cols, ents, data)
                if o is not None:
                    ops.check2(E, o)
                if m > 1:
                    ops.matrix_load(E, 't', 'Mmkt', '\n'.join(t.split('\n')[:-2]) + '\n', b, n, cols, ents, data, trunc=True)
            return ('mmkt/%d' % i, f)

        def habo(i):
            def f(E):
                rng = E.rng
                n = rng.choice((1, 2, 3, 5, 9, 30, 80))
                cols = [sorted(rng.sample(range(n), min(n, rng.randrange(0, 5)))) for _ in range(n)]
                if rng.random() < .5:
                    cols = [[r for r in c if r >= j] for j, c in enumerate(cols)]
                bad = rng.random() < .15
                ents = [[r + 1, j + 1] for j, c in enumerate(cols) for r in c]
                if not ents:
                    cols[0] = [0]; ents = [[1, 1]]
                if bad:
                    ents[rng.randrange(len(ents))][0] = rng.choice((0, n + 1, n + 9))
                ptr = [1]
                for c in cols: ptr.append(ptr[-1] + len(c))
                rows = [e[0] for e in ents]
                pn, pw, rn, rw = rng.choice((16, 10, 4)), rng.choice((5, 8)), rng.choice((16, 7)), rng.choice((5, 6))
                px, rx = rng.choice((0, 0, 2)), rng.choice((0, 0, 1))

                def block(v, k, w, x):
                    return [' ' * x + ''.join('%*d' % (w, y) for y in v[a:a + k]) for a in range(0, len(v), k)]
                pb, rb = block(ptr, pn, pw, px), block(rows, rn, rw, rx)
                fm = lambda k, w, x: ('(%s%dI%d)' % ('%dX,' % x if x else '', k, w)).ljust(16)
                hdr = ['%-72s%-8s' % ('title', 'KEY'),
                       '%14d%14d%14d%14d%14d' % (len(pb) + len(rb), len(pb), len(rb), 0, 0),
                       '%-14s%14d%14d%14d%14d' % (rng.choice(('PSA', 'RUA', 'pua')), n, n, len(rows), 0),
                       fm(pn, pw, px) + fm(rn, rw, rx) + '%-20s%-20s' % ('', '')]
                t = '\n'.join(hdr + pb + rb) + '\n'
                tag = None
                if rng.random() < .3:
                    t = t + '\n'.join(hdr + pb + rb) + '\n' if False else t
                    tag = b'0'
                o = ops.matrix_load(E, 'h', 'Habo', t, 1, n, n, ents, tag)
                if o is not None:
                    ops.check2(E, o)
                ls = t.split('\n')[:-1]
                ops.matrix_load(E, 't', 'Habo', '\n'.join(ls[:rng.randrange(3, len(ls))]) + '\n', 1, n, n, ents, tag, trunc=True)
            return ('habo/%d' % i, f)

        def geo(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i, big=(200, 400))
                cg = ops.build(E, 'g', g)
                p, txt = ops.save(E, cg)
                dim = rng.choice((1, 2, 3))
                labs = g.lb if g.lb is not None else [g.b + v for v in range(g.n)]
                ls = [[x] + [rng.randrange(-99999, 99999) for _ in range(dim)] for x in labs]
                extra = rng.choice((0, 0, 1, 4))
                mx = max(labs + [0])
                ls += [[mx + 1 + k] + [rng.randrange(9999) for _ in range(dim)] for k in range(extra)]
                if rng.random() < .7: rng.shuffle(ls)
                bad = rng.random()
                if bad < .12 and ls: ls.pop(rng.randrange(len(ls)))
                elif bad < .24 and len(ls) > 1: ls[0][0] = ls[1][0]
                gt = '%d\n%d\n' % (dim, len(ls)) + ''.join('%d\t%s\n' % (x[0], '\t'.join('%.4f' % (y / 1e4) for y in x[1:])) for x in ls)
                o = ops.geom_load(E, 'l', txt, dim, ls, gt)
                if o is not None and g.n:
                    t2, g2 = ops.geom_save(E, o)
                    w = [x.split() for x in g2.split('\n') if x.strip()]
                    ops.geom_load(E, 'l2', t2, dim, [[int(x[0])] + [ops.micro(float(y)) for y in x[1:]] for x in w[2:]], g2)
            return ('geom/%d' % i, f)
        N = 2000 if ctx.thorough else 260
        return [k(i) for i in range(N) for k in (chac, mm, habo, geo)]

    def models(self, ctx):
        return [dict(module='GenRaw', cfg='GenRawInv.cfg')]


class C04(Prop):
    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i)
                cg = ops.build(E, 'g', g)
                via = None
                if rng.random() < .3:
                    c = E.sc.context(nthr=rng.choice((1, 2, 4)))
                    via = E.sc.bind(c, cg)
                cur = cg
                for j in range(2):
                    n = g.n
                    lst = rng.sample(range(n), rng.choice((0, n, n // 2, n - n // 4, min(n, 1)))) if n else []
                    if rng.random() < .3: lst.sort()
                    ops.induce_list(E, cg, 'l%d' % j, lst, via)
                    np = rng.choice((1, 2, 3, 5))
                    part = [rng.randrange(np) for _ in range(n)]
                    val = rng.randrange(np)
                    o = ops.induce_part(E, cg, 'p%d' % j, part, val, via)
                    if o is not None:
                        ops.check2(E, o)
                        m = o.g.n                       # subgraph of a subgraph
                        l2 = rng.sample(range(m), m // 2)
                        q = ops.induce_list(E, o, 'q%d' % j, l2)
                        if q is not None:
                            ops.check2(E, q)
                            pt = [rng.randrange(2) for _ in range(len(l2))]
                            ops.induce_part(E, q, 'r%d' % j, pt, 1)
                ops.observe(E, cg)
            return ('ind/%d' % i, f)
        return [one(i) for i in range(5000 if ctx.thorough else 700)]


class C05(Prop):
    racy = True

    def scenarios(self, ctx):
        def one(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i, big=(400, 1200))
                if rng.random() < .06 and g.n:          # very large, still summable, loads
                    g.vw = [2147483647 // g.n] * g.n
                cg = ops.build(E, 'g', g)
                via = None
                if i % 3 == 0:
                    c = E.sc.context(nthr=rng.choice((1, 2, 3, 4)), det=rng.choice((None, 0, 1)))
                    via = E.sc.bind(c, cg)
                cur = cg
                for lev in range(4):
                    n = cur.g.n
                    permil = rng.choice((1000, 1000, 900, 800, 700, 600, 501))
                    mn = rng.choice((0, 0, 1, n // 3, n // 2, n, n + 1))
                    if lev > 0: mn = 0
                    nxt = ops.coarsen(E, cur, 'c%d' % lev, mn, permil, rng.randrange(2), via if lev == 0 else None)
                    ops.match_build(E, cur, 'b%d' % lev, mn, permil, rng.randrange(2), via if lev == 0 else None)
                    if nxt is None:
                        break
                    if lev == 0: ops.check2(E, nxt)
                    cur = nxt
                # user mating: neighbours only, each vertex once
                b, n = g.b, g.n
                if n:
                    mate = list(range(b, b + n))
                    for v in rng.sample(range(n), n):
                        c = [u for u in g.nb[v] if mate[u] - b == u]
                        if mate[v] - b == v and c and rng.random() < .8:
                            u = rng.choice(c)
                            mate[v], mate[u] = u + b, v + b
                    ops.match_build(E, cg, 'u', 0, 1000, 1, via, mate=mate)
                ops.observe(E, cg)
            return ('coar/%d' % i, f)
        return [one(i) for i in range(3000 if ctx.thorough else 450)]


class C06(Prop):
    def scenarios(self, ctx):
        raws = [r for r in tlc_raws(ctx, 'GenSmall.cfg')]

        def small(k, rs):
            def f(E):
                for r in rs:
                    g = Gr(r['n'], [[u for u in r['et'][r['vt'][v]:r['vt'][v + 1]]] for v in range(r['n'])], b=E.rng.randrange(2))
                    cg = ops.build(E, 'g', g)
                    ops.color(E, cg)
            return ('tlc/%d' % k, f)

        def one(i):
            def f(E):
                rng = E.rng
                g = sized(rng, i)
                cg = ops.build(E, 'g', g)
                for k in range(3):
                    via = None
                    if rng.random() < .3:
                        via = E.sc.bind(E.sc.context(nthr=rng.choice((1, 2, 4)), seed=rng.randrange(99)), cg)
                    ops.color(E, cg, via)
                ops.observe(E, cg)
            return ('col/%d' % i, f)
        out = [small(k, raws[k:k + 16]) for k in range(0, len(raws), 16)]
        return out + [one(i) for i in range(5000 if ctx.thorough else 800)]

    def coverage(self, ctx):
        return dict(tlc_generated_structures=ctx.gen_states)
