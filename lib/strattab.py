"""Method, parameter and condition variable tables of every kind of strategy,
as the user's guides list them.  Also writes spec/StratTab.tla (run as a script)."""
I, F, D = ('i',), ('f',), ('d',)              # integer, float, deprecated integer
s = lambda t: ('s', t)
c = lambda l: ('c', l)

fm = {'move': I, 'pass': I, 'bal': F}
ml = lambda t, v='vert': {'asc': s(t), 'low': s(t), v: I, 'rat': F}
hx = {'cmin': I, 'cmax': I, 'frat': F}

METH = {
    'B': {'b': {'bnd': s('B'), 'org': s('B'), 'width': I}, 'd': {'pass': I, 'type': c('bk')}, 'x': {},
          'f': dict(fm, type=c('ab')), 'h': {'pass': I}, 'g': {'pass': I}, 'm': ml('B'), 'z': {}},
    'K': {'b': {'bnd': s('K'), 'org': s('K'), 'width': I}, 'c': {}, 'd': {'pass': I, 'dif': F, 'rem': F}, 'x': {'bal': F},
          'f': fm, 'm': dict(ml('K'), type=c('hscd')),
          'r': {'job': c('ut'), 'bal': F, 'map': c('ut'), 'poli': c('rlsLS'), 'sep': s('B')}},
    'V': {'b': {'bnd': s('V'), 'org': s('V'), 'width': I}, 'e': {'strat': s('B'), 'type': c('tf')}, 'f': fm, 'h': {'pass': I},
          'g': {'pass': I}, 'm': dict(ml('V'), type=c('hs')), 'v': {}, 'z': {}},
    'O': {'b': {'strat': s('O'), 'cmin': I}, 'o': {'strat': s('O')}, 'c': {'rat': F, 'cpr': s('O'), 'unc': s('O')}, 'g': {'pass': I},
          'd': hx, 'f': hx, 'k': {'siz': I, 'strat': s('K')}, 'n': {'sep': s('V'), 'ole': s('O'), 'ose': s('O')}, 's': {}},
    'W': {'e': {'strat': s('K')}, 'f': fm, 'm': ml('W'), 'r': {'sep': s('V')}, 'z': {}},
    'M': {'b': {'strat': s('M'), 'cmin': I}, 'c': {'rat': F, 'cpr': s('M'), 'unc': s('M')}, 'g': {'pass': I}, 'v': {'strat': s('O')},
          'd': hx, 'f': hx, 'n': {'sep': s('N'), 'ole': s('M'), 'ose': s('M')}, 's': {}},
    'N': {'f': fm, 'h': {'pass': I}, 'v': {'strat': s('V')}, 'm': dict(ml('N', 'vnod'), type=c('h')), 'z': {}},
    'P': {'b': {'width': I, 'bnd': s('P'), 'org': s('P')}, 'd': {'pass': I, 'dif': F, 'rem': F, 'type': c('bk')}, 'x': {'sbbt': I, 'bal': F},
          'm': dict(ml('P'), seq=s('P'), **{'pass': I, 'dvert': I, 'fold': c('nfd')}), 'q': {'strat': s('B')}, 'z': {}},
    'Q': {'r': {'sep': s('P'), 'seq': s('K'), 'bal': F}},
    'R': {'b': {'width': I, 'strat': s('R')}, 'd': {'part': I, 'pass': I, 'bal': F, 'dif': F, 'rem': F},
          'm': dict(ml('R'), seq=s('R'), **{'pass': I, 'dvert': I, 'fold': c('nfd'), 'dlevl': D, 'proc': D}), 'q': {'strat': s('V')}, 'z': {}},
    'S': {'n': {'sep': s('R'), 'ole': s('S'), 'ose': s('S'), 'osq': s('O')}, 's': {}, 'q': {'strat': s('O')}},
}
g4 = ['edge', 'levl', 'load', 'vert']
COND = {
    'B': ['bal', 'edge', 'levl', 'lmin0', 'lmax0', 'load', 'load0', 'vert'], 'K': g4, 'V': g4, 'O': g4 + ['mdeg'], 'W': ['edge', 'part', 'vert'],
    'M': ['edge', 'levl', 'load', 'mdeg', 'vnod', 'velm'], 'N': ['edge', 'levl', 'load', 'velm', 'vnod'],
    'P': ['bal', 'edge', 'levl', 'lmin0', 'lmax0', 'load', 'load0', 'proc', 'rank', 'vert'], 'Q': [], 'R': g4 + ['proc', 'rank'],
    'S': g4 + ['mdeg', 'proc', 'rank'],
}
# routine that fills a strategy of each kind that users can ask for
FILL = {'K': 'GraphMap', 'O': 'GraphOrder', 'W': 'GraphPartOvl', 'M': 'MeshOrder', 'Q': 'DgraphMap', 'S': 'DgraphOrder'}


def tla():
    ch = lambda w: '<<' + ','.join('"%s"' % x for x in w) + '>>'
    ty = lambda t: '<<"%s">>' % t[0] if len(t) == 1 else '<<"s","%s">>' % t[1] if t[0] == 's' else '<<"c",%s>>' % ch(t[1])
    o = ['------------------------------ MODULE StratTab ------------------------------',
         '(* Written by lib/strattab.py: the methods of every kind of strategy, their   *)',
         '(* parameters (integer, float, deprecated, sub-strategy, case) and the        *)',
         '(* variables of the conditions.                                               *)']
    for T in METH:
        o.append('Meth%s ==' % T)
        for i, (m, ps) in enumerate(METH[T].items()):
            o.append('   %s"%s" :> {%s}' % ('   ' if i == 0 else '@@ ', m, ', '.join('<<"%s", %s, %s>>' % (p, ch(p), ty(t)) for p, t in ps.items())))
        o.append('Cond%s == {%s}' % (T, ', '.join('<<"%s", %s>>' % (v, ch(v)) for v in COND[T])))
    o.insert(4, 'EXTENDS TLC')
    o.append('Meth(T) == CASE ' + ' [] '.join('T = "%s" -> Meth%s' % (T, T) for T in METH))
    o.append('CondVars(T) == CASE ' + ' [] '.join('T = "%s" -> Cond%s' % (T, T) for T in METH))
    o.append('=' * 77)
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import os
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'StratTab.tla'), 'w').write(tla())
