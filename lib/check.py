#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import json, os, random, shutil, sys, tempfile, time
LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)
os.environ.setdefault('MALLOC_PERTURB_', '165')
if os.environ.get('VERIF_REEXEC') != '1':                # glibc reads MALLOC_PERTURB_ at start-up
    os.environ['VERIF_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import vbuild, runner, tlc
from vbuild import VERIF


class Ctx:
    pass


def known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import registry
    P = registry.get(prop)
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    rc = 2
    try:
        rc = decide(P, prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(P, prop, tier, seed, scratch, t0):
    ctx = Ctx()
    ctx.prop, ctx.tier, ctx.seed, ctx.scratch = prop, tier, seed, scratch
    ctx.thorough = tier == 'thorough'
    ctx.bdir = vbuild.build(P.targets)
    ctx.t0 = t0
    violations = []
    mstates = mtrans = 0
    models = []
    # 1. design-level model checking of the specification
    for m in P.models(ctx):
        rc, out = tlc.run_tlc(m['module'], cfg=m.get('cfg'), scratch=scratch, timeout=m.get('timeout', 600),
                              extra=m.get('extra', ()))
        if rc != 0 or 'No error has been found' not in out:
            raise tlc.TlcError('design model %s failed:\n%s' % (m, out[-3000:]))
        g, d = tlc.stats(out)
        mstates += d
        mtrans += g
        models.append(dict(model=m['module'], cfg=m.get('cfg', m['module'] + '.cfg'), distinct=d, generated=g))
    # 2. drive the real code and record histories
    scens, lines = P.run(ctx)
    # 3. validate them against the specification
    rej, g, d = tlc.validate(lines, scratch, workers=8, mem='12g')
    byid = dict(lines)
    kn = known(prop)
    seen_known = {}
    confirmed = []
    ngroups = {}
    for r in sorted(rej, key=lambda x: (len(byid[x['sid']]), x['sid'])):
        key = (r['op'], r['clause'][:40])
        ngroups[key] = ngroups.get(key, 0) + 1
        k = match_known(kn, r, byid[r['sid']])
        if k:
            seen_known[k['id']] = k
            continue
        if ngroups[key] > 3 or len(confirmed) >= 8:
            continue
        if 'hang' in r['clause'] and r['op'] == 'Crash':
            # only a hang that repeats counts: the machine may have been busy
            r2, ev2 = P.confirm(ctx, r)
            if r2 is None:
                print('note: rejection of %s (%s: %s) did not repeat' % (r['sid'], r['op'], r['clause']))
                continue
        else:
            r2, ev2 = r, byid[r['sid']]
        if match_known(kn, r2, ev2):
            continue
        confirmed.append((r2, ev2))
    rdir = os.path.join(VERIF, 'replays')
    for i, (r, ev) in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, r['sid'].replace('/', '_')))
        json.dump(dict(property=prop, tier=tier, seed=seed, scenario=r['sid'], event=r['l'], op=r['op'], clause=r['clause'],
                       how='VERIF_SEED=%d python3 lib/check.py %s %s' % (seed, prop, tier), trace=ev), open(path, 'w'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario %s, call %d (%s): %s' % (r['sid'], r['l'], r['op'], r['clause']))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nev = sum(len(e) for _, e in lines)
    acc = len(lines) - len(rej)
    ops = {}
    for _, e in lines:
        for x in e:
            ops[x['op']] = ops.get(x['op'], 0) + 1
    sample = min(lines, key=lambda x: (len(json.dumps(x[1])) < 600, len(json.dumps(x[1])))) if lines else None
    sm = json.dumps(sample[1])[:1500] if sample else ''
    ev = dict(property=prop, tier=tier, seed=seed, level=P.level,
              coverage=dict(states=mstates + d, transitions=mtrans + g, traces_validated_against_impl=acc,
                            calls_recorded=nev, operations=ops, design_models=models,
                            samples=[dict(scenario=sample[0], events=sm)] if sample else [], **P.coverage(ctx)),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d scenarios, %d calls, %d rejected (%d confirmed), design states %d, %.1fs' %
          (prop, tier, len(lines), nev, len(rej), len(confirmed), mstates, time.time() - t0))
    for k, v in sorted(ngroups.items()):
        print('   rejected %4d  %s: %s' % (v, k[0], k[1]))
    return 1 if confirmed else 0


def match_known(kn, r, ev):
    for k in kn:
        if k.get('op') == r['op'] and k.get('clause') == r['clause'] and (not k.get('scenario') or k['scenario'] == r['sid']):
            return k
    return None


if __name__ == '__main__':
    main()
