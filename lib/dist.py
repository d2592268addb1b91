"""Distributed scenarios: groups of MPI processes driven in lockstep."""
import json, os, re, signal, subprocess, sys, time
import vbuild, tlc
from base import Prop
from runner import HarnessError
LIB = os.path.dirname(os.path.abspath(__file__))
HANG_S = 45


def merge(logs):
    """logs: event lists of all processes for one scenario -> merged events."""
    out = []
    for k in range(min(len(x) for x in logs)):
        e = dict(logs[0][k])
        if any(x[k]['op'] != e['op'] for x in logs):
            raise HarnessError('processes recorded different calls: %s' % [x[k]['op'] for x in logs])
        if 'loc' in e:
            e['locs'] = [x[k]['loc'] for x in logs]
            del e['loc']
        out.append(e)
    return out


def parse(path):
    """-> list of (sid, events, done), last call, finished?, exception, pid"""
    sc = []; call = ''; fin = False; exc = None; pid = None
    if os.path.exists(path):
        for ln in open(path, errors='replace'):
            k = ln[:1]; v = ln[2:].rstrip('\n')
            if k == 'B':
                sc.append([v, [], False]); call = 'start'
            elif k == 'C':
                call = v
            elif k == 'E':
                if ln.endswith('\n'):
                    sc[-1][1].append(json.loads(v))
            elif k == 'D':
                sc[-1][2] = True
            elif k == 'Z':
                fin = True
            elif k == 'X':
                exc = json.loads(v)
            elif k == 'P':
                pid = int(v)
    return sc, call, fin, exc, pid


class Dist(Prop):
    targets = ('scotch', 'scotcherr', 'ptscotch', 'ptscotcherr')
    extra = ()
    groups = {1: 1, 2: 1, 3: 1, 4: 1, 5: 1}         # number of process groups per number of processes

    def dslot(self, ctx, np, slot, groups):
        sc = [(sid, fn) for sid, n, fn in self.scenarios(ctx) if n == np]
        return sc[slot % 100::groups]

    def launch(self, ctx, np, slot, groups, start, only=None):
        for p in range(np):
            q = os.path.join(ctx.scratch, 's%d.%d.log' % (slot, p))
            if os.path.exists(q):
                os.unlink(q)
        cmd = ['mpirun', '-n', str(np), 'env', 'LD_PRELOAD=' + vbuild.vmpi(ctx.bdir), sys.executable, os.path.join(LIB, 'dworker.py'), ctx.prop, ctx.tier, str(ctx.seed),
               ctx.scratch, ctx.bdir, str(slot), str(groups), str(start)] + ([only] if only else [])
        env = vbuild.env()
        env['TMPDIR'] = ctx.scratch
        out = None if os.environ.get('VERIF_SHOW') else subprocess.DEVNULL
        return subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True)

    def stop(self, ctx, p, slot, np):
        for sig in (signal.SIGTERM, signal.SIGKILL):
            try:
                os.killpg(p.pid, sig)
            except ProcessLookupError:
                pass
            try:
                p.wait(4)
                break
            except subprocess.TimeoutExpired:
                pass
        for r in range(np):
            pid = parse(os.path.join(ctx.scratch, 's%d.%d.log' % (slot, r)))[4]
            if pid:
                try:
                    if b'dworker' in open('/proc/%d/cmdline' % pid, 'rb').read():
                        os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass

    def drive(self, ctx, slots, hang=HANG_S):
        """slots: list of dict(np, slot, groups, ids[, only]); returns {sid: events}"""
        results = {}
        todo = list(slots)
        live = []
        crashes = hangs = 0
        cap = 10                                    # processes at a time
        while todo or live:
            while todo and (not live or sum(s['np'] for s in live) + todo[0]['np'] <= cap):
                s = todo.pop(0)
                s['p'] = self.launch(ctx, s['np'], s['slot'], s['groups'], s.setdefault('start', 0), s.get('only'))
                s['size'] = -1; s['t'] = time.time()
                live.append(s)
            time.sleep(0.02)
            for s in list(live):
                why = None
                if s['p'].poll() is None:
                    sz = 0
                    for r in range(s['np']):
                        q = os.path.join(ctx.scratch, 's%d.%d.log' % (s['slot'], r))
                        sz += os.path.getsize(q) if os.path.exists(q) else 0
                    if sz != s['size']:
                        s['size'] = sz; s['t'] = time.time()
                    elif time.time() - s['t'] > hang:
                        self.stop(ctx, s['p'], s['slot'], s['np'])
                        why = 'hang'
                        hangs += 1
                    if why is None:
                        continue
                elif s['p'].returncode != 0:
                    why = 'status %d' % s['p'].returncode
                live.remove(s)
                pr = [parse(os.path.join(ctx.scratch, 's%d.%d.log' % (s['slot'], r))) for r in range(s['np'])]
                ndone = min(sum(1 for x in q[0] if x[2]) for q in pr)
                for k in range(ndone):
                    results[pr[0][0][k][0]] = merge([q[0][k][1] for q in pr])
                s['start'] += ndone
                if all(q[2] for q in pr) and why != 'hang':
                    continue
                cur = [q[0][ndone] if len(q[0]) > ndone else None for q in pr]
                if all(c is None for c in cur):
                    exc = [q[3] for q in pr if q[3]]
                    s['retry'] = s.get('retry', 0) + 1
                    if s['retry'] > 2:
                        raise HarnessError('processes died outside a scenario (%s): %s' % (why, exc[:1]))
                    todo.append(s)
                    continue
                exc = [q[3] for q in pr if q[3]]
                if exc and os.environ.get('VERIF_DEV'):
                    raise HarnessError('driver error in %s:\n%s' % ([c for c in cur if c][0][0], exc[0]))
                if exc:
                    why = 'unreadable result (%s)' % re.sub(r'[^A-Za-z0-9 .:_-]', ' ', exc[0].strip().split('\n')[-1])[:100]
                sid = [c for c in cur if c][0][0]
                ev = merge([c[1] if c else [] for c in cur])
                mn = [i for i, c in enumerate(cur) if c and len(c[1]) == len(ev)]
                ev.append(dict(op='Crash', why=why or 'exit 0', during=pr[mn[0]][1] if mn else 'start'))
                results[sid] = ev
                crashes += 1
                s['start'] += 1
                if s['start'] < len(s['ids']) and crashes <= 25 and hangs <= 2:
                    todo.append(s)
        return results

    def run(self, ctx):
        sc = self.scenarios(ctx)
        slots = []
        k = 0
        for np in sorted({n for _, n, _ in sc}, reverse=True):
            G = self.groups.get(np, 1) if not ctx.thorough else 3 * self.groups.get(np, 1)
            for g in range(G):
                ids = self.dslot(ctx, np, g, G)
                if ids:
                    slots.append(dict(np=np, slot=100 * (k + 1) + g, groups=G, ids=ids))
            k += 1
        res = self.drive(ctx, slots)
        lines = [(sid, res[sid]) for sid, _, _ in sc if sid in res]
        return sc, lines

    def confirm(self, ctx, r):
        sid = r['sid']
        np = dict((i, n) for i, n, _ in self.scenarios(ctx))[sid]
        for t in range(3):
            res = self.drive(ctx, [dict(np=np, slot=9000 + t, groups=1, ids=[0], only=sid)])
            lines = list(res.items())
            rej, g, d = tlc.validate(lines, ctx.scratch, workers=4)
            if rej:
                return rej[0], res[sid]
        return None, None
