"""Runs scenarios against the real code in forked worker processes and records
one ndjson trace line per scenario.  A scenario is (id, fn); fn(rec) performs
API calls and records them with rec.ev(op, **fields).  A signal, an abnormal
exit or a hang of the code under test becomes a "Crash" event, which no action
of the specification accepts."""
import json, os, re, signal, sys, time, traceback

HANG_S = 60


class HarnessError(Exception):
    pass


class Rec:
    def __init__(self, fd):
        self.fd = fd

    def _w(self, s):
        os.write(self.fd, s.encode())

    def call(self, what):
        """Announces the call that is about to be made (for crash reports)."""
        self._w('C ' + what.replace('\n', ' ') + '\n')

    def ev(self, op, **kw):
        kw['op'] = op
        self._w('E ' + json.dumps(kw, separators=(',', ':')) + '\n')


def _child(path, scens, start, step_ids, init):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    dn = os.open('/dev/null', os.O_RDWR)
    if not os.environ.get('VERIF_SHOW'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    rec = Rec(fd)
    try:
        if init:
            init()
        for i in step_ids[start:]:
            sid, fn = scens[i]
            os.write(fd, ('B ' + sid + '\n').encode())
            fn(rec)
            os.write(fd, b'D\n')
        os.write(fd, b'Z\n')
    except BaseException:
        os.write(fd, ('X ' + json.dumps(traceback.format_exc()) + '\n').encode())
        os._exit(99)
    os._exit(0)


def run(scens, scratch, nproc=8, init=None, hang=HANG_S):
    """Returns a list of (sid, events) in scenario order."""
    nproc = max(1, min(nproc, len(scens)))
    slots = []
    for w in range(nproc):
        ids = list(range(w, len(scens), nproc))
        slots.append(dict(path=os.path.join(scratch, 'w%d.log' % w), ids=ids, start=0, pid=None, size=-1, t=0))
    results = {}
    live = list(slots)
    crashes = hangs = 0
    while live:
        for s in list(live):
            if s['pid'] is None:
                if os.path.exists(s['path']):
                    os.unlink(s['path'])
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    _child(s['path'], scens, s['start'], s['ids'], init)
                s.update(pid=pid, size=-1, t=time.time())
                continue
            pid, st = os.waitpid(s['pid'], os.WNOHANG)
            why = None
            if pid == 0:
                sz = os.path.getsize(s['path']) if os.path.exists(s['path']) else 0
                if sz != s['size']:
                    s['size'] = sz; s['t'] = time.time()
                elif time.time() - s['t'] > hang:
                    os.kill(s['pid'], signal.SIGKILL)
                    os.waitpid(s['pid'], 0)
                    why = 'hang'
                if why is None:
                    continue
            else:
                if os.WIFSIGNALED(st):
                    why = 'signal %d' % os.WTERMSIG(st)
                elif os.WEXITSTATUS(st) != 0:
                    why = 'exit %d' % os.WEXITSTATUS(st)
            s['pid'] = None
            cur = None; evs = []; call = ''; done = False; fin = False
            for ln in open(s['path'], errors='replace'):
                k = ln[:1]; v = ln[2:].rstrip('\n')
                if k == 'B':
                    cur = v; evs = []; call = 'start'; done = False
                elif k == 'C':
                    call = v
                elif k == 'E':
                    if ln.endswith('\n'):
                        evs.append(json.loads(v))
                elif k == 'D':
                    results[cur] = evs; done = True; cur = None; s['start'] += 1
                elif k == 'Z':
                    fin = True
                elif k == 'X':
                    exc = json.loads(v)
                    if os.environ.get('VERIF_DEV') or cur is None:
                        raise HarnessError('driver error in scenario %s:\n%s' % (cur, exc))
                    # the results of the code could not even be read by the driver
                    why = 'unreadable result (%s)' % re.sub(r'[^A-Za-z0-9 .:_-]', ' ', exc.strip().split('\n')[-1])[:100]
            if fin and s['start'] >= len(s['ids']):
                live.remove(s)
                continue
            if cur is None:
                if s['start'] < len(s['ids']):
                    raise HarnessError('worker died outside a scenario: %s (%d of %d)' % (why, s['start'], len(s['ids'])))
                live.remove(s)
                continue
            crashes += 1
            evs.append(dict(op='Crash', why=why or 'exit 0', during=re.sub(r'[|"\\\s]', ' ', call)))
            results[cur] = evs
            s['start'] += 1
            if why == 'hang':
                hangs += 1
            if s['start'] >= len(s['ids']) or crashes > 40 or hangs > 2:
                live.remove(s)
        time.sleep(0.005)
    return [(sid, results[sid]) for sid, _ in scens if sid in results]
