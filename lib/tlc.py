"""Runs TLC; trace validation and design-level model checking."""
import json, os, re, shutil, subprocess, tempfile, time
from vbuild import VERIF
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def run_tlc(module, cfg=None, scratch=None, env=None, workers=8, timeout=800, mem='6g', extra=(), simulate=None):
    md = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-cp', CP, '-DTLA-Library=' + SPEC,
           'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg'] + list(extra)
    if simulate:
        cmd += ['-simulate', simulate]
    cmd.append(module + '.tla')
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError('TLC timeout on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout.decode(errors='replace')
    return r.returncode, out


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def validate(lines, scratch, timeout=800, workers=8, module='Trace', mem='8g'):
    """lines: list of (sid, events).  Returns (rejects, generated, distinct).
    rejects: list of dict(sid, l, op, clause)."""
    if not lines:
        return [], 0, 0
    fd, path = tempfile.mkstemp(suffix='.ndjson', dir=scratch)
    with os.fdopen(fd, 'w') as f:
        for sid, evs in lines:
            f.write(json.dumps({'id': sid, 'ev': evs}, separators=(',', ':')) + '\n')
    rc, out = run_tlc(module, scratch=scratch, env={'TRACE_FILE': path}, timeout=timeout, workers=workers, mem=mem)
    os.unlink(path)
    if os.environ.get('VERIF_TIME'):
        print('TLC', re.findall(r'Finished in .*', out))
    if rc != 0 or 'No error has been found' not in out:
        raise TlcError('TLC failed (rc=%d) on the trace spec:\n%s' % (rc, out[-6000:]))
    rej = []
    for m in re.finditer(r'REJECT\|([^|"]*)\|(\d+)\|([^|"]*)\|([^|"]*)\|', out):
        rej.append(dict(sid=m.group(1), l=int(m.group(2)), op=m.group(3), clause=m.group(4)))
    if len(rej) != out.count('REJECT|'):
        raise TlcError('unreadable rejection:\n%s' % out[-3000:])
    g, d = stats(out)
    rl = {r['sid']: r['l'] for r in rej}
    exp = sum(rl[sid] + 1 if sid in rl else len(evs) + 1 for sid, evs in lines)
    if d != exp:                       # every event of every trace must have been consumed
        raise TlcError('trace spec consumed %d states, expected %d\n%s' % (d, exp, out[-3000:]))
    return rej, g, d
