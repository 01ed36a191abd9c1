"""Runs of sanitizer builds: environment, resource limits, verdicts."""
import os, re, subprocess
import jb

SY = '/usr/bin/llvm-symbolizer'
ENV = {'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99:symbolize=0',
       'MSAN_OPTIONS': 'exitcode=99:halt_on_error=1:symbolize=0'}
SYM = {k: v.replace('symbolize=0', 'symbolize=1') for k, v in ENV.items()}
if os.path.exists(SY):
    SYM.update(ASAN_SYMBOLIZER_PATH=SY, MSAN_SYMBOLIZER_PATH=SY, UBSAN_SYMBOLIZER_PATH=SY)
CPU = 30          # seconds of processor time; ordinary cases take milliseconds
WALL = 300


def run(exe, args=(), inp=b'', env=None, cwd=None, cpu=CPU, symbolize=False):
    """-> (rc, out, err); rc 'cpu' when the processor-time limit ended the run, 'wall' when only the watchdog did.
    The instrumented frames are many times larger, so the stack limit is raised to match."""
    if isinstance(inp, str):
        inp = inp.encode('latin-1', 'replace')
    e = dict(env or {})
    e.update(SYM if symbolize else ENV)
    cmd = ['/bin/sh', '-c', 'ulimit -s 2000000 2>/dev/null; ulimit -c 0; ulimit -t %d; exec "$0" "$@"' % cpu, exe] + list(args)
    rc, out, err = jb.spawn(cmd, inp, e, cwd, cpu=0, wall=WALL, space=0)
    if rc is None:
        return 'wall', b'', b''
    if rc in (-9, -24):
        return 'cpu', out, err
    return rc, out, err


def summary(err):
    a = re.search(rb"(\w+\.[cly]):\d+:.*Assertion `(.*)' failed", err)
    if a:
        return 'assertion in %s: %s' % (a.group(1).decode(), a.group(2).decode('latin1')[:80])
    m = re.search(rb'SUMMARY: \w+: (\S+)(?: (\S+))?(?: in (\S+))?', err)
    k = ''
    m2 = re.search(rb'(runtime error: .*)', err)
    if m2:
        k = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m2.group(1).decode('latin1'))[:80] + ' '
    if m:
        f = os.path.basename((m.group(2) or b'').decode('latin1')).split(':')[0]
        return k + ' '.join(x for x in (m.group(1).decode(), f, (m.group(3) or b'').decode('latin1')) if x)
    return k or re.sub(r'\d+', 'N', err[-120:].decode('latin1').strip())


def judge(r, label, exe, args, inp, env, ok, cwd=None, redo=None, cpu_incon=False):
    """runs and classifies; ok = set of allowed exit statuses (None: 0..98). Returns (rc, out, err) or None after reporting"""
    rc, out, err = run(exe, args, inp, env, cwd, cpu=4 if cpu_incon else CPU)
    if rc == 'wall' or rc == 'cpu' and cpu_incon:
        r.incon('watchdog')
        return None
    if rc == 'cpu':
        if redo:
            redo()
        rc, out, err = run(exe, args, inp, env, cwd, cpu=CPU * 2)
        if rc == 'wall':
            r.incon('watchdog')
            return None
        if rc == 'cpu':
            r.bad('hang ' + label, '%s does not stop (more than %d s of processor time)' % (label, CPU * 2))
            return None
    fine = (rc in ok) if ok is not None else (0 <= rc < 99)
    if not fine:
        if redo:
            redo()
        rc2, out2, err2 = run(exe, args, inp, env, cwd, symbolize=True)
        if rc2 in ('wall', 'cpu'):
            rc2, err2 = rc, err
        s = summary(err2)
        r.bad('%s %s: %s' % (label, 'sanitizer' if rc2 == 99 else 'status %s' % rc2, s),
              '%s %s ended with %s: %s' % (label, ' '.join(map(str, args)), rc2, err2[-1500:].decode('latin1')))
        return None
    return rc, out, err
