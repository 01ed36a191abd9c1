"""Builds of /repo's current working tree, outside /repo.

The tree's tracked-or-new files are copied, the project's own Makefile is run
serially once (it is not -j safe while it generates sources) and the variants
(plain, asan, msan, ...) are compiled from the generated sources in parallel.
Builds are cached under /verif/.build keyed by a hash of the sources, so a
changed tree is always rebuilt.
"""
import hashlib, os, threading, shutil, subprocess, sys, time, fcntl, re

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
PROGS = ['jbofihe', 'cmafihe', 'jvocuhadju', 'smujajgau', 'vlatai']

ENV = dict(os.environ)
for k in ('MAKEFLAGS', 'MAKELEVEL', 'CFLAGS', 'CC'):
    ENV.pop(k, None)
ENV['LC_ALL'] = 'C'

WARN = '-w -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion'
VARIANTS = {
    # (compiler, flags)
    'plain': ('gcc', '-O1 -g'),
    'asan': ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined '
                      '-fno-sanitize=function,vptr -fno-sanitize-recover=undefined '
                      '-DEXPOSE_SIGNALS=1'),
    'msan': ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=memory '
                      '-fsanitize-memory-track-origins -fno-sanitize-memory-param-retval -DEXPOSE_SIGNALS=1'),
}


class BuildError(Exception):
    pass


def repo_files():
    out = subprocess.run(['git', '-c', 'safe.directory=*', 'ls-files', '-z', '-co',
                          '--exclude-standard'], cwd=REPO, stdout=subprocess.PIPE,
                         check=True).stdout
    fs = sorted(set(f for f in out.decode('utf8', 'surrogateescape').split('\0') if f))
    return [f for f in fs if os.path.isfile(os.path.join(REPO, f))
            and not f.startswith('_build/')]


def tree_hash():
    h = hashlib.sha256()
    for f in repo_files():
        if f.startswith(('tests/', 'testing/')):
            continue
        h.update(f.encode('utf8', 'surrogateescape') + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    with open(__file__, 'rb') as fd:
        h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, cwd, log, timeout=600):
    with open(log, 'ab') as lf:
        lf.write(('\n$ %s\n' % (cmd,)).encode())
        lf.flush()
        r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=lf,
                           stderr=subprocess.STDOUT, env=ENV, timeout=timeout,
                           stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        tail = open(log, 'rb').read()[-3000:].decode('utf8', 'replace')
        raise BuildError('build command failed (%s) in %s:\n%s' % (cmd, cwd, tail))


def copy_tree(dst):
    for f in repo_files():
        s = os.path.join(REPO, f)
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d)
        st = os.stat(s)
        os.chmod(d, st.st_mode | 0o200)


def makefile_cflags(d):
    for l in open(os.path.join(d, 'Makefile')):
        m = re.match(r'CFLAGS\s*=\s*(.*)', l)
        if m:
            return m.group(1).strip()
    return ''


def evict(keep):
    """Keep only the newest few cached trees."""
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE)
              if os.path.isdir(os.path.join(CACHE, d))]
    except FileNotFoundError:
        return
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[6:]:
        if os.path.basename(d) != keep:
            shutil.rmtree(d, ignore_errors=True)


def ensure(*variants, config=()):
    """Returns {variant: directory}. Raises BuildError when /repo does not build."""
    os.makedirs(CACHE, exist_ok=True)
    th = tree_hash()
    if config:
        th += '-' + hashlib.sha256(' '.join(config).encode()).hexdigest()[:6]
    root = os.path.join(CACHE, th)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        base = os.path.join(root, 'base')
        if not os.path.exists(os.path.join(root, 'base.ok')):
            evict(th)
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(base)
            copy_tree(base)
            log = os.path.join(root, 'base.log')
            run(['perl', 'config.pl', '--prefix=/usr/local'] + list(config), base, log)
            cf = makefile_cflags(base)
            # generation pass: serial; -O0 because only the generated sources matter
            run(['make', 'all', 'CFLAGS=%s -DVBUILD' % cf.replace('-O2', '-O0 -w')], base, log)
            open(os.path.join(root, 'base.ok'), 'w').close()
        res = {}
        procs = []
        errs = []
        base_cmds, stack = [], [base]
        for l in open(os.path.join(root, 'base.log'), errors='replace'):
            m = re.match(r"make\[\d+\]: (Entering|Leaving) directory '(.*)'", l)
            if m:
                stack = stack + [m.group(2)] if m.group(1) == 'Entering' else stack[:-1]
            elif l.startswith('gcc ') and '-DVBUILD' in l:
                base_cmds.append((os.path.relpath(stack[-1], base),
                                  l.strip().replace('-O0 -w', '')))
        for v in variants:
            d = os.path.join(root, v)
            res[v] = d
            if os.path.exists(d + '.ok'):
                continue
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run(['cp', '-a', base, d], check=True)
            procs.append((v, threading.Thread(target=compile_variant,
                                              args=(v, d, base_cmds, errs))))
        for v, t in procs:
            t.start()
        for v, t in procs:
            t.join()
        if errs:
            raise BuildError('variant %s failed:\n%s' % errs[0])
        for v, t in procs:
            open(res[v] + '.ok', 'w').close()
        os.utime(root)
        return res


def compile_variant(v, d, cmds, errs):
    """Replays the compile and link commands make issued, with other flags."""
    cc, fl = VARIANTS[v]
    from concurrent.futures import ThreadPoolExecutor

    def one(a):
        sub, cmd = a
        f = fl
        if v != 'plain' and re.search(r'\brpc_(tab|full)\.c\b', cmd):
            f = fl.replace('-O1', '-O0')   # minutes otherwise
        c = re.sub(r'^gcc ', cc + ' ', cmd).replace('-DVBUILD', f + ' ' + WARN)
        r = subprocess.run(c, shell=True, cwd=os.path.join(d, sub), env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode:
            errs.append((v, c + '\n' + r.stdout.decode('utf8', 'replace')[-3000:]))
    for f in os.listdir(d):
        if f.endswith('.o') or f in PROGS:
            os.unlink(os.path.join(d, f))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [c for c in cmds if ' -c ' in c[1]]))
    if not errs:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, [c for c in cmds if ' -c ' not in c[1]]))


if __name__ == '__main__':
    t = time.time()
    print(ensure(*(sys.argv[1:] or ['plain'])))
    print('%.1fs' % (time.time() - t))
