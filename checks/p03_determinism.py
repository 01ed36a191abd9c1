"""P03: output depends on the input only."""
import os, random, shutil, subprocess, threading
import build, jb, workload as W, san, dfagen
import p02_tools_safe as P2
from harness import Result
PROP = 'P03'
VARIANTS = ['plain', 'msan']
COUNTS = {'quick': 12000, 'thorough': 100000}
RULE = ('one case = one program on one random input: a MemorySanitizer run, and plain runs with different memory fill patterns, environment '
        'sizes, stack limits and ways of supplying the text, whose outputs must be identical; non-trivial when all the runs ended by themselves; '
        'distinct by program, options and input')


def prepare(ctx):
    b = build.ensure('plain', 'msan')
    ctx.p, ctx.m = b['plain'], b['msan']
    ctx.d = ctx.p
    ctx.dat = os.path.join(ctx.p, 'smujmaji.dat')
    full = W.read_dict(ctx.dat)
    ctx.keys = sorted(full)
    rng = random.Random(3)
    ctx.dicts = [ctx.dat, os.path.join(ctx.tmp, 'e'), os.path.join(ctx.tmp, 'm'), '/nonexistent']
    W.write_dict(ctx.dicts[1], {k: v for k, v in full.items() if rng.random() < .5})
    W.write_dict(ctx.dicts[2], {k: (v if rng.random() < .5 else rng.choice(W.DICTVALS)) for k, v in full.items() if rng.random() < .7})


def gen(ctx, rng, i):
    if rng.random() < .02:                  # many terminators in one place: the elision tables grow past their first blocks
        t = ' '.join(W.deep_text(rng, rng.randint(14, 50)))
        return {'tool': 'jbofihe', 'inp': t, 'args': [rng.choice(['-se', '-se', '-sev'])] + rng.choice([[], ['-k'], ['-b'], ['-tf']]), 'dict': 0, 'files': []}
    if rng.random() < .65:
        return {'tool': 'jbofihe', 'inp': W.rnd_text(rng), 'args': W.rnd_opts(rng), 'dict': rng.choice([0, 0, 0, 1, 2, 3]), 'files': []}
    return P2.gen(ctx, rng, i)


def drip(exe, args, inp, env, cwd):
    """text supplied a byte or a few at a time through a pipe"""
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)

    def feed():
        try:
            n = max(1, len(inp) // 40)
            for i in range(0, len(inp), n):
                os.write(p.stdin.fileno(), inp[i:i + n])
            p.stdin.close()
        except OSError:
            pass
    out = []
    t = threading.Thread(target=feed)
    t.start()
    e = threading.Thread(target=lambda: out.append(p.stderr.read()))
    e.start()
    o = p.stdout.read()
    t.join()
    e.join()
    try:
        p.stdin.close()
    except OSError:
        pass
    return p.wait(), o, out[0]


def judge(ctx, c):
    r = Result()
    w = os.path.join(ctx.tmp, 'w')

    def fresh():
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for i, f in enumerate(c['files']):
            open(os.path.join(w, 'f%d' % i), 'wb').write(f.encode('latin-1', 'replace'))
        if c.get('prev'):
            rng = random.Random(c['pseed'])
            W.write_dict(os.path.join(w, 'out'), {k: rng.choice(W.DICTVALS) for k in rng.sample(ctx.keys, min(len(ctx.keys), 30))})

    def written():
        return {f: open(os.path.join(w, f), 'rb').read() for f in sorted(os.listdir(w)) if f in ('out', 'rep')}
    args = []
    for a in c['args']:
        if a in ('@out', '@rep'):
            a = a[1:]
        elif a.startswith('@') and a[1:].isdigit():
            a = 'f' + a[1:]
        args.append(a.encode('latin-1', 'replace'))
    inp = c['inp'].encode('latin-1', 'replace')
    env = jb.base_env(ctx.dicts[c['dict']])
    tool = os.path.basename(c['tool'])
    blow = c.get('blowup') or tool == 'dfasyn'
    fresh()
    o = san.judge(r, tool, os.path.join(ctx.m, c['tool']), args, inp, env, {0, 1, 2, 3}, cwd=w, redo=fresh, cpu_incon=blow)
    if r.violations or o is None:
        # a crash is P01's and P02's business, an uninitialised read this one's
        r.violations = [(k, m) for k, m in r.violations if 'use-of-uninit' in m]
        if not r.violations:
            r.incon('instrumented run did not finish')
        return r
    base = None
    rnd = random.Random(repr(c))
    exe = os.path.join(ctx.p, c['tool'])
    kinds = ['plain', 'perturb', 'env'] + (['drip'] if inp and rnd.random() < .3 else []) + (['file'] if tool == 'jbofihe' and rnd.random() < .3 else [])
    for kind in kinds:
        e = dict(env)
        a = list(args)
        data = inp
        fresh()
        if kind == 'perturb':
            e['MALLOC_PERTURB_'] = str(rnd.randrange(1, 256))
            e['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0'
        elif kind == 'env':
            e['FILLER'] = 'q' * rnd.randrange(1, 60000)
            e['MALLOC_PERTURB_'] = '0'
        elif kind == 'file':
            open(os.path.join(w, 'in'), 'wb').write(inp)
            a.append(b'in')
            data = b''
        if kind == 'drip':
            got = drip(exe, a, data, e, w)
        else:
            got = jb.run(exe, a, data, e, cwd=w, timeout=100)
        if got[0] == -9999:
            r.incon('watchdog')
            return r
        got = got + (written(),)
        if base is None:
            base = got
        elif got != base:
            what = ['exit status', 'standard output', 'standard error', 'file written'][[x == y for x, y in zip(got, base)].index(False)]
            r.bad('%s: %s differs under %s' % (tool, what, kind),
                  '%s %s gives a different %s under "%s" (status %s and %s): %r / %r' % (tool, c['args'], what, kind, base[0], got[0], base[1][-300:], got[1][-300:]))
            return r
        r.count('%s runs of %s' % (kind, tool))
    sub = lambda b: b.replace(ctx.m.encode(), ctx.p.encode())
    if (o[0], sub(o[1]), sub(o[2])) != base[:3]:
        r.bad('%s: instrumented build differs' % tool, '%s %s: the plain and the MemorySanitizer builds disagree (status %s and %s): %r / %r'
              % (tool, c['args'], base[0], o[0], (base[1] + base[2])[-300:], (o[1] + o[2])[-300:]))
        return r
    r.nontrivial = (tool, c['args'], c['inp'], c['files'], c['dict'])
    return r
