"""P02: the companion tools never crash, corrupt memory or hang."""
import os, random, shutil
import build, jb, workload as W, san, dfagen
from harness import Result
PROP = 'P02'
VARIANTS = ['asan']
COUNTS = {'quick': 16000, 'thorough': 200000}
RULE = ('one case = one run of an AddressSanitizer+UBSan build of cmafihe, vlatai, jvocuhadju, smujajgau or dfasyn on random, '
        'malformed or hostile input; non-trivial when it ended by itself; distinct by tool, options and input')


def prepare(ctx):
    ctx.d = build.ensure('asan')['asan']
    ctx.dat = os.path.join(ctx.d, 'smujmaji.dat')
    ctx.keys = sorted(W.read_dict(ctx.dat))
    full = W.read_dict(ctx.dat)
    rng = random.Random(3)
    ctx.dicts = [ctx.dat, os.path.join(ctx.tmp, 'e'), os.path.join(ctx.tmp, 'm'), '/nonexistent']
    W.write_dict(ctx.dicts[1], {})
    W.write_dict(ctx.dicts[2], {k: (v if rng.random() < .5 else rng.choice(W.DICTVALS)) for k, v in full.items() if rng.random() < .7})


LOJW = sorted(jb.GISMU_RAFSI)
NOSHORT = [w for w in LOJW if len(w) == 5 and not jb.GISMU_RAFSI[w]]


def dict_source(rng, keys):
    ls = []
    for _ in range(rng.choice([0, 1, 3, 10, 60])):
        k = rng.random()
        key = rng.choice(keys) if k < .4 else W.rnd_word(rng) + rng.choice(['', '1', '2n', '3v', '1a', '0', '9t', ''])
        val = rng.choice(W.DICTVALS) if rng.random() < .7 else 'x' * rng.choice([1, 50, 200, 254, 255, 256, 300])
        m = rng.random()
        ls.append(key + ':' + val if m < .85 else rng.choice(['', '# c', ';x', '!', key, ':' + val, ':', '%' + key, key + ' : ' + val,
                                                              ''.join(map(chr, [rng.randrange(1, 256) for _ in range(30)])),
                                                              '$' + key, '%', '%' + key + ':' + val]))
    return '\n'.join(ls) + rng.choice(['\n', '', '\n\n'])


def mutate(rng, t):
    t = list(t)
    toks = ['->', '|', ';', '=', '<', '>', ':', ',', 'block', 'state', 'endblock', 'T0', 'T1', 's0', 'in', 'result', '*', '(', ')', '"',
            '#', '%{\n', '\n%}\n', '&', '?', '\x01', '~', 'tokens', 'attr', 'symbol', 'prefix', 'abbrev']
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not t:
            break
        p = rng.randrange(len(t))
        m = rng.random()
        if m < .4:
            t[p:p] = ' ' + rng.choice(toks) + ' '
        elif m < .6:
            del t[p:p + rng.choice([1, 3, 20, 200])]
        elif m < .7:
            t[p] = chr(rng.randrange(1, 256))
        elif m < .8:
            del t[p:]
        else:
            q = rng.randrange(len(t))
            t[p:p] = t[q:q + rng.choice([5, 40])]
    return ''.join(t)


def gen(ctx, rng, i):
    k = rng.random()
    c = {'args': [], 'inp': '', 'dict': rng.choice([0, 0, 0, 0, 1, 2, 3]), 'files': []}
    if k < .25:
        c['tool'] = 'cmafihe'
        c['inp'] = W.rnd_text(rng)
        o = rng.choice([[], ['-b'], ['-b'], ['-l'], ['-p']])
        if rng.random() < .5:
            o = o + ['-w', rng.choice(['1', '10', '20', '40', '80', '200', '500', '0', '-5', 'x'])]
        c['args'] = o
        if rng.random() < .1:
            c['files'] = [c['inp']]
            c['args'] = o + ['@0']
            c['inp'] = ''
    elif k < .5:
        c['tool'] = 'vlatai'
        o = rng.choice([[], [], ['-v'], ['-el'], ['-v', '-el']])
        ws = [W.rnd_word(rng) for _ in range(rng.choice([1, 5, 30]))]
        if rng.random() < .15:
            ws.append(''.join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([1, 5, 50]))))
        if rng.random() < .2:
            c['args'] = o + [ws[0].replace('\0', '')]
        else:
            c['args'] = o
            c['inp'] = '\n'.join(ws) + rng.choice(['\n', ''])
    elif k < .7:
        c['tool'] = 'jvocuhadju'
        o = [x for x in ['-a', '-l', '-b', '-R', '-S', '-A', '-q'] if rng.random() < .25]
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 47, 48, 49, 60])
        if '-a' in o and '-l' in o:
            n = min(n, 6)
        ws = []
        pool = NOSHORT if rng.random() < .3 else LOJW
        for _ in range(n):
            m = rng.random() * (.8 if n > 40 and rng.random() < .95 else 1)
            ws.append(rng.choice(pool) if m < .8 else rng.choice(sorted(jb.CMAVO)) if m < .9 else
                      rng.choice(jb.CMENE + jb.LUJVO + jb.FUHIVLA) if m < .95 else W.rnd_word(rng))
        c['args'] = o + [w.replace('\0', '') for w in ws]
    elif k < .85:
        c['tool'] = 'smujajgau'
        n = rng.choice([0, 1, 1, 2, 3])
        c['files'] = [dict_source(rng, ctx.keys) for _ in range(n)]
        c['args'] = ['@out'] + ['@%d' % i for i in range(n)] + (['/nonexistent'] if rng.random() < .1 else [])
        c['prev'] = rng.choice([None, None, 'dict', 'garbage'])
        c['pseed'] = rng.randrange(10**6)
    else:
        c['tool'] = 'dfasyn/dfasyn'
        while 1:
            d = dfagen.make(rng)
            if dfagen.Machine(d).explore(150):
                break
        t = dfagen.text(d, rng)
        if rng.random() < .7:
            t = mutate(rng, t)
            c['blowup'] = True      # a mutated description may have exponentially many states
        o = [x for x in ['-u', '-ud', '-v'] if rng.random() < .3]
        if rng.random() < .3:
            o += ['-r', '@rep']
        if rng.random() < .3:
            o += ['-o', '@out']
        if rng.random() < .3:
            o += ['@0']
            c['files'] = [t]
        else:
            c['inp'] = t
        c['args'] = o
    c['args'] = [a.replace('\0', '') for a in c['args']]
    return c


def judge(ctx, c):
    r = Result()
    w = os.path.join(ctx.tmp, 'w')

    def fresh():
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for i, f in enumerate(c['files']):
            open(os.path.join(w, 'f%d' % i), 'wb').write(f.encode('latin-1', 'replace'))
        if c.get('prev'):
            rng = random.Random(c['pseed'])
            p = os.path.join(w, 'out')
            W.write_dict(p, {k: rng.choice(W.DICTVALS) for k in rng.sample(ctx.keys, min(len(ctx.keys), 30))})
            if c['prev'] == 'garbage':
                b = bytearray(open(p, 'rb').read())
                for _ in range(rng.choice([1, 3, 20])):
                    if b:
                        b[rng.randrange(len(b))] = rng.randrange(256)
                if rng.random() < .5:
                    b = b[:rng.randrange(len(b) + 1)]
                open(p, 'wb').write(bytes(b))
    fresh()
    args = []
    for a in c['args']:
        if a in ('@out', '@rep'):
            a = os.path.join(w, a[1:])
        elif a.startswith('@') and a[1:].isdigit():
            a = os.path.join(w, 'f' + a[1:])
        args.append(a)
    env = jb.base_env(ctx.dicts[c['dict']])
    args = [a.encode('latin-1', 'replace') for a in args]
    o = san.judge(r, os.path.basename(c['tool']), os.path.join(ctx.d, c['tool']), args, c['inp'], env,
                  {0, 1, 2} if c['tool'] != 'vlatai' else {0, 1}, cwd=w, redo=fresh, cpu_incon=c.get('blowup'))
    if o:
        r.nontrivial = (c['tool'], c['args'], c['inp'], c['files'], c['dict'])
        r.count('%s exit %d' % (os.path.basename(c['tool']), o[0]))
    return r
