"""P01: jbofihe never crashes, corrupts memory or hangs."""
import os, random
import build, jb, workload as W, san
from harness import Result
PROP = 'P01'
VARIANTS = ['asan']
COUNTS = {'quick': 36000, 'thorough': 400000}
RULE = ('one case = one run of the AddressSanitizer+UBSan jbofihe on a random or hostile text, option set and dictionary; '
        'non-trivial when it reached a decision (exit 0-3); distinct by text, options and dictionary')
NDICT = 6


def prepare(ctx):
    ctx.d = build.ensure('asan')['asan']
    ctx.full = W.read_dict(os.path.join(ctx.d, 'smujmaji.dat'))
    ctx.dicts = [os.path.join(ctx.d, 'smujmaji.dat')]
    for i in range(NDICT):
        rng = random.Random(i)
        p = os.path.join(ctx.tmp, 'd%d' % i)
        if i == 0:
            W.write_dict(p, {})
        elif i < 3:
            W.write_dict(p, {k: v for k, v in ctx.full.items() if rng.random() < [.0, .3, .9][i]})
        else:
            W.write_dict(p, {k: (v if rng.random() < .5 else rng.choice(W.DICTVALS)) for k, v in ctx.full.items() if rng.random() < .7})
        ctx.dicts.append(p)
    ctx.dicts.append('/nonexistent/dictionary')


def gen(ctx, rng, i):
    return {'text': W.rnd_text(rng), 'opts': W.rnd_opts(rng), 'dict': rng.choice([0, 0, 0, 0] + list(range(NDICT + 2))),
            'file': rng.random() < .1}


def judge(ctx, c):
    r = Result()
    env = jb.base_env(ctx.dicts[c['dict']])
    args = list(c['opts'])
    inp = c['text'].encode('latin-1', 'replace')
    if c['file']:
        p = os.path.join(ctx.tmp, 'in')
        open(p, 'wb').write(inp)
        args.append(p)
        inp = b''
    o = san.judge(r, 'jbofihe', os.path.join(ctx.d, 'jbofihe'), args, inp, env, {0, 1, 2, 3})
    if o:
        r.nontrivial = (c['text'], c['opts'], c['dict'])
        r.count('exit %d' % o[0])
        r.count('bytes of output', len(o[1]) + len(o[2]))
        for x in c['opts']:
            if x.startswith('-'):
                r.count('option ' + x)
    return r
