"""P16: every compiled entry is found and nothing else, in every access mode."""
import os, re, struct
import build, jb, trees, morfo, cmaf, workload
from harness import Result
PROP = 'P16'
VARIANTS = ['plain']
CONFIGS = [('--nommap',), ('--embed',)]
COUNTS = {'quick': 15000, 'thorough': 120000}
RULE = ('one case = a dictionary of 0 to 6000 entries (keys over all bytes) of which every key that is a word, and words just before and after them, is looked up through '
        'cmafihe and jbofihe in the memory-mapped and the read-into-memory build; or a text through all builds, the embedded one included, with equal contents; or a damaged or '
        'missing dictionary which must be refused; distinct by dictionary and words')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.N = jb.Jbofihe('plain', build.ensure('plain', config=('--nommap',))['plain'], ctx.J.dict)
    ctx.X = jb.Jbofihe('plain', build.ensure('plain', config=('--embed',))['plain'], os.path.join(ctx.tmp, 'none'))
    ctx.E = jb.Earley()
    morfo.load()
    # what the embedded dictionary is made of
    d = {}
    for f in ('gismu_cmavo.dict', 'places.dat', 'extradict', 'patterns'):
        for l in open(os.path.join(ctx.X.d, f), encoding='latin1'):
            l = l.rstrip('\n')
            if l.strip(' \t')[:1] not in ('#', '') and ':' in l:
                k, v = l.split(':')[:2]
                d[k] = v
    ctx.emb = os.path.join(ctx.tmp, 'emb.dat')
    workload.write_dict(ctx.emb, d)
    ctx.P = jb.Jbofihe('plain', ctx.J.d, ctx.emb)
    ctx.words = sorted({re.match(r"[a-z']+", k).group(0) for k in d if re.match(r"[bcdfgjklmnprstvxz][a-z']+[aeiou]", k)})
    ctx.S = workload.read_dict(ctx.J.dict)


C = morfo.CONS
CV = [a + b for a in C for b in 'aeiou']


def gword(rng):
    """a word of gismu form; nothing is known about it but the entry"""
    while True:
        if rng.random() < .5:
            w = rng.choice(C) + rng.choice('aeiou') + rng.choice(C) + rng.choice(C) + rng.choice('aeiou')
            if not morfo.permissible(w[2], w[3]):
                continue
        else:
            w = rng.choice(sorted(morfo.INITIAL)) + rng.choice('aeiou') + rng.choice(C) + rng.choice('aeiou')
        return w


def near(rng, w):
    j = rng.randrange(5)
    for _ in range(20):
        s = 'aeiou' if w[j] in 'aeiou' else C
        k = s.index(w[j]) + rng.choice([-1, 1])
        x = w[:j] + s[k % len(s)] + w[j + 1:]
        if morfo.classify(x)[:2] == ('GISMU', [0]):
            return x
        j = rng.randrange(5)
    return w


def filler(rng):
    return ''.join(chr(rng.choice([rng.randint(1, 255), rng.randint(97, 122)])) for _ in range(rng.choice([1, 2, 3, 4, 6, 8, 30])))


def gen(ctx, rng, i):
    m = rng.random()
    if m < .45:
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 30, 100]) if rng.random() < .95 else rng.choice([1000, 2500, 6000])
        ks = {gword(rng) for _ in range(n)}
        for _ in range(rng.choice([0, n, n, 3 * n if n < 1000 else n])):
            w = filler(rng) if rng.random() < .6 or not ks else rng.choice(list(ks)) if rng.random() < .0 else gword(rng)[:rng.randint(1, 4)] + rng.choice(['', "'", '1', 'zz', '\xff'])
            ks.add(w)
        ks = sorted(k for k in ks if k not in ('le', 'cu', 'i', 'broda'))
        if rng.random() < .2:
            ks = [k for k in ks if k < 'm' or k > 'p']
        d = {k: 'V%d%s' % (j, rng.choice(['', 'x', ' y' * rng.randint(0, 60)])) for j, k in enumerate(ks)}
        g = [k for k in ks if len(k) == 5 and k.isalpha() and k.islower() and morfo.classify(k)[:2] == ('GISMU', [0])]
        q = list(g) if len(g) <= 60 or rng.random() < .1 else rng.sample(g, 60)
        q += [near(rng, k) for k in (g if len(g) < 30 else rng.sample(g, 30))] + [gword(rng) for _ in range(5)]
        q += ['zzz'] * 0 + [w for w in ('bradi', 'zvati', 'badna') if rng.random() < .3]
        rng.shuffle(q)
        return {'mode': 'look', 'dict': d, 'words': q}
    if m < .75:
        toks = trees.accepted_toks(rng, ctx.E, maxlen=40)
        us = trees.units(rng, toks, rng.choice([0, 0, .2]))
        ws = [w for t, w0, pre, post in us for w in pre + w0 + post]
        ws = [rng.choice(ctx.words) if re.match(r"[a-z]{5}$", w) and w in jb.GISMU and rng.random() < .7 else w for w in ws]
        return {'mode': 'same', 'text': ' '.join(ws), 'opt': rng.choice([['-x'], [], ['-x', '-b'], ['-l'], ['-H'], ['-l', '-b'], ['-t', '-x'], ['-b', '-re'], ['-x', '-ie']])}
    d = {gword(rng): 'GLOSS%d' % rng.randrange(100) for _ in range(rng.choice([1, 2, 5, 30]))}
    return {'mode': 'damage', 'dict': d, 'kind': rng.choice(['cut', 'cut', 'count', 'len', 'len', 'text', 'empty', 'dir', 'missing', 'grow']), 'seed': rng.randrange(1 << 30)}


def runs(J, exe, args, text, env):
    return jb.run(os.path.join(J.d, exe), args, text, env)


def judge(ctx, c):
    r = Result()
    return {'look': look, 'same': same, 'damage': damage}[c['mode']](ctx, c, r)


def look(ctx, c, r):
    f = os.path.join(ctx.tmp, 'd.dat')
    d = c['dict']
    workload.write_dict(f, d)
    ws = c['words']
    if not ws:
        return r
    r.nontrivial = [d, ws]
    # jbofihe: place entries decide; a bare headword is shown with ??
    for name, J in (('memory-mapped', ctx.J), ('read', ctx.N)):
        rc, o, e = runs(J, 'cmafihe', [], '\n'.join(ws), jb.base_env(f))
        rc2, o2, e2 = runs(J, 'jbofihe', ['-x', '-ie'], ' .i '.join('le %s cu broda' % w for w in ws), jb.base_env(f))
        if -9999 in (rc, rc2):
            r.incon('timeout')
            return r
        got = re.findall(r"(\S+) <BRIVLA> \[([^]]*)\]", o.decode('latin1'))
        got2 = re.findall(r"le\s(\S+)\s/([^/]*)/", o2.decode('latin1'))
        r.count('lookups', 2 * len(ws))
        if rc or rc2 or [g[0] for g in got] != ws or [g[0] for g in got2] != ws:
            r.bad('lookup run', 'with a dictionary of %d entries (%s) cmafihe exits %d, jbofihe %d: %r' % (len(d), name, rc, rc2, (e + e2)[:200]))
            return r
        for (w, g), (w2, g2) in zip(got, got2):
            v = d.get(w)
            x, x2 = (v, v + '??') if v is not None else ('?', '???')
            r.count('found' if v is not None else 'not found')
            if g != x or g2 != x2:
                r.bad('lookup', 'the entry %s of a dictionary of %d entries (%s) is %r; cmafihe shows %r, jbofihe %r' % (w, len(d), name, v, g, g2))
                return r
    return r


def same(ctx, c, r):
    t = c['text'].encode('latin1')
    r.nontrivial = [c['text'], c['opt']]
    for tool, args in (('jbofihe', c['opt']), ('cmafihe', [a for a in c['opt'] if a in ('-l', '-b')])):
        a = runs(ctx.J, tool, args, t, ctx.J.env)
        b = runs(ctx.N, tool, args, t, ctx.J.env)
        x = runs(ctx.X, tool, args, t, ctx.X.env)
        p = runs(ctx.P, tool, args, t, ctx.P.env)
        if -9999 in (a[0], b[0], x[0], p[0]):
            r.incon('timeout')
            return r
        r.count('outputs compared', 2)
        if a != b:
            r.bad('nommap', '%s %s shows %r differently when the dictionary is read instead of mapped' % (tool, ' '.join(args), c['text']))
            return r
        if x != p:
            r.bad('embed', '%s %s shows %r differently with the embedded dictionary' % (tool, ' '.join(args), c['text']))
            return r
    return r


def damage(ctx, c, r):
    import random
    rng = random.Random(c['seed'])
    f = os.path.join(ctx.tmp, 'dmg.dat')
    if os.path.isdir(f):
        os.rmdir(f)
    elif os.path.exists(f):
        os.unlink(f)
    d = c['dict']
    workload.write_dict(f, d)
    b = bytearray(open(f, 'rb').read())
    n = len(d)
    k = c['kind']
    if k == 'cut':
        b = b[:rng.randrange(len(b))]
    elif k == 'count':
        b[0:4] = struct.pack('>I', rng.choice([n + 1, n - 1, n * 2, 1 << 31, 0xffffffff, 1 << 24, n + 256, rng.randrange(1 << 32)]))
    elif k == 'len':
        j = rng.randrange(4, 4 + 2 * n)
        b[j] = (b[j] + rng.choice([1, -1, 2, 5, 128])) % 256
    elif k == 'text':
        b = bytearray(b'klama1:A;go\nnot a dictionary at all, %d\n' % rng.randrange(1000))
    elif k == 'empty':
        b = bytearray()
    elif k == 'grow':
        b += bytes(rng.randrange(256) for _ in range(rng.randint(1, 50)))
    open(f, 'wb').write(b)
    if k == 'dir':
        os.unlink(f)
        os.mkdir(f)
    elif k == 'missing':
        os.unlink(f)
    w = rng.choice(sorted(d))
    # what the file says
    state = 'bad'
    if len(b) >= 4:
        m = struct.unpack('>I', bytes(b[:4]))[0]
        if m == 0:
            state = 'none'
        elif m <= (len(b) - 4) // 4:
            p = 4 + 2 * m
            ok = p + sum(b[4:p]) + 2 * m <= len(b)
            if ok:
                for j in range(2 * m):
                    p += b[4 + j]
                    ok &= b[p] == 0
                    p += 1
                state = 'good' if ok else 'bad'
    if k in ('dir', 'missing'):
        state = k
    if state == 'good' and k != 'grow':
        return r                     # the damage shows nowhere
    r.nontrivial = [d, k, c['seed']]
    r.count('damaged: ' + k)
    for name, J in (('memory-mapped', ctx.J), ('read', ctx.N)):
        for tool, args in (('jbofihe', ['-x']), ('cmafihe', []), ('jbofihe', ['-x', '-b']), ('jbofihe', ['-l'])):
            rc, o, e = runs(J, tool, args, w, jb.base_env(f))
            what = '%s (%s) on a dictionary of %d entries with damage "%s"' % (tool, name, n, k)
            if rc == -9999:
                r.incon('timeout')
                return r
            shown = re.findall(rb'GLOSS\d+', o)
            if state in ('bad', 'dir'):
                if rc != 1 or not e.strip() or shown:
                    r.bad('damage', '%s exits %d, says %r, shows %r' % (what, rc, e[:80], shown))
                    return r
            elif state == 'good':
                if rc or shown != [d[w].encode()]:
                    r.bad('grown', '%s exits %d, shows %r' % (what, rc, shown))
                    return r
            elif shown or rc not in (0, 1) or rc == 1 and not e.strip():
                r.bad('missing', '%s exits %d, says %r, shows %r' % (what, rc, e[:80], shown))
                return r
    if os.path.isdir(f):
        os.rmdir(f)
    # the compiler must not merge into what it cannot read
    if state == 'bad':
        before = open(f, 'rb').read()
        s = os.path.join(ctx.tmp, 'src')
        open(s, 'w').write('klama1:A;go\n')
        rc, o, e = ctx.J.tool('smujajgau', [f, s])
        if rc != 1 or open(f, 'rb').read() != before:
            r.bad('merge into damaged', 'smujajgau merges into a dictionary of %d entries with damage "%s" (exit %d)' % (n, k, rc))
    return r
