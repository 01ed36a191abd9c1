"""P15: compiling dictionaries loses, invents and reorders nothing."""
import os, random, re
import jb, lujvo, morfo, workload
from harness import Result
PROP = 'P15'
VARIANTS = ['plain']
COUNTS = {'quick': 30000, 'thorough': 200000}
RULE = ('one case = 1 to 6 source files of 0 to 3000 lines (sometimes 40000) with entries of all documented forms, redefinitions, families brivlaN + n/v/a/q/t, lujvo with '
        'places, comments, blank lines, lines without colon, bytes above 127, compiled in one to three runs of smujajgau into a new or existing dictionary; the file must be '
        'byte for byte the sorted table a model computes from the documentation; distinct by sources')


def setup():
    pass


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()


SUF = ['n', 'v', 'a', 'q', 't']
AL = "abcdefgijklmnoprstuvxyz'"


def some_lujvo(rng):
    """-> word, canonical form or None"""
    while True:
        n = rng.choice([2, 2, 3, 4])
        ws = lujvo.components(rng, n)
        rs = []
        for k, w in enumerate(ws):
            s = lujvo.rafsi(w, k == n - 1, rng.random() < .5, False)
            if not s:
                break
            rs.append(rng.choice(s))
        else:
            if any(r == 'brod' for r in rs):
                continue
            return lujvo.build(rs)[0], '+'.join(ws)


def fuhivla(rng):
    p = rng.choice(sorted(jb.RAFSI)).replace("'", '')
    return p + rng.choice('rnl') + rng.choice(morfo.CONS) + rng.choice('aeiou') + rng.choice(['', 'c', 'n', 'st', 'r']) + rng.choice('eia')


def gen(ctx, rng, i):
    pool = []
    for _ in range(rng.choice([1, 2, 4, 10, 30])):
        r = rng.random()
        if r < .35:
            w, c = some_lujvo(rng)
            pool.append([w, c])
            if rng.random() < .3:        # other forms of the same
                try:
                    fs = lujvo.forms(c.split('+'), True, False)[0]
                    pool.append([rng.choice(fs)[1], c])
                except (KeyError, IndexError):
                    pass
        elif r < .6:
            pool.append([rng.choice(list(jb.GISMU_RAFSI)), None])
        elif r < .7:
            pool.append([fuhivla(rng), None])
        elif r < .8:
            pool.append([rng.choice(['%', '@', '+', '*3', '>', '~', 'TTFT@']) + rng.choice(['gau', 'zmadu', 'pav', 'A', "da'a"]), None])
        elif r < .9:
            pool.append([''.join(rng.choice(AL) for _ in range(rng.randint(1, 5))), None])
        else:
            pool.append([rng.choice(['\xe9', '\xff\x80', 'Zed', '~~', 'a b', 'x.y', '$', '0', 'A', "'", '+a+b', 'a+b', '*2+gasnu']), None])
    pool = [p for p in pool if (p[1] is None or "brod" not in p[0]) and (p[1] or len(p[0]) < 6 or not p[0].isalpha() or 'STAGE' in str(morfo.classify(p[0])[0]))]
    pool = pool or [['klama', None]]
    n = rng.choice([0, 1, 5, 20, 60]) if rng.random() < .97 else 3000 if rng.random() < .95 else 40000
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        runs.append([rng.randrange(1 << 30) for _ in range(rng.choice([1, 1, 2, 3]))])
    return {'pool': pool, 'n': n, 'runs': runs, 'missing': rng.random() < .1, 'old': rng.random() < .3}


def value(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(['D;', 'A;', 'S;', 'P;', '']) + rng.choice(['cat', 'run', 'x y z', '"q"', '-', '\\', '<b>', '*', 'go* to']) + str(rng.randrange(1000))
    if r < .7:
        return ''
    if r < .8:
        return '@klama' + str(rng.randint(1, 5))
    if r < .85:
        return 'x' * rng.choice([1, 100, 254, 255])
    return ''.join(chr(rng.choice([32, 59, 35, 92, 200, 233, 255, 65, 9])) for _ in range(rng.randint(1, 20)))


def source(rng, pool, n, d):
    """text of one source file; updates the model"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .08:
            out.append(rng.choice(['', ' ', '\t', '# comment', '#klama1:x', ' # x:y', '! a:b', ';a:b', '  !x']))
            continue
        if r < .1:
            out.append(rng.choice(['klama', 'no colon here', 'x', 'klama1']))
            continue
        if n > 1000 and rng.random() < .7:
            w, c = ''.join(rng.choice(AL) for _ in range(rng.randint(1, 5))), None
        else:
            w, c = pool[rng.randrange(len(pool))]
        q = rng.random()
        if q < .4:
            k = w + str(rng.randint(1, 5) if rng.random() < .3 else 1)
        elif q < .7:
            k = w + str(rng.randint(1, 5) if rng.random() < .3 else 1) + rng.choice(SUF)
            if c and rng.random() < .3:
                k = c + k[len(w):]
        elif q < .8 and c:
            k = c + '1'
        else:
            k = w
        if k[0] in '#!;' or k[0].isspace():
            continue
        v = value(rng)
        line = rng.choice(['', '', '', ' ', '\t']) + k + ':' + v
        if rng.random() < .1:
            line += rng.choice([':', ':a comment', '::', ':x:y'])
        out.append(line)
        if k[-1] in '0123456789':
            for s in SUF:
                d.pop(k + s, None)
        d[k] = v
        if c and k == w + k[-1] and k[-1] in '0123456789' and len(w) >= 6:
            x = c + k[-1]
            for s in SUF:
                d.pop(x + s, None)
            d[x] = '@' + k
    t = '\n'.join(out)
    return t + ('\n' if rng.random() < .9 else '')


def judge(ctx, c):
    r = Result()
    J = ctx.J
    db = os.path.join(ctx.tmp, 'd.dat')
    ref = os.path.join(ctx.tmp, 'ref.dat')
    for f in (db, ref):
        if os.path.exists(f):
            os.unlink(f)
    d = {}
    if c['old']:
        rng = random.Random(c['runs'][0][0] + 1)
        for w, x in c['pool']:
            for k in (w, w + '1', w + '1n', w + '2v'):
                if rng.random() < .5:
                    d[k] = value(rng)
        workload.write_dict(db, d)
    r.nontrivial = [c['pool'], c['n'], c['runs']]
    keys = 0
    texts = []
    for k, run in enumerate(c['runs']):
        fs = []
        for j, seed in enumerate(run):
            t = source(random.Random(seed), c['pool'], c['n'], d)
            f = os.path.join(ctx.tmp, 's%d' % j)
            open(f, 'wb').write(t.encode('latin1'))
            fs.append(f)
            texts.append(t)
            if c['missing'] and j == 0:
                fs.append(os.path.join(ctx.tmp, 'missing.txt'))
        rc, o, e = J.tool('smujajgau', [db] + fs)
        if rc == -9999:
            r.incon('timeout')
            return r
        if rc:
            r.bad('status', 'smujajgau exits %d (%s)' % (rc, e[-200:]))
            return r
        workload.write_dict(ref, d)
        a, b = open(db, 'rb').read(), open(ref, 'rb').read()
        r.count('compiled')
        r.count('entries', len(d))
        if a != b:
            try:
                g = workload.read_dict(db)
            except Exception:
                r.bad('file', 'smujajgau writes a file which is no dictionary (%d bytes)' % len(a))
                return r
            lost = [x for x in d if x not in g]
            more = [x for x in g if x not in d]
            diff = [x for x in d if x in g and g[x] != d[x]]
            what = 'lacks %r' % lost[0] if lost else 'has %r:%r which no source defines' % (more[0], g[more[0]]) if more else \
                   'gives %r as %r, the last definition is %r' % (diff[0], g[diff[0]], d[diff[0]]) if diff else 'is not sorted'
            r.bad('lost' if lost else 'invented' if more else 'value' if diff else 'order', 'the dictionary compiled %s; sources: %r' % (what, texts[-1][:300]))
            return r
    return r
