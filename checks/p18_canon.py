"""P18: a lujvo is taken apart into exactly the components it was made from."""
import os, re
import jb, lujvo, morfo
from harness import Result
PROP = 'P18'
VARIANTS = ['plain']
COUNTS = {'quick': 25000, 'thorough': 400000}
RULE = ('one case = up to 24 lujvo forms of one sequence of 2 to 8 components (all rafsi choices, unassigned rafsi, syllable commas), built by the published rules: vlatai -el '
        'must take each apart into those components; with a dictionary compiled for the case jbofihe and cmafihe must gloss all the forms alike and from the components, and a '
        'listed lujvo must be known inside a pattern in all its forms; or 400 other words, of which vlatai -el may take apart only those the frozen automaton calls lujvo, and '
        'fu\'ivla which no lujvo pattern of the dictionary may match; distinct by words')


def setup():
    pass


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()


OF = {r: w for w, rs in jb.GISMU_RAFSI.items() for r in rs}
for w in sorted(jb.GISMU_RAFSI):
    if len(w) == 5:
        OF[w[:4]] = w
C, V, D = morfo.CONS, morfo.VOWELS, ['ai', 'ei', 'oi', 'au']
CC = sorted(morfo.INITIAL)


def some_rafsi(rng, last):
    """a rafsi shape, assigned or not"""
    c, v = (lambda: rng.choice(C)), (lambda: rng.choice(V))
    k = rng.random()
    if k < .2 and not last:
        return c() + v() + c()
    if k < .4:
        return rng.choice(CC) + v()
    if k < .55:
        return c() + rng.choice(D)
    if k < .7:
        return c() + v() + "'" + v()
    if k < .85:
        return rng.choice(CC) + v() + c() + (v() if last else '')
    for _ in range(100):
        x = c() + v() + c() + c()
        if morfo.permissible(x[2], x[3]):
            return x + (v() if last else '')
    return 'kla'


def comps_of(rs, last5=True):
    out = []
    for i, r in enumerate(rs):
        if len(r) == 5:
            out.append(r)
        else:
            out.append(OF.get(r, '?'))
    return out


def commas(rng, w):
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(1, len(w))
        w = w[:k] + ',' + w[k:]
    return w


def gen(ctx, rng, i):
    m = rng.random()
    if m < .25:
        words = []
        for _ in range(24):
            n = rng.choice([2, 2, 3, 4, 6])
            rs = [some_rafsi(rng, k == n - 1) for k in range(n)]
            w = lujvo.build(rs)[0]
            words.append((w, rs))
        return {'mode': 'shapes', 'words': words}
    if m < .37:
        return {'mode': 'other', 'words': [other(rng) for _ in range(400)]}
    if m < .45:
        fs = []
        for _ in range(10):
            p = rng.choice(sorted(jb.RAFSI)) if rng.random() < .5 else rng.choice(list(jb.GISMU_RAFSI))[:4]
            p = ''.join(p.split("'"))
            fs.append(p + rng.choice('rnl') + rng.choice(C) + rng.choice(V) + rng.choice(['', 'c', 'n', 'st', 'r']) + rng.choice(['e', 'i', 'a']) + rng.choice(['', 'gau', 'mau', 'rai', 'ko', 'bri']))
        return {'mode': 'fuhivla', 'words': fs, 'comps': [rng.choice(jb.GISMU) for _ in range(2)]}
    for _ in range(100):
        n = rng.choice([2, 2, 3, 3, 4, 5, 8])
        ws = [w for w in lujvo.components(rng, n)]
        long_ = rng.random() < .5
        if any(w in lujvo.BROD for w in ws[:-1]) and long_:
            continue
        sets = [lujvo.rafsi(w, k == n - 1, long_, False) for k, w in enumerate(ws)]
        t = 1
        for s in sets:
            t *= len(s)
        if 0 < t <= 3000:
            break
    else:
        return gen(ctx, rng, i)
    fs = sorted({f[1] for f in lujvo.forms(ws, long_, False)[0]})
    if len(fs) > 24:
        fs = rng.sample(fs, 24)
    mode = rng.choice(['forms', 'gloss', 'gloss', 'pattern', 'cmafihe'])
    if mode != 'cmafihe' and rng.random() < .3:
        fs = [commas(rng, f) if rng.random() < .5 else f for f in fs]
    return {'mode': mode, 'comps': ws, 'words': fs, 'seed': rng.randrange(1 << 30)}


def other(rng):
    k = rng.random()
    syl = lambda: rng.choice([rng.choice(C), rng.choice(CC), rng.choice(C) + rng.choice(C), '']) + rng.choice(V + ''.join('aeiou')) + rng.choice(['', '', '', rng.choice(C), 'r', 'n', "'" + rng.choice(V), 'y'])
    if k < .5:
        w = ''.join(syl() for _ in range(rng.randint(1, 5)))
    elif k < .8:
        n = rng.choice([2, 2, 3])
        w = lujvo.build([some_rafsi(rng, j == n - 1) for j in range(n)])[0]
        j = rng.randrange(len(w))
        q = rng.random()
        w = w[:j] + w[j + 1:] if q < .4 else w[:j] + rng.choice(C + V) + w[j + 1:] if q < .8 else w[:j] + rng.choice(C + 'y') + w[j:]
    elif k < .9:
        w = rng.choice(sorted(jb.CMAVO)) + rng.choice(jb.GISMU)
    else:
        w = rng.choice(jb.GISMU + jb.FUHIVLA + jb.CMENE)
    return w


def write(ctx, lines):
    src, db = os.path.join(ctx.tmp, 'd.txt'), os.path.join(ctx.tmp, 'd.dat')
    if os.path.exists(db):
        os.unlink(db)
    open(src, 'w').write('\n'.join(lines) + '\n')
    rc, o, e = ctx.J.tool('smujajgau', [db, src])
    return db if rc == 0 else None


def gloss(ctx, db, words):
    """{word: gloss} shown by jbofihe for le WORD cu broda"""
    rc, o, e = jb.run(os.path.join(ctx.J.d, 'jbofihe'), ['-x', '-ie'], ' .i '.join('le %s cu broda' % w for w in words), jb.base_env(db))
    if rc:
        return rc, e.decode('latin1')
    return 0, re.findall(r"le (\S+) /([^/]*)/", o.decode('latin1'))


def judge(ctx, c):
    r = Result()
    J, mode, words = ctx.J, c['mode'], c['words']
    r.nontrivial = words
    r.count('mode ' + mode)
    texts = [w[0] if isinstance(w, (list, tuple)) else w for w in words]
    rc, o, e = J.tool('vlatai', ['-el'], '\n'.join(texts) + '\n')
    if rc == -9999:
        r.incon('timeout')
        return r
    out = o.decode('latin1').split('\n')[:-1]
    if rc or len(out) != len(texts):
        r.bad('vlatai', 'vlatai -el exits %d with %d lines for %d words' % (rc, len(out), len(texts)))
        return r
    got = {}
    for w, l in zip(texts, out):
        m = re.match(r'(.*?) *: ([^:]*) :(.*)$', l)
        if not m or m.group(1) != w:
            r.bad('vlatai', 'vlatai -el prints %r for %s' % (l, w))
            return r
        x = re.search(r'\[(.*)\]$', m.group(3))
        got[w] = (m.group(2), x.group(1) if x else None)

    def apart(w, comps):
        k, x = got[w]
        r.count('lujvo taken apart')
        if k != 'lujvo' or x != '+'.join(comps):
            r.bad('taken apart', '%s is made of %s, vlatai -el says %s [%s]' % (w, '+'.join(comps), k, x))
            return False
        return True
    if mode == 'shapes':
        for w, rs in words:
            if morfo.classify(w)[0] != 'LUJVO' or morfo.classify(w)[1] != [0]:
                continue
            if not apart(w, comps_of(rs)):
                return r
        return r
    if mode in ('other', 'fuhivla'):
        for w in texts:
            k = morfo.classify(w)
            x = got[w][1]
            if k[0] == 'LUJVO':
                continue
            r.count('other words')
            if x is not None:
                r.bad('not a lujvo', '%s is %s, but vlatai -el takes it apart as %s' % (w, k[0], x))
                return r
        if mode == 'other':
            return r
        # patterns for lujvo must not catch them
        fs = [w for w in dict.fromkeys(texts) if str(morfo.classify(w)[0]).startswith('FUIVLA') and morfo.classify(w)[1] == [0]]
        if not fs:
            return r
        ends = ['gasnu', 'zmadu', 'traji', 'korbi', 'bridi']
        lines = ['*%d+%s1:P;PATTERN %%1n' % (k, g) for k, g in enumerate(ends)]
        for w in jb.GISMU_RAFSI:
            if len(w) == 5:
                lines.append(w + '1:S;' + w)
        lines += ["%s1:S;LISTED" % w for w in fs[::2]]
        db = write(ctx, lines)
        if not db:
            r.bad('smujajgau', 'smujajgau fails')
            return r
        rc, gl = gloss(ctx, db, fs)
        if rc or [g[0] for g in gl] != fs:
            r.bad('gloss', 'no glosses for %s (%s)' % (fs, gl))
            return r
        for w, g in gl:
            r.count('fuhivla glossed')
            if 'PATTERN' in g or ('LISTED' in g) != (w in fs[::2]):
                r.bad('not a lujvo', "%s is a fu'ivla, but jbofihe glosses it %r as if it were a lujvo" % (w, g))
                return r
        # nor may what a listed fu'ivla looks like be found for other words
        return r
    comps = c['comps']
    for w in texts:
        if not apart(w, comps):
            return r
    if mode == 'forms':
        return r
    G = {w: 'G%02d%s' % (k, 'x' * (k % 3)) for k, w in enumerate(sorted(set(comps)))}
    bare = [w.replace(',', '') for w in texts]
    if mode == 'cmafihe':
        ws = [w for w in texts if not any(x in lujvo.BROD for x in comps[:-1])]
        SE = {'se': '2nd conv-', 'te': '3rd conv-', 've': '4th conv-', 'xe': '5th conv-'}
        lines = []
        for w in set(comps):
            lines += ['%s:%s' % (w, G[w])] + ['%%%s:%s' % (x, G[w]) for x in jb.GISMU_RAFSI[w] + ([w[:4]] if len(w) == 5 else [])]
        db = write(ctx, lines)
        if not db or not ws:
            return r
        rc, o, e = jb.run(os.path.join(J.d, 'cmafihe'), ['-w', '1000000'], '\n'.join(ws) + '\n', jb.base_env(db))
        o = o.decode('latin1')
        want = ''
        k = 0
        while k < len(comps):
            x = comps[k]
            want += ('-' if want else '') 
            if x in SE and k < len(comps) - 1:
                while x in SE and k < len(comps) - 1:
                    cv, k = SE[x], k + 1
                    x = comps[k]
                want += cv + G[x]
            else:
                want += G[x]
            k += 1
        gl = re.findall(r"(\S+) <(\w+)> \[([^]]*)\]", o)
        if rc or [g[0] for g in gl] != ws:
            r.bad('cmafihe', 'cmafihe does not gloss the lujvo %s (%r)' % (ws, o[:200]))
            return r
        n = lambda s: s.replace('--', '-')
        first = None
        for w, k, g in gl:
            r.count('cmafihe glosses')
            if k != 'BRIVLA' or g != want:
                r.bad('cmafihe gloss', 'cmafihe glosses %s, made of %s, as %s [%s] instead of [%s]' % (w, '+'.join(comps), k, g, want))
                return r
        return r
    # jbofihe: gloss of the parts; conversions apply to the component that follows
    conv = {'se': 2, 'te': 3, 've': 4, 'xe': 5}
    parts, k = [], len(comps) - 1
    while k >= 0:
        x = comps[k]
        if x in conv and parts:
            p = parts[0][1]
            p[1], p[conv[x]] = p[conv[x]], p[1]
        else:
            parts.insert(0, (x, {j: j for j in range(1, 6)}))
        k -= 1
    lines = []
    for w in set(comps):
        for p in range(1, 6):
            lines.append('%s%d:S;%s%s' % (w, p, G[w], 'abcde'[p - 1]))
    g1 = lambda x, p, last: G[x] + 'abcde'[p[1] - 1] + ('' if last else '-ish')
    if len(parts) == 1:
        want = g1(parts[0][0], parts[0][1], True)
    else:
        want = '-'.join(g1(x, p, j == len(parts) - 1) for j, (x, p) in enumerate(parts)) + '??'
    if mode == 'gloss':
        db = write(ctx, lines)
        rc, gl = gloss(ctx, db, texts)
    else:
        # one form is listed, all are then known inside a pattern
        import random
        rng = random.Random(c['seed'])
        one = rng.choice(bare)
        lines.append(one + '1:S;LISTED')
        lines.append('*5+gasnu1:S;DO<%1n>')
        db = write(ctx, lines)
        tail = rng.choice(['gau', 'gasnu'])
        gs = sorted({f[1] for f in lujvo.forms(comps + ['gasnu'], True, False)[0]} if 1 else ())
        gs = rng.sample(gs, min(12, len(gs)))
        if any(x in lujvo.BROD for x in comps):
            gs = [g for g in gs if 'brod' not in g]
        if not gs or len(one) < 6 or len(parts) == 1:
            return r
        rc, gl = gloss(ctx, db, gs + [one])
        want, texts = 'DO<LISTED>', gs + [one]
        if comps[0] in conv and len(parts) > 1:
            want = None
    if rc or [g[0] for g in gl] != texts:
        r.bad('gloss', 'jbofihe does not gloss the lujvo %s (%s)' % (texts, str(gl)[:200]))
        return r
    for w, g in gl:
        r.count('jbofihe glosses')
        x = 'LISTED' if mode == 'pattern' and w == texts[-1] else want
        if x is None:
            continue
        if g != x:
            r.bad('gloss of the form', 'jbofihe glosses %s, made of %s, as /%s/ instead of /%s/' % (w, '+'.join(comps), g, x))
            return r
    return r
