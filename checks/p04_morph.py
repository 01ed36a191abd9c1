"""P04: every word is classified by the rules of Lojban morphology."""
import re
import jb, morfo
from harness import Result
PROP = 'P04'
VARIANTS = ['plain']
COUNTS = {'quick': 6000, 'thorough': 80000}
RULE = ('one case = 600 words put through vlatai, or 40 words as a text through jbofihe -k; the words are random letters, random syllables, well-formed and '
        'slightly damaged gismu, lujvo, fu\'ivla, cmavo compounds and names, and consecutive stretches of all short strings; every line printed is compared with a '
        'direct simulation of the frozen morphology description over letter classes computed here, and with letter-level definitions of gismu, lujvo, cmavo and names; '
        'distinct by list of words')
WORDS = 600
AL = "abcdefgijklmnoprstuvxyz'"
CONS, VOW = morfo.CONS, morfo.VOWELS
DIPH = ['ai', 'ei', 'oi', 'au']
CMAVO = sorted(jb.CMAVO)
GISMU = sorted(jb.GISMU_RAFSI)
RAF3 = sorted({r for r in jb.RAFSI if len(r.replace("'", '')) == 3})
INITIAL = sorted(morfo.INITIAL)


def setup():
    pass


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()


def syl(rng):
    r = rng.random()
    v = rng.choice(VOW) if r < .7 else rng.choice(DIPH) if r < .85 else rng.choice(VOW) + "'" + rng.choice(VOW)
    q = rng.random()
    if q < .5:
        c = rng.choice(CONS)
    elif q < .85:
        c = rng.choice(INITIAL)
    elif q < .95:
        c = rng.choice(CONS) + rng.choice(CONS)
    else:
        c = ''
    e = rng.random()
    return c + v + ('' if e < .6 else rng.choice('nrlm') if e < .8 else rng.choice(CONS))


def cmavo_form(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(CMAVO)
    c = rng.choice(CONS + '  ').strip()
    return c + (rng.choice(VOW) if r < .7 else rng.choice(DIPH) if r < .8 else rng.choice(VOW) + "'" + rng.choice(VOW) if r < .93 else 'y')


def gismu_form(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(GISMU)
    c = lambda: rng.choice(CONS)
    v = lambda: rng.choice(VOW)
    return c() + v() + c() + c() + v() if r < .7 else c() + c() + v() + c() + v()


def raf(rng, last=False):
    r = rng.random()
    c = lambda: rng.choice(CONS)
    v = lambda: rng.choice(VOW)
    if r < .45:
        for _ in range(20):
            x = rng.choice(RAF3)
            if not last or x[-1] in VOW:
                return x
    if r < .6:
        g = rng.choice(GISMU)
        return g if last else g[:4] + 'y'
    if r < .63 and not last:        # the rafsi of a culture
        return rng.choice(INITIAL) + rng.choice([v() + "'" + v(), v() + rng.choice(DIPH)]) + c()
    if r < .7:
        return rng.choice(INITIAL) + v()
    if r < .78:
        return c() + v() + "'" + v()
    if r < .85:
        return c() + rng.choice(DIPH)
    if r < .95 and not last:
        return c() + v() + c()
    g = gismu_form(rng)
    return g if last else g[:4] + 'y'


def lujvo_form(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4, 5, rng.randint(6, 14)])
    ps = [raf(rng) for _ in range(n - 1)] + [raf(rng, True)]
    w = ps[0]
    mode = rng.random()
    for k, p in enumerate(ps[1:]):
        a, b = w[-1], p[0]
        if mode < .8:           # the hyphens the rules ask for
            if a in CONS and b in CONS and not (morfo.permissible(a, b) and a + p[:2] not in ('ndj', 'ndz', 'ntc', 'nts')):
                w += 'y'
            elif k == 0 and a in VOW and w[0] in CONS and len(w.replace("'", '')) == 3 and w[1] in VOW and (n > 2 or len(p) != 3 or p[1] in VOW):
                w += 'n' if b == 'r' else 'r'
        elif mode < .95:
            w += rng.choice(['', '', '', 'y', 'r', 'n'])
        w += p
    if rng.random() < .1 and w[2:3] and w[2] in CONS:
        w = w[:3] + 'y' + w[3:]
    return w


def fuivla_form(rng):
    tail = ''.join(syl(rng) for _ in range(rng.randint(1, 4)))
    if tail[-1] not in VOW:
        tail += rng.choice(VOW)
    r = rng.random()
    if r < .6:
        x = rng.choice([g[:4] for g in GISMU]) if rng.random() < .6 else rng.choice(RAF3)
        if r < .1:
            x += rng.choice('rnly') + (rng.choice(RAF3) if rng.random() < .5 else rng.choice(GISMU)[:4])
        return x + rng.choice('rrrnnl') + tail
    return rng.choice(['', '', rng.choice(VOW)]) + tail


def name_form(rng):
    w = ''.join(rng.choice([syl(rng), syl(rng), rng.choice(['la', 'lai', 'doi', "la'i", 'dy', 'y', 'ly']), rng.choice(CONS)]) for _ in range(rng.randint(1, 5)))
    if w[-1] not in CONS:
        w += rng.choice(CONS)
    if rng.random() < .2:
        w = ''.join(c.upper() if rng.random() < .4 else c for c in w)
    if rng.random() < .25:              # commas between syllables, anywhere in the name
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(1, len(w) - 1) if len(w) > 1 else 0
            w = w[:k] + ',' + w[k:] if k else w
    return w


def mutate(rng, w):
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randint(0, len(w))
        r = rng.random()
        if r < .25:
            w = w[:k] + rng.choice(AL) + w[k:]
        elif r < .5:
            w = w[:k] + w[k + 1:]
        elif r < .75:
            w = w[:k] + rng.choice(AL) + w[k + 1:]
        elif r < .85:
            w = w[:k] + ',' + w[k:]
        elif r < .92:
            w = w[:k] + w[k:k + 1].upper() + w[k + 1:]
        else:
            k2 = rng.randint(0, len(w))
            a, b = sorted((k, k2))
            w = w[:a] + w[a:b][::-1] + w[b:]
    return w


def word(rng):
    r = rng.random()
    if r < .07:
        w = ''.join(rng.choice(AL) for _ in range(rng.randint(1, 9)))
    elif r < .17:
        w = ''.join(syl(rng) for _ in range(rng.randint(1, 5)))
    elif r < .30:
        w = ''.join(cmavo_form(rng) for _ in range(rng.randint(1, 5)))
    elif r < .42:
        w = gismu_form(rng)
    elif r < .70:
        w = lujvo_form(rng)
    elif r < .85:
        w = fuivla_form(rng)
    else:
        w = name_form(rng)
    if rng.random() < .25:
        w = ''.join(cmavo_form(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))) + w
    if rng.random() < .3:
        w = mutate(rng, w)
    if rng.random() < .01:
        k = rng.randint(0, len(w))
        w = w[:k] + rng.choice('hqwHQW#@!$%*_-^"') + w[k:]
    return w or 'a'


def short(n):
    """the n-th string over AL, by length"""
    s = ''
    while n >= 0:
        s = AL[n % len(AL)] + s
        n = n // len(AL) - 1
    return s


def gen(ctx, rng, i):
    if i % 6 == 5:
        ws = []
        bad = rng.random() < .4
        cr = rng.random() < .3
        while len(ws) < 40:
            w = word(rng) if rng.random() < .8 else rng.choice(CMAVO)
            if w[0] == '#' or re.search(r"[\s.>():0-9]|zo(?![aeiou'])|zoi|la'o|lo'u|le'u|fa'o|zei|bu$|bu[^']|s[iau](?![aeiou'])", w.replace(',', '').lower()):
                continue
            if not bad and expect([w], cr)[1]:
                continue
            ws.append(w)
        return {'k': 'text', 'ws': ws, 'cr': cr}
    if i % 12 == 3:
        a = rng.randrange(len(AL) ** 5) if rng.random() < .7 else rng.randrange(14000)
        return {'k': 'vl', 'ws': [short(a + j) for j in range(WORDS)]}
    ws = []
    while len(ws) < WORDS:
        w = word(rng)
        if w[0] != '#' and not re.search(r'\s', w):
            ws.append(w)
    return {'k': 'vl', 'ws': ws}


def tokens(w, line, col, cr, out, err):
    p = morfo.pieces(w)
    bad = "Unrecognizable word '%s' at line %d column %d" % (w, line, col)
    if isinstance(p, tuple):
        if p[0] == 'split':
            _, a, b = p
            if a:
                tokens(w[:a], line, col, cr, out, err)
            tokens(w[a:b], line, col + a, cr, out, err)
            tokens(w[b:], line, col + b, cr, out, err)
            return
        p = p[1] if cr else None
    if p == 'upper':
        err.append("Invalid uppercase letters in word '%s' at line %d column %d" % (w, line, col))
        return
    if p is None or p == 'badname':
        err.append(bad)
        return
    c0 = p[0][2]        # commas before the first piece are dropped from the count
    for k, x, o in p:
        if k == 'CMAVO':
            if set(x) - set("abcdefgijklmnoprstuvxyz'"):
                err.append('Bad cmavo [%s]' % x)
            elif x not in jb.CMAVO:
                err.append('Bad cmavo [%s] at line %d column %d' % (x, line, col + o - c0))
            else:
                out.append('CMV : %s' % x)
        else:
            out.append({'BRIVLA': 'BRV : ', 'CMENE': 'CMN : '}[k] + x)


def expect(ws, cr):
    out, err = [], []
    for n, w in enumerate(ws):
        tokens(w, n + 1, 1, cr, out, err)
    return out, err


def judge(ctx, case):
    r = Result()
    ws = case['ws']
    if case['k'] == 'text':
        rc, o, e = ctx.J.jbofihe('\n'.join(ws) + '\n', '-k', *(['-cr'] if case['cr'] else []))
        if rc == -9999:
            r.incon('timeout')
            return r
        out, err = expect(ws, case['cr'])
        o, e = o.decode('latin-1').split('\n'), e.decode('latin-1').split('\n')
        got_err = [x for x in e if re.match('Unrecognizable word|Invalid uppercase|Bad cmavo', x)]
        r.count('texts')
        r.count('texts with invalid words', bool(err))
        if got_err != err:
            a, b = next(((a, b) for a, b in zip(got_err + [None] * 99, err + [None] * 99) if a != b), (None, None))
            r.bad('jbofihe word diagnostics', 'jbofihe says %r where %r is right' % (a, b))
            return r
        if err:
            if rc != 3:
                r.bad('status with invalid words', 'exit status %d for a text with invalid words (%s)' % (rc, err[0]))
            return r
        try:
            k = o.index('Token list before preprocessing')
        except ValueError:
            r.bad('no token list', 'jbofihe -k printed no token list (exit %d, %s)' % (rc, e[:1]))
            return r
        got = []
        for x in o[k + 2:]:
            if x.startswith('---'):
                break
            got.append(re.sub(r' \[.*', '', x) if x.startswith('CMV') else x)
        got = [x for x in got if x]
        r.count('tokens compared', len(got))
        if got != out:
            a, b = next(((a, b) for a, b in zip(got + [None] * 999, out + [None] * 999) if a != b), (None, None))
            r.bad('jbofihe tokens', 'jbofihe read %r where %r is right' % (a, b))
        r.nontrivial = ws
        return r
    rc, o, e = ctx.J.tool('vlatai', [], '\n'.join(ws) + '\n')
    if rc == -9999:
        r.incon('timeout')
        return r
    o = o.decode('latin-1').split('\n')
    if o and o[-1] == '':
        o.pop()
    if len(o) != len(ws) or rc:
        r.bad('vlatai output', 'vlatai printed %d lines for %d words, exit %d' % (len(o), len(ws), rc))
        return r
    for w, got in zip(ws, o):
        want = morfo.vlatai(w)
        cat = want[28:].split(' : ')[0] if len(w) <= 25 else want[len(w) + 3:].split(' : ')[0]
        r.count(cat)
        if got.rstrip() != want.rstrip():
            r.bad('word', 'vlatai prints %r, the rules give %r' % (got, want))
            return r
        why = letter_rules(w, cat, want.rsplit(' : ', 1)[-1])
        if why:
            r.bad('letter rule', '%r: %s but printed %r' % (w, why, got))
            return r
    r.nontrivial = ws
    r.count('words', len(ws))
    return r


CV = '[bcdfgjklmnprstvxz]?(?:ai|ei|oi|au|[aeiou]\'[aeiou]|[aeiou])'
COMPOUND = re.compile('(?:[bcdfgjklmnprstvxz](?:ai|ei|oi|au|[aeiou](?:\'[aeiou])?))+$')


def letter_rules(w, cat, shown):
    """definitions straight from the published rules -> what is contradicted, or None"""
    if shown.replace(' ', '').replace('/', '').replace('+', '') != w.replace(' ', '') and '/' not in w and '+' not in w:
        return 'the pieces shown do not make up the word'
    if w != w.lower() or ',' in w or set(w) - set(AL):
        return None
    if len(w) == 5 and "'" not in w and 'y' not in w:
        s = ''.join('V' if c in VOW else 'C' for c in w)
        g = s == 'CVCCV' and morfo.permissible(w[2], w[3]) or s == 'CCVCV' and w[:2] in morfo.INITIAL
        if bool(g) != (cat == 'gismu'):
            return 'it is %sa gismu' % ('' if g else 'not ')
    if COMPOUND.match(w) and cat != 'cmavo(s)':
        return 'it is made of cmavo'
    if w[-1] in CONS:
        if cat not in ('cmene', 'UNMATCHED') and not cat.startswith('bad cmene'):
            return 'it ends with a consonant'
        for x in ('la', 'lai', 'doi'):
            if cat == 'cmene' and re.search("(^|[aeiouy'])%s(?!['aeiouy])" % x, w):
                return 'a name must not contain ' + x
    elif 'cmene' in cat:
        return 'a name ends with a consonant'
    if cat != 'UNMATCHED':
        for a, b in zip(w, w[1:]):
            if a in CONS and b in CONS and not morfo.permissible(a, b):
                return 'the pair %s is not permissible' % (a + b)
        if "''" in w or w[0] == "'" or w[-1] == "'":
            return 'misplaced apostrophe'
    if cat.startswith(('gismu', 'lujvo', "fu'ivla")):
        last = shown.split()[-1].replace('/', '')
        if not re.search('[^aeiouy\'][^aeiouy\']', re.sub("[y']", '', last)[:5]):
            return 'no consonant cluster in the first five letters of the predicate word'
        if last[-1] not in VOW:
            return 'a predicate word ends with a vowel'
    if not cat.startswith(('Bad', 'bad', 'UN')) and is_lujvo(w) is True and not cat.startswith('lujvo'):
        return 'it is a lujvo'
    return None


def is_lujvo(w):
    """True for words that are well-formed lujvo of short rafsi alone, None when undecided here"""
    m = re.match('(?:[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz]){1,4}([bcdfgjklmnprstvxz][bcdfgjklmnprstvxz][aeiou])$', w)
    if not m:
        return None
    if w[-3:-1] not in morfo.INITIAL:
        return None
    for i in range(2, len(w) - 3, 3):
        if not morfo.permissible(w[i], w[i + 1]) or w[i:i + 3] in ('ndj', 'ndz', 'ntc', 'nts'):
            return None
    # tosmabru: some pair is no initial pair, so that the first cmavo cannot fall off
    return any(w[i:i + 2] not in morfo.INITIAL for i in range(2, len(w) - 3, 3)) or None
