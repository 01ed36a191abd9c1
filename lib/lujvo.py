"""Building lujvo from the published rules: rafsi, hyphens, score."""
import itertools, re
import jb, morfo

C, V = set(morfo.CONS), set(morfo.VOWELS)


def shape(r):
    return ''.join('C' if c in C else 'V' if c in V else c for c in r)


SCORE = {'CVCCV': 1, 'CVCC': 2, 'CCVCV': 3, 'CCVC': 4, 'CVC': 5, "CV'V": 6, 'CCV': 7, 'CVV': 8}


def rafsi(word, last, long_, brod):
    """rafsi usable at a place; long ones when asked for or when there is no other"""
    out = [r for r in jb.GISMU_RAFSI[word] if not last or r[-1] in V]
    if len(word) == 5 and (long_ or not out) and (last or brod or word[:4] != 'brod'):
        out.append(word if last else word[:4])
    return out


def joinable(a, b):
    if a[-1] in C:
        if not morfo.permissible(a[-1], b[0]):
            return False
        if b[1] in C and a[-1] + b[:2] in ('ndj', 'ndz', 'ntc', 'nts'):
            return False
    return True


def build(rs):
    """the word made of the rafsi with the hyphens the morphology asks for"""
    n = len(rs)
    g = [''] * n
    s0 = shape(rs[0])
    if s0 in ('CVV', "CV'V") and not (n == 2 and shape(rs[1]) == 'CCV'):
        g[0] = 'n' if rs[1][0] == 'r' else 'r'
    for i in range(n - 1):
        if len(shape(rs[i])) == 4 and "'" not in rs[i] or not g[i] and not joinable(rs[i], rs[i + 1]):
            g[i] = 'y'
    w = ''.join(a + b for a, b in zip(rs, g))
    if s0 == 'CVC' and not g[0]:
        c = morfo.classify(w)
        if not (c[0] == 'LUJVO' and c[1] == [0]):       # the first syllable would fall off
            g[0] = 'y'
            w = ''.join(a + b for a, b in zip(rs, g))
    return w, sum(map(bool, g))


def score(rs, hyphens):
    txt = ''.join(rs)
    return 1000 * (len(txt) + hyphens) - 500 * txt.count("'") + 100 * hyphens - 10 * sum(SCORE[shape(r)] for r in rs) - sum(c in V for c in txt)


def forms(words, long_=False, brod=False, limit=65536):
    """[(score, lujvo, uses brod)], rafsi of each place, more than limit?"""
    sets = [rafsi(w, i == len(words) - 1, long_, brod) for i, w in enumerate(words)]
    out = []
    for k, rev in enumerate(itertools.product(*reversed(sets))):
        if k == limit:
            return out, sets, True
        rs = rev[::-1]
        w, h = build(rs)
        out.append((score(rs, h), w, 'brod' in [r for r in rs if len(r) == 4]))
    return out, sets, len(out) >= limit


WORDS = sorted(jb.GISMU_RAFSI)
WITH = [w for w in WORDS if jb.GISMU_RAFSI[w]]
CM = [w for w in WITH if len(w) != 5]
BROD = ['broda', 'brode', 'brodi', 'brodo', 'brodu']


def components(rng, n):
    out = []
    for k in range(n):
        r = rng.random()
        out.append(rng.choice(WORDS if r < .3 else CM if r < .45 else BROD if r < .5 else WITH))
    return out
