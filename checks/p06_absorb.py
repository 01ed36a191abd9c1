"""P06: quotations, zei, bu and indicators are absorbed exactly as the language defines."""
import re
import jb, trees, prep, fmt
from harness import Result
PROP = 'P06'
VARIANTS = ['plain']
COUNTS = {'quick': 18000, 'thorough': 300000}
RULE = ('one case = a soup of words rich in zo, lo\'u, zoi, zei, bu, ba\'e and indicators whose token lists before and after preprocessing (-k), and tree leaves when '
        'it parses, must be those of a direct model; or a text with every word decorated by ba\'e and indicators, or with its quotations and compounds exchanged for '
        'others, whose tree must be the one of the plain text with the leaves exchanged; distinct by text')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()


ZEIPART = ['zo', 'zei', 'bu', "ba'e", 'ui', 'nai', 'by', 'mi', 'sai', 'la', 'cu', "fu'e", 'y', 'boi', 'i']


def realise(rng, t):
    """words for one terminal, quotations and compounds at their most varied"""
    if t == 'ZOq':
        return ['zo', rng.choice(prep.QWORDS + ['si', 'sa', 'su', "lo'u", "le'u", "fa'o", 'zo'])]
    if t == 'ZOIq':
        return prep.zoi_words(rng)
    if t == 'LOhUq':
        return prep.lohu_words(rng)
    if t == 'ZEIw':
        out = []
        for k in range(rng.choice([2, 2, 3, 4, 6])):
            r = rng.random()
            w = [rng.choice(jb.GISMU + jb.LUJVO)] if r < .4 else [rng.choice(jb.CMENE)] if r < .5 else ['zo', rng.choice(prep.QWORDS)] if r < .6 else \
                prep.lohu_words(rng) if r < .65 else prep.zoi_words(rng) if r < .7 else [rng.choice(ZEIPART[1:] if k else ['by', 'mi', 'la', 'cu', 'boi'])]
            out += (['zei'] if out else []) + w
        return out
    if t == 'BUw':
        r = rng.random()
        w = [rng.choice(jb.GISMU + jb.LUJVO)] if r < .3 else [rng.choice(jb.CMENE)] if r < .4 else ['zo', rng.choice(prep.QWORDS)] if r < .5 else \
            prep.lohu_words(rng) if r < .55 else prep.zoi_words(rng) if r < .6 else realise(rng, 'ZEIw') if r < .7 else \
            [rng.choice(['a', 'e', 'y', 'i', 'by', 'mi', "ba", 'ui', 'nai', 'cu', 'boi', "da'o", 'pei'])]
        return w + ['bu'] * rng.choice([1, 1, 1, 2, 3])
    return None


def gen(ctx, rng, i):
    if i % 3 == 0:
        return {'soup': prep.soup(rng, rng.choice([2, 4, 8, 16, 30]))}
    while 1:
        toks = trees.accepted_toks(rng, ctx.E, maxlen=30)
        kind = rng.choice(['deco', 'swap'])
        if kind == 'deco' or {'ZOq', 'ZOIq', 'LOhUq', 'ZEIw', 'BUw', 'BRIVLA', 'BY'} & set(toks):
            break
    us = trees.units(rng, toks, rng.choice([.1, .3, .6, .9]))
    if kind == 'deco':
        for u in us:
            w = realise(rng, u[0]) if rng.random() < .5 else None
            if w:
                u[1] = w
        a = [w for t, ws, pre, post in us for w in pre + ws + post]
        b = [w for t, ws, pre, post in us for w in ws]
        return {'k': 'deco', 'a': a, 'b': b}
    a, b = [], []
    for n, (t, ws, pre, post) in enumerate(us):
        t2 = t
        nxt = toks[n + 1] if n + 1 < len(toks) else None
        if t in ('ZOq', 'ZOIq', 'LOhUq'):
            t2 = rng.choice(['ZOq', 'ZOIq', 'LOhUq'])
        elif t in ('BRIVLA', 'ZEIw') and nxt not in FREES:    # the grammar allows free modifiers after a brivla, not after a zei compound
            t2 = rng.choice(['ZEIw', t])
        elif t == 'BY' or t == 'BUw':
            t2 = rng.choice(['BUw', t])
        b += pre + ws + post
        a += pre + (realise(rng, t2) or ws) + post
    return {'k': 'swap', 'a': a, 'b': b}


FREES = {'SEI', 'SOI', 'DOI', 'COI', 'TO', 'XI', 'PA', 'BY', 'BUw', 'LAU', 'TEI'}
INDIC = {'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO', 'NAI', 'BAhE'}


def bare(n):
    """the tree without ba'e and indicators; -> shape"""
    if n.leaf():
        if n.kind == 'CMAVO':
            return 'BY' if n.cls.startswith('BY') else (n.text, n.cls)
        return {'ZO': 'Q', 'ZOI': 'Q', 'LOhU': 'Q', 'ZEI': 'BRIVLA', 'BU': 'BY'}.get(n.kind, n.kind)
    if n.label == 'AUGMENTED':
        keep = [k for k in n.kids if not (k.leaf() and k.kind == 'CMAVO' and jb.CMAVO.get(k.text, ('',))[0] in INDIC)]
        if not keep:
            keep = [k for k in n.kids if k.leaf() and jb.CMAVO.get(k.text, ('',))[0] != 'BAhE'][:1]
        if len(keep) == 1:
            return bare(keep[0])
        return ('AUGMENTED', [bare(k) for k in keep])
    return (n.label, [bare(k) for k in n.kids])


def letters(s):
    return re.sub(r"[^a-z'0-9]", '', s.lower())


def apart(J, text, want):
    """the place, if any, where the glossed display takes an attitudinal, its nai and its intensity apart"""
    if any(k == 'ZOI' for k, w, cl in want):
        return None
    rc, o, e = J.jbofihe(text, '-H')
    if rc:
        return None
    try:
        cuts, p = set(), 0
        for ev in fmt.read_html(o.decode('latin1')):
            if ev[0] == 'W':
                cuts.add(p)
                p += len(letters(ev[1]))
    except fmt.Bad:
        return None
    where, q = [], 0
    for k, w, cl in want:
        where.append(q)
        q += len(letters({'ZO': 'zo %s', 'LOhU': "lo'u %s le'u", 'BU': '%s bu'}.get(k, '%s') % w))
    if q != p:      # elided terminators shown, or the like
        return None
    sel = [jb.CMAVO[w][0] if k == 'CMAVO' else k for k, w, cl in want]
    n, seen = 0, 0
    while n < len(sel):
        m = n + 1
        if sel[n] == 'UI':
            m += sel[m:m + 1] == ['NAI']
            m += sel[m:m + 1] == ['CAI']
            m += m > n + 1 and sel[m - 1:m + 1] == ['CAI', 'NAI']
        elif sel[n] == 'CAI':
            m += sel[m:m + 1] == ['NAI']
        if m > n + 1:
            seen += 1
            for x in range(n + 1, m):
                if where[x] in cuts:
                    return ' '.join(w for k, w, cl in want[n:m])
        n = m
    return seen


def judge(ctx, c):
    r = Result()
    J = ctx.J
    if 'soup' in c:
        r.nontrivial = c['soup']
        r.count('soups')
        x = prep.check_lists(r, J, c['soup'])
        a = c['soup']
        if not x or x[0] != 0:
            return r
    else:
        a, b = ([w.strip('.') for w in c[k]] for k in 'ab')
        r.nontrivial = a
        x = prep.check_lists(r, J, a)
        if r.violations or not x:
            return r
    rc, o, e = J.jbofihe(' '.join(a).encode('latin1'), '-tf', '-ie')
    if 'soup' not in c:
        rc2, o2, e2 = J.jbofihe(' '.join(b).encode('latin1'), '-tf', '-ie')
        r.count(c['k'] + ' pairs')
        if -9999 in (rc, rc2):
            r.incon('timeout')
            return r
        if (rc == 0) != (rc2 == 0):
            r.bad('%s acceptance' % c['k'], '"%s" exits %d but "%s" exits %d' % (' '.join(a), rc, ' '.join(b), rc2))
            return r
        if rc != 0:
            return r
    elif rc != 0:
        return r
    try:
        t = trees.read_tree(o.decode('latin1'))
    except trees.Bad as ex:
        r.bad('tree', 'unreadable tree for "%s": %s' % (' '.join(a), ex))
        return r
    got = [(n.kind, ' '.join(n.text.split()), n.cls) for n in t.leaves() if not n.elided()]
    want = prep.leaves(x[1])
    r.count('leaves compared', len(want))
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        r.bad('leaves', 'leaf %d of the tree of "%s" is %s where %s is right' % (k, ' '.join(a), got[k:k + 2], want[k:k + 2]))
        return r
    if c.get('k') != 'swap':
        y = apart(J, ' '.join(a).encode('latin1'), want)
        if isinstance(y, str):
            r.bad('intensity', 'the glossed display of "%s" takes the parts of "%s" for separate words' % (' '.join(a), y))
            return r
        r.count('attitudinals with nai or an intensity', y or 0)
    if 'soup' not in c:
        t2 = trees.read_tree(o2.decode('latin1'))
        if bare(t) != bare(t2):
            r.bad(c['k'] + ' structure', '"%s" is not read as "%s" is' % (' '.join(a), ' '.join(b)))
    return r
