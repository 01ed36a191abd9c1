"""P07: erasure words remove exactly the words the language says they remove."""
import jb, trees, prep
from harness import Result
PROP = 'P07'
VARIANTS = ['plain']
COUNTS = {'quick': 30000, 'thorough': 500000}
RULE = ('one case = either a soup of words with many si, sa and su, whose token lists before and after preprocessing (-k) must be those of a word-by-word model of '
        'the rules, or a text into which erased material was inserted (words and quotations with their si, sections with sa or su, nested), whose tree must be '
        'the one of the text without it; distinct by text')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()


PLAIN = [w for w in prep.CM if jb.CMAVO[w][0] not in ('SI', 'SA', 'SU', 'ZO', 'ZOI', 'LOhU', 'LEhU', 'FAhO')]


def junk(rng):
    """one thing that si can take back -> its written words, how many si that takes, its type"""
    r = rng.random()
    if r < .4:
        w = rng.choice(PLAIN)
        return [w], 1, jb.CMAVO[w][0]
    if r < .6:
        return [rng.choice(jb.GISMU + jb.LUJVO)], 1, 'BRIVLA'
    if r < .7:
        return [rng.choice(jb.CMENE)], 1, 'CMENE'
    if r < .8:
        return ['zo', rng.choice(prep.QWORDS + ['si', 'sa'])], 2, 'ZO'
    if r < .9:
        return prep.zoi_words(rng), 4, 'ZOI'
    return prep.lohu_words(rng), 3, 'LOhU'


def erased(rng, depth=0):
    """words that erase themselves with si"""
    out, owe = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        w, n, _t = junk(rng)
        out += w
        if rng.random() < .3 and depth < 2:
            out += erased(rng, depth + 1)
        owe.append(n)
    while owe:
        n = owe.pop()
        for _ in range(n):
            if rng.random() < .1 and depth < 2:
                out += erased(rng, depth + 1)
            out.append('si')
    return out


def typ(u):
    t = u[0]
    return {'ZOq': 'ZO', 'ZOIq': 'ZOI', 'LOhUq': 'LOhU'}.get(t, t)


def section(rng, types, n):
    """words with none of the given types"""
    out = []
    for _ in range(n):
        if rng.random() < .15:
            out += erased(rng)
            continue
        w, k, t = junk(rng)
        if t not in types and t not in ('NIhO', 'LU', 'TUhE', 'TO'):
            out += w
    return out


def gen(ctx, rng, i):
    if i % 3 == 0:
        return {'soup': prep.soup(rng, rng.choice([3, 6, 12, 25]), True)}
    toks = trees.accepted_toks(rng, ctx.E, maxlen=30)
    us = trees.units(rng, toks, 0)
    out = []
    kind = rng.choice(['si', 'si', 'sa', 'su', 'all'])
    k = rng.choice([.08, .2, .4])
    for n, u in enumerate(us):
        head = typ(u) if u[0] not in ('ZEIw', 'BUw') else None
        if kind in ('si', 'all') and rng.random() < k:
            out += erased(rng)
        if kind in ('sa', 'all') and head and rng.random() < k:
            # a word of the same type, a section without that type, sa, and the word again
            for _ in range(20):
                w, c, t = junk(rng)
                if head in jb.BYSEL and head not in ('ZO', 'ZOI', 'LOhU'):
                    w, t = [rng.choice(jb.BYSEL[head])], head
                elif head in ('BRIVLA', 'CMENE'):
                    w, t = [rng.choice(jb.GISMU if head == 'BRIVLA' else jb.CMENE)], head
                if t == head:
                    out += w + section(rng, {head}, rng.choice([0, 1, 3, 6])) + ['sa']
                    break
        out += u[1]
    if kind in ('su', 'all') and rng.random() < .8:
        pre = section(rng, set(), rng.choice([1, 3, 6]))
        if rng.random() < .4:
            pre += [rng.choice(["ni'o", 'lu', "tu'e", 'to'])] + section(rng, set(), rng.choice([0, 2]))
            out = pre + ['su', 'su'] + out
        else:
            out = pre + ['su'] + out
    if kind in ('si', 'all') and rng.random() < .3:
        out += erased(rng)
    return {'a': out, 'b': [w for u in us for w in u[1]]}


def judge(ctx, c):
    r = Result()
    if 'soup' in c:
        r.nontrivial = c['soup']
        prep.check_lists(r, ctx.J, c['soup'])
        r.count('soups')
        return r
    a, b = c['a'], c['b']
    t1, t2 = prep.process([w.strip('.') for w in a]), prep.process([w.strip('.') for w in b])
    if [(prep.show(t), t.pre, t.post) for t in t1] != [(prep.show(t), t.pre, t.post) for t in t2]:
        r.count('not an erasure to nothing')     # the inserted section met something before it
        prep.check_lists(r, ctx.J, [w.strip('.') for w in a])
        return r
    r1 = ctx.J.jbofihe(' '.join(a).encode('latin1'), '-tf', '-ie')
    r2 = ctx.J.jbofihe(' '.join(b).encode('latin1'), '-tf', '-ie')
    if -9999 in (r1[0], r2[0]):
        r.incon('timeout')
        return r
    r.nontrivial = a
    r.count('pairs compared')
    r.count('erasing words', sum(w in ('si', 'sa', 'su') for w in a))
    r.count('pairs accepted', int(r2[0] == 0))
    if r1[:2] != r2[:2]:
        r.bad('erased text read differently', 'with erased words: "%s" exits %d, without: "%s" exits %d, and the trees %s' %
              (' '.join(a), r1[0], ' '.join(b), r2[0], 'agree' if r1[1] == r2[1] else 'differ'))
    return r
