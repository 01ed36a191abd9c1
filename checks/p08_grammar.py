"""P08: accepted exactly when the official grammar generates it."""
import os, random
import build, jb, grammar, ygram
from harness import Result
PROP = 'P08'
VARIANTS = ['plain']
COUNTS = {'quick': 40000, 'thorough': 400000}
RULE = ('one case = a sequence of word classes derived from bnf.300 (terminators kept or elided) and often mutated, written with random words of '
        'those classes; jbofihe -re and jbofihe are compared with an Earley recogniser of bnf.300; non-trivial when at least one of the two '
        'comparisons was decided; distinct by class sequence')
SKIP = {'UI', 'CAI', 'Y', 'DAhO', 'FUhO', 'FUhE'}


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()


def gen(ctx, rng, i):
    while 1:
        if rng.random() < .35:
            toks = ygram.targeted(rng, full=rng.random() < .7, slip=rng.random() < .4)
            if toks and not SKIP & set(toks) and len(toks) <= 60:
                break
            continue
        if rng.random() < .25:
            toks = ygram.sentence(rng, rng.choice([5, 8, 12, 20, 30]), rng.choice([.2, .5, .8]), rng.choice([0, 0, .05, .2]),
                                  full=rng.random() < .6, slip=rng.choice([0, 0, .05, .1]))
            if toks and not SKIP & set(toks) and len(toks) <= 60:
                break
            continue
        g = grammar.Gen(rng, budget=rng.choice([4, 6, 8, 12, 20, 30]), pfree=rng.choice([0, 0, 0.05, .15]), popt=rng.choice([.1, .3, .5]))
        tt = g.sentence(rng.choice(['text', 'paragraph', 'paragraph', 'statement', 'sentence']))
        pe = rng.choice([0, 0, .3, .7, 1])
        toks = [t for t, e in tt if not (e or t == 'CU') or rng.random() > pe]
        if toks and not SKIP & set(toks) and len(toks) <= 60:
            break
    if rng.random() < .45:
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.randrange(len(toks)) if toks else 0
            m = rng.random()
            if rng.random() < .15 and len(toks) > 3:      # a span again, or moved
                a = rng.randrange(len(toks))
                b = min(len(toks), a + rng.randint(1, 6))
                toks[k:k] = toks[a:b]
            elif rng.random() < .15:
                toks.insert(k, rng.choice(grammar.ELIDABLE))
            elif m < .3 and len(toks) > 1:
                del toks[k]
            elif m < .6:
                toks.insert(k, rng.choice(jb.PLAINSEL))
            elif m < .8 and toks:
                toks[k] = rng.choice(jb.PLAINSEL)
            else:
                k2 = rng.randrange(len(toks))
                toks[k], toks[k2] = toks[k2], toks[k]
    return {'toks': toks, 'text': jb.text_for(rng, toks)}


def err1(e):
    return e[:260].decode('latin1').replace('\n', ' ')


def judge(ctx, c):
    r = Result()
    E, toks, text = ctx.E, c['toks'], c['text']
    ok = E.accepts(toks, 'strict')[0]
    rc, o, e = ctx.J.jbofihe(text, '-re', timeout=60)
    decided = False
    if rc == -9999:
        r.incon('watchdog')
        return r
    if rc in (0, 1, 2, 3):
        decided = True
        r.count('-re: grammar %s' % ('accepts' if ok else 'rejects'))
        if rc != 0 and ok and not E.accepts_sure(toks):
            r.count('-re: no verdict (connective with ke)')
        elif (rc == 0) != ok:
            if ok and E.accepts(toks, 'strictJ')[0] != ok:
                r.bad('operand-1 joins with jek, not ek', text)
            elif not ok and E.accepts(toks, 'strictJ')[0]:
                r.bad('operand-1 joins with jek, not ek', text)
            else:
                r.bad('-re %s' % ('refused' if ok else 'accepted'), 'the official grammar %s "%s" (%s) but jbofihe -re exits %d: %s' %
                      ('generates' if ok else 'does not generate', text, ' '.join(toks), rc, err1(e)))
    else:
        r.incon('abnormal exit')
        return r
    loose = ok or E.accepts(toks, 'loose')[0]
    sure = None
    if loose:
        sure = (toks if E.accepts_sure(toks) else None) if ok else E.sure(toks)
    rc, o, e = ctx.J.jbofihe(text, timeout=60)
    if rc not in (0, 1, 2, 3):
        r.incon('abnormal exit')
    elif not loose:
        r.count('default: grammar rejects')
        if rc == 0:
            if E.accepts(toks, 'looseJ')[0]:
                r.bad('operand-1 joins with jek, not ek', text)
            else:
                r.bad('accepted', 'the official grammar does not generate "%s" (%s) however terminators are restored, but jbofihe accepts it' %
                      (text, ' '.join(toks)))
    elif sure is not None:
        r.count('default: grammar accepts')
        if rc != 0:
            if not (E.accepts(toks, 'strictJ')[0] if ok else E.sure(toks, 'fullJ')):
                r.bad('operand-1 joins with jek, not ek', text)
            else:
                r.bad('refused', 'the official grammar generates "%s" (as %s) but jbofihe exits %d: %s' % (text, ' '.join(sure), rc, err1(e)))
    else:
        r.count('default: no verdict (elision ambiguous)')
    if decided:
        r.nontrivial = toks
        for t in set(toks):
            r.count('class ' + t)
    return r
