"""P09: the tree shown is a derivation covering every word once; all displays agree."""
import random
import jb, trees
from harness import Result
PROP = 'P09'
VARIANTS = ['plain']
COUNTS = {'quick': 9000, 'thorough': 120000}
RULE = ('one case = a text derived from the grammar (terminators kept or elided, indicators and ba\'e attached) that jbofihe accepts; the full tree '
        'with elided terminators is checked node by node against the rules of bnf.300 and leaf by leaf against the words, the five other displays '
        'against it; non-trivial when accepted; distinct by class sequence')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()
    ctx.memo = {}


def gen(ctx, rng, i):
    toks = trees.accepted_toks(rng, ctx.E)
    us = trees.units(rng, toks, rng.choice([0, 0, .1, .4]))
    return {'units': us, 'text': trees.unit_text(rng, us, rng.choice([0, 0, .1, .4]))}


TOKOF = {'BRIVLA': 'BRIVLA', 'CMENE': 'CMENE', 'ZO': 'ZOq', 'LOhU': 'LOhUq', 'ZOI': 'ZOIq', 'ZEI': 'ZEIw', 'BU': 'BUw'}


def flat(n, top=True):
    """children as rule symbols"""
    if n.leaf():
        if n.kind == 'CMAVO':
            e = jb.CMAVO.get(n.text.lower())
            return [e[0] if e else '?' + n.text]
        return [TOKOF[n.kind]]
    if n.label == 'AUGMENTED':
        main = [k for k in n.kids if not (k.leaf() and k.kind == 'CMAVO' and jb.CMAVO.get(k.text, ('',))[0] in ('BAhE', 'UI', 'CAI', 'NAI'))]
        main = [k for k in main if k.leaf()]
        if not main:                          # a NAI or the like that carries indicators itself
            main = [k for k in n.kids if k.leaf() and jb.CMAVO.get(k.text, ('',))[0] != 'BAhE'][:1]
        return flat(main[0], False) if main else ['?']
    r = trees.rule_of(n.label)
    if r and not top:
        return ['@' + r]
    return [s for k in n.kids for s in flat(k, False)]


def expected_brackets(n, disp, pos):
    if n.leaf():
        if n.elided():
            return [n.text]
        d = disp[pos[0]] if pos[0] < len(disp) else ['?']
        pos[0] += 1
        return d
    out = []
    for k in n.kids:
        e = expected_brackets(k, disp, pos)
        if k.leaf():
            out.extend(e)
        else:
            out.append(e)
    return out


def judge(ctx, c):
    r = Result()
    text, us = c['text'], c['units']
    J = ctx.J
    rc, o, e = J.jbofihe(text, '-tf', '-ie', timeout=60)
    if rc != 0:
        r.count('not accepted')
        if rc not in (1, 2, 3):
            r.incon('abnormal exit')
        return r
    r.nontrivial = [u[0] for u in us]

    def show(opts):
        rc, o, e = J.jbofihe(text, *opts, timeout=60)
        if rc == -9999:
            return None
        if rc != 0:
            raise trees.Bad('exit %d with %s' % (rc, ' '.join(opts)))
        return o.decode('latin1')
    where = '-tf -ie'
    try:
        full = trees.read_tree(o.decode('latin1'))
        if full.label != 'CHUNKS':
            r.bad('root', 'root %s for "%s"' % (full.label, text))
        lv = full.leaves()
        got = [(n.kind, ' '.join(n.text.split()), n.cls) for n in lv if not n.elided()]
        want = [tuple(x) for x in trees.unit_leaves(us)]
        if got != want:
            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            r.bad('leaves', 'leaf %d of the tree of "%s" is %s, the text has %s there' % (k, text, got[k:k + 2], want[k:k + 2]))
            return r
        r.count('leaves checked', len(got))
        r.count('elided terminators shown', len(lv) - len(got))
        for n in full.nodes():
            if n is full:
                if [k.label for k in n.kids if not k.leaf()] != ['TEXT'] or len(n.kids) != 1:
                    if not all(not k.leaf() and k.label == 'TEXT' for k in n.kids):
                        r.bad('root', 'CHUNKS over %s' % [k.label or k.kind for k in n.kids])
                continue
            rule = trees.rule_of(n.label)
            if not rule or n.label == 'AUGMENTED':
                r.count('auxiliary nodes')
                continue
            syms = flat(n)
            key = (rule, tuple(syms))
            ok = ctx.memo.get(key)
            if ok is None:
                ok = ctx.memo[key] = ctx.E.derives(rule, syms, 'strictAt')
            r.count('nodes checked')
            if not ok:
                r.bad('node %s' % n.label, 'in the tree of "%s", %s over [%s] is not an instance of grammar rule %s' %
                      (text, n.label, ' '.join(syms), rule))
        # the other displays
        ie = full
        bare = trees.without_elided(full)
        for opts, model in ((['-tf'], bare), (['-t', '-ie'], trees.collapsed(ie)), (['-t'], trees.collapsed(bare))):
            where = ' '.join(opts)
            s = show(opts)
            if s is None:
                r.incon('watchdog')
                continue
            t = trees.read_tree(s)
            if t.shape() != model.shape():
                r.bad('display ' + where, '%s and -tf -ie show different structures for "%s"' % (where, text))
        disp = trees.unit_display(us)
        for opts, model in (([], trees.collapsed(bare)), (['-ie'], trees.collapsed(ie))):
            where = ' '.join(opts) or 'default'
            s = show(opts)
            if s is None:
                r.incon('watchdog')
                continue
            b = trees.read_brackets(s)
            x = [expected_brackets(model, disp, [0])]
            if b != x and b == [expected_brackets(model, trees.unit_display(us, False), [0])]:
                r.bad('pei nai bracketed as pei', 'the bracketed display (%s) of "%s" has no nai after pei' % (where, text))
            elif b != x:
                r.bad('display ' + where, 'the bracketed display (%s) of "%s" does not match its tree:\n%s\nexpected %s' % (where, text, s, x))
    except trees.Bad as ex:
        r.bad('display ' + where, '%s for "%s": %s' % (where, text, ex))
    return r
