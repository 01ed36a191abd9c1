"""P22: texts joined or wrapped are shown as the composition of their parts."""
import os, re
import jb, trees, fmt, workload, bridi
from harness import Result
PROP = 'P22'
VARIANTS = ['plain']
COUNTS = {'quick': 8000, 'thorough': 100000}
RULE = ('one case = parts (texts derived from the grammar, or with a known argument structure) that jbofihe accepts alone, joined with .i and ni\'o (2 to 12 of them, now and then '
        'hundreds or thousands), or one part wrapped in lu...li\'u or to...toi (up to 400 deep); the words, brackets, tags and glosses of each part must stand unchanged, bracket '
        'numbers shifted, in those of the whole, and small trees must contain the parts\' statements unchanged; distinct by text')
WRAP = [('lu', "li'u"), ("mi cusku lu", "li'u fo do"), ('xu da la\'e lu', "li'u cu broda i mi klama"), ("le nu lu", "li'u melbi cu se djica"), ('to', 'toi'), ("mi to'i", 'toi klama'), ('ta klama to', 'toi fo da'),
        ("se to", "toi broda mi"), ("li pa boi to", "toi vu'u re"),
        ("tu'e", "tu'u"), ("xu ku'i tu'e", "tu'u .i do klama")]
BAD = {"li'u", 'toi', "tu'u"}


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()
    ctx.S = workload.read_dict(ctx.J.dict)
    ctx.bri = sorted({k[:-1] for k in ctx.S if re.fullmatch(r'[a-z]{5}1', k)})


def part(ctx, rng):
    if rng.random() < .4:
        g = bridi.Gen(rng, rng.choice([3, 6, 10]), rng.sample(ctx.bri, 6))
        return g.text()
    toks = trees.accepted_toks(rng, ctx.E, maxlen=rng.choice([15, 30, 50]))
    us = trees.units(rng, toks, rng.choice([0, 0, .1, .3]))
    return trees.unit_text(rng, us)


def gen(ctx, rng, i):
    c = {}
    if i % 200 == 7 or i % 200 != 11 and rng.random() < .6:
        n = rng.choice([200, 1000, 6000]) if i % 200 == 7 else rng.choice([2, 2, 3, 4, 6, 12])
        c['parts'] = [part(ctx, rng) for _ in range(min(n, 12))]
        c['order'] = [k if n <= 12 else rng.randrange(12) for k in range(n)]
        c['joins'] = [rng.choice(['.i', '.i', 'i', "ni'o", ".i", "\n.i", "ni'o ni'o", "i\n"] if n <= 12 or rng.random() < .01 else ['.i']) for _ in range(n)]
    else:
        c['parts'] = [part(ctx, rng)]
        d = rng.choice([30, 100, 400]) if i % 200 == 11 else rng.choice([1, 1, 1, 2, 3, 5])
        c['wrap'] = [rng.randrange(len(WRAP)) for _ in range(d)] if d < 30 else [rng.choice([0, 4, 9]) for _ in range(d)]
    c['ie'] = rng.random() < .4
    return c


def shift(ev, k):
    out = []

    def num(m):
        return '#%d' % (int(m.group(1)) + k if int(m.group(1)) else 0)
    for e in ev:
        if e[0] in 'OC':
            out.append([e[0], e[1], e[2] + k])
        elif e[0] == 'T':
            out.append(['T', [re.sub(r'#(\d+)', num, t) for t in e[1]]])
        elif e[0] == 'G' and e[1].startswith('it #'):       # ke'a is glossed by the number of the bracket it stands for
            out.append(['G', re.sub(r'#(\d+)$', num, e[1])])
        else:
            out.append(e)
    return out


def first_number(ev):
    return next((e[2] for e in ev if e[0] == 'O'), None)


def plain_paragraphs(tree):
    """the statements of a text that is paragraphs with nothing before or after, with the elided marks; None if it is not that"""
    t = tree
    while not t.leaf() and t.label in ('CHUNKS', 'TEXT', 'TEXT_1', 'TEXT_0') and len(t.kids) == 1:
        t = t.kids[0]
    if t.leaf() or t.label not in ('PARAGRAPHS',):
        return None
    out = []

    def walk(n):
        if not n.leaf() and n.label in ('PARAGRAPHS', 'PARAGRAPH'):
            for k in n.kids:
                walk(k)
        else:
            out.append(n)
    walk(t)
    return out


def joint(n):
    return not n.leaf() and {x.cls for x in n.leaves()} <= {'I', 'NIhO'} or n.leaf() and n.cls in ('I', 'NIhO')


def judge(ctx, c):
    r = Result()
    J = ctx.J
    ie = ['-ie'] if c['ie'] else []

    def show(t, *o):
        rc, out, e = jb.run(os.path.join(J.d, 'jbofihe'), list(o), t, J.env, timeout=120)
        if rc == -9999:
            r.incon('watchdog')
        return rc, out.decode('latin1')

    def events(t):
        rc, o = show(t, '-H', *ie)
        if rc:
            return rc, None
        try:
            return 0, fmt.read_html(o)
        except fmt.Bad:
            return 0, None
    P = []
    for t in c['parts']:
        rc, o = show(t, '-tf', '-ie')
        if rc:
            r.count('part not accepted')
            P.append(None)
            continue
        try:
            tree = trees.read_tree(o)
        except trees.Bad:
            r.count('tree not readable')
            P.append(None)
            continue
        open_ = {n.text.lower() for n in tree.leaves() if n.elided()} & BAD
        st = plain_paragraphs(tree)
        if 'wrap' in c:
            ok = (not open_ and st if max(c['wrap']) >= 9 else not open_ & {"li'u", 'toi'}) and not any(n.cls == 'FAhO' for n in tree.leaves()) and "fa'o" not in t
        else:
            ok = not open_ and st is not None and st and not (joint(st[-1]) or joint(st[0])) and "fa'o" not in t
        if not ok:
            r.count('part of a kind that is not joined')
            P.append(None)
            continue
        rc, ev = events(t)
        if ev is None:
            r.count('display not readable')
            P.append(None)
            continue
        P.append((t, st, ev, tree))
    if r.inconclusive:
        return r
    if 'wrap' in c:
        if P[0] is None:
            return r
        t, st, ev, tree = P[0]
        inner, d, ti = ev, 0, t
        levels = len(c['wrap'])
        for k, w in enumerate(c['wrap']):
            a, b = WRAP[w]
            ti = '%s %s %s' % (a, ti, b)
            if levels > 6 and k + 1 < levels:
                continue
            d = k + 1 if levels <= 6 else levels
            rc, whole = events(ti)
            if rc:
                if rc == -9999:
                    return r
                r.bad('wrap', '"%s" is accepted but not inside %s: exit %d' % (t[:300], ' '.join('%s...%s' % WRAP[x] for x in c['wrap'][:d][:6]), rc))
                return r
            if whole is None:
                r.count('display not readable')
                return r
            n = len(inner)
            nw = sum(len(WRAP[x][0].split()) for x in (c['wrap'][k:k + 1] if levels <= 6 else c['wrap']))
            # the part begins after the words before it
            j = seen = 0
            while j < len(whole) and seen < nw:
                seen += whole[j][0] == 'W' and whole[j][1] == whole[j][1].lower()    # elided words are in capitals
                j += 1
            ok = False
            while j < len(whole):
                if match(whole, j, inner):
                    ok = True
                    break
                if whole[j][0] == 'W':
                    break
                j += 1
            if not ok:
                r.bad('wrap', '"%s" is not shown the same inside %s' % (t[:300], ' '.join('%s...%s' % WRAP[x] for x in c['wrap'][:d][-6:])))
                return r
            r.count('wrapped')
            inner = whole
        r.nontrivial = ti
        r.count('words wrapped', sum(e[0] == 'W' for e in inner))
        return r
    order = [k for k in c['order'] if P[k]]
    if len(order) < 2:
        return r
    joins = c['joins'][:len(order) - 1]
    text = P[order[0]][0]
    for k, j in zip(order[1:], joins):
        text += ' %s %s' % (j, P[k][0])
    name = ' | '.join(P[k][0] for k in order[:12])[:500]
    rc, whole = events(text)
    if rc:
        if rc != -9999:
            r.bad('join', 'these texts are accepted but not joined with %s: exit %d: %s' % (joins[:12], rc, name))
        return r
    if whole is None:
        r.count('display not readable')
        return r
    r.nontrivial = text
    r.count('parts joined', len(order))
    if len(order) > 100:
        r.count('texts of over 100 parts')
    p = num = 0
    for i, k in enumerate(order):
        if i:
            # the words of the join and their glosses
            for w in joins[i - 1].split():
                e = whole[p] if p < len(whole) else ['end']
                if e[0] != 'W' or e[1].strip('.') != w.strip('.'):
                    r.bad('join', 'after part %d of these texts %s stands where the joining %s should be: %s' % (i, e, w, name))
                    return r
                p += 1
                while p < len(whole) and whole[p][0] in 'GS' :
                    p += 1
        ev = P[k][2]
        if not match(whole, p, ev):
            r.bad('join', 'part %d is not shown in the whole as alone (joined with %s): %s' % (i + 1, joins[:12], name))
            return r
        p += len(ev)
    if p != len(whole):
        r.bad('join', 'the whole shows more than its parts: %s' % name)
        return r
    if len(order) <= 4:
        rc, o = show(text, '-tf', '-ie')
        if rc:
            r.bad('tree', 'exit status %d with -tf: %s' % (rc, name))
            return r
        try:
            st = plain_paragraphs(trees.read_tree(o))
        except trees.Bad:
            return r
        got = [n.shape() for n in st or [] if not joint(n)]
        want = [n.shape() for k in order for n in P[k][1] if not joint(n)]
        if got != want:
            r.bad('tree', 'the trees of these parts are not those in the whole (joined with %s): %s' % (joins, name))
            return r
        r.count('trees')
    return r


def match(whole, p, ev):
    """ev stands at whole[p:] up to a shift of the bracket numbers"""
    if p + len(ev) > len(whole):
        return False
    w = whole[p:p + len(ev)]
    a, b = first_number(ev), first_number(w)
    if (a is None) != (b is None):
        return False
    return w == (shift(ev, b - a) if a is not None else ev)
