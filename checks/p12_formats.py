"""P12: all output formats carry the same words, glosses, tags and nesting."""
import os, re
import jb, trees, fmt, workload, bridi
from harness import Result
PROP = 'P12'
VARIANTS = ['plain']
COUNTS = {'quick': 6000, 'thorough': 100000}
RULE = ('one case = an accepted text derived from the grammar (indicators, quotations with hostile characters, elided terminators shown or not), a dictionary '
        '(the supplied one, a part of it, or one whose glosses hold markup characters), shown in all five formats; the HTML is read into an event list, checked against '
        'the words and the tree, and followed through the other four outputs; non-trivial when accepted; distinct by class sequence')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()
    ctx.S = workload.read_dict(ctx.J.dict)
    ctx.bri = sorted({k[:-1] for k in ctx.S if re.fullmatch(r'[a-z]{5}1', k)})


HOST = ['a&b', '<b>', 'x_y', 'x^y', '#1', '50%', '{a', 'b}', '{}', '&amp;', '<', '>', '$5', '\\x', '\\', '$', '"', "''", '[a]', '/x/', '|', '(x', 'a)', '&', '%d', '%s', '~', '^', ':]', '-->', '</B>']
GL = ['x&y', 'a<b', 'x>y', 'p_q', '#9', '9%', '{z}', '^', '[k]', '(m)', '&lt;', '%n', '/', ':]', 'a##b', '&&', '__', '<<', '%%', '{{}}', '^^']


CHARS = list('&<_^#%{}$\\~"\'[]|/-@*?!;=+`xab')


def hostile(rng, some):
    if rng.random() < .5:
        return rng.choice(some)
    a = rng.sample(CHARS, rng.choice([1, 2, 3, 8]))
    return ''.join(rng.choice(a) for _ in range(rng.choice([1, 2, 2, 3, 4, 9])))


def gen(ctx, rng, i):
    if rng.random() < .3:
        ws = tags_text(ctx, rng)
        c = {'toks': ws, 'zoi': [], 'text': ''.join(w + ('\n' if rng.random() < .05 else ' ') for w in ws).strip()}
        us = [('', [w], [], []) for w in ws]
    else:
        toks = trees.accepted_toks(rng, ctx.E, maxlen=rng.choice([20, 40, 60]))
        if rng.random() < .25:
            toks = toks + rng.choice([['I', 'ZOIq', 'BRIVLA'], ['I', 'KOhA', 'BRIVLA', 'ZOIq'], ['NIhO', 'ZOIq']])
        us = trees.units(rng, toks, rng.choice([0, 0, .1, .4]))
        for u in us:
            if u[0] == 'ZOIq' and rng.random() < .7:
                u[1][2:-1] = [hostile(rng, HOST) for _ in range(rng.randint(1, 4))]
        zoi = [' '.join(u[1]) for u in us if u[0] == 'ZOIq']
        c = {'toks': toks, 'zoi': zoi, 'text': trees.unit_text(rng, us, 0 if zoi else rng.choice([0, 0, .1, .4]))}
    c['ie'], c['w'] = rng.random() < .3, rng.choice([120, 120, 40, 80, 200, 1000])
    m = rng.random()
    if m < .15:
        c['drop'] = rng.randrange(1 << 30)
    elif m < .5:
        c['d'] = hostile_dict(ctx, rng, us)
    return c


def uncomment(s):
    """text in parentheses is a comment, inside quotations too"""
    out, d = '', 0
    for ch in s:
        if ch == '(':
            d += 1
        elif d and ch == ')':
            d -= 1
            ch = ' '
        if d == 0:
            out += ch
        elif d == 1 and ch == '(':
            out += ' '
    return out


def tags_text(ctx, rng):
    g = bridi.Gen(rng, rng.choice([10, 20, 35]), rng.sample(ctx.bri, 8))
    g.text()
    return [x for w in g.words for x in w.split()]


def hostile_dict(ctx, rng, us):
    d = {}
    ws = {w.strip('.') for u in us for w in u[1] + u[2] + u[3]}
    for w in sorted(ws):
        for k in (w, w + '1', w + '2', w + '3', w + '1t', w + '1v', w + '1n', w + '1q', w + '@TERM'):
            if k in ctx.S or rng.random() < .3:
                if rng.random() < .7:
                    g = ' '.join(rng.choice(GL + ['a', 'go', 'x']) for _ in range(rng.choice([1, 1, 2, 3])))
                    d[k] = (rng.choice(['D;', 'A;', 'S;', 'P;', 'R;', 'I;', '']) if k[-1] in '123' and len(k) > len(w) else '') + g
    return d


CLS = {'tri': ('MAIN_SELBRI', 'METALINGUISTIC_MAIN_SELBRI'), 'square': ('SENTENCE', 'FRAGMENT'), 'angle': ('RELATIVE_CLAUSE', 'ABSTRACTION')}


def letters(s):
    return re.sub(r"[^a-z'0-9]", '', s.lower())


def judge(ctx, c):
    r = Result()
    J, t = ctx.J, c['text']
    f = J.dict
    if 'drop' in c:
        import random
        rng = random.Random(c['drop'])
        f = os.path.join(ctx.tmp, 'd.dat')
        p = rng.choice([.1, .5, .9])
        workload.write_dict(f, {k: v for k, v in ctx.S.items() if rng.random() > p})
    elif 'd' in c:
        f = os.path.join(ctx.tmp, 'd.dat')
        workload.write_dict(f, {**{k: v for k, v in ctx.S.items() if not re.match(r"[a-z']+", k)}, **c['d']})
    env = jb.base_env(f)
    ie = ['-ie'] if c['ie'] else []

    def show(*o):
        rc, out, e = jb.run(os.path.join(J.d, 'jbofihe'), list(o) + ie, t, env, timeout=60)
        return rc, out.decode('latin1')
    rc, h = show('-H')
    if rc:
        r.count('not accepted')
        if rc not in (1, 2, 3):
            r.incon('abnormal exit')
        return r
    r.nontrivial = c['toks']
    kinds = {}
    outs = {}
    for o in (['-l'], ['-x'], ['-l', '-b'], ['-x', '-b', '-w', str(c['w'])], ['-tf']):
        rc, s = show(*o)
        if rc == -9999:
            r.incon('watchdog')
            return r
        if rc:
            r.bad('exit', '%s exits %d where -H exits 0 for "%s"' % (' '.join(o), rc, t))
            return r
        outs[' '.join(o[:2])] = s
    where = '-H'
    try:
        ev = fmt.read_html(h)
        r.count('words', sum(e[0] == 'W' for e in ev))
        r.count('glosses', sum(e[0] in 'GS' for e in ev))
        r.count('tags', sum(len(e[1]) for e in ev if e[0] == 'T'))
        r.count('brackets', sum(e[0] == 'O' for e in ev))
        where = '-l'
        fmt.balanced_tex(fmt.body_latex(outs['-l']))
        fmt.follow_latex(outs['-l'], ev, kinds)
        where = '-x'
        fmt.follow_text(outs['-x'], ev, kinds)
        where = '-l -b'
        fmt.balanced_tex(fmt.body_latex(outs['-l -b']))
        fmt.follow_latex_block(outs['-l -b'], ev, kinds)
        where = '-x -b'
        fmt.follow_block(outs['-x -b'], ev, kinds)
        # against the tree
        where = 'tree'
        tree = trees.read_tree(outs['-tf'])
    except (fmt.Bad, trees.Bad) as ex:
        r.bad('format ' + where, '%s display of "%s": %s' % (where, t, ex))
        return r
    pos, spans, st, words = 0, {}, [], ''
    for e in ev:
        if e[0] == 'W':
            x = letters(e[1])
            words += x
            pos += len(x)
        elif e[0] == 'O':
            st.append(pos)
        elif e[0] == 'C':
            spans.setdefault(kinds[e[2]], []).append((e[2], st.pop(), pos))
    plain = lambda s: ' '.join(x for x in re.split('[ >.\n]+', s) if x)
    got = [plain(e[1]) for e in ev if e[0] == 'W' and re.match("(zoi|la'o) ", e[1])]
    want = [plain(uncomment(z)) for z in c['zoi']]
    if got != want:
        r.bad('quotations', 'the quotations of "%s" are displayed as %s' % (t, got))
        return r
    r.count('quotations compared', len(want))
    zoi = iter(map(uncomment, c['zoi']))
    ll = {}
    for n in tree.leaves():
        ll[id(n)] = letters({'ZO': 'zo %s', 'LOhU': "lo'u %s le'u", 'BU': '%s bu', 'ZOI': '%s'}.get(n.kind, '%s') % (next(zoi, '?') if n.kind == 'ZOI' else n.text))
    lv = ''.join(ll[id(n)] for n in tree.leaves())
    if words != lv:
        r.bad('words', 'the words displayed for "%s" are not those of its tree: %s, %s' % (t, words, lv))
        return r
    nodes, allspans = [], set()

    def walk(n, p):
        if n.leaf():
            return p + len(ll[id(n)])
        k = len(nodes)
        nodes.append(None)
        q = p
        for x in n.kids:
            q = walk(x, q)
        nodes[k] = (n.label, p, q)
        allspans.add((p, q))
        return q
    walk(tree, 0)
    for kind, labels in CLS.items():
        got = [x[1:] for x in sorted(spans.get(kind, []))]
        want = [(p, q) for l, p, q in nodes if l in labels]
        if got != want:
            r.bad('groups', 'the %s brackets of "%s" stand around %s, the tree has %s of %s' % (kind, t, got, want, '/'.join(labels)))
            return r
        r.count('groups checked', len(want))
    rounds = {x[1:] for x in spans.get('round', [])}
    for l, p, q in nodes:
        if l in ('TERM', 'FREE') and (p, q) not in rounds:
            r.bad('groups', 'a %s of "%s" has no round brackets' % (l, t))
            return r
    return r
