"""P05: layout and spelling variants never change how a text is read."""
import os, re
import jb, trees, prep, morfo
from harness import Result
PROP = 'P05'
VARIANTS = ['plain']
COUNTS = {'quick': 15000, 'thorough': 250000}
RULE = ('one case = a text (grammatical, or a soup of words) written one word after another, and two more layouts of it: other separators (runs of spaces, tabs, line ends, '
        'periods, comments also nested), words written together where they come apart again by the rules of morphology, digits for number words, syllable commas in brivla, ":" for pi\'e, given as a file; '
        'the trees (and another display) must be the same byte for byte, the parser must take every word at the line and column where it was put (-d), and words that are no Lojban, put in '
        'at random, must be reported there; distinct by text')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()
    morfo.load()


DIG = {'no': '0', 'pa': '1', 're': '2', 'ci': '3', 'vo': '4', 'mu': '5', 'xa': '6', 'ze': '7', 'bi': '8', 'so': '9'}


def gen(ctx, rng, i):
    if i % 8 == 0:
        ws = prep.soup(rng, rng.choice([3, 8, 20]), rng.random() < .5)
    else:
        toks = trees.accepted_toks(rng, ctx.E, maxlen=50)
        if rng.random() < .3:       # more numbers
            toks = trees.accepted_toks(rng, ctx.E, maxlen=50)
        us = trees.units(rng, toks, rng.choice([0, 0, .2]))
        ws = [w.strip('.') for t, w0, pre, post in us for w in pre + w0 + post]
    v = [layout(rng, ws), layout(rng, ws)]
    bad = list(ws)                   # and one with words that are no Lojban, each reported where it stands
    z = state = 0
    for k in range(len(ws), 0, -1):
        if rng.random() < .2 or k == len(ws) and ws and rng.random() < .5:
            bad.insert(k, rng.choice(['brzda', 'mimkxa', 'zgkba', 'prtku']))
    lay = layout(rng, bad)
    return {'ws': ws, 'v': [x[0] for x in v], 'at': [x[1] for x in v], 'bad': [bad, lay[0], lay[1]], 'opt': rng.choice([['-x'], ['-H'], ['-l'], ['-re', '-tf'], ['-k', '-tf'], []])}


def comment(rng):
    return '(' + rng.choice(['', 'x', 'mi klama', '\n', ' . ', '123', "zoi gy", '(in)', 'a (b (c)) d', "'", '\xe9', ':', 'a\n\n b']) + ')'


def sep(rng, mode):
    if mode == 'nl':
        return '\n'
    if mode == 'plain':
        return rng.choice([' ', '\n', '\t', '.'])
    s = ''
    for _ in range(rng.choice([1, 1, 2, 3])):
        s += rng.choice([' ', ' ', '\n', '\t', '.', '. ', ' .', '>', comment(rng) if mode == 'all' else '  '])
    if rng.random() < .002:
        s += rng.choice(['\n', ' ', '.']) * 3000
    return s


def layout(rng, ws):
    mode = rng.choice(['nl', 'plain', 'all', 'all', 'all', 'wide'])
    join = rng.choice([0, .3, .8, 1])
    dig = rng.choice([0, 0, .5, 1])
    com = rng.choice([0, 0, .5])
    parts = []                       # (what is written, needs a separator before, after, where its words begin)
    i = 0
    z = None                         # inside zoi: its delimiter
    state = 0
    while i < len(ws):
        w = ws[i]
        i += 1
        if state == 1:
            z, state = w, 2
            parts.append([w, True, True, [0]])
            continue
        if state == 2:
            if w == z:
                state = 0
            parts.append([w, True, None, [0]])        # a digit right behind the delimiter would belong to it
            continue
        if w in ('zoi', "la'o"):
            state = 1
            parts.append([w, True, True, [0]])
            continue
        if w in DIG and rng.random() < dig:
            parts.append([DIG[w], False, False, [0]])
            continue
        if w == "pi'e" and rng.random() < dig:
            parts.append([':', False, False, [0]])
            continue
        got = morfo.pieces(w)
        offs = [0]
        while i < len(ws) and rng.random() < join and ws[i] not in ('zoi', "la'o") and len(w) < 200:
            nxt = morfo.pieces(ws[i])
            both = morfo.pieces(w + ws[i])
            if not isinstance(got, list) or not isinstance(nxt, list) or not isinstance(both, list):
                break
            if [x[:2] for x in both] != [x[:2] for x in got + nxt]:
                break
            if len(w + ws[i]) > 3 and (w + ws[i]) in ('zoi', "la'o"):
                break
            offs.append(len(w))
            w, got = w + ws[i], both
            i += 1
        if com and len(w) > 4 and rng.random() < com and isinstance(got, list) and len(got) == 1 and got[0][0] == 'BRIVLA':
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(1, len(w))
                w = w[:k] + ',' + w[k:]
        parts.append([w, True, True, offs])
    s = sep(rng, mode) if rng.random() < .2 else ''
    at = []                          # line and column of every word
    for k, (w, a, b, offs) in enumerate(parts):
        if k and (parts[k - 1][2] and a or parts[k - 1][2] is None or rng.random() < .5):
            s += sep(rng, mode)
        ln, cl = s.count('\n') + 1, len(s) - (s.rfind('\n') + 1) + 1
        at += [[ln, cl + o] for o in offs]
        s += w
    return s + rng.choice(['', '\n', ' ', '.', '\n\n', comment(rng)]), at


def shifted(o):
    """where the words (or groups of words) stand that the parser took, one after another (-d)"""
    return [(int(a), int(b)) for a, b in re.findall(rb'^Shifting token [A-Za-z_]+ \((\d+)\.(\d+): \)', o, re.M)]


def norm(o, opts):
    """line ends of the text are kept in the glossed displays; words show their syllable commas"""
    o = o.replace(b',', b'')
    if not opts:
        return re.findall(rb'[][(){}<>]|[^][(){}<>\s]+', o)
    if opts[0] in ('-x', '-H', '-l'):
        o = re.sub(rb'\\vspace\{[0-9.]+ex\}|\\\\(?=\s)|<BR>|<P>', b' ', o)
        return b''.join(o.split())
    return o


def judge(ctx, c):
    r = Result()
    J = ctx.J
    base = ' '.join(c['ws'])
    opts = ['-tf', '-ie']
    want = [J.jbofihe(base.encode('latin1'), *o) for o in (opts, c['opt'])]
    if any(x[0] == -9999 for x in want):
        r.incon('timeout')
        return r
    r.nontrivial = c['ws']
    r.count('texts')
    r.count('texts accepted', int(want[0][0] == 0))
    for n, v in enumerate(c['v']):
        for o, w in zip((opts, c['opt']), want):
            if n == 1:
                f = os.path.join(ctx.tmp, 'text')
                with open(f, 'wb') as fh:
                    fh.write(v.encode('latin1'))
                x = J.jbofihe(b'', *(o + [f]))
            else:
                x = J.jbofihe(v.encode('latin1'), *o)
            if x[0] == -9999:
                r.incon('timeout')
                return r
            r.count('layouts compared')
            if x[0] != w[0] or norm(x[1], o) != norm(w[1], o):
                what = 'exit status %d instead of %d' % (x[0], w[0]) if x[0] != w[0] else 'a different display'
                r.bad('layout', '%r gives %s with %s than %r: %s' % (v[:500], what, ' '.join(o), base, x[2][:120]))
                return r
    bad, txt, at = c['bad']
    x = J.jbofihe(txt.encode('latin1'))
    if x[0] == -9999:
        r.incon('timeout')
        return r
    if len(bad) > len(c['ws']) and 'zoi' not in bad and "la'o" not in bad:
        want = [(w, a, b) for w, (a, b) in zip(bad, at) if w in ('brzda', 'mimkxa', 'zgkba', 'prtku')]
        got = [(w.decode(), int(a), int(b)) for w, a, b in re.findall(rb"Unrecognizable word '([a-z]*)' at line (\d+) column (\d+)", x[2])]
        r.count('bad words placed', len(want))
        if got != want:
            r.bad('place', 'the words that are no Lojban in %r are reported as %s' % (txt[:500], [g for g in got if g not in want][:3] or 'fewer'))
            return r
    if len(base) < 300 and sum(map(ord, base)) % 4 == 0:
        col, atb = 1, {}
        for k, w in enumerate(c['ws']):
            atb[1, col] = k
            col += len(w) + 1
        d = J.jbofihe(base.encode('latin1'), '-d')
        s1 = [atb.get(q) for q in shifted(d[2] + b'\n' + d[1])]
        for v, at in zip(c['v'], c['at']):
            d = J.jbofihe(v.encode('latin1'), '-d')
            atv = {tuple(q): k for k, q in enumerate(at)}
            s2 = shifted(d[2] + b'\n' + d[1])
            r.count('words placed', len(s2))
            if len(s1) == len(s2) and len(v) < 20000:
                for a, q in zip(s1, s2):
                    if a is not None and a != atv.get(q):
                        r.bad('place', '%r: the word %r is said to stand at line %d column %d' % ((v[:500], c['ws'][a]) + q))
                        return r
    return r
