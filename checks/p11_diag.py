"""P11: exit status and diagnostics tell the truth about where and why a text fails."""
import os, re, tempfile, shutil, atexit
import jb, trees, grammar, workload, ygram
from harness import Result
PROP = 'P11'
VARIANTS = ['plain']
COUNTS = {'quick': 9000, 'thorough': 120000}
RULE = ('one case = a text (accepted, broken by random edits, or holding words that are no Lojban) run with a random choice of output options and dictionaries, '
        'its exit statuses compared, and every position and word class its diagnostics name checked against an independent recogniser of bnf.300; '
        'non-trivial when refused; distinct by class sequence or invalid words')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.E = jb.Earley()
    ctx.J = jb.Jbofihe('plain')
    d = tempfile.mkdtemp(prefix='p11.')
    atexit.register(shutil.rmtree, d, True)
    full = workload.read_dict(os.path.join(ctx.J.d, 'smujmaji.dat'))
    ctx.dicts = [None, '/nonexistent/dictionary']
    import random
    g = random.Random(11)
    for i, p in enumerate((0, .5)):
        f = os.path.join(d, 'd%d' % i)
        workload.write_dict(f, {k: v for k, v in full.items() if g.random() < p})
        ctx.dicts.append(f)
    ctx.JD = [jb.Jbofihe('plain', dictionary=x) for x in ctx.dicts]


CONS = 'bcdfgjklmnprstvxz'


def bad_word(rng):
    """a word that is no Lojban however it is divided"""
    r = rng.random()
    if r < .3:         # a doubled consonant is never permitted and no cmavo has two consonants
        c = rng.choice(CONS)
        return rng.choice(['bro', 'kla', 'ti', "pe'a", '']) + rng.choice('aeiou') + c + c + rng.choice('aeiou') + rng.choice(['', 'ra', 'mi'])
    if r < .5:         # letters Lojban has not
        w = rng.choice(['klama', 'mi', 'broda', 'djan'])
        k = rng.randint(0, len(w))
        return w[:k] + rng.choice('hqw#@!$%~') + w[k:]
    if r < .7:         # cmavo in form, but none that exists
        while 1:
            w = rng.choice(CONS) + rng.choice('aeiou') + "'" + rng.choice('aeiou') + "'" + rng.choice('aeiou')
            if w not in jb.CMAVO:
                return w
    if r < .85:        # b next to p and the like
        return rng.choice(['mi', 'kla', 'bro']) + rng.choice(['bp', 'kx', 'jc', 'mz', 'sz', 'cx']) + rng.choice('aeiou') + rng.choice(['ma', 'do'])
    return rng.choice(["a'", "'a", "kla''ma", "ba'", 'brodA', "bro'da", "xxa", "nx'a"])


def place(rng, words):
    """a text holding the words, and where each stands"""
    s, line, col, at = '', 1, 1, []
    nl = rng.choice([0, 0, .1, .4])
    cm = rng.choice([0, 0, 0, .1])
    far = rng.randrange(len(words)) if words and rng.random() < .006 else -1       # somewhere far down or far right
    for k, w in enumerate(words):
        sep = '' if k != far else rng.choice('\n\n ') * rng.choice([260, 33000, 66000])
        if rng.random() < cm:
            sep += '(%s)' % rng.choice(['', 'mi klama', 'a\nb', '(x) ', 'brodda 12'])
        sep += '\n' if rng.random() < nl else rng.choice([' ', ' ', ' ', '  ', '\t', '. ', ' .'])
        if not s and rng.random() < .7:
            sep = ''
        for ch in sep:
            s += ch
            line, col = (line + 1, 1) if ch == '\n' else (line, col + 1)
        at.append((line, col))
        s += w
        col += len(w)
    return s + rng.choice(['', '\n']), at


def gen(ctx, rng, i):
    toks = trees.accepted_toks(rng, ctx.E, maxlen=40)
    kind = rng.choice(['ok', 'broken', 'broken', 'broken', 'invalid'])
    if kind == 'broken':
        m = rng.random()
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.randrange(len(toks)) if toks else 0
            x = rng.random()
            if x < .35 and len(toks) > 1:
                del toks[k]
            elif x < .65:
                toks.insert(k, rng.choice(jb.PLAINSEL + ['BRIVLA']))
            elif x < .85 and toks:
                toks[k] = rng.choice(jb.PLAINSEL)
            elif x < .93:
                toks.insert(k, rng.choice(grammar.ELIDABLE))
            elif toks:
                k2 = rng.randrange(len(toks))
                toks[k], toks[k2] = toks[k2], toks[k]
        if not toks:
            toks = ['KU']
    us = trees.units(rng, toks, rng.choice([0, 0, 0, .1]))
    words, own, start = [], [], {}
    for k, (t, ws, pre, post) in enumerate(us):
        for j, w in enumerate(pre + ws + post):
            own.append(k)
            words.append(w)
    bad = []
    if kind == 'invalid':
        ok = [k for k in range(len(us)) if us[k][0] not in ('ZOIq', 'LOhUq')]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(0, len(us))
            p = own.index(k) if k < len(us) else len(words)
            if 0 < p < len(words) and (own[p - 1] == own[p] or us[own[p - 1]][0] == 'ZOIq'):
                continue
            w = bad_word(rng)
            words.insert(p, w)
            own.insert(p, -1)
        if -1 not in own:
            words.insert(0, bad_word(rng))
            own.insert(0, -1)
        # quotations would hide or break on them
        if any(u[0] in ('ZOIq',) for u in us):
            us = None
    text, at = place(rng, words)
    # a digit stands for its word, at the same place
    opts = rng.sample(OPTS, 3)
    return {'units': us, 'toks': toks, 'words': words, 'own': own, 'at': at, 'text': text, 'kind': kind,
            'runs': [[o, rng.choice([0, 0, 1, 2, 3])] for o in opts]}


OPTS = [['-x'], ['-l'], ['-H'], ['-b'], ['-l', '-b'], ['-t'], ['-tf'], ['-tf', '-ie'], ['-t', '-ie'], ['-se'], ['-sev'], ['-bt'], ['-k'], ['-m'],
        ['-x', '-w', '5'], ['-b', '-w', '200'], ['-x', '-ie'], ['-cr'], ['-dd', '-x'], ['-se', '-bt'], ['-g']]
POS = re.compile(r'^  (.*) \(line (\d+), col (\d+)\)$')
GIHEK = re.compile(r'Missing selbri before GIhA at line (\d+) column (\d+)$')
NAMES = {'BU': 'BUw', 'ZEI': 'ZEIw', 'ZO': 'ZOq', 'LOhU': 'LOhUq', 'ZOI': 'ZOIq'}

# (na .e, se ja, ga'o bi'o, mo'i fa'a, pu gi, joi gi ...)
STARTERS = set('NA SE NAhE GAhO MOhI FEhE JOI BIhI JA A GIhA PU FAhA ZI VA ZEhA VEhA VIhA ZAhO CAhA CUhE KI BAI TAhE ROI PA BY NAI LAU TEI FOI BUw FIhO'.split())


def errors(e):
    """[(misparsed (text,line,col)|None for the end, [(text,line,col) latest first])]"""
    out = []
    L = e.split('\n')
    i = 0
    while i < len(L):
        g = GIHEK.match(L[i])
        if g:
            out.append((('GIhA', int(g.group(1)), int(g.group(2))), []))
        elif L[i] == 'SYNTAX ERROR IN TEXT':
            assert L[i - 1].startswith('----') and L[i + 1].startswith('----')
            if L[i + 2] != 'Misparsed token :':
                raise trees.Bad('no misparsed token')
            i += 3
            mis = False
            while L[i] != 'Latest successfully parsed tokens :':
                m = POS.match(L[i])
                if L[i] == '  <End of text>':
                    mis = None
                elif m:
                    mis = (m.group(1), int(m.group(2)), int(m.group(3)))
                elif not L[i].startswith('  MARKER : '):
                    raise trees.Bad('odd line %r' % L[i])
                i += 1
            if mis is False:
                raise trees.Bad('the misparsed word is not named')
            i += 1
            last = []
            while not L[i].startswith('----'):
                m = POS.match(L[i])
                if m:
                    last.append((m.group(1), int(m.group(2)), int(m.group(3))))
                elif not L[i].startswith('  MARKER : '):
                    raise trees.Bad('odd line %r' % L[i])
                i += 1
            out.append((mis, last))
        i += 1
    return out


def shown(u):
    t, ws = u[0], [w.strip('.') for w in u[1]]
    if t == 'ZOIq':
        return '%s %s. %s %s.' % (ws[0], ws[1], ' '.join(u[1][2:-1]), ws[-1])
    if t == 'BRIVLA':
        return ws[0] + ' [BRIVLA]'
    if t == 'CMENE':
        return ws[0] + ' [CMENE]'
    if t in ('ZOq', 'LOhUq', 'BUw', 'ZEIw'):
        return ' '.join(ws)
    return '%s [%s]' % (ws[0], jb.CMAVO[ws[0]][1].replace('SSM_', ''))


def position(ctx, c, r, e, gram, what):
    """checks the first error report; gram: the grammars in which a prefix counts"""
    us, toks, E = c['units'], c['toks'], ctx.E
    es = errors(e)
    if not es:
        r.bad('refused without a reason', '"%s" is refused%s without an error report: %r' % (c['text'], what, e[:200]))
        return None
    mis, last = es[0]
    first = {}
    for w, k in enumerate(c['own']):
        first.setdefault(k, w)
    at = {}
    for k, u in enumerate(us):
        w = first[k] + len(u[2])          # the word itself, after any ba'e
        at[tuple(c['at'][w])] = k
    if mis is None:
        k = len(us)
    else:
        k = at.get(mis[1:])
        # X bu is placed where X or bu stands
        if k is None:
            for j, p in enumerate(c['at']):
                if tuple(p) == mis[1:] and c['own'][j] >= 0 and us[c['own'][j]][0] in ('BUw', 'ZEIw', 'ZOq'):
                    k = c['own'][j]
        if k is None or (shown(us[k]) != mis[0] if mis[0] != 'GIhA' else not (toks[k:k + 3] + ['', 'GIhA']).index('GIhA') < 3):
            r.bad('error at no word', 'the error in "%s"%s is reported at %r' % (c['text'], what, mis))
            return None
    # the words before it
    prev = [shown(us[j]) for j in range(k - 1, -1, -1)][:len(last)]
    if [x[0] for x in last] != prev:
        r.bad('wrong words before', 'the words before the error in "%s"%s are shown as %r' % (c['text'], what, last))
    for x in last:
        if x[1:] not in [tuple(p) for p in c['at']]:
            r.bad('wrong position', '%r shown before the error in "%s"%s stands elsewhere' % (x, c['text'], what))
    if k and not any(E.viable(toks[:k], g) is not None for g in gram):
        r.bad('error reported too late', 'no text begins "%s", yet the error in "%s"%s is reported only at the next word %s' % (
            ' '.join(toks[:k]), c['text'], what, mis))
    if k < len(us):
        n = grammar.lookahead(toks)[k]
        while k + n <= len(us) and (toks[k] in STARTERS or toks[k] == 'I') and toks[k + n - 1] in STARTERS | {'I'}:
            n += 1                            # words that are joined to what follows before the grammar sees them
        if k + n > len(us):
            r.count('early enough: no verdict (unfinished unit)')
            return k
        v = [E.viable(toks[:k + n], g) is not None for g in gram]
        if all(v):
            if gram[0] == 'strict' and E.viable_sure(toks[:k + n]):
                r.bad('error reported too early', 'a text can begin "%s", yet the error in "%s"%s is reported at %s' % (
                    ' '.join(toks[:k + n]), c['text'], what, mis))
            else:
                r.count('early enough: no verdict (elision)')
        elif not any(v):
            r.count('error position exact')
    else:
        if all(E.accepts(toks, g)[0] for g in gram) and gram[0] == 'strict' and E.accepts_sure(toks):
            r.bad('error reported at the end of a complete text', '"%s"%s' % (c['text'], what))
        r.count('error at end of text')
    return k


def judge(ctx, c):
    r = Result()
    text = c['text']
    rc, o, e = ctx.J.jbofihe(text, timeout=60)
    e = e.decode('latin1')
    if rc not in (0, 1, 2, 3):
        r.incon('abnormal exit')
        return r
    r.count('status %d' % rc)
    if c['kind'] == 'invalid':
        judge_invalid(ctx, c, r, rc, o, e)
    elif rc == 3:
        r.bad('valid words refused', '"%s" has only valid words but exits 3: %s' % (text, e[:200]))
    if rc == 0 and 'SYNTAX ERROR' in e:
        r.bad('error but status 0', '"%s" reports a syntax error but exits 0' % text)
    if rc != 0:
        r.nontrivial = [c['toks'], c['kind'] == 'invalid' and text]
        if o.strip():
            r.bad('output for a refused text', '"%s" exits %d but prints %r' % (text, rc, o[:100]))
    for opts, d in c['runs']:
        rc2, o2, e2 = ctx.JD[d].jbofihe(text, *opts, timeout=60)
        if rc2 == -9999:
            r.incon('watchdog')
            continue
        r.count('status compared')
        if rc2 != rc:
            r.bad('status depends on options', '"%s" exits %d, but %d with %s and dictionary %s' % (
                text, rc, rc2, ' '.join(opts), ['as supplied', 'missing', 'empty', 'halved'][d]))
        if rc != 0 and o2.strip() and not {'-k', '-se', '-sev', '-m'} & set(opts):
            r.bad('output for a refused text', '"%s" exits %d with %s but prints %r' % (text, rc, ' '.join(opts), o2[:100]))
        if rc in (1, 2) and c['kind'] != 'invalid':
            try:
                a, b = errors(e), errors(e2.decode('latin1'))
            except trees.Bad as x:
                r.bad('unreadable report', '%s in the report on "%s" with %s' % (x, text, ' '.join(opts)))
                continue
            if a[:1] != b[:1]:
                r.bad('report depends on options', 'the error in "%s" is reported as %r, with %s as %r' % (text, a[:1], ' '.join(opts), b[:1]))
    if c['kind'] == 'invalid':
        return r
    try:
        if rc in (1, 2):
            position(ctx, c, r, e, ['loose', 'looseJ'], '')
        rc3, o3, e3 = ctx.J.jbofihe(text, '-re', timeout=60)
        if rc3 in (1, 2):
            position(ctx, c, r, e3.decode('latin1'), ['strict', 'strictJ'], ' with -re')
        elif rc3 == 3:
            r.bad('status depends on options', '"%s" exits 3 with -re, %d without' % (text, rc))
        elif rc3 == 0 and rc != 0:
            r.bad('accepted only with -re', '"%s" is accepted with -re, but exits %d without' % (text, rc))
        for opt, g in ((['-bt'], ['loose', 'looseJ']), (['-bt', '-re'], ['strict', 'strictJ'])):
            rc4, o4, e4 = ctx.J.jbofihe(text, *opt, timeout=60)
            if rc4 in (1, 2):
                backtrace(ctx, c, r, e4.decode('latin1'), g, ' '.join(opt))
        if rc == 0:
            warnings(ctx, c, r, e)
    except trees.Bad as x:
        r.bad('unreadable report', '%s in the report on "%s"' % (x, text))
    return r


def backtrace(ctx, c, r, e, gram, opt):
    i = e.find('SYNTAX ERROR IN TEXT')
    j = e.find('SYNTAX ERROR IN TEXT', i + 5)
    part = e[i:j] if j > 0 else e[i:]
    mis, last = errors(e)[0]
    us = c['units']
    if mis is None:
        k = len(us)
    else:
        k = None
        for n, p in enumerate(c['at']):
            if tuple(p) == mis[1:]:
                k = c['own'][n]
        if k is None:
            return
    if mis and mis[0] == 'GIhA':
        return
    ms = re.findall(r'Next word class could be :([^\n)]*)', part)
    if not ms:
        r.bad('no backtrace', '%s shows no possible continuation for "%s"' % (opt, c['text']))
        return
    # the lexical unit begun before the error may be in progress: words up to the reported one count
    ok = set()
    for g in gram:
        v = ctx.E.viable(c['toks'][:k], g)
        if v:
            ok |= v
    for m in ms:
        for t in m.split():
            t = NAMES.get(t, t)
            if t in ('error', '$', '$end', 'IMPOSSIBLE_TOKEN'):
                continue
            r.count('continuations checked')
            if t not in ok:
                r.bad('impossible continuation', '%s says %s could follow "%s" in "%s", which no text does' % (
                    opt, t, ' '.join(c['toks'][:k]), c['text']))


WARN = re.compile(r'Warning: Sentence may be missing selbri at line (\d+) column (\d+)\?')


def warnings(ctx, c, r, e):
    if any(u[2] or u[3] for u in c['units']):
        return
    rc, o, e2 = ctx.J.jbofihe(c['text'], '-tf', '-ie', timeout=60)
    if rc != 0:
        return
    t = trees.read_tree(o.decode('latin1'))
    first = {}
    for w, k in enumerate(c['own']):
        first.setdefault(k, w)
    exp = []
    n = [0]

    def walk(x):
        if x.leaf():
            if not x.elided():
                n[0] += 1
            return
        if x.label == 'FRAGMENT' and x.kids and x.kids[0].label == 'TERMS':
            exp.append((n[0], True))
        for y in x.kids:
            walk(y)
    walk(t)
    if n[0] != len(c['units']):
        return
    # a letter made with bu is placed at its bu
    exp = sorted(tuple(c['at'][first[k] + (c['units'][k][0] == 'BUw')]) for k, _ in exp)
    got = sorted((int(a), int(b)) for a, b in WARN.findall(e))
    r.count('missing selbri warnings', len(exp))
    if exp != got:
        r.bad('selbri warning', '"%s": terms without a selbri at %s, warnings at %s' % (c['text'], exp, got))


BADW = [re.compile(p) for p in (r"Unrecognizable word '(.*)' at line (\d+) column (\d+)$", r"Invalid uppercase letters in word '(.*)' at line (\d+) column (\d+)$",
                                r'Bad cmavo \[(.*)\] at line (\d+) column (\d+)$')]


def judge_invalid(ctx, c, r, rc, o, e):
    exp = [(w, c['at'][i][0], c['at'][i][1]) for i, w in enumerate(c['words']) if c['own'][i] == -1]
    if rc != 3:
        r.bad('invalid word accepted', '"%s" holds %s but exits %d' % (c['text'], exp, rc))
        return
    got = []
    for ln in e.split('\n'):
        for p in BADW:
            m = p.match(ln)
            if m:
                got.append((m.group(1), int(m.group(2)), int(m.group(3))))
    r.count('invalid words', len(exp))
    if got != exp:
        r.bad('invalid words misreported', '"%s": invalid are %s, reported %s' % (c['text'], exp, got))
