"""bnf.300 as data: EBNF reader, CFG compiler, random sentence generator."""
import os, random, re, json
HERE = os.path.dirname(os.path.abspath(__file__))

TOK = re.compile(r'\.\.\.|[\[\]()|&#/]|[A-Za-z][A-Za-z0-9-]*')


def load(path=os.path.join(HERE, 'bnf300.txt')):
    txt = ''.join(l for l in open(path) if not l.startswith('# ') and l.strip() != '#')
    rules = {}
    for m in re.finditer(r'([a-z][-a-z0-9]*)<\d+>\s*=(.*?)(?=\n\s*\n|\Z)', txt, re.S):
        rules[m.group(1)] = parse(m.group(2))
    return rules


def parse(s):
    toks = TOK.findall(s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def alt():
        xs = [seq()]
        while peek() == '|':
            nxt()
            xs.append(seq())
        return ('alt', xs) if len(xs) > 1 else xs[0]

    def seq():
        xs = []
        while peek() is not None and peek() not in '|)]':
            xs.append(amp())
        return ('seq', xs) if len(xs) != 1 else xs[0]

    def amp():
        xs = [rep()]
        while peek() == '&':
            nxt()
            xs.append(rep())
        return ('amp', xs) if len(xs) > 1 else xs[0]

    def rep():
        x = prim()
        while peek() == '...':
            nxt()
            if x[0] == 'opt':
                x = ('star', x[1])
            else:
                x = ('plus', x)
        return x

    def prim():
        t = nxt()
        if t == '(':
            x = alt()
            assert nxt() == ')'
            return x
        if t == '[':
            x = alt()
            assert nxt() == ']'
            return ('opt', x)
        if t == '#':
            return ('frees',)
        if t == '/':
            term = nxt()
            fr = False
            if peek() == '#':
                nxt()
                fr = True
            assert nxt() == '/'
            return ('elid', term, fr)
        if t[0].isupper():
            return ('t', t)
        return ('n', t)
    r = alt()
    assert pos[0] == len(toks), (s, toks[pos[0]:])
    return r


RULES = load()
ELIDABLE = ['BEhO', 'BOI', 'CU', 'DOhU', 'FEhU', 'GEhU', 'KEI', 'KEhE', 'KU', 'KUhE', 'KUhO',
            'LIhU', 'LOhO', 'LUhU', 'MEhU', 'NUhU', 'SEhU', 'TEhU', 'TOI', 'TUhU', 'VAU', 'VEhO']


def variant_rules(mode):
    """mode: 'strict' (all terminators and CU), 'full' (all terminators, CU optional),
    'loose' (terminators optional)."""
    r = dict(RULES)
    if 'K' in mode:               # KE right after a connective always belongs to it (see kec)
        for n in ('bridi-tail', 'sumti-1', 'selbri-4', 'operator', 'operand'):
            r[n] = swap_ke(r[n])
    if 'J' in mode:               # the deviation recorded as a known finding of P08
        r['operand-1'] = parse('operand-2 [joik-jek operand-2] ...')
    mode = mode.rstrip('JK')
    if mode == 'strict':
        r['sentence'] = parse('[terms CU #] bridi-tail')
    return r


def at_refs(x):
    if x[0] == 'n':
        return ('n', '^' + x[1])
    return tuple(at_refs(y) if isinstance(y, tuple) else [at_refs(z) for z in y] if isinstance(y, list) else y for y in x)


def swap_ke(x):
    if x == ('t', 'KE'):
        return ('t', 'KEc')
    return tuple(swap_ke(y) if isinstance(y, tuple) else [swap_ke(z) for z in y] if isinstance(y, list) else y for y in x)


def compile_cfg(mode):
    """-> list of (lhs, [rhs]) with terminals uppercase; start 'TOP'."""
    at = mode.endswith('At')      # every reference to a rule may also be met by a finished node of it, written @rule
    mode = mode[:-2] if at else mode
    rules = variant_rules(mode)
    mode = mode.rstrip('JK')
    out = []
    if at:
        rules['operand-1'] = parse('operand-2 [(joik-ek | jek #) operand-2] ...')
        rules = {n: at_refs(x) for n, x in rules.items()}
        for n, x in list(rules.items()):
            out.append(('^' + n, [n]))
            out.append(('^' + n, ['@' + n]))
    cnt = [0]
    cache = {}

    def fresh(base):
        cnt[0] += 1
        return '_%s_%d' % (base, cnt[0])

    def emit(lhs, x):
        for seq in expand(x):
            out.append((lhs, seq))

    def expand(x):
        """list of symbol sequences, with helper nonterminals for repetition/groups"""
        k = x[0]
        if k in 'tn' and len(k) == 1:
            return [[x[1]]]
        if k == 'alt':
            return [s for y in x[1] for s in expand(y)]
        if k == 'seq':
            res = [[]]
            for y in x[1]:
                e = expand(y)
                if len(e) > 3:
                    e = [[helper(y)]]
                res = [a + b for a in res for b in e]
                if len(res) > 12:
                    pass
            return res
        if k == 'opt':
            return [[]] + [[helper(x[1])]]
        if k == 'frees':
            return [['_frees']]
        if k == 'elid':
            f = ['_frees'] if x[2] else []
            if mode == 'loose':
                return [[x[1]] + f, []]
            if mode == 'full':
                return [[x[1]] + f, ['+' + x[1]]]
            return [[x[1]] + f]
        return [[helper(x)]]

    def helper(x):
        if x[0] in ('t', 'n'):
            return x[1]
        key = repr(x)
        if key in cache:
            return cache[key]
        n = cache[key] = fresh(x[0])
        if x[0] == 'plus':
            i = helper(x[1])
            out.append((n, [i]))
            out.append((n, [n, i]))
        elif x[0] == 'star':
            i = helper(x[1])
            out.append((n, []))
            out.append((n, [n, i]))
        elif x[0] == 'amp':
            ys = x[1]
            for m in range(1, 1 << len(ys)):
                out.append((n, [helper(y) for i, y in enumerate(ys) if m >> i & 1]))
        else:
            emit(n, x)
        return n
    out.append(('TOP', ['text']))
    out.append(('_frees', []))
    out.append(('_frees', ['_frees', 'free']))
    for lhs, x in rules.items():
        emit(lhs, x)
        if at:                    # repetitions are shown grouped to the left, one node per step
            for y in (x[1] if x[0] == 'alt' else [x]):
                if y[0] == 'seq' and y[1][-1][0] == 'star':
                    emit(lhs, ('seq', [('n', '@' + lhs), ('plus', y[1][-1][1])]))
                elif y[0] == 'plus':
                    emit(lhs, ('seq', [('n', '@' + lhs), y]))
            out.append((lhs, ['@' + lhs]))
    if at:
        out.append(('tag', ['@stag']))
        out.append(('tag', ['@stag', helper(at_refs(parse('joik-jek tense-modal ...')))]))
        emit('paragraphs', parse('XX NIhO ... # paragraph')[0:1] + ([('n', '@paragraphs')] + at_refs(parse('NIhO ... # paragraph'))[1],))
    # dedupe
    seen, res = set(), []
    for l, r in out:
        if (l, tuple(r)) not in seen:
            seen.add((l, tuple(r)))
            res.append((l, r))
    return res


def write_cfg(mode, path):
    with open(path, 'w') as f:
        for l, r in compile_cfg(mode):
            f.write(' '.join([l] + r) + '\n')


# -- units: spans that the language's lexer treats as one (compound connectives, tenses,
#    number+MOI ...).  lookahead(toks)[i] = how many tokens from i on decide together.
_NUM = r'(?:PA (?:(?:PA|BY|BUw|LAU|TEI|FOI) )*)'
_LER = r'(?:(?:BY|BUw|LAU|TEI) (?:(?:PA|BY|BUw|LAU|TEI|FOI) )*)'
_IP = r'(?:%sROI (?:NAI )?|TAhE (?:NAI )?|ZAhO (?:NAI )?)' % _NUM
_TIME = r'(?:(?:ZI )?(?:PU (?:NAI )?(?:ZI )?)*(?:ZEhA (?:PU (?:NAI )?)?)?%s*)' % _IP
_SPACE = (r'(?:(?:VA )?(?:FAhA (?:NAI )?(?:VA )?)*(?:(?:VEhA (?:VIhA )?|VIhA )(?:FAhA (?:NAI )?)?)?'
          r'(?:FEhE %s)*(?:MOhI FAhA (?:NAI )?(?:VA )?)?)') % _IP
_TENSE = r'(?:%s%s|%s%s)' % (_TIME, _SPACE, _SPACE, _TIME)
_STM = (r'(?:(?:NAhE )?(?:SE )?BAI (?:NAI )?(?:KI )?|(?:NAhE )?(?=(?:ZI|PU|ZEhA|PA|TAhE|ZAhO|VA|FAhA|VEhA|'
        r'VIhA|FEhE|MOhI|CAhA) )%s(?:CAhA )?(?:KI )?|KI |CUhE )') % _TENSE
_JEK = r'(?:(?:NA )?(?:SE )?JA (?:NAI )?)'
_JOIK = r'(?:(?:SE )?JOI (?:NAI )?|GAhO (?:SE )?BIhI (?:NAI )?GAhO |(?:SE )?BIhI (?:NAI )?)'
_STAG = r'(?:%s(?:(?:%s|%s)%s)*)' % (_STM, _JEK, _JOIK, _STM)
_CON = r'(?:(?:NA )?(?:SE )?(?:A|GIhA|JA) (?:NAI )?|%s)' % _JOIK
UNITS = [re.compile(u) for u in (
    _CON + r'(?:' + _STAG + r')?(?:BO|KE) ', _CON, r'(?:NA )?(?:SE )?GIhA (?:NAI )?(?:\S+ )?',
    r'I (?:%s|%s)?(?:%s)?BO ' % (_JEK, _JOIK, _STAG), r'I (?:%s|%s)' % (_JEK, _JOIK),
    r'(?:SE )?(?:GA|GUhA) (?:NAI )?', _JOIK + 'GI (?:NAI )?', _STAG + 'GI (?:NAI )?', _STM,
    r'(?:%s|%s)(?:MAI|MOI|ROI) ' % (_NUM, _LER), r'NAhE BO ', r'NA KU ')]


STM_ANY = re.compile(_STAG + r'(?:\S+ )?')


def lookahead(toks, strong=True):
    res = []
    for i in range(len(toks)):
        s = ' '.join(toks[i:]) + ' '
        best = 2 if toks[i] in ('NA', 'SE', 'NAhE', 'GAhO') else 1
        for u in UNITS + ([STM_ANY] if strong else []):
            m = u.match(s)
            if m:
                best = max(best, m.group(0).count(' '))
        res.append(min(best, len(toks) - i))
    return res


CONKE = re.compile(r'(?:(?:NA )?(?:SE )?(?:A|GIhA) (?:NAI )?|%s)(?:%s)?KE ' % (_JOIK, _STAG))


def kec(toks):
    """Connective [tense] KE is read as one unit by the official parser (its lexer joins them), although bnf.300 would also let
    the KE open the next selbri: such a KE becomes KEc, which only the connective rules of the K grammars use."""
    toks = list(toks)
    s = ' '.join(toks) + ' '
    for i in range(len(toks)):
        rest = ' '.join(toks[i:]) + ' '
        m = CONKE.match(rest)
        if m and not m.group(0).startswith('I ') and not (i and toks[i - 1] == 'I'):
            toks[i + m.group(0).count(' ') - 1] = 'KEc'
    return toks


TERMINALS = sorted({t for mode in ('strict',) for l, r in compile_cfg(mode) for t in r if t[0].isupper()})


def min_depths(rules):
    """smallest number of terminals derivable: used to close derivations"""
    INF = 10 ** 9
    d = {n: INF for n in rules}

    def cost(x):
        k = x[0]
        if k == 't':
            return 1
        if k == 'n':
            return d[x[1]] + 1
        if k in ('alt',):
            return min(cost(y) for y in x[1])
        if k == 'seq':
            return sum(cost(y) for y in x[1])
        if k in ('opt', 'star', 'frees'):
            return 0
        if k == 'amp':
            return min(cost(y) for y in x[1])
        if k == 'plus':
            return cost(x[1])
        if k == 'elid':
            return 1
    ch = True
    while ch:
        ch = False
        for n, x in rules.items():
            c = min(cost(x), INF)
            if c < d[n]:
                d[n] = c
                ch = True
    return d, cost


class Gen:
    """Random derivations of the strict grammar: a list of (terminal, elidable?)."""

    def __init__(self, rng, budget=25, pfree=0.02, mode='strict', popt=0.25, weights=None):
        self.rng, self.pfree, self.popt = rng, pfree, popt
        self.rules = variant_rules(mode)
        self.d, self.cost = min_depths(self.rules)
        self.budget = budget
        self.weights = weights or {}

    def sentence(self, start='text'):
        self.left = self.budget
        self.depth = 0
        self.out = []
        self.gen(('n', start))
        return self.out

    def gen(self, x):
        rng = self.rng
        k = x[0]
        if k == 't':
            self.out.append((x[1], False))
            self.left -= 1
        elif k == 'n':
            self.depth += 1
            self.gen(self.rules[x[1]])
            self.depth -= 1
        elif k == 'alt':
            ys = x[1]
            if self.left <= 0 or self.depth > 60:
                m = min(self.cost(y) for y in ys)
                ys = [y for y in ys if self.cost(y) == m]
                self.gen(rng.choice(ys))
            else:
                ws = []
                for y in ys:
                    c = self.cost(y)
                    ws.append(1.0 if c <= self.left + 2 else 0.0)
                if not any(ws):
                    m = min(self.cost(y) for y in ys)
                    ws = [1.0 if self.cost(y) == m else 0 for y in ys]
                self.gen(rng.choices(ys, ws)[0])
        elif k == 'seq':
            for y in x[1]:
                self.gen(y)
        elif k == 'amp':
            ys = [y for y in x[1] if rng.random() < 0.4 and self.cost(y) <= self.left]
            if not ys:
                m = min(self.cost(y) for y in x[1])
                ys = [rng.choice([y for y in x[1] if self.cost(y) <= max(m, self.left)])]
            for y in ys:
                self.gen(y)
        elif k == 'opt':
            if self.cost(x[1]) <= self.left and rng.random() < self.popt:
                self.gen(x[1])
        elif k == 'star':
            while self.cost(x[1]) <= self.left and rng.random() < self.popt:
                self.gen(x[1])
        elif k == 'plus':
            self.gen(x[1])
            while self.cost(x[1]) <= self.left and rng.random() < 0.3:
                self.gen(x[1])
        elif k == 'frees':
            while self.left > 3 and rng.random() < self.pfree:
                self.gen(('n', 'free'))
        elif k == 'elid':
            self.out.append((x[1], True))
            if x[2]:
                self.gen(('frees',))


if __name__ == '__main__':
    import sys
    g = Gen(random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0))
    for i in range(10):
        print(' '.join(t for t, e in g.sentence()))
    print(len(compile_cfg('strict')), len(compile_cfg('full')), len(compile_cfg('loose')))
    print(TERMINALS, len(TERMINALS))
