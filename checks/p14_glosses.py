"""P14: every gloss printed is the dictionary's own for that word, use and place."""
import os, re
import jb, fmt, bridi, lujvo, workload, gloss, morfo
from harness import Result
PROP = 'P14'
VARIANTS = ['plain']
COUNTS = {'quick': 20000, 'thorough': 300000}
RULE = ('one case = a random dictionary in which every entry has its own gloss (place entries of every word class, entries for single uses, noun entries, redirections, lujvo patterns '
        'with substitutions, context entries of tenses, modals, indicators and connectives) and a text over gismu, lujvo and fu\'ivla: either 1 to 3 sentences of random argument '
        'structure, where the gloss behind each predicate word and in each tag is compared, or sentences with tags, connectives, indicators, quotations, numbers and free '
        'modifiers, where the whole row of words and glosses is; distinct by text and dictionary')
DROP = {'(of)', '[type-of]', '[is, does]', '[of]', ' '}
LONG = [g for g in jb.GISMU_RAFSI if len(g) == 5 and g[:4] != 'brod']
CMV = ["mi", "do", "ti", "ta", "ko'a", "da", "zo'e", "ma", "ri", "le", "lo", "loi", "le'e", "ku", "cu", "vau", "kei", "be'o", "ke", "ke'e", "ku'o", "ge'u", "i", "zo'u", "me'u",
       "la'e", "lu'u", "co", "bo", "na", "to'e", "nu'i", "nu'u", "go'i", "nei", "mo", "co'e", "du", "be", "bei", "fa", "fe", "fi", "fo", "fu", "fai", "poi", "noi", "fi'a", "na'e"]
GOHA = ["go'i", 'nei', 'mo', "co'e", 'du']
MOI = ['moi', 'mei', "si'e", "va'e"]
NUS = ['nu', 'ka', 'ni', "du'u", "li'i", "za'i"]
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()


def letters(s):
    return re.sub(r"[^a-z'0-9]", '', s.lower())


class D:
    """a dictionary under construction"""
    def __init__(self, rng):
        self.rng, self.d, self.n = rng, {}, 0

    def text(self):
        """a gloss no other entry has"""
        rng = self.rng
        self.n += 1
        k, s = self.n, ''
        while k:
            s += LETTERS[k % 26]
            k //= 26
        s = 'g' + s + 'q'
        return s + rng.choice(['', '', '', 's', 'z', 'x', 'ch', 'by', 'ay', 'e', 'ee', 'h', 'y', ' &', ' <' + s + '>', '* of', '* in x', '*', '*/b* c', '* atx', 'e* ' + s, 'y* (' + s + ')', '/' + s + 's', '*x', 'e*z'])

    def entry(self, pat=False):
        """an entry for one place of a word"""
        t = self.text()
        if pat:
            t = self.rng.choice(['%%%d%s ' % (self.rng.choice([1, 1, 1, 2, 3]), self.rng.choice('nvqt')), '']) + t + self.rng.choice(['', '', ' %%%d%s' % (self.rng.choice([1, 1, 2]), self.rng.choice('nvqt'))])
        if self.rng.random() < .75:
            t = self.rng.choice('DDESAAPPRI' if self.rng.random() < .97 else 'BZx') + ';' + t
        return t

    def predicate(self, w, others, rich):
        rng = self.rng
        if rng.random() < .4:
            self.d[w] = self.text()
        for n in range(1, 6):
            if rng.random() < rich:
                r = rng.random()
                self.d['%s%d' % (w, n)] = self.entry() if r < .93 or not others else '@%s%s' % (rng.choice(others), rng.choice('1234512345x'))
            for u in 'nvqta':
                if rng.random() < rich * .22:
                    self.d['%s%d%s' % (w, n, u)] = self.text()

    def simple(self, w, p=.6):
        if self.rng.random() < p:
            self.d[w] = self.text()


def vocabulary(rng, dd):
    """words, their components and a dictionary for them"""
    comps, pre, words = {}, {}, []
    for _ in range(rng.choice([2, 4, 6])):
        words.append(rng.choice(jb.GISMU))
    seqs = []
    for _ in range(rng.choice([1, 3, 5])):
        cs = lujvo.components(rng, rng.choice([2, 2, 2, 2, 3, 3, 3, 4, 5, 7, 12, 20]))
        if len(cs) > 5:
            # many alike, so that patterns apply again and again
            few = rng.sample(cs, rng.choice([1, 2, 2, 3]))
            cs = [rng.choice(few) for _ in cs]
        if rng.random() < .4:
            cs.insert(rng.randrange(len(cs)), rng.choice(['se', 'te', 've', 'xe']))
            if rng.random() < .2:
                cs.insert(rng.randrange(len(cs)), rng.choice(['se', 'te']))
        if seqs and rng.random() < .5:
            # shares its end or beginning with another
            o = rng.choice(seqs)
            cs = cs[:1] + o[-2:] if rng.random() < .6 else o[:2] + cs[-1:]
        seqs.append(cs)
        long_ = rng.random() < .3
        sets = [lujvo.rafsi(w, k == len(cs) - 1, long_, False) for k, w in enumerate(cs)]
        if not all(sets):
            continue
        rs = [rng.choice(s) for s in sets]
        try:
            w = lujvo.build(rs)[0]
        except Exception:
            continue
        comps[w] = cs
        words.append(w)
    for _ in range(rng.choice([0, 1, 2, 3])):
        g = rng.choice(LONG)
        p, cs = g[:4], [g]
        if rng.random() < .35:
            x = rng.choice(lujvo.WITH)
            q = rng.choice(lujvo.rafsi(x, False, False, False) or ['?'])
            p, cs = q + rng.choice(['', '', 'y', 'r']) + p, [x] + cs
        p = p + rng.choice('rrrnl')
        w = p + rng.choice(['spageti', 'gado', 'integrale', 'nesperanto', 'kokosa', 'marikano', 'kuarka'])
        k = morfo.classify(w)
        if k[0] in ('STAGE3', 'STAGE3X') and k[1] == [0] and k[2] == len(p) - 1:
            pre[w] = (cs, w[len(p):])
            words.append(w)
        elif k[0] == 'STAGE4' and k[1] == [0]:
            words.append(w)
    parts = sorted({c for cs in comps.values() for c in cs} | {c for cs, _ in pre.values() for c in cs})
    known = sorted(set(words) | set(parts))
    some = [w for w in known if rng.random() < .6]
    for w in known:
        if w in ('se', 'te', 've', 'xe') and rng.random() < .8:
            continue
        r = rng.random()
        if w in comps and r < .6 or r < .15:
            continue
        dd.predicate(w, some, rng.choice([.1, .3, .6, .9]))
    # patterns
    for cs in list(comps.values()):
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice([1, 1, 2])
            if rng.random() < .5:
                i = len(cs) - k
                pure = '+'.join(cs[i:])
                g = ('+' if i else '') + pure
            else:
                # the word the prefix stands before keeps its conversions
                i = 0
                while k and i < len(cs):
                    if not (cs[i] in gloss.SE and i < len(cs) - 1):
                        k -= 1
                    i += 1
                g = '+'.join(cs[:i]) + '+'
            for n in (range(1, 6) if rng.random() < .3 else [1, rng.randint(1, 5)]):
                key = '*%d%s%d' % (rng.randint(0, 5), g, n)
                r = rng.random()
                v = '-' if r < .1 else '@%d' % rng.choice([1, 1, 2, 3, 4, 5]) if r < .3 else dd.entry(True)
                if len(cs) > 5 and v.count('%') > 1:
                    v = v[:v.rindex('%') - 1]     # keep the glosses from growing without bound
                if r < .8:
                    dd.d[key] = v
                for u in 'nvqta':
                    if rng.random() < .15:
                        dd.d[key + u] = dd.text()
    return words, comps, pre


def gen(ctx, rng, i):
    dd = D(rng)
    words, comps, pre = vocabulary(rng, dd)
    if rng.random() < .2:
        words = [commas(rng, w) if rng.random() < .3 and w in comps else w for w in words]
    for w in CMV:
        dd.simple(w, .5)
    c = {'comps': comps, 'pre': pre}
    if rng.random() < .6:
        for w in MOI + ['me']:
            for n in range(1, 5):
                dd.d['%s%d%s' % (w, n, rng.choice(['', 't']))] = dd.text() + rng.choice([' of #%d', ' %d'])
            dd.simple(w, .3)
        for w in NUS:
            dd.predicate(w, [], .5)
        g = bridi.Gen(rng, rng.choice([4, 8, 12, 20]), words)
        g.text()
        c.update(mode='bridi', words=g.words, uses=[u for u in g.uses], terms=[[x.a, x.b, [t for t in x.tags]] for x in g.terms])
    else:
        t = Rows(rng, dd, words)
        t.text()
        c.update(mode='rows', rows=t.rows, words=t.words)
    c['d'] = dd.d
    return c


def commas(rng, w):
    k = rng.randrange(1, len(w))
    return w[:k] + ',' + w[k:]


FUNC = {'a': 0, 'e': 1, 'o': 2, 'u': 3}
# truth of (x, y) = TT TF FT FF
TT = [(1, 1), (1, 0), (0, 1), (0, 0)]
FN = {'a': lambda x, y: x or y, 'e': lambda x, y: x and y, 'o': lambda x, y: x == y, 'u': lambda x, y: x}


def truth(v, se, neg1, neg2):
    if v == '?':
        return 'QQQQ'
    out = ''
    for x, y in TT:
        x1, y1 = x ^ neg1, y ^ neg2
        out += 'T' if (FN[v](y1, x1) if se else FN[v](x1, y1)) else 'F'
    return out


CTX = ['TERM', 'NOUN', 'SELBRI', 'LINK', 'CONNECT', 'JAI', None]
JA = {'ja': 'a', 'je': 'e', 'jo': 'o', 'ju': 'u', "je'i": '?'}
A = {'a': 'a', 'e': 'e', 'o': 'o', 'u': 'u', 'ji': '?'}
GIHA = {"gi'a": 'a', "gi'e": 'e', "gi'o": 'o', "gi'u": 'u', "gi'i": '?'}
GA = {'ga': 'a', 'ge': 'e', 'go': 'o', 'gu': 'u', "ge'i": '?'}
GUHA = {"gu'a": 'a', "gu'e": 'e', "gu'o": 'o', "gu'u": 'u', "gu'i": '?'}


class Rows:
    """sentences with the row of words and glosses they must show; a gloss is a list telling how it is found"""
    def __init__(self, rng, dd, brivla):
        self.rng, self.dd, self.brivla, self.rows, self.words = rng, dd, brivla, [], []

    def key(self, *ks, p=.5):
        """give the entries a chance to exist"""
        for k in ks:
            if k not in self.dd.d and self.rng.random() < p:
                self.dd.d[k] = self.dd.text()

    def pick(self, *a):
        return self.rng.choice(a)

    def w(self, *ws):
        for x in ws:
            for y in x.split():
                self.words.append(y)
                self.rows.append(['W', y])

    def g(self, *how):
        self.rows.append(['G'] + list(how))

    def c(self, *ws):
        """plain cmavo"""
        for x in ws:
            for y in x.split():
                self.key(y)
                self.w(y)
                self.g('opt', y)

    def pred(self, use, place=None):
        se = []
        if place is None and self.rng.random() < .25:
            s = self.pick('se', 'te', 've', 'xe')
            self.w(s)
            place = gloss.SE[s]
        b = self.rng.choice(self.brivla)
        self.w(b)
        self.g('adv', b, 1 if place is None else place, use)

    def inner(self):
        """selbri that is no part of a sentence: vocative, mekso, fi'o"""
        if self.rng.random() < .3:
            self.tag('NOUN')
        elif self.rng.random() < .1:
            self.c('na')
        r = self.rng.random()
        if r < .15:
            self.pred('q')
            self.conn(JA)
            self.pred('q')
            self.pred('n')
        elif r < .25:
            self.pred('n')
            self.conn(JA)
            self.pred('n')
        else:
            for _ in range(self.pick(0, 0, 1, 2)):
                self.pred('q')
            self.pred('n')

    def sumti(self):
        r = self.rng.random()
        if r < .5:
            self.c(self.pick('mi', 'do', 'ti', 'da', "ko'a"))
        elif r < .8:
            self.c(self.pick('le', 'lo', 'loi'))
            self.pred('n')
            self.c('ku')
        elif r < .84:
            self.word('zo')
        elif r < .88:
            self.word("lo'u")
        elif r < .9:
            self.word('zoi')
        elif r < .92:
            self.c('li pa')
            self.c("na'u")
            self.inner()
            self.c("te'u re lo'o")
        elif r < .94:
            self.c('li')
            self.c("ni'e")
            self.inner()
            self.c("te'u lo'o")
        elif r < .96:
            self.word('bu')
        else:
            self.c('la')
            n = self.rng.choice(jb.CMENE)
            self.w(n)
            self.g('text', '[NAME]')

    def word(self, k):
        rng = self.rng
        if k == 'zo':
            x = self.pick('mi', 'klama', 'cu', 'djan', 'zo')
            self.key(x)
            self.words += ['zo', x]
            self.rows.append(['W', 'zo' + x])
            self.g('zo', x)
        elif k == "lo'u":
            t = ' '.join(self.pick('mi', 'cu', 'klama', 'ke') for _ in range(rng.choice([1, 2, 3])))
            self.key(t)
            self.words += ["lo'u"] + t.split() + ["le'u"]
            self.rows.append(['W', "lo'u" + t.replace(' ', '') + "le'u"])
            self.g('or?', t)
        elif k == 'zoi':
            t = ' '.join(self.pick('some', 'text', 'klama', 'xyz') for _ in range(rng.choice([1, 2])))
            self.key(t)
            self.words += ['zoi', 'gy.'] + t.split() + ['.gy']
            self.rows.append(['W', 'zoigy' + t.replace(' ', '') + 'gy'])
            self.g('or?', t)
        else:
            x = self.pick('a', 'klama', "y'y", 'by', 'djan')
            self.key(x + '.bu')
            self.words += [x + '.' if x == 'djan' else x, 'bu', 'boi'] if 0 else [x + '.' if x == 'djan' else x, 'bu']
            self.rows.append(['W', x + 'bu'])
            self.g('or?', x + '.bu')
            self.c('boi')

    # -- tags: ctx one of CTX
    def bai(self, ctx):
        b = self.pick('bai', 'gau', "pi'o", "mu'i", 'bau', "fa'e")
        k = b
        if self.rng.random() < .5:
            s = self.pick('se', 'te', 've', 'xe')
            self.w(s)
            k = s + b
        self.key(b, k, k + '@JAI', p=.4)
        self.w(b)
        self.g('bai', k + ('@JAI' if ctx == 'JAI' else ''), b)
        if self.rng.random() < .1:
            self.c('nai')

    def tkey(self, k):
        self.key(k, p=.5)
        for x in CTX[:-1]:
            self.key(k + '@' + x, p=.4)

    def tense1(self, w, ctx):
        self.tkey(w)
        self.w(w)
        self.g('tense', w, ctx)

    def tense(self, ctx):
        rng = self.rng
        r = rng.random()
        if r < .35:
            # PU [nai] [zi]
            ps = [self.pick('pu', 'ca', 'ba')]
            if rng.random() < .25:
                ps.append('nai')
            if rng.random() < .4:
                ps.append(self.pick('zi', 'za', 'zu'))
            for p in ps:
                self.key(p)
            self.tkey(''.join(ps))
            self.w(*ps)
            self.g('pu', ps, ctx)
            if rng.random() < .2:
                self.c(self.pick("ze'i", "ze'a", "ze'u"))
        elif r < .5:
            ps = [self.pick("co'a", "ba'o", "pu'o", "ca'o")] + (['nai'] if rng.random() < .2 else [])
            self.cluster(ps, ctx, [lambda: self.tense1(ps[0], ctx)] + ([lambda: self.c('nai')] if len(ps) > 1 else []))
        elif r < .62:
            ps = self.pick(['re', 'roi'], ['ru\'i'], ['ta\'e'], ['ci', 'mu', 'roi'], ["re'u"] and ['ru\'i', 'nai'])
            self.cluster(ps, ctx, [(lambda p=p: self.c(p)) for p in ps])
        elif r < .75:
            if rng.random() < .5:
                self.tense1(self.pick('vi', 'va', 'vu'), ctx)
            else:
                self.tense1(self.pick("zu'a", "ri'u", "ga'u", "ne'a"), ctx)
                if rng.random() < .3:
                    self.c('nai')
                if rng.random() < .4:
                    self.tense1(self.pick('vi', 'va', 'vu'), ctx)
        elif r < .8:
            self.c("mo'i")
            self.tense1(self.pick("zu'a", "ri'u", "ga'u"), ctx)
            self.tense1(self.pick('vi', 'va'), ctx) if rng.random() < .5 else None
        elif r < .86:
            self.tense1(self.pick('vi', 'vu'), ctx) if rng.random() < .5 else None
            z = self.pick("co'a", "ba'o")
            ps = ["fe'e", z]

            def inner():
                self.cluster([z], ctx, [lambda: self.tense1(z, ctx)])
            self.cluster(ps, ctx, [lambda: self.c("fe'e"), inner])
        elif r < .93:
            self.c(self.pick("ka'e", "pu'i", "nu'o", "ca'a", 'ki'))
        else:
            self.bai(ctx)

    def cluster(self, ps, ctx, parts):
        self.tkey(''.join(ps))
        # which one applies depends on the finished dictionary: keep both
        mark = len(self.words)
        rows, self.rows = self.rows, []
        for f in parts:
            f()
        alt, self.rows = self.rows, rows
        self.rows.append(['C', ''.join(ps), ctx, [['W', x] for x in self.words[mark:]], alt])

    def tag(self, ctx):
        r = self.rng.random()
        if r < .1 and ctx == 'TERM':
            self.c("fi'o")
            self.inner()
            self.c("fe'u")
        elif r < .35:
            self.bai(ctx)
        else:
            self.tense(ctx)

    # -- connectives
    def conn(self, table, neg_left=True):
        rng = self.rng
        v = rng.choice(sorted(table))
        na, se, nai = neg_left and rng.random() < .3, rng.random() < .3, rng.random() < .3
        ws = (['na'] if na else []) + (['se'] if se else []) + [v] + (['nai'] if nai else [])
        k = truth(table[v], se, na, nai) + '@AFTER'
        self.key(k, p=.7)
        self.w(*ws)
        self.g('opt', k)

    def fore(self, table, x, y):
        rng = self.rng
        v = rng.choice(sorted(table))
        se, n1, n2 = rng.random() < .3, rng.random() < .3, rng.random() < .3
        k = truth(table[v], se, n1, n2)
        self.key(k + '@GE', k + '@GI', p=.7)
        self.w(*((['se'] if se else []) + [v] + (['nai'] if n1 else [])))
        self.g('opt', k + '@GE')
        x()
        self.w(*(['gi'] + (['nai'] if n2 else [])))
        self.g('opt', k + '@GI')
        y()

    def ind(self):
        rng = self.rng
        u = self.pick('ui', 'ua', "a'o", "za'a", 'ku\'i', 'oi')
        n = rng.random() < .35
        k = u + ('nai' if n else '')
        d = None
        ws = [u] + (['nai'] if n else [])
        if rng.random() < .4:
            d = self.pick('cai', 'sai', "ru'e", "cu'i", 'cainai', 'sainai', "ru'enai")
            self.key(d)
            ws += ['cai', 'nai'] if d == 'cainai' else ['sai', 'nai'] if d == 'sainai' else ["ru'e", 'nai'] if d == "ru'enai" else [d]
        self.key(u, u + 'nai', p=.6)
        self.words += ws
        self.rows.append(['W', ''.join(ws)])
        self.g('ui', k, d)

    def maybe_ind(self, p=.12):
        if self.rng.random() < p:
            self.ind()

    # -- sentences
    def simple(self):
        self.sumti()
        self.maybe_ind()
        if self.rng.random() < .5:
            self.c('cu')
        self.sel()
        self.vau()

    def vau(self):
        if self.rng.random() < .3:
            self.sumti()
        self.c('vau')

    def sel(self):
        r = self.rng.random()
        if r < .3:
            self.tag('SELBRI')
        elif r < .4:
            self.c('na')
        r = self.rng.random()
        if r < .65:
            self.pred('v')
        elif r < .75:
            self.pred('v')
            self.conn(JA)
            self.pred('v')
        elif r < .82:
            self.fore(GUHA, lambda: self.pred('v'), lambda: self.pred('v'))
        elif r < .9:
            self.number()
        else:
            self.pred('q')
            self.pred('v')

    def number(self):
        n, m = self.pick(['pa'], ['ci', 're'], ["su'o"]), self.rng.choice(MOI)
        self.cluster(n + [m], None, [(lambda x=x: self.c(x)) for x in n + [m]])

    def sentence(self):
        r = self.rng.random()
        if r < .2:
            self.simple()
        elif r < .32:
            # tagged sumti
            self.c('mi')
            self.tag('TERM')
            self.sumti()
            self.c('cu')
            self.sel()
            self.vau()
        elif r < .4:
            self.c(self.pick('le', 'lo'))
            self.tag('NOUN')
            self.pred('n')
            self.c('ku cu')
            self.sel()
            self.vau()
        elif r < .46:
            self.tag('SELBRI')
            self.c('ku')
            self.simple()
        elif r < .53:
            self.simple()
            self.c('i')
            if self.rng.random() < .4:
                self.conn(JA)
            self.tag('LINK')
            self.c('bo')
            self.simple()
        elif r < .6:
            self.c('mi')
            self.pred('v', 1)
            self.c('vau')
            self.conn(GIHA)
            if self.rng.random() < .5:
                self.tag('LINK')
                self.c('bo')
            self.pred('v', 1)
            self.c('vau vau')
        elif r < .68:
            # stag gi ... gi
            st = len(self.rows)
            ws = len(self.words)
            self.tag('CONNECT')
            stag, self.rows = self.rows[st:], self.rows[:st]
            self.rows.append(['S', stag])
            if self.rng.random() < .2:
                self.w('gi')
                self.w('nai')
                self.g('text', 'something other than')
            else:
                self.w('gi')
            self.simple()
            self.w('gi')
            n = self.rng.random() < .2
            if n:
                self.w('nai')
            self.rows.append(['E', stag])
            if n:
                self.g('text', 'other than')
            self.simple()
        elif r < .74:
            self.c('mi')
            self.conn(A)
            self.c('do')
            self.c('cu')
            self.sel()
            self.vau()
        elif r < .8:
            self.fore(GA, self.simple, self.simple)
            self.c('vau')
        elif r < .85:
            self.fore(GA, lambda: self.c('mi'), lambda: self.c('do'))
            self.c('cu')
            self.sel()
            self.vau()
        elif r < .9:
            # jai + tag
            self.c('mi')
            self.key('jai_v', 'jai', p=.6)
            self.w('jai')
            self.g('jai', 'jai_v')
            self.tag('JAI')
            b = self.rng.choice(self.brivla)
            self.w(b)
            self.g('adv', b, 0, 'v')
            self.vau()
        elif r < .95:
            self.simple()
            self.free()
        else:
            self.zei()

    def free(self):
        r = self.rng.random()
        if r < .3:
            self.c('to')
            if self.rng.random() < .5:
                self.simple()
            else:
                self.c('mi')
                self.sel()
                self.c('vau')
            self.c('toi')
        elif r < .5:
            self.c('sei')
            self.c('mi')
            self.pred('v')
            self.c("se'u")
        elif r < .75:
            self.c(self.pick('doi', 'coi'))
            self.inner()
            self.c("do'u")
        else:
            self.c('doi')
            n = self.rng.choice(jb.CMENE)
            self.w(n)
            self.g('text', '[NAME]')
            self.c("do'u")

    def zei(self):
        x, y = self.rng.choice(jb.GISMU), self.pick('klama', 'cipra', 'mi')
        self.c('mi cu')
        for n in '1':
            self.key('%s+%s%s' % (x, y, n), p=.4)
            self.key('%s+%s%sv' % (x, y, n), p=.2)
        self.key(x, y, p=.3)
        self.words += [x, 'zei', y]
        self.rows.append(['W', x + 'zei' + y])
        self.g('zei', x, y)
        self.c('vau')

    def text(self):
        for k in range(self.pick(1, 1, 2, 3)):
            if k:
                self.c('i')
            self.sentence()


def expand(rows, m, out, what='b'):
    """rows -> [('W', letters) or ('G', gloss)] with the finished dictionary; what: b both, w words only, g glosses only"""
    for r in rows:
        if r[0] == 'W':
            if what != 'g':
                out.append(('W', letters(r[1])))
        elif r[0] == 'S':
            expand(r[1], m, out, 'w')
        elif r[0] == 'E':
            expand(r[1], m, out, 'g')
        elif r[0] == 'C':
            t = m.look(r[1] + ('@' + r[2] if r[2] else ''))
            if t is None:
                t = m.look(r[1])
            if t is None:
                expand(r[4], m, out, what)
            else:
                if what != 'g':
                    out += [('W', letters(w[1])) for w in r[3]]
                if what != 'w':
                    out.append(('G', t))
        elif what != 'w':
            g = found(r, m)
            if g:
                out.append(('G', g))


def found(r, m):
    k, a = r[1], r[2:]
    L = m.look
    if k == 'opt':
        return L(a[0])
    if k == 'text':
        return a[0]
    if k == 'adv':
        return m.adv(a[0], a[1], a[2])
    if k == 'or?':
        t = L(a[0])
        return '?' if t is None else t
    if k == 'zo':
        t = L(a[0])
        return '"%s"' % ('?' if t is None else t)
    if k == 'bai':
        t = L(a[0])
        if t is None:
            t = L(a[1])
            return '?' if t is None else t + ' (CONV?)'
        return t
    if k == 'tense':
        t = L(a[0] + '@' + a[1]) if a[1] else None
        return L(a[0]) if t is None else t
    if k == 'pu':
        w = ''.join(a[0])
        t = L(w + '@' + a[1]) if a[1] else None
        if t is None:
            t = L(w)
        return ' '.join(L(p) or '?' for p in a[0]) if t is None else t
    if k == 'ui':
        t = L(a[0])
        if t is None:
            return None
        return '{' + ((L(a[1]) or '?') + ' ' if a[1] else '') + t + '..}'
    if k == 'jai':
        t = L(a[0])
        return L('jai') if t is None else t
    if k == 'zei':
        t = m.adv('+'.join(a), 1, 'v')
        if t[0] != '?':
            return t
        return ' type-of '.join(L(x) or '?' for x in a)
    raise KeyError(k)


def judge(ctx, c):
    r = Result()
    db = os.path.join(ctx.tmp, 'g.dat')
    workload.write_dict(db, c['d'])
    text = ' '.join(c['words'])
    m = gloss.Model(c['d'], c['comps'], {k: (v[0], v[1]) for k, v in c['pre'].items()})
    try:
        plan(c, m)
    except gloss.Loop:
        r.count('redirections without end, or glosses without bound')
        return r
    rc, o, e = jb.run(os.path.join(ctx.J.d, 'jbofihe'), ['-H'], text, jb.base_env(db), timeout=60)
    if rc:
        r.count('not accepted')
        if rc not in (1, 2, 3):
            r.bad('exit', 'exit %d for "%s"' % (rc, text))
            return r
        return r
    try:
        ev = fmt.read_html(o.decode('latin1'))
    except fmt.Bad as ex:
        r.bad('html', '%s for "%s"' % (ex, text))
        return r
    ev = [x for x in ev if not (x[0] == 'G' and x[1] in DROP)]
    n = (rows if c['mode'] == 'rows' else bridi_case)(r, c, m, ev, text)
    if n:
        r.nontrivial = [text, c['d']]
    r.count('glosses compared', n or 0)
    for k, v in m.branch.items():
        r.count('by ' + k, v)
    return r


def plan(c, m):
    """look everything up once"""
    for b in {x for x in c['words'] if x in c['comps'] or x in c['pre'] or x in NUS or len(x) > 4}:
        for n in range(1, 8):
            for u in 'nvqt':
                m.steps = 0
                if len(m.adv(b, n, u)) > 4000:
                    raise gloss.Loop
    m.branch = {}


def rows(r, c, m, ev, text):
    want = []
    expand(c['rows'], m, want)
    got = []
    for x in ev:
        if x[0] == 'W':
            got.append(('W', letters(x[1])))
        elif x[0] == 'G':
            got.append(('G', x[1]))
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        r.bad('row', 'after %s: %s is shown, %s expected, in "%s"' % (' '.join(x[1] for x in want[max(0, k - 3):k]), got[k:k + 2], want[k:k + 2], text))
    return sum(x[0] == 'G' for x in want)


def bridi_case(r, c, m, ev, text):
    off = [0]
    for w in c['words']:
        off.append(off[-1] + len(letters(w)))
    shown, pos = {}, 0
    st, tags, num = [], [], {}
    for k, x in enumerate(ev):
        if x[0] == 'W':
            w = letters(x[1])
            g = next((y for y in ev[k + 1:k + 2]), None)
            shown[pos] = (w, g[1] if g and g[0] == 'G' else None)
            pos += len(w)
        elif x[0] == 'O':
            st.append([pos, x[2]])
        elif x[0] == 'C':
            s, n = st.pop()
            num[n] = (s, pos)
        elif x[0] == 'T':
            tags.append((pos, st[-1][1], x[1]))
    n = 0
    for w, place, use, k in c['uses']:
        if '?' in use or place is None:
            continue
        if c['words'][k] != w:
            r.incon('word index')
            return 0
        g = shown.get(off[k])
        want = m.adv(w, place, use)
        n += 1
        if g is None or g[0] != letters(w) or (g[1] or '') != want:
            r.bad('gloss', 'the word %s (place %d, use %s) shows %r, its entry gives %r, in "%s"' % (w, place, use, g, want, text))
            return n
    # tags
    wt = {}
    for a, b, ts in c['terms']:
        if ts:
            wt.setdefault((off[a], off[b]), []).append(ts)
    for pos, br, ts in tags:
        want = wt.get((pos, num[br][1]))
        for t in ts:
            mm = re.match(r"([a-z',]+)(\d+)(\.\.)?\((.*)\)$", t, re.S)
            mo = re.match(r"#(\d+)-([a-z']+)(\d+)\((.*)\)$", t, re.S)
            if t.startswith('jai+'):
                continue
            if mm and mm.group(1) in GOHA:
                full, got = '', mm.group(4)
            elif mm:
                full = fmt.squeeze(m.adv(mm.group(1), int(mm.group(2)), 't'))
                got = mm.group(4)
                if mm.group(3):
                    full, got = full.replace('%d', '0'), re.sub(r'\d+', '0', got)
            elif mo:
                full = fmt.squeeze(m.adv(mo.group(2), int(mo.group(3)), 't')).replace('%d', mo.group(1))
                got = mo.group(4)
            else:
                continue
            n += 1
            if got != full:
                r.bad('tag gloss', 'the tag %s has the gloss %r, its entry gives %r, in "%s"' % (t.split('(')[0], got, full, text))
                return n
    return n
