"""P23: connectives, tenses, modals and attitudinals are glossed by what they mean together with their modifiers and place in the sentence."""
import os, re
import jb, trees, fmt, workload
from harness import Result
PROP = 'P23'
VARIANTS = ['plain']
COUNTS = {'quick': 12000, 'thorough': 150000}
RULE = ('one case = an accepted text derived from the grammar (attached indicators and emphasis included) shown with a random dictionary in which every entry the text can call '
        'for, and every entry of the wrong meaning or context, has a gloss of its own; the row of words and glosses in the HTML display is compared with the one computed from the '
        'parse tree: truth functions of connectives with their na, se and nai, tense compounds and their contexts, converted modals, attitudinals with nai and degree, '
        'and the antecedent of ke\'a; non-trivial when such a gloss was compared; distinct by text')
MEAN = {'A', 'JA', 'GIhA', 'GA', 'GUhA', 'GI', 'JOI', 'BIhI', 'PU', 'ZI', 'ZEhA', 'VA', 'VEhA', 'VIhA', 'FAhA', 'MOhI', 'TAhE', 'ROI', 'FEhE', 'ZAhO', 'CAhA', 'KI', 'CUhE', 'BAI', 'FIhO',
        'JAI', 'UI', 'CAI', 'MOI'}


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()


def gen(ctx, rng, i):
    for _ in range(30):
        toks = trees.accepted_toks(rng, ctx.E, maxlen=60)
        if 'ZEIw' in toks:
            continue
        if MEAN & set(toks) or rng.random() < .15:
            break
    us = trees.units(rng, [t for t in toks if t != 'ZEIw'], rng.choice([0, 0, .05, .15]))
    for u in us:
        if u[0] == 'ZOIq':
            u[1][2:-1] = ['xamgu']
        if u[0] == 'KOhA' and rng.random() < .35:
            u[1] = ["ke'a"]
    return {'text': trees.unit_text(rng, us, rng.choice([0, .1])), 'p': rng.choice([1, .9, .7, .4]), 'seed': rng.randrange(1 << 30)}


def letters(s):
    return re.sub(r"[^a-z']", '', s.lower())


# --- what the words mean -------------------------------------------------------------------------------------------------
TT = ((1, 1), (1, 0), (0, 1), (0, 0))
FN = {'a': lambda x, y: x or y, 'e': lambda x, y: x and y, 'o': lambda x, y: x == y, 'u': lambda x, y: x}
VOWEL = {}
for pre, names in (('', ['a', 'e', 'o', 'u', 'ji']), ('j', ['ja', 'je', 'jo', 'ju', "je'i"]), ("gi'", ["gi'a", "gi'e", "gi'o", "gi'u", "gi'i"]),
                   ('g', ['ga', 'ge', 'go', 'gu', "ge'i"]), ("gu'", ["gu'a", "gu'e", "gu'o", "gu'u", "gu'i"])):
    for v, w in zip('aeou?', names):
        VOWEL[w] = v


def truth(w, se, neg1, neg2):
    """the truth values of 'X w Y' for X, Y = TT, TF, FT, FF"""
    v = VOWEL[w]
    if v == '?':
        return 'QQQQ'
    out = ''
    for x, y in TT:
        a, b = x ^ neg1, y ^ neg2
        out += 'T' if (FN[v](b, a) if se else FN[v](a, b)) else 'F'
    return out


CONTEXT = {}
for c, ls in (('TERM', 'TERM_TAGGED_SUMTI TAGGED_TERMSET'),
              ('LINK', 'TEXT_1C I_JJ_STAG_BO GIHEK_STAG_KE GIHEK_STAG_BO JOIK_EK_KE JOIK_EK_STAG_BO JOIK_STAG_KE JOIK_JEK_STAG_BO'),
              ('NOUN', 'SUMTI_5B SUMTI_TAIL_1 MEX_OPERATOR OPERAND_3 COMPLEX_TENSE_MODAL FREE'),
              ('SELBRI', 'STATEMENT_3 TERM_FLOATING_TENSE GEK_SENTENCE MAIN_SELBRI METALINGUISTIC_MAIN_SELBRI'),
              ('JAI', 'JAI_TAG_TU2'), ('CONNECT', 'GEK')):
    for x in ls.split():
        CONTEXT[x] = c
CONTEXTS = ['TERM', 'NOUN', 'SELBRI', 'LINK', 'CONNECT', 'JAI']
QUIET = {'UI', 'CAI', 'BAhE', 'DAhO', 'Y', 'FUhO'}
ANTE = {'SUMTI': 0, 'SUMTI_5': 0, 'SUMTI_TAIL_1': 0, 'LAHE_SUMTI_6': 'SUMTI', 'NAHE_BO_SUMTI_6': 'SUMTI', 'NAME_SUMTI_6': None, 'FREE_VOCATIVE': None, 'SUMTI_TAIL': 'SUMTI_6'}
UNSEEN = object()


def sel(n):
    return jb.CMAVO[n.text][0] if n.kind == 'CMAVO' else None


def bare(n):
    """the word itself of one with indicators or ba'e attached"""
    while not n.leaf() and n.label == 'AUGMENTED':
        n = next((k for k in n.kids if not (k.leaf() and sel(k) == 'BAhE')), n.kids[-1])
    return n


class Row:
    """the row of words and glosses for a tree"""
    def __init__(self, tree, d):
        self.d = d              # entry -> gloss, or None while the entries called for are gathered
        self.asked = set()
        self.compound = set()
        self.out, self.nature = [], []
        self.up = {}
        self.span = {}
        self.pos = 0
        st = [tree]
        while st:
            n = st.pop()
            if not n.leaf():
                for k in n.kids:
                    self.up[id(k)] = n
                    st.append(k)
        self.spans(tree)
        self.emit(tree, 'b')

    def spans(self, n):
        a = self.pos
        if n.leaf():
            self.pos += len(letters(shown(n)))
        else:
            for k in n.kids:
                self.spans(k)
        self.span[id(n)] = (a, self.pos)

    def look(self, k):
        self.asked.add(k)
        return None if self.d is None else self.d.get(k)

    def word(self, w):
        self.out.append(('W', letters(w)))

    def gloss(self, g, nature):
        if g:
            self.out.append(('G', g, nature))

    def context(self, n):
        n = self.up.get(id(n))
        while n is not None:
            if n.label in CONTEXT:
                return CONTEXT[n.label]
            n = self.up.get(id(n))
        return None

    def kid(self, n, s):
        """the word of class s standing directly in n"""
        for k in n.kids:
            b = bare(k)
            if b.leaf() and sel(b) == s:
                return b
        return None

    def node(self, n, label):
        return next((k for k in n.kids if not k.leaf() and k.label == label), None)

    def kids(self, n, what):
        ks = n.kids
        i = 0
        while i < len(ks):
            k = ks[i]
            if k.leaf() and sel(k) in ('UI', 'CAI'):
                i = self.indicator(ks, i, what)
            else:
                self.emit(k, what)
                i += 1

    def indicator(self, ks, i, what):
        """an attitudinal with its nai and its degree -> the index behind"""
        own = ks[i].text
        show = own
        ui = sel(ks[i]) == 'UI'

        def more(s):
            return i < len(ks) and ks[i].leaf() and sel(ks[i]) == s
        i += 1
        if more('NAI'):
            own += 'nai'
            show = own
            i += 1
        deg = None
        if ui and more('CAI'):
            deg = ks[i].text
            i += 1
            if more('NAI'):
                deg += 'nai'
                i += 1
            show += deg
        if what in 'bwi':
            self.word(show)
        # in the words of a connective or a compound the attitudinals keep their gloss, other words do not
        if what in 'bgi':
            t = self.look(own)
            m = None
            if deg:
                key = {"cu'inai": "cu'i"}.get(deg, deg)
                m = self.look(key) or '?'
            if t:
                self.gloss('{' + (m + ' ' if deg else '') + t + '..}', 'attitudinals')
        return i

    def emit(self, n, what):
        if n.leaf():
            return self.leafy(n, what)
        lab = n.label
        if lab == 'TIME_OFFSET':
            ws = [x.text for x in (self.kid(n, 'PU'), self.kid(n, 'NAI'), self.kid(n, 'ZI')) if x]
            if what in 'bwi':
                self.kids(n, 'i')
            if what in 'bg':
                t = self.tense(''.join(ws), self.context(n))
                if len(ws) > 1:
                    self.compound.add(''.join(ws))
                if t is None:
                    t = ' '.join(self.look(w) or '?' for w in ws)
                self.gloss(t, 'tenses')
        elif lab in ('SPACE_INT_PROP', 'INTERVAL_PROPERTY', 'NUMBER_MOI_TU2'):
            c = self.context(n) if lab != 'NUMBER_MOI_TU2' else None
            text = self.cluster(n)
            t = self.tense(text, c)
            self.compound.add(text)
            if t is None:
                self.kids(n, what)
            else:
                if what in 'bwi':
                    self.kids(n, 'i')
                if what in 'bg':
                    self.gloss(t, 'compounds')
        elif lab == 'SUMTI_TAIL' and not n.kids[0].leaf() and n.kids[0].label == 'SUMTI_6':
            # the possessor's words come first, its gloss behind the rest
            if what in 'bwi':
                self.emit(n.kids[0], 'w')
            for k in n.kids[1:]:
                self.emit(k, what)
            if what in 'bg':
                self.emit(n.kids[0], 'g')
        elif lab in ('JEK', 'JEK_OPT_KE', 'JEK_OPT_KEBO', 'EK', 'GIHEK', 'GUHEK', 'GEK', 'GIK'):
            if what in 'bwi':
                self.kids(n, 'i')
            if what in 'bg':
                self.connective(n)
        else:
            self.kids(n, what)

    def connective(self, n):
        lab = n.label
        if lab in ('JEK', 'JEK_OPT_KE', 'JEK_OPT_KEBO', 'EK', 'GIHEK'):
            key = self.kid(n, {'EK': 'A', 'GIHEK': 'GIhA'}.get(lab, 'JA'))
            p = truth(key.text, bool(self.kid(n, 'SE')), bool(self.kid(n, 'NA')), bool(self.kid(n, 'NAI')))
            self.gloss(self.look(p + '@AFTER'), 'afterthought connectives')
            return
        mid = lab == 'GIK'
        par = self.up[id(n)]
        if mid:
            gek = next((k for k in par.kids if not k.leaf() and k.label in ('GEK', 'GUHEK')), None)
            if gek is None:
                return
            gik = n
        else:
            gek, gik = n, self.node(par, 'GIK')
        key = self.kid(gek, 'GUhA') or self.kid(gek, 'GA')
        neg2 = bool(self.kid(gik, 'NAI'))
        if key:
            p = truth(key.text, bool(self.kid(gek, 'SE')), bool(self.kid(gek, 'NAI')), neg2)
            self.gloss(self.look(p + ('@GI' if mid else '@GE')), 'forethought connectives')
            return
        joik, stag, own = self.node(gek, 'JOIK'), self.node(gek, 'STAG'), self.node(gek, 'GIK')
        if own:         # tag gi X gi Y: the tag's meaning belongs between X and Y
            if not mid and self.kid(own, 'NAI'):
                self.gloss('something other than', 'tag connectives')
            if mid:
                self.emit(stag, 'g')
                if neg2:
                    self.gloss('other than', 'tag connectives')
        elif mid:
            if neg2:
                self.gloss('other than', 'tag connectives')
            self.emit(joik, 'g')

    def cluster(self, n):
        if n.leaf():
            if n.kind == 'CMAVO':
                return '' if sel(n) in QUIET else n.text
            return n.text if n.kind == 'BU' else ''
        return ''.join(self.cluster(k) for k in (n.kids if n.label != 'AUGMENTED' else [bare(n)]))

    def tense(self, w, c):
        t = self.look(w + '@' + c) if c else None
        return self.look(w) if t is None else t

    def leafy(self, n, what):
        s = sel(n)
        if what in 'bwi':
            self.word(shown(n))
        if what not in 'bg' and not (what == 'i' and s in ('BAhE', 'Y', 'DAhO', 'FUhO')):
            return
        if n.kind == 'CMAVO':
            w = n.text
            if s == 'BAI':
                p = self.up[id(n)]
                while p.label == 'AUGMENTED':
                    p = self.up[id(p)]
                key = w
                if p.label == 'SE_BAI':
                    key = bare(p.kids[0]).text + w
                c = self.context(n)
                t = self.look(key + '@JAI') if c == 'JAI' else self.look(key)
                if t is None:
                    t = self.look(w)
                    t = t + ' (CONV?)' if t is not None else '?'
                self.gloss(t, 'modals')
            elif s == 'GOI':        # left out before a term with a tag of its own, which says the relation
                p = self.up[id(n)]
                while p.label == 'AUGMENTED':
                    p = self.up[id(p)]
                term = self.node(p, 'TERM')
                if not (term and term.kids[0].label in ('TERM_TAGGED_SUMTI', 'TAGGED_TERMSET')):
                    self.gloss(self.look(w), 'single words')
            elif s in ('SE', 'NU', 'JAI'):
                pass            # part of the predicate word's gloss, or P14's business
            elif w == "ke'a":
                t = self.look(w)
                if t:
                    self.gloss((t, self.antecedent(n)), "ke'a")
            elif s in ('PU', 'ZAhO', 'VA', 'FAhA'):
                self.gloss(self.tense(w, self.context(n)), 'tenses')
            else:
                self.gloss(self.look(w), 'single words')
        elif n.kind == 'LOhU':
            if n.text in jb.CMAVO:
                self.gloss(self.look(n.text), 'quotations')
        elif n.kind == 'ZO':
            if n.text in jb.CMAVO:
                self.gloss('"%s"' % (self.look(n.text) or '?'), 'quotations')

    def antecedent(self, n):
        p = self.up.get(id(n))
        while p is not None and p.label != 'RELATIVE_CLAUSE':
            p = self.up.get(id(p))
        while p is not None and p.label != 'RELATIVE_CLAUSES':
            p = self.up.get(id(p))
        if p is None:
            return None
        e = self.up[id(p)]
        if e.label not in ANTE:
            return None
        a = ANTE[e.label]
        x = e if a is None else e.kids[0] if a == 0 else self.node(e, a)
        return self.span[id(x)] if x is not None else None


def shown(n):
    return {'ZO': 'zo %s', 'LOhU': "lo'u %s le'u", 'BU': '%s bu', 'ZOI': 'zoi gy %s gy'}.get(n.kind, '%s') % n.text


def judge(ctx, c):
    import random
    r = Result()
    t = c['text']
    rc, o, e = ctx.J.jbofihe(t, '-tf', timeout=60)
    if rc:
        r.count('not accepted')
        return r
    try:
        tree = trees.read_tree(o.decode('latin1'))
        first = Row(tree, None)
    except trees.Bad as ex:
        r.bad('display', '"%s": %s' % (t, ex))
        return r
    rng = random.Random(c['seed'])
    keys = sorted(first.asked)
    for k in keys:
        if rng.random() < .5 and re.fullmatch("[a-z']+(@[A-Z]+)?", k):
            first.asked.add(k.split('@')[0] + '@' + rng.choice(CONTEXTS))
        if k.split('@')[0] in jb.CMAVO:
            first.asked.add(k.split('@')[0])
    for n in tree.leaves():         # entries a wrong reading would call for
        if sel(n) == 'BAI':
            first.asked |= {p + n.text for p in ('se', 'te', 've', 'xe')}
        if sel(n) in ('UI', 'CAI'):
            first.asked |= {n.text, n.text + 'nai'}
    first.asked |= {a + '@' + b for a in PATTERNS for b in ('AFTER', 'GE', 'GI')}
    d, back = {}, {}
    for i, k in enumerate(sorted(first.asked)):
        if rng.random() < c['p'] or k == "ke'a":
            d[k] = 'gz%d' % i
            back['gz%d' % i] = k
    f = os.path.join(ctx.tmp, 'd.dat')
    workload.write_dict(f, d)
    rc, o, e = jb.run(os.path.join(ctx.J.d, 'jbofihe'), ['-H'], t, jb.base_env(f), timeout=60)
    if rc:
        r.bad('exit', '-H exits %s where -tf exits 0 for "%s"' % (rc, t)) if rc != -9999 else r.incon('watchdog')
        return r
    try:
        ev = fmt.read_html(o.decode('latin1'))
    except fmt.Bad as ex:
        r.bad('html', '%s for "%s"' % (ex, t))
        return r
    want, nat = [], {}
    cur = ''
    OWN = ('something other than', 'other than')
    keep = lambda g: 'gz' in g or g in OWN
    for x in Row(tree, d).out:
        if x[0] == 'W':
            cur += x[1]
        elif isinstance(x[1], tuple) or keep(x[1]):
            want.append((cur, x[1]))
            nat[len(want) - 1] = x[2]
    whole = cur
    said = letters(re.sub(r"\b(?:zoi|la'o)\s+(\w+)\.\s+(\w+)\s+\.\1", r'zoi gy \2 gy', t))
    if whole != said:
        r.bad('words of the tree', 'the words of the tree are %s, those of the text %s, for "%s"' % (whole, said, t))
        return r
    num, st, got, cur = {}, [], [], ''
    for x in ev:
        if x[0] == 'W':
            w = x[1]
            m = re.match(r"(zoi|la'o) (\S+) (.*) (\S+)$", w, re.S)
            cur += letters('zoi gy %s gy' % m.group(3) if m else w)
        elif x[0] == 'G' and keep(x[1]):
            got.append((cur, x[1]))
        elif x[0] == 'O':
            st.append((x[2], len(cur)))
        elif x[0] == 'C':
            n, a = st.pop()
            num[n] = (a, len(cur))
    if cur != whole:
        r.bad('words', 'the words displayed for "%s" are %s, those of the tree %s' % (t, cur, whole))
        return r
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        same = g == w
        if g and w and isinstance(w[1], tuple):
            m = re.match(r'(gz\d+)(?: #(\d+))?$', g[1])
            same = bool(m) and m.group(1) == w[1][0] and (num.get(int(m.group(2))) if m.group(2) else None) == w[1][1] and g[0] == w[0]
        if not same:
            name = lambda z: 'nothing' if z is None else re.sub(r'gz\d+', lambda m: 'the entry of ' + back[m.group()], z[1] if isinstance(z[1], str) else '%s (antecedent %s)' % (z[1][0], whole[slice(*w[1][1])] if z[1][1] else 'none')) + ' after "...%s"' % z[0][-20:]
            r.bad('gloss of ' + (nat.get(k) or 'something else'), '%s is shown, %s expected, in "%s"' % (name(g), name(w), t))
            return r
    for k in nat.values():
        r.count('glosses of ' + k)
    if set(nat.values()) - {'single words', 'quotations'}:
        r.nontrivial = t
    return r


PATTERNS = [''.join(x) for x in __import__('itertools').product('FT', repeat=4)] + ['QQQQ']
