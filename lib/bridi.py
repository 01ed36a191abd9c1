"""Sentences whose argument structure is known, with the tag every argument should carry.

A text is a list of words.  Every Term knows its first and last word and collects tags:
  ('w', word, place) the predicate word's place; ('#', first, last, suffix, place) a place of the group of words first..last;
  ('jai', first, last) the x1 of jai+tag over the unit first..last.
Every word that stands for a predicate gets a use: (word, place that is its x1, 'v' 'n' or 'q', index).
The rules are those of the language: arguments before the selbri fill x1, x2 ...; after it x2, x3 ... as far as free; fa..fu name the
place and the next plain argument takes the place after it; se..xe exchange x1 and x2..x5; be/bei fill x2 ...; jai+tag puts the tag's
argument in x1 and the former x1 in fai; shared arguments of connected tails belong to every part."""
import jb

SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}
FA = {'fa': 1, 'fe': 2, 'fi': 3, 'fo': 4, 'fu': 5}
NP = 60


class Term:
    def __init__(self, kind='pos', n=0):
        self.kind, self.n, self.tags, self.a, self.b = kind, n, [], None, None


class Gen:
    def __init__(self, rng, size=12, brivla=None):
        self.rng, self.left, self.words, self.terms, self.uses = rng, size, [], [], []
        self.jai = 0
        self.brivla = brivla or jb.GISMU + jb.LUJVO[:5]

    # -- output
    def w(self, *ws):
        for x in ws:
            self.words += x.split()

    def pick(self, *a):
        return self.rng.choice(a)

    def p(self, x):
        return self.rng.random() < x

    def deep(self, x=.5):
        """room for something composite?"""
        if self.left <= 0:
            return False
        if self.rng.random() < x:
            self.left -= 1
            return True
        return False

    # -- arguments
    def sumti(self):
        k = self.rng.random()
        if k < .5 or not self.deep(.8):
            self.w(self.pick('mi', 'do', 'ti', 'ta', "ko'a", 'da', "zo'e", 'ma', "go'i bu boi", 'la djan', 'by boi', "zo klama", "ri"))
        elif k < .75:
            self.w(self.pick('le', 'lo', 'le ci boi', 'loi', "le'e", 'ro le'))
            self.selbri('n')
            if self.deep(.25):
                self.relative()
            self.w('ku')
        elif k < .8:
            self.w('lu')
            self.sentence()
            self.w("li'u")
        elif k < .84:
            self.w("la'e", 'do', "lu'u")
        elif k < .9:
            self.sumti()
            self.w(self.pick('e', 'a', 'joi', "onai", 'ce'))
            self.sumti()
        elif k < .95:
            self.w(self.pick('do', "ko'a", 'da'))
            self.relative()
        else:
            self.w(self.pick('re', 'ro', "su'o"))
            self.selbri('n')
            self.w('ku')

    def relative(self):
        if self.p(.6):
            self.w(self.pick('poi', 'noi'))
            self.subsentence()
            self.w("ku'o")
        else:
            self.w(self.pick('pe', 'ne', 'po', 'goi'))
            t = self.term(only='pos')
            t.kind = 'none'
            self.w("ge'u")

    def term(self, only=None, free=None):
        """free: the FA places that may still be named"""
        r = self.rng.random()
        i = len(self.terms)
        t = Term()
        self.terms.append(t)
        t.a = len(self.words)
        if only or r < .68:
            self.sumti()
        elif r < .84 and free:
            f = self.rng.choice(sorted(free))
            free.discard(f)
            t.kind, t.n = ('fai', 0) if f == 'fai' else ('fa', FA[f])
            self.w(f)
            self.sumti()
        elif r < .92:
            t.kind = 'tag'
            self.w(self.pick('bai', 'gau', "se pi'o", 'pu', 'vi', "fi'o klama fe'u", "ca'o", 'ki'))
            self.sumti()
        elif r < .95:
            t.kind = 'none'
            self.w(self.pick('na ku', 'pu ku', 'vi ku', 'bai ku', "ba ku"))
        elif r < .97:
            t.kind = 'none'
            self.w("fi'a")
            self.sumti()
        else:
            t.kind = 'none'
            self.w("nu'i")
            for _ in range(2):
                x = self.term(only='pos')
                x.kind = 'none'
            self.w("nu'u")
        t.b = len(self.words)
        return t

    def termlist(self, ns, free):
        return [self.term(free=free) for _ in range(self.rng.choice(ns))]

    # -- predicates: each returns a function (pre, post, chain) that hands out the places
    def tu2(self, use):
        r = self.rng.random()
        a = len(self.words)
        if r < .55 or not self.deep(.85):
            b = self.rng.choice(self.brivla)
            self.w(b)
            u = [b, 1, use, a]
            self.uses.append(u)

            def go(pre, post, ch):
                places(pre, post, ch, ('w', b))
                u[1:3] = x1_of(ch, use), use.replace('n', 'v') if any(x[0] in ('jai', 'jaitag') for x in ch) else use
            return go
        if r < .72:
            s = self.pick('se', 'te', 've', 'xe')
            self.w(s)
            f = self.tu2(use)
            return lambda pre, post, ch: f(pre, post, ch + [('se', SE[s])])
        if r < .77 and not self.jai:
            self.w('jai', self.pick('gau', 'bai', 'vi', "pi'o", 'ca'))
            a = len(self.words)
            f = self.tu2(use)
            b = len(self.words)
            return lambda pre, post, ch: f(pre, post, ch + [('jaitag', a, b)])
        if r < .79:
            self.w('jai')
            self.jai += 1  # jai over jai+tag is left out
            f = self.tu2(use)
            self.jai -= 1
            return lambda pre, post, ch: f(pre, post, ch + [('jai',)])
        if r < .83:
            self.w(self.pick("na'e", "to'e", "no'e"))
            return self.tu2(use)
        if r < .89:
            n = self.pick('nu', 'ka', 'ni', "du'u", "li'i", "za'i")
            self.w(n)
            u = [n, 1, use, a]
            self.uses.append(u)
            us = [u]
            while self.p(.12):
                # connected abstractors; jbofihe says that it does not work out their places
                if self.p(.2):
                    self.w('nai')
                self.w(self.pick('joi', 'je', 'ja', 'jonai', 'najo', 'ce'))
                n2 = self.pick('nu', 'ka', 'ni', "du'u", "li'i", "za'i")
                us.append([n2, 1, use, len(self.words)])
                self.w(n2)
                self.uses.append(us[-1])
            self.subsentence()
            self.w('kei')

            def go(pre, post, ch):
                if len(us) == 1:
                    places(pre, post, ch, ('w', n))
                for u in us:
                    u[1:3] = x1_of(ch, use), use.replace('n', 'v') if any(x[0] in ('jai', 'jaitag') for x in ch) else use
            return go
        if r < .91:
            self.w('me')
            a = len(self.words)
            self.sumti()
            b = len(self.words)
            self.w("me'u")
            return lambda pre, post, ch: places(pre, post, ch, ('#', a, b, 'me'))
        if r < .94:
            self.w(self.pick('pa', 're ci', "su'o", 'ny'))
            b = len(self.words)
            m = self.pick('moi', 'mei', "si'e", "va'e")
            self.w(m)
            return lambda pre, post, ch: places(pre, post, ch, ('#', a, b, m))
        if r < .96:
            g = self.pick("go'i", 'nei', 'mo', "co'e", 'du')
            self.w(g)
            return lambda pre, post, ch: places(pre, post, ch, ('w', g))
        if r < .97:
            self.w("nu'a")
            self.w(self.pick("su'i", "pi'i", "te'a"))
            b = len(self.words)
            return lambda pre, post, ch: places(pre, post, ch, ('#', a + 1, b, ''))
        if r < .985:
            x, y = self.rng.choice(self.brivla), self.rng.choice(self.brivla)
            self.w(x, 'zei', y)
            b = len(self.words)
            return lambda pre, post, ch: places(pre, post, ch, ('#', a, b, ''))
        self.w('ke')
        f = self.selbri3(use + '?' if use[0] == 'q' else use)
        self.w("ke'e")
        return f

    def tu1(self, use):
        f = self.tu2(use)
        if self.deep(.18):
            free = {'fe', 'fi', 'fo', 'fu', 'fa'}
            ts = []
            for i in range(self.rng.choice([1, 1, 2, 3])):
                self.w('bei' if i else 'be')
                ts.append(self.term(free=free))
            self.w("be'o")

            def go(pre, post, ch):
                f(pre, post, ch + [('links', ts)])
            go.links = ts
            return go
        return f

    def selbri6(self, use):
        if self.deep(.08):
            self.w(self.pick("gu'e", "gu'a", "gu'onai"))
            f = self.selbri2(use + '?' if use[0] == 'q' else use)
            self.w('gi')
            g = self.selbri6(use)
            return both(f, g)
        if self.deep(.08):
            f = self.tu1('q?')
            self.w('bo')
            f([], [], [])
            return self.selbri6(use)
        return self.tu1(use)

    def selbri4(self, use):
        f = self.selbri6(use)
        while self.deep(.12):
            self.w(self.pick('je', 'ja', 'joi', 'jonai', 'naja'))
            if self.p(.3):
                self.w('bo')
                f = both(f, self.selbri6(use))
            elif self.p(.25):
                self.w('ke')
                f = both(f, self.selbri3(use + '?'))
                self.w("ke'e")
            else:
                f = both(f, self.selbri6(use))
        return f

    def selbri3(self, use):
        n = self.rng.choice([1, 1, 1, 1, 2, 2, 3]) if self.left > 0 else 1
        for k in range(n):
            f = self.selbri4('q' if k < n - 1 else use)
            if k < n - 1:
                f([], [], [])
        return f

    def selbri2(self, use):
        f = self.selbri3(use)
        if self.deep(.12):
            self.w('co')
            g = self.selbri2(use)
            last = getattr(g, 'last', g)
            first = f

            def go(pre, post, ch):
                first(pre, [], ch)
                if hasattr(g, 'mid'):
                    g.mid([], [], [])
                last([], post, ch)
            go.last = last

            def mid(pre, post, ch):
                first([], [], [])
                if hasattr(g, 'mid'):
                    g.mid([], [], [])
            go.mid = mid
            return go
        return f

    def selbri(self, use):
        if self.p(.12):
            self.w(self.pick('pu', 'ca', 'vi', "ba'o", 'gau', "ka'e"))
        if self.p(.08):
            self.w('na')
        f = self.selbri2(use)
        if use == 'n':
            f([], [], [])
        return f

    def free_mod(self):
        """a comment, parenthesis or vocative; none of its arguments has to do with the sentence it stands in"""
        old = getattr(self, 'free', None)
        r = self.rng.random()
        if r < .5:
            self.w('sei')
            self.free = {'fa', 'fe', 'fi', 'fo', 'fu'}
            pre = self.termlist([0, 1, 1, 2], self.free)
            if pre:
                self.w('cu')
            self.selbri('v')(pre, [], [])
            self.w("se'u")
        elif r < .75:
            self.w(self.pick('to', "to'i"))
            self.sentence()
            self.w('toi')
        else:
            self.w(self.pick('doi', 'coi', "ki'e nai"))
            self.selbri('n')
            if self.deep(.3):
                self.relative()
            self.w("do'u")
        self.free = old

    # -- sentences
    def tail(self, pre, post_later):
        """bridi-tail: returns a list of functions post -> None"""
        fs = self.tail1()
        if self.deep(.06):
            self.w(self.pick("gi'e", "gi'a", "gi'onai"), 'ke')
            g = self.tail(pre, None)
            self.w("ke'e")
            ts = self.post()
            self.vau()
            return shared(both(fs, g), ts)
        return fs

    def post(self, ns=(0, 0, 1, 1, 2)):
        return self.termlist(ns, self.free)

    def vau(self):
        self.w('vau')

    def tail1(self):
        f = self.tail2()
        while self.deep(.1):
            self.w(self.pick("gi'e", "gi'a", "nagi'u", "gi'onai"))
            g = self.tail2()
            ts = self.post()
            self.vau()
            f = shared(both(f, g), ts)
        return f

    def tail2(self):
        f = self.tail3()
        if self.deep(.05):
            self.w(self.pick("gi'e", "gi'a"), 'bo')
            g = self.tail2()
            ts = self.post()
            self.vau()
            f = shared(both(f, g), ts)
        return f

    def tail3(self):
        if self.deep(.06):
            self.w(self.pick('ge', 'ga', 'ganai'))
            f = self.sub(False)
            self.w('gi')
            g = self.sub(False)
            ts = self.post((0, 0, 1))
            self.vau()
            return shared(both(f, g), ts)
        keep = set(self.free)
        f = self.selbri('v')
        ts = self.post((0, 1, 1, 2, 2, 3))
        self.free = keep          # another part may name the same place
        self.vau()
        if self.deep(.05):
            self.free_mod()
        return lambda pre, post, ch: f(pre, ts + post, ch)

    def sub(self, fresh=True):
        """sentence -> function"""
        old = getattr(self, 'free', None)
        if fresh:
            self.free = {'fa', 'fe', 'fi', 'fo', 'fu', 'fai'}
        pre = self.termlist([0, 1, 1, 1, 2, 3] if fresh else [0, 0, 1], self.free)
        # places named before the selbri are not named again after it
        if pre:
            bare = self.words[-1] in ('mi', 'do', 'ti', 'ta', "ko'a", 'da', 'ku', 'boi', "be'o", "zo'e", 'ma') and pre[-1].kind != 'none'
            if not (bare and self.p(.5)):
                self.w('cu')
                if self.deep(.05):
                    self.free_mod()
        f = self.tail(pre, None)
        if fresh:
            self.free = old
        return lambda p, post, ch: f(p + pre, post, ch)

    def sentence(self):
        self.sub()([], [], [])

    def prenex(self):
        for _ in range(self.pick(1, 1, 2)):
            self.term(only='pos').kind = 'none'
        self.w("zo'u")

    def subsentence(self):
        if self.deep(.05):
            self.prenex()
        self.sentence()

    def text(self):
        n = self.rng.choice([1, 1, 1, 2, 3])
        for i in range(n):
            if i:
                self.w(self.pick('i', 'i', '.i je', "ni'o", 'i ba bo'))
                if self.deep(.1):
                    self.free_mod()
            if self.p(.06):
                self.prenex()
            self.left = max(self.left, 4)
            self.sentence()
        return ' '.join(self.words)


def both(f, g):
    def go(pre, post, ch):
        f(pre, post, ch)
        g(pre, post, ch)
    return go


def shared(f, ts):
    return lambda pre, post, ch: f(pre, ts + post, ch)


def x1_of(ch, use):
    """the word's place that is its x1; None below a jai with conversions, where it is left open"""
    if any(c[0] in ('jai', 'jaitag') for c in ch):
        return None if use[0] == 'q' or any(c[0] == 'se' for c in ch) else 0
    p = list(range(NP))
    for c in reversed(ch):
        if c[0] == 'se':
            p[1], p[c[1]] = p[c[1]], p[1]
    return p[1]


def places(pre, post, ch, pred):
    place = [(pred, i) for i in range(NP)]
    taken = {}
    fai = []
    for c in reversed(ch):
        if c[0] == 'se':
            n = c[1]
            place[1], place[n] = place[n], place[1]
            taken[1], taken[n] = taken.get(n), taken.get(1)
        elif c[0] == 'jaitag':
            fai.insert(0, place[1])
            place[1] = (('jai', c[1], c[2]), None)
            taken[1] = None
        elif c[0] == 'jai':
            fai.insert(0, place[1])
            taken[1] = None
        else:
            fill(c[1], place, taken, fai, 2)
    fill(pre, place, taken, fai, 1)
    fill(post, place, taken, fai, 2)


def fill(ts, place, taken, fai, base):
    for t in ts:
        if t.kind == 'fa':
            t.tags.append(place[t.n])
            taken[t.n] = True
        elif t.kind == 'fai' and fai:
            t.tags.append(fai[0])
    for t in ts:
        if t.kind == 'pos':
            while taken.get(base):
                base += 1
            t.tags.append(place[base])
            taken[base] = True
            base += 1
        elif t.kind == 'fa':
            base = t.n + 1
