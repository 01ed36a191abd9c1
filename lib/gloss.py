"""The documented choice of a gloss: dictionary entry for word, place and use, redirections, patterns for lujvo, word classes, and the
forms made up for words without an entry.  Uses: n noun, v verb, q qualifier, t tag."""
import re
import jb, morfo

CONS = set('bcdfghjklmnpqrstvwxz')
VOW = set('aeiou')
PREP = re.compile(r'\s*(in|at|with|through)')
SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}


class Loop(Exception):
    """a redirection that never ends"""


def star(x):
    k = x.find('*')
    if k >= 0 and (k + 1 == len(x) or x[k + 1].isspace() or x[k + 1] == '/'):
        return x[:k], x[k + 1:]
    return None


def inflect(x, f, of=False):
    s = star(x)
    if s is None:
        return f(x)
    head, rest = s
    return inflect(head, f, of) + (' of' if of and not PREP.match(rest) else '') + (inflect(rest, f, of) if '*' in rest else rest)


def plural(x):
    def f(x):
        if x.endswith(('s', 'z', 'x', 'ch')):
            return x + '(es)'
        if len(x) > 1 and x[-1] == 'y' and x[-2] in CONS:
            return x + '(ies)'
        return x + '(s)'
    return inflect(x, f)


def er(x):
    return inflect(x, lambda x: x + ('-r(s)' if x.endswith('e') else '-er(s)'), True)


def ing(x):
    def f(x):
        if len(x) > 1 and x[-1] == 'e' and x[-2] not in VOW:
            return x[:-1] + '-ing'
        return x + '-ing'
    return inflect(x, f)


def basic(x):
    return re.sub(r'\*(?=\s)', '', x)


def fix(t, use, w1n):
    """the gloss made from an entry; None for an unknown class"""
    if t[1:2] != ';':
        return t
    c, w = t[0], t[2:]
    if c in 'DE':
        return {'n': lambda: plural(w), 'v': lambda: 'being ' + (w1n or plural(w)), 'q': lambda: basic(w) + '-ish', 't': lambda: w1n or plural(w)}[use]()
    if c == 'S':
        return {'n': basic(w), 'v': 'being ' + (w1n or w), 'q': w + '-ish', 't': w1n or w}[use]
    if c == 'A':
        return er(w) if use in 'nt' else ing(w)
    if c == 'P':
        return {'n': w + ' thing(s)', 't': w + ' thing(s)', 'v': 'being ' + w, 'q': w}[use]
    if c == 'R':
        return {'n': 'thing(s) ' + w, 't': 'thing(s) ' + w, 'v': 'being ' + w, 'q': w}[use]
    if c == 'I':
        return 'thing(s) ' + ing(w) if use in 'nt' else ing(w)
    return None


class Model:
    """d: the dictionary; comps: word -> its components when it is a lujvo; pre: word -> (components of the prefix, tail) for a
    stage 3 fu'ivla"""
    def __init__(self, d, comps, pre):
        self.d, self.comps, self.pre, self.steps = d, comps, pre, 0
        self.depth = 0
        self.branch = {}

    def hit(self, k):
        self.branch[k] = self.branch.get(k, 0) + 1

    def look(self, k):
        v = self.d.get(k)
        if v is None and ',' in k:
            v = self.d.get(k.replace(',', ''))
        return v

    def adv(self, w, place, use):
        self.steps += 1
        self.depth += 1
        if self.steps > 20000 or self.depth > 150:
            raise Loop
        try:
            return self.adv1(w, place, use)
        finally:
            self.depth -= 1

    def adv1(self, w, place, use):
        if place == 0:
            place, use = 1, 'v'
        t = self.look('%s%d%s' % (w, place, use))
        if t is None and use == 'q':
            t = self.look('%s%da' % (w, place))
        if t is None:
            t = self.look('%s%d' % (w, place))
            if t is not None:
                self.hit('place entry')
        else:
            self.hit('use entry')
        if t is not None:
            if t[:1] == '@':
                m = re.match(r"@([A-Za-z']*)(\d)?", t)
                self.hit('redirection')
                return self.adv(m.group(1), int(m.group(2)), use) if m.group(2) else '??'
            r = fix(t, use, self.look('%s%dn' % (w, place)) or '')
            return '??' if r is None else r
        t = self.look(w)
        if t is not None:
            self.hit('head word')
            return t + '??'
        t = self.pattern(w, place, use)
        if t is not None:
            self.hit('pattern')
            return t
        t = self.unknown(w, place, use)
        self.hit('made up')
        return '??' if t is None else t + '??'

    def split(self, w):
        """-> [(word, places, start, pure start)] and the joined text"""
        orig = w if '+' in w else '+'.join(self.comps[w.replace(',', '')])
        out, p = [], len(orig)
        for x in reversed(orig.split('+')):
            p -= len(x)
            at = p - 1 if p else 0
            if x in SE and out:
                c = out[0]
                c[1][1], c[1][SE[x]] = c[1][SE[x]], c[1][1]
                c[2] = at
            else:
                out.insert(0, [x, list(range(6)), at, at])
            p -= 1
        return out, orig

    @staticmethod
    def mapped(c, place):
        return c[1][place] if 1 <= place <= 5 else place

    def pattern(self, w, place, use):
        if '+' not in w and w.replace(',', '') not in self.comps:
            return None
        cs, orig = self.split(w)
        if len(cs) == 1:
            return self.adv(cs[0][0], self.mapped(cs[0], place), use)
        for prec in range(5, -1, -1):
            for suffix in (1, 0):
                for g in (1, 2):
                    if not suffix and g >= len(cs):
                        break
                    t = self.template(prec, suffix, g, orig, cs, place, use)
                    if t is None:
                        break
                    if t != '-':
                        return t
        return None

    def template(self, prec, suffix, g, orig, cs, place, use):
        if suffix:
            c = cs[len(cs) - g]
            generic, specific = orig[c[3]:], orig[:c[2]]
        else:
            c = cs[g - 1]
            k = cs[g][2] + 1
            generic, specific = orig[:k], orig[k:]
        n = self.mapped(c, place)
        key = '*%d%s%d' % (prec, generic, n)
        t = self.look(key + use)
        if t is None and use == 'q':
            t = self.look(key + 'a')
        full = t is not None
        if not full:
            t = self.look(key)
        if t is None:
            return None
        self.hit('template')
        if t[:1] == '@':
            return self.adv(specific, int(t[1]), use)
        t = re.sub(r'%(\d)([nvqt])', lambda m: self.adv(specific, int(m.group(1)), m.group(2)), t)
        return t if full else fix(t, use, self.look(key + 'n') or '')

    def unknown(self, w, place, use):
        b = w.replace(',', '')
        if '+' in w or b in self.comps:
            cs, _ = self.split(w)
            if len(cs) < 2:
                return None
            return '-'.join(self.adv(c[0], self.mapped(c, place if k == len(cs) - 1 else 1), 'n' if k == len(cs) - 1 else 'q') for k, c in enumerate(cs))
        if b in self.pre:
            comps, tail = self.pre[b]
            cs, _ = self.split('+'.join(comps)) if len(comps) > 1 else ([[comps[0], list(range(6)), 0, 0]], 0)
            return '-'.join(self.adv(c[0], c[1][1], use if k == len(cs) - 1 else 'q') for k, c in enumerate(cs)) + '-[' + tail + ']'
        k = morfo.classify(b)[0] if b else ''
        return '?' if k in ('GISMU', 'STAGE4') else '[NAME]' if k == 'CMENE' else None
