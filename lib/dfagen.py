"""Random state-machine descriptions for dfasyn, with a direct simulator of what they say.

A description is built as data first:
  tokens, abbrevs {name: [names]}, blocks [(name, instances [(inst, block)], states [(name, attr, [trans])])]
  trans = (path, dest) ; path = list of steps ; step = ('opt', [names or None]) | ('blk', [(block,in,out) or None])
  dest = ('to', [names]) | ('tag', name)
  results = [(kind, expr or None, value)], symbols ..., and likewise for attributes.
text() writes it in dfasyn's language; Machine() flattens it to an NFA by the language's rules and simulates it.
"""
import random


def expr_text(e, rng):
    k = e[0]
    if k == 'sym':
        return e[1]
    if k == 'wild':
        return '*'
    if k == 'not':
        return rng.choice('!~') + '(' + expr_text(e[1], rng) + ')'
    if k == 'cond':
        return '(' + expr_text(e[1], rng) + ' ? ' + expr_text(e[2], rng) + ' : ' + expr_text(e[3], rng) + ')'
    return '(' + expr_text(e[1], rng) + {'and': ' & ', 'or': ' | ', 'xor': ' ^ '}[k] + expr_text(e[2], rng) + ')'


def rnd_expr(rng, syms, d=2, wild=True):
    k = rng.random()
    if d == 0 or k < .4:
        return ('wild',) if wild and rng.random() < .12 else ('sym', rng.choice(syms))
    if k < .55:
        return ('not', rnd_expr(rng, syms, d - 1, wild))
    if k < .75:
        return ('and', rnd_expr(rng, syms, d - 1, wild), rnd_expr(rng, syms, d - 1, wild))
    if k < .85:
        return ('or', rnd_expr(rng, syms, d - 1, wild), rnd_expr(rng, syms, d - 1, wild))
    if k < .92:
        return ('xor', rnd_expr(rng, syms, d - 1, wild), rnd_expr(rng, syms, d - 1, wild))
    return ('cond', rnd_expr(rng, syms, d - 1, wild), rnd_expr(rng, syms, d - 1, wild), rnd_expr(rng, syms, d - 1, wild))


def rules(rng, tags, base, early_ok):
    """-> (rules, defval). Rules are made mutually exclusive most of the time, so that descriptions are usable."""
    out, syms = [], list(tags)
    n = rng.randint(1, 5)
    mode = rng.random()
    used = []
    for i in range(rng.choice([0, 0, 1, 2])):
        nm = 'SYM%s%d' % (base, i)
        e = rnd_expr(rng, syms, 2, False)
        out.append(('symbol', nm, e))
        syms.append(nm)
    for i in range(n):
        e = ('sym', rng.choice(tags)) if rng.random() < .5 else rnd_expr(rng, syms)
        if mode < .5:                      # priority by explicit negation
            ex = e
            for u in used:
                ex = ('and', ex, ('not', u))
            used.append(e)
            e = ex
        elif mode < .9:                    # priority by wildcard
            e = ('and', e, ('not', ('wild',))) if i else e
        early = early_ok and rng.random() < .2
        if rng.random() < .25 and mode >= .5:
            nm = 'RES%s%d' % (base, i)
            out.append(('earlysymresult' if early else 'symresult', nm, e))
        elif e[0] == 'sym' and e[1] in tags and rng.random() < .5:
            out.append(('earlyresult0' if early else 'result0', e[1], e))
        else:
            out.append(('earlyresult' if early else 'result', str(i + 1), e))
    return out, (str(rng.choice([0, 0, 90])) if rng.random() < .8 else None)


def make(rng):
    d = {}
    nt = rng.choice([1, 2, 3, 4, 5, 8, 12, 33])
    d['tokens'] = ['T%d' % i for i in range(nt)]
    d['abbrevs'] = []
    names = list(d['tokens'])
    for i in range(rng.choice([0, 0, 1, 3])):
        nm = 'AB%d' % i
        d['abbrevs'].append((nm, [rng.choice(names) for _ in range(rng.randint(1, 4))]))
        names.append(nm)
    tags = ['G%d' % i for i in range(rng.choice([1, 2, 3, 4]))]
    attrs = ['K%d' % i for i in range(rng.choice([1, 2, 3]))]
    blocks = []
    nb = rng.choice([1, 1, 2, 3])
    for b in range(nb):
        main = b == nb - 1
        insts = []
        if b and rng.random() < .5:
            for i in range(rng.randint(1, 2)):
                insts.append(('i%d' % i, rng.choice(blocks)[0]))
        ns = rng.choice([1, 2, 3, 5, 9, 20] if main else [1, 2, 3])
        sts = ['s%d' % i for i in range(ns)]
        if not main:
            sts = ['in'] + sts
        targets = sts + ([] if main else ['out', 'out'])
        ext = list(targets)
        for i, bn in insts:
            ext += [i + '.in', i + '.in', i + '.out']
        decl = list(sts)
        for i, bn in insts:
            if rng.random() < .7:
                decl.insert(0, i + '.out')
        if not main and rng.random() < .5:
            decl.append('out')
        states = []
        for s in decl:
            trs = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                path = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    if b and rng.random() < .2:
                        alts = [(rng.choice(blocks)[0], 'in', 'out') for _ in range(rng.choice([1, 1, 2]))]
                        if rng.random() < .3:
                            alts.append(None)
                        path.append(('blk', alts))
                    else:
                        o = [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2]))]
                        if rng.random() < .12:
                            o.append(None)
                        path.append(('opt', o))
                if rng.random() < (.35 if main else .1):
                    dest = ('tag', rng.choice(tags))
                else:
                    dest = ('to', [rng.choice(ext) for _ in range(rng.choice([1, 1, 2]))])
                trs.append((path, dest))
            states.append((s, rng.choice(attrs) if rng.random() < .25 else None, trs))
        blocks.append(('B%d' % b, insts, states))
    d['blocks'] = blocks
    d['tags'] = tags
    d['results'], d['defresult'] = rules(rng, tags, '', True)
    d['attrs'], d['defattr'] = (rules(rng, attrs, 'A', False)) if rng.random() < .6 else (None, None)
    d['prefix'] = rng.choice([None, 'pf', 'x1'])
    d['type'] = rng.choice([None, 'int', 'unsigned char'])
    return d


def text(d, rng):
    o = []
    cs = lambda w: rng.choice([w, w.upper(), w.capitalize()])
    vals = sorted({v for k, v, e in d['results'] + (d['attrs'] or []) if not v.isdigit() and k != 'symbol'})
    o.append('%{')
    for v in vals:
        o.append('#define %s %d' % (v, value(d, v)))
    o.append('%}')
    o.append(cs('tokens') + ' ' + ' '.join(d['tokens']))
    if d['prefix']:
        o.append(cs('prefix') + ' ' + d['prefix'])
    for n, r in d['abbrevs']:
        o.append(cs('abbrev') + ' %s = %s' % (n, ' | '.join(r)))
    rs = []
    for pre, rl, df in (('', d['results'], d['defresult']), (rng.choice(['attr ', 'Attribute ']), d['attrs'], d['defattr'])):
        if rl is None:
            continue
        for k, v, e in rl:
            if k == 'symbol':
                rs.append(pre + cs('symbol') + ' %s = %s' % (v, expr_text(e, rng)))
            elif k.endswith('0'):
                rs.append(pre + cs(k[:-1]) + ' ' + v)
            else:
                rs.append(pre + cs(k) + ' %s -> %s' % (expr_text(e, rng), v))
        if df is not None:
            rs.append((pre + cs('defresult') if not pre or rng.random() < .5 else cs('defattr')) + ' ' + df)
    if d['type']:
        rs.append('type "%s"' % d['type'])
    if rng.random() < .5:
        o += rs
        rs = []
    for bn, insts, states in d['blocks']:
        o.append(cs('block') + ' ' + bn)
        for i, b in insts:
            o.append('  %s : %s' % (i, b))
        for s, a, trs in states:
            o.append('  ' + cs('state') + ' ' + s + (' (%s)' % a if a else ''))
            for path, dest in trs:
                ps = []
                for k, xs in path:
                    if k == 'opt':
                        ps.append(' | '.join(x or '' for x in xs))
                    else:
                        ps.append(' | '.join('<%s:%s->%s>' % x if x else '' for x in xs))
                o.append('    ' + ' ; '.join(ps) + (' -> ' + ', '.join(dest[1]) if dest[0] == 'to' else ' = ' + dest[1]) +
                         (' # comment' if rng.random() < .1 else ''))
        o.append(cs('endblock'))
    o += rs
    return '\n'.join(o) + '\n'


def value(d, v):
    if v.isdigit():
        return int(v)
    vals = sorted({x for k, x, e in d['results'] + (d['attrs'] or []) if not x.isdigit() and k != 'symbol'})
    return 20 + vals.index(v)


class Machine:
    def __init__(self, d):
        self.d = d
        self.tok = {t: i for i, t in enumerate(d['tokens'])}
        self.ab = dict(d['abbrevs'])
        self.built = {}
        for b in d['blocks']:
            self.built[b[0]] = self.block(b)
        self.nfa = self.built[d['blocks'][-1][0]]
        self.start = d['blocks'][-1][2][-1][0]

    def expand(self, n):
        if n in self.ab:
            r = []
            for x in self.ab[n]:
                r += self.expand(x)
            return r
        return [self.tok[n]]

    def block(self, b):
        """-> {state: {'t': [(tok or None, dest)], 'x': set(tags), 'a': set(attrs)}}"""
        S = {}
        cnt = [0]

        def st(n):
            return S.setdefault(n, {'t': [], 'x': set(), 'a': set()})

        def inst(pfx, bn):
            for n, v in self.built[bn].items():
                s = st(pfx + '.' + n)
                s['t'] += [(t, pfx + '.' + q) for t, q in v['t']]
                s['x'] |= v['x']
                s['a'] |= v['a']
        for i, bn in b[1]:
            inst(i, bn)
        for n, a, trs in b[2]:
            st(n)
            if a:
                st(n)['a'].add(a)
            for path, dest in trs:
                cur = n
                for j, (k, xs) in enumerate(path):
                    cnt[0] += 1
                    nx = '#%d' % cnt[0]
                    st(nx)
                    for x in xs:
                        if x is None:
                            st(cur)['t'].append((None, nx))
                        elif k == 'opt':
                            for t in self.expand(x):
                                st(cur)['t'].append((t, nx))
                        else:
                            cnt[0] += 1
                            p = '%s#%d' % (x[0], cnt[0])
                            inst(p, x[0])
                            st(cur)['t'].append((None, p + '.' + x[1]))
                            st(p + '.' + x[2])['t'].append((None, nx))
                    cur = nx
                if dest[0] == 'tag':
                    st(cur)['x'].add(dest[1])
                else:
                    for q in dest[1]:
                        st(cur)['t'].append((None, q))
        for v in list(S.values()):
            for t, q in v['t']:
                st(q)
        return S

    def close(self, ss):
        ss = set(ss)
        todo = list(ss)
        while todo:
            for t, q in self.nfa[todo.pop()]['t']:
                if t is None and q not in ss:
                    ss.add(q)
                    todo.append(q)
        return frozenset(ss)

    def step(self, ss, t):
        return self.close({q for s in ss for u, q in self.nfa[s]['t'] if u == t})

    def evaluate(self, rules, tags):
        """-> (value or None, early) or 'ambiguous'"""
        sym = {v: e for k, v, e in rules if k in ('symbol', 'symresult', 'earlysymresult')}
        any_ = [False]

        def ev(e):
            k = e[0]
            if k == 'sym':
                return ev(sym[e[1]]) if e[1] in sym else e[1] in tags
            if k == 'wild':
                return any_[0]
            if k == 'not':
                return not ev(e[1])
            if k == 'and':
                return ev(e[1]) and ev(e[2])
            if k == 'or':
                return ev(e[1]) or ev(e[2])
            if k == 'xor':
                return ev(e[1]) != ev(e[2])
            return ev(e[2]) if ev(e[1]) else ev(e[3])
        hit = None
        for k, v, e in rules:
            if k == 'symbol':
                continue
            if ev(e):
                if any_[0]:
                    return 'ambiguous'
                any_[0] = True
                hit = (v, k.startswith('early'))
        return hit or (None, False)

    def label(self, ss):
        x = set().union(*[self.nfa[s]['x'] for s in ss])
        a = set().union(*[self.nfa[s]['a'] for s in ss])
        r = self.evaluate(self.d['results'], x)
        q = self.evaluate(self.d['attrs'], a) if self.d['attrs'] is not None else None
        return r, q

    def explore(self, limit=400):
        """reachable subsets -> (list, ambiguous?) or None when there are too many"""
        s0 = self.close({self.start})
        seen = {s0: 0}
        todo = [s0]
        amb = False
        self.lab = {}
        while todo:
            s = todo.pop()
            r, q = self.lab[s] = self.label(s)
            if r == 'ambiguous' or q == 'ambiguous':
                amb = True
                continue
            if r[1]:
                continue
            for t in range(len(self.d['tokens'])):
                n = self.step(s, t)
                if n and n not in seen:
                    if len(seen) >= limit:
                        return None
                    seen[n] = len(seen)
                    todo.append(n)
        return seen, amb

    def run(self, seq):
        """-> list of (exit value, attribute) after each prefix, until failure (None); early results stop the scan"""
        d = self.d
        ss = self.close({self.start})
        out = []
        for t in [None] + list(seq):
            if t is not None:
                if self.lab[ss][0][1]:
                    out.append('early')
                    return out
                ss = self.step(ss, t)
                if not ss:
                    out.append(None)
                    return out
            r, q = self.lab[ss]
            v = value(d, r[0]) if r[0] is not None else int(d['defresult'] or 0)
            a = None
            if d['attrs'] is not None:
                a = value(d, q[0]) if q[0] is not None else int(d['defattr'] or 0)
            out.append((v, a))
        return out
