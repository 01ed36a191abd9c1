"""Lojban word classification: the morphology description (frozen copies morf_nfa.txt, bctables.txt) simulated directly as a
nondeterministic automaton over letter classes computed here, plus independent letter-level definitions of gismu, lujvo, cmavo and cmene."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))


class Nfa:
    """reader and direct (set-of-states) simulator of a dfasyn description"""

    def __init__(self, path):
        self.abbrev = {}
        self.blocks = {}
        self.syms = {}
        self.results = []      # (expr, value, early)
        self.attrs = set()
        self.default = None
        self.parse(open(path).read())
        self.states = {}       # name -> id
        self.eps, self.tr, self.tags, self.attr = [], [], [], []
        self.expand(self.last, '')
        self.start = self.states[self.entry]
        self.cl = {}
        self.steps = {}
        self.exits = {}
        self.first = self.closure({self.start})

    def parse(self, txt):
        txt = re.sub(r'%\{.*?%\}', '', txt, flags=re.S)
        txt = re.sub(r'#.*', '', txt)
        cur = None
        state = None
        i = 0
        for ln in txt.split('\n'):
            ln = ln.strip()
            if not ln:
                continue
            w = ln.split()
            k = w[0].lower()
            if k == 'tokens':
                self.tokens = w[1:]
            elif k == 'prefix' or k == 'type':
                pass
            elif k == 'abbrev':
                n, e = ln[6:].split('=')
                self.abbrev[n.strip()] = self.tokset(e)
            elif k == 'block':
                cur = {'inst': [], 'states': [], 'last': None}
                self.blocks[w[1]] = cur
                self.last = w[1]
            elif k == 'endblock':
                cur = None
            elif k in ('result', 'earlyresult', 'symresult', 'symbol', 'defresult') and cur is None:
                if k == 'defresult':
                    self.default = w[1]
                elif k == 'symbol':
                    n, e = ln[6:].split('=', 1)
                    self.syms[n.strip()] = self.expr(e)
                else:
                    e, v = ln[len(k):].split('->')
                    self.results.append((self.expr(e), v.strip(), k == 'earlyresult'))
                    if k == 'symresult':
                        self.syms[v.strip()] = self.expr(e)
            elif k == 'attr' and cur is None:
                if w[1].lower() == 'result':
                    self.attrs.add(w[2])
            elif k == 'state':
                m = re.match(r'(?i)state\s+([\w.]+)\s*(?:\((\w+)\))?\s*(.*)$', ln)
                state = {'name': m.group(1), 'attr': m.group(2), 'eps': [], 'tr': [], 'tag': []}
                cur['states'].append(state)
                cur['last'] = m.group(1)
                if m.group(3):
                    self.line(state, m.group(3))
            elif re.match(r'\w+\s*:\s*\w+$', ln):
                a, b = ln.split(':')
                cur['inst'].append((a.strip(), b.strip()))
            else:
                # a transition may go on over lines ending with a comma
                self.line(state, ln)

    def line(self, st, ln):
        if st.get('cont'):
            st['cont'][:] += [x.strip() for x in ln.split(',') if x.strip()]
            if not ln.endswith(','):
                st['cont'] = None
            return
        m = re.match(r'(.*?)(->|=)(.*)$', ln)
        lhs, op, rhs = m.groups()
        if op == '=':
            seq = [self.tokset(x) for x in lhs.split(';')] if lhs.strip() else []
            if seq:
                st['tr'].append((seq, [], rhs.strip()))
            else:
                st['tag'].append(rhs.strip())
            return
        dst = [x.strip() for x in rhs.split(',') if x.strip()]
        seq = [self.tokset(x) for x in lhs.split(';')] if lhs.strip() else []
        if seq:
            st['tr'].append((seq, dst, None))
        else:
            st['eps'] += dst
            dst = st['eps']
        if rhs.rstrip().endswith(','):
            st['cont'] = dst

    def tokset(self, e):
        s = set()
        for t in e.split('|'):
            t = t.strip()
            s |= self.abbrev[t] if t in self.abbrev else {t}
        return s

    def expr(self, e):
        toks = re.findall(r'[A-Za-z_0-9]+|[&|^~!()]', e)
        return compile(' '.join({'&': 'and', '|': 'or', '~': 'not', '!': 'not', '(': '(', ')': ')'}.get(t, 'v(%r)' % t) for t in toks), e, 'eval')

    def sid(self, name):
        if name not in self.states:
            self.states[name] = len(self.eps)
            self.eps.append([])
            self.tr.append([])
            self.tags.append([])
            self.attr.append(None)
        return self.states[name]

    def expand(self, block, pre):
        b = self.blocks[block]
        for n, bl in b['inst']:
            self.expand(bl, pre + n + '.')
        for st in b['states']:
            s = self.sid(pre + st['name'])
            if st['attr']:
                self.attr[s] = st['attr']
            self.tags[s] += st['tag']
            for d in st['eps']:
                self.eps[s].append(self.sid(pre + d))
            for seq, dst, tag in st['tr']:
                cur = s
                for j, ts in enumerate(seq):
                    if j == len(seq) - 1 and dst:
                        for d in dst:
                            self.tr[cur].append((ts, self.sid(pre + d)))
                    else:
                        n = self.sid('%s%s#%d' % (pre, st['name'], len(self.eps)))
                        self.tr[cur].append((ts, n))
                        cur = n
                if tag:
                    self.tags[cur].append(tag)
        if b['last']:
            self.entry = pre + b['last']

    def closure(self, ss):
        todo = list(ss)
        r = set(ss)
        while todo:
            for d in self.eps[todo.pop()]:
                if d not in r:
                    r.add(d)
                    todo.append(d)
        return frozenset(r)

    def step(self, S, tok):
        k = (S, tok)
        r = self.steps.get(k)
        if r is None:
            r = self.steps[k] = self.closure({d for s in S for ts, d in self.tr[s] if tok in ts})
        return r

    def result(self, S):
        """(value, early) for a set of states"""
        r = self.exits.get(S)
        if r is None:
            have = {t for s in S for t in self.tags[s]}
            memo = {}

            def v(n):
                if n in self.syms:
                    if n not in memo:
                        memo[n] = bool(eval(self.syms[n]))
                    return memo[n]
                return n in have
            import builtins
            hits = [(val, early) for e, val, early in self.results if eval(e, {'v': v})] if not self.syms else \
                   [(val, early) for e, val, early in self.results if self.ev(e, have, {})]
            vals = sorted(set(hits))
            at = {self.attr[s] for s in S if self.attr[s] in self.attrs}
            r = self.exits[S] = (vals, at.pop() if len(at) == 1 else (None if not at else '?'))
        return r

    def ev(self, e, have, memo):
        def v(n):
            if n in self.syms:
                if n not in memo:
                    memo[n] = self.ev(self.syms[n], have, memo)
                return memo[n]
            return n in have
        return bool(eval(e, {'v': v}))


CONS = 'bcdfgjklmnprstvxz'
VOWELS = 'aeiou'
INITIAL = set('pl pr fl fr bl br vl vr cp cf ct ck cm cn cl cr jb jv jd jg jm sp sf st sk sm sn sl sr zb zv zd zg zm '
              'tc tr ts kl kr dj dr dz gl gr ml mr xl xr'.split())


def permissible(a, b):
    """may two consonants stand next to each other inside a word?"""
    if a == b:
        return False
    voiced, unvoiced = 'bdgvjz', 'ptkfcsx'
    if (a in voiced and b in unvoiced) or (a in unvoiced and b in voiced):
        return False
    if a in 'cjsz' and b in 'cjsz':
        return False
    return a + b not in ('cx', 'kx', 'xc', 'xk', 'mz')


def consonant_class(L, S, g):
    """letter class of consonant g after S (after L); L in V n r C, S a consonant or '' (y between S and g does not count)"""
    if not S:
        return 'R' if g == 'r' else 'N' if g == 'n' else 'C'
    syl = g in 'lmnr'
    t = L + S + g
    if t in ('rln', 'nlr'):
        return 'HS'
    if L in 'Cn' and S == 'r' and g != 'r':
        return 'HS' if syl else 'H'
    if L == 'r' and S == 'n' and g != 'n':
        return 'HS' if syl else 'H'
    if t == 'Cnr':
        return 'HS'
    if t == 'Vnr':
        return 'NR'
    if not permissible(S, g):
        return 'CN'
    if L == 'n' and S + g in ('dj', 'dz', 'tc', 'ts'):
        return 'BT'
    if S + g in INITIAL:
        return 'CSI' if syl else 'CI'
    return 'CS' if syl else 'CP'


def vowel_class(a, b, c):
    """class of vowel or y c after b after a; consonants and apostrophes are C"""
    if c == 'y':
        if b in 'iu':
            return 'VY'
        if b == 'C':
            return 'Y'
        if b == 'y' and a in 'Cy':
            return 'YY'
        return 'UNK'
    if b + c in ('ai', 'au', 'ei', 'oi'):
        return 'VV'
    if b in 'iu':
        return 'VX'
    if b in VOWELS:
        return 'VO'
    if b == 'C':
        return 'V'
    return 'UNK'


def letters(word):
    """-> [(pos, class, opens a piece, forbids later pieces, starts a Cy)] of the letters but commas"""
    L, S = 'V', ''
    v = 'CC'
    last_freeze = False
    out = []
    for p, ch in enumerate(word):
        if ch == ',':
            continue
        c = ch.lower() if ch.isascii() else '?'
        sets = inh = cy = False
        if c in VOWELS or c == 'y':
            t = vowel_class(v[0], v[1], c)
            v = v[1] + c
            if c == 'y':
                last_freeze = True
            else:
                L, S = 'V', ''
                last_freeze = False
        else:
            v = v[1] + 'C'
            if c == "'":
                t = 'APOS'
                L, S = 'V', ''
                last_freeze = False
            elif c in CONS:
                t = consonant_class(L, S, c)
                if S:
                    inh = True
                else:
                    sets = True
                if last_freeze:
                    cy = True
                L = 'V' if not S else S if S in 'nr' else 'C'
                S = c
                last_freeze = False
            else:
                t = 'UNK'
                L, S = 'V', ''
                last_freeze = False
        out.append((p, t, sets, inh, cy))
    return out


NFA = BC = None


def load():
    global NFA, BC
    if NFA is None:
        NFA = Nfa(os.path.join(HERE, 'morf_nfa.txt'))
        BC = Nfa(os.path.join(HERE, 'bctables.txt'))


def cmene_check(word):
    """-> (bad, splits, marker position, tail position)"""
    load()
    S = BC.first
    mark = None
    for p, ch in enumerate(word):
        if ch == ',':
            continue
        c = ch.lower()
        t = {'d': 'D', 'l': 'L', 'y': 'Y', "'": 'APOS'}.get(c) or (c.upper() if c in VOWELS else 'OCONS')
        S = BC.step(S, t)
        vals, at = BC.result(S)
        names = [x for x, _ in vals]
        if 'BC_CMENE_BAD_SPLIT' in names:
            return True, True, mark, p
        if 'BC_CMENE_BAD_NOSPLIT' in names:
            return True, False, mark, p
        if at == 'ATTR_SEEN_LD':
            mark = p
    return ('BC_CMENE_OK' not in [x for x, _ in BC.result(S)[0]]), False, None, None


CAT = {'CMAVOS': 'cmavo(s)', 'CMAVOS_END_CY': 'cmavo(s)', 'GISMU': 'gismu', 'LUJVO': 'lujvo', 'CULTURAL_LUJVO': 'lujvo (with cultural rafsi)',
       'STAGE3': "fu'ivla (stage-3)", 'STAGE3_CVC': "fu'ivla (stage-3 short rafsi)", 'X_STAGE3': "fu'ivla (multi-stage-3)",
       'X_STAGE3_CVC': "fu'ivla (multi-stage-3, final short rafsi)", 'STAGE4': "fu'ivla (stage-4)", 'CMENE': 'cmene',
       'BAD_TOSMABRU': 'Bad lujvo (y hyphen not required)', 'CULTURAL_BAD_TOSMABRU': 'Bad lujvo (y hyphen not required, with cultural rafsi)',
       'BAD_SLINKUI': "Bad fu'ivla (fails slinku'i test)"}


def classify(word):
    """-> (category or None, [start of each piece], stage-3 hyphen position or None, uppercase?)"""
    load()
    S = NFA.first
    starts, cys = [], []
    inhibited = False
    p1 = p2 = None
    hyph = {}
    for k, (p, t, sets, inh, cy) in enumerate(letters(word)):
        inhibited |= inh
        if k == 0 or (sets and not inhibited):
            starts.append(p)
        if cy:
            cys.append(p)
        at = NFA.result(S)[1]
        if at in ('AT_S3_3', 'AT_XS3_3'):
            hyph[3] = p2
        elif at in ('AT_S3_4', 'AT_XS3_4'):
            hyph[4] = p2
        p2, p1 = p1, p
        S = NFA.step(S, t)
        if not S:
            return None, [], None, False
    vals = NFA.result(S)[0]
    if not vals:
        return None, [], None, False
    if len(vals) > 1:
        raise ValueError('two results for %s: %s' % (word, vals))
    r = vals[0][0][2:]
    m = re.match(r'(.*?)_([01])(_CVC)?$', r)
    dec = 0
    if m:
        r = m.group(1) + (m.group(3) or '')
        dec = int(m.group(2))
    if r in ('BAD_TOSMABRU', 'CULTURAL_BAD_TOSMABRU'):
        dec = 1
    if r == 'CMAVOS_END_CY':
        starts += cys
    if dec:
        starts.pop()
    if r == 'CMENE':
        starts = starts[:1]
    h = None
    if 'STAGE3' in r:
        h = hyph.get(3 if r.endswith('CVC') else 4)
    return r, starts, h, any('A' <= c <= 'Z' for c in word)


def vlatai(word):
    """the line vlatai prints"""
    head = '%-25s : ' % word
    r, starts, h, up = classify(word)
    if r is None:
        return head + 'UNMATCHED : ' + word
    cat = CAT[r]
    mark = tail = None
    if r == 'CMENE':
        bad, split, mark, tail = cmene_check(word)
        if bad:
            cat = 'bad cmene (breaks up)' if split else "bad cmene (doesn't break up)"
        if not (bad and split):
            mark = tail = None
    elif up:
        cat += ' (contains invalid uppercase)'
    s = ''
    for i, ch in enumerate(word):
        if i in starts:
            s += ' '
        if i == h:
            s += '/'
        if (i == mark and i != 0) or i == tail and tail is not None:
            s += '+'
        s += ch
        if i == h:
            s += '/'
    return head + cat + ' : ' + s


def pieces(word):
    """how a word of a text is read -> [(kind, word, offset)] with kind CMAVO BRIVLA CMENE, or None when it is no word"""
    r, starts, h, up = classify(word)
    if r is None or r.startswith('BAD') or r == 'CULTURAL_BAD_TOSMABRU':
        return None
    if r == 'CMENE':
        bad, split, mark, tail = cmene_check(word)
        if not bad:
            return [('CMENE', word, 0)]
        if not split:
            return 'badname'     # no way to read it
        return ('split', mark, tail)
    if up:
        return 'upper'
    ends = starts[1:] + [len(word)]
    out = [('CMAVO', word[a:b], a) for a, b in zip(starts, ends)]
    if r.startswith('CMAVOS'):
        return out
    if r == 'CULTURAL_LUJVO':
        return ('cultural', out[:-1] + [('BRIVLA', out[-1][1], out[-1][2])])
    return out[:-1] + [('BRIVLA', out[-1][1], out[-1][2])]
