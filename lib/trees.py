"""Reading the tree and bracket displays of jbofihe, and texts whose words are known."""
import re
import jb, grammar, ygram

ALIAS = {'NO_CU_SENTENCE': 'sentence', 'OBSERVATIVE_SENTENCE': 'sentence', 'MAIN_SELBRI': 'selbri', 'TERM_FLOATING_NEGATE': 'term',
         'TERM_FLOATING_TENSE': 'term', 'TERM_OTHER': 'term', 'TERM_PLACED_SUMTI': 'term', 'TERM_PLAIN_SUMTI': 'term',
         'TERM_TAGGED_SUMTI': 'term', 'TAGGED_TERMSET': 'term', 'LAHE_SUMTI_6': 'sumti-6',
         'NAHE_BO_SUMTI_6': 'sumti-6', 'NAME_SUMTI_6': 'sumti-6', 'ABSTRACTION': 'tanru-unit-2', 'JAI_TAG_TU2': 'tanru-unit-2',
         'JAI_TU2': 'tanru-unit-2', 'KE_SELBRI3_TU2': 'tanru-unit-2', 'NAHE_TU2': 'tanru-unit-2', 'NUMBER_MOI_TU2': 'tanru-unit-2',
         'SE_TU2': 'tanru-unit-2', 'FREE_VOCATIVE': 'free', 'METALINGUISTIC': 'free', 'PARENTHETICAL': 'free', 'RECIPROCITY': 'free',
         'SUBSCRIPT': 'free', 'UTTERANCE_ORDINAL': 'free', 'FULL_RELATIVE_CLAUSE': 'relative-clause',
         'TERM_RELATIVE_CLAUSE': 'relative-clause', 'MEX_INFIX': 'mex', 'MEX_RP': 'mex', 'INNER_STATEMENT': 'statement',
         'COMPLEX_TENSE_MODAL': 'tense-modal', 'INNER_NUMBER': 'number', 'CTAG': 'tag'}
SELS = set(jb.BYSEL)


def rule_of(label):
    if label in ALIAS:
        return ALIAS[label]
    n = label.lower().replace('_', '-')
    return n if n in grammar.RULES else None


class Bad(Exception):
    pass


class Node:
    __slots__ = ('label', 'kids', 'kind', 'text', 'cls')

    def __init__(self, label=None, kids=None, kind=None, text=None, cls=None):
        self.label, self.kids, self.kind, self.text, self.cls = label, kids, kind, text, cls

    def leaf(self):
        return self.kids is None

    def elided(self):
        return self.kind == 'CMAVO' and self.text[:1].isupper()

    def shape(self):
        return (self.kind, self.text, self.cls) if self.leaf() else (self.label, [k.shape() for k in self.kids])

    def leaves(self):
        st, out = [self], []
        while st:
            n = st.pop()
            if n.leaf():
                out.append(n)
            else:
                st.extend(reversed(n.kids))
        return out

    def nodes(self):
        st = [self]
        while st:
            n = st.pop()
            if not n.leaf():
                yield n
                st.extend(n.kids)


LEAF = re.compile(r'(CMAVO|BRIVLA|CMENE|ZO |LOhU |ZOI|ZEI|BU) : (.*)$', re.S)


def read_tree(out):
    """the -t/-tf display: every node stands below its children, which are one step deeper"""
    pend = {}
    root = None
    lines = out.split('\n')
    while lines and lines[-1] == '':
        lines.pop()
    for ln in lines:
        if root is not None:
            raise Bad('line after the root: %r' % ln)
        m = re.match(r'((?:\| )*)(\+-)?', ln)
        d = len(m.group(1)) // 2 + (1 if m.group(2) else 0)
        if m.group(1) and not m.group(2):
            raise Bad('bad indentation: %r' % ln)
        rest = ln[m.end():]
        lm = LEAF.match(rest)
        if lm:
            kind, text, cls = lm.group(1).strip(), lm.group(2), None
            if kind == 'CMAVO':
                cm = re.match(r"([a-zA-Z',]+) \[(\w+)\]$", text)
                if not cm:
                    raise Bad('bad leaf: %r' % ln)
                text, cls = cm.groups()
            n = Node(kind=kind, text=text, cls=cls)
        elif re.match(r'[A-Z][A-Za-z_0-9]*$', rest):
            n = Node(label=rest, kids=pend.pop(d + 1, []))
        else:
            raise Bad('unknown line: %r' % ln)
        if any(k > d for k in pend):
            raise Bad('children without a parent before %r' % ln)
        if d == 0:
            root = n
        else:
            pend.setdefault(d, []).append(n)
    if root is None or pend:
        raise Bad('tree without a root')
    return root


def without_elided(n):
    if n.leaf():
        return None if n.elided() else n
    kids = [k for k in map(without_elided, n.kids) if k is not None]
    return Node(n.label, kids) if kids or not n.kids else None


def collapsed(n, top=True):
    if n.leaf():
        return n
    kids = []
    for k in n.kids:
        while not k.leaf() and len(k.kids) == 1:
            k = k.kids[0]
        kids.append(collapsed(k, False))
    return Node(n.label, kids)


def read_brackets(out):
    """the default display -> nested lists of words; checks bracket kinds against depth"""
    i, n = 0, len(out)
    stack = [[]]
    skips = [0]                    # a lo'u or zei group is written with the bracket of the next level
    OP, CL = '([{<', ')]}>'
    while i < n:
        c = out[i]
        if c in OP:
            d = len(stack) - 1
            if OP[d % 4] != c and OP[(d + 1) % 4] == c:
                d += 1
            if OP[d % 4] != c:
                raise Bad('bracket %r at depth %d' % (c, d))
            i += 1
            if c == '(':
                m = re.match(r'\d+', out[i:])
                if not m or int(m.group(0)) != d // 4:
                    raise Bad('bracket number at depth %d' % d)
                i += m.end()
            stack.append([])
            skips.append(d - (len(stack) - 2))
        elif c in CL:
            d = len(stack) - 2 + skips[-1]
            if d < 0 or CL[d % 4] != c:
                raise Bad('closing %r at depth %d' % (c, d))
            i += 1
            if c == ')':
                m = re.match(r'\d+', out[i:])
                if not m or int(m.group(0)) != d // 4:
                    raise Bad('bracket number at depth %d' % d)
                i += m.end()
            x = stack.pop()
            if skips.pop() and not (x[:1] == ["lo'u"] or 'zei' in x):
                raise Bad('bracket of the wrong level around %r' % (x,))
            stack[-1].append(x)
        elif c in ' \n\t':
            i += 1
        else:
            m = re.match(r'[^\s()\[\]{}<>]+', out[i:])
            stack[-1].append(m.group(0))
            i += m.end()
    if len(stack) != 1:
        raise Bad('unclosed bracket')
    return stack[0]


# -- texts whose reading is known word by word

def units(rng, toks, aug=0.0, rich=True):
    """[(tok, words, pre, post)]: pre = ba'e words, post = indicator words"""
    out = []
    for i, t in enumerate(toks):
        ws = jb.words_for(rng, t, rich)
        pre, post = [], []
        if aug and rng.random() < aug:
            pre = [rng.choice(["ba'e", "za'e"]) for _ in range(rng.choice([1, 1, 2]))]
        if aug and rng.random() < aug and not (i + 1 < len(toks) and toks[i + 1] in ('NAI', 'CAI', 'BUw')) and not \
                (i == 0 and t in ('CMENE',)):
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < .75:
                    post.append(rng.choice(jb.BYSEL['UI']))
                    if rng.random() < .3:
                        post.append('nai')
                    if rng.random() < .3:
                        w = rng.choice(['cai', 'sai', "ru'e", "cu'i", 'pei'])
                        post.append(w)
                        if rng.random() < .3:
                            post.append('nai')
                elif not post:
                    post.append(rng.choice(['cai', 'sai', "ru'e", "cu'i", 'pei']))
                    if rng.random() < .3:
                        post.append('nai')
        out.append([t, ws, pre, post])
    return out


def unit_text(rng, us, nl=0.0):
    parts = []
    for t, ws, pre, post in us:
        parts += pre + ws + post
    s = ''
    for i, p in enumerate(parts):
        if i:
            s += ('\n' if rng.random() < nl else ' ')
        s += p
    return s


def unit_leaves(us):
    """expected leaves: (kind, text, class)"""
    out = []

    def cm(w):
        return ('CMAVO', w, jb.CMAVO[w][1].replace('SSM_', ''))
    for t, ws, pre, post in us:
        for w in pre:
            out.append(cm(w))
        bare = [w.strip('.') for w in ws]
        if t in ('BRIVLA', 'CMENE'):
            out.append((t, bare[0], None))
        elif t == 'ZOq':
            out.append(('ZO', bare[1], None))
        elif t == 'LOhUq':
            out.append(('LOhU', ' '.join(bare[1:-1]), None))
        elif t == 'ZOIq':
            out.append(('ZOI', ' '.join(ws[2:-1]), None))
        elif t == 'ZEIw':
            out.append(('ZEI', ' '.join(bare), None))
        elif t == 'BUw':
            out.append(('BU', bare[0], None))
        else:
            out.append(cm(bare[0]))
        for w in post:
            out.append(cm(w))
    return out


def unit_display(us, peinai=True):
    """the words each leaf shows in the bracketed display; without peinai, the nai of UI ... pei nai is missing"""
    out = []
    for t, ws, pre, post in us:
        out += [[w] for w in pre]
        bare = [w.strip('.') for w in ws]
        out.append([bare] if t in ('LOhUq', 'ZEIw') else bare)
        for k, w in enumerate(post):
            lost = not peinai and w == 'nai' and post[k - 1] == 'pei' and any(jb.CMAVO[v][0] == 'UI' for v in post[:k])
            out.append([] if lost else [w])
    return out


SKIP = {'UI', 'CAI', 'Y', 'DAhO', 'FUhO', 'FUhE'}


def accepted_toks(rng, E, elide=True, maxlen=60):
    """a class sequence jbofihe ought to accept, terminators often elided; -> toks"""
    while 1:
        r = rng.random()
        if r < .3:
            toks = ygram.targeted(rng, full=rng.random() < .5)
        elif r < .5:
            toks = ygram.sentence(rng, rng.choice([5, 8, 12, 20, 30]), rng.choice([.2, .5, .8]), rng.choice([0, 0, .05, .2]),
                                  full=rng.random() < .4)
        else:
            g = grammar.Gen(rng, budget=rng.choice([4, 6, 8, 12, 20, 30]), pfree=rng.choice([0, 0, 0.05, .15]), popt=rng.choice([.1, .3, .5]))
            tt = g.sentence(rng.choice(['text', 'paragraph', 'paragraph', 'statement', 'sentence']))
            pe = rng.choice([0, .3, .7, 1]) if elide else 0
            toks = [t for t, e in tt if not (e or t == 'CU') or rng.random() > pe]
        if toks and not SKIP & set(toks) and len(toks) <= maxlen:
            return toks
