"""Reading the HTML output into events and following them through the other output formats."""
import html, re


class Bad(Exception):
    pass


SUB = r'<SUB><FONT SIZE="-3">(\d+)</FONT></SUB>'
TOK = re.compile(r'<B>(?P<W>[^<>]*)</B>|<I>(?P<G>[^<>]*)</I>|<U><FONT SIZE=-1>\[(?P<T>[^<>]*):\] </FONT></U>'
                 r'|(?P<O>&lt;&lt;|&lt;|[(\[{])' + SUB.replace('(', '(?P<on>', 1) + r'|(?P<C>&gt;&gt;|&gt;|[)\]}])' + SUB.replace('(', '(?P<cn>', 1) +
                 r'|(?P<Q><FONT SIZE=\+2>&quot;</FONT>)|(?P<A>&lt;-)|(?P<E><P><P>)|(?P<S>\s+)')
PAIR = {'(': ')', '[': ']', '{': '}', '<': '>', '<<': '>>'}


def unesc(s):
    if re.search(r'&(?!amp;|lt;|gt;)', s):
        raise Bad('unescaped & in %r' % s)
    return html.unescape(s)


def read_html(o):
    """events: ('O', kind, n) ('C', kind, n) ('W', word) ('G', gloss) ('T', [tag...]) ('S', special)"""
    i = o.find('<BODY>\n')
    j = o.rfind('</BODY>')
    if not o.startswith('<HTML>') or i < 0 or j < i or o[j:].strip() != '</BODY>':
        raise Bad('HTML frame')
    s = o[i + 7:j]
    p = 0
    ev, st, last = [], [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise Bad('stray %r in the HTML body' % s[p:p + 40])
        p = m.end()
        k = m.lastgroup
        if m.group('on'):
            b, n = html.unescape(m.group('O')), int(m.group('on'))
            if n <= last:
                raise Bad('bracket %d opens after bracket %d' % (n, last))
            last = n
            st.append((b, n))
            ev.append(['O', b, n])
        elif m.group('cn'):
            b, n = html.unescape(m.group('C')), int(m.group('cn'))
            if not st or PAIR[st[-1][0]] != b or st[-1][1] != n:
                raise Bad('bracket %s%d closes %s' % (b, n, st[-1:]))
            ev.append(['C', st.pop()[0], n])
        elif m.group('W') is not None:
            ev.append(['W', unesc(m.group('W'))])
        elif m.group('G') is not None:
            ev.append(['G', unesc(m.group('G'))])
        elif m.group('T') is not None:
            ev.append(['T', [squeeze(unesc(t)) for t in split_tags(m.group('T'))]])
        elif k == 'Q':
            ev.append(['S', '"'])
        elif k == 'A':
            ev.append(['S', '<-'])
    if st:
        raise Bad('brackets left open: %s' % st)
    return ev


def split_tags(t):
    out, cur = [], ''
    for x in re.split(r'(\n, |\n)', t):
        if x == '\n, ':
            out.append(cur)
            cur = ''
        elif x == '\n':
            cur += ' '
        else:
            # a tag made of pieces ends without a line end
            if cur.startswith('jai+') or x.startswith('jai+'):
                ys = re.split(r'(?<=#\d\)), |(?<=#\d\d\)), |(?<=#\d\d\d\)), |(?<=#\d\d\d\d\)), |(?<=#\d\d\d\d\d\)), |(?<=#\d\d\d\d\d\d\)), ', x)
                for y in ys[:-1]:
                    out.append(cur + y)
                    cur = ''
                x = ys[-1]
            cur += x
    return out + [cur]


def squeeze(s):
    return ''.join(s.split())


class At:
    """a cursor over a raw output"""
    def __init__(self, s):
        self.s, self.p = s, 0

    def ws(self):
        q = self.p
        while self.p < len(self.s) and self.s[self.p] in ' \n':
            self.p += 1
        return self.p > q

    def lit(self, x):
        if self.s.startswith(x, self.p):
            self.p += len(x)
            return True
        return False

    def fail(self, what):
        raise Bad('%s expected, found %r' % (what, self.s[self.p:self.p + 60]))

    def need(self, x, what):
        if not self.lit(x):
            self.fail('%s (%r)' % (what, x))

    def squeezed(self, want, what, drop=None):
        """text equal to want up to white space"""
        k = 0
        while k < len(want):
            if drop:
                m = drop.match(self.s, self.p)
                if m and m.end() > self.p:
                    self.p = m.end()
                    continue
            if self.p >= len(self.s):
                self.fail(what)
            c = self.s[self.p]
            if c in ' \n':
                self.p += 1
            elif c == want[k]:
                self.p += 1
                k += 1
            else:
                self.fail('%s %r' % (what, want[k:k + 40]))


def tex(s, plain):
    out = []
    for c in s:
        if c in '&{}%_#':
            out.append('\\' + c)
        elif c == '^':
            out.append('\\^')
        elif c == '$' and plain:
            out.append('\\$')
        elif c == '\\' and plain:
            out.append('\\textbackslash{}')
        elif c in '<>':
            out.append('$%s$' % c)
        else:
            out.append(c)
    return ''.join(out)


LO = {'(': [('(', 'round'), ('$\\lceil$', 'ceil'), ('$\\lfloor$', 'floor')], '[': [('[', 'square')], '{': [('\\{', 'brace')],
      '<': [('$\\langle$', 'angle')], '<<': [('{\\large{} $\\triangleleft$}', 'tri'), ('\\TL{}', 'tri')]}
LC = {'round': [')'], 'ceil': ['$\\rceil$'], 'floor': ['$\\rfloor$'], 'square': [']'], 'brace': ['\\}'], 'angle': ['$\\rangle$'],
      'tri': ['{\\large{} $\\triangleright$}', '\\TR{}']}
NUM = ['{}$^{\\textit{\\scriptsize %d}}$', '{}$^{\\IS{%d}}$']
SPEC = {'"': ["``", "''"], '<-': ['{\\reflectbox{\\zd\\char233}}']}
VSP = re.compile(r'(\s*\\vspace\{[\d.]+ex\})+')


def body_latex(o):
    i, j = o.find('\\begin{document}\n'), o.rfind('\\end{document}')
    if i < 0 or j < i or o[j:].strip() != '\\end{document}':
        raise Bad('LaTeX frame')
    return o[i + 17:j]


def balanced_tex(s):
    """every { has its } and $ come in pairs"""
    d = m = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d < 0:
                raise Bad('unbalanced } in the LaTeX output at %r' % s[max(0, i - 40):i + 10])
        elif c == '$':
            m ^= 1
        i += 1
    if d or m:
        raise Bad('unbalanced LaTeX output')


def bracket(a, e, kinds):
    if e[0] == 'O':
        for lit, kind in LO[e[1]]:
            if a.lit(lit):
                if kinds.setdefault(e[2], kind) != kind:
                    a.fail('bracket %d as in the other display' % e[2])
                break
        else:
            a.fail('open bracket %s%d' % (e[1], e[2]))
    else:
        for lit in LC[kinds[e[2]]]:
            if a.lit(lit):
                break
        else:
            a.fail('close bracket %s%d' % (e[1], e[2]))
    if not any(a.lit(n % e[2]) for n in NUM):
        a.fail('bracket number %d' % e[2])


def follow_latex(o, ev, kinds):
    a = At(body_latex(o))
    prev = None
    for e in ev:
        sp = a.ws()
        m = VSP.match(a.s, a.p)
        if m:
            a.p = m.end()
            sp = True
            a.ws()
        if e[0] in 'WGS' and prev in ('W', 'G', 'S') and not sp:
            a.fail('white space before %s' % e[1])
        if e[0] in 'OC':
            bracket(a, e, kinds)
        elif e[0] == 'W':
            a.need('\\mbox{\\textbf{%s}\\/}' % tex(e[1], 1), 'word')
        elif e[0] == 'G':
            a.need('\\textsl{\\small{}%s}' % tex(e[1], 0), 'gloss')
        elif e[0] == 'S':
            if not any(a.lit(x) for x in SPEC[e[1]]):
                a.fail('special gloss %s' % e[1])
        elif e[0] == 'T':
            want = squeeze('[' + ', '.join(tagtex(t) for t in e[1]) + '~:]')
            k0 = 0
            # pieces \textsl{\footnotesize{}piece}
            got = ''
            while len(got) < len(want):
                a.ws()
                m = re.compile(r'\\textsl\{\\footnotesize\{\}((?:[^\\{}]|\\[^a-z]|\\[a-z]+(?:\{\})?)*)\}').match(a.s, a.p)
                if not m:
                    a.fail('tags %r' % want[len(got):][:40])
                got += squeeze(m.group(1))
                a.p = m.end()
            if got != want:
                raise Bad('LaTeX tags %r, HTML has %r' % (got, want))
        prev = e[0]
    a.ws()
    m = VSP.match(a.s, a.p)
    if m:
        a.p = m.end()
        a.ws()
    if a.p != len(a.s):
        a.fail('end of the LaTeX output')


def tagtex(t):
    """words and glosses in a tag are escaped differently only for $ and \\, which no generated gloss holds"""
    return tex(t, 1)


TXO = {'round': '(', 'square': '[', 'brace': '{', 'angle': '<', 'ceil': '^', 'floor': '^', 'tri': '<<'}
TXC = {'round': ')', 'square': ']', 'brace': '}', 'angle': '>', 'ceil': '^', 'floor': '^', 'tri': '>>'}


def follow_text(o, ev, kinds):
    a = At(o)
    prev = None
    for e in ev:
        sp = a.ws()
        if e[0] in 'WGS' and prev in ('W', 'G') and not sp and not (e[0] == 'S'):
            a.fail('white space before %s' % e[1])
        if e[0] == 'O':
            a.need(TXO[kinds[e[2]]], 'open bracket %d' % e[2])
        elif e[0] == 'C':
            a.need(TXC[kinds[e[2]]], 'close bracket %d' % e[2])
        elif e[0] == 'W':
            a.need(e[1], 'word')
        elif e[0] == 'G':
            a.need('/%s/' % e[1], 'gloss')
        elif e[0] == 'S':
            if not (a.lit("``") or a.lit("''") if e[1] == '"' else a.lit('<-')):
                a.fail('special gloss')
        elif e[0] == 'T':
            a.squeezed(squeeze('[' + ', '.join(e[1]) + ':]'), 'tags')
        prev = e[0]
    a.ws()
    if a.p != len(a.s):
        a.fail('end of the text output')


def blocks(ev, tags_flush):
    """the boxes of a block display: ('B', words, glosses, tags) and brackets"""
    out = []
    W, G, T = [], [], []

    def flush(tags=False):
        nonlocal W, G, T
        if W or G or (tags and T):
            out.append(('B', W, G, T))
            W, G, T = [], [], []
    for e in ev:
        if e[0] in 'OC':
            flush(tags_flush and e[0] == 'O')
            out.append(e)
        elif e[0] == 'W':
            if G:
                flush()
            W.append(e[1])
        elif e[0] in 'GS':
            G.append(e)
        else:
            flush()
            T.append(e[1])
    flush(True)
    return out


def follow_latex_block(o, ev, kinds):
    s = body_latex(o)
    a = At(s)
    a.ws()
    a.need('\\small\n', 'size')
    for b in blocks(ev, False):
        a.ws()
        m = VSP.match(a.s, a.p)
        if m:
            a.p = m.end()
            a.ws()
        if b[0] != 'B':
            bracket(a, b, kinds)
            continue
        x, W, G, T = b
        a.need('\\BT[t]{l}{\\bf', 'block')
        for w in W:
            if not a.ws():
                a.fail('word')
            a.need(tex(w, 1), 'word')
        a.ws()
        a.need('}\\\\{\\it', 'gloss line')
        sp = False
        for g in G:
            sp = a.ws() or sp
            if g[0] == 'S':
                sp = False
                if not any(a.lit(z) for z in SPEC[g[1]]):
                    a.fail('special gloss')
                continue
            if not sp:
                a.fail('gloss')
            a.need(tex(g[1].lstrip(), 0), 'gloss')
            sp = not g[1].strip()
        a.ws()
        a.need('}\\\\[-3pt]', 'tag line')
        want = squeeze(''.join('[' + ', '.join(map(tagtex, t)) + ':]' for t in T))
        m = re.compile(r'\{\\ISS\{\}((?:[^\\{}]|\\[^a-zA-Z\\]|\\[a-z]+(?:\{\})?|\}\\\\\[-3pt\]\{\\ISS\{\})*)\}\\ET\n').match(a.s, a.p)
        if not m:
            a.fail('tags')
        got = squeeze(m.group(1).replace('}\\\\[-3pt]{\\ISS{}', ''))
        if got != want:
            raise Bad('LaTeX block tags %r, HTML has %r' % (got, want))
        a.p = m.end()
    a.ws()
    if a.p != len(a.s):
        a.fail('end of the LaTeX output')


B3 = {'ceil': ([' /', '|', '|'], ['\\', ' |', ' |']), 'floor': (['|', '|', ' \\'], [' |', ' |', '/'])}


def glosses(G):
    return ''.join(x[1] if x[0] == 'S' else x[1] + ' ' for x in G)


def follow_block(o, ev, kinds, width=None):
    """-> statistics; groups of equally padded lines, each box starts in one column in all of them"""
    groups, cur = [], []
    for ln in o.split('\n'):
        if ln == '' or re.match(r'-{20,}$', ln):
            if cur:
                groups.append(cur)
            cur = []
        else:
            cur.append(ln)
    if cur:
        raise Bad('block output does not end with a blank line')
    gi, col, inb = 0, 0, 0
    bl = blocks(ev, True)
    for i, b in enumerate(bl):
        if b is None:
            continue
        if b[0] != 'B':
            o_, c_ = B3.get(kinds[b[2]], ([TXO[kinds[b[2]]]] * 3, [TXC[kinds[b[2]]]] * 3))
            rows = [r + ' ' for r in (o_ if b[0] == 'O' else c_)] + ['%d ' % b[2]]
            x = bl[i + 1] if i + 1 < len(bl) else b
            if x[0] == 'B' and not x[1] and not x[3]:
                # a gloss without a word stands in the box of the bracket before it
                rows[1] += glosses(x[2])
                bl[i + 1] = None
        else:
            W, G, T = b[1:]
            g = glosses(G)
            rows = [''.join(w + ' ' for w in W), g] + [t for tt in T for t in tt]
        while 1:
            if gi >= len(groups):
                raise Bad('block output ends before %r' % (rows,))
            L = groups[gi]
            n = len(L[0])
            if col < n:
                break
            gi, col, inb = gi + 1, 0, 0
        # width of the box: as wide as its widest row
        if b[0] == 'B':
            # tags are compared without white space; their width is what stands there
            w = max(len(r) for r in rows[:2])
            for k, t in enumerate(rows[2:]):
                if 2 + k >= len(L):
                    raise Bad('no line for tag %r' % t)
                a = At(L[2 + k])
                a.p = col
                if t and L[2 + k][col:col + 1] == ' ':
                    raise Bad('tag %r does not start at its word in %r' % (t, L[2 + k]))
                a.squeezed(t, 'tag')
                if not t.startswith('jai+'):
                    a.lit(' ')
                w = max(w, a.p - col)
        else:
            w = max(len(r) for r in rows)
        for k, ln in enumerate(L):
            seg = ln[col:col + w]
            if k < 2 or b[0] != 'B':
                want = rows[k] if k < len(rows) else ''
                if seg.ljust(w) != want.ljust(w):
                    raise Bad('line %d of a group has %r where %r stands' % (k, seg, want))
            elif k >= len(rows) and seg.strip():
                raise Bad('line %d of a group has %r beside %r' % (k, seg, rows))
        col += w
        inb += 1
        if col > n:
            raise Bad('lines of a group differ in length')
        if width is not None and col > width and inb > 1:
            raise Bad('a line of %d columns with -w %d' % (col, width))
        if col == n and any(len(x) > n for x in L):
            raise Bad('lines of a group differ in length')
    if gi != len(groups) - 1 or groups and col != len(groups[gi][0]):
        if bl or groups:
            raise Bad('more block output than events')
    return len(groups)
