"""A direct model of how the words of a text are absorbed before parsing: zoi, zo, lo'u, si/sa/su, zei, ba'e, bu, indicators.

A text is a list of written words; tokens are [kind, text, before, after] with before = ba'e words, after = indicator words."""
import jb, morfo

INDIC = {'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO'}
ZERO_EXIT = 1


class Stop(Exception):
    """the program refuses: args = (exit status, part of its message)"""


class Tok:
    __slots__ = ('k', 'w', 'pre', 'post', 'form', 'delim', 'kids', 'lost')

    def __init__(self, k, w, **kw):
        self.k, self.w, self.pre, self.post, self.kids, self.lost = k, w, [], [], None, 0
        self.form = kw.get('form')
        self.delim = kw.get('delim')

    def sel(self):
        return jb.CMAVO[self.w][0] if self.k == 'CMAVO' else None


def lex(words):
    """written words -> tokens; zoi takes its text before anything else is looked at"""
    out = []
    it = iter(words)
    for w in it:
        if w in ('zoi', "la'o"):
            try:
                d = next(it)
            except StopIteration:
                raise Stop(None, 'zoi')
            txt = []
            for x in it:
                if x == d:
                    break
                txt.append(x)
            else:
                raise Stop(3, 'Unclosed zoi construction')
            out.append(Tok('ZOI', ' '.join(txt), form=w, delim=d))
            continue
        p = morfo.pieces(w)
        assert isinstance(p, list), w
        for k, x, _ in p:
            assert k != 'CMAVO' or x in jb.CMAVO, w
            out.append(Tok(k, x))
    return out


def quote(ts):
    """zo, then lo'u"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'CMAVO' and t.sel() == 'ZO':
            if i + 1 == len(ts):
                raise Stop(1, 'Cannot have ZO as the last token')
            out.append(Tok('ZO', ts[i + 1].w))
            i += 2
        else:
            out.append(t)
            i += 1
    ts, out, i = out, [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'CMAVO' and t.sel() == 'LOhU':
            j = i + 1
            while j < len(ts) and ts[j].sel() != 'LEhU':
                j += 1
            if j == len(ts):
                raise Stop(1, 'Unterminated LOhU')
            out.append(Tok('LOhU', ' '.join(string(x) for x in ts[i + 1:j])))
            i = j + 1
        else:
            out.append(t)
            i += 1
    return out


def string(t):
    if t.k == 'ZOI':
        return 'zoi+"%s"' % t.w
    if t.k == 'ZO':
        return 'zo+' + t.w
    if t.k == 'LOhU':
        return 'lo\'u+"%s"' % t.w
    if t.k == 'BROKEN':
        return '<Defective erasure>'
    return t.w


SIZE = {'ZOI': 4, 'ZO': 2, 'LOhU': 3}


def erase(ts):
    st = []
    for t in ts:                                # si: one written word back, whatever holds it
        if t.sel() == 'SI' and st:
            st[-1].lost += 1
            if st[-1].lost == SIZE.get(st[-1].k, 1):
                st.pop()
            continue
        st.append(t)
    for t in st:
        if t.lost:
            t.k, t.form = 'BROKEN', t.k
    out = []
    for i, t in enumerate(st):                  # sa: back to the last word like the following one
        if t.sel() == 'SA' and i + 1 < len(st):
            n = st[i + 1]
            while out:
                y = out.pop()
                if y.k == n.k and (y.k != 'CMAVO' or y.sel() == n.sel()):
                    break
            continue
        out.append(t)
    ts, out, i = out, [], 0
    while i < len(ts):                          # su: back to the beginning of the discourse part
        t = ts[i]
        if t.sel() == 'SU':
            if i + 1 < len(ts) and ts[i + 1].sel() == 'SU':
                out = []
                i += 2
                continue
            while out:
                if out.pop().sel() in ('NIhO', 'LU', 'TUhE', 'TO'):
                    break
            i += 1
            continue
        out.append(t)
        i += 1
    return out


def absorb(ts):
    """zei, ba'e, bu, indicators"""
    out, i, bad = [], 0, None
    while i < len(ts):
        if ts[i].sel() == 'ZEI':
            if not out:
                raise Stop(3, "Cannot have 'zei' at the start")
            kids = [out.pop()]
            while i < len(ts) and ts[i].sel() == 'ZEI':
                if i + 1 == len(ts):
                    raise Stop(3, "Cannot have 'zei' at the end")
                kids.append(ts[i + 1])
                i += 2
            z = Tok('ZEI', ' zei '.join(string(k) for k in kids))
            z.kids = kids
            out.append(z)
        else:
            out.append(ts[i])
            i += 1
    ts, out, pend = out, [], []
    for i, t in enumerate(ts):
        if t.sel() == 'BAhE' and i + 1 < len(ts) and ts[i + 1].sel() != 'FAhO':
            pend.append(t.w)
            continue
        t.pre, pend = pend, []
        out.append(t)
    ts, out = out, []
    for t in ts:
        if t.sel() == 'BU':
            if not out:
                raise Stop(3, "Cannot have 'bu' at the start")
            y = out.pop()
            w = {'ZO': 'zo' + y.w, 'BU': y.w + '.bu', 'LOhU': "lo'u-%s-le'u" % y.w, 'BROKEN': '<Defective erasure>'}.get(y.k, y.w)
            b = Tok('BU', w)
            b.pre = y.pre + t.pre
            out.append(b)
        else:
            out.append(t)
    ts, out, i = out, [], 0
    while i < len(ts):                          # ui [nai] [cai [nai]] make one indicator
        t = ts[i]
        i += 1
        if t.sel() in ('UI', 'CAI'):
            for s in ('NAI', 'CAI', 'NAI') if t.sel() == 'UI' else ('NAI',):
                if i < len(ts) and ts[i].sel() == s:
                    t.post.append(ts[i].w)
                    i += 1
                elif s == 'CAI':
                    break
        out.append(t)
    ts, out = out, []
    start = True
    n = 0
    for t in ts:
        ind = t.sel() in INDIC
        if not out and ind or start and out and ind:
            out.append(t)                       # indicators a text begins with stay
            continue
        start = False
        if ind and out:
            out[-1].post = out[-1].post + t.pre + [t.w] + t.post
        else:
            out.append(t)
    return out


def process(words):
    return absorb(erase(quote(lex(words))))


def show(t):
    """the line of the -k list"""
    return {'CMAVO': 'CMV : %s', 'BRIVLA': 'BRV : %s', 'CMENE': 'CMN : %s', 'ZOI': 'ZOI : %s', 'ZO': 'ZO  : %s', 'LOhU': 'LOhU  : %s',
            'ZEI': 'ZEI : %s', 'BU': 'BU : %s', 'BROKEN': 'BKN : (broken erasure)'}[t.k] % (() if t.k == 'BROKEN' else t.w)


# -- workloads

QWORDS = jb.GISMU + jb.LUJVO + jb.CMENE + ['mi', 'do', 'cu', 'lo', 'zo', 'zei', 'bu', "ba'e", 'ui', 'nai', 'i', "ni'o", 'lu', "li'u", 'pa', 'ku']


def soup(rng, n, erasing=False):
    """written words in no grammatical order, rich in everything that absorbs"""
    out = []
    hot = ['zo', 'zei', 'bu', "ba'e", "za'e", 'ui', "ua", 'nai', 'cai', "cu'i", 'y', "da'o", "fu'e", "fu'o", 'pei', "le'u"]
    if erasing:
        hot += ['si', 'si', 'si', 'sa', 'su', "ni'o", 'lu', "tu'e", 'to', 'i', 'mi'] + ['si', 'sa'] * 2
    if not erasing and rng.random() < .06:      # the scanner treats indicators that open the text apart
        out = rng.choice([["fu'e"], ["fu'e"], []]) + [rng.choice(['ui', 'ua', 'cai', 'pei', "fu'o", "da'o", 'y', "fu'e"]) for _ in range(rng.choice([1, 2, 2, 3]))]
    while len(out) < n:
        r = rng.random()
        if r < .4:
            w = rng.choice(hot)
        elif r < .55:
            w = rng.choice(jb.GISMU + jb.LUJVO)
        elif r < .62:
            w = rng.choice(jb.CMENE)
        elif r < .69:
            out += zoi_words(rng)
            continue
        elif r < .75:
            out += lohu_words(rng)
            continue
        else:
            w = rng.choice(CM)
        if not erasing and jb.CMAVO.get(w, ('',))[0] in ('SI', 'SA', 'SU') or w in ('zoi', "la'o", "lo'u", "fa'o"):
            continue
        if out and out[-1] in ("ba'e", "za'e") and jb.CMAVO.get(w, ('',))[0] in ('NAI', 'CAI', 'SI'):
            continue
        out.append(w)
        if w in ('si', 'sa', 'su') and rng.random() < .1:
            out += [w] * rng.choice([1, 2, 2, 3, 5])
    while out and out[-1] == 'zo':
        out.pop()
    return out


CM = sorted(jb.CMAVO)


def zoi_words(rng):
    d = rng.choice(['gy', 'by', 'kuot', 'xyz!', 'broda', 'zoi', 'mi', "li'u"])
    n = rng.choice([0, 1, 2, 3, 8])
    txt = [rng.choice(['some', 'Text', 'mi', 'vau', "le'u", '12', 'a:b', 'caf\xe9', 'zo', 'si', 'sa', "it's", '[x]', '"q"', '&<b', '\\x', '%d', 'zei', 'gyy', 'x' * 40, '-', '+']) for _ in range(n)]
    return [rng.choice(['zoi', "la'o"]), d] + [t for t in txt if t != d] + [d]


def lohu_words(rng):
    n = rng.choice([0, 1, 2, 3, 8])
    txt = []
    for _ in range(n):
        w = rng.choice(QWORDS + ["lo'u", 'su', 'sa', 'si'])
        if w == 'zo':
            txt += ['zo', rng.choice(["le'u", 'zo', 'si', 'klama'])]
        else:
            txt.append(w)
    if rng.random() < .1:
        txt += zoi_words(rng)
    return ["lo'u"] + txt + ["le'u"]


def list_of(out, which):
    """the token list of -k as printed, markers left out"""
    lines = out.split('\n')
    k = lines.index('Token list %s preprocessing' % which)
    got = []
    for x in lines[k + 2:]:
        if x.startswith('------'):
            break
        if x.startswith('CMV : '):
            x = x.split(' [')[0]
        if not x.startswith('MAR : '):
            got.append(x)
    while got and not got[-1]:
        got.pop()
    return got


def check_lists(r, J, words):
    """the two token lists and the refusals for a list of written words -> (exit status, tokens) or None"""
    rc, o, e = J.jbofihe(' '.join(words).encode('latin1'), '-k')
    if rc == -9999:
        r.incon('timeout')
        return None
    o, e = o.decode('latin1'), e.decode('latin1')
    text = ' '.join(words)
    try:
        raw = lex(words)
        before = [show(t) for t in raw]
        try:
            toks = absorb(erase(quote(raw)))
        except Stop as s:
            r.count('refused: ' + s.args[1])
            if rc != s.args[0] or s.args[1] not in e:
                r.bad('refusal', 'jbofihe exits %d saying %r for "%s", it should exit %d with "%s"' % (rc, e[:80], text, s.args[0], s.args[1]))
            return None
    except Stop as s:
        return None
    if 'Token list after' not in o:
        r.bad('no token list', 'jbofihe -k exits %d without token lists for "%s": %s' % (rc, text, e[:200]))
        return None
    for which, want in (('before', before), ('after', [show(t) for t in toks])):
        got = list_of(o, which)
        r.count('tokens compared', len(got))
        if got != want:
            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            r.bad('token list ' + which, 'the token list %s preprocessing of "%s" has %r at %d where %r is right' % (which, text, got[k:k + 2], k, want[k:k + 2]))
            return None
    return rc, toks


def leaves(toks):
    """(kind, text, class) of the leaves a tree must show"""
    out = []

    def cm(w):
        return ('CMAVO', w, jb.CMAVO[w][1].replace('SSM_', ''))
    for t in toks:
        if t.sel() == 'FAhO':
            break
        out += [cm(w) for w in t.pre]
        out.append(cm(t.w) if t.k == 'CMAVO' else (t.k, ' '.join(t.w.split()), None))
        out += [cm(w) for w in t.post]
    return out
