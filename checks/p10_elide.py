"""P10: elided terminators are reported truthfully; the spelled-out and shortened texts keep the structure."""
import re, sys
import jb, trees, grammar, workload
from harness import Result
PROP = 'P10'
sys.setrecursionlimit(30000)
VARIANTS = ['plain']
COUNTS = {'quick': 12000, 'thorough': 150000}
RULE = ('one case = an accepted text with terminators kept or elided; the terminators -ie shows are written out and the result run through -re and '
        'compared, the elided sequence compared with an independent completion by the official grammar, and every omission -se/-sev proposes is '
        'carried out and compared; non-trivial when something was elided or an omission was proposed; distinct by class sequence')


MEX = {'LI', 'VEI', 'MOhE', 'FUhA', 'JOhI', 'MAhO', 'ME'}


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.E = jb.Earley()


def gen(ctx, rng, i):
    if rng.random() < .01:
        toks = workload.deep_text(rng, rng.choice([5, 8, 11, 12, 13, 13, 20, 40]), True)
    else:
        toks = trees.accepted_toks(rng, ctx.E, maxlen=50)
    us = trees.units(rng, toks, rng.choice([0, 0, 0, .15]))
    words = []
    spans = []
    for t, ws, pre, post in us:
        spans.append([len(words) + len(pre), t])
        words += pre + ws + post
    nl = rng.choice([0, 0, .1, .4])
    seps = ['\n' if rng.random() < nl else ' ' * rng.choice([1, 1, 1, 2]) for _ in words]
    return {'units': us, 'words': words, 'seps': seps, 'joint': rng.random() < .5}


def text_of(words, seps, drop=()):
    """-> text, {(line, col): word index}"""
    s, at, line, col = '', {}, 1, 1
    for i, w in enumerate(words):
        if i not in drop:
            at[line, col] = i
            s += w
            col += len(w)
        s += seps[i]
        for ch in seps[i]:
            if ch == '\n':
                line, col = line + 1, 1
            else:
                col += 1
    return s, at


def norm(n):
    """nesting with single-child nodes collapsed, so that only grouping and words count"""
    if n.leaf():
        return (n.kind, n.text.lower() if n.kind == 'CMAVO' else ' '.join(n.text.split()))
    kids = n.kids
    if n.label == 'METALINGUISTIC':        # its CU is optional even when nothing may be elided, and -ie does not show it
        kids = [k for k in kids if not (k.leaf() and k.kind == 'CMAVO' and k.text == 'cu')]
    kids = [norm(k) for k in kids]
    return kids[0] if len(kids) == 1 else kids


def proposals(out):
    """-> list of (words, (l1,c1), (l2,c2), [patterns])  patterns: list of kept-word lists"""
    res = []
    lines = out.split('\n')
    i = 0
    pos1 = re.compile(r" \(at line (\d+) col (\d+)\)$")
    pos2 = re.compile(r" \(from line (\d+) col (\d+) to line (\d+) col (\d+)\)$")

    def where(i):
        m = pos1.search(lines[i])
        if m:
            p = tuple(map(int, m.groups()))
            return i + 1, p, p
        m = pos2.match(lines[i + 1]) if i + 1 < len(lines) else None
        if m:
            a = tuple(map(int, m.groups()))
            return i + 2, a[:2], a[2:]
        raise trees.Bad('no position in %r' % lines[i])
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('You could omit '):
            m = re.match(r"You could omit (?:the word|both the words|all the words) '(.*)'(?: \(at|$)", ln)
            if not m:
                raise trees.Bad('odd line %r' % ln)
            i, a, b = where(i)
            res.append((m.group(1).split(), a, b, [[]]))
        elif ln.startswith('The words '):
            m = re.match(r"The words '(.*)'(?: \(at|$)", ln)
            i, a, b = where(i)
            pats = []
            if i < len(lines) and lines[i].startswith('could be safely reduced'):
                i += 1
            while i < len(lines) and lines[i].startswith('  Pattern '):
                pats.append(lines[i].split(':', 1)[1].split())
                i += 1
            res.append((m.group(1).split(), a, b, pats))
        else:
            i += 1
    return res


def judge(ctx, c):
    r = Result()
    J, E = ctx.J, ctx.E
    words, seps, us = c['words'], c['seps'], c['units']
    text, at = text_of(words, seps)
    toks = [u[0] for u in us]
    rc, o, e = J.jbofihe(text, '-tf', '-ie', timeout=60)
    if rc != 0:
        r.count('not accepted')
        if rc not in (1, 2, 3):
            r.incon('abnormal exit')
        return r
    try:
        tree = trees.read_tree(o.decode('latin1'))
        lv = tree.leaves()
        want = trees.unit_leaves(us)
        # spelled-out text: terminators go where the tree shows them
        disp = trees.unit_display(us)
        k = 0
        full, elided = [], []
        for n in lv:
            if n.elided():
                full.append(n.text.lower())
                elided.append(n.text.lower())
            else:
                d = disp[k] if k < len(disp) else ['?']
                d = d[0] if isinstance(d[0], list) else d
                if d[0] in ('zoi', "la'o"):
                    d = [d[0], d[1] + '.'] + d[2:-1] + ['.' + d[-1]]
                full += d
                k += 1
        if k != len(disp):
            r.bad('leaves', 'the tree of "%s" has %d words, the text %d' % (text, k, len(disp)))
            return r
        ft = ' '.join(full)
        rc2, o2, e2 = J.jbofihe(ft, '-re', '-tf', timeout=60)
        if rc2 == -9999:
            r.incon('watchdog')
            return r
        if rc2 != 0:
            r.bad('spelled out refused', 'with the elided terminators of "%s" written out, "%s" is refused by -re: %s' %
                  (text, ft, e2.decode('latin1')[:200].replace('\n', ' ')))
        else:
            t2 = trees.read_tree(o2.decode('latin1'))
            if norm(t2) != norm(tree):
                r.bad('spelled out differs', 'written out as "%s", "%s" gets another structure' % (ft, text))
        r.count('terminators restored', len(elided))
        strict = E.accepts(toks, 'strict')[0] or E.accepts(toks, 'strictJ')[0]
        rc3, o3, e3 = J.jbofihe(text, '-re', timeout=60)
        if rc3 == -9999:
            r.incon('watchdog')
        elif not strict and rc3 == 0:
            r.bad('missing terminator accepted', '-re accepts "%s" although terminators are missing' % text)
        elif rc3 == 0 and elided:
            r.bad('elision shown in complete text', '-re accepts "%s" but -ie shows elided %s' % (text, ' '.join(elided)))
        # what was elided
        sure = E.sure(toks)
        # (operands: jbofihe joins them with jek where bnf.300 has ek, a known finding of P08)
        mex = 'A' in toks and MEX & set(toks)
        if sure is not None and not strict and not mex:
            exp = [t[1:] if t[0] == '+' else '' for t in sure if t != '+CU']
            got = []
            prev_aug = 0
            for n in lv:
                if n.elided():
                    sel = jb.CMAVO[n.text.lower()][0]
                    if sel != 'CU':
                        got.append(sel)
                else:
                    got.append('')
            # indicators and ba'e are extra leaves: drop them
            keep = []
            for t, ws, pre, post in us:
                keep += [0] * len(pre) + [1] + [0] * len(post)
            g2, k = [], 0
            for x in got:
                if x:
                    g2.append(x)
                else:
                    if keep[k]:
                        g2.append('')
                    k += 1
            # a terminator stands before the words after it; leaves of attached words do not separate
            r.count('completions compared')
            if g2 != exp:
                r.bad('wrong elision', 'terminators restored in "%s": jbofihe %s, grammar %s' % (
                    text, ' '.join(x or '_' for x in g2), ' '.join(x or '_' for x in exp)))
        # proposals
        n = 0
        for opt in ('-se', '-sev'):
            rc4, o4, e4 = J.jbofihe(text, opt, timeout=60)
            if rc4 == -9999:
                r.incon('watchdog')
                continue
            if rc4 != 0:
                r.bad('refused with ' + opt, '"%s" is accepted but refused with %s' % (text, opt))
                continue
            ps = proposals(o4.decode('latin1'))
            if opt == '-se':
                first = ps
            elif ps != first:
                r.bad('-sev proposals', '-se and -sev propose different omissions for "%s"' % text)
        for ws, a, b, pats in first:
            if a not in at or b not in at:
                r.bad('position', 'no word of "%s" at the position given for %s' % (text, ws))
                continue
            ia, ib = at[a], at[b]
            seq = [i for i in range(ia, ib + 1)]
            if [words[i] for i in seq] != ws:
                # attached indicators may stand between
                seq2, j = [], 0
                for i in seq:
                    if j < len(ws) and words[i] == ws[j]:
                        seq2.append(i)
                        j += 1
                if j != len(ws):
                    r.bad('position', 'the words at %s..%s of "%s" are %s, not %s' % (a, b, text, [words[i] for i in seq], ws))
                    continue
                seq = seq2
            seqs = []
            if len(pats) > 60:                  # all first ones, then an even sample
                r.count('long pattern lists sampled')
                pats = pats[:20] + pats[20::len(pats) // 40]
            for pat in pats:
                # kept words: leftmost match
                kept, j = set(), 0
                for i in seq:
                    if j < len(pat) and words[i] == pat[j]:
                        kept.add(i)
                        j += 1
                if j != len(pat):
                    r.bad('pattern', 'pattern %s is not part of %s in "%s"' % (pat, ws, text))
                    continue
                seqs.append([i for i in seq if i not in kept])
            own = {}
            for k, (t, uw, pre, post) in enumerate(us):
                for _ in pre + uw + post:
                    own[len(own)] = t
            for drop in seqs:
                n += 1
                ctx_ = ' (%s _ %s)' % (own.get(min(drop) - 1, 'start'), own.get(max(drop) + 1, 'end'))
                t3, _ = text_of(words, seps, set(drop))
                rc5, o5, e5 = J.jbofihe(t3, '-tf', '-ie', timeout=60)
                if rc5 == -9999:
                    r.incon('watchdog')
                    continue
                if rc5 != 0:
                    r.bad('omission refused' + ctx_, 'jbofihe says %s can be left out of "%s" (%s), but "%s" is refused' % (ws, text, a, t3))
                elif norm(trees.read_tree(o5.decode('latin1'))) != norm(tree):
                    r.bad('omission changes' + ctx_, 'jbofihe says %s can be left out of "%s" (%s), but "%s" has another structure' % (ws, text, a, t3))
        r.count('omissions carried out', n)
        if n or elided:
            r.nontrivial = toks
    except trees.Bad as ex:
        r.bad('display', '"%s": %s' % (text, ex))
    return r
