"""P19: cmafihe glosses every word of any text in order, grammatical or not."""
import os, re
import jb, trees, lujvo, morfo, cmaf, workload
from harness import Result
PROP = 'P19'
VARIANTS = ['plain']
COUNTS = {'quick': 25000, 'thorough': 200000}
RULE = ('one case = a text of 1 to 300 valid words in any order (cmavo and compounds, gismu, lujvo, fu\'ivla, names with capitals, dots and commas, parentheses, any '
        'separators, as input or file), the supplied dictionary, part of it, or a made one; the items of plain, block and LaTeX output must be exactly the words of the text in '
        'order, each with its class and the gloss of the dictionary or of its components; distinct by text')


def setup():
    pass


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()
    ctx.D = workload.read_dict(ctx.J.dict)
    ctx.lujvo = [k[:-1] for k in ctx.D if re.match(r"[a-z']{6,}1$", k)]


C, V = morfo.CONS, morfo.VOWELS
NAMES = ['djan', '.alis.', 'DJORdj', 'paris', '.teris', 'ranjit,sin', 'MEris.', "mi'ex", 'e', 'xorxes', 'nat', "la'oin", 'K', 'ALIS', 'r', 'cmis.']


def brivla(rng, ctx):
    r = rng.random()
    if r < .35:
        return rng.choice(list(jb.GISMU_RAFSI)) if r < .3 else rng.choice(C) + rng.choice('aeiou') + rng.choice(['rt', 'nd', 'kl', 'sk', 'mb']) + rng.choice('aeiou')
    if r < .75:
        for _ in range(50):
            n = rng.choice([2, 2, 3, 4])
            ws = lujvo.components(rng, n)
            rs = [rng.choice(lujvo.rafsi(w, k == n - 1, True, False) or ['kla']) for k, w in enumerate(ws)]
            w = lujvo.build(rs)[0]
            if morfo.classify(w)[:2] == ('LUJVO', [0]):
                return w
        return 'klama'
    if r < .8 and ctx.lujvo:
        return rng.choice(ctx.lujvo)
    p = rng.choice(sorted(jb.RAFSI))
    p = ''.join(p.split("'"))
    return rng.choice([p + rng.choice('rnl') + rng.choice(C) + rng.choice(V) + rng.choice(['', 'c', 'n', 'st', 'r', 'lt']) + rng.choice(['e', 'i', 'a']),
                       rng.choice(['', 'a', 'i', 'ia', "o'e"]) + rng.choice(['spageti', 'lgebra', 'rgonauta', 'tlantida', 'ngeli', 'skrimi']),
                       rng.choice(jb.FUHIVLA)])


def ok(w):
    """a valid word of the kinds cmafihe documents"""
    b = w.strip('.')
    if not re.match(r"[a-z',A-Z]+$", b):
        return False
    p = morfo.pieces(b)
    if not isinstance(p, list):
        return False
    return p[0][0] == 'CMENE' or all(k == 'CMAVO' for k, x, o in p) and ',' not in b or len(p) == 1 and ',' not in b


def word(rng, ctx):
    for _ in range(100):
        r = rng.random()
        if r < .3:
            w = rng.choice(list(jb.CMAVO))
        elif r < .4:
            w = ''.join(rng.choice(list(jb.CMAVO)) for _ in range(rng.randint(2, 4)))
        elif r < .45:
            w = rng.choice([c for c in "bcdfgjklmnprstvxz"] + ['']) + rng.choice(['a', 'ei', 'oi', "u'e", "i'a'o", 'y', 'ai', "a'i", "ie'o"])
        elif r < .55:
            w = rng.choice(NAMES)
        else:
            w = brivla(rng, ctx)
        if ok(w):
            if rng.random() < .06 and w[0] in 'aeiou' and not w.endswith('.'):
                w = '.' + w
            return w
    return 'klama'


def gen(ctx, rng, i):
    n = rng.choice([1, 3, 10, 40]) if rng.random() < .97 else 300
    ws = [word(rng, ctx) for _ in range(n)]
    s = []
    for k, w in enumerate(ws):
        r = rng.random()
        if r < .04:
            s.append('(' + rng.choice(['x', 'mi klama', 'A b, 12!', '-', '{}', 'mi\n\ndo']) + ')')
        s.append(w)
    seps = [rng.choice([' ', ' ', ' ', '  ', '\t', '\n', '\n\n', '\n\n\n\n', '\r\n', ' \n ']) for _ in s]
    d = None
    r = rng.random()
    if r < .35:
        d = {}
        for w in ws:
            w = w.strip('.')
            if rng.random() < .5:
                d[w] = 'G%d' % rng.randrange(10000)
                if rng.random() < .6:
                    d['+' + w] = 'S%d' % rng.randrange(100)
            p = morfo.pieces(w)
            if isinstance(p, list) and p[0][0] == 'CMAVO':
                for k, x, o in p:
                    if rng.random() < .6:
                        d[x] = 'g%d' % rng.randrange(10000)
                    if rng.random() < .6:
                        d['+' + x] = 's%d' % rng.randrange(10000)
            elif isinstance(p, list) and p[0][0] == 'BRIVLA' and len(w) > 5:
                try:
                    for x in cmaf.rafsi_of(w):
                        if rng.random() < .8:
                            d[('%' if len(x) < 5 else '') + x] = 'r%d' % rng.randrange(10000)
                except IndexError:
                    pass
    elif r < .5:
        d = {k: v for k, v in ctx.D.items() if rng.random() < .5} if rng.random() < .02 else 'none'
    return {'words': s, 'seps': seps, 'dict': d, 'opt': rng.choice([[], [], ['-w', str(rng.choice([1, 10, 30, 80, 500]))], ['file']])}


def judge(ctx, c):
    r = Result()
    J = ctx.J
    text = ''.join(a + b for a, b in zip(c['words'], c['seps']))
    D, env = ctx.D, J.env
    if c['dict'] == 'none':
        D, env = {}, jb.base_env(os.path.join(ctx.tmp, 'nothere.dat'))
    elif c['dict'] is not None:
        D = c['dict']
        f = os.path.join(ctx.tmp, 'd.dat')
        workload.write_dict(f, D)
        env = jb.base_env(f)
    args, inp = [], text
    if 'file' in c['opt']:
        f = os.path.join(ctx.tmp, 't.txt')
        open(f, 'w', newline='').write(text)
        args, inp = [f], ''
    outs = {}
    for mode in ([], ['-b'], ['-l']):
        rc, o, e = jb.run(os.path.join(J.d, 'cmafihe'), mode + [x for x in c['opt'] if x != 'file'] + args, inp, env)
        if rc == -9999:
            r.incon('timeout')
            return r
        if rc:
            r.bad('status', 'cmafihe %s exits %d (%s)' % (' '.join(mode), rc, e[:100]))
            return r
        outs[''.join(mode)] = o.decode('latin1')
    r.nontrivial = text
    want = []
    for w in c['words']:
        if w[0] == '(':
            want += [('(',), (w[1:-1],), (')',)]
        else:
            b = w.strip('.')
            x = cmaf.item(D, b)
            want.append((b if x[1] == 'BRIVLA' else w, x[1], x[2]))
    got = cmaf.items_text(outs[''])
    r.count('words', len(want))
    if got is None:
        r.bad('format', 'cmafihe prints something else than words: %r' % outs[''][:200])
        return r
    for k in range(max(len(got), len(want))):
        g, w = got[k] if k < len(got) else None, want[k] if k < len(want) else None
        if g is None or w is None or len(g) != len(w) or g[0] != w[0]:
            r.bad('words', 'word %d of the text is %s, cmafihe prints %s' % (k + 1, w, g))
            return r
        if len(w) == 3:
            if w[1] != g[1]:
                r.bad('class', '%s has the class <%s>, cmafihe prints <%s>' % (w[0], w[1], g[1]))
                return r
            if w[2] is None:
                r.count('gloss left open')
            elif w[2].split() != g[2].split():
                r.bad('gloss', '%s should be glossed [%s], cmafihe prints [%s]' % (w[0], w[2], g[2]))
                return r
    # LaTeX
    o = outs['-l']
    m = re.match(r'\\documentclass.*?\\begin\{document\}\n(.*)\\end\{document\}\n*$', o, re.S)
    if not m:
        r.bad('latex', 'cmafihe -l does not print a document: %r' % o[:200])
        return r
    gl = []
    i = 0
    body = m.group(1)
    for m in re.finditer(r'\\begin\{tabular\}\[t\]\{l\}\\textbf\{\\footnotesize (.*?)\}\\\\\n\\textrm\{\\footnotesize (.*?)\}\\\\\n\\textit\{\\footnotesize (.*?)\}\n\\end\{tabular\}\n'
                         r'\\rule\{0in\}\{1.0\\baselineskip\}|\\textrm\{\\footnotesize (.*?)\}(?=\\|\n\n|$)|\n\n', body, re.S):
        if m.start() != i:
            break
        i = m.end()
        if m.group(1) is not None:
            gl.append(m.groups()[:3])
        elif m.group(4) is not None:
            gl.append((m.group(4),))
    if i != len(body) or gl != got:
        r.bad('latex', 'cmafihe -l shows other words or glosses than plain output near %r' % body[i:i + 100])
        return r
    if any('\n' in w for w in c['words']):
        return r            # a comment of several lines is shown as it is
    try:
        cmaf.follow_block(outs['-b'], got, int(c['opt'][1]) if '-w' in c['opt'] else 80)
    except cmaf.Bad as ex:
        r.bad(ex.args[0], ex.args[1])
    return r
