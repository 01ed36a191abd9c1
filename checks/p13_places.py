"""P13: each argument is tagged with the place of the predicate it really fills."""
import os, re
import jb, fmt, bridi, workload
from harness import Result
PROP = 'P13'
VARIANTS = ['plain']
COUNTS = {'quick': 30000, 'thorough': 400000}
RULE = ('one case = a text of 1 to 3 sentences built from a random argument structure (conversions, fa..fu and fai, be/bei, jai, tanru, connected and inverted selbri, connected '
        'tails with shared arguments, ge...gi, abstractions, relative clauses, quotations, termsets), all terminators written; the tags in the HTML display are compared '
        'with those computed from the structure by the rules of the language; non-trivial when it has a tag; distinct by text')


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    ctx.empty = os.path.join(ctx.tmp, 'empty.dat')
    workload.write_dict(ctx.empty, {'me1': 'x of %d', 'me1t': 'x of #%d'})


def gen(ctx, rng, i):
    g = bridi.Gen(rng, rng.choice([4, 8, 12, 20, 30]))
    t = g.text()
    return {'text': t, 'words': g.words, 'terms': [[x.a, x.b, x.tags] for x in g.terms], 'd': rng.random() < .3}


def letters(s):
    return re.sub(r"[^a-z'0-9]", '', s.lower())


def spans_tags(ev):
    """[(start, end, tags)] of the tagged brackets and {number: (start, end)}"""
    pos, st, num, out = 0, [], {}, []
    for k, e in enumerate(ev):
        if e[0] == 'W':
            pos += len(letters(e[1]))
        elif e[0] == 'O':
            st.append([pos, e[2], []])
        elif e[0] == 'C':
            s, n, tags = st.pop()
            num[n] = (s, pos)
            for t in tags:
                out.append((s, pos, t))
        elif e[0] == 'T':
            st[-1][2].append(e[1])
    return out, num


def parse(tag, num):
    m = re.match(r"jai\+<tag>1:\(.*#(\d+)\)$", tag, re.S)
    if m:
        return ('jai',) + num.get(int(m.group(1)), (None, None))
    m = re.match(r"#(\d+)-([a-z']*)(\d+)\(.*\)$", tag, re.S)
    if m:
        return ('#',) + num.get(int(m.group(1)), (None, None)) + (m.group(2), int(m.group(3)))
    m = re.match(r"([a-z',]+)(\d+)(?:\.\.)?\(.*\)$", tag, re.S)
    if m:
        return ('w', m.group(1), int(m.group(2)))
    return ('?', tag)


def judge(ctx, c):
    r = Result()
    rc, o, e = jb.run(os.path.join(ctx.J.d, 'jbofihe'), ['-H'], c['text'], jb.base_env(ctx.empty if c['d'] else ctx.J.dict), timeout=60)
    if rc:
        r.count('not accepted')
        if rc not in (1, 2, 3):
            r.incon('abnormal exit')
        return r
    off = [0]
    for w in c['words']:
        off.append(off[-1] + len(letters(w)))
    want = []
    for a, b, tags in c['terms']:
        if tags:
            x = []
            for pred, n in tags:
                if pred[0] == 'w':
                    x.append(('w', pred[1], n))
                elif pred[0] == 'jai':
                    x.append(('jai', off[pred[1]], off[pred[2]]))
                elif pred[3] == 'me':
                    x.append(('w', 'me', n))
                else:
                    x.append(('#', off[pred[1]], off[pred[2]], pred[3], n))
            want.append((off[a], off[b], sorted(x, key=str)))
    try:
        ev = fmt.read_html(o.decode('latin1'))
    except fmt.Bad as ex:
        r.bad('html', '%s for "%s"' % (ex, c['text']))
        return r
    got, num = spans_tags(ev)
    got = sorted(((a, b, sorted([parse(t, num) for t in tags], key=str)) for a, b, tags in got), key=lambda x: (x[0], -x[1]))
    want.sort(key=lambda x: (x[0], -x[1]))
    if want:
        r.nontrivial = c['text']
    r.count('arguments', len(want))
    r.count('tags', sum(len(x[2]) for x in want))
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raw = ''.join(c['words'])
        raw = letters(raw)

        def name(x):
            return '%r: %s' % (raw[x[0]:x[1]], x[2]) if x else None
        r.bad('tags', 'in "%s" argument %s is expected, jbofihe shows %s' % (c['text'], name(want[k] if k < len(want) else None), name(got[k] if k < len(got) else None)))
    return r
