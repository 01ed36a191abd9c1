"""P17: jvocuhadju lists exactly the valid lujvo of its components, correctly scored."""
import re
from collections import Counter
import jb, lujvo, morfo
from harness import Result
PROP = 'P17'
VARIANTS = ['plain']
COUNTS = {'quick': 40000, 'thorough': 600000}
RULE = ('one case = jvocuhadju run on a sequence of components (gismu and cmavo, 2 to 49, also unknown words, words without rafsi, capitals, h for apostrophe) with a '
        'random choice of options; the words listed, their scores, order, marks and the refusals must be those of a builder written from the published rules, and every '
        'word listed must be classified as one lujvo by the frozen word automaton; distinct by components and options')


def setup():
    pass


def prepare(ctx):
    ctx.J = jb.Jbofihe('plain')
    morfo.load()


OPTS = ['-a', '-l', '-b', '-S', '-R', '-A', '-q']


def gen(ctx, rng, i):
    opts = [o for o in OPTS if rng.random() < (.5 if o in ('-a', '-l') else .25)]
    r = rng.random()
    n = rng.choice([2, 2, 3, 3, 4, 5]) if r < .9 else rng.randint(6, 12) if r < .98 else rng.choice([0, 1, 20, 48, 49, 50, 51, 60])
    long_ = '-l' in opts
    for _ in range(200):
        ws = lujvo.components(rng, n)
        if n > 12:
            ws = [rng.choice(lujvo.WITH) for _ in range(n)]
            opts = [o for o in opts if o != '-l']
            ones = [w for w in lujvo.WITH if len(jb.GISMU_RAFSI[w]) == 1]
            ws = [rng.choice(ones) for _ in range(n - 1)] + ws[-1:]
            long_ = False
        m = 1
        for k, w in enumerate(ws):
            m *= max(1, len(lujvo.rafsi(w, k == n - 1, long_, '-b' in opts)))
        if m <= 3000 or m <= 70000 and rng.random() < .02:
            break
    else:
        ws = ws[:3]
    r = rng.random()
    if r < .06 and ws:
        k = rng.randrange(len(ws))
        ws[k] = rng.choice(['xxxxx', 'klam', 'blabla', 'sutru', "ba'i'a", 'a', '', 'djan', 'gerk', "ku'o'", 'prenuu', 'xalbo0', 'mi', "fu'i", 'z'])
    elif r < .2:
        ws = [''.join(c.upper() if rng.random() < .3 else c for c in w) for w in ws]
    if rng.random() < .2:
        ws = [w.replace("'", 'h') for w in ws]
    args = ws + opts
    if rng.random() < .3:
        rng.shuffle(args)
    else:
        args = opts + ws
    return {'args': args}


def judge(ctx, c):
    r = Result()
    args = c['args']
    opts = {a for a in args if a.startswith('-')}
    ws = [a for a in args if not a.startswith('-')]
    rc, o, e = ctx.J.tool('jvocuhadju', args)
    if rc == -9999:
        r.incon('timeout')
        return r
    o, e = o.decode('latin1').split('\n'), e.decode('latin1')
    cmd = ' '.join(args)
    r.nontrivial = args

    def refused(msg):
        r.count('refused')
        if rc != 1 or msg not in e:
            r.bad('refusal', 'jvocuhadju %s exits %d saying %r, it should exit 1 with %r' % (cmd, rc, e[:100], msg))
        if any(x in ('Score', 'Lujvo') for l in o for x in l.split()[:1]) or '---------------------' in o:
            r.bad('refusal lists words', 'jvocuhadju %s refuses its components but prints a list' % cmd)
        return r
    if len(ws) >= 50:
        return refused('Too many components')
    low = [w.lower().replace('h', "'") for w in ws]
    for w, x in zip(ws, low):
        if x not in jb.GISMU_RAFSI:
            return refused('Cannot use component [%s] in forming lujvo.' % (w if len(w) >= 6 else x))
    fs, sets, over = [], [lujvo.rafsi(w, i == len(low) - 1, '-l' in opts, '-b' in opts) for i, w in enumerate(low)], False
    if any(not s for s in sets):
        k = [i for i, s in enumerate(sets) if not s][-1]
        return refused('No matching rafsi available for component [%s] at position %d.' % (low[k], k + 1))
    if len(ws) < 2:
        return refused('Not enough components')
    fs, sets, over = lujvo.forms(low, '-l' in opts, '-b' in opts)
    if rc != 0:
        r.bad('status', 'jvocuhadju %s exits %d (%s)' % (cmd, rc, e[:100]))
        return r
    if (('over 65536' in e) != over):
        r.bad('limit warning', 'jvocuhadju %s: the warning about too many lujvo is %s' % (cmd, 'missing' if over else 'unjustified'))
    fs.sort(key=lambda x: x[0])
    best = fs[0][0]
    # the parts printed
    i = 0
    if '-R' not in opts:
        head = 'Possible rafsi for input words%s:' % ('' if '-l' in opts else ' (avoiding long rafsi)')
        if o[0] != head:
            r.bad('rafsi list', 'jvocuhadju %s prints %r instead of %r' % (cmd, o[0], head))
            return r
        for k, w in enumerate(low):
            x = o[1 + k].split(':')
            got = x[1].split() if len(x) == 2 and x[0] == '%-5s' % w else None
            want = sets[k] + (['/!\\'] if any(s == 'brod' or len(s) == 4 and s.startswith('brod') for s in sets[k]) else [])
            if got is None or sorted(got) != sorted(want):
                r.bad('rafsi list', 'jvocuhadju %s lists %r for %s which has %s' % (cmd, o[1 + k], w, want))
                return r
        i = 1 + len(low)
    if '-S' not in opts:
        i += 3
    elif '-R' not in opts:
        i += 1
    shown = len(fs) if '-a' in opts else min(8, len(fs))
    lines = o[i:i + shown]
    table = Counter()
    for s, w, b in fs:
        table[(s, w, b)] += 1
    prev = None
    byw = {(w): (s, b) for s, w, b in fs}
    got = Counter()
    for n, l in enumerate(lines):
        x = l.split()
        mark = ''
        if '-A' not in opts:
            mark, l = l[:1], l[1:]
        x = l.split()
        w = x[-1] if x else ''
        s = int(x[0]) if '-S' not in opts and len(x) == 2 and re.match(r'-?\d+$', x[0]) else None
        if w not in byw:
            r.bad('word', 'jvocuhadju %s lists %r, which the rules do not give (they give %s ...)' % (cmd, w, ', '.join(sorted(byw)[:4])))
            return r
        ws_, b = byw[w]
        if '-S' not in opts and s != ws_:
            r.bad('score', 'jvocuhadju %s scores %s %s, the formula gives %d' % (cmd, w, s, ws_))
            return r
        if '-A' not in opts:
            top = fs[0][0] == ws_
            # a word using brod keeps its warning; when the very first does, ties get no star
            want = '!' if b else '*' if top else ' '
            firstb = byw[lines[0][1:].split()[-1]][1]
            if not b and top and n > 0 and firstb:
                want = ' '
            if mark != want and not (top and n == 0 and mark == '!' and b) and not (top and b and mark == '*'):
                r.bad('mark', 'jvocuhadju %s marks %s with %r instead of %r' % (cmd, w, mark, want))
                return r
        if prev is not None and ws_ < prev:
            r.bad('order', 'jvocuhadju %s lists %s (%d) after a word with score %d' % (cmd, w, ws_, prev))
            return r
        prev = ws_
        got[w] += 1
        k = morfo.classify(w)
        if k[0] != 'LUJVO' or k[1] != [0]:
            r.bad('not a lujvo', 'jvocuhadju %s lists %s, which is %s' % (cmd, w, k[0]))
            return r
    r.count('lujvo listed', len(lines))
    if len(lines) != shown or any(not l.strip() for l in lines):
        r.bad('count', 'jvocuhadju %s lists %d words instead of %d' % (cmd, len([l for l in lines if l.strip()]), shown))
        return r
    want = Counter(w for s, w, b in fs)
    if '-a' in opts:
        if got != want:
            r.bad('words', 'jvocuhadju %s does not list %s' % (cmd, list((want - got))[:4]))
            return r
    elif got - want or [byw[w][0] for w in (l.split()[-1] for l in lines)] != [s for s, w, b in fs[:shown]]:
        r.bad('words', 'jvocuhadju %s does not list the best %d words' % (cmd, shown))
        return r
    rest = [x for x in o[i + shown:] if x]
    hid = len(fs) - shown
    want = []
    if hid and '-q' not in opts:
        want.append('(%d lujvo hidden, use "-a" to see all)' % hid)
    if [x for x in rest if 'hidden' in x or not x.startswith('Note:')] != want:
        r.bad('hidden note', 'jvocuhadju %s ends with %s instead of %s' % (cmd, rest, want))
    if any(b for s, w, b in fs) != ('is ambigious' in e):
        r.bad('brod warning', 'jvocuhadju %s: the warning about brod is %s' % (cmd, 'missing' if any(b for s, w, b in fs) else 'unjustified'))
    return r
