"""P21: block layouts keep to the width asked for and show the same text at every width."""
import os, re
import jb, trees, fmt, workload, bridi, cmaf
from harness import Result
import importlib.util
PROP = 'P21'
VARIANTS = ['plain']
COUNTS = {'quick': 6000, 'thorough': 60000}
RULE = ('one case = one text (derived from the grammar, with a known argument structure, or loose words for cmafihe), a dictionary, and a dozen widths from 1 to 400 or none: '
        'every line of the block output must fit unless a single item is wider, items stand in the columns the HTML (or plain) output implies, and joining the groups of '
        'lines gives the same rows at every width; distinct by text')
HERE = os.path.dirname(os.path.abspath(__file__))


def load(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(HERE, name + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


P12, P19 = load('p12_formats'), load('p19_cmafihe')


def setup():
    jb.Earley.prepare()


def prepare(ctx):
    P12.prepare(ctx)
    P19.prepare(ctx)


def gen(ctx, rng, i):
    if i % 5 == 4:
        c = P19.gen(ctx, rng, i)
        c = {'cm': True, 'text': ''.join(a + b for a, b in zip(c['words'], c['seps']) if '\n' not in a), 'd': c['dict'] if isinstance(c['dict'], dict) and len(c['dict']) < 2000 else None}
    else:
        c = P12.gen(ctx, rng, i)
        c.pop('drop', None)
        if rng.random() < .5:
            c.pop('d', None)
        c['cm'] = False
    ws = [rng.choice([1, 2, 3, 4, 5, 7])] + [rng.randint(8, 40) for _ in range(3)] + [rng.randint(40, 130) for _ in range(4)] + [rng.randint(130, 500)]
    base = rng.randint(20, 120)
    c['ws'] = ws + [base, base + 1, base + 2]
    return c


def rows_joined(o):
    """the groups of lines one after the other -> the rows without the breaks"""
    rows, cur = [], []
    for ln in o.split('\n') + ['']:
        if ln and not re.match(r'-{20,}$', ln):
            cur.append(ln)
        elif cur:
            w = max(map(len, cur))
            k = max(len(cur), len(rows))
            done = len(rows[0]) if rows else 0
            rows += [' ' * done for _ in range(k - len(rows))]
            cur += [''] * (k - len(cur))
            rows = [a + b.ljust(w) for a, b in zip(rows, cur)]
            cur = []
    return [r.rstrip() for r in rows]


def judge(ctx, c):
    r = Result()
    J, t = ctx.J, c['text']
    f = J.dict
    if c.get('d') is not None:
        f = os.path.join(ctx.tmp, 'd.dat')
        workload.write_dict(f, c['d'])
    env = jb.base_env(f)
    prog = os.path.join(J.d, 'cmafihe' if c['cm'] else 'jbofihe')
    ie = ['-ie'] if c.get('ie') else []

    def show(*o):
        rc, out, e = jb.run(prog, list(o) + ie, t, env, timeout=60)
        return rc, out.decode('latin1')
    kinds = {}
    if c['cm']:
        rc, o = show()
        ref = cmaf.items_text(o)
        if rc or ref is None:
            r.count('plain output not readable')
            return r
        base = ['-b']
    else:
        rc, o = show('-H')
        if rc:
            r.count('not accepted')
            return r
        base = ['-x', '-b']
        try:
            ref = fmt.read_html(o)
            fmt.follow_latex(show('-l')[1], ref, kinds)
            rc, o = show('-x')
            fmt.follow_text(o, ref, kinds)
            plain = o
        except fmt.Bad as ex:
            r.count('plain output not readable')    # P12's matter
            return r
    r.nontrivial = t
    rc, wide = show(*base, '-w', '1000000')
    if rc:
        r.bad('status', '%s -w 1000000 exits %d for "%s"' % (' '.join(base), rc, t))
        return r
    want = rows_joined(wide)
    for w in c['ws'] + [None]:
        opt = base if w is None else base + ['-w', str(w)]
        rc, o = show(*opt)
        if rc:
            if rc == -9999:
                r.incon('watchdog')
                return r
            r.bad('status', '%s exits %d for "%s"' % (' '.join(opt), rc, t))
            return r
        w = w or 80
        r.count('widths')
        r.count('lines', o.count('\n'))
        try:
            if c['cm']:
                r.count('groups', cmaf.follow_block(o, ref, w))
            else:
                r.count('groups', fmt.follow_block(o, ref, dict(kinds), w))
        except (cmaf.Bad, fmt.Bad) as ex:
            r.bad('layout', '%s of "%s": %s' % (' '.join(opt), t, ex.args[-1]))
            return r
        got = rows_joined(o)
        if got != want:
            k = next((k for k in range(max(len(got), len(want))) if got[k:k + 1] != want[k:k + 1]), 0)
            r.bad('content', '%s of "%s" does not show the same text as with a very wide line: row %d %r, %r' % (' '.join(opt), t, k, got[k:k + 1], want[k:k + 1]))
            return r
    if not c['cm']:
        rc, o = show('-x', '-w', str(c['ws'][1]))
        if o != plain:
            r.count('plain output follows -w')
            if ''.join(o.split()) != ''.join(plain.split()):
                r.bad('content', 'the plain display of "%s" has other text with -w %d' % (t, c['ws'][1]))
    return r
