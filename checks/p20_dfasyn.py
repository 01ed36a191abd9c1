"""P20: generated state machines do what their description says."""
import os, subprocess, random
import build, jb, dfagen
from harness import Result
PROP = 'P20'
VARIANTS = ['plain']
COUNTS = {'quick': 900, 'thorough': 20000}
RULE = ('one case = a random description, compiled by dfasyn in all four table/minimisation modes, each compiled and driven with '
        'random walks and random token sequences against a direct simulation of the description; non-trivial when the machine has more than one '
        'reachable state or is ambiguous; distinct by description')

DRIVER = r'''
#include <stdio.h>
int main(void) { int n, t, s, i; 
  while (scanf("%%d", &n) == 1) { s = 0; printf("%%ld,%%ld ", (long)EXITV[0], ATTRV(0)); 
    for (i = 0; i < n; i++) { scanf("%%d", &t); if (s >= 0) { s = NEXT(s, t); if (s < 0) printf("- "); else printf("%%ld,%%ld ", (long)EXITV[s], ATTRV(s)); } }
    printf("\n"); } return 0; }
'''


def prepare(ctx):
    ctx.d = build.ensure('plain')['plain']
    ctx.exe = os.path.join(ctx.d, 'dfasyn', 'dfasyn')


def gen(ctx, rng, i):
    return {'seed': rng.randrange(1 << 40), 'dfa': 1}


def build_case(seed):
    rng = random.Random(seed)
    while 1:
        d = dfagen.make(rng)
        m = dfagen.Machine(d)
        e = m.explore(300)
        if e and (len(e[0]) > 1 or rng.random() < .2) and (not e[1] or rng.random() < .15):
            return d, m, e, dfagen.text(d, rng), rng


def judge(ctx, c):
    r = Result()
    d, m, (states, amb), text, rng = build_case(c['seed'])
    nt = len(d['tokens'])
    if len(states) > 1 or amb:
        r.nontrivial = text
    r.count('reachable states', len(states))
    seqs = [[]]
    for _ in range(40):
        # a random walk that mostly stays inside the machine
        s = m.close({m.start})
        q = []
        for _ in range(rng.choice([1, 2, 4, 8, 16])):
            if amb or m.lab.get(s) is None or m.lab[s][0][1]:
                break
            ok = [t for t in range(nt) if m.step(s, t)]
            if ok and rng.random() < .93:
                t = rng.choice(ok)
            else:
                t = rng.randrange(nt)
            q.append(t)
            s = m.step(s, t)
            if not s:
                break
        seqs.append(q)
    # every transition out of every reachable state
    if not amb:
        s0 = m.close({m.start})
        route = {s0: []}
        todo = [s0]
        while todo:
            s = todo.pop(0)
            if m.lab[s][0][1]:
                continue
            for t in range(nt):
                n = m.step(s, t)
                if len(seqs) < 3000:
                    seqs.append(route[s] + [t])
                if n and n not in route:
                    route[n] = route[s] + [t]
                    todo.append(n)
    src = os.path.join(ctx.tmp, 'd.in')
    open(src, 'w').write(text)
    cpath = os.path.join(ctx.tmp, 'o.c')
    exe = os.path.join(ctx.tmp, 'o')
    p = d['prefix'] + '_' if d['prefix'] else ''
    for mode in ([], ['-u'], ['-ud'], ['-u', '-ud']):
        if os.path.exists(cpath):
            os.unlink(cpath)
        rc, out, err = jb.run(ctx.exe, mode + ['-o', cpath, src], b'', jb.base_env(), timeout=120)
        if rc == -9999:
            r.bad('hang dfasyn', 'dfasyn does not stop on a description with %d states' % len(states))
            return r
        if amb:
            r.count('ambiguous descriptions')
            if rc == 0:
                r.bad('ambiguous accepted', 'dfasyn accepted a description whose rules give two results at once:\n' + text)
            continue
        if rc != 0:
            r.bad('refused', 'dfasyn refused a well-formed description with status %d (%s):\n%s' % (rc, err[-300:].decode('latin1'), text))
            return r
        drv = DRIVER.replace('%%', '%').replace('EXITV', p + 'exitval').replace('NEXT', p + 'next_state')
        drv = drv.replace('ATTRV', 'AT')
        if d['attrs'] is not None:
            at = '#define AT(x) ((long)%sattribute[x])\n' % p
        else:
            at = '#define AT(x) (-1L)\n'
        with open(cpath, 'a') as f:
            f.write(at + drv)
        q = subprocess.run(['gcc', '-w', '-O0', '-o', exe, cpath], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            r.bad('does not compile', 'the generated code does not compile: %s\n%s' % (q.stdout.decode('latin1')[:500], text))
            return r
        inp = '\n'.join('%d %s' % (len(s), ' '.join(map(str, s))) for s in seqs) + '\n'
        rc, out, err = jb.run(exe, [], inp.encode(), jb.base_env(), timeout=60)
        if rc != 0:
            r.bad('generated code crashed', 'generated tables crash (%s) in mode %s:\n%s' % (rc, mode, text))
            return r
        lines = out.decode().splitlines()
        for s, l in zip(seqs, lines):
            want = m.run(s)
            got = l.split()
            r.count('token sequences')
            for k, w in enumerate(want):
                if w == 'early':
                    break
                g = got[k] if k < len(got) else '?'
                ws = '-' if w is None else '%d,%d' % (w[0], -1 if w[1] is None else w[1])
                if g != ws:
                    r.bad('wrong result', 'mode %s: after tokens %s the tables give %s, the description says %s\n%s' %
                          (' '.join(mode), [d['tokens'][x] for x in s[:k]], g, ws, text))
                    return r
    return r
