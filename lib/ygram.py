"""Second source of sentences: the productions of the parser's own grammar as it was when this was written (ygram.json).
Only a generator: whether a sentence is grammatical is always decided by bnf.300."""
import json, os, random
HERE = os.path.dirname(os.path.abspath(__file__))
R = json.load(open(os.path.join(HERE, 'ygram.json')))
MAP = {'ZO': 'ZOq', 'LOhU': 'LOhUq', 'ZOI': 'ZOIq', 'ZEI': 'ZEIw', 'BU': 'BUw'}
BADT = {'error', 'IMPOSSIBLE_TOKEN', 'UI', 'CAI', 'Y', 'DAhO', 'FUhO', 'FUhE'}
for k in R:
    R[k] = [a for a in R[k] if not set(a) & BADT]
COST = {}
ch = True
while ch:
    ch = False
    for k, alts in R.items():
        best = min([sum(COST.get(t, 10**9) if t in R else 1 for t in a) + 1 for a in alts] or [10**9])
        if best < COST.get(k, 10**9):
            COST[k] = best
            ch = True
for k in R:
    R[k] = [a for a in R[k] if all(t not in R or COST.get(t, 10**9) < 10**9 for t in a)]
ELID = {'BEhO', 'BOI', 'CU', 'DOhU', 'FEhU', 'GEhU', 'KEI', 'KEhE', 'KU', 'KUhE', 'KUhO', 'LIhU', 'LOhO', 'LUhU', 'MEhU', 'NUhU',
        'SEhU', 'TEhU', 'TOI', 'TUhU', 'VAU', 'VEhO', 'tail_terms'}


def strip(a):
    return [t for t in a if t not in ELID and t != 'free_seq']


FULL = {}
for k, alts in R.items():
    FULL[k] = [a for a in alts if not any(strip(a) == strip(b) and sum(t in ELID for t in b) > sum(t in ELID for t in a) for b in alts)]
FULL['sentence'] = [a for a in R['sentence'] if a != ['no_cu_sentence']]
FULL['tail_terms'] = [a for a in R['tail_terms'] if 'VAU' in a]
LEVEL = {}
for k in R:
    b, _, n = k.rpartition('_')
    if n.isdigit():
        up = b + '_%d' % (int(n) - 1) if int(n) > 1 else b
        if up in R:
            LEVEL.setdefault(k, []).append(up)
            LEVEL.setdefault(up, []).append(k)
STARTS = ['text', 'text_1', 'paragraph', 'statement', 'sentence', 'sentence']


def sentence(rng, budget=20, popt=.3, pfree=.05, start=None, full=False, slip=0):
    """full: write the terminators; slip: probability of using a neighbouring precedence level (mostly ungrammatical)"""
    out = []
    left = [budget]

    def cost(a):
        return sum(COST[t] if t in R else 1 for t in a)

    def go(sym):
        if sym not in R:
            if not sym.startswith('PRIVATE_'):
                out.append(MAP.get(sym, sym))
                left[0] -= 1
            return
        if slip and sym in LEVEL and rng.random() < slip:
            sym = rng.choice(LEVEL[sym])
        alts = (FULL if full else R)[sym]
        if rng.random() > pfree:
            alts = [a for a in alts if 'free_seq' not in a] or alts
        if left[0] <= 0:
            m = min(map(cost, alts))
            alts = [a for a in alts if cost(a) == m]
        elif rng.random() > popt:
            m = sorted(map(cost, alts))[len(alts) // 3]
            alts = [a for a in alts if cost(a) <= m]
        for t in rng.choice(alts):
            go(t)
    go(start or rng.choice(STARTS))
    return out


PARENTS = {}
for _k, _alts in R.items():
    for _a in _alts:
        for _i, _t in enumerate(_a):
            if _t in R:
                PARENTS.setdefault(_t, []).append((_k, _a, _i))
DIST = {'sentence': 0, 'statement': 2, 'text_1': 4, 'paragraphs': 3}
_todo = ['sentence', 'statement', 'paragraphs', 'text_1']
while _todo:
    _s = _todo.pop(0)
    for _a in R[_s]:
        for _t in _a:
            if _t in R and _t not in DIST:
                DIST[_t] = DIST[_s] + 1
                _todo.append(_t)
TARGETS = sorted(k for k in R if k in DIST and any(len(a) > 1 for a in R[k]))


def targeted(rng, full=True, slip=False, pfree=.03):
    """A sentence that uses one production chosen evenly among all, with one of its parts expanded by another production chosen
    evenly (slip: at a neighbouring precedence level), in a context as short as comes."""
    G = FULL if full else R
    out = []
    left = [rng.choice([0, 0, 3, 8, 15])]

    def pick(alts, free=False):
        if not free and rng.random() > pfree:
            alts = [a for a in alts if 'free_seq' not in a] or alts
        return alts

    def cost(a):
        return sum(COST[t] if t in R else 1 for t in a)

    def go(sym):
        if sym not in R:
            if not sym.startswith('PRIVATE_'):
                out.append(MAP.get(sym, sym))
                left[0] -= 1
            return
        alts = pick(G[sym])
        if left[0] <= 0 or rng.random() < .5:
            m = min(map(cost, alts))
            alts = [a for a in alts if cost(a) <= m + (left[0] > 0)]
        for t in rng.choice(alts):
            go(t)

    target = rng.choice(TARGETS)
    alt = rng.choice(pick([a for a in G[target] if len(a) > 1] or G[target]))
    # the way up
    path = []
    cur = target
    n = 0
    while cur in PARENTS and not (cur in ('text_1', 'paragraphs', 'statement', 'sentence', 'fragment') and (n > 20 or rng.random() < .7)):
        ps = PARENTS[cur]
        ps = [p for p in ps if p[1] in G[p[0]]] or ps
        if n > 4 or rng.random() < .5:
            m = min(DIST.get(p[0], 99) for p in ps)
            ps = [p for p in ps if DIST.get(p[0], 99) == m]
        q = [p for p in ps if 'free_seq' not in p[1]]
        p = rng.choice(q or ps)
        path.append(p)
        cur = p[0]
        n += 1
        if n > 40:
            return []

    def mid():
        nts = [i for i, t in enumerate(alt) if t in R and t != 'free_seq']
        if slip:
            nts = [i for i in nts if alt[i] in LEVEL] or nts
        k = rng.choice(nts) if nts else -1
        for i, t in enumerate(alt):
            if i == k:
                if slip and t in LEVEL:
                    t = rng.choice(LEVEL[t])
                while 1:              # down unit productions, then one that is not
                    al = pick(G[t])
                    big = [a for a in al if len(a) > 1]
                    one = [a[0] for a in al if len(a) == 1 and a[0] in R]
                    if big and (not one or rng.random() < .5):
                        for u in rng.choice(big):
                            go(u)
                        break
                    if one:
                        t = rng.choice(one)
                        continue
                    go(t)
                    break
            else:
                go(t)

    def walk(i):
        if i < 0:
            mid()
            return
        lhs, a, pos = path[i]
        for j, t in enumerate(a):
            if j == pos:
                walk(i - 1)
            else:
                go(t)
    walk(len(path) - 1)
    return out
