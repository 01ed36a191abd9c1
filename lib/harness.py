"""Case runner shared by every check.

A check module defines
    PROP      property id
    COUNTS    {'quick': cases, 'thorough': cases}
    RULE      what makes a case count as a distinct non-trivial one
    prepare(ctx)          once in every process (builds are cached and locked)
    gen(ctx, rng, i)      -> a JSON-able case
    judge(ctx, case)      -> Result
and the runner generates cases from VERIF_SEED, judges them on all cores,
matches violations against known_findings.json, writes the evidence file and a
replay file per violation. A case always gets the same verdict: time limits are
only watchdogs, and one that fires counts as inconclusive.
"""
import hashlib, importlib, json, multiprocessing, os, random, signal, sys, time, traceback, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Slow(BaseException):
    """One case took too long."""


class Result:
    last = None

    def __init__(self):
        Result.last = self
        self.violations = []     # (key, message)
        self.nontrivial = None   # anything; hashed
        self.observed = {}       # counters
        self.inconclusive = 0

    def bad(self, key, msg):
        self.violations.append((key, msg))

    def count(self, k, n=1):
        self.observed[k] = self.observed.get(k, 0) + n

    def incon(self, why):
        self.inconclusive += 1
        self.count('inconclusive: ' + why)


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.tmp = tempfile.mkdtemp(prefix='vf')


_M = None
_C = None
CASE_LIMIT = {'quick': 150, 'thorough': 1800}     # seconds of wall clock
RUN_LIMIT = {'quick': 660}


def _init(mod, tier):
    global _M, _C
    _M = importlib.import_module(mod)
    _C = Ctx(tier)
    try:
        _M.prepare(_C)
    except Exception:
        traceback.print_exc()
        raise


def _cleanup():
    if _C:
        shutil.rmtree(_C.tmp, ignore_errors=True)


def h(x):
    return hashlib.sha256(repr(x).encode('utf8', 'surrogateescape')).hexdigest()[:16]


def judge(case):
    import jb
    try:
        return _M.judge(_C, case)
    except Slow:
        # what was seen so far counts; helpers may be in the middle of an exchange, so they are started afresh
        signal.alarm(0)
        r = Result.last or Result()
        r.incon('case took too long')
        _cleanup()
        _init(_M.__name__, _C.tier)
        return r
    except jb.Hang as e:
        r = Result()
        r.bad('hang', str(e))
        return r


def _alarm(*_):
    raise Slow()


def _work(a):
    signal.signal(signal.SIGALRM, _alarm)
    seed, lo, hi = a
    out = {'n': 0, 'nontrivial': set(), 'observed': {}, 'violations': [], 'samples': [], 'incon': 0, 'err': None}
    case = None
    try:
        for i in range(lo, hi):
            rng = random.Random('%s/%s/%d' % (_M.PROP, seed, i))
            case = _M.gen(_C, rng, i)
            if case is None:
                continue
            signal.alarm(CASE_LIMIT.get(_C.tier, 240))
            r = judge(case)
            signal.alarm(0)
            out['n'] += 1
            out['incon'] += r.inconclusive
            if r.nontrivial is not None:
                out['nontrivial'].add(h(r.nontrivial))
                if len(out['samples']) < 2:
                    out['samples'].append(case)
            for k, v in r.observed.items():
                out['observed'][k] = out['observed'].get(k, 0) + v
            for k, m in r.violations:
                out['violations'].append((k, m, case))
            if any(k.startswith('hang') for k, m in r.violations) or len(out['violations']) > 20:
                break
    except (Exception, Slow):
        signal.alarm(0)
        out['err'] = traceback.format_exc() + '\ncase: %s' % repr(case)[:3000]
    return out


def known_for(prop):
    try:
        es = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e['key']: e['what'] for e in es['known'] if e['property'] == prop}


def jdef(o):
    if isinstance(o, bytes):
        return {'b': o.decode('latin-1')}
    raise TypeError(o)


def main(modname, tier=None, replay=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = os.environ.get('VERIF_SEED') or '1'
    import build
    mod = importlib.import_module(modname)
    global _M, _C
    try:
        build.ensure(*mod.VARIANTS)
        for c in getattr(mod, 'CONFIGS', ()):
            build.ensure('plain', config=c)
        if hasattr(mod, 'setup'):
            mod.setup()
    except build.BuildError as e:
        print('ERROR: /repo does not build:', e)
        return 2
    if replay:
        case = json.load(open(replay))['case']
        _init(modname, tier)
        r = judge(case)
        for k, m in r.violations:
            print('VIOLATION property=%s replay=%s\n  %s: %s' % (mod.PROP, replay, k, m))
        _cleanup()
        return 1 if r.violations else 0
    n = mod.COUNTS[tier]
    n = int(os.environ.get('VERIF_COUNT') or n)
    chunk = max(1, min(50, n // 64 or 1))
    jobs = [(seed, i, min(i + chunk, n)) for i in range(0, n, chunk)]
    tot = {'n': 0, 'nontrivial': set(), 'observed': {}, 'violations': [], 'samples': [], 'incon': 0}
    errs = []
    known = known_for(mod.PROP)
    with multiprocessing.Pool(int(os.environ.get('VERIF_JOBS') or 8), _init, (modname, tier)) as pool:
        it = pool.imap_unordered(_work, jobs)
        while True:
            try:
                o = it.next(max(1, t0 + RUN_LIMIT[tier] - time.time()) if tier in RUN_LIMIT else None)
            except StopIteration:
                pool.map(_fin, range(64), 1)
                break
            except multiprocessing.TimeoutError:
                tot['observed']['stopped at the time limit'] = 1
                pool.terminate()
                break
            tot['n'] += o['n']
            tot['incon'] += o['incon']
            tot['nontrivial'] |= o['nontrivial']
            for k, v in o['observed'].items():
                tot['observed'][k] = tot['observed'].get(k, 0) + v
            tot['violations'] += o['violations']
            if len(tot['samples']) < 6:
                tot['samples'] += o['samples'][:1]
            if o['err']:
                errs.append(o['err'])
            new = [v for v in tot['violations'] if v[0] not in known]
            if len(errs) > 3 or len(new) > 300 or any(v[0].startswith('hang') for v in new):
                pool.terminate()
                break
    if hasattr(mod, 'finish'):
        for k, m in mod.finish(tot):
            tot['violations'].append((k, m, None))
    seen, viol = {}, {}
    for k, m, case in tot['violations']:
        if k in known:
            seen.setdefault(k, 0)
            seen[k] += 1
        else:
            c = viol.get(k)
            if c is None or (case is not None and len(json.dumps(case, default=jdef)) < len(json.dumps(c[1], default=jdef))):
                viol[k] = (m, case)
    for k, what in sorted(known.items()):
        if k in seen:
            print('KNOWN-FINDING: property=%s %s' % (mod.PROP, what))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    if errs and not viol:
        print('ERROR: the check itself failed:\n' + errs[0])
    for k in sorted(viol)[:10]:
        m, case = viol[k]
        p = os.path.join(VERIF, 'replay', '%s-%s.json' % (mod.PROP, h(k)[:8]))
        with open(p, 'w') as f:
            json.dump({'property': mod.PROP, 'key': k, 'message': m, 'case': case}, f, indent=1, default=jdef)
        print('VIOLATION property=%s replay=%s' % (mod.PROP, p))
        print('  %s: %s' % (k, m[:1500]))
    need = min(50, max(1, n // 10))
    if not viol and not errs and len(tot['nontrivial']) < min(need, getattr(mod, 'NEED', need)):
        print('ERROR: only %d non-trivial cases were observed' % len(tot['nontrivial']))
        errs.append('too few')
    ev = {'property': mod.PROP, 'tier': tier, 'seed': int(seed) if seed.isdigit() else 0, 'level': 'exploration',
          'coverage': {'evaluations': tot['n'], 'distinct_nontrivial': len(tot['nontrivial']), 'rule': mod.RULE,
                       'samples': [json.loads(json.dumps(s, default=jdef)) for s in tot['samples'][:6]],
                       'observed': dict(sorted(tot['observed'].items())), 'inconclusive': tot['incon'],
                       'known_findings_seen': seen, 'violations': sorted(viol)[:50], 'errors': len(errs)},
          'wall_s': round(time.time() - t0, 1)}
    with open(os.path.join(VERIF, 'evidence', mod.PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s' %
          (mod.PROP, tier, tot['n'], len(tot['nontrivial']), tot['incon'], time.time() - t0))
    for k, v in sorted(tot['observed'].items())[:60]:
        print('   %-50s %d' % (k, v))
    return 1 if viol else 2 if errs else 0


def _fin(_):
    _cleanup()
