"""Running the programs under test and building texts."""
import json, os, random, resource, signal, subprocess, tempfile, atexit, shutil, sys
import build
import grammar
HERE = os.path.dirname(os.path.abspath(__file__))
CMAVO = json.load(open(os.path.join(HERE, 'cmavo.json')))
BYSEL = {}
for _w, (_s, _ss) in sorted(CMAVO.items()):
    BYSEL.setdefault(_s, []).append(_w)

GISMU = ('klama prami citka mlatu gerku zarci barda cmalu tavla djica nelci ckule cukta xamgu kanla '
         'bajra cadzu jbena cipra fanmo ganse jinvi krici lifri morsi nanmu ninmu pelxu rinka sipna '
         'tcidu viska vofli xekri zdani zmadu badna bevri danlu dunda fagri gapru jmive kerfa ladru').split()
LUJVO = "lojbo jbobau selbri brivla terdi'i bavlamdei mlatyzda soirsai cakcinki".split()
FUHIVLA = "cidjrspageti djarspageti spageti tricrgado djinrnintegrale bangrnesperanto".split()
CMENE = "djan meris alis djordj paris frank teris".split()

GISMU_RAFSI = {}
for _l in open(os.path.join(HERE, 'gismu.txt')):
    _l = _l.rstrip('\n')
    if _l and _l[0] != '#':
        GISMU_RAFSI[_l[:5].strip()] = _l[5:18].split()
RAFSI = sorted({r for rs in GISMU_RAFSI.values() for r in rs} | {g[:4] for g in GISMU_RAFSI if len(g) == 5})

MAGIC = {'BAhE', 'SI', 'SA', 'SU', 'FAhO', 'ZO', 'ZOI', 'LOhU', 'LEhU', 'ZEI', 'BU', 'UI', 'CAI', 'Y',
         'DAhO', 'FUhO', 'FUhE'}
PLAINSEL = sorted(s for s in BYSEL if s not in MAGIC)


def words_for(rng, tok, rich=True):
    """list of words realising one grammar terminal"""
    if tok == 'BRIVLA':
        r = rng.random()
        if not rich or r < 0.85:
            return [rng.choice(GISMU)]
        return [rng.choice(LUJVO if r < 0.93 else FUHIVLA)]
    if tok == 'CMENE':
        return [rng.choice(CMENE)]
    if tok == 'ZOq':
        return ['zo', rng.choice(GISMU + ['mi', 'zo', 'si', 'coi'])]
    if tok == 'LOhUq':
        return ["lo'u"] + [rng.choice(GISMU + ['mi', 'cu', 'ku']) for _ in range(rng.randint(1, 3))] + ["le'u"]
    if tok == 'ZOIq':
        d = rng.choice(['gy', 'by', 'kuot'])
        return [rng.choice(['zoi', "la'o"]), d + '.'] + \
               [rng.choice(['some', 'text', 'xyzzy', 'mi', 'vau']) for _ in range(rng.randint(1, 3))] + ['.' + d]
    if tok == 'ZEIw':
        return [rng.choice(GISMU), 'zei', rng.choice(GISMU)]
    if tok == 'BUw':
        return [rng.choice(['a', 'e', 'i', 'o', 'u', 'klama', 'djan.']), 'bu']
    ws = BYSEL[tok]
    return [rng.choice(ws)]


def text_for(rng, toks, rich=True):
    out = []
    for t in toks:
        out.extend(words_for(rng, t, rich))
    return ' '.join(out)


class Earley:
    """pipe to the compiled recogniser"""
    exe = None
    cfgs = {}

    @classmethod
    def prepare(cls):
        d = os.path.join(build.CACHE, 'tools')
        os.makedirs(d, exist_ok=True)
        src = os.path.join(build.VERIF, 'src', 'earley.cc')
        import hashlib, fcntl
        h = hashlib.sha256(open(src, 'rb').read())
        for f in ('bnf300.txt', 'grammar.py'):
            h.update(open(os.path.join(HERE, f), 'rb').read())
        key = h.hexdigest()[:12]
        exe = os.path.join(d, 'earley-' + key)
        with open(os.path.join(d, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            for m in ('strict', 'full', 'loose', 'strictJ', 'fullJ', 'looseJ', 'strictK', 'fullK', 'strictJK', 'fullJK', 'strictAt'):
                cls.cfgs[m] = os.path.join(d, '%s-%s.cfg' % (m, key))
                if not os.path.exists(cls.cfgs[m]):
                    grammar.write_cfg(m, cls.cfgs[m] + '.tmp')
                    os.rename(cls.cfgs[m] + '.tmp', cls.cfgs[m])
            if not os.path.exists(exe):
                subprocess.run(['g++', '-O2', '-w', '-o', exe + '.tmp', src], check=True)
                os.rename(exe + '.tmp', exe)
        cls.exe = exe

    def __init__(self):
        if not Earley.exe:
            Earley.prepare()
        self.p = subprocess.Popen([Earley.exe] + ['%s=%s' % kv for kv in Earley.cfgs.items()],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(self, line):
        self.p.stdin.write(line + '\n')
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise RuntimeError('earley died on ' + line)
        return r.split()

    def accepts(self, toks, g='strict'):
        r = self.ask('A %s %s' % (g, ' '.join(toks)))
        if r[0] == '1':
            return True, None, None
        return False, int(r[1]), set(r[2:])

    def derives(self, nt, toks, g='loose'):
        return self.ask('S %s %s %s' % (g, nt, ' '.join(toks)))[0] == '1'

    def viable(self, toks, g='strict'):
        r = self.ask('V %s %s' % (g, ' '.join(toks)))
        return None if r == ['-'] else set(r)

    def complete(self, toks, g='full'):
        for strong in (True, False):
            r = self.ask('E %s %s | %s' % (g, ' '.join(toks), ' '.join(map(str, grammar.lookahead(toks, strong)))))
            if r[0] == '1':
                return True, int(r[1]), r[2:]
        return False, int(r[1]), set(r[2:])


    def sure(self, toks, g='full'):
        """the completion on which every reading of the elision rule agrees, or None"""
        res = self.sure1(toks, g)
        if res is None:
            return None
        k = grammar.kec(toks)
        if 'KEc' in k:
            rk = self.sure1(k, g + 'K')
            if rk is None or [t.replace('KEc', 'KE') for t in rk] != res:
                return None
        return res

    def accepts_sure(self, toks, g='strict'):
        return self.accepts(grammar.kec(toks), g + 'K')[0]

    def viable_sure(self, toks, g='strict'):
        return self.viable(grammar.kec(toks), g + 'K') is not None

    def sure1(self, toks, g):
        res = None
        for la in (grammar.lookahead(toks, True), grammar.lookahead(toks, False), [1] * len(toks)):
            r = self.ask('E %s %s | %s' % (g, ' '.join(toks), ' '.join(map(str, la))))
            if r[0] != '1' or r[1] != '1' or (res is not None and r[2:] != res):
                return None
            res = r[2:]
        return res


def base_env(dict_path=None, **kw):
    # memory fresh from malloc, or given back, is full of rubbish: what depends on it goes wrong in sight
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'MALLOC_PERTURB_': '165'}
    if dict_path:
        e['JBOFIHE_DICTIONARY'] = dict_path
    e.update(kw)
    return e


class Hang(Exception):
    """the program used up its processor time"""


_F = {}
FSIZE, AS = 200 << 20, 3 << 30


def spawn(cmd, inp, env, cwd=None, cpu=60, wall=600, space=AS):
    """Runs cmd with limits on processor time, size of output and address space (none of which ordinary runs come near, and all
    of which would otherwise let a runaway program take the machine down). -> (rc, out, err); rc None when the watchdog fired."""
    if _F.get('pid') != os.getpid():
        _F.update(pid=os.getpid(), o=os.fdopen(os.memfd_create('o'), 'w+b'), e=os.fdopen(os.memfd_create('e'), 'w+b'))
    fo, fe = _F['o'], _F['e']
    for f in (fo, fe):
        f.seek(0)
        f.truncate(0)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=env, cwd=cwd)
    try:
        for what, n in ((resource.RLIMIT_CPU, cpu), (resource.RLIMIT_FSIZE, FSIZE), (resource.RLIMIT_AS, space)):
            if n:
                resource.prlimit(p.pid, what, (n, n + 1 if what == resource.RLIMIT_CPU else n))
    except (OSError, ValueError):
        pass
    try:
        p.communicate(inp, timeout=wall)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, b'', b''
    res = []
    for f in (fo, fe):
        f.seek(0)
        res.append(f.read())
    return p.returncode, res[0], res[1]


def run(exe, args=(), inp=b'', env=None, timeout=60, cwd=None):
    """-> (rc, stdout bytes, stderr bytes); rc -9999 when the watchdog fired; raises Hang when the processor time ran out."""
    if isinstance(inp, str):
        inp = inp.encode('latin-1', 'replace')
    cpu = max(60, timeout)
    rc, out, err = spawn([exe] + list(args), inp, env, cwd, cpu)
    if rc is None:
        return -9999, b'', b'timeout'
    if rc == -signal.SIGXCPU or rc == -signal.SIGKILL and not err:
        raise Hang('%s %s does not stop (more than %d s of processor time) on %r' % (os.path.basename(str(exe)), list(args), cpu, inp[:400]))
    return rc, out, err


class Jbofihe:
    def __init__(self, variant='plain', d=None, dictionary=None):
        self.d = d or build.ensure(variant)[variant]
        self.dict = dictionary or os.path.join(self.d, 'smujmaji.dat')
        self.env = base_env(self.dict)

    def jbofihe(self, text, *args, **kw):
        return run(os.path.join(self.d, 'jbofihe'), args, text, self.env, **kw)

    def tool(self, name, args=(), inp=b'', **kw):
        return run(os.path.join(self.d, name), args, inp, self.env, **kw)
