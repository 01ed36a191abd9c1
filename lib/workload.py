"""Generators of texts, option sets, word lists and dictionaries."""
import os, random, subprocess, struct
import jb, grammar

MAGICW = "si sa su zo zoi la'o lo'u le'u zei bu ba'e ui nai y fa'o fu'e fu'o da'o cai za'e".split()
ALLW = sorted(jb.CMAVO)
ALPHA = "aeiouy'bcdfgjklmnprstvxz"
MAXWORD = 240


def rnd_word(rng):
    k = rng.random()
    if k < .3:
        return ''.join(rng.choice(ALPHA + ',') for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 30])))
    if k < .65:
        return ''.join(syll(rng) for _ in range(rng.choice([1, 2, 3, 4, 6, 10])))
    if k < .75:
        w = list(rng.choice(jb.GISMU + jb.LUJVO + jb.FUHIVLA + jb.CMENE))
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(w) + 1)
            m = rng.random()
            if m < .4:
                w.insert(i, rng.choice(ALPHA + ",ABEIOUT"))
            elif m < .7 and w:
                w[i % len(w)] = rng.choice(ALPHA)
            elif len(w) > 1:
                del w[i % len(w)]
        return ''.join(w)
    if k < .9:
        return ''.join(rng.choice(jb.RAFSI) + rng.choice(['', '', 'y', 'r', 'n'])
                       for _ in range(rng.choice([2, 2, 3, 4, 8, 20, 40])))[:MAXWORD]
    if k < .93:
        # lujvo whose ends the dictionary has patterns for, again and again
        x = [rng.choice(["mau", "gau", "me'a", "ri'a", "rai", "toi", "sel", "ter", "nal", "tol", "mut", "du'e"]) for _ in range(rng.choice([1, 2, 3]))]
        return (rng.choice(["klamy", "cadzy", "selpra", "mlat"]) + ''.join(rng.choice(x) for _ in range(rng.choice([3, 10, 20, 70]))))[:MAXWORD]
    w = rng.choice(["la", "doi", "lai", "mi", "klama", "'", "a", "djan", ",", "y", "by", "ua", "cy'", "bu", "lujvo", "bro", "sel"])
    return (w * rng.choice([2, 5, 12, 70, 200]) + rng.choice(['', 'n', 'a', ',']))[:MAXWORD]


def syll(rng):
    c = "bcdfgjklmnprstvxz"
    v = "aeiou"
    return rng.choice([
        lambda: rng.choice(c) + rng.choice(v),
        lambda: rng.choice(c) + rng.choice(v) + rng.choice(c),
        lambda: rng.choice(c) + rng.choice(c) + rng.choice(v),
        lambda: rng.choice(c) + rng.choice(v) + "'" + rng.choice(v),
        lambda: rng.choice(c) + rng.choice(['ai', 'ei', 'oi', 'au', 'iu', 'ua', 'ie']),
        lambda: rng.choice(v), lambda: 'y', lambda: rng.choice(c) + 'y'])()


NEST = [("le broda be", ""), ("lu mi klama", "li'u"), ("to mi klama", "toi"), ("mi klama gi'e ke citka", "ke'e"),
        ("le nu", "klama kei"), ("lo broda poi", "ku'o"), ("ke broda", "ke'e"), ("tu'e mi klama", "tu'u"), ("se", ""),
        ("ganai mi klama gi", ""), ("mi e", "mi"), ("mi ke broda", "ke'e"), ("vei pa su'i", "ve'o"), ("jai", "broda"), ("na", ""),
        ("la'e", "lu'u"), ("na'e", "broda"), ("zo'u", ""), ("ge mi gi", "do"), ("broda bo", "brode"), ("nu mi", "broda kei"),
        ("sei mi", "klama se'u"), ("mi klama ije", "mi klama"), ("mi klama .i", "mi klama"), ("le le mi", ""), ("lo ro da", ""),
        ("gu'e broda gi", "brode"), ("pe'o su'i", "ku'e"), ("li", "lo'o"), ("nu'a su'i", ""), ("me mi", "me'u"), ("jai bai", "broda"),
        ("noi ke'a", "broda ku'o"), ("mi xi pa", ""), ("doi djan", "do'u"), ("mi joi", "do"), ("na'u broda", "te'u"), ("mo'e mi", "te'u")]
LISTS = ["mi", "fa mi", "be mi", "bei do", "fe da", "bai mi", "pu", "puba", "vi", "ze'a", "broda", "klama", "se", "nai", "djan",
         "mi klama i", "mi .e", "broda gi'e", "pa", "re ci", "by", "ui", "uinai", "cai", "si", "sa", "su", "bu", "zei", "broda zei",
         "a bu", "zo", "lo'u", "le'u", "zoi gy", "gy", "ba'e", "fu'e", "ni'o", "i", "joi", "je", "ja'a", "co", "cei broda", "co'e",
         "goi ko'a", "poi broda ku'o", "zi'e", "noi broda", "xi pa", "moi", "pamoi", "mai", "pi'e", "fi'u", "ku", "vau", "ke", "ke'e",
         "fai mi", "jai broda", "tu'a mi", "go'i", "nu broda kei", "ce", "ce'e", "nu'i", "mi ce'e", "pe'a", "ko'a pe'a", "be fa mi",
         "le broda", "le broda ku", "la djan", "loi", "ro", "su'o", "ga", "gi", "bo", "ije", "i je", "gi'e bo"]


DEEP = [("mi klama lo nu", "vau kei ku", 'KOhA BRIVLA LE NU', 'VAU KEI KU'), ("ko'a broda lo mlatu poi", "vau ku'o ku", 'KOhA BRIVLA LE BRIVLA NOI', 'VAU KUhO KU'),
        ("mi klama lu", "vau li'u", 'KOhA BRIVLA LU', 'VAU LIhU')]


def deep_text(rng, n, classes=False):
    """nested clauses that all end at one place, with their terminators written"""
    pick = DEEP
    k = rng.choice([1, 2, 3])
    pick = rng.sample(pick, min(k, len(pick)))
    a, z = [], []
    for _ in range(n):
        d = rng.choice(pick)
        a += d[2 if classes else 0].split()
        z = d[3 if classes else 1].split() + z
    mid = ['KOhA', 'BRIVLA'] if classes else ['mi', 'klama']
    keep = rng.choice([1, 1, .97, .8])
    return a + mid + [w for w in z if rng.random() < keep] + ['VAU' if classes else 'vau'] * (rng.random() < .5)


def rnd_text(rng):
    """any text, hostile ones included; words and quotations stay below MAXWORD characters"""
    k = rng.random()
    if k < .40:
        g = grammar.Gen(rng, budget=rng.choice([5, 10, 20, 40, 80]), pfree=rng.choice([0, 0.05, .2]),
                        popt=rng.choice([.1, .3, .5]))
        toks = g.sentence(rng.choice(['text', 'paragraph', 'statement', 'sentence']))
        pe = rng.choice([0, .5, 1, 1])
        toks = [t for t, e in toks if not e or rng.random() > pe]
        ws = jb.text_for(rng, toks).split()
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            if ws:
                p = rng.randrange(len(ws))
                m = rng.random()
                if m < .4:
                    ws.insert(p, rng.choice(MAGICW))
                elif m < .6:
                    ws[p] = rng.choice(ALLW)
                elif m < .7:
                    ws[p] = rnd_word(rng)
                elif m < .85:
                    del ws[p]
                else:
                    q = rng.randrange(len(ws))
                    ws[p:p] = ws[min(p, q):max(p, q)][:20]
    elif k < .55:
        ws = [rng.choice(rng.choice([MAGICW, ALLW, ALLW, jb.GISMU, jb.CMENE, jb.LUJVO, jb.FUHIVLA]))
              for _ in range(rng.randint(1, 15))]
    elif k < .66:
        ws = [rnd_word(rng) for _ in range(rng.randint(1, 6))]
        if rng.random() < .5:
            ws.insert(0, rng.choice(['mi', 'coi', 'la', 'zo', 'mi klama']))
    elif k < .72:
        al = ''.join(map(chr, range(0, 256))) if rng.random() < .5 else ALPHA + ALPHA.upper() + "(). ,.:;0123456789\n\t>?!-"
        ws = [''.join(rng.choice(al) for _ in range(rng.choice([1, 3, 8, 30, 100, MAXWORD])))
              for _ in range(rng.randint(1, 3))]
    elif k < .76:
        ws = deep_text(rng, rng.choice([3, 10, 11, 12, 20, 22, 33, 60]))
    elif k < .86:
        n = rng.choice([1, 2, 3, 8, 22, 35, 70, 200])
        a, b = rng.choice(NEST)
        ws = [a] * n + [rng.choice(['', 'mi', 'klama', 'broda', 'pa', 'da', 'le broda'])] + \
             ([b] * n if rng.random() < .6 else [])
        if rng.random() < .5:
            ws += [rng.choice(['klama', 'cu broda', 'vau', 'mi', 'i'])]
        if rng.random() < .3:
            c, d = rng.choice(NEST)
            m = rng.choice([1, 2, 5, 20])
            ws = [c] * m + ws + [d] * m
    else:
        ws = []
        for _ in range(rng.choice([1, 2, 3])):
            ws += [rng.choice(LISTS)] * rng.choice([1, 2, 5, 12, 21, 33, 65, 300])
            if rng.random() < .4:
                ws.append(rng.choice(['klama', 'mi', 'broda', 'le', 'cu', 'pa']))
    sep = rng.choice([' ', ' ', ' ', '\n', '. ', '\t', ' \n '])
    return sep.join(w for w in ws if w) + rng.choice(['', '\n'])


OUTMODES = [[], [], ['-t'], ['-tf'], ['-l'], ['-l', '-b'], ['-x'], ['-x'], ['-x', '-b'], ['-H'], ['-b'], ['-l', '-x']]


def rnd_opts(rng):
    o = list(rng.choice(OUTMODES))
    if rng.random() < .25:
        o += ['-ie']
    if rng.random() < .12:
        o += ['-re']
    if rng.random() < .12:
        o += [rng.choice(['-se', '-sev'])]
    if rng.random() < .1:
        o += ['-cr']
    if rng.random() < .15:
        o += ['-bt']
    if rng.random() < .1:
        o += ['-k']
    if rng.random() < .25:
        o += ['-w', str(rng.choice([1, 5, 10, 20, 40, 79, 80, 120, 132, 200, 500]))]
    if rng.random() < .05:
        o += ['-m']
    if rng.random() < .12:
        o += [rng.choice(['-d', '-dd', '-dd'])]
    rng.shuffle(o) if '-w' not in o else None
    return o


DICTVALS = ['', 'x', 'D;thing', 'A;go', 'S;stuff;n;v', '%s%d%n', '@nosuch', '@klama', 'A;', ';', 'P;a\\b', '{}', '>X', '>x3n',
            '$1', 'D;' + 'long ' * 20, '<b>&amp;', '_^#', '@2', '%', '1', '?']


def read_dict(path):
    b = open(path, 'rb').read()
    n = struct.unpack('>I', b[:4])[0]
    res = {}
    p = 4 + 2 * n
    for i in range(n):
        kl, vl = b[4 + 2 * i], b[5 + 2 * i]
        res[b[p:p + kl].decode('latin1')] = b[p + kl + 1:p + kl + 1 + vl].decode('latin1')
        p += kl + 1 + vl + 1
    return res


def write_dict(path, d):
    ks = sorted(k.encode('latin1') for k in d)
    with open(path, 'wb') as f:
        f.write(struct.pack('>I', len(ks)))
        vs = [d[k.decode('latin1')].encode('latin1') for k in ks]
        f.write(b''.join(bytes([len(k), len(v)]) for k, v in zip(ks, vs)))
        f.write(b''.join(k + b'\0' + v + b'\0' for k, v in zip(ks, vs)))
