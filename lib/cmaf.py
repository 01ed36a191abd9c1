"""What cmafihe should print: words of a text in order with the dictionary's glosses."""
import re
import jb, morfo
SE = {'sel': 2, 'ter': 3, 'vel': 4, 'xel': 5}
ORD = {2: '2nd', 3: '3rd', 4: '4th', 5: '5th'}
SHAPES = [re.compile(p) for p in (r"[^aeiouy'][aeiou][^aeiouy']", r"[^aeiouy'][^aeiouy'][aeiou]", r"[^aeiouy'][aeiou][aeiou]", r"[^aeiouy'][aeiou]'[aeiou]")]


def rafsi_of(w):
    """the rafsi of a lujvo, or of the part of a fu'ivla before the hyphen"""
    out, i = [], 0
    while i < len(w):
        s = w[i:]
        if len(s) == 5:
            out.append(s)
            break
        if len(s) > 4 and s[4] == 'y' or len(s) == 4 and "'" not in s:
            out.append(s[:4])
            i += 5
            continue
        k = 4 if len(s) > 2 and s[2] == "'" else 3
        out.append(s[:k])
        i += k
        if i < len(w) and w[i] == 'y':
            i += 1
        elif i < len(w) and len(out) == 1 and s[1] in 'aeiou' and s[k - 1] in 'aeiou' and (w[i] == 'r' or w[i] == 'n' and w[i + 1:i + 2] == 'r'):
            i += 1
    return out


def comp_gloss(d, rs):
    out, conv = [], None
    for n, r in enumerate(rs):
        if r in SE and n < len(rs) - 1:
            conv = SE[r]
            continue
        key = r if len(r) == 5 else '%' + r
        if conv:
            g = d.get(key + str(conv))
            if g is None:
                g = ORD[conv] + ' conv-' + d.get(key, '??')
            conv = None
        else:
            g = d.get(key, '?')
        out.append(g)
    return '-'.join(out)


def cmavo_parts(w):
    return re.findall(r"\.|[^aeiouy.']?[aeiouy']+", w)


def cmavo_gloss(d, w, pre=''):
    """gloss of a cmavo or compound: itself, else the longest known stretches"""
    ps = [p for p in cmavo_parts(w) if p != '.']
    out = []
    i = 0
    while i < len(ps):
        for j in range(len(ps), i, -1):
            g = d.get(pre + ''.join(ps[i:j]))
            if g is not None:
                out.append(g)
                i = j
                break
        else:
            out.append('?')
            i += 1
    return ' '.join(out).lstrip()


def item(d, w):
    """(word, class, gloss or None when anything will do)"""
    kind = morfo.pieces(w)
    if re.search(r"[bcdfgjklmnprstvxz]$", w.lower()):
        return w, 'CMENE', ''
    if all(k == 'CMAVO' for k, x, o in kind):
        g = d.get(w)
        if g is not None:
            return w, d.get('+' + w, ''), g
        return w, cmavo_gloss(d, w, '+'), cmavo_gloss(d, w)
    g = d.get(w)
    if g is None:
        c = morfo.classify(w)
        if c[0] == 'LUJVO':
            g = comp_gloss(d, rafsi_of(w))
        elif c[0] == 'GISMU':
            g = '?'
        elif c[0] and 'STAGE3' in c[0] and c[2] is not None and not re.match(r"[lnr][^aeiouy']", w[c[2] + 1:]):   # not the start of a word
            g = comp_gloss(d, rafsi_of(w[:c[2]])) + '-[' + w[c[2] + 1:] + ']'
    return w, 'BRIVLA', g


class Bad(Exception):
    pass


def items_text(o):
    """plain output -> items"""
    out = []
    i = 0
    for m in re.finditer(r"\(([^()]*)\) |\(\(\) |\(\)\) |(\S+) <([^>]*)> \[((?:[^]\[]|\[[^]]*\])*)\] |\n", o):
        if m.start() != i:
            return None
        i = m.end()
        if m.group(2) is not None:
            out.append((m.group(2), m.group(3), m.group(4)))
        elif m.group(0) != '\n':
            out.append((m.group(1) if m.group(1) is not None else m.group(0)[1],))
    return out if i == len(o) else None


def follow_block(o, items, width):
    """cmafihe -b -w width must show the items of the plain output; -> number of groups of lines"""
    lines = o.split('\n')
    want = [y for x in items for y in ([x] if len(x) == 3 else [('(',) * 3, (x[0], '', ''), (')',) * 3])]
    k = pos = n = 0
    while k < len(lines):
        if lines[k] == '':
            k += 1
            continue
        rows = lines[k:k + 3]
        if len(rows) < 3 or len(set(map(len, rows))) != 1 or k + 3 >= len(lines) or lines[k + 3] != '':
            raise Bad('block layout', 'cmafihe -b prints lines that do not belong together: %r' % rows)
        at, first = 0, True
        n += 1
        while at < len(rows[0]):
            if pos >= len(want):
                raise Bad('block', 'cmafihe -b prints more than the words of the text')
            w, s, g = want[pos]
            L = max(len(w), len(s), len(g))
            cell = tuple(x[at:at + L + 1] for x in rows)
            if cell != tuple(x.ljust(L + 1) for x in (w, s, g)):
                raise Bad('block', 'cmafihe -b prints %r where the word %r should be' % (cell, want[pos]))
            if at + L + 1 > width and not first:
                raise Bad('width', 'cmafihe -b -w %d prints a line of %d columns' % (width, at + L + 1))
            at += L + 1
            pos += 1
            first = False
        k += 4
    if pos != len(want):
        raise Bad('block', 'cmafihe -b does not print %r' % (want[pos],))
    return n
