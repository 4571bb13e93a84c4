"""Attributing a difference seen in a composite construct to one property: the difference counts for the
property if it is gone once the part of the text that the property is about is made plain."""
import re
import grammar as G
import refparse as RP

WORDS = set(G.KEYWORDS.values())
WORD = re.compile(r'_?[A-Za-z][0-9A-Z_a-z-]*')
NUMS = ['FloatValueLit', 'HexLit', 'OctLit', 'DecLit']
VALUES = {'true', 'false', 'null', 'NaN', 'Infinity'}


def tokens(s):
    """[(kind, text, start, end)] without whitespace and comments; kind: w word, n number, s string, p other"""
    r = RP.Ref(s)
    p, out = r.ws(0), []
    while p < len(s):
        m = RP.RX['StringLit'].match(s, p)
        k = 's'
        if not m:
            m, k = WORD.match(s, p), 'w'
        if not m:
            ms = [x for x in (RP.RX[n].match(s, p) for n in NUMS) if x]
            m, k = (max(ms, key=lambda x: x.end()), 'n') if ms else (None, 'n')
        e = m.end() if m else p + 1
        out.append((k if m else 'p', s[p:e], p, e))
        p = r.ws(e)
    return out


def cut(s, spans):
    """s with each (start, end, replacement) applied"""
    out, p = [], 0
    for a, b, w in sorted(spans):
        if a < p:
            continue
        out += [s[p:a], w]
        p = b
    return ''.join(out) + s[p:]


def match(ts, i, o, c):
    """index of the bracket that closes ts[i], or None"""
    n = 0
    for j in range(i, len(ts)):
        if ts[j][1] == o:
            n += 1
        elif ts[j][1] == c:
            n -= 1
            if n == 0:
                return j
    return None


def trivia(s):
    ts = tokens(s)
    glue = lambda a, b: re.match(r'[\w.+-]', b[0]) and re.search(r'[\w.+-]$', a)
    tight = ''
    for _, w, _, _ in ts:
        tight += (' ' if tight and glue(tight, w) else '') + w
    return [' '.join(t[1] for t in ts), tight]


def near_keywords(s):
    sp, n = [], 0
    low = {w.lower() for w in WORDS}
    for k, w, a, b in tokens(s):
        v = w.lstrip('_')
        if k == 'w' and v not in WORDS and (v.lower() in low or any(v.startswith(x) for x in WORDS)):
            n += 1
            sp.append((a, b, 'zq%d' % n))
    return [cut(s, sp)]


def names(s):
    sp, n = [], 0
    for k, w, a, b in tokens(s):
        if k == 'w' and w not in WORDS:
            n += 1
            sp.append((a, b, 'zq%d' % n))
    return [cut(s, sp)]


def strings(s):
    return [cut(s, [(a, b, '"x%d"' % i) for i, (k, w, a, b) in enumerate(tokens(s)) if k == 's'])]


def numbers(s):
    sp = []
    for k, w, a, b in tokens(s):
        if k == 'n':
            for x, y in (('FloatValueLit', '1.5'), ('HexLit', '0x1'), ('OctLit', '0'), ('DecLit', '1')):
                if RP.RX[x].fullmatch(w):
                    sp.append((a, b, y))
                    break
    return [cut(s, sp)]


def values(s):
    ts, sp = tokens(s), []
    for i in range(1, len(ts)):
        if ts[i - 1][1] != '=':
            continue
        k, w, a, b = ts[i]
        if w == '-' and i + 1 < len(ts) and ts[i + 1][1] in VALUES:
            b = ts[i + 1][3]
        elif w in '[{' and i + 1 < len(ts) and ts[i + 1][1] in ']}':
            b = ts[i + 1][3]
        elif not (k in 'ns' or w in VALUES):
            continue
        sp.append((a, b, 'null'))
    return [cut(s, sp)]


def attributes(s):
    ts, sp = tokens(s), []
    for i, t in enumerate(ts):
        if t[1] == '[':
            j = match(ts, i, '[', ']')
            if j is not None and j > i + 1:
                sp.append((t[2], ts[j][3], ' '))
    return [cut(s, sp)]


def arguments(s):
    ts, sp = tokens(s), []
    for i, t in enumerate(ts):
        if t[1] == '(' and i and ts[i - 1][1] != '=':
            j = match(ts, i, '(', ')')
            if j is None or j == i + 1:
                continue
            d, union = 0, False
            for k in range(i, j):
                d += {'(': 1, ')': -1}.get(ts[k][1], 0)
                union |= d == 1 and ts[k][1] == 'or'
            if not union:
                sp.append((t[2], ts[j][3], '()'))
    return [cut(s, sp)]


def bodies(kinds):
    def f(s):
        ts, sp = tokens(s), []
        for i, t in enumerate(ts):
            if t[1] in kinds and not (t[1] == 'interface' and i + 1 < len(ts) and ts[i + 1][1] == 'mixin'):
                j = next((j for j in range(i + 1, min(i + 6, len(ts))) if ts[j][1] == '{'), None)
                k = j and match(ts, j, '{', '}')
                if k and k > j + 1:
                    sp.append((ts[j][2], ts[k][3], '{}'))
        return [cut(s, sp)]
    return f


def no_lists(d):
    """A dump without what its lists hold."""
    d = re.sub(r'!copy"(?:[^"\\]|\\.)*"', '!', d)
    while True:
        e = re.sub(r'\[[^\[\]]*\]', 'L', d)
        if e == d:
            return d
        d = e


RED = {'C03': trivia, 'C04': near_keywords, 'C05': names, 'C06': strings, 'C07': numbers, 'C11': attributes, 'C12': arguments,
       'C13': values, 'C14': bodies({'interface'}), 'C15': bodies({'mixin', 'namespace', 'dictionary'})}


def counts(pid, key, s, got, exp, plain):
    """Does this difference count for the property?  plain(text): does the real code agree there?"""
    if pid == 'C09':
        return got[0] == 'O' and exp[0] == 'O' and no_lists(got.split(' ', 2)[2]) == no_lists(exp[2])
    return any(r != s and plain(r) for r in RED[pid](s))
