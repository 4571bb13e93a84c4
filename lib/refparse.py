"""Reference interpreter of the grammar in grammar.py over concrete texts.
Used to replay and to search for failing inputs; the proofs do not use it."""
import re
import grammar as G

WS = re.compile(r'(?:[\t\n\r ]|//[^\n]*|/\*.*?\*/)*', re.S)
RX = {
    'Identifier': re.compile(r'_?([A-Za-z][0-9A-Z_a-z-]*)'),
    'StringLit': re.compile(r'"([^"]*)"'),
    'DecLit': re.compile(r'(-?[1-9][0-9]*)'),
    'HexLit': re.compile(r'(-?0[Xx][0-9A-Fa-f]+)'),
    'OctLit': re.compile(r'(-?0[0-7]*)'),
    'FloatValueLit': re.compile(r'(-?(?:(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+))'),
}
NAME = re.compile(r'[0-9A-Z_a-z-]')
MARK = dict(zip(G.ABSTRACT, ['t', 'u', 'v', ',', 'e']))
DEFS = G.tparse('Definitions')
_F, _V = {}, {}


def fields(t):
    if t not in _F:
        _F[t] = G.fields(t)
    return _F[t]


def variants(t):
    if t not in _V:
        _V[t] = G.variants(t)
    return _V[t]


class Ref:
    """positions are character indices; dumps use byte offsets"""

    def __init__(self, text):
        self.s = text
        self.memo = {}
        if text.isascii():
            self.b = None
        else:
            b, n = [], 0
            for c in text:
                b.append(n)
                n += len(c.encode('utf-8', 'surrogatepass'))
            b.append(n)
            self.b = b
        self.slices = []

    def off(self, p):
        return p if self.b is None else self.b[p]

    def ws(self, p):
        return WS.match(self.s, p).end()

    def parse(self, t, p=0):
        k = (t, p)
        r = self.memo.get(k, 0)
        if r == 0:
            r = self.memo[k] = self._parse(t, p)
        return r

    def _parse(self, t, p):
        """None or (rest, dump)"""
        n = t[0]
        s = self.s
        if n[:6] == 'term::':
            nm = n[6:]
            a = self.ws(p)
            kw = G.KEYWORDS.get(nm)
            w = kw or G.PUNCT[nm]
            if not s.startswith(w, a):
                return None
            e = a + len(w)
            if kw and e < len(s) and NAME.match(s, e):
                return None
            return self.ws(e), nm
        if n in RX:
            a = self.ws(p)
            m = RX[n].match(s, a)
            if not m:
                return None
            x, y = m.span(1)
            return self.ws(m.end()), '%s@%d:%d' % (n, self.off(x), self.off(y) - self.off(x))
        if n == 'BooleanLit':
            for w, v in (('term::True', 'B1'), ('term::False', 'B0')):
                r = self.parse((w,), p)
                if r:
                    return r[0], v
            return None
        if n in MARK:
            if s[p:p + 1] == '~' and G.nullable((n,)):
                return p, '%s@%d:0' % (n, self.off(p))
            if s[p:p + 1] != MARK[n]:
                return None
            q = p + 1
            while q < len(s) and s[q] in '0123456789':
                q += 1
            return q, '%s@%d:%d' % (n, self.off(p), q - p)
        if n == 'Option':
            r = self.parse(t[1], p)
            return (r[0], '+' + r[1]) if r else (p, '-')
        if n == 'Box':
            return self.parse(t[1], p)
        if n == 'Vec':
            out = []
            while True:
                r = self.parse(t[1], p)
                if not r:
                    return p, '[' + ''.join(out) + ']'
                if r[0] == p:
                    return None
                p = r[0]
                out.append(r[1] + ';')
        if n in G.SEPS:
            ne = G.SEPS[n][1]
            sep = 'z' if t[2][0] in MARK else t[2][0][6:]
            r = self.parse(t[1], p)
            if not r:
                return None if ne else (p, '%s([],%s)' % (n, sep))
            if r[0] == p:
                return None
            out = [r[1] + ';']
            p = r[0]
            while True:
                q = self.parse(t[2], p)
                if not q:
                    break
                if q[0] == p:
                    return None
                r = self.parse(t[1], q[0])
                if not r:
                    break
                if r[0] == p:
                    return None
                p = r[0]
                out.append(r[1] + ';')
            if ne:
                q = self.parse(t[2], p)
                if q:
                    p = q[0]
            return p, '%s([%s],%s)' % (n, ''.join(out), sep)
        vs = variants(t)
        if vs is not None:
            for vn, vt in vs:
                r = self.parse(vt, p)
                if r:
                    return r[0], '%s::%s(%s)' % (n, vn, r[1])
            return None
        out = []
        for f, ft in fields(t):
            if n == 'SingleArgument' and f == 'default' and out[1] == '-':
                out.append('-')
                continue
            r = self.parse(ft, p)
            if not r:
                return None
            p = r[0]
            out.append(r[1])
        if n == 'tuple':
            return p, '<' + ','.join(out) + '>'
        return p, '%s(%s)' % (n, ','.join(out))

    def expect(self, key):
        """What the real code must answer: ('O', rest offset, dump), ('E', offset or None)."""
        if key[0] == 'whole':
            r = self.parse(DEFS, 0)
            end = self.ws(r[0]) if r else None
            if r and end == len(self.s):
                return ('O', self.off(end), r[1])
            return ('E', self.off(end) if r else None)
        if key[0] == 'from':
            r = self.parse(key[3], 0)
            return ('O', 0, '%s::%s(%s)' % (key[1][0], key[2], r[1])) if r else ('E', None)
        r = self.parse(key[1], 0)
        return ('O', self.off(r[0]), r[1]) if r else ('E', None)
