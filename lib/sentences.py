"""Random texts for a construct: sentences of the reference grammar, optionally
steered towards a given constituent, joined by random whitespace and comments,
and then damaged a little."""
import random
import grammar as G

KW = list(G.KEYWORDS.values())
PU = list(G.PUNCT.values())
NAMECH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')
TRIVIA = [' ', ' ', '\n', '\t', '\r\n', '  ', '/**/', '/* c */', '// c\n', '//\n', '/*/*/', ' /***/ ', '/* " */', '// */\n',
          '/* // */', '\r', '//a//b\n//c\n', '/*\n*/', '/** / **/', '// /*\n', '//\r\n', '//\\\n', '/* é */']
ODD = ['/', '//', '/*', '*/', '//x', '/* x', '*', '\x0b', '\x0c', '\u00a0', '\u2028', '\ufeff', '\u0085', '\0', 'é', '²',
       '\u0663', '\uff11', '一', 'ß', '\U0001f600', '\\', '"', "'", '`', '@', '#', '$', '%', '&', '|', '~', '!', '^', '+', '-', '_', '.',
       '..', '...', '0', '9', '8', 'x', 'X', 'e', 'E', 'g', 'G', '[', ']', '{', '}', '(', ')', '<', '>', ',', ';', ':', '=', '?', '\n', '\r',
       '\t', ' ', '/**', '/*/', '**/', 'İ', 'ſ', 'K', '\x7f', '\x1f', '\u200b', 'a', 'Z', 'z', 'f', 'F', 'ª', 'Ⅷ', '½', '０', 'à', 'Я', '\u3000']
IDENTS = ['a', 'B', 'abc', 'Foo', 'A1', 'x_y', 'a-b', 'zZ9', 'a_', 'a-', 'aB0_-Z', 'longName' * 3]


def ident(r, lits):
    k = r.random()
    if k < .4:
        return r.choice(IDENTS)
    if k < .45:
        return r.choice('abXYZ') + ''.join(r.choice('aZ09_-' if r.random() < .7 else '-_') for _ in range(r.choice([1, 2, 3, 6])))
    if k < .6:
        return '_' + r.choice(IDENTS + KW[:60])
    if k < .75:
        w = r.choice(KW)
        w = w[1:] if w[0] == '-' else w
        return w + r.choice(['s', '_', '-', '1', 'X', '-a', '_b', w])
    if k < .87:
        w = r.choice(KW)
        return w[1:] if w[0] == '-' else w
    if k < .92 and lits:
        w = ''.join(c for c in r.choice(lits) if c in NAMECH)
        w = w.lstrip('0123456789_-')
        return (w or 'q') + r.choice(['', '', 'x', '_', '1'])
    w = r.choice(KW).lstrip('-')
    return r.choice([w.upper(), w.lower(), w.capitalize(), w[:-1] or 'q', w[:len(w) // 2 + 1]])


def number(r, kind):
    d = lambda n, s='0123456789': ''.join(r.choice(s) for _ in range(n))
    m = r.choice(['', '', '-'])
    if r.random() < .06:
        # too big for some machine type
        n = r.choice([2 ** 7, 2 ** 8, 2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 2 ** 127, 2 ** 128, 10 ** 40]) + r.choice([-1, 0, 1])
        return m + {'DecLit': '%d' % n, 'HexLit': '0x%x' % n, 'OctLit': '0%o' % n}.get(
            kind, r.choice(['%d.0' % n, '1e%d' % r.choice([38, 39, 40, 308, 309, 400, 5000, n]), '1e-%d' % r.choice([46, 325, 400, n]), '%de400' % n]))
    if kind == 'DecLit':
        return m + r.choice('123456789') + d(r.randrange(4))
    if kind == 'HexLit':
        return m + '0' + r.choice('xX') + d(1 + r.randrange(4), '0123456789abcdefABCDEF')
    if kind == 'OctLit':
        return m + '0' + d(r.randrange(4), '01234567')
    k = r.randrange(4)
    e = r.choice(['e', 'E']) + r.choice(['', '+', '-']) + d(1 + r.randrange(3))
    if k == 0:
        return m + d(1 + r.randrange(3)) + '.' + d(r.randrange(3)) + r.choice(['', e])
    if k == 1:
        return m + '.' + d(1 + r.randrange(3)) + r.choice(['', e])
    if k == 2:
        return m + d(1 + r.randrange(3)) + e
    return m + d(1) + '.' + d(1) + e


def string(r, lits):
    n = r.choice([0, 0, 1, 1, 2, 3, 6])
    return '"' + ''.join(r.choice([' ', '\n', '//', '/*', '*/', '\\', 'a', 'Zz', "'", 'é', '\U0001f600', '\t', '0', '-', '\\n', ',', ';', '{', '_']
                                  + [x for x in lits[:20] if '"' not in x]) for _ in range(n)) + '"'


_cost = {}


def cost(t):
    """Least number of tokens in a sentence of t (fixpoint)."""
    if not _cost:
        ts = G.all_types() + G.closure(G.generic_types())
        for x in ts:
            _cost[x] = 10 ** 6
        ch = True
        while ch:
            ch = False
            for x in ts:
                c = _least(x)
                if c < _cost[x]:
                    _cost[x] = c
                    ch = True
    return _cost[t]


def _least(t):
    n = t[0]
    if n.startswith('term::') or n in G.LEX or n in G.ABSTRACT or n == 'BooleanLit':
        return 1
    if n in ('Option', 'Vec', 'Punctuated'):
        return 0
    if n in ('Box', 'PunctuatedNonEmpty'):
        return _cost[t[1]]
    v = G.variants(t)
    if v is not None:
        return min(_cost[x] for _, x in v)
    return sum(_cost[x] for _, x in G.fields(t))


_dist = {}


def dist(target):
    """Steps from every type down to the target."""
    if target not in _dist:
        ts = G.all_types() + G.closure(G.generic_types())
        d = {target: 0}
        ch = True
        while ch:
            ch = False
            for t in ts:
                m = min([d[x] for x in G.subs(t) if x in d], default=None)
                if m is not None and d.get(t, 10 ** 6) > m + 1:
                    d[t] = m + 1
                    ch = True
        _dist[target] = d
    return _dist[target]


class Gen:
    def __init__(self, rng, lits=(), target=None, steer=.85):
        self.r, self.lits, self.target, self.steer = rng, list(lits), target, steer
        self.d = dist(target) if target else {}

    def toks(self, t, budget=24):
        out = []
        self.left = budget
        self.hit = self.target is None
        self.go(t, 0, out)
        return out

    def big(self, t, target, what):
        """A short sentence of t in which the target stands once: so many elements, or these tokens."""
        out = []
        self.left = 0
        self.hit = True
        self.put(t, target, what, out)
        return ' '.join(out)

    def put(self, t, target, what, out):
        n = t[0]
        if t == target:
            if not isinstance(what, int):
                out.extend(what)
                return
            for j in range(what):
                if j and n != 'Vec':
                    self.go(t[2], 50, out)
                self.go(t[1], 50, out)
            return
        d = dist(target)
        v = G.variants(t) if n not in ('Option', 'Box', 'Vec') and n not in G.SEPS else None
        if n in ('Option', 'Box', 'Vec'):
            self.put(t[1], target, what, out)
        elif n in G.SEPS:
            if d.get(t[1], 10 ** 6) < d[t]:
                self.put(t[1], target, what, out)
            else:
                self.go(t[1], 50, out)
                self.put(t[2], target, what, out)
                self.go(t[1], 50, out)
        elif v is not None:
            self.put(self.r.choice([x for _, x in v if d.get(x, 10 ** 6) < d[t]]), target, what, out)
        else:
            done = False
            for f, x in G.fields(t):
                if not done and d.get(x, 10 ** 6) < d[t]:
                    done = True
                    self.put(x, target, what, out)
                else:
                    self.go(x, 50, out)

    def leads(self, t):
        return not self.hit and t in self.d

    def go(self, t, depth, out):
        r = self.r
        n = t[0]
        if t == self.target:
            self.hit = True
        if n.startswith('term::'):
            nm = n[6:]
            out.append(G.KEYWORDS.get(nm) or G.PUNCT[nm])
            self.left -= 1
        elif n == 'Identifier':
            out.append(ident(r, self.lits))
            self.left -= 1
        elif n == 'StringLit':
            out.append(string(r, self.lits))
            self.left -= 1
        elif n in G.LEX:
            out.append(number(r, n))
            self.left -= 1
        elif n == 'BooleanLit':
            out.append(r.choice(['true', 'false']))
        elif n in G.ABSTRACT:
            c = {'AbsT': 't', 'AbsU': 'u', 'AbsV': 'v', 'AbsS': ',', 'AbsE': 'e'}[n]
            out.append(r.choice([c, c + str(r.randrange(100)), c, c if n in ('AbsS', 'AbsE') else '~'] if r.random() < .3 else [c + '1', c]))
        elif n == 'Option':
            if self.leads(t[1]) and r.random() < self.steer or (self.left > 0 and depth < 14 and r.random() < .35):
                self.go(t[1], depth + 1, out)
        elif n == 'Box':
            self.go(t[1], depth + 1, out)
        elif n == 'Vec' or n in G.SEPS:
            k = 0
            if self.left > 0 and depth < 14:
                k = r.choice([0, 1, 1, 2, 3])
            if n == 'PunctuatedNonEmpty' or self.leads(t[1]) or (n != 'Vec' and self.leads(t[2])):
                k = max(k, 1)
            if n != 'Vec' and self.leads(t[2]):
                k = max(k, 2)
            seen = []
            for j in range(k):
                if j and n != 'Vec':
                    self.go(t[2], depth + 1, out)
                at = len(out)
                if seen and not self.leads(t[1]) and r.random() < .25:
                    out.extend(self.again(r.choice(seen)))
                else:
                    self.go(t[1], depth + 1, out)
                seen.append(out[at:])
            if n == 'PunctuatedNonEmpty' and r.random() < .3:
                self.go(t[2], depth + 1, out)
        else:
            v = G.variants(t)
            if v is not None:
                opts = [x for _, x in v]
                good = [x for x in opts if self.leads(x)]
                if good and r.random() < self.steer:
                    m = min(self.d[x] for x in good)
                    opts = [x for x in good if self.d[x] <= m + r.choice([0, 0, 1, 2])]
                elif self.left <= 0 or depth > 12:
                    m = min(cost(x) for x in opts)
                    opts = [x for x in opts if cost(x) <= m]
                x = r.choice(opts)
                self.go(x, depth + 1, out)
            else:
                for f, x in G.fields(t):
                    self.go(x, depth + 1, out)

    def again(self, toks):
        """An earlier element once more, or nearly so."""
        r = self.r
        toks = list(toks)
        if toks and r.random() < .5:
            k = r.randrange(len(toks))
            if toks[k] not in KW and toks[k] not in PU:
                toks[k] = r.choice([toks[k].swapcase(), toks[k].upper(), toks[k].lower(), toks[k] + '0' if toks[k][-1] in NAMECH else toks[k]])
            elif r.random() < .5:
                toks[k] = r.choice(KW + PU)
        return toks

    def join(self, toks, messy=.3):
        r = self.r
        out = []
        tight = r.random() < .3
        messy = r.choice([0, .1, messy, .8])
        for k, t in enumerate(toks):
            sep = ''
            if k == 0:
                if r.random() < messy:
                    sep = r.choice(TRIVIA)
            else:
                glue = toks[k - 1] and t and toks[k - 1][-1] in NAMECH and t[0] in NAMECH
                if r.random() < messy:
                    sep = ''.join(r.choice(TRIVIA) for _ in range(r.choice([1, 1, 2])))
                elif glue and r.random() < .97 or not tight:
                    sep = ' '
            out.append(sep)
            out.append(t)
        if r.random() < messy:
            out.append(r.choice(TRIVIA))
        return ''.join(out)

    def damage(self, toks):
        r = self.r
        toks = list(toks)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(len(toks) + 1)
            what = r.randrange(9)
            new = r.choice([r.choice(KW), r.choice(PU), ident(r, self.lits), r.choice(ODD), number(r, r.choice(G.LEX[2:])),
                            string(r, self.lits), r.choice(self.lits) if self.lits else r.choice(PU)])
            if what == 0 or k == len(toks):
                toks.insert(k, new)
            elif what == 1:
                del toks[k]
            elif what == 2:
                toks[k] = new
            elif what == 3:
                toks.insert(k, toks[k])
            elif what == 4 and k + 1 < len(toks):
                toks[k], toks[k + 1] = toks[k + 1], toks[k]
            elif what == 5:
                toks[k] = toks[k].swapcase() if r.random() < .5 else toks[k][:-1]
            elif what == 6:
                toks[k] += r.choice(ODD + list('aZ09_-'))
            elif what == 7:
                toks[k] = r.choice(ODD + list('aZ09_-')) + toks[k]
            else:
                toks = toks[:k]
            if not toks:
                break
        return toks

    def nick(self, s):
        """Damage single characters."""
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(s) + 1)
            c = r.choice(ODD)
            what = r.randrange(3)
            if what == 0:
                s = s[:k] + c + s[k:]
            elif what == 1:
                s = s[:k] + s[k + 1:]
            else:
                s = s[:k] + c + s[k + 1:]
        return s

    def tail(self, s):
        """Something after the construct."""
        r = self.r
        if r.random() < .35:
            s += r.choice(ODD + KW + PU + TRIVIA + IDENTS + [t + x for t in ('/', ' ', '\n') for x in ODD[:12]])
        return s

    def text(self, t):
        r = self.r
        toks = self.toks(t, r.choice([3, 8, 16, 30]))
        k = r.random()
        if k < .35:
            s = self.tail(self.join(toks))
        elif k < .7:
            s = self.join(self.damage(toks))
        elif k < .85:
            s = self.tail(self.nick(self.join(toks)))
        else:
            s = self.nick(self.join(self.damage(toks), .6))
        if len(s) > 3000:
            s = s[:3000]
        return s
