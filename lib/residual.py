"""Symbolic partial evaluation of the extracted MIR.

Every function under contract is turned into a decision tree ("residual"): the
tests it makes on the text, the calls it makes to other functions under
contract, and the value it returns on each path.  Everything between contract
functions (nom's combinators, closures, helpers, std's Option/Result methods) is
inlined from its own MIR; a short list of leaves (see LEAVES) has fixed meaning.

Values (hashable tuples)
  ('int', n)  ('bool', b)  ('str', text)  ('fn', inst)  ('uninit',)
  ('sym', name, sort)            sort: In | Tree | Int | Bool
  ('app', op, sort, args...)     a pure expression
  ('adt', tyid, variant, fields) structs, enums, tuples, closures
  ('mref', frame, local, proj)   a mutable reference (a place)
Shared references and boxes are represented by the value they point to.
"""
import sys
import time
import grammar as G


class Unsupported(Exception):
    pass


class Budget(Unsupported):
    pass


class Rounds(Exception):
    """A loop over a literal: it is run round by round."""
    ctx = None


class Misfit(Unsupported):
    """A number used as a position in a text that it was not taken for."""
    n = None


UNINIT = ('uninit',)
FRESH = ('fresh',)      # a box without a value yet
TRUE, FALSE = ('bool', True), ('bool', False)


def I(n):
    return ('int', n)


class Frame:
    __slots__ = ('inst', 'body', 'loc', 'bb', 'dest', 'to', 'loops', 'uid', 'rounds')

    def clone(self):
        f = Frame()
        f.inst, f.body, f.loc, f.bb = self.inst, self.body, dict(self.loc), self.bb
        f.dest, f.to, f.loops, f.uid, f.rounds = self.dest, self.to, dict(self.loops), self.uid, dict(self.rounds)
        return f


class State:
    __slots__ = ('fr', 'facts', 'known', 'calls')

    def clone(self):
        s = State()
        s.fr = [f.clone() for f in self.fr]
        s.facts = self.facts          # persistent tuple
        s.known = dict(self.known)    # cond -> bool ; ('val', expr) -> const
        s.calls = dict(self.calls)
        return s


class LoopCtx:
    def __init__(self, lid, depth, bb):
        self.lid, self.depth, self.bb = lid, depth, bb
        self.gen = {}       # (frame, local, path) -> sym, or a position: ('pos', text, tail, own?, bytes into its first character or None)
        self.newgen = {}
        self.banned = set()


# ---------------------------------------------------------------------------
class Program:
    def __init__(self, data):
        self.types, self.insts = data['types'], data['insts']
        self.roots = dict((n, i) for n, i in data['roots'])
        self._gt = {}
        self._live = {}
        self._hdr = {}
        self._drops = set(data.get('drops', ()))
        self._dropcode = {}

    # ---- types
    def dropcode(self, ty):
        """May dropping a value of the type run a destructor written outside std?"""
        if not self._drops or ty is None:
            return False
        if ty not in self._dropcode:
            seen, todo = set(), [ty]
            while todo:
                x = todo.pop()
                if not isinstance(x, int) or x in seen:
                    continue
                seen.add(x)
                t = self.types[x]
                if t['k'] == 'adt':
                    todo += t['args'] + [f[1] for v in t['variants'] for f in v['fields']]
                elif t['k'] == 'tuple':
                    todo += t['e']
                elif t['k'] in ('array', 'slice', 'ptr'):
                    todo.append(t['e'])
                elif t['k'] == 'closure':
                    todo.append(t['up'])
            self._dropcode[ty] = any(self.types[x]['k'] == 'adt' and self.types[x]['name'] in self._drops for x in seen)
        return self._dropcode[ty]

    def pointee(self, ty):
        t = self.types[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'adt' and t['name'] in ('std::boxed::Box', 'alloc::boxed::Box'):
            return t['args'][0]
        return None

    def strip(self, ty):
        while True:
            p = self.pointee(ty)
            if p is None:
                return ty
            ty = p

    def sort(self, ty):
        ty = self.strip(ty)
        t = self.types[ty]
        k = t['k']
        if k == 'bool':
            return 'Bool'
        if k in ('int', 'char'):
            return 'Int'
        if k == 'str':
            return 'In'
        if k == 'slice' and self.types[t['e']]['k'] == 'int':
            return 'In'
        if k == 'adt' and t['name'] in ('std::str::Chars', 'core::str::Chars', 'core::str::iter::Chars'):
            return 'In'
        return 'Tree'

    def gtype(self, ty):
        """The grammar's type expression for a Rust type, or None."""
        if ty in self._gt:
            return self._gt[ty]
        t = self.types[ty]
        r = None
        if t['k'] == 'tuple':
            parts = [self.gtype(x) for x in t['e']]
            if parts and all(p is not None for p in parts):
                r = ('tuple',) + tuple(parts)
        elif t['k'] == 'adt':
            n = t['name']
            base = self.short(n)
            args = [self.gtype(a) for a in t['args']]
            if base in ('Option', 'Vec', 'Box'):
                args = args[:1]
            if all(a is not None for a in args):
                r = (base,) + tuple(args)
        self._gt[ty] = r
        return r

    def short(self, n):
        if '::term::' in n or n.startswith('term::'):
            return 'term::' + n.split('::')[-1]
        return n.split('::')[-1]

    def nodekey(self, ty, variant):
        """(node name, field order) of a constructor in the universal tree."""
        t = self.types[ty]
        if t['k'] == 'tuple':
            return ('tuple%d' % len(t['e']), list(range(len(t['e']))))
        if t['k'] == 'adt':
            b = self.short(t['name'])
            v = t['variants'][variant]
            names = [f[0] for f in v['fields']]
            order = sorted(range(len(names)), key=lambda k: names[k])
            if t['kind'] == 'enum':
                b = b + '::' + v['name']
            return (b, order)
        raise Unsupported('tree node of type %s' % t.get('d', t['k']))

    def field_tys(self, ty, variant):
        t = self.types[ty]
        if t['k'] == 'tuple':
            return t['e']
        if t['k'] == 'adt':
            return [f[1] for f in t['variants'][variant]['fields']]
        if t['k'] == 'closure':
            u = self.types[t['up']]
            return u['e']
        return None

    # ---- control flow facts
    def succ(self, body, b):
        t = body['blocks'][b]['t']
        k = t['t']
        if k == 'switch':
            return [x[1] for x in t['cases']] + ([t['else']] if t['else'] is not None else [])
        if k in ('goto', 'drop', 'assert', 'call'):
            return [t['to']] if t.get('to') is not None else []
        return []

    def headers(self, inst):
        """Targets of back edges (reducible control flow)."""
        if inst in self._hdr:
            return self._hdr[inst]
        body = self.insts[inst]['body']
        hdr, color = set(), {}
        stack = [(0, iter(self.succ(body, 0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1:
                    hdr.add(s)
                elif c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ(body, s))))
                    break
            else:
                color[b] = 2
                stack.pop()
        self._hdr[inst] = hdr
        return hdr

    def live_in(self, inst):
        """Block -> set of locals live on entry (uses through any projection)."""
        if inst in self._live:
            return self._live[inst]
        body = self.insts[inst]['body']
        n = len(body['blocks'])
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
        for b in range(n):
            u, d = use[b], deff[b]

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_read(p):
                rd(p[0])
                for x in p[1]:
                    if x[0] == 'index':
                        rd(x[1])

            def op(o):
                if o.get('o') in ('copy', 'move'):
                    place_read(o['p'])

            def write(p):
                if p[1]:
                    place_read(p)
                else:
                    d.add(p[0])
            bl = body['blocks'][b]
            for s in bl['s']:
                if s[0] == '=':
                    r = s[2]
                    for k, v in r.items():
                        if isinstance(v, dict) and 'o' in v:
                            op(v)
                        elif k == 'ops':
                            for o in v:
                                op(o)
                        elif k == 'p':
                            place_read(v)
                    write(s[1])
                elif s[0] == 'dead':
                    d.add(s[1])
            t = bl['t']
            if t['t'] == 'switch':
                op(t['on'])
            elif t['t'] == 'call':
                op(t['f'])
                for a in t['args']:
                    op(a)
                write(t['dest'])
            elif t['t'] == 'assert':
                op(t['cond'])
            elif t['t'] == 'return':
                rd(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succ(body, b):
                    out |= live[s]
                x = use[b] | (out - deff[b])
                if x != live[b]:
                    live[b] = x
                    ch = True
        self._live[inst] = live
        return live


# ---- pure expression builders with simplification ---------------------------
def app(op, sort, *args):
    return ('app', op, sort) + args


def lin(v):
    """v as {atom: coeff}, const."""
    if v[0] == 'int':
        return {}, v[1]
    if v[0] == 'app' and v[1] == 'sum':
        return dict(v[4:]), v[3]
    return {v: 1}, 0


def unlin(d, c):
    d = {k: n for k, n in d.items() if n}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return ('app', 'sum', 'Int', c) + tuple(sorted(d.items(), key=repr))


def add(a, b, s=1):
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for k, n in db.items():
        d[k] = d.get(k, 0) + s * n
    return unlin(d, ca + s * cb)


def sub(a, b):
    return add(a, b, -1)


def base_off(s):
    """(base text, characters skipped)."""
    if s[0] == 'app' and s[1] == 'adv':
        return s[3], s[4]
    return s, I(0)


def adv(s, k):
    if s[0] == 'str':
        if k[0] == 'int':
            return ('str', s[1][k[1]:])
        raise Unsupported('symbolic offset into a literal')
    b, o = base_off(s)
    n = add(o, k)
    if n == I(0):
        return b
    if n[0] == 'app' and n[1] == 'sum':
        # from one text to where another, a tail of it, starts (an obligation says that it is one)
        d = dict(n[4:])
        here = app('at', 'Int', b)
        if d.get(here) == -1:
            for x, m in d.items():
                if m == 1 and x[0] == 'app' and x[1] == 'at':
                    return adv(x[3], sub(n, sub(x, here)))
    return app('adv', 'In', b, n)


def take(s, k):
    if s[0] == 'str' and k[0] == 'int':
        return ('str', s[1][:k[1]])
    return app('take', 'In', s, k)


def at_(s):
    b, o = base_off(s)
    return add(app('at', 'Int', b), o)


def cat(s, k=I(0)):
    b, o = base_off(s)
    return app('cat', 'Int', b, add(o, k))


def boff(s, k):
    """byte length of the first k characters of s"""
    if k == I(0):
        return I(0)
    return app('boff', 'Int', s, k)


def full(s):
    """byte length of s"""
    b, o = base_off(s)
    return boff(s, sub(app('len', 'Int', b), o))


def clen(c):
    if c[0] == 'int':
        return I(len(chr(c[1]).encode()))
    return app('clen', 'Int', c)


def nonempty(s):
    if s[0] == 'str':
        return ('bool', s[1] != '')
    return app('nonempty', 'Bool', s)


def neg(c):
    if c[0] == 'bool':
        return ('bool', not c[1])
    if c[0] == 'app' and c[1] == 'not':
        return c[3]
    return app('not', 'Bool', c)


def tails(a, b):
    """Are these the byte lengths of two tails of one text?  Then where they start."""
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'boff':
        (ba, oa), (bb, ob) = base_off(a[3]), base_off(b[3])
        if ba == bb and add(oa, a[4]) == add(ob, b[4]) == app('len', 'Int', ba):
            return oa, ob
    return None


def near_end(op, a, b):
    """Compare a position with the end of the text."""
    if a[0] == 'bool' or b[0] == 'bool' or not any(x[0] == 'app' and x[1] == 'sum' for x in (a, b)):
        return None
    d, c = lin(sub(b, a))
    if c or not 0 < len(d) <= 2:
        return None
    b = next((x for x in d if x[0] == 'app' and x[1] == 'boff' and x == full(x[3])), None)
    m = next((x for x in d if x[0] == 'app' and x[1] == 'mid'), None)
    if b is None or abs(d[b]) != 1:
        return None
    if len(d) == 1:
        # the end minus the position is the length of the tail there, or the other way round
        if op == 'eq':
            return neg(nonempty(b[3]))
        return nonempty(b[3]) if op == 'lt' and d[b] == 1 else FALSE if op == 'lt' else TRUE if d[b] == 1 else neg(nonempty(b[3]))
    if m is not None and m[3] == b[3] and d[m] == -d[b]:
        return FALSE if op == 'eq' else ('bool', d[b] == 1)
    return None


def cmp_(op, a, b):
    if a[0] == 'bool' and b[0] == 'bool' and op == 'eq':
        return ('bool', a[1] == b[1])
    if a[0] == 'int' and b[0] == 'int':
        return ('bool', {'eq': a[1] == b[1], 'lt': a[1] < b[1], 'le': a[1] <= b[1]}[op])
    if a[0] == 'app' and a[1] == 'byte0' and b[0] == 'int' and 0 <= b[1] < 128:
        return cmp_(op, a[3], b)
    if b[0] == 'app' and b[1] == 'byte0' and a[0] == 'int' and 0 <= a[1] <= (127 if op == 'lt' else 128):
        return cmp_(op, a, b[3])
    for x, y, t in ((a, b, FALSE), (b, a, TRUE)):
        # bytes inside a character are not ASCII
        if x[0] == 'app' and x[1] == 'cont' and y[0] == 'int' and y[1] < 128:
            return FALSE if op == 'eq' else t
    t = near_end(op, a, b)
    if t is not None:
        return t
    if op == 'eq':
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y[0] == 'bool':
                return x if y[1] else neg(x)
            # a byte offset is zero exactly when no character was skipped
            if y == I(0) and x[0] == 'app' and x[1] == 'boff':
                return cmp_('eq', x[4], I(0))
            if x[0] == 'app' and y[0] == 'app' and x[1] == y[1] == 'boff' and x[3] == y[3]:
                return cmp_('eq', x[4], y[4])
        t = tails(a, b)
        if t:
            return cmp_('eq', sub(t[0], t[1]), I(0))
        if a[0] == 'int' or (b[0] != 'int' and repr(b) < repr(a)):
            a, b = b, a
    if op == 'le' and a == b:
        return TRUE
    if op == 'lt' and a == b:
        return FALSE
    if op in ('lt', 'le'):
        # compare byte offsets in the same text by characters
        if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'boff' and a[3] == b[3]:
            return cmp_(op, a[4], b[4])
        t = tails(a, b)
        if t:
            return cmp_(op, I(0), sub(t[0], t[1]))
        if op == 'lt' and a == I(0) and b[0] == 'app' and b[1] == 'boff':
            return cmp_('lt', I(0), b[4])
        if op == 'le' and a == I(0) and b[0] == 'app' and b[1] in ('boff', 'cat', 'len', 'span', 'clen', 'byte0'):
            return TRUE
    return app(op, 'Bool', a, b)


# ---------------------------------------------------------------------------
class Tree:
    """Interned residual trees (children are ids)."""
    def __init__(self):
        self.n, self.ix = [], {}

    def mk(self, *parts):
        if parts in self.ix:
            return self.ix[parts]
        self.n.append(parts)
        self.ix[parts] = len(self.n) - 1
        return len(self.n) - 1


class Result:
    """One function under contract after evaluation."""
    def __init__(self):
        self.tree = None
        self.loops = {}      # lid -> dict(params, facts, tree, init)
        self.lits = set()
        self.calls = set()
        self.inlined = set()
        self.leaves = set()
        self.preds = {}


class Evaluator:
    MAXNODES = 12000     # residual nodes per function
    SECONDS = 8          # evaluation time per function
    TOTAL = 90           # evaluation time for all functions; beyond it only small ones

    def __init__(self, prog):
        self.p = prog
        self.T = Tree()
        self.symtab = {}
        self.preds = {}          # class intervals -> pid ; shared across functions
        self.predexprs = {}      # pid -> list of (source closure name, bool tree expr)
        self.nsym = 0
        self.sps = {}            # functions that skip whitespace and comments -> what they return
        self.spent = 0.0
        self.under = set()       # functions under contract: calls of others are inlined,
        self.parts = set()       # and so are calls of what is no constituent of the construct at hand

    # ---- naming
    def sym(self, key, sort, hint):
        if key not in self.symtab:
            self.symtab[key] = ('sym', '%s%d' % (hint, len(self.symtab)), sort)
        return self.symtab[key]

    # ---- contract boundary
    def contract_of(self, inst, rty):
        i = self.p.insts[inst]
        d = i['def']
        if inst in self.sps:
            return ('sp',)
        if d.endswith('::parse') and 'weedle::Parse<' in d:
            t = self.p.types[rty]
            if t['k'] == 'adt' and t['name'].endswith('Result'):
                tup = self.p.types[t['args'][0]]
                if tup['k'] == 'tuple' and len(tup['e']) == 2:
                    g = self.p.gtype(tup['e'][1])
                    if g is not None and G.known(g) and (g[0] in G.ABSTRACT or ('parse', g) in self.under and g in self.parts):
                        return ('parse', g)
        return None

    # ---- evaluating one function under contract
    def run(self, inst, argsyms):
        """argsyms: list of values for the parameters.  Numbers that change in loops are just numbers, and only if that
        is not enough, positions in texts."""
        self.plain = True
        try:
            return self.run1(inst, argsyms)
        except Budget:
            raise
        except Unsupported:
            if not self.ints:
                raise
        self.plain = False
        return self.run1(inst, argsyms)

    def run1(self, inst, argsyms):
        self.ints = False
        r = self.res = Result()
        k = self.rootkey
        self.parts = set(G.closure([k[1] if k[0] in ('parse', 'term') else G.tparse('Definitions')]))
        self.count = 0
        self.until = time.time() + (self.SECONDS if self.spent < self.TOTAL else .3)
        self.lcount = 0
        st = State()
        st.fr, st.facts, st.known, st.calls = [], (), {}, {}
        self.uid = 0
        self.push(st, inst, argsyms, None, None)
        r.tree = self.exec(st)
        # loops of abandoned attempts
        used, todo, seen = set(), [r.tree], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            n = self.T.n[t]
            if n[0] == 'loop' and n[1] not in used:
                used.add(n[1])
                todo.append(r.loops[n[1]]['tree'])
            todo += {'if': n[2:4], 'obl': n[3:4], 'call': [x for x in n[6:8] if x is not None]}.get(n[0], ()) if n[0] in ('if', 'obl', 'call') else ()
        r.loops = {l: x for l, x in r.loops.items() if l in used}
        return r

    def push(self, st, inst, args, dest, to, untuple=False):
        i = self.p.insts[inst]
        body = i['body']
        if body is None:
            raise Unsupported('no body for %s' % i['name'])
        if any(f.inst == inst for f in st.fr):
            raise Unsupported('recursive helper %s' % i['name'])
        if len(st.fr) > 60:
            raise Unsupported('call depth')
        f = Frame()
        f.inst, f.body, f.bb, f.dest, f.to = inst, body, 0, dest, to
        self.uid += 1
        f.uid = self.uid
        f.rounds = {}
        f.loops = {}
        if untuple:
            t = args[-1]
            if t[0] != 'adt':
                raise Unsupported('untupling %r' % (t,))
            args = list(args[:-1]) + list(t[3])
        if body['argc'] != len(args):
            raise Unsupported('arity of %s: %d vs %d' % (i['name'], body['argc'], len(args)))
        f.loc = {k + 1: a for k, a in enumerate(args)}
        st.fr.append(f)
        if not i['def'].startswith('probe::'):
            self.res.inlined.add(i['name'])

    # ---- places
    def tyof(self, f, place):
        ty = f.body['locals'][place[0]]
        var = 0
        for x in place[1]:
            ty, var = self.step_ty(ty, var, x)
        return ty

    def step_ty(self, ty, var, x):
        if x[0] == 'deref':
            return self.p.pointee(ty), 0
        if x[0] == 'field':
            return x[2], 0
        if x[0] == 'down':
            return ty, x[1]
        if x[0] in ('index', 'cindex'):
            return self.p.types[ty].get('e'), 0
        return ty, 0

    def read(self, st, fi, place):
        f = st.fr[fi]
        v = f.loc.get(place[0], UNINIT)
        return self.walk(st, v, f.body['locals'][place[0]], place[1], fi)

    def walk(self, st, v, ty, proj, fi):
        var = 0
        for n, x in enumerate(proj):
            if v[0] == 'mref' and x[0] != 'deref':
                # projection through an implicit reference cannot happen in MIR
                raise Unsupported('projection of a mutable reference')
            if x[0] == 'deref':
                if v[0] == 'mref':
                    fr, l, pr = v[1:]
                    k = self.frame_ix(st, fr)
                    v = self.walk(st, st.fr[k].loc.get(l, UNINIT), st.fr[k].body['locals'][l], pr, k)
                ty, var = self.step_ty(ty, var, x)
                continue
            if x[0] == 'field':
                v = self.field(v, ty, var, x[1], x[2])
            elif x[0] == 'down':
                if v[0] == 'adt' and v[2] != x[1]:
                    raise Unsupported('downcast to another variant')
            elif x[0] == 'index' and v[0] in ('sym', 'app') and v[2] == 'In':
                v = self.byte_at(st, v, st.fr[fi].loc.get(x[1], UNINIT))
            elif x[0] in ('index', 'cindex', 'subslice'):
                raise Unsupported('indexing projection')
            ty, var = self.step_ty(ty, var, x)
        return v

    def byte_at(self, st, s, n):
        """The byte at offset n of a text (in bounds)."""
        d, c = lin(sub(n, full(s)))
        m = [x for x in d if x[0] == 'app' and x[1] == 'mid']
        if len(m) == 1 and not c and d == {m[0]: 1, full(m[0][3]): -1}:
            return app('cont', 'Int', m[0][3], m[0][4])
        k, o = self.cindex(st, s, n)
        for x in o if isinstance(o, list) else [o]:
            if x is not None and self.decide(st, x) is not True:
                raise Unsupported('byte offset %s: %s?' % (show(self, n), show(self, x)))
        return app('byte0', 'Int', cat(adv(s, k)))

    def frame_ix(self, st, uid):
        for k, f in enumerate(st.fr):
            if f.uid == uid:
                return k
        raise Unsupported('dangling reference')

    def field(self, v, ty, var, i, fty):
        if v[0] == 'adt':
            if i >= len(v[3]):
                raise Unsupported('field')
            return v[3][i]
        if v == UNINIT:
            raise Unsupported('read of an uninitialised value')
        if v[0] in ('sym', 'app') and v[2] == 'Tree':
            if ty is None:
                raise Unsupported('field of unknown type')
            name, order = self.p.nodekey(ty, var)
            return app('fld', self.p.sort(fty), v, order.index(i))
        raise Unsupported('field of %r in %s' % (v[:2], self.p.types[ty].get('d')))

    def write(self, st, fi, place, val):
        f = st.fr[fi]
        proj = place[1]
        # redirect through a mutable reference
        for n, x in enumerate(proj):
            if x[0] == 'deref':
                v = self.walk(st, f.loc.get(place[0], UNINIT), f.body['locals'][place[0]], proj[:n], fi)
                if v[0] == 'mref':
                    k = self.frame_ix(st, v[1])
                    return self.write(st, k, [v[2], list(v[3]) + list(proj[n + 1:])], val)
        if f.loc.get(place[0]) == FRESH:        # a box is filled as a whole
            f.loc[place[0]] = val
            return
        f.loc[place[0]] = self.put(f.loc.get(place[0], UNINIT), f.body['locals'][place[0]], 0, proj, val)

    def put(self, v, ty, var, proj, val):
        if not proj:
            return val
        x = proj[0]
        nty, nvar = self.step_ty(ty, var, x)
        if x[0] in ('deref', 'down'):
            return self.put(v, nty, nvar, proj[1:], val)
        if x[0] == 'field':
            if v[0] != 'adt':
                tys = self.p.field_tys(ty, var)
                if tys is None:
                    raise Unsupported('write to a field of an opaque value')
                if v == UNINIT:
                    fs = [UNINIT] * len(tys)
                else:
                    fs = [self.field(v, ty, var, k, t) for k, t in enumerate(tys)]
                v = ('adt', ty, var, tuple(fs))
            fs = list(v[3])
            fs[x[1]] = self.put(fs[x[1]], nty, nvar, proj[1:], val)
            return ('adt', v[1], v[2], tuple(fs))
        raise Unsupported('write through %s' % x[0])

    # ---- operands
    def const(self, c):
        k = c['c']
        if k == 'bool':
            return ('bool', c['v'])
        if k in ('char', 'int'):
            return I(c['v'])
        if k == 'str':
            return ('str', c['v'])
        if k == 'zst':
            t = self.p.types[c['t']]
            if t['k'] == 'fndef':
                return ('fn', t['inst'])
            return self.zst(c['t'])
        if k == 'ref':
            return self.const(c['v'])
        if k == 'agg':
            return ('adt', c['t'], c.get('variant', 0), tuple(self.const(x) for x in c['v']))
        if k == 'slice':
            return ('lits', tuple(self.const(x) for x in c['v']))
        raise Unsupported('constant %s' % k)

    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'fndef':
            return ('fn', t['inst'])
        if t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['kind'] == 'struct'):
            return ('adt', ty, 0, tuple(self.zst(x) for x in self.p.field_tys(ty, 0)))
        if t['k'] == 'adt' and t['kind'] == 'enum':
            ok = [n for n in range(len(t['variants'])) if not any(self.empty(x) for x in self.p.field_tys(ty, n))]
            if len(ok) == 1:
                return ('adt', ty, ok[0], tuple(self.zst(x) for x in self.p.field_tys(ty, ok[0])))
        raise Unsupported('zero-sized %s' % t.get('d', t['k']))

    def empty(self, ty):
        """A type without values?"""
        t = self.p.types[ty]
        return t['k'] == 'never' or t.get('d') == '!' or (t['k'] == 'adt' and t['kind'] == 'enum' and not t['variants'])

    def operand(self, st, fi, o):
        if o['o'] in ('copy', 'move'):
            return self.read(st, fi, o['p'])
        if o['o'] == 'const':
            return self.const(o['c'])
        if o['o'] == 'rtcheck':
            return FALSE
        raise Unsupported('operand %s' % o['o'])

    # ---- rvalues
    def rvalue(self, st, fi, r, dplace):
        k = r['r']
        if k == 'use':
            return self.operand(st, fi, r['a'])
        if k in ('ref', 'addr'):
            p = r['p']
            if r['m']:
                return self.mkref(st, fi, p)
            return self.read(st, fi, p)
        if k == 'agg':
            ops = tuple(self.operand(st, fi, o) for o in r['ops'])
            if r['k'] in ('adt', 'tuple', 'closure'):
                return ('adt', r['t'], r['variant'], ops)
            if r['k'] == 'array':
                return ('lits', ops)
            raise Unsupported('aggregate %s' % r['k'])
        if k == 'discr':
            v = self.read(st, fi, r['p'])
            ty = self.p.strip(r['t'])
            if v[0] == 'adt':
                return I(self.p.types[v[1]]['variants'][v[2]]['discr'])
            if v[0] in ('sym', 'app') and v[2] == 'Tree':
                return app('discr', 'Int', v, ty)
            if v == UNINIT:         # compiled std does that, with values it does not use
                return UNINIT
            raise Unsupported('discriminant of %r' % (v[:2],))
        if k == 'bin':
            a, b = self.operand(st, fi, r['a']), self.operand(st, fi, r['b'])
            if UNINIT in (a, b):
                return UNINIT
            if r['op'] == 'Sub' and 'addr' in (a[1], b[1]):
                v, ov = self.distance(a, b)
                if ov != FALSE and self.decide(st, ov) is not False:
                    raise Unsupported('distance of unrelated texts')
                return v
            v = self.binop(st, r['op'], a, b)
            if r['op'] in ('Add', 'Sub') and v[0] != 'int':
                # arithmetic without a check wraps around
                w = self.bits(self.p.types[self.opty(st, fi, r['a'])])
                if r['op'] == 'Sub':
                    lo = cmp_('lt', a, b)
                    return v if lo == FALSE or self.decide(st, lo) is False else app('ite', 'Int', lo, add(v, I(1 << w)), v)
                if w < 64:
                    hi = cmp_('lt', I((1 << w) - 1), v)
                    return app('ite', 'Int', hi, sub(v, I(1 << w)), v)
                self.res.leaves.add('assume: sums of text lengths do not overflow usize')
            elif r['op'] in ('Add', 'Sub'):
                return I(v[1] % (1 << self.bits(self.p.types[self.opty(st, fi, r['a'])])))
            return v
        if k == 'cbin':
            a, b = self.operand(st, fi, r['a']), self.operand(st, fi, r['b'])
            if UNINIT in (a, b):
                return UNINIT
            if r['op'] == 'Sub' and 'addr' in (a[1], b[1]):
                return ('adt', self.tyof(st.fr[fi], dplace), 0, self.distance(a, b))
            v = self.binop(st, r['op'], a, b)
            if r['op'] == 'Sub':
                ov = cmp_('lt', a, b)
            elif r['op'] == 'Add':
                w = self.bits(self.p.types[self.opty(st, fi, r['a'])])
                if w >= 64:
                    ov = FALSE      # text lengths are bounded by isize::MAX (assumption A-len)
                    self.res.leaves.add('assume: sums of text lengths do not overflow usize')
                else:
                    ov = cmp_('lt', I((1 << w) - 1), v)
            else:
                raise Unsupported('checked %s' % r['op'])
            t = self.tyof(st.fr[fi], dplace)
            return ('adt', t, 0, (v, ov))
        if k == 'un':
            a = self.operand(st, fi, r['a'])
            if r['op'] == 'Not' and (a[0] == 'bool' or (a[0] in ('sym', 'app') and a[2] == 'Bool')):
                return neg(a)
            if r['op'] == 'PtrMetadata':
                a = self.deref(st, a)
                if a[0] == 'lits':
                    return I(len(a[1]))
                return self.slen(st, self.text(a))
            raise Unsupported('unary %s' % r['op'])
        if k == 'cast':
            if r['k'] == 'BoxDerefTransmute' and st.fr[fi].loc.get(r['a']['p'][0]) == FRESH:
                return self.mkref(st, fi, [r['a']['p'][0], []])
            a = self.operand(st, fi, r['a'])
            if r['k'] == 'IntToInt':
                tf, tt = self.p.types[self.opty(st, fi, r['a'])], self.p.types[r['t']]
                wf, wt = self.bits(tf), self.bits(tt)
                if a[0] == 'int':
                    return I(a[1] % (1 << wt))
                if wt >= wf and not (tf['k'] == 'int' and tf.get('s')):
                    return a
                if tt.get('s') or (tf['k'] == 'int' and tf.get('s')):
                    raise Unsupported('narrowing cast')
                return app('mod', 'Int', a, 1 << wt)
            if r['k'] == 'PointerExposeAddress' and a[0] == 'addrof':
                return app('addr', 'Int', a[1])
            if r['k'] in ('PtrToPtr', 'Transmute') or r['k'].startswith('PointerCoercion') or 'Unsize' in r['k'] \
                    or 'Reify' in r['k'] or 'ClosureFn' in r['k']:
                if 'ClosureFn' in r['k'] and a[0] == 'adt':
                    return ('closurefn', a)
                if r['k'] in ('PtrToPtr', 'Transmute') and self.p.pointee(r['t']) is None:
                    raise Unsupported('cast %s' % r['k'])
                return a
            raise Unsupported('cast %s' % r['k'])
        if k == 'len':
            raise Unsupported('len')
        raise Unsupported('rvalue %s' % k)

    def distance(self, a, b):
        """(difference of two texts' addresses, is it negative or meaningless?)"""
        if a[:2] != ('app', 'addr') or b[:2] != ('app', 'addr'):
            raise Unsupported('arithmetic on an address')
        r, s = a[3], b[3]
        k = sub(at_(r), at_(s))
        if base_off(s)[0] == base_off(r)[0]:
            return boff(s, k), cmp_('lt', k, I(0))
        return boff(s, k), neg(app('sfx', 'Bool', r, s))

    def bits(self, t):
        if t['k'] == 'char':
            return 21
        if t['k'] == 'bool':
            return 1
        if t['k'] == 'int':
            d = t['d'].lstrip('iu')
            return 64 if d == 'size' else int(d)
        raise Unsupported('cast of %s' % t['k'])

    def opty(self, st, fi, o):
        if o['o'] in ('copy', 'move'):
            return self.tyof(st.fr[fi], o['p'])
        return o['c'].get('t') if o['c'].get('t') is not None else self.char_ty()

    def char_ty(self):
        for k, t in enumerate(self.p.types):
            if t['k'] == 'char':
                return k
        raise Unsupported('char type')

    def mkref(self, st, fi, p):
        f = st.fr[fi]
        # reborrow through an existing mutable reference
        for n in range(len(p[1]) - 1, -1, -1):
            if p[1][n][0] == 'deref':
                v = self.walk(st, f.loc.get(p[0], UNINIT), f.body['locals'][p[0]], p[1][:n], fi)
                if v[0] == 'mref':
                    return ('mref', v[1], v[2], tuple(map(tuple, v[3])) + tuple(map(tuple, p[1][n + 1:])))
        return ('mref', f.uid, p[0], tuple(map(tuple, p[1])))

    def binop(self, st, op, a, b):
        if op in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'app' and x[1] == 'discr' and y[0] == 'int':
                    for n, v in enumerate(self.p.types[x[4]]['variants']):
                        if v['discr'] == y[1]:
                            c = app('isvar', 'Bool', x[3], x[4], n)
                            return c if op == 'Eq' else neg(c)
        if op == 'Eq':
            return cmp_('eq', a, b) if self.scalar(a) and self.scalar(b) else self.bad('eq')
        if op == 'Ne':
            return neg(cmp_('eq', a, b)) if self.scalar(a) and self.scalar(b) else self.bad('ne')
        if op == 'Lt':
            return cmp_('lt', a, b)
        if op == 'Le':
            return cmp_('le', a, b)
        if op == 'Gt':
            return cmp_('lt', b, a)
        if op == 'Ge':
            return cmp_('le', b, a)
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            return self.offadd(a, b) if op.startswith('Add') else self.offsub(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and self.isbool(a) and self.isbool(b):
            if op == 'BitXor':
                return neg(cmp_('eq', a, b)) if a[0] == 'bool' or b[0] == 'bool' else app('xor', 'Bool', a, b)
            o = 'and' if op == 'BitAnd' else 'or'
            for x, y in ((a, b), (b, a)):
                if x[0] == 'bool':
                    return (y if x[1] else FALSE) if o == 'and' else (TRUE if x[1] else y)
            return app(o, 'Bool', a, b)
        raise Unsupported('operator %s' % op)

    def offadd(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'app' and x[1] == 'boff':
                s, k = x[3], x[4]
                # boff(s,k) + boff(adv(s,k), m) = boff(s, k+m)
                if y[0] == 'app' and y[1] == 'boff' and y[3] == adv(s, k):
                    return boff(s, add(k, y[4]))
                if y[0] == 'app' and y[1] == 'clen' and y[3] == cat(s, k):
                    return boff(s, add(k, I(1)))
        return add(a, b)

    def offsub(self, a, b):
        if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'boff':
            if a[3] == b[3]:
                return boff(adv(a[3], b[4]), sub(a[4], b[4]))
            sa, oa = base_off(a[3])
            sb, ob = base_off(b[3])
            # lengths of two suffixes of one text: their difference is a prefix length
            if sa == sb and add(oa, a[4]) == add(ob, b[4]):
                d = sub(ob, oa)
                return boff(a[3], d)
        return sub(a, b)

    def scalar(self, v):
        return v[0] in ('int', 'bool') or (v[0] in ('sym', 'app') and v[2] in ('Int', 'Bool'))

    def isbool(self, v):
        return v[0] == 'bool' or (v[0] in ('sym', 'app') and v[2] == 'Bool')

    def bad(self, m):
        raise Unsupported(m)

    # ---- conditions under the path
    def decide(self, st, c):
        """True/False if the path determines c, else None."""
        if c[0] == 'bool':
            return c[1]
        if c[0] == 'app' and c[1] == 'not':
            d = self.decide(st, c[3])
            return None if d is None else (not d)
        if c in st.known:
            return st.known[c]
        if c[0] == 'app' and c[1] in ('eq', 'lt', 'le'):
            a, b = c[3], c[4]
            va = a if a[0] == 'int' else st.known.get(('val', a))
            vb = b if b[0] == 'int' else st.known.get(('val', b))
            if va is not None and vb is not None:
                return cmp_(c[1], va, vb)[1]
        if c[0] == 'app' and c[1] in ('and', 'or'):
            x, y = self.decide(st, c[3]), self.decide(st, c[4])
            if c[1] == 'and':
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        if c[0] == 'app' and c[1] == 'ascii':
            for j in range(c[4][1]):
                v = st.known.get(('val', cat(c[3], I(j))))
                if v is None or v[1] >= 128:
                    return None
                if self.decide(st, nonempty(adv(c[3], I(j)))) is not True:
                    return None
            return True
        if c[0] == 'app' and c[1] == 'inlen' and c[4] == I(1):
            return self.decide(st, nonempty(c[3])) or None
        return None

    def assume(self, st, c, val):
        if c[0] == 'app' and c[1] == 'not':
            return self.assume(st, c[3], not val)
        st.known[c] = val
        st.facts = st.facts + (('cond', c, val),)
        if val and c[0] == 'app' and c[1] == 'eq' and c[4][0] == 'int':
            st.known[('val', c[3])] = c[4]
        if val and c[0] == 'app' and c[1] == 'starts' and c[3][0] != 'str':
            s, lit = c[3], c[4]
            for n, ch in enumerate(lit):
                st.known[('val', cat(s, I(n)))] = I(ord(ch))
            if lit:
                st.known[nonempty(s)] = True
        if c[0] == 'app' and c[1] == 'isvar':
            if val:
                st.known[('val', app('discr', 'Int', c[3], c[4]))] = I(self.p.types[c[4]]['variants'][c[5]]['discr'])
        if c[0] == 'app' and c[1] == 'found' and not val:
            # nothing found: the span reaches the end of the text
            st.known[('len', c[3])] = c[4]

    def fork(self, st, cond, kt, ke):
        """kt, ke: continuations taking a state and returning a tree id."""
        while cond[0] == 'app' and cond[1] == 'not':
            cond, kt, ke = cond[3], ke, kt
        d = self.decide(st, cond)
        if d is True:
            return kt(st)
        if d is False:
            return ke(st)
        s2 = st.clone()
        self.assume(st, cond, True)
        self.assume(s2, cond, False)
        self.tick()
        t = kt(st)
        e = ke(s2)
        return self.mkif(cond, t, e)

    def mkif(self, c, t, e):
        if t == e:
            return t
        nt, ne = self.T.n[t], self.T.n[e]
        # only two outcomes between the branches: fold the nested tests into one condition
        if nt[0] == 'if' or ne[0] == 'if':
            exits = []
            for x, n in ((t, nt), (e, ne)):
                for y in ((n[2], n[3]) if n[0] == 'if' else (x,)):
                    if y not in exits:
                        exits.append(y)
            if len(exits) == 2:
                a, b = exits

                def cond(x, n):
                    if x == a:
                        return TRUE
                    if x == b:
                        return FALSE
                    return n[1] if n[2] == a else neg(n[1])
                ct, ce = cond(t, nt), cond(e, ne)
                if ct == TRUE:
                    k = app('or', 'Bool', c, ce)
                elif ct == FALSE:
                    k = app('and', 'Bool', neg(c), ce)
                elif ce == TRUE:
                    k = app('or', 'Bool', neg(c), ct)
                elif ce == FALSE:
                    k = app('and', 'Bool', c, ct)
                elif ct == ce:
                    k = ct
                else:
                    k = app('ite', 'Bool', c, ct, ce)
                return self.T.mk('if', k, a, b)
        return self.T.mk('if', c, t, e)

    def tick(self):
        self.count += 1
        if self.count > self.MAXNODES or time.time() > self.until:
            raise Budget('too many paths')

    # ---- main loop
    def exec(self, st):
        while True:
            fi = len(st.fr) - 1
            f = st.fr[fi]
            if f.bb in self.p.headers(f.inst):
                r = self.at_header(st)
                if r is not None:
                    return r
            bl = f.body['blocks'][f.bb]
            for s in bl['s']:
                if s[0] == '=':
                    self.write(st, fi, s[1], self.rvalue(st, fi, s[2], s[1]))
                elif s[0] == 'dead':
                    f.loc.pop(s[1], None)
                elif s[0] == 'setdiscr':
                    raise Unsupported('set discriminant')
                else:
                    raise Unsupported('statement %s' % (s,))
            r = self.term(st, fi, f, bl['t'])
            if r is not None:
                return r

    def goto(self, st, bb):
        st.fr[-1].bb = bb

    def term(self, st, fi, f, t):
        k = t['t']
        if k == 'drop' and self.p.dropcode(t['ty']):
            raise Unsupported('drop of a %s' % self.p.types[t['ty']].get('d'))
        if k in ('goto', 'drop'):
            self.goto(st, t['to'])
            return None
        if k == 'return':
            v = f.loc.get(0, UNINIT)
            return self.ret(st, v)
        if k == 'unreachable':
            return self.T.mk('panic', 'unreachable code reached')
        if k == 'resume':
            return self.T.mk('panic', 'unwind')
        if k == 'assert':
            c = self.operand(st, fi, t['cond'])
            if not t['expected']:
                c = neg(c)
            d = self.decide(st, c)
            if d is True:
                self.goto(st, t['to'])
                return None
            if d is False:
                return self.T.mk('panic', t['msg'])
            self.assume(st, c, True)
            self.goto(st, t['to'])
            return self.T.mk('obl', c, t['msg'], self.exec(st))
        if k == 'switch':
            return self.switch(st, fi, t)
        if k == 'call':
            return self.call(st, fi, f, t)
        raise Unsupported('terminator %s' % k)

    def ret(self, st, v):
        f = st.fr.pop()
        if not st.fr:
            return self.T.mk('ret', v)
        if f.to is None:
            return self.T.mk('panic', 'return from a diverging call')
        self.write(st, len(st.fr) - 1, f.dest, v)
        self.goto(st, f.to)
        return None

    def switch(self, st, fi, t):
        v = self.operand(st, fi, t['on'])
        cases, els = t['cases'], t['else']
        if v[0] == 'int' or v[0] == 'bool':
            n = int(v[1])
            for c, b in cases:
                if c == n:
                    self.goto(st, b)
                    return None
            self.goto(st, els)
            return None
        if self.isbool(v):
            tgt = {c: b for c, b in cases}
            return self.fork(st, v, self.goer(tgt.get(1, els)), self.goer(tgt.get(0, els)))
        if v[0] == 'app' and v[1] == 'discr':
            kv = st.known.get(('val', v))
            if kv is not None:
                for c, b in cases:
                    if c == kv[1]:
                        self.goto(st, b)
                        return None
                self.goto(st, els)
                return None
            tree, ty = v[3], v[4]
            var = self.p.types[ty]['variants']
            todo = []
            tg = {c: b for c, b in cases}
            for n, x in enumerate(var):
                todo.append((n, tg.get(x['discr'], els)))

            def chain(n):
                def go(s):
                    vn, b = todo[n]
                    if b is None:
                        return self.T.mk('panic', 'no such variant')
                    return self.fork(s, app('isvar', 'Bool', tree, ty, vn), self.goer(b),
                                     chain(n + 1) if n + 1 < len(todo) else
                                     (lambda s2: self.T.mk('panic', 'value outside its type')))
                return go
            return chain(0)(st)
        if v[0] in ('sym', 'app') and v[2] == 'Int':
            def chain2(n):
                def go(s):
                    if n == len(cases):
                        return self.goer(els)(s)
                    c, b = cases[n]
                    return self.fork(s, cmp_('eq', v, I(c)), self.goer(b), chain2(n + 1))
                return go
            return chain2(0)(st)
        raise Unsupported('switch on %r' % (v[:2],))

    def goer(self, b):
        def go(s):
            self.goto(s, b)
            return self.exec(s)
        return go

    # ---- loops
    def at_header(self, st):
        depth = len(st.fr) - 1
        f = st.fr[-1]
        if f.bb in f.rounds:
            f.rounds[f.bb] += 1
            if f.rounds[f.bb] > 80:
                raise Unsupported('many rounds over a literal')
            return None
        if f.bb in f.loops:
            return self.back_edge(st, f.loops[f.bb])
        lid = (f.inst, f.bb, self.lcount)
        self.lcount += 1
        ctx = LoopCtx(lid, depth, f.bb)
        base = st.clone()
        saved = self.lcount
        ctx.base = base
        for _ in range(60):
            self.lcount = saved
            s = base.clone()
            split = []
            for key, sy in sorted(ctx.gen.items(), key=repr):
                fr, l, path = key
                g = s.fr[fr]
                if sy[0] == 'pos':
                    s.known[app('sfx', 'Bool', sy[2], sy[1])] = True
                    if sy[4]:
                        split.append((key, sy))
                    sy = sub(full(sy[1]), full(sy[2]))
                g.loc[l] = self.poke(g.loc[l], path, sy)
            s.fr[-1].loops[f.bb] = ctx
            ctx.newgen = {}
            try:
                tree = self.at_body(s, ctx, split)
            except Rounds as e:
                if e.ctx is not ctx:
                    raise
                f.rounds[f.bb] = 0
                return None
            except Misfit as e:
                bad = [(key, sy) for key, sy in ctx.gen.items() if sy[0] == 'pos' and sy[3] and full(sy[2]) in lin(e.n)[0]]
                if not bad:
                    raise
                for key, sy in bad:
                    ctx.banned.add((key, sy[1], None))
                    ctx.newgen[key] = self.template(ctx, key, 'Int')
            if not ctx.newgen:
                break
            ctx.gen.update(ctx.newgen)
        else:
            raise Unsupported('loop does not stabilise')
        init, obls, pos = {}, [], []
        for (fr, l, path), sy in ctx.gen.items():
            v = self.peek(base.fr[fr].loc[l], path)
            if sy[0] == 'pos':
                pos.append((sy[2], sy[1], sy[4]))
                if sy[3]:
                    k, o = self.cindex(base, sy[1], v)
                    obls.append(o)
                    init[sy[2]] = adv(sy[1], k)
                    if sy[4]:
                        init[sy[4]] = I(0)
            else:
                init[sy] = v
        self.res.loops[lid] = dict(tree=tree, facts=base.facts, init=init, vars=sorted(init, key=lambda s: s[1]), pos=pos,
                                   outer=sorted((c.lid for g in base.fr for c in g.loops.values()), key=lambda l: l[2]),
                                   where=(self.p.insts[f.inst]['name'], f.bb))
        r = self.T.mk('loop', lid, tuple(sorted(init.items(), key=lambda kv: kv[0][1])))
        return self.with_obl(base.clone(), obls, 'model: position in a text', lambda _: r)

    def at_body(self, s, ctx, split):
        """The body of a loop, for positions at and inside of characters."""
        if not split:
            ctx.model = {k: dict(g.loc) for k, g in enumerate(s.fr)}
            return self.exec_body(s)
        ((fr, l, path), (_, B, w, _, j)), rest = split[0], split[1:]
        t = s.clone()
        t.known[nonempty(w)] = True
        g = t.fr[fr]
        g.loc[l] = self.poke(g.loc[l], path, add(self.peek(g.loc[l], path), app('mid', 'Int', w, j)))
        a = self.at_body(s, ctx, rest)
        b = self.at_body(t, ctx, rest)
        return self.T.mk('if', app('eq', 'Bool', j, I(0)), a, b)

    def exec_body(self, s):
        """Run from a header without treating the arrival as a back edge."""
        fi = len(s.fr) - 1
        f = s.fr[fi]
        bl = f.body['blocks'][f.bb]
        for x in bl['s']:
            if x[0] == '=':
                self.write(s, fi, x[1], self.rvalue(s, fi, x[2], x[1]))
            elif x[0] == 'dead':
                f.loc.pop(x[1], None)
            else:
                raise Unsupported('statement %s' % (x,))
        r = self.term(s, fi, f, bl['t'])
        return r if r is not None else self.exec(s)

    def back_edge(self, st, ctx):
        live = self.p.live_in(st.fr[-1].inst)[ctx.bb]
        if len(st.fr) - 1 != ctx.depth:
            raise Unsupported('loop depth')
        vals = {}
        ctx.later = []
        for k, f in enumerate(st.fr):
            model = ctx.model[k]
            for l, mv in model.items():
                if mv == UNINIT:
                    continue
                if k == ctx.depth and l not in live:
                    continue
                nv = f.loc.get(l, UNINIT)
                if nv == UNINIT and k < ctx.depth:
                    continue
                self.diff(ctx, (k, l), (), mv, nv, f.body['locals'][l], vals)
        for key, sort in ctx.later:
            ctx.newgen[key] = self.template(ctx, key, sort)
        if ctx.newgen:
            return self.T.mk('restart',)
        args, pos = {}, []
        for key, sy in ctx.gen.items():
            if sy[0] == 'pos':
                pos.append((key, sy))
            else:
                args[sy] = vals.get(key, sy)
        return self.settle(st, ctx, sorted(pos, key=lambda x: (not x[1][3], repr(x[0]))), vals, args)

    def settle(self, st, ctx, pos, vals, args):
        """The positions at the end of a round: which tails of their texts they are."""
        if not pos:
            return self.T.mk('loop', ctx.lid, tuple(sorted(args.items(), key=lambda kv: kv[0][1])))
        (key, sy), rest = pos[0], pos[1:]
        _, B, w, own, j = sy

        def ban():
            ctx.banned.add((key, B, w if not own else None))
            ctx.newgen[key] = self.template(ctx, key, 'Int')
            return self.T.mk('restart',)

        def at(s2, x, n):
            if not own:
                return self.settle(s2, ctx, rest, vals, args) if args[w] == x and n == I(0) else ban()
            a = dict(args)
            a[w] = x
            if j:
                a[j] = n
            elif n != I(0):
                # stops inside a character: count the bytes
                ctx.newgen[key] = ('pos', B, w, own, self.sym(('loop', self.rootkey, ctx.lid, key, 'in', B), 'Int', 'j'))
                return self.T.mk('restart',)
            return self.settle(s2, ctx, rest, vals, a)
        nv = vals.get(key)
        if nv is None:
            return at(st, args.get(w, w), j or I(0))
        d, c = lin(sub(nv, full(B)))
        m = [x for x in d if x[0] == 'app' and x[1] == 'mid']
        if m:
            x, n = m[0][3], m[0][4]
            if len(m) > 1 or d != {m[0]: 1, full(x): -1} or c not in (0, 1):
                return ban()
            if c == 0:
                return at(st, x, n)
            return self.fork(st, app('lt', 'Bool', add(n, I(1)), clen(cat(x))), lambda s2: at(s2, x, add(n, I(1))), lambda s2: at(s2, adv(x, I(1)), I(0)))
        if c == 1 and own and len(d) == 1:
            (y, k), = d.items()
            if k == -1 and y[0] == 'app' and y[1] == 'boff' and y == full(y[3]):
                x = y[3]
                one = app('ascii', 'Bool', x, I(1))
                if self.decide(st, one) is None:
                    return self.with_obl(st, [nonempty(x)], 'model: position in a text', lambda s1: self.fork(
                        s1, one, lambda s2: at(s2, adv(x, I(1)), I(0)), lambda s2: at(s2, x, I(1))))
        try:
            k, o = self.cindex(st, B, nv)
        except Budget:
            raise
        except Unsupported:
            return ban()
        return self.with_obl(st, [o], 'model: position in a text', lambda s2: at(s2, adv(B, k), I(0)))

    def template(self, ctx, key, sort):
        """What a number that changes in a loop may be: the offset of a tail of a text, namely of a text that
        changes with it or of one that is nothing else; or just a number."""
        base = ctx.base
        v = self.peek(base.fr[key[0]].loc[key[1]], key[2])
        texts = []
        self.ints = True

        def coll(x):
            if x[0] in ('sym', 'app') and x[2] == 'In':
                if x not in texts and x[1] != 'take':
                    texts.append(x)
            elif x[0] == 'adt':
                for y in x[3]:
                    if isinstance(y, tuple):
                        coll(y)
        if sort == 'Int' and not self.plain:
            for f in base.fr:
                for l in sorted(f.loc):
                    coll(f.loc[l])
        start = {}
        for B in texts[:-7:-1]:
            try:
                k, o = self.cindex(base, B, v)
                start[B] = adv(B, k)
            except Budget:
                raise
            except Unsupported:
                pass
        together = {**ctx.gen, **ctx.newgen}
        for k2, sy in sorted(together.items(), key=repr):
            if sy[0] == 'sym' and sy[2] == 'In':
                w0 = self.peek(base.fr[k2[0]].loc[k2[1]], k2[2])
                for B, x in start.items():
                    if x == w0 and (key, B, sy) not in ctx.banned:
                        return ('pos', B, sy, False, None)
        for B in start:
            if (key, B, None) not in ctx.banned:
                return ('pos', B, self.sym(('loop', self.rootkey, ctx.lid, key, 'at', B), 'In', 'w'), True, None)
        return self.sym(('loop', self.rootkey, ctx.lid, key), sort, 'w')

    def diff(self, ctx, loc, path, mv, nv, ty, vals):
        key = (loc[0], loc[1], path)
        if key in ctx.gen:
            vals[key] = nv
            return
        if mv == nv:
            return
        if mv[0] == 'adt' and nv[0] == 'adt' and mv[1] == nv[1] and mv[2] == nv[2]:
            tys = self.p.field_tys(mv[1], mv[2])
            for n in range(len(mv[3])):
                self.diff(ctx, loc, path + (n,), mv[3][n], nv[3][n], tys[n], vals)
            return
        if 'mref' in (mv[0], nv[0]) or mv[0] == 'fn' or nv == UNINIT:
            raise Unsupported('loop changes a reference')
        if mv[0] == nv[0] and mv[0] in ('str', 'lits') and len(nv[1]) < len(mv[1]) and mv[1][len(mv[1]) - len(nv[1]):] == nv[1]:
            e = Rounds()
            e.ctx = ctx
            raise e
        sort = self.p.sort(ty)
        if sort == 'Int':
            ctx.later.append((key, sort))
        else:
            ctx.newgen[key] = self.sym(('loop', self.rootkey, ctx.lid, key), sort, 'w')

    def poke(self, v, path, val):
        if not path:
            return val
        fs = list(v[3])
        fs[path[0]] = self.poke(fs[path[0]], path[1:], val)
        return ('adt', v[1], v[2], tuple(fs))

    def peek(self, v, path):
        for n in path:
            v = v[3][n]
        return v

    # ---- calls
    def call(self, st, fi, f, t):
        fv = self.operand(st, fi, t['f'])
        args = [self.operand(st, fi, a) for a in t['args']]
        fty = self.p.types[t['f']['c']['t']] if t['f']['o'] == 'const' and t['f']['c'].get('c') == 'zst' else None
        name = fty['name'] if fty else ''
        if fv[0] == 'closurefn':
            ct = self.p.types[fv[1][1]]
            self.push(st, ct['inst'], [fv[1]] + args, t['dest'], t['to'])
            return None
        if fv[0] != 'fn':
            raise Unsupported('call of %r' % (fv[:2],))
        inst = fv[1]
        if inst is None:
            raise Unsupported('unresolved call %s' % name)
        i = self.p.insts[inst]
        viafn = name in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
        c = self.contract_of(inst, t['rty'])
        if c is not None:
            a = args
            if viafn:
                a = list(args[1][3])
            return self.contract_call(st, c, a[0], t, self.sps.get(inst, 'pair'))
        r = self.leaf(st, i, fty, args, t)
        if r is not NotImplemented:
            return r
        if self.panics(i):
            return self.T.mk('panic', 'call to %s' % i['def'])
        untuple = viafn and not i['def'].startswith('std::ops::Fn')
        self.push(st, inst, args, t['dest'], t['to'], untuple)
        return None

    def panics(self, i):
        d = i['def']
        return d.startswith(('core::panicking', 'std::panicking', 'std::rt::panic', 'std::rt::begin_panic')) or \
            d.endswith(('unwrap_failed', 'expect_failed', 'slice_error_fail', 'panic_fmt', 'begin_panic')) or \
            'process::abort' in d or 'process::exit' in d or 'intrinsics::abort' in d

    def finish(self, st, t, v):
        """A leaf returned v."""
        if t['to'] is None:
            return self.T.mk('panic', 'diverging leaf')
        self.write(st, len(st.fr) - 1, t['dest'], v)
        self.goto(st, t['to'])
        return None

    def cont(self, t, mkval, pre=None):
        """Continuation for fork: store mkval() and carry on."""
        def go(s):
            if pre:
                pre(s)
            self.write(s, len(s.fr) - 1, t['dest'], mkval() if callable(mkval) else mkval)
            self.goto(s, t['to'])
            return self.exec(s)
        return go

    def contract_call(self, st, c, arg, t, kind='pair'):
        if arg[0] == 'str':
            raise Unsupported('contract function applied to a literal')
        if kind == 'rest':
            rem = self.sym(('rem', c, arg), 'In', 'i')
            val = self.sym(('val', c, arg), 'In', 'v')
            epos = self.sym(('err', c, arg), 'In', 'e')
            self.res.calls.add(c)
            self.tick()
            st.facts = st.facts + (('callok', c, arg, rem, val),)
            return self.T.mk('call', c, arg, rem, val, epos, self.cont(t, rem)(st), None)
        rt = self.p.types[t['rty']]
        okty, errty = rt['args'][0], rt['args'][1]
        rem = self.sym(('rem', c, arg), 'In', 'i')
        vty = self.p.types[okty]['e'][1]
        sort = self.p.sort(vty) if kind == 'pair' else 'In'
        val = self.sym(('val', c, arg), sort, 'v')
        epos = self.sym(('err', c, arg), 'In', 'e')
        ekind = self.sym(('kind', c, arg), 'Tree', 'k')
        ok = ('adt', t['rty'], 0, (('adt', okty, 0, (rem, val if kind == 'pair' else ('adt', vty, 0, ()))),))
        ev = None
        et = self.p.types[errty]
        for n, v in enumerate(et['variants']):
            if v['name'] == 'Error':
                ev = ('adt', errty, n, (('adt', v['fields'][0][1], 0, (epos, ekind)),))
        err = ('adt', t['rty'], 1, (ev,))
        self.res.calls.add(c)
        self.tick()
        key = (c, arg)
        prev = st.calls.get(key)
        if prev == 'ok':
            return self.finish(st, t, ok)
        if prev == 'err':
            return self.finish(st, t, err)
        s2 = st.clone()
        st.calls[key] = 'ok'
        st.facts = st.facts + (('callok', c, arg, rem, val),)
        okt = self.cont(t, ok)(st)
        if c[0] == 'sp':
            return self.T.mk('call', c, arg, rem, val, epos, okt, None)
        s2.calls[key] = 'err'
        s2.facts = s2.facts + (('callerr', c, arg, epos),)
        errt = self.cont(t, err)(s2)
        return self.T.mk('call', c, arg, rem, val, epos, okt, errt)

    # ---- leaves with given meaning
    def opt(self, ty, v=None):
        """Option::None / Some(v) of MIR type ty"""
        vs = self.p.types[ty]['variants']
        for n, x in enumerate(vs):
            if (x['name'] == 'Some') == (v is not None):
                return ('adt', ty, n, (v,) if v is not None else ())

    def deref(self, st, v):
        if v[0] == 'mref':
            k = self.frame_ix(st, v[1])
            return self.walk(st, st.fr[k].loc.get(v[2], UNINIT), st.fr[k].body['locals'][v[2]], v[3], k)
        return v

    def setref(self, st, r, v):
        k = self.frame_ix(st, r[1])
        self.write(st, k, [r[2], list(r[3])], v)

    def text(self, v):
        if v[0] == 'str' or (v[0] in ('sym', 'app') and v[2] == 'In'):
            return v
        raise Unsupported('text expected, got %r' % (v[:2],))

    def slen(self, st, s):
        if s[0] == 'str':
            return I(len(s[1].encode()))
        k = st.known.get(('len', s))
        if k is not None:
            return boff(s, k)
        b, o = base_off(s)
        return boff(s, sub(app('len', 'Int', b), o))

    def cindex(self, st, s, n):
        """Character index in s of byte offset n -> (index, obligation or None)."""
        if n == I(0):
            return I(0), None
        if s[0] == 'str':
            if n[0] == 'int':
                return I(len(s[1].encode()[:n[1]].decode())), None
            raise Unsupported('symbolic offset into a literal')
        if n[0] == 'app' and n[1] == 'boff':
            if n[3] == s:
                k = n[4]
                return k, app('inlen', 'Bool', s, k)
        if n[0] == 'app' and n[1] == 'clen' and n[3] == cat(s, I(0)):
            return I(1), app('inlen', 'Bool', s, I(1))
        if n[0] == 'int':
            return n, app('ascii', 'Bool', s, n)
        # n is a sum: walk through the text, one summand after the other
        d, c = lin(n)
        d = dict(d)
        cur, obls = s, []

        def used(x, k=1):
            d[x] = d.get(x, 0) - k
            if not d[x]:
                del d[x]
        while d or c:
            for x, k in list(d.items()):
                if x[0] == 'app' and x[1] == 'boff' and x[3] == cur and k > 0:
                    # a length minus the length of a tail: up to that tail
                    y = next((y for y, m in d.items() if m < 0 and y[0] == 'app' and y[1] == 'boff' and self.isfull(y)), None) \
                        if self.isfull(x) else None
                    if y is not None:
                        obls.append(app('sfx', 'Bool', y[3], cur))
                        used(y, -1)
                        cur = y[3]
                    else:
                        obls.append(app('inlen', 'Bool', cur, x[4]))
                        cur = adv(cur, x[4])
                    used(x)
                    break
                if x[0] == 'app' and x[1] == 'clen' and x[3] == cat(cur, I(0)) and k > 0:
                    obls.append(app('inlen', 'Bool', cur, I(1)))
                    cur = adv(cur, I(1))
                    used(x)
                    break
            else:
                # so many ASCII characters, up to where another summand starts
                step = c if not d else next((j for j in range(1, c + 1) for x in d if x[0] == 'app' and x[1] in ('boff', 'clen')
                                             and d[x] > 0 and x[3] == (adv(cur, I(j)) if x[1] == 'boff' else cat(cur, I(j)))), 0)
                if step <= 0 or step > 64:
                    e = Misfit('byte offset %s in %s' % (show(self, n), show(self, s)))
                    e.n = n
                    raise e
                obls.append(app('ascii', 'Bool', cur, I(step)))
                cur = adv(cur, I(step))
                c -= step
        return sub(at_(cur), at_(s)), obls

    def isfull(self, x):
        """Is this byte offset the whole length of its text?"""
        b, o = base_off(x[3])
        return add(o, x[4]) == app('len', 'Int', b)

    def with_obl(self, st, obls, msg, k):
        """Emit obligations, then continue with k(state) -> tree id."""
        todo = []
        for o in [y for x in obls for y in (x if isinstance(x, list) else [x])]:
            if o is None:
                continue
            d = self.decide(st, o)
            if d is True:
                continue
            todo.append(o)
            self.assume(st, o, True)
        r = k(st)
        for o in reversed(todo):
            r = self.T.mk('obl', o, msg, r)
        return r

    def predicate(self, closure, nargs=1):
        """Evaluate a char predicate: returns pid of its set of characters."""
        c = ('sym', 'c', 'Int')
        if closure[0] == 'int':
            expr = cmp_('eq', c, closure)
            src = 'char pattern'
        elif closure[0] == 'lits':
            expr = FALSE
            for x in closure[1]:
                e = cmp_('eq', c, x)
                expr = e if expr == FALSE else app('or', 'Bool', expr, e)
            src = 'char set'
        else:
            inst, expr = self.boolcall(closure, c)
            src = self.p.insts[inst]['name']
        iv = intervals(expr)
        pid = self.preds.setdefault(iv, len(self.preds))
        self.predexprs.setdefault(pid, {})[expr] = src
        self.res.preds[pid] = iv
        return pid

    def boolcall(self, closure, c):
        """The closure's truth value on c, as an expression."""
        if closure[0] == 'adt':
            inst = self.p.types[closure[1]].get('inst')
            args = [closure, c]
        elif closure[0] == 'fn':
            inst, args = closure[1], [c]
        elif closure[0] == 'closurefn':
            inst, args = self.p.types[closure[1][1]]['inst'], [closure[1], c]
        else:
            raise Unsupported('predicate %r' % (closure[:1],))
        b = self.p.insts[inst]['body'] if inst is not None else None
        if b is None:
            raise Unsupported('predicate without a body')
        if b['spread']:
            args[-1] = ('adt', b['locals'][b['spread']], 0, (c,))
        sub_ = State()
        sub_.fr, sub_.facts, sub_.known, sub_.calls = [], (), {}, {}
        self.push(sub_, inst, args, None, None)
        return inst, self.tree_expr(self.exec(sub_))

    def tree_expr(self, t):
        n = self.T.n[t]
        if n[0] == 'ret':
            if not self.isbool(n[1]):
                raise Unsupported('predicate result')
            return n[1]
        if n[0] == 'if':
            return app('ite', 'Bool', n[1], self.tree_expr(n[2]), self.tree_expr(n[3]))
        raise Unsupported('predicate with %s' % n[0])

    def span(self, pid, s):
        """How many leading characters of s lie outside the predicate's set."""
        return app('nspan', 'Int', pid, s)

    def leaf(self, st, i, fty, args, t):
        d = i['def']
        n = d.split('::')[-1]
        fn = LEAVES.get(d)
        if fn is None:
            return NotImplemented
        r = fn(self, st, i, args, t)
        if r is not NotImplemented and d not in PROVED:
            self.res.leaves.add(d)
        return r


def intervals(expr):
    """The set of characters satisfying a boolean expression over the symbol c."""
    consts = set()

    def coll(e):
        if isinstance(e, tuple):
            if e and e[0] == 'int':
                consts.add(e[1])
            if e[:2] == ('app', 'sum'):
                consts.update(range(0x300))     # only a guess: the answer is proved equivalent afterwards
            if e[:2] == ('app', 'mod'):
                consts.update(range(0x1000))    # also a guess
            for x in e:
                coll(x)
    coll(expr)
    pts = {0, 0x10FFFF}
    for c in consts:
        for x in (c - 1, c, c + 1):
            if 0 <= x <= 0x10FFFF:
                pts.add(x)
    pts = sorted(pts)

    def ev(e, c):
        k = e[0]
        if k in ('int', 'bool'):
            return e[1]
        if k == 'sym':
            if e[1] != 'c':
                raise Unsupported('predicate depends on %s' % e[1])
            return c
        if k == 'app':
            o = e[1]
            if o == 'not':
                return not ev(e[3], c)
            if o == 'eq':
                return ev(e[3], c) == ev(e[4], c)
            if o == 'lt':
                return ev(e[3], c) < ev(e[4], c)
            if o == 'le':
                return ev(e[3], c) <= ev(e[4], c)
            if o == 'and':
                return ev(e[3], c) and ev(e[4], c)
            if o == 'or':
                return ev(e[3], c) or ev(e[4], c)
            if o == 'ite':
                return ev(e[4], c) if ev(e[3], c) else ev(e[5], c)
            if o == 'mod':
                return ev(e[3], c) % e[4]
            if o == 'sum':
                return e[3] + sum(n * ev(x, c) for x, n in e[4:])
        raise Unsupported('predicate operator %r' % (e[:2],))
    out = []
    for a, b in zip(pts, pts[1:] + [0x110000]):
        # the expression is constant on [a, b): every threshold is a point
        if ev(expr, a):
            if out and out[-1][1] == a - 1:
                out[-1] = (out[-1][0], b - 1)
            else:
                out.append((a, b - 1))
    if len(out) > 40:
        raise Unsupported('predicate of %d intervals' % len(out))
    return tuple(out)


# ---- the leaves -------------------------------------------------------------
LEAVES = {}
# leaves whose meaning is proved from their own code, for each literal they are used with
PROVED = {"<&'a str as nom::traits::Compare<&'b str>>::compare": 'compare',
          "<&'a str as nom::traits::FindToken<char>>::find_token": 'find_token',
          'std::char::methods::<impl char>::len_utf8': 'len_utf8', 'core::char::methods::<impl char>::len_utf8': 'len_utf8'}


def leafdef(*names):
    def deco(f):
        for n in names:
            LEAVES[n] = f
        return f
    return deco


@leafdef("<&'a str as nom::traits::Compare<&'b str>>::compare")
def _compare(E, st, i, a, t):
    s, lit = E.text(E.deref(st, a[0])), E.text(a[1])
    if lit[0] != 'str':
        raise Unsupported('compare with a non-literal')
    if E.rootkey[0] == 'lib':
        return NotImplemented
    E.res.calls.add(('lib', 'compare', lit[1]))
    ty = t['rty']
    ix = {v['name']: n for n, v in enumerate(E.p.types[ty]['variants'])}
    E.res.lits.add(lit[1])
    return E.fork(st, app('starts', 'Bool', s, lit[1]), E.cont(t, ('adt', ty, ix['Ok'], ())),
                  lambda s2: E.fork(s2, app('cmpinc', 'Bool', s, lit[1]),
                                    E.cont(t, ('adt', ty, ix['Incomplete'], ())),
                                    E.cont(t, ('adt', ty, ix['Error'], ()))))


@leafdef('core::str::<impl str>::starts_with')
def _starts(E, st, i, a, t):
    s, p = E.text(E.deref(st, a[0])), E.deref(st, a[1])
    if p[0] == 'str':
        E.res.lits.add(p[1])
        return E.finish(st, t, app('starts', 'Bool', s, p[1]))
    pid = E.predicate(p)
    return E.finish(st, t, app('and', 'Bool', nonempty(s), cmp_('eq', E.span(pid, s), I(0))))


@leafdef('core::str::<impl str>::strip_prefix')
def _strip(E, st, i, a, t):
    s, p = E.text(E.deref(st, a[0])), E.deref(st, a[1])
    if p[0] == 'int':
        p = ('str', chr(p[1]))
    if p[0] == 'str':
        E.res.lits.add(p[1])
        return E.fork(st, app('starts', 'Bool', s, p[1]),
                      E.cont(t, lambda: E.opt(t['rty'], adv(s, I(len(p[1]))))), E.cont(t, E.opt(t['rty'])))
    pid = E.predicate(p)
    return E.fork(st, nonempty(s),
                  lambda s2: E.fork(s2, cmp_('eq', E.span(pid, s), I(0)),
                                    E.cont(t, lambda: E.opt(t['rty'], adv(s, I(1)))), E.cont(t, E.opt(t['rty']))),
                  E.cont(t, E.opt(t['rty'])))


@leafdef('core::str::<impl str>::trim_start_matches')
def _trimsm(E, st, i, a, t):
    s, p = E.text(E.deref(st, a[0])), E.deref(st, a[1])
    if p[0] == 'str':
        raise Unsupported('trim_start_matches of a string')
    pid = E.predicate(p)
    # leading characters inside the set = outside its complement
    iv = E.res.preds[pid]
    return E.finish(st, t, adv(s, app('span', 'Int', pid, s)))


@leafdef('core::str::<impl str>::as_ptr', 'core::slice::<impl [T]>::as_ptr')
def _asptr(E, st, i, a, t):
    return E.finish(st, t, ('addrof', E.text(E.deref(st, a[0]))))


def findlit(E, st, s, p, t):
    if p[0] != 'str' or not p[1]:
        raise Unsupported('search for a non-literal')
    E.res.lits.add(p[1])
    return E.fork(st, app('foundlit', 'Bool', s, p[1]),
                  E.cont(t, lambda: E.opt(t['rty'], boff(s, app('findlit', 'Int', s, p[1])))),
                  E.cont(t, E.opt(t['rty'])))


@leafdef('core::str::<impl str>::find')
def _find(E, st, i, a, t):
    s, p = E.text(E.deref(st, a[0])), E.deref(st, a[1])
    if s[0] == 'str' and E.scalar(p) and p[0] != 'int':
        def look(k):
            if k == len(s[1]):
                return E.cont(t, E.opt(t['rty']))
            at = len(s[1][:k].encode())
            return lambda s2: E.fork(s2, cmp_('eq', p, I(ord(s[1][k]))), E.cont(t, lambda: E.opt(t['rty'], I(at))), look(k + 1))
        return look(0)(st)
    if p[0] == 'str':
        return findlit(E, st, s, p, t)
    pid = E.predicate(p)
    k = E.span(pid, s)
    return E.fork(st, app('found', 'Bool', s, k), E.cont(t, lambda: E.opt(t['rty'], boff(s, k))),
                  E.cont(t, E.opt(t['rty'])))


@leafdef("<&'a str as nom::traits::FindToken<char>>::find_token", 'core::str::<impl str>::contains', 'core::slice::<impl [T]>::contains')
def _findtoken(E, st, i, a, t):
    if i['def'] in PROVED:
        if E.rootkey[0] == 'lib':
            return NotImplemented
        s = E.deref(st, a[0])
        if s[0] == 'str':
            E.res.calls.add(('lib', 'find_token', s[1]))
    s, c = E.deref(st, a[0]), E.deref(st, a[1])
    if s[0] not in ('str', 'lits') or not E.scalar(c):
        raise Unsupported('membership in a non-literal')
    e = FALSE
    for ch in s[1]:
        x = cmp_('eq', c, ch if s[0] == 'lits' else I(ord(ch)))
        e = x if e == FALSE else (app('or', 'Bool', e, x) if x != FALSE else e)
        if x == TRUE:
            e = TRUE
            break
    return E.finish(st, t, e)


@leafdef('core::str::traits::<impl std::ops::Index<I> for str>::index')
def _index(E, st, i, a, t):
    s, r = E.text(E.deref(st, a[0])), a[1]
    if r[0] != 'adt':
        raise Unsupported('index')
    rt = E.p.types[r[1]]
    nm = rt['name'].split('::')[-1]
    if nm == 'RangeFull':
        return E.finish(st, t, s)

    def fin(v):
        def go(s2):
            x = E.finish(s2, t, v)
            return x if x is not None else E.exec(s2)
        return go
    msg = 'slice index outside the text or not on a character boundary'
    if nm == 'RangeFrom':
        k, o = E.cindex(st, s, r[3][0])
        return E.with_obl(st, [o], msg, fin(adv(s, k)))
    if nm == 'RangeTo':
        k, o = E.cindex(st, s, r[3][0])
        return E.with_obl(st, [o], msg, fin(take(s, k)))
    if nm == 'Range':
        k, o = E.cindex(st, s, r[3][0])
        k2, o2 = E.cindex(st, s, r[3][1])
        return E.with_obl(st, [o, o2, cmp_('le', k, k2)], msg, fin(take(adv(s, k), sub(k2, k))))
    raise Unsupported('index by %s' % nm)


@leafdef('core::str::<impl str>::get')
def _get(E, st, i, a, t):
    s, r = E.text(E.deref(st, a[0])), a[1]
    raise Unsupported('str::get')


@leafdef('core::str::<impl str>::split_at')
def _splitat(E, st, i, a, t):
    s = E.text(E.deref(st, a[0]))
    k, o = E.cindex(st, s, a[1])

    def go(s2):
        x = E.finish(s2, t, ('adt', t['rty'], 0, (take(s, k), adv(s, k))))
        return x if x is not None else E.exec(s2)
    return E.with_obl(st, [o], 'split index', go)


@leafdef('core::str::<impl str>::len', 'core::slice::<impl [T]>::len')
def _len(E, st, i, a, t):
    return E.finish(st, t, E.slen(st, E.text(E.deref(st, a[0]))))


@leafdef('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _isempty(E, st, i, a, t):
    v = E.deref(st, a[0])
    return E.finish(st, t, neg(nonempty(E.text(v))))


@leafdef('core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def _sindex(E, st, i, a, t):
    r = a[1]
    if r[0] == 'adt' and E.p.types[r[1]]['k'] == 'adt' and E.p.types[r[1]]['name'].split('::')[-1] == 'RangeFull':
        return E.finish(st, t, E.deref(st, a[0]))
    raise Unsupported('slice index')


@leafdef("<std::str::Bytes<'_> as std::iter::Iterator>::next")
def _bnext(E, st, i, a, t):
    r = a[0]
    s = E.text(E.deref(st, r))

    def pre(s2):
        # a byte on, the iterator may stand inside a character
        if r[0] == 'mref':
            E.setref(s2, r, ('inside',))
    return E.fork(st, nonempty(s), E.cont(t, lambda: E.opt(t['rty'], app('byte0', 'Int', cat(s))), pre), E.cont(t, E.opt(t['rty'])))


@leafdef('core::slice::<impl [T]>::get')
def _sget(E, st, i, a, t):
    if not E.scalar(a[1]):
        raise Unsupported('slice::get')
    s = E.text(E.deref(st, a[0]))
    k, o = E.cindex(st, s, a[1])
    s = adv(s, k)
    return E.with_obl(st, [o], 'model: position in a text', lambda s2: E.fork(
        s2, nonempty(s), E.cont(t, lambda: E.opt(t['rty'], app('byte0', 'Int', cat(s)))), E.cont(t, E.opt(t['rty']))))


@leafdef('core::str::<impl str>::as_bytes', 'core::str::<impl str>::chars', 'core::str::<impl str>::bytes')
def _same(E, st, i, a, t):
    return E.finish(st, t, E.text(E.deref(st, a[0])))


@leafdef('core::str::<impl str>::is_char_boundary')
def _bound(E, st, i, a, t):
    raise Unsupported('is_char_boundary')


@leafdef('core::slice::<impl [T]>::first')
def _first(E, st, i, a, t):
    s = E.text(E.deref(st, a[0]))
    return E.fork(st, nonempty(s), E.cont(t, lambda: E.opt(t['rty'], app('byte0', 'Int', cat(s)))),
                  E.cont(t, E.opt(t['rty'])))


@leafdef("<std::str::Chars<'a> as std::iter::Iterator>::next")
def _next(E, st, i, a, t):
    r = a[0]
    s = E.text(E.deref(st, r))
    if s[0] == 'str':
        if not s[1]:
            return E.finish(st, t, E.opt(t['rty']))
        if r[0] == 'mref':
            E.setref(st, r, ('str', s[1][1:]))
        return E.finish(st, t, E.opt(t['rty'], I(ord(s[1][0]))))

    def pre(s2):
        if r[0] == 'mref':
            E.setref(s2, r, adv(s, I(1)))
    return E.fork(st, nonempty(s), E.cont(t, lambda: E.opt(t['rty'], cat(s)), pre), E.cont(t, E.opt(t['rty'])))


@leafdef('core::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
         "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def _iter(E, st, i, a, t):
    s = E.deref(st, a[0])
    if s[0] != 'lits':
        raise Unsupported('iter of %s' % s[0])
    return E.finish(st, t, s)


@leafdef("<std::slice::Iter<'a, T> as std::iter::Iterator>::next")
def _iternext(E, st, i, a, t):
    s = E.deref(st, a[0])
    if s[0] != 'lits':
        raise Unsupported('next of %s' % s[0])
    if not s[1]:
        return E.finish(st, t, E.opt(t['rty']))
    if a[0][0] == 'mref':
        E.setref(st, a[0], ('lits', s[1][1:]))
    return E.finish(st, t, E.opt(t['rty'], s[1][0]))


@leafdef("<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "<std::slice::Iter<'a, T> as std::iter::Iterator>::all")
def _iterany(E, st, i, a, t):
    s = E.deref(st, a[0])
    if s[0] != 'lits':
        raise Unsupported('any of %s' % s[0])
    unit = i['def'].endswith('all')
    e = ('bool', unit)
    for x in s[1]:
        b = E.boolcall(a[1], x)[1]
        if b == ('bool', unit):
            continue
        if b == ('bool', not unit):
            e = b
            break
        e = b if e == ('bool', unit) else app('and' if unit else 'or', 'Bool', e, b)
    if a[0][0] == 'mref':
        E.setref(st, a[0], UNINIT)      # where it stopped is not tracked
    return E.finish(st, t, e)


@leafdef("std::str::Chars::<'a>::as_str", "core::str::iter::Chars::<'a>::as_str")
def _asstr(E, st, i, a, t):
    return E.finish(st, t, E.text(E.deref(st, a[0])))


@leafdef('core::str::traits::<impl std::cmp::PartialEq for str>::eq')
def _streq(E, st, i, a, t):
    x, y = E.text(E.deref(st, a[0])), E.text(E.deref(st, a[1]))
    if x == y:
        return E.finish(st, t, TRUE)
    if x[0] == 'str' and y[0] == 'str':
        return E.finish(st, t, ('bool', x[1] == y[1]))
    if x[0] == 'str':
        x, y = y, x
    if y[0] == 'str':
        E.res.lits.add(y[1])
        return E.finish(st, t, app('iseqlit', 'Bool', x, y[1]))
    if repr(y) < repr(x):
        x, y = y, x
    return E.finish(st, t, app('seqeq', 'Bool', x, y))


@leafdef('std::char::methods::<impl char>::len_utf8', 'core::char::methods::<impl char>::len_utf8')
def _clen(E, st, i, a, t):
    if E.rootkey[:2] == ('lib', 'len_utf8'):
        return NotImplemented
    E.res.calls.add(('lib', 'len_utf8', ''))
    return E.finish(st, t, clen(E.deref(st, a[0])))


@leafdef('std::char::methods::<impl char>::to_digit', 'core::char::methods::<impl char>::to_digit')
def _todigit(E, st, i, a, t):
    c, radix = a
    if radix[0] != 'int' or not 2 <= radix[1] <= 36:
        raise Unsupported('to_digit in an unknown radix')
    r = radix[1]

    def look(rs):
        if not rs:
            return E.cont(t, E.opt(t['rty']))
        lo, hi, base = rs[0]
        c1, c2 = cmp_('le', I(lo), c), cmp_('le', c, I(hi))
        return lambda s2: E.fork(s2, app('and', 'Bool', c1, c2), E.cont(t, lambda: E.opt(t['rty'], add(c, I(base - lo)))), look(rs[1:]))
    rs = [(48, 47 + min(r, 10), 0)] + ([(97, 86 + r, 10), (65, 54 + r, 10)] if r > 10 else [])
    return look(rs)(st)


@leafdef('core::str::<impl str>::char_indices')
def _charindices(E, st, i, a, t):
    return E.finish(st, t, ('adt', t['rty'], 0, (I(0), E.text(E.deref(st, a[0])))))


@leafdef("<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def _cinext(E, st, i, a, t):
    r = a[0]
    v = E.deref(st, r)
    if v[0] != 'adt' or len(v[3]) != 2 or r[0] != 'mref':
        raise Unsupported('char_indices')
    n, s = v[3]
    c = cat(s)

    def pre(s2):
        E.setref(s2, r, ('adt', v[1], v[2], (add(n, clen(c)), adv(s, I(1)))))
    pair = E.p.types[t['rty']]['args'][0]
    return E.fork(st, nonempty(E.text(s)), E.cont(t, lambda: E.opt(t['rty'], ('adt', pair, 0, (n, c))), pre), E.cont(t, E.opt(t['rty'])))


@leafdef("<std::str::Bytes<'_> as std::iter::Iterator>::position")
def _bpos(E, st, i, a, t):
    s, p = E.text(E.deref(st, a[0])), a[1]
    iv = E.res.preds[E.predicate(p)]
    if any(b >= 128 for _, b in iv):
        raise Unsupported('position of a byte that is not ASCII')
    k = E.span(E.predicate(p), s)

    def pre(s2):
        if a[0][0] == 'mref':
            E.setref(s2, a[0], ('inside',))
    return E.fork(st, app('found', 'Bool', s, k), E.cont(t, lambda: E.opt(t['rty'], boff(s, k)), pre), E.cont(t, E.opt(t['rty']), pre))


@leafdef('<std::vec::Vec<T> as std::default::Default>::default')
@leafdef('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def _vnew(E, st, i, a, t):
    return E.finish(st, t, app('nil', 'Tree'))


@leafdef('std::vec::Vec::<T, A>::push')
def _vpush(E, st, i, a, t):
    r = a[0]
    if r[0] != 'mref':
        raise Unsupported('push through a shared reference')
    v = E.deref(st, r)
    vt = i['args'][0] if i.get('args') else None
    E.setref(st, r, app('push', 'Tree', v, a[1]))
    return E.finish(st, t, ('adt', t['rty'], 0, ()))


@leafdef('std::boxed::Box::<T>::new_uninit')
def _boxnew(E, st, i, a, t):
    return E.finish(st, t, FRESH)


@leafdef('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec', 'slice::<impl [T]>::into_vec')
def _intovec(E, st, i, a, t):
    if a[0][0] != 'lits':
        raise Unsupported('list from %s' % a[0][0])
    v = app('nil', 'Tree')
    for x in a[0][1]:
        v = app('push', 'Tree', v, x)
    return E.finish(st, t, v)


@leafdef('std::vec::Vec::<T, A>::len')
def _vlen(E, st, i, a, t):
    return E.finish(st, t, app('vlen', 'Int', E.deref(st, a[0])))


@leafdef('std::vec::Vec::<T, A>::is_empty')
def _vempty(E, st, i, a, t):
    v = E.deref(st, a[0])
    if v == app('nil', 'Tree'):
        return E.finish(st, t, TRUE)
    if v[0] == 'app' and v[1] == 'push':
        return E.finish(st, t, FALSE)
    return E.finish(st, t, cmp_('eq', app('vlen', 'Int', v), I(0)))


@leafdef('std::boxed::Box::<T>::new')
def _box(E, st, i, a, t):
    return E.finish(st, t, a[0])


def show(E, v):
    k = v[0]
    if k in ('int', 'bool', 'str'):
        return repr(v[1])
    if k == 'sym':
        return v[1]
    if k == 'fn':
        return 'fn#%s' % v[1]
    if k == 'adt':
        try:
            nm = E.p.nodekey(v[1], v[2])[0]
        except Unsupported:
            nm = 'closure'
        return '%s(%s)' % (nm, ', '.join(show(E, x) for x in v[3]))
    if k == 'app':
        if v[1] == 'sum':
            return '+'.join(['%d' % v[3]] + ['%s%s' % ('' if n == 1 else '%d*' % n, show(E, a)) for a, n in v[4:]])
        return '%s(%s)' % (v[1], ', '.join(show(E, x) if isinstance(x, tuple) else repr(x) for x in v[3:]))
    return k


def dump(E, t, ind=0, out=None):
    out = [] if out is None else out
    n = E.T.n[t]
    p = '  ' * ind
    if n[0] == 'ret':
        out.append(p + 'ret ' + show(E, n[1]))
    elif n[0] == 'if':
        out.append(p + 'if ' + show(E, n[1]))
        dump(E, n[2], ind + 1, out)
        out.append(p + 'else')
        dump(E, n[3], ind + 1, out)
    elif n[0] == 'call':
        out.append(p + 'call %s(%s) -> Ok(%s, %s)' % (cname(n[1]), show(E, n[2]), show(E, n[3]), show(E, n[4])))
        dump(E, n[6], ind + 1, out)
        if n[7] is not None:
            out.append(p + 'err %s' % show(E, n[5]))
            dump(E, n[7], ind + 1, out)
    elif n[0] == 'obl':
        out.append(p + 'assert %s  // %s' % (show(E, n[1]), n[2]))
        dump(E, n[3], ind, out)
    elif n[0] == 'loop':
        out.append(p + 'loop %s %s' % (n[1], ', '.join('%s:=%s' % (a[1], show(E, b)) for a, b in n[2])))
    else:
        out.append(p + ' '.join(map(str, n)))
    return out


def cname(c):
    return 'sp' if c[0] == 'sp' else G.tstr(c[1])


def skippers(P):
    """Functions of the crate from a text to its rest (alone, or paired with nothing
    or with a text): one of them skips whitespace and comments."""
    out = []
    for k, i in enumerate(P.insts):
        if not i['body'] or not i['def'].startswith('weedle::') or '<impl' in i['def'] or '{' in i['def'] or i['body']['argc'] != 1:
            continue
        ls = i['body']['locals']
        if P.types[P.strip(ls[1])]['k'] != 'str':
            continue
        kind = None
        r = P.types[ls[0]]
        if P.types[P.strip(ls[0])]['k'] == 'str':
            kind = 'rest'
        elif r['k'] == 'adt' and r['name'].endswith('Result'):
            tup = P.types[r['args'][0]]
            if tup['k'] == 'tuple' and len(tup['e']) == 2 and P.types[P.strip(tup['e'][0])]['k'] == 'str':
                v = P.types[P.strip(tup['e'][1])]
                kind = 'pair' if v['k'] == 'str' else 'unit' if v['k'] == 'tuple' and not v['e'] else None
        if kind:
            out.append((i['def'] != 'weedle::whitespace::sp', 'whitespace' not in i['def'], i['def'], k, kind))
    return [(k, kind, d) for _, _, d, k, kind in sorted(out)]


def evaluate(data, names, want=None, sp=None):
    """Evaluate every function under contract -> (Evaluator, {key: Result or Unsupported})."""
    P = Program(data)
    E = Evaluator(P)
    E.under = set(names.values())
    out = {}
    inp = ('sym', 'i', 'In')
    if sp is None:
        sp = next((x for x in skippers(P) if x[2] == 'weedle::whitespace::sp'), None)
    E.sp = sp
    spinst = None
    if sp:
        E.sps = {k: sp[1] for k, i in enumerate(P.insts) if i['def'] == sp[2]}
        spinst = sp[0]
    todo = []
    if spinst is not None:
        todo.append((('sp',), spinst, [inp]))
    for rn, rinst in P.roots.items():
        what = names.get(rn.split('::')[-1])
        if what is None:
            continue
        # the root is a thin wrapper around the function of interest
        body = P.insts[rinst]['body']
        callee, rty = None, None
        for bl in body['blocks']:
            if bl['t']['t'] == 'call':
                callee, rty = P.types[bl['t']['f']['c']['t']]['inst'], bl['t']['rty']
                break
        if what[0] == 'parse':
            if what[1][0] in G.ABSTRACT:
                continue
            todo.append((('parse', what[1]), callee, [inp]))
        elif what[0] == 'term':
            todo.append((('term', what[1]), rinst, [inp]))
        elif what[0] == 'whole':
            todo.append((('whole',), callee, [inp]))
        elif what[0] == 'from':
            ty = P.insts[rinst]['body']['locals'][1]
            todo.append((('from', what[1], what[2], what[3]), rinst, [('sym', 'x', P.sort(ty))]))
    def go(key, inst, args):
        E.rootkey = key
        t0 = time.time()
        try:
            out[key] = E.run(inst, args)
            out[key].inst = inst
        except Unsupported as e:
            out[key] = e
        except RecursionError as e:
            out[key] = Unsupported('evaluation too deep')
        E.spent += time.time() - t0
    for key, inst, args in todo:
        if want is None or key in want:
            go(key, inst, args)
    # library functions, applied to the literals they are used with
    lib = {PROVED[i['def']]: k for k, i in enumerate(P.insts) if i['def'] in PROVED}
    for key in sorted({c for r in out.values() if not isinstance(r, Exception) for c in r.calls if c[0] == 'lib'}):
        c = ('sym', 'c', 'Int')
        go(key, lib[key[1]], {'compare': [inp, ('str', key[2])], 'find_token': [('str', key[2]), c], 'len_utf8': [c]}[key[1]])
    return E, out


def main():
    import json
    import gen_probe
    data = json.load(open(sys.argv[1]))
    _, names = gen_probe.probe_source()
    E, out = evaluate(data, names)
    bad = [(k, v) for k, v in out.items() if isinstance(v, Exception)]
    print(len(out), 'functions', len(bad), 'unsupported')
    for k, v in bad[:30]:
        print('  ', k, v)
    for k, v in out.items():
        if len(sys.argv) > 2 and sys.argv[2] in repr(k) and not isinstance(v, Exception):
            print('==', k)
            print('\n'.join(dump(E, v.tree)))
            for l, x in v.loops.items():
                print('-- loop', l, 'vars', [s[1] for s in x['vars']])
                print('\n'.join(dump(E, x['tree'])))


if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=main)
    th.start()
    th.join()
