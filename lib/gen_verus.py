"""Writes the Verus text: the reference grammar as spec functions (g_*), every
function under contract as a proof function (p_*) whose body is the residual of
its MIR, and the contracts that tie the two together."""
import grammar as G
import residual as R
from residual import Unsupported

# ---- reference character classes (sets of code points) ----------------------
TOP = 0x10FFFF


def _iv(spec):
    return tuple((ord(a), ord(b)) for a, b in spec)


def complement(iv):
    out, nxt = [], 0
    for a, b in iv:
        if a > nxt:
            out.append((nxt, a - 1))
        nxt = b + 1
    if nxt <= TOP:
        out.append((nxt, TOP))
    return tuple(out)


def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if out and out[-1][1] >= a - 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


CLASSES = {
    'alpha': norm(_iv(['AZ', 'az'])),
    'name': norm(_iv(['AZ', 'az', '09', '__', '--'])),
    'digit': norm(_iv(['09'])),
    'hex': norm(_iv(['09', 'AF', 'af'])),
    'octal': norm(_iv(['07'])),
    'blank': norm(_iv(['\t\t', '\n\n', '\r\r', '  '])),
    'notquote': complement(_iv(['""'])),
    'notnl': complement(_iv(['\n\n'])),
}

# the classes the reference grammar uses in a token
LEXCLASS = {'Identifier': ('alpha', 'name'), 'StringLit': ('notquote',), 'DecLit': ('digit',), 'HexLit': ('hex',), 'OctLit': ('octal',),
            'FloatValueLit': ('digit',), 'sp': ('notnl', 'blank')}

PRELUDE = r'''
pub struct In { pub at: int, pub s: Seq<int> }
pub enum Tree { Str(In), Int(int), Bool(bool), List(Seq<Tree>), Node(int, Seq<Tree>) }
// what a function under contract returned: a value and the rest, a recoverable error and its place, or neither
pub enum PRes { Ok(In, Tree), Err(In), Bad }
// what the reference grammar says
pub enum PR { Ok(In, Tree), Fail }

pub open spec fn ln(i: In) -> int { i.s.len() as int }
pub closed spec fn cat(i: In, k: int) -> int { i.s[k] }
pub closed spec fn adv(i: In, k: int) -> In { In { at: i.at + k, s: i.s.subrange(k, i.s.len() as int) } }
pub closed spec fn take(i: In, k: int) -> In { In { at: i.at, s: i.s.subrange(0, k) } }
pub closed spec fn sfx(b: In, a: In) -> bool { 0 <= b.at - a.at <= ln(a) && b == adv(a, b.at - a.at) }
pub closed spec fn slc(x: In, a: In) -> bool { 0 <= x.at - a.at && x.at - a.at + ln(x) <= ln(a) && x == take(adv(a, x.at - a.at), ln(x)) }
pub open spec fn seqeq(a: In, b: In) -> bool { a.s == b.s }
pub open spec fn nonempty(i: In) -> bool { ln(i) > 0 }
pub open spec fn byte0(c: int) -> int {
    if c < 0x80 { c } else if c < 0x800 { 0xC0 + c / 64 } else if c < 0x10000 { 0xE0 + c / 4096 }
    else if c < 0x110000 { 0xF0 + c / 262144 } else { 0xFF }
}
pub open spec fn clen(c: int) -> int { if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 } }
// length in bytes
pub closed spec fn blen(i: In) -> int
    decreases i.s.len()
{ if i.s.len() == 0 { 0 } else { clen(i.s[0]) + blen(In { at: i.at + 1, s: i.s.subrange(1, i.s.len() as int) }) } }
pub uninterp spec fn foreign(k: int) -> In;
// a byte inside the first character
pub uninterp spec fn contb(i: In, k: int) -> int;
pub open spec fn nid(t: Tree) -> int { match t { Tree::Node(n, _) => n, _ => -1 } }
pub open spec fn fld(t: Tree, k: int) -> Tree { match t { Tree::Node(_, f) => f[k], _ => arbitrary() } }
pub open spec fn as_in(t: Tree) -> In { match t { Tree::Str(i) => i, _ => arbitrary() } }
pub open spec fn as_int(t: Tree) -> int { match t { Tree::Int(i) => i, _ => arbitrary() } }
pub open spec fn as_bool(t: Tree) -> bool { match t { Tree::Bool(i) => i, _ => arbitrary() } }
pub open spec fn t_push(t: Tree, x: Tree) -> Tree { match t { Tree::List(l) => Tree::List(l.push(x)), _ => arbitrary() } }
pub open spec fn t_len(t: Tree) -> int { match t { Tree::List(l) => l.len() as int, _ => arbitrary() } }
pub open spec fn nil() -> Tree { Tree::List(seq![]) }

pub broadcast proof fn ax_adv_adv(i: In, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= ln(i)
    ensures #[trigger] adv(adv(i, a), b) == adv(i, a + b)
{ assert(adv(adv(i, a), b).s =~= adv(i, a + b).s); }
pub broadcast proof fn ax_adv_len(i: In, k: int)
    requires 0 <= k <= ln(i)
    ensures (#[trigger] adv(i, k)).s.len() == ln(i) - k, adv(i, k).at == i.at + k, sfx(adv(i, k), i)
{ }
pub broadcast proof fn ax_adv_zero(i: In)
    ensures #[trigger] adv(i, 0) == i
{ assert(adv(i, 0).s =~= i.s); }
pub broadcast proof fn ax_adv_cat(i: In, k: int, j: int)
    requires 0 <= k, 0 <= j, k + j < ln(i)
    ensures #[trigger] cat(adv(i, k), j) == cat(i, k + j)
{ }
pub broadcast proof fn ax_take_len(i: In, k: int)
    requires 0 <= k <= ln(i)
    ensures (#[trigger] take(i, k)).s.len() == k, take(i, k).at == i.at
{ }
pub broadcast proof fn ax_take_cat(i: In, k: int, j: int)
    requires 0 <= k <= ln(i), 0 <= j < k
    ensures #[trigger] cat(take(i, k), j) == cat(i, j)
{ }
pub broadcast proof fn ax_sfx_len(b: In, a: In)
    requires #[trigger] sfx(b, a)
    ensures ln(b) <= ln(a), ln(b) == ln(a) - (b.at - a.at), b.at >= a.at,
        ln(b) == ln(a) ==> b == a
{ if ln(b) == ln(a) { ax_adv_zero(a); } }
pub broadcast proof fn ax_sfx_trans(c: In, b: In, a: In)
    requires #[trigger] sfx(c, b), #[trigger] sfx(b, a)
    ensures sfx(c, a)
{ ax_adv_adv(a, b.at - a.at, c.at - b.at); }
pub broadcast proof fn ax_sfx_refl(a: In)
    ensures #[trigger] sfx(a, a)
{ ax_adv_zero(a); }
pub broadcast proof fn ax_slc(b: In, a: In, n: int)
    requires sfx(b, a), 0 <= n <= ln(b)
    ensures #[trigger] slc(take(b, n), a)
{ }
pub proof fn ax_blen(a: In)
    ensures blen(a) >= ln(a), ln(a) == 0 ==> blen(a) == 0, ln(a) > 0 ==> blen(a) == clen(cat(a, 0)) + blen(adv(a, 1))
    decreases ln(a)
{ if ln(a) > 0 { ax_blen(adv(a, 1)); } }
pub broadcast proof fn ax_blen_one(a: In)
    ensures (#[trigger] blen(a)) >= ln(a), ln(a) == 0 ==> blen(a) == 0
{ ax_blen(a); }
pub broadcast proof fn ax_blen_sfx(b: In, a: In)
    requires #[trigger] sfx(b, a)
    ensures (#[trigger] blen(a)) - (#[trigger] blen(b)) >= ln(a) - ln(b)
    decreases ln(a)
{
    ax_blen(a);
    if ln(a) > ln(b) { ax_adv_adv(a, 1, b.at - a.at - 1); ax_adv_len(a, 1); ax_blen_sfx(b, adv(a, 1)); } else { ax_adv_zero(a); }
}
pub broadcast group text_facts { ax_blen_one, ax_blen_sfx, ax_slc, ax_adv_adv, ax_adv_len, ax_adv_zero, ax_adv_cat, ax_take_len, ax_take_cat, ax_sfx_len, ax_sfx_trans, ax_sfx_refl }
@SPLIT@
// ---- whitespace and comments: one blank, one line comment or one block comment at a time
pub open spec fn trivia(i: In) -> int {
    if ln(i) > 0 && cls_blank(cat(i, 0)) { 1 }
    else if @TKLINE@(i) { 2 + span_notnl(adv(i, 2)) }
    else if @TKOPEN@(i) && @FLCLOSE@(adv(i, 2)) >= 0 { 4 + @FLCLOSE@(adv(i, 2)) }
    else { 0 }
}
#[verifier::opaque]
pub open spec fn ws(i: In) -> In
    decreases ln(i)
{
    if 0 < trivia(i) <= ln(i) { ws(adv(i, trivia(i))) } else { i }
}
pub broadcast proof fn lemma_ws(i: In)
    ensures sfx(#[trigger] ws(i), i)
    decreases ln(i)
{
    reveal_with_fuel(ws, 2);
    if 0 < trivia(i) <= ln(i) { lemma_ws(adv(i, trivia(i))); }
}
pub proof fn lemma_ws_run(i: In)
    ensures ws(adv(i, span_blank(i))) == ws(i)
    decreases ln(i)
{
    reveal_with_fuel(span_blank, 2);
    reveal_with_fuel(ws, 2);
    lemma_span_blank(i);
    if ln(i) > 0 && cls_blank(cat(i, 0)) {
        lemma_span_blank(adv(i, 1));
        lemma_ws_run(adv(i, 1));
        ax_adv_adv(i, 1, span_blank(adv(i, 1)));
    }
}
'''


def ident(s):
    return ''.join(c if c.isalnum() else '_' for c in s)


class Gen:
    def __init__(self, ev, results):
        self.E, self.results = ev, results
        self.ids = {}
        self.lits = {}
        self.classes = dict((iv, n) for n, iv in CLASSES.items())
        self.lines = []
        self.where = []         # per line: (function key, obligation text) or None
        self.tname = {}
        self.cur = None
        self.rank = None
        self.funcs = []
        self.nobl = 0
        self.dropinv = set()
        self.canary = False     # assert(false) before every success: see Run.vacuous
        self.unfold = False     # may definitions of constituents be used?
        self.usedpred = {}
        self.invline = {}
        self.sizes = {}

    # ---- output with provenance
    def w(self, text, obl=None):
        for l in text.split('\n'):
            self.lines.append(l)
            self.where.append((self.cur, obl))

    # ---- names
    def tn(self, t):
        if t not in self.tname:
            base = ident(G.tstr(t).replace('term::', 'k_'))
            n = base
            k = 2
            while n in self.tname.values():
                n = '%s_%d' % (base, k)
                k += 1
            self.tname[t] = n
        return self.tname[t]

    def nodeid(self, name):
        if name not in self.ids:
            self.ids[name] = len(self.ids) + 1
        return self.ids[name]

    def lit(self, text):
        if text not in self.lits:
            self.lits[text] = 'l%d' % len(self.lits)
        return self.lits[text]

    def cls(self, iv):
        if iv not in self.classes:
            self.classes[iv] = 'x%d' % len(self.classes)
        return self.classes[iv]

    def node(self, name, fields):
        return 'Tree::Node(%d, seq![%s])' % (self.nodeid(name), ', '.join(fields))

    def node_named(self, t, named):
        """Node of a struct from [(field name, expr)] (fields in name order)."""
        return self.node(t[0] if t[0] != 'tuple' else 'tuple%d' % (len(t) - 1), [e for _, e in sorted(named)])

    # ---- expressions of residual values
    def ex(self, v):
        k = v[0]
        if k == 'int':
            return str(v[1]) if v[1] >= 0 else '(%d)' % v[1]
        if k == 'bool':
            return 'true' if v[1] else 'false'
        if k == 'sym':
            return v[1]
        if k == 'str':
            return 'foreign(%d)' % self.nodeid('"' + v[1])
        if k == 'app':
            o, a = v[1], v[3:]
            if o == 'sum':
                parts = []
                for at, n in a[1:]:
                    x = self.ex(at)
                    parts.append(x if n == 1 else '(%d) * %s' % (n, x))
                if a[0]:
                    parts.append(str(a[0]) if a[0] > 0 else '(%d)' % a[0])
                return '(' + ' + '.join(parts) + ')'
            if o == 'boff':
                b, off = R.base_off(a[0])
                if R.add(off, a[1]) == ('app', 'len', 'Int', b):
                    return 'blen(%s)' % self.ex(a[0])
                return '(blen(%s) - blen(%s))' % (self.ex(a[0]), self.ex(R.adv(a[0], a[1])))
            if o in ('adv', 'take', 'cat', 'clen', 'byte0', 'sfx', 'seqeq', 'nonempty'):
                return '%s(%s)' % (o, ', '.join(self.ex(x) for x in a))
            if o == 'at':
                return '%s.at' % self.ex(a[0])
            if o == 'mid':
                return self.ex(a[1])
            if o == 'cont':
                return 'contb(%s, %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'len':
                return 'ln(%s)' % self.ex(a[0])
            if o == 'inlen':
                return '(0 <= %s <= ln(%s))' % (self.ex(a[1]), self.ex(a[0]))
            if o == 'ascii':
                s, n = self.ex(a[0]), a[1][1]
                return '(%s)' % ' && '.join(['%d <= ln(%s)' % (n, s)] + ['cat(%s, %d) < 128' % (s, j) for j in range(n)])
            if o in ('nspan', 'span'):
                iv = self.pred_iv(a[0])
                return 'span_%s(%s)' % (self.cls(complement(iv) if o == 'nspan' else iv), self.ex(a[1]))
            if o == 'found':
                return '(%s < ln(%s))' % (self.ex(a[1]), self.ex(a[0]))
            if o == 'findlit':
                return 'fl_%s(%s)' % (self.lit(a[1]), self.ex(a[0]))
            if o == 'foundlit':
                return '(fl_%s(%s) >= 0)' % (self.lit(a[1]), self.ex(a[0]))
            if o == 'starts':
                return 'tk_%s(%s)' % (self.lit(a[1]), self.ex(a[0]))
            if o == 'iseqlit':
                return '(tk_%s(%s) && ln(%s) == %d)' % (self.lit(a[1]), self.ex(a[0]), self.ex(a[0]), len(a[1]))
            if o == 'cmpinc':
                s = self.ex(a[0])
                return '(ln(%s) < %d%s)' % (s, len(a[1]), ''.join(
                    ' && (%d < ln(%s) ==> cat(%s, %d) == %d)' % (j, s, s, j, ord(c)) for j, c in enumerate(a[1])))
            if o == 'eq':
                return '(%s == %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'lt':
                return '(%s < %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'le':
                return '(%s <= %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'and':
                return '(%s && %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'or':
                return '(%s || %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'xor':
                return '(%s != %s)' % (self.ex(a[0]), self.ex(a[1]))
            if o == 'not':
                return '!%s' % self.ex(a[0])
            if o == 'mod':
                return '(%s %% %d)' % (self.ex(a[0]), a[1])
            if o == 'ite':
                return '(if %s { %s } else { %s })' % (self.ex(a[0]), self.ex(a[1]), self.ex(a[2]))
            if o == 'isvar':
                return '(nid(%s) == %d)' % (self.ex(a[0]), self.nodeid(self.E.p.nodekey(a[1], a[2])[0]))
            if o == 'fld':
                x = 'fld(%s, %d)' % (self.ex(a[0]), a[1])
                return {'Tree': x, 'In': 'as_in(%s)' % x, 'Int': 'as_int(%s)' % x, 'Bool': 'as_bool(%s)' % x}[v[2]]
            if o == 'nil':
                return 'nil()'
            if o == 'push':
                return 't_push(%s, %s)' % (self.ex(a[0]), self.tree(a[1]))
            if o == 'vlen':
                return 't_len(%s)' % self.ex(a[0])
        raise Unsupported('expression %r' % (v[:2],))

    def pred_iv(self, pid):
        for iv, k in self.E.preds.items():
            if k == pid:
                return iv
        raise Unsupported('unknown predicate')

    def tree(self, v):
        """A residual value as a Tree expression."""
        k = v[0]
        if k == 'adt':
            name, order = self.E.p.nodekey(v[1], v[2])
            return self.node(name, [self.tree(v[3][j]) for j in order])
        if k == 'int':
            return 'Tree::Int(%d)' % v[1]
        if k == 'bool':
            return 'Tree::Bool(%s)' % self.ex(v)
        if k == 'str':
            return 'Tree::Str(%s)' % self.ex(v)
        if k in ('sym', 'app'):
            x = self.ex(v)
            return {'Tree': x, 'In': 'Tree::Str(%s)' % x, 'Int': 'Tree::Int(%s)' % x, 'Bool': 'Tree::Bool(%s)' % x}[v[2]]
        raise Unsupported('tree of %r' % (k,))

    # ---- reference grammar --------------------------------------------------
    def spec_body(self, t):
        n = t[0]
        if n.startswith('term::'):
            nm = n[6:]
            text = G.PUNCT.get(nm) or G.KEYWORDS[nm]
            c = 'tk_%s(a)' % self.lit(text)
            if nm in G.KEYWORDS:
                c += ' && !(ln(a) > %d && cls_name(cat(a, %d)))' % (len(text), len(text))
            return '{ let a = ws(i); if %s { PR::Ok(ws(adv(a, %d)), %s) } else { PR::Fail } }' % (c, len(text), self.node(n, []))
        if n in G.LEX:
            return self.spec_lex(n)
        if n == 'BooleanLit':
            t1, f1 = self.tn(('term::True',)), self.tn(('term::False',))
            return ('match g_%s(i) { PR::Ok(r, _v) => PR::Ok(r, %s), PR::Fail => match g_%s(i) { PR::Ok(r, _v) => PR::Ok(r, %s), PR::Fail => PR::Fail } }'
                    % (t1, self.node(n, ['Tree::Bool(true)']), f1, self.node(n, ['Tree::Bool(false)'])))
        if n == 'Option':
            return ('match g_%s(i) { PR::Ok(r, v) => PR::Ok(r, %s), PR::Fail => PR::Ok(i, %s) }'
                    % (self.tn(t[1]), self.node('Option::Some', ['v']), self.node('Option::None', [])))
        if n == 'Box':
            return 'g_%s(i)' % self.tn(t[1])
        if n == 'Vec':
            return 'gm_%s(i, nil())' % self.tn(t[1])
        if n in G.SEPS:
            ne = G.SEPS[n][1]
            T, S = self.tn(t[1]), self.tn(t[2])
            sepdef = self.default_sep(t[2])

            def fin(r, l):
                return 'PR::Ok(%s, %s)' % (r, self.node(n, [l, sepdef]))   # fields: list, separator
            first = 'PR::Fail' if ne else fin('i', 'nil()')
            if ne:
                tail = ('match gs_%s(i1, t_push(nil(), v)) { PR::Fail => PR::Fail, PR::Ok(r, l) => if ln(r) < ln(i) { match g_%s(r) { PR::Ok(r2, _s) => %s, PR::Fail => %s } } else { PR::Fail } }'
                        % (self.tn(t), S, fin('r2', 'l'), fin('r', 'l')))
            else:
                tail = ('match gs_%s(i1, t_push(nil(), v)) { PR::Fail => PR::Fail, PR::Ok(r, l) => %s }'
                        % (self.tn(t), fin('r', 'l')))
            return 'match g_%s(i) { PR::Fail => %s, PR::Ok(i1, v) => if ln(i1) < ln(i) { %s } else { PR::Fail } }' % (T, first, tail)
        vs = G.variants(t)
        if vs is not None:
            s = 'PR::Fail'
            for vn, vt in reversed(vs):
                s = 'match g_%s(i) { PR::Ok(r, v) => PR::Ok(r, %s), PR::Fail => %s }' % (
                    self.tn(vt), self.node('%s::%s' % (n, vn), ['v']), s)
            return s
        fs = G.fields(t)
        assert fs is not None, t
        done = [(f, 'v%d' % k) for k, (f, _) in enumerate(fs)]
        s = 'PR::Ok(i%d, %s)' % (len(fs), self.node_named(t, done))
        advanced = []
        a = False
        for f, ft in fs:
            advanced.append(a)
            a = a or not G.nullable(ft)
        for k in range(len(fs) - 1, -1, -1):
            f, ft = fs[k]
            src = 'i' if k == 0 else 'i%d' % k
            call = 'g_%s(%s)' % (self.tn(ft), src)
            if n == 'SingleArgument' and f == 'default':
                call = 'if nid(v1) == %d { %s } else { PR::Ok(%s, %s) }' % (
                    self.nodeid('Option::Some'), call, src, self.node('Option::None', []))
                call = '(%s)' % call
            m = 'match %s { PR::Fail => PR::Fail, PR::Ok(i%d, v%d) => %s }' % (call, k + 1, k, s)
            if k > 0:
                m = 'if ln(%s) %s ln(i) { %s } else { PR::Fail }' % (src, '<' if advanced[k] else '<=', m)
            s = m
        return s

    def default_sep(self, t):
        if t[0].startswith('term::') or t[0] in G.ABSTRACT:
            return self.node(t[0], [])
        raise AssertionError(t)

    def spec_lex(self, n):
        def ok(rest, val):
            return 'PR::Ok(ws(adv(a, %s)), %s)' % (rest, self.node(n, ['Tree::Str(%s)' % val]))
        has = 'ln(a) > %s'
        if n == 'Identifier':
            return ("{ let a = ws(i); let u: int = if ln(a) > 0 && cat(a, 0) == 95 { 1 } else { 0 }; let p = span_alpha(adv(a, u));"
                    " let q = span_name(adv(a, u + p)); if p > 0 { %s } else { PR::Fail } }"
                    % ok('u + p + q', 'take(adv(a, u), p + q)'))
        if n == 'StringLit':
            return ("{ let a = ws(i); let q = span_notquote(adv(a, 1)); if ln(a) > 0 && cat(a, 0) == 34 && 1 + q < ln(a) { %s } else { PR::Fail } }"
                    % ok('q + 2', 'take(adv(a, 1), q)'))
        m = "let a = ws(i); let m: int = if ln(a) > 0 && cat(a, 0) == 45 { 1 } else { 0 };"
        if n == 'DecLit':
            return ("{ %s let d = span_digit(adv(a, m + 1)); if ln(a) > m && 49 <= cat(a, m) <= 57 { %s } else { PR::Fail } }"
                    % (m, ok('m + 1 + d', 'take(a, m + 1 + d)')))
        if n == 'HexLit':
            return ("{ %s let d = span_hex(adv(a, m + 2)); if ln(a) > m + 1 && cat(a, m) == 48 && (cat(a, m + 1) == 120 || cat(a, m + 1) == 88) && d > 0 { %s } else { PR::Fail } }"
                    % (m, ok('m + 2 + d', 'take(a, m + 2 + d)')))
        if n == 'OctLit':
            return ("{ %s let d = span_octal(adv(a, m + 1)); if ln(a) > m && cat(a, m) == 48 { %s } else { PR::Fail } }"
                    % (m, ok('m + 1 + d', 'take(a, m + 1 + d)')))
        if n == 'FloatValueLit':
            return ("{ %s let p = span_digit(adv(a, m)); let dot = m + p < ln(a) && cat(a, m + p) == 46; "
                    "let f: int = if dot { span_digit(adv(a, m + p + 1)) } else { 0 };"
                    " let k: int = if dot { m + p + 1 + f } else { m + p }; let x = expo(a, k);"
                    " if dot && p + f > 0 { %s } else if !dot && p > 0 && x > 0 { %s } else { PR::Fail } }"
                    % (m, ok('k + x', 'take(a, k + x)'), ok('k + x', 'take(a, k + x)')))
        raise AssertionError(n)

    EXPO = '''
// length of an exponent ([Ee][+-]?[0-9]+) at position k, 0 if there is none
pub open spec fn expo(a: In, k: int) -> int {
    if k < ln(a) && (cat(a, k) == 101 || cat(a, k) == 69) {
        let s: int = if k + 1 < ln(a) && (cat(a, k + 1) == 43 || cat(a, k + 1) == 45) { 1 } else { 0 };
        let d = span_digit(adv(a, k + 1 + s));
        if d > 0 { 1 + s + d } else { 0 }
    } else { 0 }
}'''

    # ---- contracts
    def strict(self, t):
        return not G.nullable(t)

    def shape(self, t, v):
        if t[0] == 'Option':
            names = ['Option::None', 'Option::Some']
        elif G.variants(t) is not None:
            names = ['%s::%s' % (t[0], vn) for vn, _ in G.variants(t)]
        elif t[0] == 'Box':
            return self.shape(t[1], v)
        else:
            return None
        return '(' + ' || '.join('nid(%s) == %d' % (v, self.nodeid(n)) for n in names) + ')'

    def ensures(self, key, i='i', r='r', own=False):
        """The contract of a function: list of (label, formula).  A function's own
        contract names the body of its reference definition (b_*), a caller sees
        the defined name (g_*); the two are equal by definition."""
        k = key[0]
        if k == 'sp':
            return [('succeeds', '%s is Ok' % r),
                    ('skips exactly the whitespace and comments', '%s is Ok ==> %s->Ok_0 == ws(%s)' % (r, r, i)),
                    ('yields the skipped slice', '%s is Ok ==> %s->Ok_1 == Tree::Str(take(%s, ws(%s).at - %s.at))' % (r, r, i, i, i)),
                    ('rest is a tail of the input', '%s is Ok ==> sfx(%s->Ok_0, %s)' % (r, r, i))]
        if k in ('parse', 'term'):
            t = key[1]
            g = '%s_%s(%s)' % ('b' if own and t[0] not in G.ABSTRACT else 'g', self.tn(t), i)
            out = [('fails only recoverably', '!(%s is Bad)' % r),
                   ('accepts with the tree and rest the reference grammar prescribes',
                    '%s is Ok ==> %s == PR::Ok(%s->Ok_0, %s->Ok_1)' % (r, g, r, r)),
                   ('rejects only what the reference grammar rejects', '%s is Err ==> %s is Fail' % (r, g)),
                   ('rest is a tail of the input', '%s is Ok ==> sfx(%s->Ok_0, %s)' % (r, r, i)),
                   ('error lies inside the input', '%s is Err ==> sfx(%s->Err_0, %s)' % (r, r, i))]
            if G.loose(t):
                return [x for x in out if 'reference grammar' not in x[0]]
            if t[0] in G.LEX:
                out.append(('text is a slice of the input', '%s is Ok ==> slc(as_in(fld(%s->Ok_1, 0)), %s)' % (r, r, i)))
            if self.strict(t):
                out.append(('consumes something', '%s is Ok ==> ln(%s->Ok_0) < ln(%s)' % (r, r, i)))
            sh = self.shape(t, '%s->Ok_1' % r)
            if sh:
                out.append(('value is one of its alternatives', '%s is Ok ==> %s' % (r, sh)))
            return out
        if k == 'whole':
            g = 'g_%s(%s)' % (self.tn(G.tparse('Definitions')), i)
            return [('fails only recoverably', '!(%s is Bad)' % r),
                    ('success means the whole text was read, with every definition in order',
                     '%s is Ok ==> (%s is Ok && %s->Ok_1 == %s->Ok_1 && ln(ws(%s->Ok_0)) == 0)' % (r, g, r, g, g)),
                    ('an error points at the first unparsed text',
                     '%s is Err ==> ((%s is Fail && sfx(%s->Err_0, %s)) || (%s is Ok && ln(ws(%s->Ok_0)) > 0 && %s->Err_0 == ws(%s->Ok_0)))'
                     % (r, g, r, i, g, g, r, g))]
        if k == 'from':
            x = 'x'
            return [('yields exactly that alternative holding exactly that value',
                     '%s == %s' % (r, self.node('%s::%s' % (key[1][0], key[2]), [x])))]
        if k == 'lib' and key[1] == 'len_utf8':
            return [('as many bytes as UTF-8 takes', '%s == Tree::Int(clen(c))' % r)]
        if k == 'lib' and key[1] == 'find_token':
            return [('true exactly for the characters of the set', '%s == Tree::Bool(%s)' % (
                r, ' || '.join('c == %d' % ord(c) for c in key[2]) or 'false'))]
        if k == 'lib':
            x, inp = self.ex(('app', 'starts', 'Bool', ('sym', i, 'In'), key[2])), self.ex(('app', 'cmpinc', 'Bool', ('sym', i, 'In'), key[2]))
            return [('equal exactly if the text starts with it', '(%s == Tree::Int(0)) == %s' % (r, x)),
                    ('short exactly if the text is a beginning of it', '(%s == Tree::Int(1)) == %s' % (r, inp)),
                    ('different otherwise', '%s == Tree::Int(0) || %s == Tree::Int(1) || %s == Tree::Int(2)' % (r, r, r))]
        raise AssertionError(key)

    def pname(self, key):
        if key[0] == 'sp':
            return 'p_sp'
        if key[0] == 'parse':
            return 'p_' + self.tn(key[1])
        if key[0] == 'term':
            return 'pt_' + self.tn(key[1])
        if key[0] == 'whole':
            return 'p_whole'
        if key[0] == 'lib':
            return 'pl_%s_%s' % (key[1], self.lit(key[2])) if key[2] else 'pl_' + key[1]
        return 'pf_%s_%s' % (key[1][0], key[2])

    def measure(self, key):
        if key[0] == 'sp':
            return 0
        if key[0] == 'parse':
            return self.rank[key[1]] * 2
        return 1000000

    # ---- bodies
    def ret(self, key, v):
        if key[0] == 'from':
            return self.tree(v)
        if key[0] == 'lib' and key[1] in ('find_token', 'len_utf8'):
            return self.tree(v)
        if key[0] == 'lib':
            if v[0] != 'adt':
                raise Unsupported('returns an opaque result')
            return 'Tree::Int(%d)' % ['Ok', 'Incomplete', 'Error'].index(self.E.p.types[v[1]]['variants'][v[2]]['name'])
        kind = self.E.sp[1] if key[0] == 'sp' else None
        if kind == 'rest':
            x = self.ex(v)
            return 'PRes::Ok(%s, Tree::Str(take(i, %s.at - i.at)))' % (x, x)
        if v[0] != 'adt':
            raise Unsupported('returns an opaque result')
        vn = self.E.p.types[v[1]]['variants'][v[2]]['name']
        if vn == 'Ok':
            p = v[3][0]
            if key[0] == 'whole':
                return 'PRes::Ok(i, %s)' % self.tree(p)
            if p[0] != 'adt':
                raise Unsupported('returns an opaque pair')
            if kind == 'unit':
                x = self.ex(p[3][0])
                return 'PRes::Ok(%s, Tree::Str(take(i, %s.at - i.at)))' % (x, x)
            return 'PRes::Ok(%s, %s)' % (self.ex(p[3][0]), self.tree(p[3][1]))
        e = v[3][0]
        if e[0] != 'adt':
            raise Unsupported('returns an opaque error')
        en = self.E.p.types[e[1]]['variants'][e[2]]['name']
        if en != 'Error':
            return 'PRes::Bad'
        p = e[3][0]
        if p[0] != 'adt':
            raise Unsupported('returns an opaque error')
        return 'PRes::Err(%s)' % self.ex(p[3][0])

    PART = 24        # a subtree of at most this many nodes is one query

    def size(self, t):
        if t not in self.sizes:
            n = self.E.T.n[t]
            kids = {'obl': n[3:4], 'if': n[2:4], 'call': [x for x in n[6:8] if x is not None]}.get(n[0], ()) \
                if n[0] in ('obl', 'if', 'call') else ()
            self.sizes[t] = 1 + sum(self.size(k) for k in kids)
        return self.sizes[t]

    def part(self, key, t, ind, res, ctx):
        """A subtree as a function of its own: what is known on the path to it
        becomes its precondition (checked where it is called)."""
        p = '    ' * ind
        ck = (t, tuple(f for f, _ in ctx))
        syms = set()
        self._uses = set()
        self.tree_syms(t, syms, None)
        for u in self._uses:
            syms |= set(self.loop_params(res, u)) - set(res.loops[u]['vars'])
        for _, fs in ctx:
            syms |= fs
        syms.add(('sym', 'i', 'In'))
        ps = sorted(syms, key=lambda s: (s[1] != 'i', s[1]))
        self.nparts += 1
        name = '%s_part%d' % (self.pname(key), self.nparts)
        self.w(p + '%s(%s)' % (name, ', '.join(s[1] for s in ps)), 'path facts')
        self.parts.append((name, ps, t, ctx))

    def body(self, key, t, ind, res, ctx, big=None):
        n = self.E.T.n[t]
        p = '    ' * ind
        if big is None:
            big = self.size(t) > self.PART
        if big and key[0] not in ('from', 'lib') and self.size(t) <= self.PART and self.size(t) > 1:
            return self.part(key, t, ind, res, ctx)

        def cond(e, pos):
            s = set()
            self.syms(e, s)
            return ctx + [(self.ex(e) if pos else '!' + self.ex(e), s)]

        def callfact(f):
            s = set()
            self.syms(f[2:], s)
            return ctx + [(self.fact(f), s)]
        if n[0] == 'ret':
            r = self.ret(key, n[1])
            if self.canary and (key[0] in ('from', 'lib') or r.startswith('PRes::Ok')):
                self.w(p + 'assert(false);', 'canary')
            self.w(p + r, 'result')
        elif n[0] == 'panic':
            self.nobl += 1
            self.w(p + 'assert(false); PRes::Bad' if key[0] not in ('from', 'lib') else p + 'assert(false); nil()', 'never panics: ' + str(n[1]))
        elif n[0] == 'obl':
            self.nobl += 1
            self.w(p + 'assert(%s);' % self.ex(n[1]), 'never panics: ' + n[2])
            self.body(key, n[3], ind, res, cond(n[1], True), big)
        elif n[0] == 'if':
            self.w(p + 'if %s {' % self.ex(n[1]))
            self.body(key, n[2], ind + 1, res, cond(n[1], True), big)
            self.w(p + '} else {')
            self.body(key, n[3], ind + 1, res, cond(n[1], False), big)
            self.w(p + '}')
        elif n[0] == 'call':
            _, c, arg, rem, val, epos, okt, errt = n
            x = self.ex(arg)
            self.nobl += 1
            if self.measure(c) < self.measure(key):
                self.w(p + 'assert(ln(%s) <= ln(i));' % x, 'terminates: call of %s' % R.cname(c))
            else:
                self.w(p + 'assert(ln(%s) < ln(i));' % x, 'terminates: call of %s only after reading something' % R.cname(c))
            self.w(p + 'match c_%s(%s) {' % (self.pname(c), x))
            vn = val[1] + '_t' if val[2] != 'Tree' else val[1]
            self.w(p + '  PRes::Ok(%s, %s) => {' % (rem[1], vn))
            if val[2] != 'Tree':
                self.w(p + '    let %s = %s(%s);' % (val[1], {'In': 'as_in', 'Int': 'as_int', 'Bool': 'as_bool'}[val[2]], vn))
            self.body(key, okt, ind + 1, res, callfact(('callok', c, arg, rem, val)), big)
            self.w(p + '  },')
            if errt is not None:
                self.w(p + '  PRes::Err(%s) => {' % epos[1])
                self.body(key, errt, ind + 1, res, callfact(('callerr', c, arg, epos)), big)
                self.w(p + '  },')
                self.w(p + '  PRes::Bad => PRes::Bad,')
            else:
                self.w(p + '  _ => PRes::Bad,')
            self.w(p + '}')
        elif n[0] == 'loop':
            lid = n[1]
            args = dict(n[2])
            self.nobl += 1
            free = self.loop_params(res, lid)
            self.w(p + '%s(%s)' % (self.loop_name(key, res, lid), ', '.join(
                self.coerce(args[s], s[2]) if s in args else s[1] for s in free)), 'loop invariant and progress')
        else:
            raise Unsupported('residual node %s' % n[0])

    def coerce(self, v, sort):
        return self.tree(v) if sort == 'Tree' else self.ex(v)

    def loop_name(self, key, res, lid):
        return '%s_loop%d' % (self.pname(key), sorted(res.loops).index(lid))

    def syms(self, x, out):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'sym':
                out.add(x)
                return
            for y in x:
                self.syms(y, out)

    def tree_syms(self, t, out, bound):
        n = self.E.T.n[t]
        if n[0] == 'ret':
            self.syms(self.strip_kinds(n[1]), out)
        elif n[0] == 'obl':
            self.syms(n[1], out)
            self.tree_syms(n[3], out, bound)
        elif n[0] == 'if':
            self.syms(n[1], out)
            self.tree_syms(n[2], out, bound)
            self.tree_syms(n[3], out, bound)
        elif n[0] == 'call':
            self.syms(n[2], out)
            inner = set()
            self.tree_syms(n[6], inner, bound)
            out |= inner - {n[3], n[4]}
            if n[7] is not None:
                inner = set()
                self.tree_syms(n[7], inner, bound)
                out |= inner - {n[5]}
        elif n[0] == 'loop':
            for s, v in n[2]:
                self.syms(v, out)
            self._uses.add(n[1])

    def strip_kinds(self, v):
        """Drop the error kind (not part of any contract) from a returned error."""
        if v[0] == 'adt' and self.E.p.types[v[1]]['k'] == 'adt' and self.E.p.types[v[1]]['variants'][v[2]]['name'] == 'Error' \
                and v[3] and v[3][0][0] == 'adt':
            return v[3][0][3][0]
        if v[0] == 'adt':
            return tuple(self.strip_kinds(x) for x in v[3])
        return v

    def loop_params(self, res, lid):
        if not hasattr(res, 'params'):
            res.params = {}
            ids = list(res.loops)
            direct, uses = {}, {}
            for l in ids:
                s = set()
                self._uses = set()
                self.tree_syms(res.loops[l]['tree'], s, None)
                for f in res.loops[l]['facts']:
                    if f[0] == 'cond':
                        self.syms(f[1], s)
                    elif f[0] == 'callok':
                        self.syms(f[2:5], s)
                    elif f[0] == 'callerr':
                        self.syms(f[2:4], s)
                for u in [l] + self.outer(res, l):
                    s |= set(res.loops[u]['vars'])
                    for v in list(res.loops[u]['init'].values()) + res.loops[u]['pos']:
                        self.syms(v, s)
                direct[l], uses[l] = s, set(self._uses)
            ch = True
            while ch:
                ch = False
                for l in ids:
                    for u in uses[l]:
                        if u == l:
                            continue
                        extra = direct[u] - set(res.loops[u]['vars'])
                        if not extra <= direct[l]:
                            direct[l] |= extra
                            ch = True
            for l in ids:
                ps = direct[l] | set(res.loops[l]['vars']) | {('sym', 'i', 'In')}
                res.params[l] = sorted(ps, key=lambda s: (s[1] != 'i', s[1]))
        return res.params[lid]

    def outer(self, res, lid):
        return [u for u in res.loops[lid]['outer'] if u in res.loops]

    def measure_of(self, res, lid):
        lp = res.loops[lid]
        main = [s for s in lp['vars'] if s[2] == 'In']
        inside = {w: j for w, _, j in lp['pos'] if j}
        return ' + '.join('blen(%s) - %s' % (s[1], inside[s][1]) if s in inside else 'ln(%s)' % s[1] for s in main) or 'ln(i)'

    def fact(self, f):
        if f[0] == 'cond':
            e = self.ex(f[1])
            return e if f[2] else '!' + e
        if f[0] == 'callok':
            _, c, arg, rem, val = f
            a = self.ex(arg)
            if c[0] == 'sp':
                return '%s == ws(%s) && %s == take(%s, %s.at - %s.at) && sfx(%s, %s)' % (
                    rem[1], a, val[1], a, rem[1], a, rem[1], a)
            s = 'g_%s(%s) == PR::Ok(%s, %s) && sfx(%s, %s)' % (self.tn(c[1]), a, rem[1], self.tree(val), rem[1], a)
            if self.strict(c[1]):
                s += ' && ln(%s) < ln(%s)' % (rem[1], a)
            sh = self.shape(c[1], val[1])
            if sh:
                s += ' && ' + sh
            return s
        if f[0] == 'callerr':
            _, c, arg, e = f
            a = self.ex(arg)
            return 'g_%s(%s) is Fail && sfx(%s, %s)' % (self.tn(c[1]), a, e[1], a)
        raise AssertionError(f)

    def reveals(self, key):
        out = []
        ts = []
        if key[0] in ('parse',):
            ts = [key[1]]
        if self.unfold:
            ts = ts + [t for t in self.unfolded(key) if t not in ts]
            if self.lexical(key):
                rel = list(LEXCLASS['sp' if key == ('sp',) else key[1][0]])
                for pid in self.results[key].preds:
                    iv = self.pred_iv(pid)
                    rel += [self.cls(iv), self.cls(complement(iv))]
                for lp in dict.fromkeys(rel):
                    out.append(('span_' + lp, 2 if self.results[key].loops else 4))
        for t in ts:
            if t[0] == 'Vec':
                out.append(('gm_' + self.tn(t[1]), 2))
            if t[0] in G.SEPS:
                out.append(('gs_' + self.tn(t), 2))
        return out

    def lexical(self, key):
        return key == ('sp',) or (key[0] == 'parse' and key[1][0] in G.LEX)

    def unfolded(self, key):
        """Constructs whose definitions the proof of this function may use when
        the names alone do not suffice (alternatives tried in another order,
        a constituent parsed in place): its constituents, and what decides
        whether an alternative matches."""
        out = []

        def first(t, depth):
            # down to the tokens an alternative starts with
            if t in out or depth > 6 or t[0] in G.ABSTRACT:
                return
            if G.nullable(t) and depth:
                return
            out.append(t)
            if t[0] in G.SEPS or t[0] == 'Vec':
                return
            if G.fields(t) is not None:
                for _, f in G.fields(t):
                    first(f, depth + 1)
                    if not G.nullable(f):
                        break
            else:
                for x in G.subs(t):
                    first(x, depth + 1)
        if key[0] == 'whole':
            out.append(G.tparse('Definitions'))
        if key[0] == 'parse':
            t = key[1]
            if G.variants(t) is not None or t[0] == 'BooleanLit':
                for x in G.subs(t):
                    first(x, 0)
            else:
                for x in G.subs(t):
                    if x not in out and x[0] not in G.ABSTRACT:
                        out.append(x)
        return out

    def invariants(self, key, res, lid):
        lp = res.loops[lid]
        ins = [s for s in lp['vars'] if s[2] == 'In']
        trees = [s for s in lp['vars'] if s[2] == 'Tree']
        out = []
        for s in ins:
            c = self.ex(lp['init'][s])
            out.append(('stays within the text', 'sfx(%s, %s)' % (s[1], c)))
            if key[0] == 'sp':
                out.append(('skipped only whitespace and comments', 'ws(%s) == ws(%s)' % (s[1], c)))
            if self.unfold and self.lexical(key):
                out.append(('stays within the text', '%s == adv(%s, %s.at - (%s).at)' % (s[1], c, s[1], c)))
                for n in LEXCLASS[key[1][0] if key[0] == 'parse' else 'sp']:
                    out.append(('a run of characters ends where it did', '%s.at + span_%s(%s) == (%s).at + span_%s(%s)' % (s[1], n, s[1], c, n, c)))
                    if key[0] == 'parse':
                        out.append(('starts with such a character', '%s.at > (%s).at ==> cls_%s(cat(%s, 0))' % (s[1], c, n, c)))
            hs = []
            if key[0] == 'parse' or (key[0] == 'whole' and self.unfold):
                for x in [key[1]] + G.subs(key[1]) if key[0] == 'parse' else [G.tparse('Definitions')]:
                    if x[0] == 'Vec':
                        hs.append('gm_' + self.tn(x[1]))
                    if x[0] in G.SEPS:
                        hs.append('gs_' + self.tn(x))
            for a in trees:
                a0 = self.tree(lp['init'][a])
                for h in hs:
                    out.append(('elements so far are the elements of the list', '%s(%s, %s) == %s(%s, %s)' % (h, s[1], a[1], h, c, a0)))
        for a in trees:
            if lp['init'][a] == ('app', 'nil', 'Tree') or lp['init'][a][:2] == ('app', 'push'):
                out.append(('collects a list', '%s is List' % a[1]))
        keep = []
        for w, B, j in lp['pos']:
            keep.append(('model: position in a text', 'sfx(%s, %s)' % (w[1], self.ex(B))))
            if j:
                keep.append(('model: position in a text', '0 <= %s && (%s > 0 ==> ln(%s) > 0 && %s < clen(cat(%s, 0)))' % (j[1], j[1], w[1], j[1], w[1])))
        for k, (lab, f) in enumerate(out):
            if (self.pname(key), lid, f) not in self.dropinv:
                keep.append((lab, f))
        return keep

    def func(self, key, res):
        self.cur = key
        self.funcs.append(key)
        name = self.pname(key)
        rt = 'Tree' if key[0] in ('from', 'lib') else 'PRes'
        ens = self.ensures(key, own=key[0] == 'parse')
        par = 'i: In'
        if key[0] == 'from':
            par = 'x: Tree'
        if key[:2] in (('lib', 'find_token'), ('lib', 'len_utf8')):
            par = 'c: int'
        rev = ''.join(' reveal_with_fuel(%s, %d);' % r for r in self.reveals(key))
        if key[:2] == ('lib', 'compare'):
            rev += ' ax_blen(i);' + ''.join(' ax_blen(adv(i, %d));' % (n + 1) for n in range(len(key[2])))
        self.w('#[verifier::rlimit(@RLIMIT@)]')
        self.w('pub proof fn %s(%s) -> (r: %s)' % (name, par, rt))
        self.w('    ensures')
        for lab, f in ens:
            self.nobl += 1
            self.w('        (%s),' % f, lab)
        self.w('{%s' % rev)
        self.nparts = 0
        self.parts = []
        self.body(key, res.tree, 1, res, [])
        self.w('}')
        self.emit_parts(key, res, rt, ens, rev, '')
        for lid in sorted(res.loops):
            lp = res.loops[lid]
            ps = self.loop_params(res, lid)
            ctx = []
            self.w('#[verifier::rlimit(@RLIMIT@)]')
            self.w('pub proof fn %s(%s) -> (r: %s)' % (self.loop_name(key, res, lid), self.plist(ps), rt))
            self.w('    requires')
            for f in lp['facts']:
                x = self.fact(f)
                self.w('        (%s),' % x, 'path fact')
                ctx.append((x, set()))
            for u in self.outer(res, lid):
                for lab, f in self.invariants(key, res, u):
                    self.w('        (%s),' % f, 'path fact')
                    ctx.append((f, set(ps)))
            for lab, f in self.invariants(key, res, lid):
                self.nobl += 1
                self.w('        (%s),' % f, lab if lab.startswith('model') else 'loop invariant: ' + lab)
                if not lab.startswith('model'):
                    self.invline[len(self.lines)] = (name, lid, f)
                ctx.append((f, set(ps)))
            self.w('        true')
            self.w('    ensures')
            for lab, f in ens:
                self.nobl += 1
                self.w('        (%s),' % f, lab)
            main = [s for s in lp['vars'] if s[2] == 'In']
            inside = {w: j for w, _, j in lp['pos'] if j}
            # the rounds of a loop inside another one happen within one round of that
            dec = []
            for u in self.outer(res, lid):
                dec += [self.measure_of(res, u), '0int']
            dec += [self.measure_of(res, lid), '1int']
            dec += ['0int'] * (2 * (1 + max(len(self.outer(res, u)) for u in res.loops)) - len(dec))
            self.w('    decreases %s' % ', '.join(dec), 'loop terminates')
            self.nobl += 1
            hint = ''.join(' reveal_with_fuel(ws, 2); lemma_ws_run(%s);' % s[1] for s in main) if key[0] == 'sp' else ''
            hint += ''.join(' ax_blen(%s);' % w[1] for w in inside)
            self.w('{%s%s' % (rev, hint))
            self.body(key, lp['tree'], 1, res, ctx, False)
            self.w('}')
        self.cur = None

    def plist(self, ps):
        return ', '.join('%s: %s' % (s[1], {'Int': 'int', 'Bool': 'bool'}.get(s[2], s[2])) for s in ps)

    def emit_parts(self, key, res, rt, ens, rev, hint):
        while self.parts:
            name, ps, t, ctx = self.parts.pop(0)
            self.w('#[verifier::rlimit(@RLIMIT@)]')
            self.w('pub proof fn %s(%s) -> (r: %s)\n    requires' % (name, self.plist(ps), rt))
            for f, _ in ctx:
                self.w('        (%s),' % f, 'path fact')
            self.w('        true\n    ensures')
            for lab, f in ens:
                self.nobl += 1
                self.w('        (%s),' % f, lab)
            self.w('{%s%s' % (rev, hint))
            self.body(key, t, 1, res, [], False)
            self.w('}')

    def list_spec(self, t, rank):
        dec = 'ln(i), %dint' % (rank[t] * 2 - 1) if rank else 'ln(i)'
        if t[0] == 'Vec':
            T = self.tn(t[1])
            self.w('#[verifier::opaque]')
            self.w('pub open spec fn gm_%s(i: In, acc: Tree) -> PR\n    decreases %s\n{\n    match g_%s(i) { PR::Fail => PR::Ok(i, acc), PR::Ok(r, v) => if ln(r) < ln(i) { gm_%s(r, t_push(acc, v)) } else { PR::Fail } }\n}'
                   % (T, dec, T, T))
        if t[0] in G.SEPS:
            T, S = self.tn(t[1]), self.tn(t[2])
            n = self.tn(t)
            self.w('#[verifier::opaque]')
            self.w('pub open spec fn gs_%s(i: In, acc: Tree) -> PR\n    decreases %s\n{\n    match g_%s(i) { PR::Fail => PR::Ok(i, acc), PR::Ok(r, _s) => if ln(r) < ln(i) { match g_%s(r) { PR::Fail => PR::Ok(i, acc), PR::Ok(r2, v) => if ln(r2) < ln(i) { gs_%s(r2, t_push(acc, v)) } else { PR::Fail } } } else { PR::Fail } }\n}'
                   % (n, dec, S, T, n))

    # ---- the whole text
    def generate(self, keys, rlimit=30):
        """keys: functions to verify; everything they call is under contract too."""
        self.lines, self.where, self.funcs, self.nobl = [], [], [], 0
        self.invline = {}
        types = []
        for k in keys:
            if k[0] in ('parse', 'term'):
                types.append(k[1])
            if k[0] == 'whole':
                types.append(G.tparse('Definitions'))
        types = G.closure(types)
        # contracts of callees the code mentions beyond the grammar's own constituents
        for k in keys:
            for c in self.results[k].calls:
                if c[0] == 'parse':
                    types += [t for t in G.closure([c[1]]) if t not in types]
        self.rank = G.rank_order(types)
        for t in types:
            self.tn(t)
        # reference grammar: b_* is the definition of g_*, whose recursion is
        # checked once, in the text of spec_text()
        own = set(k[1] for k in keys if k[0] == 'parse')
        self.w('// ---- reference grammar')
        unf = []
        if self.unfold:
            for k in keys:
                unf += [t for t in self.unfolded(k) if t not in unf]
            unf = [t for t in unf if t not in own]
        for t in types:
            self.w('pub uninterp spec fn g_%s(i: In) -> PR;' % self.tn(t))
            if t in unf:
                own.add(t)
                self.w('#[verifier::external_body]\npub broadcast proof fn d_%s(i: In) ensures #[trigger] g_%s(i) == b_%s(i) { unimplemented!() }' % ((self.tn(t),) * 3))
            if t in own:
                self.w('pub open spec fn b_%s(i: In) -> PR {\n    %s\n}' % (self.tn(t), self.spec_body(t)))
        for t in types:
            if t in own:
                self.list_spec(t, None)
        self.gram = len(self.lines)
        self.w('// ---- contracts of the functions called')
        verified = set(keys)
        need = set()
        for k in keys:
            need |= {c for c in self.results[k].calls if c[0] != 'lib'}
        for c in sorted(need, key=repr):
            self.w('#[verifier::external_body]')
            self.w('pub proof fn c_%s(i: In) -> (r: PRes)\n    ensures' % self.pname(c))
            for lab, f in self.ensures(c):
                self.w('        (%s),' % f)
            self.w('{ unimplemented!() }')
        self.assumed = sorted(need - verified, key=repr)
        self.w('// ---- functions under contract')
        self.failed, self.obl = {}, {}
        for k in keys:
            mark = len(self.lines), len(self.funcs), self.nobl, dict(self.invline)
            try:
                self.func(k, self.results[k])
                self.obl[k] = self.nobl - mark[2]
            except Unsupported as e:
                del self.lines[mark[0]:], self.where[mark[0]:], self.funcs[mark[1]:]
                self.nobl, self.invline = mark[2], mark[3]
                self.cur = None
                self.failed[k] = e
        return self.finish_text(keys, rlimit)

    def finish_text(self, keys, rlimit):
        tail, tailw = self.lines, self.where
        # head: prelude, classes and literals (known only now)
        self.lines, self.where = [], []
        base, wspart = PRELUDE.split('@SPLIT@')
        for l in ('//', '/*', '*/'):
            self.lit(l)
        wspart = wspart.replace('@TKLINE@', 'tk_' + self.lit('//')).replace('@TKOPEN@', 'tk_' + self.lit('/*')) \
            .replace('@FLCLOSE@', 'fl_' + self.lit('*/'))
        facts = ['lemma_ws']
        self.w('#![allow(non_snake_case, unused)]\nuse vstd::prelude::*;\nverus! {\npub mod base {\nuse vstd::prelude::*;')
        self.w(base)
        self.w('}\npub mod lex {\nuse vstd::prelude::*;\nuse super::base::*;\nbroadcast use text_facts;')
        self.w(wspart)
        self.w(self.EXPO)
        for iv, n in self.classes.items():
            self.w('pub open spec fn cls_%s(c: int) -> bool { %s }' % (n, self.ivexpr(iv)))
            self.w('''#[verifier::opaque]
pub open spec fn span_%s(i: In) -> int decreases ln(i) { if ln(i) > 0 && cls_%s(cat(i, 0)) { 1 + span_%s(adv(i, 1)) } else { 0 } }
pub broadcast proof fn lemma_span_%s(i: In)
    ensures 0 <= #[trigger] span_%s(i) <= ln(i), span_%s(i) > 0 <==> ln(i) > 0 && cls_%s(cat(i, 0)),
        span_%s(i) < ln(i) ==> !cls_%s(cat(i, span_%s(i)))
    decreases ln(i)
{ reveal_with_fuel(span_%s, 2); if ln(i) > 0 && cls_%s(cat(i, 0)) { lemma_span_%s(adv(i, 1)); } }'''.replace('%s', n))
            facts.append('lemma_span_' + n)
        if self.unfold and any(self.lexical(k) for k in keys):
            self.w('''pub broadcast proof fn lemma_blen1(i: In)
    requires ln(i) > 0
    ensures #![trigger blen(i), adv(i, 1)] blen(i) == clen(cat(i, 0)) + blen(adv(i, 1))
{ ax_blen(i); }''')
            facts.append('lemma_blen1')
            for a, na in self.classes.items():
                if a and a[-1][1] < 128:
                    self.w('''pub broadcast proof fn lemma_bspan_@A@(i: In)
    ensures #![trigger blen(adv(i, span_@A@(i)))] blen(i) - blen(adv(i, span_@A@(i))) == span_@A@(i)
    decreases ln(i)
{ reveal_with_fuel(span_@A@, 2); lemma_span_@A@(i); ax_blen(i); ax_adv_zero(i);
  if span_@A@(i) > 0 { lemma_bspan_@A@(adv(i, 1)); lemma_span_@A@(adv(i, 1)); ax_adv_adv(i, 1, span_@A@(adv(i, 1))); } }'''.replace('@A@', na))
                    facts.append('lemma_bspan_' + na)
            # a run of characters of a smaller class starts a run of the larger one
            cl = list(self.classes.items())
            for a, na in cl:
                for b, nb in cl:
                    if a != b and a and all(any(y <= x[0] and x[1] <= z for y, z in b) for x in a):
                        self.w('''pub broadcast proof fn lemma_sub_@A@_@B@(i: In)
    ensures #![trigger span_@A@(i), span_@B@(i)] span_@B@(i) == span_@A@(i) + span_@B@(adv(i, span_@A@(i)))
    decreases ln(i)
{ reveal_with_fuel(span_@A@, 2); reveal_with_fuel(span_@B@, 2); lemma_span_@A@(i);
  if span_@A@(i) > 0 { lemma_sub_@A@_@B@(adv(i, 1)); lemma_span_@A@(adv(i, 1)); ax_adv_adv(i, 1, span_@A@(adv(i, 1))); } }'''.replace('@A@', na).replace('@B@', nb))
                        facts.append('lemma_sub_%s_%s' % (na, nb))
        for text, n in self.lits.items():
            self.w('pub open spec fn tk_%s(i: In) -> bool { %s }' % (n, ' && '.join(
                ['ln(i) >= %d' % len(text)] + ['cat(i, %d) == %d' % (j, ord(c)) for j, c in enumerate(text)])))
            if any('fl_%s(' % n in l for l in tail) or text == '*/':
                self.w('''#[verifier::opaque]
pub open spec fn fl_%s(i: In) -> int decreases ln(i) { if tk_%s(i) { 0 } else if ln(i) == 0 { -1 } else { let k = fl_%s(adv(i, 1)); if k < 0 { -1 } else { k + 1 } } }
pub broadcast proof fn lemma_fl_%s(i: In)
    ensures #[trigger] fl_%s(i) >= 0 ==> (fl_%s(i) + @N@ <= ln(i) && tk_%s(adv(i, fl_%s(i))))
    decreases ln(i)
{ reveal_with_fuel(fl_%s, 2); if !tk_%s(i) && ln(i) > 0 { lemma_fl_%s(adv(i, 1)); if fl_%s(adv(i, 1)) >= 0 { ax_adv_adv(i, 1, fl_%s(adv(i, 1))); } } }'''.replace('%s', n).replace('@N@', str(len(text))))
                facts.append('lemma_fl_' + n)
                other = self.classes.get(complement(((ord(text), ord(text)),))) if len(text) == 1 else None
                if other:
                    self.w('''pub broadcast proof fn lemma_fls_%s(i: In)
    ensures #[trigger] fl_%s(i) == if span_@C@(i) < ln(i) { span_@C@(i) } else { -1 }
    decreases ln(i)
{ reveal_with_fuel(fl_%s, 2); reveal_with_fuel(span_@C@, 2); lemma_span_@C@(i); if !tk_%s(i) && ln(i) > 0 { lemma_fls_%s(adv(i, 1)); } }'''.replace('%s', n).replace('@C@', other))
                    facts.append('lemma_fls_' + n)
        gtail, gtailw, tail, tailw = tail[:self.gram], tailw[:self.gram], tail[self.gram:], tailw[self.gram:]
        self.w('}\npub mod gram {\nuse vstd::prelude::*;\nuse super::base::*;\nuse super::lex::*;')
        self.w('broadcast use {text_facts, %s};' % ', '.join(facts))
        self.lines += gtail
        self.where += gtailw
        self.w('}\npub mod code {\nuse vstd::prelude::*;\nuse super::base::*;\nuse super::lex::*;\nuse super::gram::*;')
        for k in keys if self.unfold else ():
            facts += ['d_' + self.tn(t) for t in self.unfolded(k) if ('parse', t) not in keys and 'd_' + self.tn(t) not in facts]
        self.w('broadcast use {text_facts, %s};' % ', '.join(facts))
        # the code's own character tests against the class each one is read as
        used = set()
        for k in keys:
            used |= set(self.results[k].preds)
        for pid in sorted(used):
            iv = self.pred_iv(pid)
            comp = self.cls(complement(iv)) if complement(iv) in self.classes else None
            for n, (e, src) in enumerate(self.E.predexprs[pid].items()):
                self.cur = ('pred', pid)
                self.nobl += 1
                tgt = []
                if complement(iv) in self.classes:
                    tgt.append('(%s <==> !cls_%s(c))' % (self.ex(e), self.classes[complement(iv)]))
                if iv in self.classes:
                    tgt.append('(%s <==> cls_%s(c))' % (self.ex(e), self.classes[iv]))
                self.w('pub proof fn pred_%d_%d(c: int) requires 0 <= c <= 0x10ffff ensures %s { }' % (pid, n, ' && '.join(tgt) or 'true'),
                       'character test of %s' % src)
                self.cur = None
        off = len(self.lines) - self.gram
        self.invline = {k + off: v for k, v in self.invline.items()}
        lines = self.lines + tail + ['}', '} // verus!', 'fn main() {}']
        where = self.where + tailw + [None] * 3
        self.lines, self.where = lines, where
        return '\n'.join(lines).replace('@RLIMIT@', str(rlimit)) + '\n'

    def spec_text(self, types):
        """The reference grammar with its real recursion: every definition is well-founded."""
        self.lines, self.where = [], []
        self.rank = G.rank_order(types)
        for t in types:
            if t[0] in G.ABSTRACT:
                self.w('pub uninterp spec fn g_%s(i: In) -> PR;' % self.tn(t))
                continue
            self.w('pub open spec fn g_%s(i: In) -> PR\n    decreases ln(i), %dint\n{\n    %s\n}' % (
                self.tn(t), self.rank[t] * 2, self.spec_body(t)))
            self.list_spec(t, self.rank)
        self.gram = len(self.lines)
        return self.finish_text([], 30)

    def ivexpr(self, iv):
        if not iv:
            return 'false'
        out = []
        for a, b in iv:
            if a == b:
                out.append('c == %d' % a)
            elif a == 0 and b == TOP:
                out.append('true')
            elif a == 0:
                out.append('c <= %d' % b)
            elif b == TOP:
                out.append('c >= %d' % a)
            else:
                out.append('(%d <= c && c <= %d)' % (a, b))
        return ' || '.join(out)


if __name__ == '__main__':
    import sys
    import json
    import threading
    import gen_probe

    def main():
        data = json.load(open(sys.argv[1]))
        _, names = gen_probe.probe_source()
        E, out = R.evaluate(data, names)
        for v in out.values():
            v.argsort = None
        g = Gen(E, out)
        keys = [k for k in out if any(a in repr(k) for a in sys.argv[3:])] if len(sys.argv) > 3 else list(out)
        open(sys.argv[2], 'w').write(g.generate(keys))
        print(len(keys), 'functions', g.nobl, 'obligations', 'assumed', [R.cname(c) for c in g.assumed][:20])
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=main)
    th.start()
    th.join()
