"""Which functions, obligations and comparisons decide which property."""
import grammar as G

T = G.tparse
ALL = G.all_types()
GEN = G.generic_types()


def P(ts):
    return [('parse', t if isinstance(t, tuple) else T(t)) for t in ts]


def mod(m, but=()):
    return [(n,) for n in G.DEFS if G.DEFS[n][0] == m and n not in but]


TERMS = [('term::' + n,) for n in list(G.PUNCT) + list(G.KEYWORDS)]
LEXT = [(n,) for n in G.LEX]
COMB = [t for t in ALL + GEN if t[0] in ('Option', 'Vec', 'Box', 'tuple', 'Parenthesized', 'Bracketed', 'Braced', 'Generics') + tuple(G.SEPS)]
MBN = [t for t in ALL if t[0] == 'MayBeNull'] + [('MayBeNull', ('AbsT',))]
EVERY = [('sp',), ('whole',)] + P([t for t in ALL + GEN]) + [('term', t) for t in TERMS]
FROM = [('from', (n,), vn, vt) for n in G.DEFS for vn, vt in G.variants((n,)) or []]

# obligations (by label prefix) that state totality / zero-copy on their own
TOTAL = ('fails only recoverably', 'error lies inside', 'consumes something', 'never panics', 'terminates', 'loop terminates',
         'decreases', 'rest is a tail', 'loop invariant', 'path fact')
SLICE = ('text is a slice', 'rest is a tail')

# composite constructs in which a difference may be attributed to a property (lib/reduce.py)
LARGE = [('whole',)] + P([n for n in G.DEFS if G.DEFS[n][0] not in ('literal', 'common')] + [T('Definitions')])

# property -> own functions, labels (None: all), search roots, comparison
PROPS = {
    'C01': dict(own=[('whole',)] + P(['Definitions']), roots=[('whole',)], cmp='full'),
    'C02': dict(own=EVERY, labels=TOTAL, roots=[k for k in EVERY if k[0] in ('parse', 'whole')], cmp='total'),
    'C03': dict(own=[('sp',)], roots=P([t for t in TERMS if t[0] != 'term::Asterisk'] + LEXT), cmp='trivia'),
    'C04': dict(own=P(TERMS) + [('term', t) for t in TERMS], roots=P(TERMS) + [('term', t) for t in TERMS], cmp='full'),
    'C05': dict(own=P(['Identifier']), roots=P(['Identifier']), cmp='full'),
    'C06': dict(own=P(['StringLit']), roots=P(['StringLit']), cmp='full'),
    'C07': dict(own=P(['DecLit', 'HexLit', 'OctLit', 'FloatValueLit', 'IntegerLit', 'FloatLit']),
                roots=P(['DecLit', 'HexLit', 'OctLit', 'FloatValueLit', 'IntegerLit', 'FloatLit']), cmp='full'),
    'C08': dict(own=EVERY, labels=SLICE, roots=[k for k in EVERY if k[0] in ('parse', 'whole')], cmp='zerocopy'),
    'C09': dict(own=P(COMB), roots=P(COMB), cmp='full'),
    'C10': dict(own=P(mod('types') + MBN), roots=P(mod('types') + MBN + [T('UnionType')]), cmp='full'),
    'C11': dict(own=P(mod('attribute')), roots=P(mod('attribute') + [T('ExtendedAttributeList'), T('Attrs')]), cmp='full'),
    'C12': dict(own=P(mod('argument')), roots=P(mod('argument') + [T('ArgumentList'), T('Parenthesized<ArgumentList>')]), cmp='full'),
    'C13': dict(own=P(['DefaultValue', 'ConstValue', 'BooleanLit', 'EmptyArrayLit', 'EmptyDictionaryLit', 'Default']),
                roots=P(['DefaultValue', 'ConstValue', 'BooleanLit', 'EmptyArrayLit', 'EmptyDictionaryLit', 'Default']), cmp='full'),
    'C14': dict(own=P(mod('interface', ('Inheritance',))),
                roots=P(mod('interface', ('Inheritance',)) + [T('InterfaceMembers'), T('Braced<InterfaceMembers>')]), cmp='full'),
    'C15': dict(own=P(mod('mixin') + mod('namespace') + mod('dictionary')),
                roots=P(mod('mixin') + mod('namespace') + mod('dictionary') + [T('MixinMembers'), T('NamespaceMembers'), T('DictionaryMembers')]),
                cmp='full'),
    'C16': dict(own=P(mod('') + ['Inheritance']), roots=P(mod('') + ['Inheritance', 'Definitions', 'Definition']), cmp='full'),
    'C17': dict(own=FROM, roots=FROM, cmp='full'),
}

for _id in ('C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15'):
    PROPS[_id]['wide'] = [k for k in LARGE if k not in PROPS[_id]['roots']]


def name(key):
    """A readable name of a function under contract."""
    if key[0] == 'sp':
        return 'weedle::whitespace::sp'
    if key[0] == 'whole':
        return 'weedle::parse'
    if key[0] == 'parse':
        return '<%s as Parse>::parse' % G.tstr(key[1])
    if key[0] == 'term':
        return 'term!(%s)::parse' % G.TERM_MACRO[key[1][0][6:]]
    if key[0] == 'lib':
        return 'nom: <&str>::%s with %r' % (key[1], key[2]) if key[2] else 'std: char::' + key[1]
    return '<%s as From<%s>>::from' % (key[1][0], G.tstr(key[3]))
