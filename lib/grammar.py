"""The reference grammar: an independent, declarative statement of what every
construct of the public API accepts and which tree it yields.  Written from the
crate's documentation and the WebIDL grammar; it never looks at /repo.

A type expression is a tuple (constructor, args...):
  ('term::Or',)  ('Identifier',)  ('Option', T)  ('Vec', E)  ('tuple', A, B) ...
"""

PUNCT = {
    'OpenParen': '(', 'CloseParen': ')', 'OpenBracket': '[', 'CloseBracket': ']',
    'OpenBrace': '{', 'CloseBrace': '}', 'Comma': ',', 'Minus': '-', 'Dot': '.',
    'Ellipsis': '...', 'Colon': ':', 'SemiColon': ';', 'LessThan': '<', 'Assign': '=',
    'GreaterThan': '>', 'QMark': '?', 'Asterisk': '*',
}
KEYWORDS = {
    'Or': 'or', 'Optional': 'optional', 'Async': 'async', 'Attribute': 'attribute',
    'Callback': 'callback', 'Const': 'const', 'Deleter': 'deleter', 'Dictionary': 'dictionary',
    'Enum': 'enum', 'Getter': 'getter', 'Includes': 'includes', 'Inherit': 'inherit',
    'Interface': 'interface', 'Iterable': 'iterable', 'Maplike': 'maplike',
    'Namespace': 'namespace', 'Partial': 'partial', 'Required': 'required',
    'Setlike': 'setlike', 'Setter': 'setter', 'Static': 'static', 'Stringifier': 'stringifier',
    'Typedef': 'typedef', 'Unrestricted': 'unrestricted', 'Symbol': 'symbol',
    'NegInfinity': '-Infinity', 'ByteString': 'ByteString', 'DOMString': 'DOMString',
    'FrozenArray': 'FrozenArray', 'Infinity': 'Infinity', 'NaN': 'NaN', 'USVString': 'USVString',
    'Any': 'any', 'Boolean': 'boolean', 'Byte': 'byte', 'Double': 'double', 'False': 'false',
    'Float': 'float', 'Long': 'long', 'Null': 'null', 'Object': 'object', 'Octet': 'octet',
    'Sequence': 'sequence', 'Short': 'short', 'True': 'true', 'Unsigned': 'unsigned',
    'Undefined': 'undefined', 'Record': 'record', 'ArrayBuffer': 'ArrayBuffer',
    'DataView': 'DataView', 'Int8Array': 'Int8Array', 'Int16Array': 'Int16Array',
    'Int32Array': 'Int32Array', 'Uint8Array': 'Uint8Array', 'Uint16Array': 'Uint16Array',
    'Uint32Array': 'Uint32Array', 'Uint8ClampedArray': 'Uint8ClampedArray',
    'Float32Array': 'Float32Array', 'Float64Array': 'Float64Array',
    'ArrayBufferView': 'ArrayBufferView', 'BufferSource': 'BufferSource', 'Promise': 'Promise',
    'Error': 'Error', 'ReadOnly': 'readonly', 'Mixin': 'mixin', 'Implements': 'implements',
    'LegacyCaller': 'legacycaller', 'Constructor': 'constructor',
}
# how the public `term!` macro names each token (term!(...) argument)
TERM_MACRO = {}
for _n, _t in PUNCT.items():
    TERM_MACRO[_n] = _n if _t in '()[]{}' else _t
for _n, _t in KEYWORDS.items():
    TERM_MACRO[_n] = _t

ALIAS = {
    'ExtendedAttributeList': 'Bracketed<Punctuated<ExtendedAttribute,Comma>>',
    'IdentifierList': 'Punctuated<Identifier,Comma>',
    'ArgumentList': 'Punctuated<Argument,Comma>',
    'UnionType': 'Parenthesized<Punctuated<UnionMemberType,term::Or>>',
    'InterfaceMembers': 'Vec<InterfaceMember>',
    'MixinMembers': 'Vec<MixinMember>',
    'NamespaceMembers': 'Vec<NamespaceMember>',
    'DictionaryMembers': 'Vec<DictionaryMember>',
    'Definitions': 'Vec<Definition>',
    'EnumValueList': 'PunctuatedNonEmpty<StringLit,Comma>',
    'Attrs': 'Option<ExtendedAttributeList>',
}

# lexical classes: tuple structs around the matched source text
LEX = ['Identifier', 'StringLit', 'DecLit', 'HexLit', 'OctLit', 'FloatValueLit']

# name -> (module, kind, body); a struct body is its fields in source order
S, E = 'struct', 'enum'
DEFS = {}


def _d(mod, name, kind, text):
    items = []
    for part in text.split(';'):
        part = part.strip()
        if part:
            f, t = part.split(':', 1)
            items.append((f.strip(), t.strip()))
    DEFS[name] = (mod, kind, items)


_d('common', 'Default', S, 'assign: Assign; value: DefaultValue')
_d('literal', 'IntegerLit', E, 'Dec: DecLit; Hex: HexLit; Oct: OctLit')
_d('literal', 'EmptyArrayLit', S, 'open_bracket: OpenBracket; close_bracket: CloseBracket')
_d('literal', 'EmptyDictionaryLit', S, 'open_brace: OpenBrace; close_brace: CloseBrace')
_d('literal', 'DefaultValue', E, '''Boolean: BooleanLit; EmptyArray: EmptyArrayLit;
   EmptyDictionary: EmptyDictionaryLit; Float: FloatLit; Integer: IntegerLit;
   Null: term::Null; String: StringLit''')
_d('literal', 'ConstValue', E, 'Boolean: BooleanLit; Float: FloatLit; Integer: IntegerLit; Null: term::Null')
_d('literal', 'FloatLit', E, '''Value: FloatValueLit; NegInfinity: term::NegInfinity;
   Infinity: term::Infinity; NaN: term::NaN''')

_d('types', 'Type', E, 'Single: SingleType; Union: MayBeNull<UnionType>')
_d('types', 'SingleType', E, 'Any: term::Any; NonAny: NonAnyType')
_d('types', 'NonAnyType', E, '''Promise: PromiseType; Integer: MayBeNull<IntegerType>;
   FloatingPoint: MayBeNull<FloatingPointType>; Boolean: MayBeNull<term::Boolean>;
   Byte: MayBeNull<term::Byte>; Octet: MayBeNull<term::Octet>; ByteString: MayBeNull<term::ByteString>;
   DOMString: MayBeNull<term::DOMString>; USVString: MayBeNull<term::USVString>;
   Sequence: MayBeNull<SequenceType>; Object: MayBeNull<term::Object>; Symbol: MayBeNull<term::Symbol>;
   Error: MayBeNull<term::Error>; ArrayBuffer: MayBeNull<term::ArrayBuffer>;
   DataView: MayBeNull<term::DataView>; Int8Array: MayBeNull<term::Int8Array>;
   Int16Array: MayBeNull<term::Int16Array>; Int32Array: MayBeNull<term::Int32Array>;
   Uint8Array: MayBeNull<term::Uint8Array>; Uint16Array: MayBeNull<term::Uint16Array>;
   Uint32Array: MayBeNull<term::Uint32Array>; Uint8ClampedArray: MayBeNull<term::Uint8ClampedArray>;
   Float32Array: MayBeNull<term::Float32Array>; Float64Array: MayBeNull<term::Float64Array>;
   ArrayBufferView: MayBeNull<term::ArrayBufferView>; BufferSource: MayBeNull<term::BufferSource>;
   FrozenArrayType: MayBeNull<FrozenArrayType>; RecordType: MayBeNull<RecordType>;
   Identifier: MayBeNull<Identifier>''')
_d('types', 'SequenceType', S, 'sequence: term::Sequence; generics: Generics<Box<Type>>')
_d('types', 'FrozenArrayType', S, 'frozen_array: term::FrozenArray; generics: Generics<Box<Type>>')
_d('types', 'PromiseType', S, 'promise: term::Promise; generics: Generics<Box<ReturnType>>')
_d('types', 'IntegerType', E, 'LongLong: LongLongType; Long: LongType; Short: ShortType')
_d('types', 'LongLongType', S, 'unsigned: Option<term::Unsigned>; long_long: (term::Long,term::Long)')
_d('types', 'LongType', S, 'unsigned: Option<term::Unsigned>; long: term::Long')
_d('types', 'ShortType', S, 'unsigned: Option<term::Unsigned>; short: term::Short')
_d('types', 'FloatingPointType', E, 'Float: FloatType; Double: DoubleType')
_d('types', 'FloatType', S, 'unrestricted: Option<term::Unrestricted>; float: term::Float')
_d('types', 'DoubleType', S, 'unrestricted: Option<term::Unrestricted>; double: term::Double')
_d('types', 'RecordType', S, 'record: term::Record; generics: Generics<(Box<RecordKeyType>,Comma,Box<Type>)>')
_d('types', 'RecordKeyType', E, '''Byte: term::ByteString; DOM: term::DOMString; USV: term::USVString;
   NonAny: NonAnyType''')
_d('types', 'UnionMemberType', E, 'Single: AttributedNonAnyType; Union: MayBeNull<UnionType>')
_d('types', 'ConstType', E, '''Integer: MayBeNull<IntegerType>; FloatingPoint: MayBeNull<FloatingPointType>;
   Boolean: MayBeNull<term::Boolean>; Byte: MayBeNull<term::Byte>; Octet: MayBeNull<term::Octet>;
   Identifier: MayBeNull<Identifier>''')
_d('types', 'ReturnType', E, 'Undefined: term::Undefined; Type: Type')
_d('types', 'AttributedType', S, 'attributes: Attrs; type_: Type')
_d('types', 'AttributedNonAnyType', S, 'attributes: Attrs; type_: NonAnyType')

_d('argument', 'Argument', E, 'Single: SingleArgument; Variadic: VariadicArgument')
_d('argument', 'SingleArgument', S, '''attributes: Attrs; optional: Option<term::Optional>;
   type_: AttributedType; identifier: Identifier; default: Option<Default>''')
_d('argument', 'VariadicArgument', S, '''attributes: Attrs; type_: Type; ellipsis: term::Ellipsis;
   identifier: Identifier''')

_d('attribute', 'ExtendedAttribute', E, '''ArgList: ExtendedAttributeArgList;
   NamedArgList: ExtendedAttributeNamedArgList; IdentList: ExtendedAttributeIdentList;
   Ident: ExtendedAttributeIdent; Wildcard: ExtendedAttributeWildCard; NoArgs: ExtendedAttributeNoArgs''')
_d('attribute', 'ExtendedAttributeArgList', S, 'identifier: Identifier; args: Parenthesized<ArgumentList>')
_d('attribute', 'ExtendedAttributeNamedArgList', S, '''lhs_identifier: Identifier; assign: Assign;
   rhs_identifier: Identifier; args: Parenthesized<ArgumentList>''')
_d('attribute', 'ExtendedAttributeIdentList', S, 'identifier: Identifier; assign: Assign; list: Parenthesized<IdentifierList>')
_d('attribute', 'ExtendedAttributeIdent', S, 'lhs_identifier: Identifier; assign: Assign; rhs: IdentifierOrString')
_d('attribute', 'ExtendedAttributeWildCard', S, 'lhs_identifier: Identifier; assign: Assign; rhs: Asterisk')
_d('attribute', 'ExtendedAttributeNoArgs', S, '0: Identifier')
_d('attribute', 'IdentifierOrString', E, 'Identifier: Identifier; String: StringLit')

_d('interface', 'Inheritance', S, 'colon: Colon; identifier: Identifier')
_d('interface', 'InterfaceMember', E, '''Const: ConstMember; Attribute: AttributeInterfaceMember;
   Constructor: ConstructorInterfaceMember; Operation: OperationInterfaceMember;
   Iterable: IterableInterfaceMember; AsyncIterable: AsyncIterableInterfaceMember;
   Maplike: MaplikeInterfaceMember; Setlike: SetlikeInterfaceMember; Stringifier: StringifierMember''')
_d('interface', 'ConstMember', S, '''attributes: Attrs; const_: term::Const; const_type: ConstType;
   identifier: Identifier; assign: Assign; const_value: ConstValue; semi_colon: SemiColon''')
_d('interface', 'AttributeInterfaceMember', S, '''attributes: Attrs; modifier: Option<StringifierOrInheritOrStatic>;
   readonly: Option<term::ReadOnly>; attribute: term::Attribute; type_: AttributedType;
   identifier: Identifier; semi_colon: SemiColon''')
_d('interface', 'ConstructorInterfaceMember', S, '''attributes: Attrs; constructor: term::Constructor;
   args: Parenthesized<ArgumentList>; semi_colon: SemiColon''')
_d('interface', 'OperationInterfaceMember', S, '''attributes: Attrs; modifier: Option<StringifierOrStatic>;
   special: Option<Special>; return_type: ReturnType; identifier: Option<Identifier>;
   args: Parenthesized<ArgumentList>; semi_colon: SemiColon''')
_d('interface', 'IterableInterfaceMember', E, 'Single: SingleTypedIterable; Double: DoubleTypedIterable')
_d('interface', 'SingleTypedIterable', S, '''attributes: Attrs; iterable: term::Iterable;
   generics: Generics<AttributedType>; semi_colon: SemiColon''')
_d('interface', 'DoubleTypedIterable', S, '''attributes: Attrs; iterable: term::Iterable;
   generics: Generics<(AttributedType,Comma,AttributedType)>; semi_colon: SemiColon''')
_d('interface', 'AsyncIterableInterfaceMember', E, 'Single: SingleTypedAsyncIterable; Double: DoubleTypedAsyncIterable')
_d('interface', 'SingleTypedAsyncIterable', S, '''attributes: Attrs; async_iterable: (term::Async,term::Iterable);
   generics: Generics<AttributedType>; args: Option<Parenthesized<ArgumentList>>; semi_colon: SemiColon''')
_d('interface', 'DoubleTypedAsyncIterable', S, '''attributes: Attrs; async_iterable: (term::Async,term::Iterable);
   generics: Generics<(AttributedType,Comma,AttributedType)>; args: Option<Parenthesized<ArgumentList>>;
   semi_colon: SemiColon''')
_d('interface', 'MaplikeInterfaceMember', S, '''attributes: Attrs; readonly: Option<term::ReadOnly>;
   maplike: term::Maplike; generics: Generics<(AttributedType,Comma,AttributedType)>; semi_colon: SemiColon''')
_d('interface', 'SetlikeInterfaceMember', S, '''attributes: Attrs; readonly: Option<term::ReadOnly>;
   setlike: term::Setlike; generics: Generics<AttributedType>; semi_colon: SemiColon''')
_d('interface', 'StringifierMember', S, 'attributes: Attrs; stringifier: term::Stringifier; semi_colon: SemiColon')
_d('interface', 'Special', E, '''Getter: term::Getter; Setter: term::Setter; Deleter: term::Deleter;
   LegacyCaller: term::LegacyCaller''')
_d('interface', 'StringifierOrInheritOrStatic', E, '''Stringifier: term::Stringifier; Inherit: term::Inherit;
   Static: term::Static''')
_d('interface', 'StringifierOrStatic', E, 'Stringifier: term::Stringifier; Static: term::Static')

_d('mixin', 'MixinMember', E, '''Const: ConstMember; Operation: OperationMixinMember;
   Attribute: AttributeMixinMember; Stringifier: StringifierMember''')
_d('mixin', 'OperationMixinMember', S, '''attributes: Attrs; stringifier: Option<term::Stringifier>;
   return_type: ReturnType; identifier: Option<Identifier>; args: Parenthesized<ArgumentList>; semi_colon: SemiColon''')
_d('mixin', 'AttributeMixinMember', S, '''attributes: Attrs; stringifier: Option<term::Stringifier>;
   readonly: Option<term::ReadOnly>; attribute: term::Attribute; type_: AttributedType;
   identifier: Identifier; semi_colon: SemiColon''')

_d('namespace', 'NamespaceMember', E, '''Const: ConstNamespaceMember; Operation: OperationNamespaceMember;
   Attribute: AttributeNamespaceMember''')
_d('namespace', 'ConstNamespaceMember', S, '''attributes: Attrs; const_: term::Const; const_type: ConstType;
   identifier: Identifier; assign: Assign; const_value: ConstValue; semi_colon: SemiColon''')
_d('namespace', 'OperationNamespaceMember', S, '''attributes: Attrs; return_type: ReturnType;
   identifier: Option<Identifier>; args: Parenthesized<ArgumentList>; semi_colon: SemiColon''')
_d('namespace', 'AttributeNamespaceMember', S, '''attributes: Attrs; readonly: term::ReadOnly;
   attribute: term::Attribute; type_: AttributedType; identifier: Identifier; semi_colon: SemiColon''')

_d('dictionary', 'DictionaryMember', S, '''attributes: Attrs; required: Option<term::Required>; type_: Type;
   identifier: Identifier; default: Option<Default>; semi_colon: SemiColon''')

_d('', 'Definition', E, '''Callback: CallbackDefinition; CallbackInterface: CallbackInterfaceDefinition;
   Interface: InterfaceDefinition; InterfaceMixin: InterfaceMixinDefinition; Namespace: NamespaceDefinition;
   Dictionary: DictionaryDefinition; PartialInterface: PartialInterfaceDefinition;
   PartialInterfaceMixin: PartialInterfaceMixinDefinition; PartialDictionary: PartialDictionaryDefinition;
   PartialNamespace: PartialNamespaceDefinition; Enum: EnumDefinition; Typedef: TypedefDefinition;
   IncludesStatement: IncludesStatementDefinition; Implements: ImplementsDefinition''')
_d('', 'CallbackDefinition', S, '''attributes: Attrs; callback: term::Callback; identifier: Identifier; assign: Assign;
   return_type: ReturnType; arguments: Parenthesized<ArgumentList>; semi_colon: SemiColon''')
_d('', 'CallbackInterfaceDefinition', S, '''attributes: Attrs; callback: term::Callback; interface: term::Interface;
   identifier: Identifier; inheritance: Option<Inheritance>; members: Braced<InterfaceMembers>; semi_colon: SemiColon''')
_d('', 'InterfaceDefinition', S, '''attributes: Attrs; interface: term::Interface; identifier: Identifier;
   inheritance: Option<Inheritance>; members: Braced<InterfaceMembers>; semi_colon: SemiColon''')
_d('', 'InterfaceMixinDefinition', S, '''attributes: Attrs; interface: term::Interface; mixin: term::Mixin;
   identifier: Identifier; members: Braced<MixinMembers>; semi_colon: SemiColon''')
_d('', 'NamespaceDefinition', S, '''attributes: Attrs; namespace: term::Namespace; identifier: Identifier;
   members: Braced<NamespaceMembers>; semi_colon: SemiColon''')
_d('', 'DictionaryDefinition', S, '''attributes: Attrs; dictionary: term::Dictionary; identifier: Identifier;
   inheritance: Option<Inheritance>; members: Braced<DictionaryMembers>; semi_colon: SemiColon''')
_d('', 'PartialInterfaceDefinition', S, '''attributes: Attrs; partial: term::Partial; interface: term::Interface;
   identifier: Identifier; members: Braced<InterfaceMembers>; semi_colon: SemiColon''')
_d('', 'PartialInterfaceMixinDefinition', S, '''attributes: Attrs; partial: term::Partial; interface: term::Interface;
   mixin: term::Mixin; identifier: Identifier; members: Braced<MixinMembers>; semi_colon: SemiColon''')
_d('', 'PartialDictionaryDefinition', S, '''attributes: Attrs; partial: term::Partial; dictionary: term::Dictionary;
   identifier: Identifier; members: Braced<DictionaryMembers>; semi_colon: SemiColon''')
_d('', 'PartialNamespaceDefinition', S, '''attributes: Attrs; partial: term::Partial; namespace: term::Namespace;
   identifier: Identifier; members: Braced<NamespaceMembers>; semi_colon: SemiColon''')
_d('', 'EnumDefinition', S, '''attributes: Attrs; enum_: term::Enum; identifier: Identifier;
   values: Braced<EnumValueList>; semi_colon: SemiColon''')
_d('', 'TypedefDefinition', S, '''attributes: Attrs; typedef: term::Typedef; type_: AttributedType;
   identifier: Identifier; semi_colon: SemiColon''')
_d('', 'IncludesStatementDefinition', S, '''attributes: Attrs; lhs_identifier: Identifier; includes: term::Includes;
   rhs_identifier: Identifier; semi_colon: SemiColon''')
_d('', 'ImplementsDefinition', S, '''attributes: Attrs; lhs_identifier: Identifier; includes: term::Implements;
   rhs_identifier: Identifier; semi_colon: SemiColon''')

LEXMOD = {'Identifier': 'common'}
# generic bracket structs: name -> (module, [(field, type or parameter)])
GENERIC_STRUCTS = {
    'Parenthesized': ('common', [('open_paren', 'term::OpenParen'), ('body', 'T'), ('close_paren', 'term::CloseParen')]),
    'Bracketed': ('common', [('open_bracket', 'term::OpenBracket'), ('body', 'T'), ('close_bracket', 'term::CloseBracket')]),
    'Braced': ('common', [('open_brace', 'term::OpenBrace'), ('body', 'T'), ('close_brace', 'term::CloseBrace')]),
    'Generics': ('common', [('open_angle', 'term::LessThan'), ('body', 'T'), ('close_angle', 'term::GreaterThan')]),
    'MayBeNull': ('types', [('type_', 'T'), ('q_mark', 'Option<term::QMark>')]),
}
# separated lists: (module, non-empty form?)
SEPS = {'Punctuated': ('common', False), 'PunctuatedNonEmpty': ('common', True)}

# abstract user-supplied types (properties over "any element"): parsers of anything or of nothing, and
# elements and separators of lists, which consume something
ABSTRACT = ['AbsT', 'AbsU', 'AbsV', 'AbsS', 'AbsE']


# ---- type expressions ------------------------------------------------------
def tparse(s):
    """Parse a type expression, expanding aliases."""
    s = s.replace(' ', '').replace('\n', '')
    pos = 0

    def item():
        nonlocal pos
        if s[pos] == '(':
            pos += 1
            parts = []
            while s[pos] != ')':
                parts.append(item())
                if s[pos] == ',':
                    pos += 1
            pos += 1
            return ('tuple',) + tuple(parts)
        st = pos
        while pos < len(s) and (s[pos].isalnum() or s[pos] in '_:'):
            pos += 1
        name = s[st:pos]
        args = []
        if pos < len(s) and s[pos] == '<':
            pos += 1
            while s[pos] != '>':
                args.append(item())
                if s[pos] == ',':
                    pos += 1
            pos += 1
        if name in ALIAS:
            assert not args
            return tparse(ALIAS[name])
        if name.startswith('term::') or (name not in DEFS and name not in LEX and name in PUNCT):
            n = name.replace('term::', '')
            assert n in PUNCT or n in KEYWORDS, name
            return ('term::' + n,)
        return (name,) + tuple(args)
    r = item()
    assert pos == len(s), s
    return r


def tstr(t):
    if t[0] == 'tuple':
        return '(' + ','.join(tstr(a) for a in t[1:]) + ')'
    if len(t) == 1:
        return t[0]
    return t[0] + '<' + ','.join(tstr(a) for a in t[1:]) + '>'


def known(t):
    """Is this a construct the reference grammar defines?"""
    n = t[0]
    if n.startswith('term::'):
        return n[6:] in PUNCT or n[6:] in KEYWORDS
    if n in LEX or n in DEFS or n == 'BooleanLit' or n in ABSTRACT:
        return len(t) == 1
    if n in ('Option', 'Vec', 'Box'):
        return len(t) == 2 and known(t[1])
    if n == 'tuple':
        return len(t) in (3, 4) and all(known(a) for a in t[1:])
    if n in GENERIC_STRUCTS:
        return len(t) == 2 and known(t[1])
    if n in SEPS:
        return len(t) == 3 and known(t[1]) and known(t[2])
    return False


def fields(t):
    """Fields (name, type) of a struct-like type in source order, or None."""
    n = t[0]
    if n in DEFS and DEFS[n][1] == S:
        return [(f, tparse(ty)) for f, ty in DEFS[n][2]]
    if n in GENERIC_STRUCTS:
        return [(f, t[1] if ty == 'T' else tparse(ty)) for f, ty in GENERIC_STRUCTS[n][1]]
    if n == 'tuple':
        return [(str(k), a) for k, a in enumerate(t[1:])]
    return None


def variants(t):
    n = t[0]
    if n in DEFS and DEFS[n][1] == E:
        return [(v, tparse(ty)) for v, ty in DEFS[n][2]]
    return None


def subs(t):
    """Direct constituents."""
    n = t[0]
    f = fields(t)
    if f is not None:
        return [x for _, x in f]
    v = variants(t)
    if v is not None:
        return [x for _, x in v]
    if n in ('Option', 'Vec', 'Box'):
        return [t[1]]
    if n in SEPS:
        return [t[1], t[2]]
    if n == 'BooleanLit':
        return [('term::True',), ('term::False',)]
    return []


def nullable(t, memo={}):
    """Can the construct succeed without consuming anything?"""
    if t in memo:
        return memo[t]
    n = t[0]
    memo[t] = False
    if n in ('Option', 'Vec', 'Punctuated'):
        r = True
    elif n == 'Box':
        r = nullable(t[1])
    elif n == 'PunctuatedNonEmpty':
        r = False
    elif n in ABSTRACT:
        r = n not in ('AbsS', 'AbsE')
    elif fields(t) is not None:
        r = all(nullable(x) for _, x in fields(t))
    elif variants(t) is not None:
        r = any(nullable(x) for _, x in variants(t))
    else:
        r = False
    memo[t] = r
    return r


def closure(roots):
    out, todo = [], list(roots)
    seen = set()
    while todo:
        t = todo.pop(0)
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        todo += subs(t)
    return out


def all_types():
    """Every construct reachable from the named types, plus every token."""
    roots = [(n,) for n in LEX] + [(n,) for n in DEFS] + [('BooleanLit',), tparse('Definitions')]
    roots += [('term::' + n,) for n in list(PUNCT) + list(KEYWORDS)]
    return closure(roots)


def generic_types():
    """The generic combinators over abstract user types."""
    T, U, V, Sp, E = [(a,) for a in ABSTRACT]
    return [('Option', T), ('Vec', E), ('Box', T), ('tuple', T, U), ('tuple', T, U, V),
            ('Parenthesized', T), ('Bracketed', T), ('Braced', T), ('Generics', T), ('MayBeNull', T),
            ('Punctuated', E, Sp), ('PunctuatedNonEmpty', E, Sp),
            ('Vec', T), ('Punctuated', T, U), ('PunctuatedNonEmpty', T, U)]


def loose(t):
    """A list whose elements may be nothing: what it yields then is not prescribed, only that it ends."""
    return (t[0] == 'Vec' or t[0] in SEPS) and any(x[0] in ABSTRACT and nullable(x) for x in t[1:])


def rank_order(types):
    """Order in which left-recursion-free descent visits types: for a call at an
    unadvanced position the callee must come earlier (smaller rank)."""
    ts = closure(types)
    left = {}
    for t in ts:
        l = []
        if fields(t) is not None:
            for _, x in fields(t):
                l.append(x)
                if not nullable(x):
                    break
        elif t[0] in SEPS:
            l = [t[1]] + ([t[2]] if nullable(t[1]) else [])
        else:
            l = subs(t)
        left[t] = l
    rank = {}

    def visit(t, path):
        if t in rank:
            return rank[t]
        assert t not in path, 'left recursion in the reference grammar: %s' % tstr(t)
        r = 1 + max([visit(x, path | {t}) for x in left[t]], default=0)
        rank[t] = r
        return r
    for t in ts:
        visit(t, frozenset())
    return rank


# ---- Rust spelling ---------------------------------------------------------
NO_LIFETIME = set()


def needs_lifetime(n):
    seen = set()

    def go(t):
        if t in seen:
            return False
        seen.add(t)
        if t[0] in LEX:
            return True
        if t[0].startswith('term::') or t[0] == 'BooleanLit' or t[0] in ABSTRACT:
            return False
        return any(go(x) for x in subs(t))
    return go((n,))


def rust(t, krate='weedle', lt="'a"):
    n = t[0]
    if n == 'tuple':
        return '(' + ', '.join(rust(a, krate, lt) for a in t[1:]) + ')'
    if n in ('Option', 'Vec', 'Box'):
        return n + '<' + rust(t[1], krate, lt) + '>'
    if n.startswith('term::'):
        return krate + '::' + n
    if n in ABSTRACT:
        return n
    if n in GENERIC_STRUCTS:
        return '%s::%s::%s<%s>' % (krate, GENERIC_STRUCTS[n][0], n, rust(t[1], krate, lt))
    if n in SEPS:
        return '%s::%s::%s<%s, %s>' % (krate, SEPS[n][0], n, rust(t[1], krate, lt), rust(t[2], krate, lt))
    if n in LEX or n == 'BooleanLit':
        mod = LEXMOD.get(n, 'literal')
    else:
        mod = DEFS[n][0]
    path = krate + '::' + (mod + '::' if mod else '') + n
    return path + ('<' + lt + '>' if needs_lifetime(n) else '')


if __name__ == '__main__':
    ts = all_types()
    rk = rank_order(ts)
    print(len(ts), max(rk.values()))
    for t in ts:
        print(rk[t], tstr(t), nullable(t))
