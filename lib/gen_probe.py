"""Writes the probe crate: one `root_*` function per construct, conversion and
token macro entry, so that the extractor can reach every function under contract."""
import os, sys
import grammar as G

HEADER = '''#![allow(dead_code, non_snake_case, unused_imports)]
use weedle::{Parse, IResult, Err, ErrorKind};
'''


def probe_source():
    o = [HEADER]
    names = {}
    # abstract user types: their parser stands for an arbitrary one
    for a in G.ABSTRACT:
        d = '#[derive(Clone, Copy, Debug, Default, Eq, PartialEq, Ord, PartialOrd, Hash)]\n'
        o.append(d + 'pub struct %s;\n' % a)
        o.append("impl<'a> Parse<'a> for %s {\n    fn parse(i: &'a str) -> IResult<&'a str, Self> { abstract_parser(i) }\n}\n" % a)
    o.append("pub fn abstract_parser<'a, T>(_i: &'a str) -> IResult<&'a str, T> { unimplemented!() }\n")
    k = 0
    for t in G.all_types() + G.generic_types():
        rt = G.rust(t)
        o.append("pub fn root_p_%d<'a>(i: &'a str) -> IResult<&'a str, %s> { <%s as Parse<'a>>::parse(i) }\n" % (k, rt, rt))
        names['root_p_%d' % k] = ('parse', t)
        k += 1
    for n, arg in G.TERM_MACRO.items():
        o.append("pub fn root_term_%s<'a>(i: &'a str) -> IResult<&'a str, weedle::term!(%s)> { <weedle::term!(%s) as Parse<'a>>::parse(i) }\n" % (n, arg, arg))
        names['root_term_%s' % n] = ('term', ('term::' + n,))
    for n in G.DEFS:
        v = G.variants((n,))
        if v is None:
            continue
        for vn, vt in v:
            o.append("pub fn root_from_%s_%s<'a>(x: %s) -> %s { From::from(x) }\n" % (n, vn, G.rust(vt), G.rust((n,))))
            names['root_from_%s_%s' % (n, vn)] = ('from', (n,), vn, vt)
    o.append("pub fn root_whole<'a>(s: &'a str) -> Result<Vec<weedle::Definition<'a>>, Err<(&'a str, ErrorKind)>> { weedle::parse(s) }\n")
    names['root_whole'] = ('whole',)
    return ''.join(o), names


if __name__ == '__main__':
    d = sys.argv[1]
    os.makedirs(d + '/src', exist_ok=True)
    src, _ = probe_source()
    open(d + '/src/lib.rs', 'w').write(src)
    open(d + '/Cargo.toml', 'w').write('''[package]
name = "probe"
version = "0.0.0"
edition = "2018"

[dependencies]
weedle = { path = "%s" }

[workspace]
''' % (sys.argv[2] if len(sys.argv) > 2 else '/repo'))
