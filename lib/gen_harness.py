"""Writes the harness crate: it runs the real parsers of /repo on given texts and
prints what they return (every text in the tree as its offset and length in the
input), for replaying counterexamples and for the bounded stand-ins."""
import os
import grammar as G

HEAD = r'''#![allow(dead_code, non_snake_case, unused_imports, unused_variables)]
use std::io::{Read, Write};
use weedle::{Err, ErrorKind, IResult, Parse};

pub trait Dump { fn d(&self, o: &mut String, b: &str); }

fn slice(s: &str, o: &mut String, b: &str) {
    let (p, q) = (s.as_ptr() as usize, b.as_ptr() as usize);
    if p >= q && p + s.len() <= q + b.len() { o.push_str(&format!("@{}:{}", p - q, s.len())); }
    else { o.push_str(&format!("!copy{:?}", s)); }
}
fn place(s: &str, b: &str) -> String {
    let (p, q) = (s.as_ptr() as usize, b.as_ptr() as usize);
    if p >= q && p + s.len() == q + b.len() { format!("{}", p - q) } else { "?".to_string() }
}
impl<T: Dump> Dump for Option<T> { fn d(&self, o: &mut String, b: &str) {
    match self { None => o.push('-'), Some(x) => { o.push('+'); x.d(o, b) } } } }
impl<T: Dump> Dump for Box<T> { fn d(&self, o: &mut String, b: &str) { (**self).d(o, b) } }
impl<T: Dump> Dump for Vec<T> { fn d(&self, o: &mut String, b: &str) {
    o.push('['); for x in self { x.d(o, b); o.push(';'); } o.push(']'); } }
impl<T: Dump, U: Dump> Dump for (T, U) { fn d(&self, o: &mut String, b: &str) {
    o.push('<'); self.0.d(o, b); o.push(','); self.1.d(o, b); o.push('>'); } }
impl<T: Dump, U: Dump, V: Dump> Dump for (T, U, V) { fn d(&self, o: &mut String, b: &str) {
    o.push('<'); self.0.d(o, b); o.push(','); self.1.d(o, b); o.push(','); self.2.d(o, b); o.push('>'); } }

// user-supplied elements: a marker letter and digits, or nothing before '~'
fn elem<'a>(i: &'a str, m: char, e: char) -> IResult<&'a str, (usize, usize)> {
    let b = i.as_bytes();
    if !b.is_empty() && b[0] as char == e { return Ok((i, (i.as_ptr() as usize, 0))); }
    if b.is_empty() || b[0] as char != m { return Err(Err::Error((i, ErrorKind::Char))); }
    let mut n = 1;
    while n < b.len() && b[n].is_ascii_digit() { n += 1; }
    Ok((&i[n..], (i.as_ptr() as usize, n)))
}
'''

MAIN = r'''
fn show<'a, T: Dump>(b: &'a str, r: IResult<&'a str, T>) -> String {
    match r {
        Ok((rest, v)) => { let mut o = String::new(); v.d(&mut o, b); format!("O {} {}", place(rest, b), o) }
        Err(Err::Error((e, _))) => format!("E {}", place(e, b)),
        Err(Err::Failure((e, _))) => format!("X failure {}", place(e, b)),
        Err(Err::Incomplete(_)) => "X incomplete".to_string(),
    }
}
fn conv<'a, T, U: From<T> + Dump>(b: &'a str, r: IResult<&'a str, T>) -> String {
    match r {
        Ok((_, v)) => { let mut o = String::new(); U::from(v).d(&mut o, b); format!("O 0 {}", o) }
        Err(_) => "E 0".to_string(),
    }
}
fn answer(idx: usize, text: &str) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(idx, text))) {
        Ok(s) => s,
        Err(e) => format!("P {}", e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
fn put(r: &str) {
    let out = std::io::stdout();
    let mut o = out.lock();
    o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
    o.write_all(r.as_bytes()).unwrap();
    o.flush().unwrap();
}
fn serve() {
    let mut all = Vec::new();
    std::io::stdin().read_to_end(&mut all).unwrap();
    let mut p = 0;
    let mut reqs = Vec::new();
    while p + 8 <= all.len() {
        let idx = u32::from_le_bytes([all[p], all[p + 1], all[p + 2], all[p + 3]]) as usize;
        let n = u32::from_le_bytes([all[p + 4], all[p + 5], all[p + 6], all[p + 7]]) as usize;
        p += 8;
        reqs.push((idx, std::str::from_utf8(&all[p..p + n]).unwrap().to_string()));
        p += n;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let threads: usize = std::env::var("HARNESS_THREADS").ok().and_then(|n| n.parse().ok()).unwrap_or(1);
    if threads < 2 {
        // the same buffer for every text: what was remembered about an earlier one is wrong
        let mut buf = String::with_capacity(1 << 20);
        for (idx, s) in &reqs {
            buf.clear();
            buf.push_str(s);
            put(&answer(*idx, &buf));
        }
        return;
    }
    let reqs = std::sync::Arc::new(reqs);
    let hs: Vec<_> = (0..threads).map(|t| {
        let reqs = reqs.clone();
        std::thread::Builder::new().stack_size(1 << 26).spawn(move || {
            let mut buf = String::with_capacity(1 << 16);
            let mut out = Vec::new();
            for k in (t..reqs.len()).step_by(threads) {
                buf.clear();
                buf.push_str(&reqs[k].1);
                out.push(answer(reqs[k].0, &buf));
            }
            out
        }).unwrap()
    }).collect();
    let outs: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for k in 0..reqs.len() { put(&outs[k % threads][k / threads]); }
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 29).spawn(serve).unwrap().join().unwrap();
}
'''


def source():
    """(Rust source, {key: request number})"""
    o = [HEAD]
    MARK = dict(zip(G.ABSTRACT, ['t', 'u', 'v', ',', 'e']))
    for a in G.ABSTRACT:
        o.append('#[derive(Clone, Copy, Debug, Default, Eq, PartialEq, Ord, PartialOrd, Hash)]\npub struct %s(usize, usize);\n' % a)
        o.append("impl<'a> Parse<'a> for %s { fn parse(i: &'a str) -> IResult<&'a str, Self> { let (r, x) = elem(i, '%s', '%s')?; Ok((r, %s(x.0, x.1))) } }\n"
                 % (a, MARK[a], '~' if G.nullable((a,)) else '\\u{10FFFF}', a))
        o.append("impl Dump for %s { fn d(&self, o: &mut String, b: &str) { if self.0 == 0 { o.push('z') } else { o.push_str(&format!(\"%s@{}:{}\", self.0.wrapping_sub(b.as_ptr() as usize), self.1)) } } }\n" % (a, a))
    for n in list(G.PUNCT) + list(G.KEYWORDS):
        o.append('impl Dump for weedle::term::%s { fn d(&self, o: &mut String, _b: &str) { o.push_str("%s") } }\n' % (n, n))
    for n in G.LEX:
        o.append("impl<'a> Dump for %s { fn d(&self, o: &mut String, b: &str) { o.push_str(\"%s\"); slice(self.0, o, b) } }\n" % (G.rust((n,)), n))
    o.append('impl Dump for weedle::literal::BooleanLit { fn d(&self, o: &mut String, _b: &str) { o.push_str(if self.0 { "B1" } else { "B0" }) } }\n')

    def strct(head, name, names):
        b = 'o.push_str("%s("); ' % name
        b += ' o.push(\',\'); '.join('self.%s.d(o, b);' % f for f in names)
        o.append('%s { fn d(&self, o: &mut String, b: &str) { %s o.push(\')\') } }\n' % (head, b))
    for n in G.DEFS:
        rt = G.rust((n,))
        lt = "impl<'a> Dump for " if "'a" in rt else 'impl Dump for '
        if G.variants((n,)) is None:
            strct(lt + rt, n, [f for f, _ in G.fields((n,))])
        else:
            path = rt.split('<')[0]
            arms = ' '.join('%s::%s(x) => { o.push_str("%s::%s("); x.d(o, b); o.push(\')\') }' % (path, v, n, v)
                            for v, _ in G.variants((n,)))
            o.append('%s { fn d(&self, o: &mut String, b: &str) { #[allow(unreachable_patterns)] match self { %s _ => o.push_str("?unknown") } } }\n' % (lt + rt, arms))
    for n, (mod, fs) in G.GENERIC_STRUCTS.items():
        strct('impl<T: Dump> Dump for weedle::%s::%s<T>' % (mod, n), n, [f for f, _ in fs])
    for n, (mod, _) in G.SEPS.items():
        strct('impl<T: Dump, S: Dump> Dump for weedle::%s::%s<T, S>' % (mod, n), n, ['list', 'separator'])
    arms, idx = [], {}

    def arm(key, code):
        idx[key] = len(idx)
        arms.append('        %d => %s,\n' % (idx[key], code))
    for t in G.all_types() + G.generic_types():
        arm(('parse', t), 'show(s, <%s as Parse>::parse(s))' % G.rust(t, lt="'_"))
    for n, a in G.TERM_MACRO.items():
        arm(('term', ('term::' + n,)), 'show(s, <weedle::term!(%s) as Parse>::parse(s))' % a)
    for n in G.DEFS:
        for vn, vt in G.variants((n,)) or []:
            arm(('from', (n,), vn, vt), 'conv::<%s, %s>(s, <%s as Parse>::parse(s))' % (
                G.rust(vt, lt="'_"), G.rust((n,), lt="'_"), G.rust(vt, lt="'_")))
    arm(('whole',), "match weedle::parse(s) { Ok(v) => show(s, Ok((&s[s.len()..], v))), Err(e) => show::<Vec<weedle::Definition<'_>>>(s, Err(e)) }")
    o.append('fn run(k: usize, s: &str) -> String {\n    match k {\n%s        _ => unreachable!(),\n    }\n}\n' % ''.join(arms))
    o.append(MAIN)
    return ''.join(o), idx


def write(d, repo):
    os.makedirs(d + '/src', exist_ok=True)
    _, idx = source()
    open(d + '/Cargo.toml', 'w').write('''[package]
name = "harness"
version = "0.0.0"
edition = "2018"

[dependencies]
weedle = { path = "%s" }

[profile.dev]
opt-level = 1
debug = false
debug-assertions = true
overflow-checks = true
incremental = false

[profile.release]
opt-level = 1
debug-assertions = false
overflow-checks = false

[workspace]
''' % repo)
    return idx


if __name__ == '__main__':
    import sys
    print(len(write(sys.argv[1], sys.argv[2])))
