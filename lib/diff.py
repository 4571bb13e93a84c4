"""Runs the real parsers (harness) against the reference interpreter."""
import os
import random
import struct
import subprocess
import sys
import tempfile
import time
import itertools
import multiprocessing
import resource
import grammar as G
import refparse as RP
import sentences as SE
import reduce

BATCH = 300
sys.setrecursionlimit(20000)


def run_batch(binary, reqs, timeout=20, threads=1):
    """reqs: [(number, text)] -> [answer or None]; None: no answer (crash or time-out)."""
    data = b''.join(struct.pack('<II', k, len(b)) + b for k, b in ((k, s.encode()) for k, s in reqs))
    with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo:
        fi.write(data)
        fi.seek(0)

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            # so that one that never ends does not outlive a worker that was stopped
            resource.setrlimit(resource.RLIMIT_CPU, (int(timeout * threads) + 5, int(timeout * threads) + 6))
        why = 'the process ended'
        try:
            p = subprocess.run([binary], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=lim,
                               env=dict(os.environ, HARNESS_THREADS=str(threads)))
        except subprocess.TimeoutExpired:
            why = 'no answer within %d s' % timeout
        fo.seek(0)
        out = fo.read()
    res, p = [], 0
    while p + 4 <= len(out) and len(res) < len(reqs):
        n = struct.unpack_from('<I', out, p)[0]
        if p + 4 + n > len(out):
            break
        res.append(out[p + 4:p + 4 + n].decode())
        p += 4 + n
    return res, why


def answers(binary, reqs, timeout=20):
    out = []
    todo = list(reqs)
    while todo:
        res, why = run_batch(binary, todo, timeout)
        out += res
        todo = todo[len(res):]
        if todo:
            out.append('T ' + why)      # the next one did not answer
            todo = todo[1:]
    return out


# ---- what counts as a violation --------------------------------------------
def full(key, text, got, exp):
    if key[0] == 'parse' and G.loose(key[1]):
        return total(key, text, got, exp)
    if got[0] == 'O':
        if exp[0] != 'O':
            return 'accepted, but the grammar rejects it'
        _, rest, dump = got.split(' ', 2)
        if dump != exp[2]:
            return 'wrong tree'
        if rest != str(exp[1]):
            return 'wrong rest'
        return None
    if got[0] == 'E':
        if exp[0] == 'O':
            return 'rejected, but the grammar accepts it'
        off = got[2:]
        if off == '?' or (exp[1] is not None and off != str(exp[1])):
            return 'error does not point where parsing stopped'
        return None
    return {'P': 'panics', 'X': 'fails fatally', 'T': 'does not return'}[got[0]]


def total(key, text, got, exp):
    if got[0] in 'PXT':
        return {'P': 'panics', 'X': 'fails fatally', 'T': 'does not return'}[got[0]]
    if got[0] == 'E':
        return 'error lies outside the input' if got[2:] == '?' else None
    rest = got.split(' ', 2)[1]
    if rest == '?':
        return 'rest is no tail of the input'
    if key[0] in ('parse', 'term') and rest == '0' and not G.nullable(key[1]) and not G.loose(key[1]):
        return 'succeeds without consuming anything'
    return None


def blank(d):
    """A dump without the texts, and the texts."""
    import re
    return re.sub(r'@\d+:\d+|!copy"(?:[^"\\]|\\.)*"', '@', d), re.findall(r'@\d+:\d+|!copy"(?:[^"\\]|\\.)*"', d)


def zerocopy(key, text, got, exp):
    if got[0] != 'O' or key[0] == 'parse' and G.loose(key[1]):
        return None
    _, rest, dump = got.split(' ', 2)
    if rest == '?':
        return 'rest is no tail of the input'
    s, t = blank(dump)
    if any(x.startswith('!') for x in t):
        return 'a text in the tree is no slice of the input'
    if exp[0] == 'O':
        s2, t2 = blank(exp[2])
        if s == s2 and t != t2:
            return 'a text in the tree is not the slice where its token stands'
        if dump == exp[2] and rest != str(exp[1]):
            return 'rest does not begin where the construct and its trailing whitespace end'
    return None


def normal(text, binary=None):
    """The text with every run of whitespace and comments outside strings made plain."""
    r = RP.Ref(text)
    out, p = [], r.ws(0)
    while p < len(text):
        m = RP.RX['StringLit'].match(text, p)
        e = m.end() if m else p + 1
        out.append(text[p:e])
        p = r.ws(e)
        if p > e:
            out.append(' ')
    return ''.join(out).strip(' ')


LIKE = ' \t\r\n\x0b\x0c\x00\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2002\u2003\u2009\u200b\u2028\u2029\u202f\u205f\u3000\ufeff/*#'


def core(key, s):
    """The text without anything that is, or looks like, whitespace or a comment."""
    import re
    if key[1] == ('StringLit',):
        m = RP.RX['StringLit'].match(s, RP.Ref(s).ws(0))
        if m:
            return '"' + re.sub('[%s]' % re.escape(LIKE), 'x', m.group(1)) + '"'
    s = re.sub(r'/\*.*?\*/|//[^\n]*', '', s, flags=re.S)
    return s.strip(LIKE)


CMP = {'full': full, 'total': total, 'zerocopy': zerocopy, 'trivia': full}


def lexical_texts(key, lits):
    """Every text up to a small length over an alphabet fitted to a token."""
    t = key[1] if key[0] in ('parse', 'term') else None
    if t is None:
        return [], 0
    n = t[0]
    if n.startswith('term::'):
        nm = n[6:]
        w = G.KEYWORDS.get(nm) or G.PUNCT[nm]
        cs = [chr(c) for c in range(128)] + ['é', '²', '\u0663', '一', '\u00a0', '\u2028', '\uff11', 'ſ']
        out = [w] + [w + c for c in cs] + [c + w for c in cs] + [w + c + d for c in cs for d in '_-a0 /*.é'] + \
              [w[:k] for k in range(len(w))] + [w.upper(), w.lower(), w.swapcase()] + \
              [w[:k] + c + w[k + 1:] for k in range(len(w)) for c in cs] + [w[:k] + ' ' + w[k:] for k in range(len(w))] + \
              [w[:k] + w[k + 1:] for k in range(len(w))]
        return out, 2
    al = {'Identifier': 'aZ_-09.m \u00e9g', 'StringLit': '"a\\/* \n\u00e9', 'DecLit': '-019a+. 8\u0663', 'HexLit': '-0xX19aFgG ', 'OctLit': '-0178x9 ',
          'FloatValueLit': '-09.eE+ x', 'IntegerLit': '-0x17.8a ', 'FloatLit': '-0.eE+1 '}.get(n)
    if al is None:
        return [], 0
    for l in lits:
        for c in l:
            if c not in al and len(al) < 13:
                al += c
    out = []
    L = 5 if len(al) <= 10 else 4
    for k in range(L + 1):
        out += [''.join(x) for x in itertools.product(al, repeat=k)]
    out += [x.replace('%s', c) for x in AROUND.get(n, ()) for c in SWEEP]
    return out, L


# one character at a time: all of Latin-1 and its neighbours, and characters whose low 7, 8 or 16
# bits are those of an ASCII character
SWEEP = [chr(c) for c in list(range(0x500)) + [0x1F00 + c for c in range(128)] + [0xFF00 + c for c in range(0xF0)] +
         [p + c for p in (0x10000, 0x10100, 0x100000) for c in range(128)] + [0x2028, 0x2029, 0x200b, 0x3000, 0xfeff, 0x10ffff, 0x1680, 0x202f, 0x205f]]
AROUND = {'Identifier': ['%sa', 'a%s', 'a%sb', '_%s'], 'StringLit': ['"%s"', '"a%s', '%s"a"', '"a"%s'], 'DecLit': ['1%s', '-%s', '%s1', '1%s1', '-%s1'],
          'HexLit': ['0x%s', '0%s1', '0x1%s', '0xa%sb', '%s0x1', '-%s0x1'], 'OctLit': ['0%s', '07%s', '0%s7', '%s07', '-%s0'],
          'FloatValueLit': ['1.%s', '.%s', '1%s5', '1e%s', '1e%s5', '1.5%s', '1.5%s2', '1.5%s+2', '%s1.5', '-%s.5', '1%se5']}

PIECES = ['/', '*', '//', '/*', '*/', '\n', ' ', '\t', '\r', 'a', '"', '\x0b', '\u00a0', '\x0c']


def trivia_texts(tok, n=3):
    out = []
    for k in range(n + 1):
        for x in itertools.product(PIECES, repeat=k):
            w = ''.join(x)
            out.append(w + tok)
            out.append(tok + w)
    for c in SWEEP:
        out += [c + tok, tok + c, ' ' + c + tok, '//' + c + '\n' + tok, '//' + c + tok, '/*' + c + '*/' + tok, '/' + c + tok, '/*' + c + '/' + tok]
    return out


STEPS = [10, 17, 33, 65, 129, 257, 513, 1025, 4097]


def scale_texts(roots, targets, sizes, seed, limit=900):
    """Long lists, long tokens, long runs of whitespace, deep nesting: around the sizes the code
    mentions, and some others."""
    r = random.Random(seed)
    near = sorted(set(n + d for n in sizes for d in (-1, 0, 1, 2)))
    near = [n for n in near if 0 < n <= 70000]
    out = []
    roots = list(roots)
    r.shuffle(roots)
    for key in roots[:40]:
        t = key[1] if key[0] in ('parse', 'term') else key[3] if key[0] == 'from' else RP.DEFS
        inside = G.closure([t])
        lists = [x for x in inside if x[0] == 'Vec' or x[0] in G.SEPS]
        lists = [x for x in lists if x in targets or x == t] or lists
        r.shuffle(lists)
        for n in near + STEPS:
            for x in lists[:3]:
                if n < 5000 or x[1][0] in G.LEX or x[1][0].startswith('term::') or x[1][0] in G.ABSTRACT:
                    out.append((key, SE.Gen(r, (), x).big(t, x, n)))
        lex = [x for x in inside if x[0] in G.LEX]
        r.shuffle(lex)
        for n in near + STEPS + [66000]:
            for x in lex[:2]:
                tok = {'Identifier': 'ab' * (n // 2) + 'c' * (n % 2), 'StringLit': '"' + 'x' * n + '"', 'DecLit': '1' * n, 'HexLit': '0x' + 'a' * n,
                       'OctLit': '0' * n, 'FloatValueLit': '1.' + '5' * n}[x[0]]
                out.append((key, SE.Gen(r, (), x).big(t, x, [tok])))
            if n <= 66000:
                toks = SE.Gen(r).toks(t, 4)
                for w in (' ' * n, '/*' + 'x' * n + '*/', '//' + 'x' * n + '\n', '/**/' * min(n, 4000), '\n' * n):
                    k = r.randrange(len(toks) + 1)
                    out.append((key, ' '.join(toks[:k]) + w + ' '.join(toks[k:])))
        ty = G.tparse('Type')
        if ty in inside:
            for n in [x for x in near if x <= 600] + [20, 40, 70, 130, 260, 500]:
                for tok in (['sequence', '<'] * n + ['long'] + ['>'] * n, ['('] * n + ['a', 'or', 'b'] + [')', 'or', 'c'] * (n - 1) + [')'],
                            ['record', '<', 'DOMString', ','] * n + ['any'] + ['>'] * n):
                    out.append((key, SE.Gen(r, (), ty).big(t, ty, tok)))
    r.shuffle(out)
    out = [(k, s) for k, s in out if len(s) < 400000]
    return out[:limit]


def judge(cmpf, key, text, got):
    exp = RP.Ref(text).expect(key)
    return cmpf(key, text, got, exp), exp


def verdict(binary, idx, cmpname, key, s, got):
    """(what is wrong, expected): cmpname is a comparison, or wide:ID for differences in composite
    constructs that are to be attributed to a property"""
    wide = cmpname.startswith('wide:')
    why, exp = judge(full if wide else CMP[cmpname], key, s, got)
    if why and cmpname == 'trivia' and not trivia_only(binary, idx, key, s):
        why = None
    if why and wide and not reduce.counts(cmpname[5:], key, s, got, exp, lambda r: judge(
            full, key, r, answers(binary, [(idx[key], r)])[0])[0] is None):
        why = None
    return why, exp


def trivia_only(binary, idx, key, s):
    """Is the difference gone once everything around the token is taken away?"""
    c = core(key, s)
    if c == s:
        return False
    g = answers(binary, [(idx[key], c)])[0]
    return judge(full, key, c, g)[0] is None


def history_texts(roots, seed, jobs=8, n=70000):
    """Many short texts in one process, those of one length in a row: is anything remembered?"""
    r = random.Random(seed)
    roots = list(roots)
    out = []
    for _ in range(jobs):
        items = []
        few = [r.choice(roots) for _ in range(3)]
        for key in few:
            t = key[1] if key[0] in ('parse', 'term') else key[3] if key[0] == 'from' else RP.DEFS
            for _ in range(6):
                s = ' '.join(SE.Gen(r).toks(t, 3))[:60]
                k = r.randrange(len(s) + 1)
                near = [s, s[:k] + ' ' + s[k + 1:], ' ' + s[:-1], s[1:] + ' ', s[:-1] + ';', s, s.upper(), '\n' + s[:-1], s[:k] + '/' + s[k + 1:], s]
                items += [(key, x) for x in near]
        out.append((items * (n // len(items) + 1))[:n])
    return out


def check_history(binary, idx, cmpname, items, threads=1):
    """The same few texts over and over, in one process, by one thread or by several at once."""
    res, why = run_batch(binary, [(idx[key], s) for key, s in items], 60, threads)
    if len(res) < len(items):
        res.append('T ' + why)
    exp = {}
    for k, ((key, s), got) in enumerate(zip(items, res)):
        if (key, s, got) in exp:
            continue
        w, e = verdict(binary, idx, cmpname, key, s, got)
        if w:
            if threads > 1 and got[0] == 'T':   # which text it was is not known
                return [], k
            return [(key, s, got, e, w, [(idx[a], b) for a, b in (items if threads > 1 else items[:k])], threads)], k
        exp[key, s, got] = True
    return [], len(items)


def alone(binary, idx, cmpname, item):
    """(violation, texts before it, threads): without the texts before it, if they are not needed; otherwise
    with as few as can be had quickly."""
    key, s, got, exp, why, before = item[:6]
    threads = item[6] if len(item) > 6 else 1

    def bad(pre):
        res, w = run_batch(binary, pre + [(idx[key], s)], 60)
        g = res[-1] if len(res) == len(pre) + 1 else 'T ' + w
        w, e = verdict(binary, idx, cmpname, key, s, g)
        return (g, e, w) if w else None
    for n in [0, 1, 2, 3, 5, 10, 30, 100, 300, 1000, 10000, 30000]:
        if n >= len(before):
            break
        pre = before[len(before) - n:]
        x = bad(pre)
        if x:
            return (key, s) + x, pre, 1
    return (key, s, got, exp, why), before, threads


def check_texts(binary, idx, cmpname, items, timeout=20):
    """items: [(key, text)] -> first violations [(key, text, got, exp, why)], number checked"""
    bad, n = [], 0
    for k in range(0, len(items), BATCH):
        part = [(key, s) for key, s in items[k:k + BATCH] if not any(0xd800 <= ord(c) < 0xe000 for c in s)]
        res = answers(binary, [(idx[key], s) for key, s in part], timeout)
        for j, ((key, s), got) in enumerate(zip(part, res)):
            n += 1
            why, exp = verdict(binary, idx, cmpname, key, s, got)
            if why:
                bad.append((key, s, got, exp, why, [(idx[a], b) for a, b in part[:j]]))
        if bad:
            break
    return bad, n


def _work(a):
    binary, idx, cmpname, roots, target, lits, seed, until, mode, cap = a
    r = random.Random(seed)
    n = 0
    if mode[0] == 'list':
        return check_texts(binary, idx, cmpname, mode[1])
    if mode[0] == 'history':
        return check_history(binary, idx, cmpname, *mode[1:])
    while time.time() < until and (cap is None or n < cap):
        items = []
        for _ in range(BATCH):
            key = r.choice(roots)
            tg = None
            if target and r.random() < .8:
                tg = r.choice(target)
            t = key[1] if key[0] in ('parse', 'term') else key[3] if key[0] == 'from' else RP.DEFS
            if tg is not None and tg not in SE.dist(tg):
                tg = None
            g = SE.Gen(r, lits, tg)
            items.append((key, g.text(t)))
        bad, k = check_texts(binary, idx, cmpname, items)
        n += k
        if bad:
            return bad, n
    return [], n


def search(binary, idx, cmpname, roots, targets=(), lits=(), seconds=60, seed=1, procs=8, exhaustive=True, cap=None, sizes=None):
    """Search for a text on which the real code and the reference differ."""
    until = time.time() + seconds
    jobs = []
    if exhaustive:
        ex = []
        for key in roots:
            if key[0] in ('parse', 'term'):
                ts, _ = lexical_texts(key, list(lits))
                ex += [(key, s) for s in ts]
                n = key[1][0]
                tok = None
                if n.startswith('term::'):
                    tok = G.KEYWORDS.get(n[6:]) or G.PUNCT[n[6:]]
                elif n in G.LEX:
                    tok = {'Identifier': 'ab', 'StringLit': '"s"', 'DecLit': '1', 'HexLit': '0x1', 'OctLit': '07', 'FloatValueLit': '1.5'}[n]
                if tok and (n in G.LEX or n in ('term::Comma', 'term::Long', 'term::Asterisk')):
                    ex += [(key, s) for s in trivia_texts(tok, 3)]
        random.Random(seed).shuffle(ex)
        c = max(2000, min(60000, len(ex) // procs + 1))
        jobs += [('list', ex[k:k + c]) for k in range(0, len(ex), c)]
    if sizes is not None:
        big = scale_texts(roots, targets, sizes, seed)
        c = max(1, len(big) // (2 * procs))
        jobs += [('list', big[k:k + c]) for k in range(0, len(big), c)]
        jobs += [('history', x, 8 if j % 4 == 3 else 1) for j, x in enumerate(history_texts(roots, seed))]
    args = [(binary, idx, cmpname, roots, list(targets), list(lits), seed * 1000 + j, until, m, cap) for j, m in enumerate(jobs)]
    args += [(binary, idx, cmpname, roots, list(targets), list(lits), seed * 1000 + 500 + j, until, ('rand',), cap and max(BATCH, cap // procs))
             for j in range(procs)]
    total_n, found = 0, []
    with multiprocessing.Pool(procs) as pool:
        for bad, n in pool.imap_unordered(_work, args):
            total_n += n
            if bad:
                found += bad
                break
        pool.terminate()
    return found, total_n


def shrink(binary, idx, cmpname, item, seconds=10):
    """Drop characters while the same kind of violation remains."""
    key, s, got, exp, why = item
    end = time.time() + seconds
    step = max(1, len(s) // 2)
    if got[0] == 'T':
        return item
    while step >= 1 and time.time() < end:
        cands = [s[:k] + s[k + step:] for k in range(0, len(s), step)]
        res = answers(binary, [(idx[key], c) for c in cands])
        hit = None
        for c, g in zip(cands, res):
            w, e = verdict(binary, idx, cmpname, key, c, g) if g[0] != 'T' else (None, None)
            if w:
                hit = (key, c, g, e, w)
                break
        if hit:
            key, s, got, exp, why = hit
            step = min(step, max(1, len(s) // 2))
        elif step == 1:
            break
        else:
            step //= 2
    return (key, s, got, exp, why)


if __name__ == '__main__':
    import gen_harness
    _, idx = gen_harness.source()
    b = sys.argv[1]
    roots = list(idx)
    if len(sys.argv) > 3:
        roots = [k for k in roots if any(a in repr(k) for a in sys.argv[3:])]
    t0 = time.time()
    found, n = search(b, idx, 'full', roots, seconds=float(sys.argv[2]), seed=int(os.environ.get('VERIF_SEED', '1')))
    print(n, 'texts', round(time.time() - t0, 1), 's')
    for f in found[:5]:
        f, before, _ = alone(b, idx, 'full', f)
        f = f if before else shrink(b, idx, 'full', f)
        print(f[0], repr(f[1]), f[2], f[3], f[4])
