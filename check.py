#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's current working tree
check.py --setup                 build extractor and harness, evaluate once
check.py --replay FILE          run a recorded failing input against /repo's current code"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import grammar as G
import gen_probe
import gen_harness
import residual as R
import verify
import diff
import props

REPO = os.environ.get('WEEDLE_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
T0 = time.time()


def say(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree_hash():
    h = hashlib.sha256()
    for base in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'src'):
        b = os.path.join(REPO, base)
        files = [b] if os.path.isfile(b) else sorted(os.path.join(d, f) for d, _, fs in os.walk(b) for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    for f in ['check.py', 'extract/main.rs', 'lib/stop.txt'] + ['lib/' + x for x in sorted(os.listdir(HERE + '/lib')) if x.endswith('.py')]:
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:16]


def crate(d, writer):
    writer()
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, d + '/Cargo.lock')


def build_extractor(d):
    x = BUILD + '/extract-' + hashlib.sha256(open(HERE + '/extract/main.rs', 'rb').read()).hexdigest()[:12]
    if not os.path.exists(x):
        rc, out = sh(['rustc', '+nightly', '--edition', '2021', '-O', HERE + '/extract/main.rs', '-o', x + '.new'])
        if rc:
            raise CheckError('building the extractor: ' + out[-2000:])
        os.rename(x + '.new', x)
    return x


def lenient(src, path, build, what):
    """Build a crate whose every line stands on its own.  Lines about parts of the interface that /repo
    no longer has are taken out, and returned: what they were to reach is then missing."""
    lines = src.split('\n')
    gone = []
    for _ in range(8):
        text = '\n'.join(lines)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, 'w').write(text)
        rc, out = build()
        if not rc:
            return gone
        rel = re.escape('src/' + os.path.basename(path))
        bad = sorted(set(int(m.group(1)) for m in re.finditer(r'^%s:(\d+):\d+: error' % rel, out, re.M)))
        if not bad or 'error: could not compile `weedle`' in out:
            raise CheckError(what + ': ' + out[-3000:])
        for n in bad:
            l = lines[n - 1]
            gone.append(l)
            m = re.match(r'(impl.* Dump for .*?) \{ fn d\(', l)
            lines[n - 1] = m.group(1) + ' { fn d(&self, o: &mut String, b: &str) { o.push_str("?changed") } }' \
                if m and 'push_str("?changed")' not in l else ''
    raise CheckError(what + ': ' + out[-3000:])


def build_deps(d):
    """(probe crate, root functions the interface of /repo has no more)"""
    p = d + '/probe'
    src, _ = gen_probe.probe_source()

    def wr():
        os.makedirs(p + '/src', exist_ok=True)
        open(p + '/Cargo.toml', 'w').write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2018"\n\n[dependencies]\n'
                                           'weedle = { path = "%s" }\n\n[workspace]\n' % REPO)
    crate(p, wr)
    gone = lenient(src, p + '/src/lib.rs', lambda: sh(
        ['cargo', '+nightly', 'build', '--offline', '--message-format=short', '--target-dir', d + '/deps'], cwd=p,
        env={'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Coverflow-checks=on'}), 'building /repo for extraction')
    return p, [m.group(1) for m in (re.match(r'pub fn (root_\w+)', l) for l in gone) if m]


def build_harness(d, release=False):
    """(harness binary, requests it cannot answer as the interface of /repo has changed)"""
    h = d + '/harness'
    src = []
    crate(h, lambda: src.append(gen_harness.write(h, REPO)))
    gone = lenient(gen_harness.source()[0], h + '/src/main.rs', lambda: sh(
        ['cargo', 'build', '--offline', '--message-format=short', '--target-dir', d + '/htarget'] + ['--release'] * release, cwd=h), 'building the harness')
    return d + '/htarget/%s/harness' % ('release' if release else 'debug'), [int(m.group(1)) for m in (re.match(r' *(\d+) => ', l) for l in gone) if m]


def two_faced():
    """Does the code behave differently with debug assertions?  The proof is about the build with them;
    the other one is then searched as well."""
    for b, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            if f.endswith('.rs') and re.search(r'debug_assert|overflow_checks', open(os.path.join(b, f), errors='replace').read()):
                return True
    return False


def extract(d, x, p):
    rmeta = []
    for b, _, fs in os.walk(d + '/deps'):
        rmeta += [os.path.join(b, f) for f in fs if f.endswith('.rmeta')]
    args = [x, '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'probe', 'src/lib.rs']
    for f in sorted(set(os.path.dirname(f) for f in rmeta)):
        args += ['-L', 'dependency=' + f]
    w = [f for f in rmeta if os.path.basename(f).startswith('libweedle')]
    if not w:
        raise CheckError('no metadata of weedle')
    args += ['--extern', 'weedle=' + w[0], '-Zalways-encode-mir', '-Zmir-opt-level=0', '-Zub-checks=no', '-Coverflow-checks=on']
    rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
    out_file = d + '/mir.json'
    if os.path.exists(out_file):
        os.remove(out_file)
    rc, out = sh(args, cwd=p, env={'EXTRACT_OUT': out_file, 'EXTRACT_STOP': HERE + '/lib/stop.txt',
                                   'LD_LIBRARY_PATH': sysroot.strip() + '/lib'})
    if not os.path.exists(out_file):
        raise CheckError('extraction: ' + out[-3000:])
    return json.load(open(out_file))


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    d = BUILD + '/t-' + tree_hash()
    for o in sorted((x for x in os.listdir(BUILD) if x.startswith('t-') and BUILD + '/' + x != d),
                    key=lambda x: os.path.getmtime(BUILD + '/' + x))[:-2]:
        shutil.rmtree(BUILD + '/' + o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        fx, fd, fh = ex.submit(build_extractor, d), ex.submit(build_deps, d), ex.submit(build_harness, d)
        x, (p, gone) = fx.result(), fd.result()
        data = extract(d, x, p)
        _, names = gen_probe.probe_source()
        names = {n: k for n, k in names.items() if n not in gone}
        E, res = evaluate(data, names, d)
        return d, E, res, fh.result(), data, [gen_probe.probe_source()[1][n] for n in gone]


def evaluate(data, names, d):
    """Residual programs of every function under contract.  Callers are checked against the contract
    of the function that skips whitespace; if it no longer has the name it had, the function that
    fulfils that contract takes its place, and if there is none it is inlined like any helper."""
    P = R.Program(data)
    cand = R.skippers(P)
    if cand and cand[0][2] != 'weedle::whitespace::sp':
        for c in cand[:6]:
            E, res = R.evaluate(data, names, want={('sp',)}, sp=c)
            if isinstance(res.get(('sp',), Exception()), Exception):
                continue
            if verify.Run(E, res, d + '/verus-sp').verify([('sp',)])[('sp',)].status == 'proved':
                return R.evaluate(data, names, sp=c)
    return R.evaluate(data, names)


def closure(res, keys):
    out, todo = set(), [k for k in keys if k in res]
    while todo:
        k = todo.pop()
        if k in out or k not in res:
            continue
        out.add(k)
        if not isinstance(res[k], Exception):
            todo += list(res[k].calls)
        else:
            # what it calls is not known: everything its construct is made of
            if k[0] in ('parse', 'term'):
                todo += [('parse', t) for t in G.closure([k[1]])] + [('sp',)]
            elif k[0] == 'whole':
                todo += [('parse', G.tparse('Definitions'))]
    return out


def literals(E, data):
    """Texts and sizes the code mentions beyond those of the grammar: hints for the search."""
    strs, ints = set(), set()

    def char(c):
        if 0 <= c <= 0x10ffff and not 0xd800 <= c < 0xe000:
            strs.add(chr(c))

    def walk(x):
        if isinstance(x, dict):
            k = x.get('c')
            if k == 'str' and isinstance(x.get('v'), str):
                strs.add(x['v'])
            elif k == 'char':
                char(x['v'])
            elif k == 'int' and isinstance(x.get('v'), int):
                ints.add(x['v'])
                if 32 < x['v'] < 256:
                    char(x['v'])
            if x.get('t') == 'switch':
                for c, _ in x['cases']:
                    if 32 < c <= 0x10ffff:
                        char(c)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for i in data['insts']:
        if i['body'] and 'weedle' in i['def']:
            walk(i['body'])
    for iv in E.preds:
        for a, b in iv:
            for c in (a - 1, a, b, b + 1):
                char(c)
    strs -= set(G.KEYWORDS.values()) | set(G.PUNCT.values())
    return sorted(x for x in strs if 0 < len(x) < 60), sorted(n for n in ints if 1 < n <= 70000 and n not in (45, 95))


TRUSTED = [
    'extract/main.rs: reads the compiler\'s MIR of every function reachable from the public API (rustc nightly, mir-opt-level 0)',
    'lib/residual.py: symbolic evaluation of that MIR into residual programs (all control flow, text offsets, values); helpers and nom combinators are inlined, nothing is summarised by hand',
    'lib/gen_verus.py: prints residual programs and contracts as Verus text; lib/grammar.py: the reference grammar',
    'Verus 0.2026.09.13 and Z3',
    'given meanings of the library leaves listed under assumed_leaves',
]
ASSUME = [
    'unwind edges, drop glue and error kinds are not extracted; a panic is an obligation of its own (never panics)',
    'text lengths and offsets never overflow usize (allocations are at most isize::MAX bytes)',
    'stack and memory are not exhausted',
    'shared references and boxes are transparent (safe Rust, no interior mutability in the values involved)',
    'user-supplied element parsers of the generic combinators are deterministic and return a tail of their input or a recoverable error inside it',
]


def decide(pid, tier, seed):
    pr = props.PROPS[pid]
    lock = open(os.path.join(HERE, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    d, E, res, (binary, mute), data, gone = prepare()
    t_prep = time.time() - T0
    _, idx = gen_harness.source()
    idx = {k: n for k, n in idx.items() if n not in mute}
    own = [k for k in pr['own'] if k in res]
    missing = [k for k in pr['own'] if k not in res and not (k[0] == 'parse' and k[1][0] in G.ABSTRACT)]
    wide = pr.get('wide', [])
    clo = closure(res, own + pr['roots'] + wide)
    clo = sorted(clo, key=repr)
    run = verify.Run(E, res, d + '/verus-' + pid)
    with ThreadPoolExecutor(1) as ex:
        fg = ex.submit(run.grammar, G.closure(G.all_types() + G.generic_types()))
        ans = run.verify(clo)
        gram_ok, gram_raw = fg.result()
    if not gram_ok:
        raise CheckError('the reference grammar is not well defined: ' + gram_raw[-500:])
    vac = None
    if tier == 'thorough':
        dead, alive, total = run.vacuous([k for k in clo if ans[k].status == 'proved'])
        for k in dead:
            ans[k] = verify.Answer('undecided', ans[k].obl, why='no success is consistent with the assumptions')
        vac = {'functions_without_a_reachable_success': [props.name(k) for k in dead], 'successes_shown_reachable': alive, 'of': total}
    t_proof = time.time() - T0 - t_prep
    proved = [k for k in clo if ans[k].status == 'proved']
    bad = [k for k in clo if ans[k].status != 'proved']
    labels = pr.get('labels')

    def mine(k):
        """Failed obligations of this property in function k."""
        if k not in pr['own'] or ans[k].status != 'failed':
            return []
        return [f for f in ans[k].fails if labels is None or f[1].startswith(labels) or f[0].startswith('decreases')]
    for k in bad:
        say('NOT PROVED %s: %s %s' % (props.name(k), ans[k].status, ans[k].why or '; '.join(sorted(set(f[1] for f in ans[k].fails)))))
    if missing:
        say('NOT EXTRACTED: ' + ', '.join(props.name(k) for k in missing[:10]))
    # search for a failing input where something is not proved; otherwise a short cross-check of the trusted base
    roots = pr['roots']
    targets = []
    lits, sizes = literals(E, data)
    secs = {'quick': 8, 'thorough': 90}[tier]
    cap = {'quick': 12000, 'thorough': None}[tier]
    found, tried = [], 0
    answered = lambda ks: [k for k in ks if k in idx]
    plan = [(roots, pr['cmp'], 1, cap)]
    if bad or missing:
        secs = {'quick': 150, 'thorough': 400}[tier]
        bs = set(bad) | set(missing)
        near = lambda ks: [r for r in ks if r not in res or closure(res, [r]) & bs]
        targets = [k[1] for k in bad if k[0] == 'parse']
        # first close to what failed, then from everywhere, then in the constructs built from it
        plan = [([r for r in roots if r in bs], pr['cmp'], .3, None), (near(roots) or ([] if near(wide) else roots), pr['cmp'], .4, None),
                (near(wide), 'wide:' + pid, .3, None)]
    elif wide:
        plan = [(roots, pr['cmp'], .6, cap), (wide, 'wide:' + pid, .4, cap)]
    plan = [(answered(ks), c, s, n) for ks, c, s, n in plan if answered(ks)]
    builds = [(binary, secs, bool(bad or missing) or tier == 'thorough')]
    if two_faced():
        builds.append((build_harness(d, True)[0], max(secs, 60), True))
    for binary, secs, deep in builds:
        for rs, cmpname, share, n in plan:
            found, k = diff.search(binary, idx, cmpname, rs, targets, lits, secs * share / sum(x[2] for x in plan), seed,
                                   exhaustive=deep, cap=n, sizes=sizes if deep else None)
            tried += k
            if found:
                break
        if found:
            break
    viol = []
    os.makedirs(EVID + '/replay', exist_ok=True)
    if found:
        item, before, threads = diff.alone(binary, idx, cmpname, found[0])
        if not before:
            item = diff.shrink(binary, idx, cmpname, item)
        path = '%s/replay/%s.json' % (EVID, pid)
        key, text, got, exp, why = item
        json.dump({'property': pid, 'function': props.name(key), 'request': idx[key], 'key': repr(key), 'input': text, 'got': got,
                   'expected': exp, 'violation': why, 'comparison': cmpname, 'parsed_before': before, 'threads': threads, 'release': '/release/' in binary,
                   'failed_obligations': [{'function': props.name(k), 'obligations': sorted(set(f[1] for f in ans[k].fails))} for k in bad]},
                  open(path, 'w'), indent=1, ensure_ascii=True)
        say('failing input%s for %s: %r: %s (got %s, expected %s)' % (' (%s %d others in the same process)' % ('after' if threads < 2 else 'among', len(before)) if before else '', props.name(key), text, why, got[:300], str(exp)[:300]))
        viol.append('VIOLATION property=%s replay=%s' % (pid, path))
    else:
        fl = [(k, f) for k in bad for f in mine(k)]
        fl += [(k, ('', 'is part of the interface', 'a call of it by its public name does not compile')) for k in gone
               if k in pr['own'] and pr.get('labels') is None]
        if fl:
            path = '%s/replay/%s.json' % (EVID, pid)
            json.dump({'property': pid, 'failed_obligations': [
                {'function': props.name(k), 'obligation': f[1], 'verifier': f[0], 'output': f[2]} for k, f in fl],
                'inputs_tried': tried}, open(path, 'w'), indent=1)
            say('failed obligation: %s: %s' % (props.name(fl[0][0]), fl[0][1][1]))
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    bounded = [k for k in bad if not (ans[k].status == 'failed' and mine(k))]
    obl = sum(a.obl for a in ans.values())
    dis = sum(ans[k].obl for k in proved)
    leaves = sorted(set(l for k in clo if not isinstance(res[k], Exception) for l in res[k].leaves))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - T0, 1),
        'violations': len(viol), 'assumptions': ASSUME,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'verus %s/verus-%s/*.rs (Verus with Z3; text regenerated from /repo by check.py %s %s)' % (d, pid, pid, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': len(clo), 'functions_proved': len(proved),
            'own_functions': len(own),
            'smt_queries': run.queries, 'solver_time_s': round(run.smt_ms / 1000, 2), 'proof_wall_s': round(t_proof, 1),
            'assumed_leaves': leaves,
            'assumed_contracts': sorted(set(G.tstr(t) for t in G.closure([k[1] for k in clo if k[0] == 'parse']) if t[0] in G.ABSTRACT)),
            'inlined_helpers': len(set(x for k in clo if not isinstance(res[k], Exception) for x in res[k].inlined)),
            'functions': [props.name(k) for k in own][:600],
            'bounded': [{'function': props.name(k), 'status': ans[k].status, 'why': (ans[k].why or 'obligation of another property')[:300],
                         'stand_in': 'differential search over %d texts (bounded, not proved)' % tried} for k in bounded] +
                       [{'function': props.name(k), 'status': 'not extracted', 'stand_in': 'differential search over %d texts (bounded, not proved)' % tried} for k in missing],
            'not_proved': {props.name(k): sorted(set(f[1] for f in ans[k].fails)) for k in bad},
            'cross_check_texts': tried, **({'vacuity': vac} if vac else {}),
        }}
    json.dump(ev, open('%s/%s.json' % (EVID, pid), 'w'), indent=1)
    say('%s: %d functions under contract, %d proved, %d of %d obligations discharged, %d texts tried, %.0f s (build %.0f, proof %.0f)'
        % (pid, len(clo), len(proved), dis, obl, tried, time.time() - T0, t_prep, t_proof))
    if dis == 0 and not bad:
        raise CheckError('no obligations were generated')
    for f in known(pid):
        say('KNOWN-FINDING: property=%s %s' % (pid, f))
    for v in viol:
        say(v)
    return 1 if viol else 0


def known(pid):
    """Findings recorded but not repaired (none at present; 'fixed:' lines suppress nothing)."""
    out = []
    for l in open(HERE + '/known-findings.txt'):
        if l.startswith('finding: property=%s ' % pid):
            out.append(l.split(' ', 2)[2].strip())
    return out


def replay(path):
    r = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    d = BUILD + '/t-' + tree_hash()
    os.makedirs(d, exist_ok=True)
    if 'input' not in r:
        say(json.dumps(r, indent=1))
        return 0
    b, _ = build_harness(d, r.get('release', False))
    if r.get('threads', 1) > 1:
        res, why = diff.run_batch(b, [tuple(x) for x in r['parsed_before']], 60, r['threads'])
        got = ' / '.join(sorted(set(a for a, q in zip(res, r['parsed_before']) if tuple(q) == (r['request'], r['input'])))) or why
    else:
        got = diff.answers(b, [tuple(x) for x in r.get('parsed_before', [])] + [(r['request'], r['input'])])[-1]
    say('%s on %r\n  got      %s\n  expected %s' % (r['function'], r['input'], got, r['expected']))
    return 0


def main():
    try:
        if sys.argv[1] == '--setup':
            d = prepare()[0]
            say('built ' + d)
            rc.append(0)
        elif sys.argv[1] == '--replay':
            rc.append(replay(sys.argv[2]))
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            rc.append(decide(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
    except CheckError as e:
        say('ERROR: %s' % e)
        rc.append(2)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc.append(2)


rc = []
if __name__ == '__main__':
    os.makedirs(EVID, exist_ok=True)
    sys.setrecursionlimit(200000)
    threading.stack_size(256 * 1024 * 1024)
    th = threading.Thread(target=main)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
