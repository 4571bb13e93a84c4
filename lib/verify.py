"""Runs Verus over the generated text and maps its answers back to obligations."""
import json
import os
import signal
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import gen_verus as V
import grammar as G
from residual import Unsupported

VERUS = os.environ.get('VERUS', 'verus')


def run_verus(path, threads=1, timeout=300):
    cmd = [VERUS, path, '--num-threads', str(threads), '--error-format=json', '--output-json', '--time-expanded',
           '--multiple-errors', '30']
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        stdout, stderr = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)        # the solver too
        p.communicate()
        return None, [], 'time-out'
    errs = []
    for l in stderr.decode('utf-8', 'replace').split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level', '').startswith('error') and d.get('spans'):
                errs.append(d)
    try:
        out = json.loads(stdout.decode('utf-8', 'replace'))
    except ValueError:
        out = None
    return out, errs, stderr.decode('utf-8', 'replace')[-2000:]


class Answer:
    """proved / failed / undecided / unsupported for one function under contract"""

    def __init__(self, status, obl=0, why='', fails=(), text=''):
        self.status, self.obl, self.why, self.fails, self.text = status, obl, why, list(fails), text


class Run:
    RETRY = 120     # seconds for the functions that did not go through at once

    def __init__(self, E, results, outdir, procs=8):
        self.E, self.results, self.dir, self.procs = E, results, outdir, procs
        self.smt_ms = 0
        self.queries = 0
        self.ms = {}
        self.until = None       # no further attempts after this
        os.makedirs(outdir, exist_ok=True)
        for t in G.all_types() + G.closure(G.generic_types()):
            G.nullable(t)       # fills its table before the threads start

    def attempt(self, keys, name, rlimit, part=None, drop=(), threads=1, unfold=False):
        """One Verus run -> ({key: Answer}, failing invariants) or None if Verus rejected the text."""
        g = V.Gen(self.E, self.results)
        if part:
            g.PART = part
        g.dropinv = set(drop)
        g.unfold = unfold
        text = g.generate(keys, rlimit)
        path = os.path.join(self.dir, name + '.rs')
        with open(path, 'w') as f:
            f.write(text)
        out, errs, raw = run_verus(path, threads, 300 if self.until is None else max(5, min(300, self.until - time.time())))
        ans = {k: Answer('unsupported', why=str(e)) for k, e in g.failed.items()}
        if out is None or 'verification-results' not in out or out['verification-results'].get('encountered-vir-error') \
                or (not out['verification-results'].get('success') and not errs):
            return None, ans, raw
        vr = out['verification-results']
        good = [k for k in keys if k not in g.failed]
        ok = set(good)
        und = {}
        fails = {}
        badinv = set()
        tool = None
        for d in errs:
            labs, ks = [], []
            for sp in d['spans']:
                for ln in range(sp['line_start'], sp['line_start'] + 1):
                    w = g.where[ln - 1] if ln - 1 < len(g.where) else None
                    if w and w[0] is not None:
                        ks.append(w[0])
                        if w[1]:
                            labs.append(w[1])
                    if d['message'].startswith('precondition') and ln in g.invline:
                        badinv.add(g.invline[ln])
            if not ks:
                tool = d['message']
                continue
            k = ks[0]
            if k[0] == 'pred':
                for kk in good:
                    if k[1] in self.results[kk].preds:
                        und[kk] = 'character test not decided'
                continue
            if 'Resource limit' in d['message'] or 'rlimit' in d['message']:
                und[k] = 'resource limit'
                continue
            if d['message'].startswith('postcondition'):
                prim = [sp for sp in d['spans'] if sp['is_primary']]
                labs = [g.where[sp['line_start'] - 1][1] for sp in prim if g.where[sp['line_start'] - 1]] or labs
            fails.setdefault(k, []).append((d['message'], '; '.join(dict.fromkeys(l for l in labs if l)) or d['message'],
                                            d.get('rendered', '')[:1500]))
        if tool and not fails and not und:
            return None, ans, tool
        if vr.get('errors', 0) == 0 and vr.get('verified', 0) == 0:
            return None, ans, 'nothing verified'
        names = {}
        for k in good:
            names[g.pname(k)] = k
        seen = set()
        for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                self.smt_ms += f['time']
                self.queries += 1
                b = f['function'].split('::')[-1]
                for cut in (b, b.rsplit('_part', 1)[0], b.rsplit('_loop', 1)[0]):
                    if cut in names:
                        k = names[cut]
                        seen.add(k)
                        self.ms[k] = self.ms.get(k, 0) + f['time']
                        if not f['success'] and k not in fails and k not in und:
                            und[k] = 'not accepted'
                        break
        for k in good:
            if k in fails and any('model:' in f[1] for f in fails[k]):
                ans[k] = Answer('undecided', g.obl[k], why='the model of positions does not fit')
            elif k in fails and any(lp['pos'] for lp in self.results[k].loops.values()):
                ans[k] = Answer('undecided', g.obl[k], why='loop over positions: ' + '; '.join(sorted(set(f[1] for f in fails[k]))))
            elif k in fails:
                ans[k] = Answer('failed', g.obl[k], fails=fails[k])
            elif k in und:
                ans[k] = Answer('undecided', g.obl[k], why=und[k])
            elif k not in seen:
                ans[k] = Answer('undecided', g.obl[k], why='the verifier did not report it')
            else:
                ans[k] = Answer('proved', g.obl[k])
        return badinv, ans, raw

    def batch(self, args):
        keys, name = args
        inv, ans, raw = self.attempt(keys, name, 30)
        if inv is None:
            rest = [k for k in keys if k not in ans]
            if len(rest) == 1:
                ans[rest[0]] = Answer('unsupported', why='the verifier rejects the text: ' + raw[-300:])
            else:
                for n, half in enumerate((rest[:len(rest) // 2], rest[len(rest) // 2:])):
                    if half:
                        ans.update(self.batch((half, name + '_%d' % n)))
        return ans

    def single(self, k):
        """A function that did not go through: on its own, in smaller pieces, with fewer candidate invariants."""
        name = 'one_%d' % abs(hash(k))
        first = None
        for unfold in (False, True):
            drop = set()
            last = None
            for n in range(8):
                if first is not None and time.time() > self.until:
                    return first
                inv, ans, raw = self.attempt([k], name, 120 if not unfold else 60, part=8 if n else None, drop=drop, unfold=unfold)
                if inv is None:
                    last = ans.get(k) or Answer('unsupported', why='the verifier rejects the text: ' + raw[-300:])
                    break
                last = ans[k]
                if last.status == 'proved':
                    last.dropped = sorted(f for _, _, f in drop)
                    return last
                if not (inv - drop) and n:
                    break
                drop |= inv
            first = first or last
        return first

    def verify(self, keys):
        sup = [k for k in keys if not isinstance(self.results[k], Exception)]
        ans = {k: Answer('unsupported', why=str(self.results[k])) for k in keys if isinstance(self.results[k], Exception)}
        g = V.Gen(self.E, self.results)
        weight = {}
        for k in sup:
            weight[k] = 3 + g.size(self.results[k].tree) + sum(g.size(l['tree']) for l in self.results[k].loops.values())
        nb = max(1, min(self.procs, (len(sup) + 5) // 6))
        bins = [[0, []] for _ in range(nb)]
        for k in sorted(sup, key=lambda k: (-weight[k], repr(k))):
            b = min(bins, key=lambda b: b[0])
            b[0] += weight[k]
            b[1].append(k)
        with ThreadPoolExecutor(self.procs) as ex:
            for a in ex.map(self.batch, [(b[1], 'code%d' % n) for n, b in enumerate(bins) if b[1]]):
                ans.update(a)
            self.until = time.time() + self.RETRY
            redo = [k for k in sup if ans[k].status in ('failed', 'undecided')]
            for k, a in zip(redo, ex.map(self.single, redo[:40])):
                ans[k] = a
        return ans

    def vacuous(self, keys):
        """Functions no success of which is consistent with what is assumed on the way to it: every
        'assert(false)' put before a successful result has to fail for at least one of them."""
        def one(args):
            ks, name = args
            g = V.Gen(self.E, self.results)
            g.canary = True
            path = os.path.join(self.dir, name + '.rs')
            with open(path, 'w') as f:
                f.write(g.generate(ks, 30))
            out, errs, raw = run_verus(path, 1, 600)
            hit = set()
            for d in errs:
                for sp in d['spans']:
                    w = g.where[sp['line_start'] - 1]
                    if w and w[1] == 'canary':
                        hit.add((w[0], sp['line_start']))
            return hit, sum(1 for w in g.where if w and w[1] == 'canary')
        n = max(1, (len(keys) + 31) // 32)
        jobs = [(keys[j:j + n], 'canary%d' % j) for j in range(0, len(keys), n)]
        hits, total = set(), 0
        with ThreadPoolExecutor(self.procs) as ex:
            for h, t in ex.map(one, jobs):
                hits |= h
                total += t
        alive = set(k for k, _ in hits)
        return [k for k in keys if k not in alive], len(hits), total

    def grammar(self, types):
        """Is the reference grammar itself well defined?"""
        g = V.Gen(self.E, self.results)
        path = os.path.join(self.dir, 'grammar.rs')
        with open(path, 'w') as f:
            f.write(g.spec_text(types))
        out, errs, raw = run_verus(path)
        return bool(out and out.get('verification-results', {}).get('success')), raw
