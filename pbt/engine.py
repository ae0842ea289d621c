# -*- coding: utf-8 -*-
"""Runner: generates cases in parallel, decides them, shrinks failures, writes
replay files and evidence.  See DESIGN.md, section "Engine"."""
from __future__ import print_function
import datetime
import decimal
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import uuid

from .gen import G, Overrun

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60.0


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Part(object):
    """one generator with its oracle"""

    def __init__(self, name, gen, check, quick, thorough=None):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough = quick * 2, thorough or quick * 12


class Cx(object):
    """what a check reports about a case"""

    def __init__(self, tmp=None):
        self.labels = set()
        self.trivial = True
        self.tmp = tmp

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False


def fail(msg):
    raise Violation(msg)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def diff(a, b, path=''):
    """first difference of two plain values, or None"""
    if type(a) in (dict,) and type(b) in (dict,):
        for k in a:
            if k not in b:
                return '%s/%s only left: %s' % (path, k, short(a[k], 200))
        for k in b:
            if k not in a:
                return '%s/%s only right: %s' % (path, k, short(b[k], 200))
        for k in a:
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if type(a) in (list, tuple) and type(a) == type(b):
        if len(a) != len(b):
            return '%s length %d != %d: %s / %s' % (path, len(a), len(b), short(a, 200), short(b, 200))
        for i in range(len(a)):
            d = diff(a[i], b[i], '%s/%d' % (path, i))
            if d:
                return d
        return None
    if type(a) is bool or type(b) is bool:
        same = type(a) is type(b) and a == b
    else:
        same = a == b or (a != a and b != b)
    return None if same else '%s: %s != %s' % (path, short(a, 200), short(b, 200))


def eq(got, want, what):
    d = diff(got, want)
    if d:
        fail('%s: got != expected at %s' % (what, d))


def check(cond, msg):
    if not cond:
        fail(msg)


def raises(f, *types):
    """f must raise (one of types, any Exception by default); returns it"""
    try:
        r = f()
    except (types or (Exception,)) as e:
        return e
    except Hang:
        raise
    except Exception as e:
        fail('expected %s, got %s: %s' % ([t.__name__ for t in types], type(e).__name__, short(str(e), 300)))
    fail('expected an exception, got a result: %s' % short(r, 300))


def outcome(f):
    """('ok', value) or ('raise',)"""
    try:
        return ('ok', f())
    except Hang:
        raise
    except Exception as e:
        return ('raise', type(e).__name__, short(str(e), 200))


# ----------------------------------------------------------------------
def case_seed(seed, pid, part, i):
    return '%s/%s/%s/%s' % (seed, pid, part, i)


def make(part, seed=None, choices=None):
    g = G(seed=seed, choices=choices)
    case = part.gen(g)
    return g, case


def digest(case):
    return hashlib.sha1(repr(case).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


ENV = dict(datetime=datetime, uuid=uuid, UUID=uuid.UUID, decimal=decimal, inf=float("inf"), nan=float("nan"))


def _on_cpu(*_):
    raise Hang('no result after %d CPU seconds' % CPU_LIMIT)


def run_case(part, case, tmp):
    """returns (Cx, None) or (Cx, message)"""
    cx = Cx(tmp)
    random.seed(12345)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        part.check(case, cx)
        return cx, None
    except Violation as e:
        return cx, str(e)
    except HarnessError:
        raise
    except Hang as e:
        return cx, 'hang: %s' % e
    except OSError as e:
        if e.errno in (24, 28, 12, 23, 11):      # EMFILE ENOSPC ENOMEM ENFILE EAGAIN
            raise HarnessError('environment: %r' % e)
        return cx, 'exception: ' + tb_text()
    except Exception:
        return cx, 'exception: ' + tb_text()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def tb_text():
    t, v, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)
    lines = ['%s:%d %s' % (os.path.basename(f[0]), f[1], f[2]) for f in fr[-6:]]
    return '%s: %s  [%s]' % (t.__name__, short(str(v), 300), ' < '.join(reversed(lines)))


# -- process helpers ---------------------------------------------------
def in_child(fn):
    """run fn() in a forked child, return its pickled result; None when it died"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:
                res = ('err', ''.join(traceback.format_exception(*sys.exc_info()))[-3000:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f, 2)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r):
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('worker died')
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise HarnessError(val)
    return val


class Run(object):
    def __init__(self, pid, tier, seed, workers):
        self.pid, self.tier, self.seed, self.workers = pid, tier, seed, workers
        mod = importlib.import_module('props.' + pid.lower())
        self.mod = mod
        self.parts = mod.PARTS
        self.tmp = tempfile.mkdtemp(prefix='pbt-%s-' % pid)

    def part(self, name):
        for p in self.parts:
            if p.name == name:
                return p
        raise HarnessError('no part %s' % name)

    def count(self, part):
        scale = float(os.environ.get('PBT_SCALE', '1'))
        return max(1, int((part.quick if self.tier == 'quick' else part.thorough) * scale))

    # -- searching -----------------------------------------------------
    def worker(self, w, stop):
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        tmp = os.path.join(self.tmp, 'w%d' % w)
        os.mkdir(tmp)
        out = dict(n=0, labels={}, parts={}, hashes=set(), samples=[], fail=None, overrun=0)
        for part in self.parts:
            st = out['parts'].setdefault(part.name, dict(n=0, nontrivial=0))
            cov = Coverage(self, part, w) if self.tier == 'thorough' else None
            n = self.count(part)
            for i in range(w, n, self.workers):
                if i % 16 == w % 16 and os.path.exists(stop):
                    return out
                seed = case_seed(self.seed, self.pid, part.name, i)
                choices = cov.choose(i) if cov else None
                try:
                    g, case = make(part, seed, choices)
                except Overrun:
                    out['overrun'] += 1
                    continue
                # decide a private copy, so that a mutated case is still reported as generated
                text = repr(case)
                if cov:
                    cx, msg = cov.run(g.rec, lambda: run_case(part, case, tmp))
                else:
                    cx, msg = run_case(part, case, tmp)
                out['n'] += 1
                st['n'] += 1
                for l in cx.labels:
                    k = part.name + ':' + l
                    out['labels'][k] = out['labels'].get(k, 0) + 1
                if not cx.trivial:
                    st['nontrivial'] += 1
                    out['hashes'].add(part.name[:3] + hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest()[:14])
                    if st['nontrivial'] <= 2 and w < 2:
                        out['samples'].append('%s: %s' % (part.name, short(text, 700)))
                if msg is not None:
                    out['fail'] = dict(part=part.name, index=i, choices=list(g.rec), msg=msg, worker=w)
                    open(stop, 'w').close()
                    return out
        return out

    def history_of(self, f):
        """the cases the worker decided before (and including) the failing one"""
        h = []
        for part in self.parts:
            for i in range(f['worker'], self.count(part), self.workers):
                if part.name == f['part'] and i == f['index']:
                    h.append((part.name, None, f['choices']))
                    return h
                h.append((part.name, case_seed(self.seed, self.pid, part.name, i), None))
        raise HarnessError('lost the failing case')

    def decide(self, hist):
        """decide the last case of a history in a fresh process; message or None"""
        def job():
            tmp = tempfile.mkdtemp(dir=self.tmp)
            msg = None
            for name, seed, choices in hist:
                p = self.part(name)
                try:
                    _, case = make(p, seed, choices)
                except Overrun:
                    msg = None
                    continue
                _, msg = run_case(p, case, tmp)
            return msg
        return collect(*in_child(job))

    # -- shrinking -------------------------------------------------------
    def shrink(self, f, budget=20000, seconds=float(os.environ.get('PBT_SHRINK', '120'))):
        part, best = self.part(f['part']), list(f['choices'])
        msg = f['msg']
        t0 = time.time()
        state = dict(left=budget)
        seen = set()

        def window(cands, pos):
            """tries candidates from pos on, in parallel; (next position, smallest failing one or None)"""
            grp = []
            while pos < len(cands) and len(grp) < self.workers:
                k = tuple(cands[pos])
                pos += 1
                if k not in seen:
                    seen.add(k)
                    grp.append(list(k))
            state['left'] -= len(grp)
            jobs = [in_child(lambda c=c: self._try(part, c)) for c in grp]
            res = [m for m in [collect(*j) for j in jobs] if m is not None]
            return pos, min(res, key=lambda m: (len(m[0]), m[0])) if res else None

        def smaller(rec, cur):
            return len(rec) < len(cur) or (len(rec) == len(cur) and rec < cur)

        def spans():
            g, _ = make(part, None, best)
            return sorted(set(g.spans), key=lambda s: s[0] - s[1])

        def out():
            return state['left'] <= 0 or time.time() - t0 > seconds

        improved = True
        while improved and not out():
            improved = False
            for gen in (
                    lambda sp: [best[:a] + best[b:] for a, b in sp if b > a]
                            + [best[:a - 1] + best[b:] for a, b in sp if b > a and a > 0],
                    lambda sp: [best[:a] + [0] * (b - a) + best[b:] for a, b in sp if any(best[a:b])],
                    lambda sp: [best[:i] + best[i + k:] for k in (64, 32, 16, 8, 4, 2, 1) for i in range(0, len(best), k)],
                    lambda sp: [best[:i] + [0] + best[i + 1:] for i in range(len(best)) if best[i]]
                            + [best[:i] + [best[i] - 1] + best[i + 1 + k:] for i in range(len(best)) if best[i] for k in range(1, 7)],
                    lambda sp: [best[:i] + [v] + best[i + 1:] for i in range(len(best)) for v in _lower(best[i])]):
                cands, pos = gen(spans()), 0
                while pos < len(cands) and not out():
                    start = pos
                    pos, r = window(cands, pos)
                    if r is not None and smaller(r[0], best):
                        best, msg, improved = r[0], r[1], True
                        cands, pos = gen(spans()), start
        return best, msg

    def _try(self, part, choices):
        try:
            g, case = make(part, None, choices)
        except Exception:
            return None
        tmp = tempfile.mkdtemp(dir=self.tmp)
        _, msg = run_case(part, case, tmp)
        return (list(g.rec), msg) if msg is not None else None

    def shrink_history(self, hist, seconds=240):
        t0 = time.time()
        k = max(1, (len(hist) - 1) // 2)
        while k >= 1 and time.time() - t0 < seconds:
            i = 0
            cut = False
            while i < len(hist) - 1 and time.time() - t0 < seconds:
                cand = hist[:i] + hist[min(i + k, len(hist) - 1):]
                if self.decide(cand) is not None:
                    hist, cut = cand, True
                else:
                    i += k
            k = k // 2 if not cut or k == 1 else min(k, max(1, (len(hist) - 1) // 2))
            if k == 1 and not cut:
                break
        return hist

    def save(self, hist, msg):
        cases = []
        for name, seed, choices in hist:
            g, case = make(self.part(name), seed, choices)
            cases.append(dict(part=name, case=repr(case)))
        d = os.path.join(ROOT, 'replays')
        if not os.path.isdir(d):
            os.mkdir(d)
        body = dict(property=self.pid, message=msg, seed=self.seed, tier=self.tier, history=cases,
                    choices=hist[-1][2], how='bash check.sh %s replay <this file>' % self.pid)
        name = '%s-%s-%s.json' % (self.pid, hist[-1][0], hashlib.sha1(repr(cases).encode('utf-8', 'surrogatepass')).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, 'w') as fp:
            json.dump(body, fp, indent=1)
        return os.path.relpath(path, ROOT)

    # -- known findings ----------------------------------------------------
    def findings(self):
        """replays listed findings; returns violations among the fixed ones"""
        path = os.path.join(ROOT, 'known_findings.json')
        bad = []
        n = 0
        if not os.path.exists(path):
            return bad, n
        for e in json.load(open(path))['entries']:
            if e['property'] != self.pid or 'case' not in e:
                continue
            n += 1

            def job():
                tmp = tempfile.mkdtemp(dir=self.tmp)
                part = self.part(e['part'])
                return run_case(part, eval(e['case'], dict(ENV)), tmp)[1]
            msg = collect(*in_child(job))
            if e['status'] == 'known':
                if msg is not None:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
            elif msg is not None:
                bad.append((e, msg))
        return bad, n

    def go(self):
        t0 = time.time()
        violations = 0
        code = 0
        try:
            bad, nreg = self.findings()
            for e, msg in bad:
                d = os.path.join(ROOT, 'replays')
                if not os.path.isdir(d):
                    os.mkdir(d)
                p = os.path.join(d, '%s-regression-%s.json' % (self.pid, hashlib.sha1(e['case'].encode('utf-8', 'surrogatepass')).hexdigest()[:10]))
                json.dump(dict(property=self.pid, message=msg, history=[dict(part=e['part'], case=e['case'])]), open(p, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, ROOT)))
                print('  %s' % short(msg, 1500))
                violations += 1
                code = 1
            stop = os.path.join(self.tmp, 'stop')
            jobs = [in_child(lambda w=w: self.worker(w, stop)) for w in range(self.workers)]
            outs = [collect(*j) for j in jobs]
            fails = sorted([o['fail'] for o in outs if o['fail']], key=lambda f: (len(f['choices']), f['index']))
            if fails:
                f = fails[0]
                single = [(f['part'], None, f['choices'])]
                msg = self.decide(single)
                if msg is not None:
                    best, msg = self.shrink(dict(f, msg=msg))
                    path = self.save([(f['part'], None, best)], msg)
                else:
                    hist = self.history_of(f) if self.tier == 'quick' else single
                    msg = self.decide(hist)
                    if msg is None:
                        raise HarnessError('failure of case %s/%s does not reproduce: %s' % (f['part'], f['index'], f['msg']))
                    hist = self.shrink_history(hist)
                    path = self.save(hist, msg)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  part=%s %s' % (f['part'], short(msg, 3000)))
                print('  case=%s' % short(json.load(open(os.path.join(ROOT, path)))['history'][-1]['case'], 3000))
                violations += 1
                code = 1
            self.evidence(outs, nreg, violations, time.time() - t0)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return code

    def evidence(self, outs, nreg, violations, wall):
        labels, parts, hashes, samples = {}, {}, set(), []
        for o in outs:
            for k, v in o['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in o['parts'].items():
                p = parts.setdefault(k, dict(cases=0, nontrivial=0))
                p['cases'] += v['n']
                p['nontrivial'] += v['nontrivial']
            hashes |= o['hashes']
            samples += o['samples']
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration',
                  coverage=dict(
                      evaluations=sum(o['n'] for o in outs),
                      distinct_nontrivial=len(hashes),
                      rule=self.mod.RULE,
                      samples=samples[:8],
                      parts=parts,
                      labels=dict(sorted(labels.items())),
                      overrun_discarded=sum(o['overrun'] for o in outs),
                      regression_inputs_replayed=nreg),
                  assumptions=getattr(self.mod, 'ASSUMPTIONS', []),
                  wall_s=round(wall, 2), violations=violations)
        d = os.path.join(ROOT, 'evidence')
        if not os.path.isdir(d):
            os.mkdir(d)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        print('%s %s: %d cases, %d distinct non-trivial, %.1fs, violations=%d' % (
            self.pid, self.tier, ev['coverage']['evaluations'], len(hashes), wall, violations))


def _lower(v):
    if v <= 0:
        return []
    out = [0]
    k = v // 2
    while k > 0:
        out.append(k)
        out.append(v - k)
        k //= 2
    return sorted(set(x for x in out if x < v))


class Coverage(object):
    """thorough tier: every third case mutates the choice sequence of a case
    that reached lines of the code under test no earlier case had reached"""

    def __init__(self, run, part, w):
        self.seen = set()
        self.pool = []
        self.part = part
        self.rng = random.Random('cov/%s/%s/%s/%d' % (run.seed, run.pid, part.name, w))
        self.k = 0

    def choose(self, i):
        self.k += 1
        if self.k % 3 or not self.pool:
            return None
        c = list(self.rng.choice(self.pool))
        for _ in range(self.rng.randrange(1, 5)):
            if not c:
                break
            j = self.rng.randrange(len(c))
            op = self.rng.randrange(4)
            if op == 0:
                c[j] = self.rng.randrange(0, max(2, c[j] * 2 + 2))
            elif op == 1:
                del c[j:j + self.rng.randrange(1, 6)]
            elif op == 2:
                c[j:j] = [self.rng.randrange(0, 6) for _ in range(self.rng.randrange(1, 6))]
            else:
                o = self.rng.choice(self.pool)
                if o:
                    m = self.rng.randrange(len(o))
                    c[j:j] = o[m:m + self.rng.randrange(1, 20)]
        return c

    def run(self, rec, f):
        self.nrun = getattr(self, 'nrun', 0) + 1
        if self.nrun > 400 and self.nrun % 4:      # tracing is slow: sample once warm
            return f()
        new = []
        seen = self.seen

        def tr(fr, ev, arg):
            fn = fr.f_code.co_filename
            if '/pyswagger/' not in fn:
                return None
            last = [0]

            def loc(fr, ev, arg):
                k = (fn, last[0], fr.f_lineno)
                last[0] = fr.f_lineno
                if k not in seen:
                    seen.add(k)
                    new.append(k)
                return loc
            return loc
        sys.settrace(tr)
        try:
            return f()
        finally:
            sys.settrace(None)
            if new and len(rec) < 4000:
                self.pool.append(list(rec))
                if len(self.pool) > 400:
                    self.pool.pop(0)


def replay(run, path):
    body = json.load(open(path))
    msg = None
    try:
        for h in body['history']:
            tmp = tempfile.mkdtemp(dir=run.tmp)
            _, msg = run_case(run.part(h['part']), eval(h['case'], dict(ENV)), tmp)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
    if msg is not None:
        print('VIOLATION property=%s replay=%s' % (run.pid, path))
        print('  %s' % short(msg, 3000))
        return 1
    print('replay passes')
    return 0


def main(argv):
    logging.disable(logging.CRITICAL)
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workers = int(os.environ.get('PBT_WORKERS', '8'))
    try:
        run = Run(pid, 'quick' if tier == 'replay' else tier, seed, workers)
        if tier == 'replay':
            return replay(run, argv[3])
        return run.go()
    except HarnessError as e:
        print('HARNESS-ERROR property=%s %s' % (pid, e))
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv))
