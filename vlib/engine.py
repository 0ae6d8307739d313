"""
Bounded exhaustive exploration of the implementation in /repo against reference models.

A check is a list of families.  A family enumerates a finite space of cases completely and in a fixed
order (simplest first); `run(case, ctx)` executes one case on the real code and compares it with the
reference model, raising Violation.  All families are explored in parallel worker processes; the
worker with number w executes the cases whose index is w modulo the number of workers.  Nothing is
sampled: a family is either enumerated to its end, or reported as capped.
"""
import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(ROOT, 'known_findings.txt')
CASE_TIMEOUT = {'quick': 100, 'thorough': 400, 'deep': 400}   # seconds; the slowest cases take a few
DEEPER = {'quick': 'thorough', 'thorough': 'deep'}   # the bounds of checks that are cheap
OUTCOME_CAP = 2000000   # outcomes remembered per worker, for counting the distinct ones


class Violation(Exception):
    """ the property does not hold; `key` identifies a listed known finding """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Hang(BaseException):
    """ a case did not end in time """


def expect(want, got, what):
    if want != got:
        raise Violation(f'{what}: expected {want!r:.900}, got {got!r:.900}')


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


class Family:
    def __init__(self, name, gen, run, desc=''):
        self.name, self.gen, self.run, self.desc = name, gen, run, desc


class Ctx:
    """ what one worker counts """

    def __init__(self, tier, tmp):
        self.tier, self.tmp = tier, tmp
        self.states, self.outcomes = set(), set()
        self.transitions = self.executions = self.evaluations = self.nontrivial = 0
        self.extra = {}

    def state(self, obj):
        """ a model state that was reached """
        if len(self.states) < OUTCOME_CAP:
            self.states.add(digest(obj))

    def outcome(self, obj):
        """ what the implementation reported """
        if len(self.outcomes) < OUTCOME_CAP:
            self.outcomes.add(digest(obj))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def load_findings():
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                _, prop, key, *rest = line.split(None, 3)
                out[(prop.split('=', 1)[1], key.split('=', 1)[1])] = rest[0] if rest else ''
    return out


def _alarm(_sig, _frame):
    raise Hang()


def run_case(fam, case, ctx):
    """ None, or the Violation of one case """
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT[ctx.tier])
    try:
        fam.run(case, ctx)
        return None
    except Violation as v:
        return v
    except Hang:
        return Violation(f'did not end within {CASE_TIMEOUT[ctx.tier]} s', key='hang')
    except MemoryError:
        return Violation('ran out of memory')
    except (Exception, SystemExit) as e:  # the harness expects every error it allows
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[::-1][:4])
        return Violation(f'unexpected {type(e).__name__}: {e} [{where}]')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, fams, w, n, tier, deadline, queue, current, first, lock):
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    tmp = tempfile.mkdtemp(prefix=f'verif_{w}_', dir=scratch_dir())
    os.chdir(tmp)
    sys.stdout = open(os.devnull, 'w', encoding='utf-8')
    sys.stderr = open(os.devnull, 'w', encoding='utf-8')
    ctx = Ctx(tier, tmp)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    known = load_findings()
    prop = mod.ID
    fails, per, hits, capped, stopped = [], {}, {}, [], False
    try:
        for fi, fam in enumerate(fams):
            t0, done, samples, last = time.time(), 0, [], None
            for i, case in enumerate(fam.gen(tier)):
                if i % n != w:
                    continue
                if time.time() > deadline:
                    capped.append(fam.name)
                    break
                if first[0] >= 0 and (fi, i) > (first[0], first[1]):
                    stopped = True   # another worker has a simpler failing case
                    break
                current[2 * w], current[2 * w + 1] = fi, i
                v = run_case(fam, case, ctx)
                current[2 * w + 1] = -1
                done += 1
                ctx.evaluations += 1
                if i == w:
                    samples.append(repr(case)[:1500])
                last = case
                if v is not None:
                    if (prop, v.key) in known:
                        hits[v.key] = hits.get(v.key, 0) + 1
                        continue
                    again = run_case(fam, case, ctx)
                    if again is None and v.key == 'hang':
                        continue   # only slow
                    note = '' if again is not None and str(again) == str(v) else \
                        f' [second execution of the same case: {again}]'
                    fails.append((fi, i, repr(case)[:20000], str(v) + note))
                    with lock:
                        if first[0] < 0 or (fi, i) < (first[0], first[1]):
                            first[0], first[1] = fi, i
                    if len(fails) >= 3:
                        break
            if last is not None:
                samples.append(repr(last)[:1500])
            per[fam.name] = (done, time.time() - t0, samples if w == 0 else samples[-1:])
            if fails or capped or stopped:
                break
        queue.put((w, None, fails, per, hits, capped, ctx.states, ctx.outcomes, ctx.transitions,
                   ctx.executions, ctx.evaluations, ctx.nontrivial, ctx.extra))
    except BaseException:  # pylint: disable=broad-except
        queue.put((w, traceback.format_exc(), fails, per, hits, capped, set(), set(), 0, 0, 0, 0, {}))
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


def scratch_dir():
    for d in ('/dev/shm', None):
        if d and os.access(d, os.W_OK) and shutil.disk_usage(d).free > 200 << 20:
            return d
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--limit', type=float, default=None, help='seconds for the exploration')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    import pyulog
    if os.path.dirname(os.path.dirname(os.path.realpath(pyulog.__file__))) != os.path.realpath(REPO):
        print(f'pyulog comes from {pyulog.__file__}, not from {REPO}')
        raise SystemExit(2)
    mod = importlib.import_module(f'checks.{a.prop.lower()}')
    bounds = DEEPER[tier] if getattr(mod, 'PROMOTE', False) else tier
    fams = [f for f in mod.families() if a.family in (None, f.name)]
    if a.replay:
        raise SystemExit(replay(mod, fams, a.replay))
    t0 = time.time()
    limit = a.limit or (780 if tier == 'quick' else 5400)
    deadline = t0 + limit
    n = max(1, a.jobs)
    mp = multiprocessing.get_context('fork')
    queue = mp.Queue()
    current = mp.RawArray('q', [-1] * (2 * n))   # family and case each worker is executing
    first, lock = mp.RawArray('q', [-1, -1]), mp.Lock()   # the simplest failing case so far
    procs = [mp.Process(target=_worker, args=(mod, fams, w, n, bounds, deadline, queue, current, first, lock))
             for w in range(n)]
    for p in procs:
        p.start()
    results, dead = [], 0
    while len(results) < n:
        try:
            results.append(queue.get(timeout=1))
        except Exception:  # pylint: disable=broad-except
            missing = {w for w in range(n)} - {r[0] for r in results}
            dead = [w for w in missing if not procs[w].is_alive()]
            if dead and queue.empty():
                time.sleep(0.5)
                if queue.empty():
                    break
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    errors = [r[1] for r in results if r[1]]
    fails = sorted(f for r in results for f in r[2])
    if len(results) < n:
        errors.append(f'{n - len(results)} worker(s) died: '
                      + str([p.exitcode for p in procs]))
        for w in {w for w in range(n)} - {r[0] for r in results}:
            fi, i = current[2 * w], current[2 * w + 1]
            if i >= 0:  # the implementation took the process with it
                fails.append((fi, i, '', f'the process ended with exit code {procs[w].exitcode}'))
    wall = time.time() - t0
    states, outcomes, hits, extra, per = set(), set(), {}, {}, {}
    for r in results:
        states |= r[6]
        outcomes |= r[7]
        for k, v in r[4].items():
            hits[k] = hits.get(k, 0) + v
        for k, v in r[12].items():
            extra[k] = extra.get(k, 0) + v
        for k, (c, t, s) in r[3].items():
            old = per.get(k, {'cases': 0, 'seconds': 0, 'samples': []})
            per[k] = {'cases': old['cases'] + c, 'seconds': max(old['seconds'], round(t, 2)),
                      'samples': (old['samples'] + s)[:3]}
    capped = sorted({c for r in results for c in r[5]})
    total = {k: sum(r[i] for r in results) for k, i in
             (('transitions', 8), ('executions', 9), ('evaluations', 10), ('nontrivial', 11))}
    for fam in fams:
        if fam.name in per:
            per[fam.name]['space'] = fam.desc
    coverage = {
        'evaluations': total['evaluations'],
        'implementation_executions': total['executions'],
        'distinct_nontrivial': len(outcomes),
        'rule': mod.RULE,
        'samples': [s for p in per.values() for s in p['samples']][:12],
        'families': per,
        'known_finding_hits': hits,
        'exhaustive': not capped and not fails and not errors,
        'capped_families': capped,
    }
    coverage.update(extra)
    if mod.LEVEL == 'model_checking':
        coverage.update(states=len(states), transitions=total['transitions'],
                        traces_validated_against_impl=total['executions'])
    evidence = {
        'property': mod.ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': mod.LEVEL, 'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(fails),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{mod.ID}.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print(f'{mod.ID} {tier}: {total["evaluations"]} cases, {total["executions"]} executions of the '
          f'implementation, {len(states)} model states, {total["transitions"]} transitions, '
          f'{len(outcomes)} distinct outcomes, {wall:.1f} s'
          + (f', CAPPED in {capped}' if capped else ''))
    for k, p in per.items():
        print(f'  {k}: {p["cases"]} cases, {p["seconds"]} s')
    known = load_findings()
    for (prop, key), text in sorted(known.items()):
        if prop == mod.ID and hits.get(key):
            print(f'KNOWN-FINDING: property={prop} {key}: {text} ({hits[key]} cases)')
    if fails:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for k, (fi, i, case, msg) in enumerate(fails[:3]):
            path = os.path.join(ROOT, 'replays', f'{mod.ID}-{k + 1}.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': mod.ID, 'tier': tier, 'bounds': bounds, 'family': fams[fi].name, 'index': i,
                           'case': case, 'message': msg,
                           'replay': f'cd /verif && ./check {mod.ID} --replay {path}'}, f, indent=1)
                f.write('\n')
            print(f'{fams[fi].name}[{i}]: {msg[:3000]}\n    case: {case[:1500]}')
            print(f'VIOLATION property={mod.ID} replay={path}')
        raise SystemExit(1)
    if errors:
        print('\n'.join(errors))
        raise SystemExit(2)


def replay(mod, fams, path):
    """ execute the recorded case alone, without the explorer """
    rec = json.load(open(path, encoding='utf-8'))
    fam = next(f for f in fams if f.name == rec['family'])
    signal.signal(signal.SIGALRM, _alarm)
    tmp = tempfile.mkdtemp(prefix='verif_r_', dir=scratch_dir())
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        ctx = Ctx(rec['bounds'], tmp)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        for i, case in enumerate(fam.gen(rec['bounds'])):
            if i == rec['index']:
                v = run_case(fam, case, ctx)
                print(f'{fam.name}[{i}]: {case!r:.3000}\n=> {v if v is not None else "property holds"}')
                if v is not None:
                    print(f'VIOLATION property={mod.ID} replay={path}')
                return 1 if v is not None else 0
        print('no such case')
        return 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
