'''
Runs the sub-checks of a property: generation (Hypothesis), explicit examples, sharding over
processes, fuel, shrinking, replay files, evidence.

A sub-check is a strategy giving cases, which are plain JSON data, and a function that decides
a case against its oracle. Exceptions there:
  Violation, and anything raised while exercising the code under test -> violation
  OracleError (raised inside `with oracle():`)                        -> error of the harness
'''
import contextlib
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback

from . import env

NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
FUEL = 8_000_000


class Violation(Exception):
    pass


class OracleError(BaseException):
    '''The reference, not the code under test, failed'''


class OutOfFuel(BaseException):
    pass


@contextlib.contextmanager
def oracle():
    try:
        yield
    except Violation:
        raise
    except (OutOfFuel, KeyboardInterrupt):
        raise
    except BaseException as e:
        raise OracleError(''.join(traceback.format_exception(e))) from e


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def short(x, n=700):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def same(what, got, expected):
    if got != expected:
        raise Violation('{}:\n  got      {}\n  expected {}'.format(what, short(got), short(expected)))


class _Fuel:
    '''Bounds the number of jumps taken in the code under test for one case'''
    TOOL = 4

    def __init__(self):
        self.left = FUEL
        self.active = False
        self.prefixes = ()

    def install(self, prefixes):
        mon = sys.monitoring
        self.prefixes = tuple(prefixes)
        mon.use_tool_id(self.TOOL, 'verif')
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        mon.set_events(self.TOOL, mon.events.JUMP)
        self.active = True

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(self.prefixes):
            return sys.monitoring.DISABLE
        self.left -= 1
        if self.left < 0:
            self.left = FUEL   # let handlers run
            raise OutOfFuel()

    def reset(self):
        self.left = FUEL


fuel = _Fuel()


class Rec:
    '''What a case tells about itself'''
    def __init__(self):
        self.labels = []
        self.is_nontrivial = True
        self.known = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag):
        self.is_nontrivial = bool(flag)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), notes=''):
        self.name = name
        self.strategy = strategy      # function giving a Hypothesis strategy
        self.check = check            # check(case, rec)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)
        self.notes = notes


def run_case(sub, case, rec=None):
    '''None, or the text of the violation'''
    rec = rec or Rec()
    fuel.reset()
    try:
        sub.check(case, rec)
    except Violation as e:
        return str(e)
    except OutOfFuel:
        return 'does not come to an end (more than {} loop steps)'.format(FUEL)
    except (OracleError, KeyboardInterrupt):
        raise
    except MemoryError as e:
        return 'unexpected MemoryError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('{}:{}'.format(os.path.basename(f.filename), f.name) for f in tb[-4:])
        return 'unexpected {}: {} (at {})'.format(type(e).__name__, short(str(e), 300), where)
    return None


class _Fail(Exception):
    pass


def _hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


def _size(case):
    return len(json.dumps(case))


def derive(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:7], 'big')


def _run_shard(prop, sub, shard, nshards, count, seed, deadline):
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    result = dict(sub=sub.name, evaluations=0, hashes=[], labels={}, samples=[], skipped=0, failure=None)
    hashes = set()
    state = dict(failure=None, shrinking=False)

    def one(case):
        if time.time() > deadline and not state['failure']:
            result['skipped'] += 1
            return
        rec = Rec()
        msg = run_case(sub, case, rec)
        if not state['failure']:
            result['evaluations'] += 1
            for l in set(rec.labels):
                result['labels'][l] = result['labels'].get(l, 0) + 1
            if rec.is_nontrivial:
                h = _hash(case)
                if h not in hashes:
                    hashes.add(h)
                    if len(result['samples']) < 40:
                        result['samples'].append(case)
        if msg is not None:
            if not state['failure'] or _size(case) <= _size(state['failure'][0]):
                state['failure'] = (case, msg)
            raise _Fail(msg)

    for case in sub.examples[shard::nshards]:
        try:
            one(case)
        except _Fail:
            break
    if not state['failure'] and count:
        @hypothesis.seed(derive(seed, prop, sub.name, shard))
        @settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                  print_blob=False)
        @hypothesis.given(sub.strategy())
        def test(case):
            one(case)
        try:
            test()
        except OracleError:
            raise
        except BaseException:
            if not state['failure']:
                raise
    result['hashes'] = sorted(hashes)
    if state['failure']:
        result['failure'] = dict(sub=sub.name, case=state['failure'][0], message=state['failure'][1])
    return result


def _worker(prop, subs, tasks, seed, outfile, budget):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    devnull = open(os.devnull, 'w')
    out = dict(results=[], error=None)
    deadline = time.time() + budget
    try:
        for name, shard, nshards, count in tasks:
            sys.stdout = sys.stderr = devnull   # Some code under test prints
            res = _run_shard(prop, subs[name], shard, nshards, count, seed, deadline)
            out['results'].append(res)
            if res['failure']:
                break
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))[-6000:]
    with open(outfile, 'w') as fp:
        json.dump(out, fp)
    os._exit(0)


def load(prop):
    import importlib
    return importlib.import_module('props.' + prop.lower())


def known_findings(prop):
    found = []
    path = os.path.join(env.VERIF, 'known-findings.txt')
    with open(path, encoding='utf-8') as fp:
        for line in fp:
            if line.startswith('known: '):
                entry = json.loads(line[len('known: '):])
                if entry['property'] == prop:
                    found.append(entry)
    return found


def main(prop, tier, seed, replay=None, only=None, scale=1.0):
    started = time.time()
    env.setup()
    import hypothesis  # noqa: before forking
    sys.setrecursionlimit(6000)
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}
    base = [os.path.join(env.scratch(), 'path') + os.sep, env.REPO + os.sep, os.path.join(env.SITE, 'ply') + os.sep]
    fuel.install(base + [p for p in getattr(mod, 'FUEL_PREFIXES', ())])

    if replay:
        with open(replay) as fp:
            data = json.load(fp)
        msg = run_case(subs[data['sub']], data['case'])
        if msg is None:
            print('The case of {} does not fail'.format(replay))
            return 0
        print(msg)
        print('VIOLATION property={} replay={}'.format(prop, replay))
        return 1

    # Known findings: fail as listed, or are gone
    status_known = []
    for entry in known_findings(prop):
        msg = run_case(subs[entry['sub']], entry['case'])
        if msg is not None:
            print('KNOWN-FINDING: property={} {}'.format(prop, entry['what']))
            status_known.append(entry['what'])

    # Distribute
    names = [n for n in subs if not only or n in only]
    queues = [[] for _ in range(NWORKERS)]
    for i, name in enumerate(names):
        s = subs[name]
        total = int((s.quick if tier == 'quick' else s.thorough) * scale)
        n = NWORKERS if total >= 4 * NWORKERS or len(s.examples) >= 4 * NWORKERS else 1
        for k in range(n):
            queues[(i + k) % NWORKERS].append((name, k, n, (total + n - 1) // n))
    budget = 500 if tier == 'quick' else 6 * 3600
    pids = {}
    outdir = os.path.join(env.scratch(), 'out')
    os.makedirs(outdir, exist_ok=True)
    sys.stdout.flush()
    sys.stderr.flush()
    for w, tasks in enumerate(queues):
        if not tasks:
            continue
        outfile = os.path.join(outdir, 'w{}.json'.format(w))
        pid = os.fork()
        if pid == 0:
            try:
                _worker(prop, subs, tasks, seed, outfile, budget)
            finally:
                os._exit(3)
        pids[pid] = outfile
    watchdog = time.time() + budget + 240
    errors, results = [], []
    pending = dict(pids)
    while pending:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > watchdog:
                for p in pending:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                errors.append('watchdog: workers did not finish')
                break
            time.sleep(0.02)
            continue
        outfile = pending.pop(pid, None)
        if outfile is None:
            continue
        if not os.path.exists(outfile):
            errors.append('worker ended with status {} and no result'.format(st))
            continue
        with open(outfile) as fp:
            out = json.load(fp)
        if out['error']:
            errors.append(out['error'])
        results.extend(out['results'])

    failures = [r['failure'] for r in results if r['failure']]
    labels, per_sub, samples, hashes, skipped = {}, {}, [], set(), 0
    for r in results:
        for l, n in r['labels'].items():
            key = r['sub'] + ': ' + l
            labels[key] = labels.get(key, 0) + n
        d = per_sub.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0))
        d['evaluations'] += r['evaluations']
        new = {r['sub'] + h for h in r['hashes']} - hashes
        d['distinct_nontrivial'] += len(new)
        hashes |= new
        skipped += r['skipped']
    for name in names:
        cases = [c for r in results if r['sub'] == name for c in r['samples']]
        cases = sorted(cases, key=_size)
        picks = {len(cases) // 4, len(cases) // 2, 3 * len(cases) // 4}
        for p in sorted(picks):
            if p < len(cases):
                samples.append(dict(sub=name, case=short(json.dumps(cases[p], ensure_ascii=False), 600)))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in per_sub.values()),
            distinct_nontrivial=len(hashes), rule=mod.RULE, samples=samples,
            per_sub_check=per_sub, classes=dict(sorted(labels.items())),
            skipped_by_time_budget=skipped, known_findings=status_known),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', ())),
        wall_s=round(time.time() - started, 2), violations=len(failures))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1)

    if failures:
        best = min(failures, key=lambda f: _size(f['case']))
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        path = os.path.join('replays', '{}-{}-{}.json'.format(prop, best['sub'], _hash(best['case'])))
        with open(os.path.join(env.VERIF, path), 'w') as fp:
            json.dump(dict(property=prop, **best), fp, indent=1)
        print('{} / {}: {}'.format(prop, best['sub'], best['message']))
        print('case: ' + short(json.dumps(best['case'], ensure_ascii=False), 3000))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    for e in errors[:1]:
        print(e[-2500:], file=sys.stderr)
    if errors:
        print('{}: error of the harness'.format(prop), file=sys.stderr)
        return 2
    print('{} held: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        prop, evidence['coverage']['evaluations'], len(hashes), evidence['wall_s']))
    return 0
