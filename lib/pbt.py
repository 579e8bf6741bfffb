"""Property-based testing driver shared by every check.

A property module (props/cXX.py) defines ID, RULE, ASSUMPTIONS and SUBS, a list of Sub objects.
A Sub is a named family of cases: a Hypothesis strategy that generates *plain literal* cases
(ints, floats, bytes, str, tuples, lists, dicts, None: anything ast.literal_eval reads back) and an
oracle check(case) that raises Violation, or returns (nontrivial, labels).

Every run is a pure function of the code under test and of VERIF_SEED.
"""
import ast
import collections
import hashlib
import importlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'  # never read a stale .pyc of the code under test


class Violation(Exception):
    """The oracle says the property is broken."""


class HarnessError(Exception):
    """The machinery itself is broken (never a violation)."""


class HangSuspect(BaseException):
    """Wall clock ran out for one case: to be confirmed by counting steps."""


class StepLimit(BaseException):
    """Deterministic step budget exhausted."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def load_target():
    """Import pdfsyntax from the working tree of /repo."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import pdfsyntax
    except BaseException as e:
        raise HarnessError(f'cannot import pdfsyntax: {type(e).__name__}: {e}')
    f = os.path.realpath(pdfsyntax.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('pdfsyntax does not come from ' + REPO + ': ' + f)
    return pdfsyntax


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, enumerate_cases=None):
        self.name = name
        self.strategy = strategy        # zero-argument callable returning a SearchStrategy
        self.check = check
        self.quick = quick              # total examples over all shards, quick tier
        self.thorough = thorough if thorough is not None else quick * 20
        self.enumerate_cases = enumerate_cases  # optional callable(tier) -> iterable of extra cases


# ---------------------------------------------------------------------------------------------
# Running one case

WALL_LIMIT = 20.0
STEP_LIMIT = 40_000_000


def _alarm(signum, frame):
    raise HangSuspect()


def count_steps(fn, limit):
    """Run fn() counting branches, jumps and calls; raise StepLimit beyond limit. Return steps."""
    mon = sys.monitoring
    tool = 4 if mon.get_tool(4) is None else 3  # a check may count the steps of its own parts
    n = 0

    def cb(*a):
        nonlocal n
        n += 1
        if n > limit:
            raise StepLimit()

    mon.use_tool_id(tool, 'steps')
    ev = mon.events.JUMP | mon.events.BRANCH | mon.events.PY_START
    try:
        for e in (mon.events.JUMP, mon.events.BRANCH, mon.events.PY_START):
            mon.register_callback(tool, e, cb)
        mon.set_events(tool, ev)
        fn()
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return n


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(root):
            return True
    return False


def classify_exception(e):
    """Turn an exception out of check() into a Violation, or raise HarnessError."""
    if isinstance(e, Violation):
        return e
    if isinstance(e, (MemoryError, OSError)) and not in_repo(e.__traceback__):
        raise HarnessError(f'{type(e).__name__}: {e}')
    tb = traceback.extract_tb(e.__traceback__)
    if in_repo(e.__traceback__):
        where = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
        return Violation(f'code under test raised {type(e).__name__}: {str(e)[:200]} (in {where.name}, {os.path.basename(where.filename)}:{where.lineno})')
    if isinstance(e, (NameError, ImportError)) or (isinstance(e, AttributeError) and "module 'pdfsyntax" in str(e)):
        raise HarnessError(''.join(traceback.format_exception(e)))
    if isinstance(e, (HarnessError,)):
        raise e
    last = tb[-1]
    return Violation(f'a result of the code under test cannot be interpreted: {type(e).__name__}: {str(e)[:200]} (at {os.path.basename(last.filename)}:{last.lineno})')


def run_case(sub, case):
    """Return (nontrivial, labels) or raise Violation / HarnessError."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT, 1.0)
    hang = False
    try:
        try:
            r = sub.check(case)
        except HangSuspect:
            hang = True
        except Exception as e:
            if time_is_up(e):
                hang = True
            else:
                raise classify_exception(e) from e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except HangSuspect:
        hang = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if hang:
        try:
            count_steps(lambda: sub.check(case), STEP_LIMIT)
        except StepLimit:
            raise Violation(f'does not finish within {STEP_LIMIT} steps')
        except Exception as e:
            raise classify_exception(e) from e
        return False, ['slow']
    if r is None:
        return True, []
    return r


def time_is_up(e):
    c = e
    while c is not None:
        if isinstance(c, HangSuspect):
            return True
        c = c.__context__
    return False


# ---------------------------------------------------------------------------------------------
# Searching

def case_key(case):
    return hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def run_sub(sub, seed, shard, nshards, tier, deadline, ncpu_note=None):
    """Search one sub in one shard. Return a stats dict."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.errors as herr

    total = sub.quick if tier == 'quick' else sub.thorough
    n = max(1, math.ceil(total / nshards))
    st = {'sub': sub.name, 'evaluations': 0, 'keys': set(), 'nontrivial': set(), 'labels': collections.Counter(),
          'samples': [], 'fail': None, 'harness': None, 'stopped': False}
    best = {'case': None, 'msg': None, 't0': None}

    def one(case):
        if best['t0'] is not None and time.monotonic() - best['t0'] > 45:
            return  # end of shrinking budget
        if best['t0'] is None and time.monotonic() > deadline:
            st['stopped'] = True
            return
        k = case_key(case)
        first = best['t0'] is None
        if first:
            st['evaluations'] += 1
        try:
            nontrivial, labels = run_case(sub, case)
        except Violation as v:
            size = len(repr(case))
            if best['t0'] is None:
                best['t0'] = time.monotonic()
            if best['case'] is None or size <= len(repr(best['case'])):
                best['case'], best['msg'] = case, str(v)
            raise
        if first:
            st['keys'].add(k)
            if nontrivial:
                if k not in st['nontrivial'] and len(st['samples']) < 3 and (len(st['nontrivial']) % 37 == 5 or not st['samples']):
                    st['samples'].append(repr(case)[:1500])
                st['nontrivial'].add(k)
            st['labels'].update(labels)

    try:
        if sub.enumerate_cases:
            for i, case in enumerate(sub.enumerate_cases(tier)):
                if i % nshards == shard:
                    one(case)
        h = hashlib.blake2b(f'{seed}/{shard}/{sub.name}'.encode(), digest_size=8).digest()
        if sub.strategy is not None:
            @hypothesis.seed(int.from_bytes(h, 'big'))
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                      print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @given(sub.strategy())
            def t(case):
                one(case)
            t()
    except Violation:
        pass
    except HarnessError as e:
        st['harness'] = str(e)
    except BaseException as e:
        if best['case'] is None:
            st['harness'] = ''.join(traceback.format_exception(e))
    if best['case'] is not None:
        st['fail'] = (repr(best['case']), best['msg'])
    return st


def shard_main(prop, seed, shard, nshards, tier, deadline, conn):
    tmp = tempfile.mkdtemp(prefix='pbt-')
    os.environ['PBT_TMP'] = tmp
    out = []
    devnull = open(os.devnull, 'w')
    real = os.dup(1)
    try:
        os.dup2(devnull.fileno(), 1)
        sys.setrecursionlimit(3000)
        for sub in prop.SUBS:
            st = run_sub(sub, seed, shard, nshards, tier, deadline)
            out.append(st)
            if st['fail'] or st['harness']:
                break
    except BaseException as e:
        out.append({'sub': '?', 'evaluations': 0, 'keys': set(), 'nontrivial': set(), 'labels': collections.Counter(),
                    'samples': [], 'fail': None, 'harness': ''.join(traceback.format_exception(e)), 'stopped': False})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    conn.send(out)
    conn.close()
    os._exit(0)


def tmp_path(name='x.pdf'):
    d = os.environ.get('PBT_TMP')
    if not d:
        d = tempfile.mkdtemp(prefix='pbt-')
        os.environ['PBT_TMP'] = d
    return os.path.join(d, name)


# ---------------------------------------------------------------------------------------------
# Known findings and regressions

def read_jsonl(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def find_sub(prop, name):
    for s in prop.SUBS:
        if s.name == name:
            return s
    raise HarnessError(f'no sub-check {name} in {prop.ID}')


def literal(s):
    return ast.literal_eval(s)


def run(prop_id, tier, seed, replay=None, scale=1.0):
    t0 = time.monotonic()
    import atexit
    import multiprocessing
    store = tempfile.mkdtemp(prefix='pbt-hyp-')
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = store
    parent = os.getpid()
    atexit.register(lambda: os.getpid() == parent and shutil.rmtree(store, ignore_errors=True))
    sys.setrecursionlimit(3000)
    load_target()
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    prop = importlib.import_module(prop_id.lower())

    if replay:
        with open(replay) as f:
            rec = json.load(f)
        sub = find_sub(prop, rec['sub'])
        try:
            run_case(sub, literal(rec['case']))
        except Violation as v:
            print(f'sub-check {sub.name}: {v}')
            print(f'VIOLATION property={prop_id} replay={replay}')
            return 1
        print('replay passes')
        return 0

    def report(sub_name, case_repr, msg):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = hashlib.blake2b(case_repr.encode('utf-8', 'surrogatepass'), digest_size=6).hexdigest()
        path = os.path.join(VERIF, 'replays', f'{prop_id}-{sub_name}-{h}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop_id, 'sub': sub_name, 'case': case_repr, 'message': msg, 'seed': seed}, f, indent=1)
        print(f'sub-check {sub_name}: {msg}')
        print(f'case: {case_repr[:2000]}')
        print(f'VIOLATION property={prop_id} replay={path}')

    violations = 0
    replayed = 0
    known_lines = []
    excluded = 0
    # 1. known findings: listed inputs that are expected to fail still
    for rec in read_jsonl(os.path.join(VERIF, 'known_findings.jsonl')):
        if rec['property'] != prop_id or rec.get('status') != 'known':
            continue
        sub = find_sub(prop, rec['sub'])
        replayed += 1
        excluded += 1
        try:
            run_case(sub, literal(rec['case']))
        except Violation as v:
            known_lines.append(f"KNOWN-FINDING: property={prop_id} {rec['what']}")
    # 2. regressions: shrunk inputs of repaired defects and of earlier misses
    for rec in read_jsonl(os.path.join(VERIF, 'regress', f'{prop_id}.jsonl')):
        sub = find_sub(prop, rec['sub'])
        replayed += 1
        try:
            run_case(sub, literal(rec['case']))
        except Violation as v:
            report(sub.name, rec['case'], str(v))
            violations += 1
            break
    # 3. generated search
    stats = []
    nshards = 8
    budget = 420 if tier == 'quick' else 3 * 3600
    if not violations:
        ctx = multiprocessing.get_context('fork')
        deadline = time.monotonic() + budget
        procs = []
        for s in range(nshards):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=shard_main, args=(prop, seed, s, nshards, tier, deadline, b))
            p.start()
            b.close()
            procs.append((p, a))
        dead = []
        for s, (p, a) in enumerate(procs):
            try:
                stats.append(a.recv())
            except EOFError:
                dead.append(s)
            p.join()
        if dead and not any(st['fail'] for out in stats for st in out):
            raise HarnessError(f'shards {dead} died')
    flat = [st for out in stats for st in out]
    fails = [(len(st['fail'][0]), st['sub'], st['fail']) for st in flat if st['fail']]
    if fails:
        fails.sort(key=lambda x: x[0])
        _, sub_name, (case_repr, msg) = fails[0]
        report(sub_name, case_repr, msg)
        violations += 1
    harness = [st['harness'] for st in flat if st['harness']]

    evaluations = sum(st['evaluations'] for st in flat)
    keys = collections.defaultdict(set)
    labels = collections.defaultdict(collections.Counter)
    per_sub = collections.Counter()
    samples = collections.defaultdict(list)
    for st in flat:
        keys[st['sub']] |= st['nontrivial']
        labels[st['sub']].update(st['labels'])
        per_sub[st['sub']] += st['evaluations']
        samples[st['sub']] += st['samples']
    samp = []
    for s in prop.SUBS:
        for c in samples.get(s.name, [])[:2]:
            samp.append({'sub': s.name, 'case': c})
    ev = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': sum(len(v) for v in keys.values()),
            'rule': prop.RULE,
            'samples': samp or ['(none: a regression case failed before the search)'],
            'per_sub_evaluations': dict(per_sub),
            'per_sub_nontrivial': {k: len(v) for k, v in keys.items()},
            'labels': {k: dict(sorted(v.items())) for k, v in labels.items()},
            'regressions_and_findings_replayed': replayed,
            'known_findings': known_lines,
            'stopped_by_time_budget': any(st['stopped'] for st in flat),
            'shards': nshards,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop_id}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    if violations:
        return 1
    if harness:
        h = harness[0]
        raise HarnessError(h if len(h) < 6000 else h[:3000] + ' ... ' + h[-3000:])
    print(f"{prop_id} {tier}: {evaluations} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['wall_s']} s, no violation")
    return 0
