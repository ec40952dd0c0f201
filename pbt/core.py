"""Engine shared by every check: generated-input search with hypothesis, in
several worker processes, shrinking into a replay file, evidence.

A property module (pbt/props/<id>.py) defines
    RULE        how cases are made and what makes one non-trivial
    SUBS        [Sub(name, strategy_factory, run, quick=n, thorough=n), ...]
    ASSUMPTIONS (optional)
A case is a JSON value.  run(case, cx) returns normally when the property held
and raises Violation when it did not; cx.label()/cx.nontrivial() classify it.
"""
import contextlib
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYOPENAPI_REPO', '/repo')
WHEELS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

warnings.simplefilter('ignore')


class Violation(Exception):
    """the property does not hold for this case"""

    def __init__(self, msg, **detail):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.detail = detail

    def __str__(self):
        out = self.msg
        for k in sorted(self.detail):
            out += '\n    %s: %s' % (k, short(self.detail[k], 1200))
        return out


class CaseTimeout(BaseException):
    pass


class _Stop(BaseException):
    pass


def short(val, n=400):
    try:
        s = val if isinstance(val, str) else json.dumps(
            val, sort_keys=True, default=repr, ensure_ascii=False)
    except Exception:  # pylint: disable=broad-except
        s = repr(val)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


@contextlib.contextmanager
def sut(what):
    """code under test on an input it has to accept: no exception expected"""
    try:
        yield
    except (Violation, CaseTimeout, _Stop):
        raise
    except MemoryError:
        raise Violation('%s: out of memory' % what)
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (os.path.basename(f.filename), f.name)
                 for f in tb if 'pyopenapi' in f.filename][-3:]
        raise Violation('%s: unexpected %s: %s' % (
            what, type(e).__name__, str(e)[:300]), where=where)


def must_raise(what, fn, kinds=Exception):
    try:
        got = fn()
    except (Violation, CaseTimeout, _Stop):
        raise
    except kinds:
        return
    except Exception as e:  # pylint: disable=broad-except
        raise Violation('%s: rejected with %s instead of %s: %s' % (
            what, type(e).__name__, kinds, str(e)[:300]))
    raise Violation('%s: accepted, and returned %s' % (what, short(repr(got))))


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


def same(got, want, msg, **detail):
    """strict JSON equality: 1, 1.0 and True differ"""
    d = first_diff(got, want)
    if d is not None:
        info = {'got': d[1], 'want': d[2]}
        info['at'] = d[0]
        for k, v in detail.items():
            info[k + '_' if k in info else k] = v
        raise Violation(msg, **info)


ABSENT = '<absent>'


def first_diff(a, b, path='#'):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            p = path + '/' + str(k).replace('~', '~0').replace('/', '~1')
            if k not in a:
                return p, ABSENT, b[k]
            if k not in b:
                return p, a[k], ABSENT
            d = first_diff(a[k], b[k], p)
            if d is not None:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i in range(min(len(a), len(b))):
            d = first_diff(a[i], b[i], '%s/%d' % (path, i))
            if d is not None:
                return d
        if len(a) != len(b):
            return path, 'length %d: %s' % (len(a), short(a, 300)), \
                'length %d: %s' % (len(b), short(b, 300))
        return None
    if type(a) is not type(b) or a != b:
        return path, a, b
    return None


def clone(v):
    return json.loads(json.dumps(v))


class Cx(object):
    """what one case was about"""

    def __init__(self):
        self.labels = []
        self.nt = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, yes=True):
        self.nt = self.nt or bool(yes)


class Sub(object):
    def __init__(self, name, strategy, run, quick=400, thorough=6000):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.n = {'quick': quick, 'thorough': thorough}


def digest(val):
    raw = json.dumps(val, sort_keys=True, ensure_ascii=False, default=repr)
    return hashlib.blake2b(raw.encode('utf-8', 'surrogatepass'),
                           digest_size=8).hexdigest()


CASE_CPU = 25.0
# every second worker draws uniformly and without hypothesis, which is faster
UNIFORM = 3


def _alarm(*_):
    raise CaseTimeout()


def run_case(sub, case):
    """one case: returns (Cx, None) or (Cx, Violation)"""
    cx = Cx()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        sub.run(clone(case), cx)
    except Violation as v:
        return cx, v
    except Exception as e:  # pylint: disable=broad-except
        # the check could not work with what the library gave it (None where
        # an object was promised, a missing attribute, ...)
        tb = traceback.extract_tb(e.__traceback__)
        return cx, Violation(
            'the result could not be examined: %s: %s' % (
                type(e).__name__, str(e)[:300]),
            where=['%s:%d' % (os.path.basename(f.filename), f.lineno)
                   for f in tb][-4:])
    except CaseTimeout:
        v = Violation('did not finish within %d s of CPU time' % CASE_CPU)
        v.timeout = True
        return cx, v
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return cx, None


def setup_process():
    signal.signal(signal.SIGPROF, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def _make_test(sub, st, state, tier, deadline):
    def test(case):
        now = time.time()
        if state['best'] is not None:
            if now > state['stop']:
                raise _Stop()
        elif now > deadline:
            st['cut'] += 1
            return
        cx, v = run_case(sub, case)
        if state['best'] is None:
            st['n'] += 1
            for lab in set(cx.labels):
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if cx.nt:
                h = digest(case)
                if h not in st['nt']:
                    st['nt'].add(h)
                    if len(st['samples']) < 3:
                        s = short(case, 1500)
                        st['samples'].append(s)
        if v is not None:
            state['fails'] += 1
            size = len(json.dumps(case, default=repr))
            if state['best'] is None:
                state['stop'] = now + (30 if tier == 'quick' else 90)
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, clone(case), v.msg, v.detail, str(v))
            if getattr(v, 'timeout', False):
                raise _Stop()
            raise v

    return test


def _shrink(make, state, made):
    """fewer, then smaller choices, as long as the case still fails; ends with
    _Stop"""

    import gen

    def fails(given):
        d = gen.Choices(given)
        try:
            state['test'](make(d))
        except Violation:
            return d.made
        return None

    best = made
    while True:
        before = list(best)
        size = max(1, len(best) // 2)
        while size:
            i = 0
            while i < len(best):
                got = fails(best[:i] + best[i + size:])
                if got is not None and len(got) < len(best):
                    best = got
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best):
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    got = fails(best[:i] + [v] + best[i + 1:])
                    if got is not None and (len(got), got) < (len(best), best):
                        best = got
                        break
            i += 1
        if best == before:
            return


def _uniform(make, test, state, sseed, n):
    """n cases from uniform choices"""
    import gen
    rng = random.Random(sseed)
    state['test'] = test
    for _ in range(n):
        d = gen.Choices((), rng)
        case = make(d)
        try:
            test(case)
        except Violation:
            _shrink(make, state, d.made)
            return


def _worker(prop, mod, tier, seed, w, nworkers, deadline, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    setup_process()
    gc.collect()
    gc.freeze()
    res = {'subs': {}, 'fail': None, 'error': None}
    for sub in mod.SUBS:
        n = max(1, sub.n[tier] // nworkers)
        st = {'n': 0, 'cut': 0, 'nt': set(), 'labels': {}, 'samples': [],
              'wall': 0.0}
        res['subs'][sub.name] = st
        sseed = int(hashlib.sha256(('%s/%s/%s/%s' % (
            seed, prop, sub.name, w)).encode()).hexdigest()[:12], 16)
        state = {'best': None, 'stop': None, 'fails': 0}

        test = _make_test(sub, st, state, tier, deadline)
        t0 = time.time()
        strategy = sub.strategy()
        make = getattr(strategy, 'make', None)
        prepared = hypothesis.seed(sseed)(
            settings(max_examples=n, database=None, deadline=None,
                     phases=[Phase.generate, Phase.shrink],
                     suppress_health_check=list(HealthCheck),
                     report_multiple_bugs=False, print_blob=False)(
                         given(strategy)(test)))
        try:
            if w % 2 and make:
                _uniform(make, test, state, sseed, n * UNIFORM)
            else:
                prepared()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException:  # pylint: disable=broad-except
            if state['best'] is None:
                res['error'] = '%s/%s worker %d:\n%s' % (
                    prop, sub.name, w, traceback.format_exc())
        st['wall'] = time.time() - t0
        if state['best'] is not None:
            res['fail'] = {'sub': sub.name, 'case': state['best'][1],
                           'text': state['best'][4], 'size': state['best'][0],
                           'rerun': {'seed': seed, 'worker': w,
                                     'workers': nworkers, 'tier': tier}}
            break
        if res['error']:
            break
    with open(out, 'wb') as fh:
        pickle.dump(res, fh)


def generate(prop, mod, tier, seed, nworkers, wall):
    tmp = tempfile.mkdtemp(prefix='pbt-')
    deadline = time.time() + wall
    pids = []
    for w in range(nworkers):
        out = os.path.join(tmp, 'w%d' % w)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(prop, mod, tier, seed, w, nworkers, deadline, out)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids.append((pid, out))
    results, errors = [], []
    for pid, out in pids:
        _, status = os.waitpid(pid, 0)
        if os.path.exists(out):
            with open(out, 'rb') as fh:
                results.append(pickle.load(fh))
            os.unlink(out)
        else:
            errors.append('worker %d ended with status %d and no result' % (
                pid, status))
    os.rmdir(tmp)
    return results, errors
