"""Runner: cases -> worker processes -> three-valued verdict + evidence."""
import collections
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TargetError(Exception):
    """The code under test raised on an input it must accept."""

    def __init__(self, where, exc):
        self.where, self.exc = where, exc
        super().__init__('%s: %s: %s' % (where, type(exc).__name__,
                                         str(exc)[:400]))


class StepBudget(BaseException):
    """Logical step budget of omtools code exhausted."""


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    def __init__(self, mech, msg, **detail):
        self.mech, self.msg, self.detail = mech, msg, detail
        super().__init__(msg)


@contextlib.contextmanager
def target(where):
    """Run code under test; whatever it raises becomes TargetError."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            yield
    except (TargetError, Violation, StepBudget, CaseTimeout):
        raise
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:                  # SystemExit included
        raise TargetError(where, e) from e


# -------------------------------------------------------------- step monitor
class Steps:
    """Counts jumps and calls executed inside omtools code (sys.monitoring),
    so that non-termination is a logical, not a wall-clock, verdict."""
    TOOL = 4

    def __init__(self):
        self.n = 0
        self.limit = 1 << 62
        self.on = False

    def install(self, prefix):
        m = sys.monitoring
        if self.on:
            return
        try:
            m.use_tool_id(self.TOOL, 'omtv')
        except ValueError:
            return
        ev = m.events

        def jump(code, off, dst):
            if not code.co_filename.startswith(prefix):
                return m.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.limit = 1 << 62
                raise StepBudget()

        def start(code, off):
            if not code.co_filename.startswith(prefix):
                return m.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.limit = 1 << 62
                raise StepBudget()
        m.register_callback(self.TOOL, ev.JUMP, jump)
        m.register_callback(self.TOOL, ev.PY_START, start)
        m.set_events(self.TOOL, ev.JUMP | ev.PY_START)
        self.on = True

    def reset(self, limit):
        self.n, self.limit = 0, limit


STEPS = Steps()


class Rec:
    """What one case observed."""

    def __init__(self, case):
        self.case = case
        self.counters = collections.Counter()
        self.violations = []
        self.sigs = []
        self.sample = None
        self.extra = {}

    def count(self, k, n=1):
        self.counters[k] += n

    def sig(self, s):
        """Mark this case as a non-trivial one with this identity."""
        self.sigs.append(hashlib.sha1(str(s).encode()).hexdigest()[:16])

    def fail(self, mech, msg, **detail):
        self.violations.append({'mech': mech, 'msg': str(msg)[:1500],
                                'detail': detail})

    def show(self, obj):
        if self.sample is None:
            self.sample = obj


def describe(e):
    """Mechanism key + message of an exception from the code under test."""
    exc = e.exc if isinstance(e, TargetError) else e
    tb = traceback.extract_tb(exc.__traceback__)
    fr = [f for f in tb if '/omtools/' in f.filename]
    loc = ('%s:%s' % (os.path.basename(fr[-1].filename), fr[-1].name)
           if fr else 'openmdao')
    return type(exc).__name__, loc, str(exc)[:600]


def run_case(mod, case, step_limit):
    rec = Rec(case)
    STEPS.reset(step_limit)
    try:
        mod.run(case, rec)
    except Violation as v:
        rec.fail(v.mech, v.msg, **v.detail)
    except TargetError as e:
        t, loc, m = describe(e)
        rec.fail('crash:%s' % t, '%s while %s (at %s): %s' %
                 (t, e.where, loc, m))
    except StepBudget:
        rec.fail('step-budget', 'omtools code executed more than %d logical '
                 'steps without finishing' % step_limit)
    rec.count('omtools_steps', STEPS.n)
    STEPS.limit = 1 << 62
    return rec


def _alarm(sig, frm):
    raise CaseTimeout()


def _worker(mod, cases, conn, step_limit, case_timeout, deadline):
    from omtv import env
    signal.signal(signal.SIGALRM, _alarm)
    import warnings
    warnings.simplefilter('ignore')
    STEPS.install(os.path.join(os.path.realpath(env.REPO), 'omtools'))
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    for i, case in cases:
        if time.time() > deadline:
            conn.send(('skip', i, None))
            continue
        conn.send(('start', i, None))
        signal.alarm(case_timeout)
        try:
            r = run_case(mod, case, step_limit)
            signal.alarm(0)
            conn.send(('done', i, {
                'counters': dict(r.counters), 'violations': r.violations,
                'sigs': r.sigs, 'sample': r.sample, 'extra': r.extra}))
        except CaseTimeout:
            conn.send(('timeout', i, None))
        except BaseException as e:
            signal.alarm(0)
            conn.send(('error', i, traceback.format_exc()[-3000:]))
            if isinstance(e, KeyboardInterrupt):
                break
    conn.send(('end', -1, None))
    conn.close()


def load_known():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return json.load(fh)['findings']


def main(mod, tier, seed, replay=None, nproc=None, limit=None):
    t0 = time.time()
    pid = mod.PID
    step_limit = getattr(mod, 'STEP_LIMIT', 3000000)
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 240)
    soft = getattr(mod, 'SOFT_CAP', {'quick': 420, 'thorough': 780})[tier]
    if replay:
        with open(replay) as fh:
            cases = [json.load(fh)['case']]
    else:
        cases = list(mod.cases(tier, seed))
    if limit and limit < len(cases):
        import random
        cases = random.Random(limit).sample(cases, limit)
    nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(cases)))
    if hasattr(mod, 'warmup'):
        mod.warmup()
    ctx = mp.get_context('fork')
    procs = []
    for w in range(nproc):
        part = [(i, c) for i, c in enumerate(cases) if i % nproc == w]
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(
            mod, part, b, step_limit, case_timeout, t0 + soft), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None, False])
    counters = collections.Counter()
    sigs = set()
    viol, errors, samples = [], [], []
    n_done = n_skip = 0
    open_ = list(procs)
    while open_:
        ready = mp.connection.wait([x[1] for x in open_], timeout=5)
        for x in list(open_):
            if x[1] not in ready:
                continue
            try:
                kind, i, data = x[1].recv()
            except EOFError:
                open_.remove(x)
                if not x[3]:
                    errors.append('worker died while running case %s' %
                                  json.dumps(cases[x[2]] if x[2] is not None
                                             else None)[:400])
                continue
            if kind == 'start':
                x[2] = i
            elif kind == 'end':
                x[3] = True
            elif kind == 'skip':
                n_skip += 1
            elif kind == 'timeout':
                errors.append('watchdog: case timed out: %s' %
                              json.dumps(cases[i])[:400])
            elif kind == 'error':
                errors.append('harness error in case %s\n%s' %
                              (json.dumps(cases[i])[:300], data))
            else:
                n_done += 1
                for k, v in data['counters'].items():
                    counters[k] += v
                sigs.update(data['sigs'])
                for v in data['violations']:
                    viol.append((i, v))
                if data['sample'] is not None and len(samples) < 200:
                    samples.append(data['sample'])
        if len(viol) >= getattr(mod, 'MAX_VIOL', 4000):
            break
    for x in procs:
        if x[0].is_alive():
            x[0].terminate()
        x[0].join(10)
    # ------------------------------------------------------------- verdict
    known = {(k['property'], k['mech']): k for k in load_known()
             if k.get('status') == 'open'}
    seen_known, real = {}, []
    for i, v in viol:
        k = known.get((pid, v['mech']))
        if k:
            seen_known.setdefault(v['mech'], (k, v))
        else:
            real.append((i, v))
    for m, (k, v) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if not replay:
        rd = os.path.join(VERIF, 'replays')
        if os.path.isdir(rd):
            for f in os.listdir(rd):
                if f.startswith(pid + '-'):
                    os.unlink(os.path.join(rd, f))
    by_mech = collections.OrderedDict()
    for i, v in real:
        by_mech.setdefault(v['mech'], []).append((i, v))
    for n, (mech, lst) in enumerate(by_mech.items()):
        i, v = min(lst, key=lambda t: len(json.dumps(cases[t[0]])))
        path = replay
        if not replay:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%d.json' % (pid, n))
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'case': cases[i], 'tier': tier,
                           'seed': seed, 'violation': v}, fh, indent=1,
                          default=str)
        if n < 12:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  mechanism: %s (%d case(s))' % (mech, len(lst)))
            print('  ' + v['msg'].replace('\n', '\n  '))
            for k, d in v['detail'].items():
                print('    %s: %s' % (k, str(d)[:700]))
    missing = []
    if not replay and not limit:
        for k, m in getattr(mod, 'MIN', {}).items():
            if isinstance(m, dict):
                m = m[tier]
            if counters[k] < m:
                missing.append('%s=%d<%d' % (k, counters[k], m))
    wall = time.time() - t0
    if not replay:
        ev = {
            'property': pid, 'tier': tier, 'seed': seed,
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': n_done,
                'distinct_nontrivial': len(sigs),
                'rule': mod.RULE,
                'samples': samples[::max(1, len(samples) // 4)][:4] or
                [cases[0] if cases else None],
                'observed': {k: int(v) for k, v in sorted(counters.items())},
                'skipped_by_time_cap': n_skip,
                'known_findings_seen': sorted(seen_known),
            },
            'assumptions': getattr(mod, 'ASSUME', []),
            'wall_s': round(wall, 2),
            'violations': len(real),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % pid)
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(d, '%s.json' % pid))
    print('%s %s seed=%s: %d cases, %d distinct, %s, %.1fs' % (
        pid, tier, seed, n_done, len(sigs),
        ', '.join('%s=%d' % kv for kv in sorted(counters.items())), wall))
    for e in errors[:5]:
        print('ERROR ' + e)
    if real:
        return 1
    if errors:
        print('INCONCLUSIVE property=%s: %d harness error(s)' % (
            pid, len(errors)))
        return 2
    if missing:
        print('INCONCLUSIVE property=%s: monitors saw too little: %s' % (
            pid, '; '.join(missing)))
        return 3
    print('HELD property=%s on everything explored' % pid)
    return 0
