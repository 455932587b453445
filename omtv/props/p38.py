"""Nothing piles up: long histories of runs, set-ups and models."""
import collections
import functools
import gc
import os
import tracemalloc

import numpy as np

from omtv import build, env, gen, oracle
from omtv import core
from omtv.core import target
from omtv.props import common as C
from omtv.props import p03, p37

PID = 'P38'
RULE = ('a random explicit program or chain of mixed building blocks is run '
        'and differentiated dozens of times at points that are never the '
        'same, while monitors watch the '
        'memory allocated by omtools code that stays alive, the number of '
        'objects the garbage collector tracks, the objects of omtools '
        'classes that are alive and the logical steps omtools executes per '
        'round; when the problem, set up again several times, is dropped, '
        'none of its objects may remain; distinct = (programs, kinds, mode)')
ASSUME = ['memory that OpenMDAO itself keeps is not looked at; growth by '
          'less than 24 bytes per round is not seen',
          'what earlier set-ups of a problem leave while it lives is not '
          'looked at: OpenMDAO keeps components as attributes of their group '
          'and those of two set-ups differ in name',
          'steps per round are compared for models without iteration only']
MIN = {'rounds': 900, 'blocks': 150, 'snapshots': 200, 'setups': 80,
       'dropped': 40, 'objects_alive_before_drop': 2000, 'explicit': 15,
       'chains': 12, 'mode.fwd': 12, 'mode.rev': 12, 'steps_compared': 15,
       'self_test': 1, 'bracketed': 2}
ROUNDS, BLOCKS, BYTES = 5, 4, 24
SOFT_CAP = {'quick': 300, 'thorough': 700}
STEP_LIMIT = 10 ** 8


def cases(tier, seed):
    return [{'seed': 0, 'self_test': True}] + \
        C.seeds(seed, C.sized(tier, 48, 700), tag=38)


@functools.lru_cache(None)
def ours(t):
    return any(str(getattr(c, '__module__', '')).startswith('omtools')
               for c in t.__mro__)


def alive():
    gc.collect()
    return collections.Counter(type(o).__name__ for o in gc.get_objects()
                               if ours(type(o)) and
                               not isinstance(o, type))


def kept(where):
    """Bytes of live memory allocated by code of the files given."""
    gc.collect()
    s = tracemalloc.take_snapshot().filter_traces(
        [tracemalloc.Filter(True, w) for w in where])
    return sum(t.size for t in s.traces)


def steady(rounds, where, steps, rec):
    """Watch BLOCKS blocks of ROUNDS rounds; returns what grew in all of the
    last three, with its amounts, or None."""
    seen = {'bytes': [], 'objects': [], 'steps': []}
    rounds(2)
    tracemalloc.start()
    try:
        rounds(2)
        for b in range(BLOCKS + 1):
            if b:
                n = core.STEPS.n
                rounds(ROUNDS)
                seen['steps'].append(core.STEPS.n - n)
                rec.count('blocks')
            seen['bytes'].append(kept(where))
            rec.count('snapshots')
            gc.collect()
            seen['objects'].append(len(gc.get_objects()))
    finally:
        tracemalloc.stop()
    d = np.diff(seen['bytes'])[-3:]
    if np.all(d >= BYTES * ROUNDS):
        return 'bytes', seen['bytes']
    d = np.diff(seen['objects'])[-3:]
    if np.all(d >= ROUNDS):
        return 'objects', seen['objects']
    if steps:
        rec.count('steps_compared')
        s = np.array(seen['steps'], dtype=float)
        if np.all(np.diff(s) >= np.maximum(ROUNDS, .01 * s[:-1])):
            return 'steps', seen['steps']
    return None


def self_test(rec):
    """The monitors see a list, a dictionary and a table that grow."""
    here = [os.path.abspath(__file__)]
    hist, memo, tab = [], {}, np.zeros(4)

    def one(n):
        for _ in range(n):
            hist.append(float(len(hist)) + .5)

    def two(n):
        for _ in range(n):
            memo[np.full(3, len(memo)).tobytes()] = None

    def three(n):
        for _ in range(n):
            tab[:] = tab + 1
    r = core.Rec({})
    if steady(one, here, False, r) is None or \
            steady(two, here, False, r) is None or \
            steady(three, here, False, r) is not None:
        raise RuntimeError('the memory monitor is blind')
    rec.count('self_test')


def run(case, rec):
    if case.get('self_test'):
        return self_test(rec)
    before = alive()
    if history(case, rec) is None:
        return
    after = alive()
    rec.count('dropped')
    left = {k: n - before[k] for k, n in after.items() if n > before[k]}
    if left:
        rec.fail('remains', 'objects of omtools remain after the problem is '
                 'dropped: %s' % left)


def history(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    seed = case['seed']
    rng = gen.rng_of(seed, 38)
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    explicit = bool(rng.random() < .55)
    if explicit:
        pr = gen.generate([seed], int(rng.integers(2, 10)),
                          groups=p03.GROUPS, k=2)
        if not pr.outs:
            rec.count('unusable')
            return
        p = build.problem(pr, outer=['auto', 'ivc', 'self'][int(
            rng.integers(3))], mode=mode)
        of = [n for n, _ in pr.outs]
        wrt = [s['p']['name'] for s in pr.live_sources()]
        pts = [pr.point(0), pr.point(1)]
        sig = pr.signature()
        kinds = [s['op'] for s in pr.stmts]
    else:
        # brackets take many runs
        if seed % 5 == 0:
            ch = p37.Chain(rng, seed, 1, ['brack'])
        else:
            ch = p37.Chain(rng, seed, int(rng.integers(2, 5)),
                           [k for k in p37.KINDS if k != 'brack'])
        if not ch.stages:
            rec.count('unusable')
            return
        with target('setup'):
            p = om.Problem(model=ch.model(ot))
            p.setup(mode=mode)
            p.final_setup()
        of = ch.of(rng, rec)
        wrt = [n for n, _ in ch.ext]
        pts = ch.pts
        kinds = ch.kinds
        sig = (kinds, [sorted(s.text.values()) for s in ch.stages])

    def rounds(n):
        for k in range(n):
            pt = {w: np.asarray(pts[k % 2][w], dtype=float) * (
                1 + 1e-7 * rng.random()) for w in wrt}
            with target('set_val'):
                for w in wrt:
                    p.set_val(w, pt[w])
                if not explicit:
                    ch.guess(p, k % 2)
            oracle.run_model(p)
            oracle.totals(p, of, wrt)
            rec.count('rounds')
    where = [os.path.join(os.path.realpath(env.REPO), 'omtools', '*')]
    bad = steady(rounds, where, explicit, rec)
    if bad:
        rec.fail('grows-by-run:' + bad[0], '%s kept or executed by omtools '
                 'grow with every block of %d rounds of run_model and '
                 'compute_totals: %s, in a model of %s' % (
                     bad[0], ROUNDS, bad[1], ', '.join(kinds)[:300]))
        return
    for k in range(2):
        with target('setting up again'):
            p.setup(mode=mode)
            p.final_setup()
        rec.count('setups')
    n = sum(alive().values())
    rec.count('objects_alive_before_drop', n)
    if 'brack' in kinds:
        rec.count('bracketed')
    rec.count('explicit' if explicit else 'chains')
    rec.count('mode.' + mode)
    rec.sig((sig, mode))
    rec.show({'kinds': kinds[:8], 'mode': mode,
              'objects of omtools alive': n})
    return True
