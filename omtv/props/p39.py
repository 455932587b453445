"""No spurious floating-point exceptions or warnings."""
import contextlib
import warnings

import numpy as np

from omtv import build, extreme, gen, oracle
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C
from omtv.props import p03, p37

PID = 'P39'
STRICT = dict(divide='raise', over='raise', invalid='raise', under='ignore')
RULE = ('random programs of every operation, and chains of mixed building '
        'blocks with solved stages, are set up, run and differentiated with '
        'NumPy raising on division by zero, overflow and invalid operations '
        'and with Python warnings raised as errors; a case counts where the '
        'reference evaluates values (and derivatives) without any under the '
        'same settings; programs are also run with entries of their inputs '
        'set to zero, one and minus one; distinct = programs')
ASSUME = ['inputs of sane magnitude; underflow to zero is not an exception',
          'derivatives are asked for at generated points only, not at zeros',
          'what OpenMDAO warns about itself is not looked at']
MIN = {'op.' + n: 4 for n in O.REG}
MIN.update({'strict_runs': 900, 'strict_totals': 500, 'special_points': 600,
            'special_entries': 1000, 'chains': 12, 'armed': 500})
MIN.update({'wide.' + n: 4 for n in extreme.FN})


TOP = 1e4


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1200, 60000), tag=39)


@contextlib.contextmanager
def strict():
    with np.errstate(**STRICT), warnings.catch_warnings():
        warnings.simplefilter('error')
        from openmdao.utils.om_warnings import OpenMDAOWarning
        warnings.simplefilter('ignore', OpenMDAOWarning)
        yield


def armed(rec):
    """The trap is set."""
    try:
        np.ones(1) / np.zeros(1)
    except FloatingPointError:
        rec.count('armed')
        return
    raise RuntimeError('floating-point exceptions are not raised')


def clean(f):
    """Whether the reference raises nothing."""
    try:
        with strict():
            f()
    except (FloatingPointError, Warning, ZeroDivisionError, OverflowError):
        return False
    return True


def special(rng, pt):
    """pt with some entries set to values where formulas degenerate."""
    out, n = {}, 0
    for k, v in pt.items():
        v = np.array(v, dtype=float)
        if rng.random() < .6:
            m = rng.random(size=v.shape) < [.3, .7, 1.][int(rng.integers(3))]
            c = rng.choice([0., 0., 0., 1., -1.], size=v.shape)
            if rng.random() < .3:
                c[...] = c.flat[0]
            n += int(np.sum(m))
            v = np.where(m, c, v)
        out[k] = v
    return out, n


def run(case, rec):
    rng = gen.rng_of(case['seed'], 39)
    if case['seed'] % 4 == 0:
        return wide(case, rec, rng)
    if rng.random() < .09:
        return chain(case, rec, rng)
    pr = gen.generate([case['seed']], int(rng.integers(1, 13)),
                      groups=p03.GROUPS, k=2, out_all=bool(rng.random() < .5))
    if not pr.outs:
        rec.count('empty_programs')
        return
    of = [n for n, _ in pr.outs]
    wrt = [s['p']['name'] for s in pr.live_sources()]
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    with strict():
        armed(rec)
        p = build.problem(pr, outer=['auto', 'ivc', 'self'][int(
            rng.integers(3))], mode=mode)
    judged = 0
    for j in (0, 1):
        pt = pr.point(j)
        if not clean(lambda: pr.outputs(pt)):
            rec.count('reference_raises')
            continue
        build.set_point(p, pr, pt)
        with strict():
            oracle.run_model(p)
        rec.count('strict_runs')
        if not oracle.check_values(rec, pr, p, pt):
            return
        if clean(lambda: pr.jac(pt)):
            with strict():
                oracle.totals(p, of, wrt)
            rec.count('strict_totals')
        judged += 1
    for j in (0, 1, 0):
        pt, n = special(rng, pr.point(j))
        if not n or not clean(lambda: pr.outputs(pt)):
            rec.count('special_skipped')
            continue
        build.set_point(p, pr, pt)
        with strict():
            oracle.run_model(p)
        rec.count('special_points')
        rec.count('special_entries', n)
        if not oracle.check_values(rec, pr, p, pt, 'at zeros and ones: '):
            return
        judged += 1
    if judged:
        C.observe_ops(rec, pr)
        rec.show({'outputs': [[nm, oracle.ops_text(pr, i)]
                              for nm, i in pr.outs][:3], 'runs': judged})


def wide(case, rec, rng):
    """One function at arguments of very different magnitudes."""
    names = sorted(extreme.FN)
    n = names[case['seed'] // 4 % len(names)]
    sample, f, df = extreme.FN[n]
    sh = extreme.SHAPES[int(rng.integers(len(extreme.SHAPES)))]
    x = sample(rng, sh)
    least = 1e-30 if n in extreme.LIKE_X else 1e-4
    for _ in range(20):
        with np.errstate(all='ignore'):
            bad = (np.abs(x) < least) | (np.abs(x) > TOP)
        x = np.where(bad, sample(rng, sh), x)
    x = np.where((np.abs(x) < least) | (np.abs(x) > TOP), .6, x)
    if not clean(lambda: (f(x), df(x))):
        rec.count('reference_raises')
        return
    with strict():
        armed(rec)
        if extreme.judge(rec, n, lambda ot, a: getattr(ot, n)(a[0]),
                         {'x': x}, f(x), {'x': df(x)},
                         ['fwd', 'rev'][int(rng.integers(2))],
                         extreme.FLOOR, vtol=extreme.floor_of(n)):
            rec.count('wide.' + n)
            rec.sig(('wide', n, case['seed']))


def chain(case, rec, rng):
    import openmdao.api as om
    import omtools.api as ot
    ch = p37.Chain(rng, case['seed'], int(rng.integers(2, 7)))
    if not ch.stages or 'brack' in ch.kinds:
        rec.count('unusable')
        return
    of = ch.of(rng, rec)
    wrt = [n for n, _ in ch.ext]
    with strict():
        armed(rec)
        with target('setup'):
            p = om.Problem(model=ch.model(ot))
            p.setup(mode=['fwd', 'rev'][int(rng.integers(2))])
            p.final_setup()
        for j in (0, 1):
            with target('set_val'):
                for n in wrt:
                    p.set_val(n, ch.pts[j][n])
                ch.guess(p, j)
            oracle.run_model(p)
            rec.count('strict_runs')
            oracle.totals(p, of, wrt)
            rec.count('strict_totals')
    rec.count('chains')
    rec.sig((ch.kinds, [sorted(s.text.values()) for s in ch.stages]))
