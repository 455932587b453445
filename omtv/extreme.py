"""Single elementwise operations at arguments of extreme magnitude, judged
entry by entry."""
import numpy as np

from omtv import gen, oracle
from omtv.core import target

SHAPES = [(1,), (7,), (2, 4), (3, 1, 3), (12,)]


def _tanh_slope(x):
    e = np.exp(-2 * np.abs(x))
    return 4 * e / (1 + e)**2


def _mag(lo, hi):
    """Magnitudes of both signs, uniform in the exponent."""
    return lambda rng, s: 10 ** rng.uniform(lo, hi, size=s) * np.where(
        rng.random(size=s) < .5, -1., 1.)


def _pos(lo, hi):
    return lambda rng, s: 10 ** rng.uniform(lo, hi, size=s)


def _apart(f, lo, hi, eps):
    """As _mag, where |f| is at least eps."""
    def g(rng, s):
        x = _mag(lo, hi)(rng, s)
        for _ in range(60):
            bad = np.abs(f(x)) < eps
            if not bad.any():
                return x
            x = np.where(bad, _mag(lo, hi)(rng, s), x)
        return np.where(np.abs(f(x)) < eps, .8, x)
    return g


def _unit(rng, s):
    """Inside (-1, 1), also close to its ends."""
    x = 1 - 10 ** rng.uniform(-6, 0, size=s)
    return np.where(rng.random(size=s) < .5, _mag(-200, -.01)(rng, s),
                    x * np.where(rng.random(size=s) < .5, -1, 1))


def _hyp(top):
    def g(rng, s):
        x = np.where(rng.random(size=s) < .4, _mag(-3, 1)(rng, s),
                     rng.uniform(-top, top, size=s))
        return np.where(np.abs(x) < 1e-3, 1.5, x)
    return g


def _sinh(rng, s):
    return np.where(rng.random(size=s) < .4, _mag(-200, -1)(rng, s),
                    _hyp(690)(rng, s))


# name -> (arguments, value, slope); tolerances are relative to each entry,
# with the given absolute floor
FN = {
    'sin': (_mag(-200, 6), np.sin, np.cos),
    'cos': (_mag(-200, 6), np.cos, lambda x: -np.sin(x)),
    'tan': (_apart(np.cos, -200, 6, 1e-2), np.tan,
            lambda x: 1 / np.cos(x)**2),
    'sec': (_apart(np.cos, -200, 6, 1e-2), lambda x: 1 / np.cos(x),
            lambda x: np.sin(x) / np.cos(x)**2),
    'cosec': (_apart(np.sin, -4, 6, 1e-5), lambda x: 1 / np.sin(x),
              lambda x: -np.cos(x) / np.sin(x)**2),
    'cotan': (_apart(np.sin, -4, 6, 1e-5), lambda x: np.cos(x) / np.sin(x),
              lambda x: -1 / np.sin(x)**2),
    'arcsin': (_unit, np.arcsin, lambda x: 1 / np.sqrt((1 - x) * (1 + x))),
    'arccos': (_unit, np.arccos, lambda x: -1 / np.sqrt((1 - x) * (1 + x))),
    'arctan': (_mag(-200, 140), np.arctan, lambda x: 1 / (1 + x * x)),
    'sinh': (_sinh, np.sinh, np.cosh),
    'cosh': (_hyp(690), np.cosh, np.sinh),
    'tanh': (_mag(-200, 7), np.tanh, _tanh_slope),
    'sech': (_hyp(900), lambda x: 1 / np.cosh(x),
             lambda x: -np.tanh(x) / np.cosh(x)),
    'cosech': (_hyp(900), lambda x: 1 / np.sinh(x),
               lambda x: -1 / np.tanh(x) / np.sinh(x)),
    'cotanh': (_hyp(900), lambda x: 1 / np.tanh(x),
               lambda x: -_tanh_slope(x) / np.tanh(x)**2),
    'exp': (lambda rng, s: np.where(
        rng.random(size=s) < .3, _mag(-200, 0)(rng, s),
        rng.uniform(-800, 700, size=s)), np.exp, np.exp),
    'log': (_pos(-150, 150), np.log, lambda x: 1 / x),
    'log10': (_pos(-150, 150), np.log10, lambda x: 1 / (x * np.log(10.))),
}
FLOOR = 1e-13
# zero only at zero and like x there: the digits of a small value count
LIKE_X = ('sinh', 'tanh', 'arcsin', 'arctan')


def floor_of(n):
    return 0. if n in LIKE_X else FLOOR


def entries(got, ref, rtol, floor):
    """None if equal entry by entry, otherwise a description."""
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape:
        return 'shape %s, expected %s' % (got.shape, ref.shape)
    bad = ~(np.abs(got - ref) <= rtol * np.abs(ref) + floor)
    bad &= ~(got == ref)
    if bad.any():
        k = int(np.flatnonzero(bad.ravel())[0])
        return '%d of %d entries differ; entry %d is %r, expected %r' % (
            bad.sum(), bad.size, k, got.ravel()[k], ref.ravel()[k])
    return None


def judge(rec, what, build, args, ref, slopes, mode, floor, rtol=1e-8,
          vtol=None):
    """args: name -> values; build(ot, expressions) -> expression; slopes:
    name -> derivative of every entry wrt the same entry of that argument."""
    import openmdao.api as om
    import omtools.api as ot

    class G(ot.Group):
        def setup(self):
            x = [self.declare_input(n, shape=v.shape)
                 for n, v in args.items()]
            self.register_output('z', build(ot, x))
    with target('setup'):
        p = om.Problem()
        p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup(mode=mode)
        p.final_setup()
        for n, v in args.items():
            p.set_val(n, v)
    oracle.run_model(p)
    with np.errstate(all='ignore'):
        got = np.array(p.get_val('z'))
        d = entries(got, ref, rtol, floor if vtol is None else vtol)
    rec.count('extreme_entries', int(np.size(ref)))
    if d:
        rec.fail('extreme:' + what, '%s of %s: %s' % (
            what, {n: v.ravel().tolist() for n, v in args.items()}, d))
        return False
    T = oracle.totals(p, ['z'], list(args))['z']
    for n, s in slopes.items():
        with np.errstate(all='ignore'):
            d = entries(T[n], np.diag(np.ravel(s)), rtol, floor)
        rec.count('extreme_slopes', int(np.size(ref)))
        if d:
            rec.fail('extreme-deriv:' + what, 'd %s / d %s (%s) at %s: %s' % (
                what, n, mode, {k: v.ravel().tolist()
                                for k, v in args.items()}, d))
            return False
    return True


def function(case, rec):
    """One elementwise function over its whole domain."""
    rng = gen.rng_of(case['seed'], 202)
    names = sorted(FN)
    n = names[case['seed'] % len(names)]
    sample, f, df = FN[n]
    s = SHAPES[int(rng.integers(len(SHAPES)))]
    x = sample(rng, s)
    with np.errstate(all='ignore'):
        v, d = f(x), df(x)
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    if judge(rec, n, lambda ot, a: getattr(ot, n)(a[0]), {'x': x}, v,
             {'x': d}, mode, FLOOR, vtol=floor_of(n)):
        rec.count('extreme.' + n)
        rec.sig(('extreme', n, s, mode))


def operator(case, rec):
    """One operator on operands of very different magnitudes."""
    rng = gen.rng_of(case['seed'], 201)
    s = SHAPES[int(rng.integers(len(SHAPES)))]
    m = _mag(-40, 40)
    x, y = m(rng, s), m(rng, s)
    c = float(m(rng, ()))
    if rng.random() < .3:
        c = float(10. ** int(rng.integers(-30, 30)))
    one = np.ones(s)
    kind = ['add', 'sub', 'mul', 'div', 'add_c', 'sub_c', 'c_sub', 'mul_c',
            'c_mul', 'div_c', 'c_div', 'pow', 'neg', 'div_arr',
            'mul_arr'][case['seed'] % 15]
    e = int(rng.choice([-3, -2, -1, 2, 3, 4]))
    ca = m(rng, s)
    two = {'x': x, 'y': y}
    build, ref, sl = {
        'add': (lambda ot, a: a[0] + a[1], x + y, {'x': one, 'y': one}),
        'sub': (lambda ot, a: a[0] - a[1], x - y, {'x': one, 'y': -one}),
        'mul': (lambda ot, a: a[0] * a[1], x * y, {'x': y, 'y': x}),
        'div': (lambda ot, a: a[0] / a[1], x / y,
                {'x': 1 / y, 'y': -x / y / y}),
        'add_c': (lambda ot, a: a[0] + c, x + c, {'x': one}),
        'sub_c': (lambda ot, a: a[0] - c, x - c, {'x': one}),
        'c_sub': (lambda ot, a: c - a[0], c - x, {'x': -one}),
        'mul_c': (lambda ot, a: a[0] * c, x * c, {'x': c * one}),
        'c_mul': (lambda ot, a: c * a[0], c * x, {'x': c * one}),
        'div_c': (lambda ot, a: a[0] / c, x / c, {'x': one / c}),
        'c_div': (lambda ot, a: c / a[0], c / x, {'x': -c / x / x}),
        'pow': (lambda ot, a: a[0]**e, x**e, {'x': e * x**(e - 1)}),
        'neg': (lambda ot, a: -a[0], -x, {'x': -one}),
        'div_arr': (lambda ot, a: a[0] / ca, x / ca, {'x': one / ca}),
        'mul_arr': (lambda ot, a: a[0] * ca, x * ca, {'x': one * ca}),
    }[kind]
    args = two if len(sl) == 2 else {'x': x}
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    # sums lose what their terms have in common
    vtol = 1e-9 * max(np.abs(x).max(), np.abs(y).max(), abs(c)) \
        if kind in ('add', 'sub', 'add_c', 'sub_c', 'c_sub') else 0.
    if judge(rec, kind, build, args, ref, sl, mode, 0., vtol=vtol):
        rec.count('extreme.' + kind)
        rec.sig(('extreme', kind, s, mode))
