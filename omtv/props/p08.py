"""Smooth extrema: bounds, stability and the simplex property of weights."""
import numpy as np

from omtv import gen, oracle, build
from omtv.core import target
from omtv.props import common as C

PID = 'P08'
RULE = ('per case one model with several smooth maxima/minima (whole array, '
        'along an axis, elementwise over several arrays) of inputs spanning '
        '1e-3..1e8 in magnitude, with exact ties and default or explicit '
        'sharpness 0.2..3000; invariants monitored on every output and '
        'derivative entry; distinct = (form, shape, axis, operand count, '
        'sharpness, magnitude)')
ASSUME = ['bounds are checked up to rounding: 1e-12 relative to the largest '
          'operand plus 1e-9 over the sharpness',
          'when the sharpness is not given, 20 (the documented default) is '
          'assumed']
MIN = {'kind.all': 100, 'kind.axis': 100, 'kind.elem': 100,
       'bound_checks': 3000, 'weight_checks': 3000, 'ties': 100,
       'huge': 100, 'strict_interior': 50}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 700, 9000))


def values(rng, shape, rec):
    e = rng.uniform(-3, 8)
    off = 10**rng.uniform(-2, 8) * rng.choice([-1, 0, 1])
    v = rng.uniform(-1, 1, size=shape) * 10**e
    if rng.random() < .4:
        v = np.round(rng.uniform(-2, 2, size=shape)) * 10**rng.uniform(-3, 6)
        rec.count('ties')
    if max(abs(off), 10**e) > 1e4:
        rec.count('huge')
    return v + off


def run(case, rec):
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 8)
    shape = gen.SHAPES[int(rng.integers(len(gen.SHAPES)))]
    xs = ['x%d' % i for i in range(int(rng.integers(2, 5)))]
    todo = []
    for k in range(int(rng.integers(1, 5))):
        kind = ['all', 'axis', 'elem'][int(rng.integers(3))]
        if kind == 'axis' and len(shape) < 2:
            kind = 'all'
        fn = 'max' if rng.random() < .5 else 'min'
        rho = None if rng.random() < .35 else float(
            np.round(10**rng.uniform(-.7, 3.5), 3))
        ax = int(rng.integers(-len(shape), len(shape)))
        use = xs[:1] if kind != 'elem' else xs[:int(
            rng.integers(2, len(xs) + 1))]
        if kind != 'elem':
            use = [xs[int(rng.integers(len(xs)))]]
        todo.append((k, kind, fn, rho, ax, use))

    class G(ot.Group):
        def setup(self):
            v = {n: self.declare_input(n, shape=shape) for n in xs}
            for k, kind, fn, rho, ax, use in todo:
                kw = {} if rho is None else {'rho': rho}
                if kind == 'axis':
                    kw['axis'] = ax
                self.register_output('y%d' % k, getattr(ot, fn)(
                    *[v[n] for n in use], **kw))
    mode = 'rev' if rng.random() < .5 else 'fwd'
    with target('setup'):
        p = om.Problem()
        p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup(mode=mode)
        p.final_setup()
    used = sorted({n for t in todo for n in t[5]})
    for rep in range(2):
        pt = {n: values(rng, shape, rec) for n in used}
        with target('set_val'):
            for n in used:
                p.set_val(n, pt[n])
        oracle.run_model(p)
        T = oracle.totals(p, ['y%d' % t[0] for t in todo], used)
        for t in todo:
            if not check(rec, p, T, pt, shape, t):
                return
            rec.sig((t[1:5], shape, len(t[5]),
                     int(np.log10(np.abs(pt[t[5][0]]).max() + 1e-9))))
    rec.show({'shape': shape, 'expressions': [list(map(str, t))
                                              for t in todo]})


def check(rec, p, T, pt, shape, t):
    k, kind, fn, rho, ax, use = t
    rho = 20. if rho is None else rho
    sg = 1. if fn == 'max' else -1.
    y = sg * np.asarray(p.get_val('y%d' % k))
    if kind == 'elem':
        st = sg * np.stack([pt[n] for n in use])
        m, n, kw = st.max(axis=0), len(use), st
        tol_ref = np.abs(st).max()
    elif kind == 'axis':
        st = sg * pt[use[0]]
        m, n = st.max(axis=ax), shape[ax]
        tol_ref = np.abs(st).max()
    else:
        st = sg * pt[use[0]]
        m, n = st.max().reshape((1,)), st.size
        tol_ref = np.abs(st).max()
    what = '%s(%s%s%s) of shape %s' % (
        fn, ','.join(use), ', axis=%d' % ax if kind == 'axis' else '',
        ', rho=%g' % rho, shape)
    if y.shape != m.shape:
        rec.fail('ks-shape', '%s has shape %s, expected %s' % (
            what, y.shape, m.shape))
        return False
    tol = 1e-12 * tol_ref + 1e-9 / rho
    rec.count('kind.' + kind)
    rec.count('bound_checks', int(y.size))
    with np.errstate(all='ignore'):
        lo = ~(y >= m - tol)
        hi = ~(y <= m + np.log(n) / rho + tol)
    if n > 1 and np.log(n) / rho > 10 * tol:
        rec.count('strict_interior')
    for bad, txt in ((lo, 'is beyond the wrong side of the true extremum'),
                     (hi, 'is further than log(n)/rho from the true '
                      'extremum')):
        if bad.any():
            i = int(np.flatnonzero(bad.ravel())[0])
            rec.fail('ks-bound', '%s %s: entry %d is %r, true %r' % (
                what, txt, i, sg * y.ravel()[i], sg * m.ravel()[i]),
                inputs={q: v.tolist() for q, v in pt.items() if q in use})
            return False
    # weights: nonnegative, summing to one over the reduced entries
    J = {q: np.asarray(T['y%d' % k][q]) for q in use}
    W = sum(J.values()).sum(axis=1)
    rec.count('weight_checks', int(W.size))
    ok = all(np.all(np.isfinite(j)) for j in J.values()) and \
        all(np.all(j >= -1e-9) for j in J.values()) and \
        np.all(np.abs(W - 1) <= 1e-8)
    if not ok:
        rec.fail('ks-weights', '%s: derivatives are not weights that are '
                 'nonnegative and sum to one (sums %s)' % (what, W[:6]),
                 inputs={q: v.tolist() for q, v in pt.items() if q in use})
        return False
    # support: an output entry depends only on the entries it reduces
    size = int(np.prod(shape))
    idx = np.arange(size).reshape(shape)
    if kind == 'axis':
        mem = np.moveaxis(idx, ax, -1).reshape(-1, shape[ax])
    elif kind == 'elem':
        mem = idx.reshape(-1, 1)
    else:
        mem = idx.reshape(1, -1)
    mask = np.zeros((mem.shape[0], size), dtype=bool)
    for r in range(mem.shape[0]):
        mask[r, mem[r]] = True
    for q, j in J.items():
        if np.any(j[~mask]):
            rec.fail('ks-support', '%s depends on entries it does not '
                     'reduce' % what)
            return False
    # the true extremum never has less weight than another entry
    tgt = np.zeros(size)
    for r in range(mem.shape[0]):
        cand = [(float(st_entry(sg, pt, q, i)), float(J[q][r, i]))
                for q in use for i in mem[r]]
        b = max(c[0] for c in cand)
        wb = max(c[1] for c in cand if c[0] == b)
        if any(c[1] > wb + 1e-9 for c in cand):
            rec.fail('ks-order', '%s: an entry that is not the extremum has '
                     'more weight than the extremum' % what)
            return False
    return True


def st_entry(sg, pt, q, i):
    return sg * pt[q].ravel()[i]
