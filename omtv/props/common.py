"""Shared by the program-based properties."""
import numpy as np

from omtv import build, gen, oracle
from omtv import ops as O


def seeds(seed, n, tag=0):
    return [{'seed': int(seed) * 1000003 + tag * 7919 + i} for i in range(n)]


def sized(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick


def family(groups):
    return [n for n, o in O.REG.items() if o.group in groups]


def minima(groups, quick=8):
    d = {'op.' + n: quick for n in family(groups)}
    d.update({'model_runs': 200, 'entries_compared': 1000,
              'large_arrays': 5,
              'nonzero_blocks': 100})
    return d


def pointwise(case, rec, groups, focus=None, derivs=True, values=True,
              exclude=(), max_ops=8, k=2, label_ops=None, prog=None):
    """Random program of the given families; values and totals (both modes)
    against the reference at every sample point."""
    rng = gen.rng_of(case['seed'], 77)
    n = case.get('n') or int(rng.integers(1, max_ops + 1))
    large = case['seed'] % 80 == 7 and not prog
    if large:
        n = min(n, 3)
        rec.count('large_arrays')
    pr = prog or gen.generate([case['seed']], n, groups=groups, focus=focus,
                              exclude=exclude, k=k, large=large,
                              out_all=bool(rng.random() < .5))
    if not pr.outs:
        rec.count('empty_programs')
        return
    if large:       # one of the outputs
        pr.outs = pr.outs[-1:]
    outer = ['auto', 'ivc', 'self'][int(rng.integers(3))]
    modes = ['fwd', 'rev'] if derivs else ['auto']
    if derivs and rng.random() < .5:
        modes = modes[::-1]
    kw = {}
    if case['seed'] % 6 == 1:
        kw['redeclare'] = case['seed']
        rec.count('inputs_declared_again')
    for m in modes:
        p = build.problem(pr, outer=outer, mode=m, **kw)
        order = list(range(k)) if m == modes[0] else [k - 1]
        for j in order:
            pt = pr.point(j)
            build.set_point(p, pr, pt)
            oracle.run_model(p)
            rec.count('model_runs')
            if values and not oracle.check_values(rec, pr, p, pt):
                return
            if derivs and not oracle.check_totals(
                    rec, pr, p, pt, label=m + ' ',
                    J=cached_jac(pr, j)):
                return
        if not derivs:
            break
    observe_ops(rec, pr)
    rec.show({'outputs': [[nm, oracle.ops_text(pr, i)]
                          for nm, i in pr.outs][:3], 'outer': outer})
    return pr


def observe_ops(rec, pr):
    live = pr.needed()
    for s in pr.stmts:
        if s['id'] in live and s['op'] not in ('input', 'indep'):
            rec.count('op.' + s['op'])
    rec.sig(pr.signature())


def cached_jac(pr, k):
    c = pr.__dict__.setdefault('_jac', {})
    if k not in c:
        c[k] = pr.jac(k)
    return c[k]


POINT_ASSUME = [
    'reference semantics are NumPy float64 definitions evaluated by '
    'omtv/ops.py; derivatives by complex step of those definitions',
    'comparison tolerance 1e-9 (values) and 1e-6 (derivatives) relative to '
    'the largest magnitude of the compared block',
    'OpenMDAO, NumPy and SciPy as installed are trusted']


VALUE_KINDS = ['array', 'array', 'scalar', 'list', 'ints', 'intlist', 'int',
               'numpy', 'no_shape', 'list_no_shape', 'view', 'float32',
               'fortran', 'readonly', 'repeated']


def spell_value(rng, v, shape):
    """One of the ways to declare a value: keyword arguments, the value meant
    and the kind."""
    shape = tuple(shape)
    sh = {'shape': shape} if rng.random() < .6 else {}
    k = VALUE_KINDS[int(rng.integers(len(VALUE_KINDS)))]
    v = np.array(v, dtype=float).reshape(shape)
    if k == 'scalar':
        x = float(v.flat[0])
        return {'shape': shape, 'val': x}, np.full(shape, x), k
    if k == 'numpy':
        x = np.float64(v.flat[0])
        return {'shape': shape, 'val': x}, np.full(shape, x), k
    if k == 'int':
        x = int(np.ceil(v.flat[0]))
        x = [x, np.int64(x)][int(rng.integers(2))]
        return {'shape': shape, 'val': x}, np.full(shape, float(x)), k
    if k in ('ints', 'intlist'):
        i = np.ceil(v).astype([int, np.int32][int(rng.integers(2))])
        return {'shape': shape, 'val': i if k == 'ints' else i.tolist()}, \
            i.astype(float), k
    if k == 'list':
        return {'shape': shape, 'val': v.tolist()}, v, k
    if k == 'no_shape':
        return {'val': v.copy()}, v, k
    if k == 'list_no_shape':
        return {'val': v.tolist()}, v, k
    if k == 'view':         # not contiguous
        return {**sh, 'val': np.repeat(
            np.asfortranarray(v), 2, axis=-1)[..., ::2]}, v, k
    if k == 'float32':
        f = v.astype(np.float32)
        return {**sh, 'val': f}, f.astype(float), k
    if k == 'fortran':      # another order in memory
        f = np.asfortranarray(v) if rng.random() < .5 else \
            v.T.copy().transpose()
        return {**sh, 'val': f}, v, k
    if k == 'readonly':
        f = v.copy()
        f.setflags(write=False)
        return {**sh, 'val': f}, v, k
    if k == 'repeated':     # one entry seen everywhere
        f = np.broadcast_to(v.flat[0], shape)
        return {**sh, 'val': f}, np.array(f), k
    return {'shape': shape, 'val': v.copy()}, v, k


def nudged(rng, pt, names):
    """A point that differs from pt by a few millionths in some of names."""
    out = dict(pt)
    for n in names:
        if rng.random() < .7:
            v = np.asarray(pt[n], dtype=float)
            out[n] = v + 10 ** rng.uniform(-6.3, -5.1) * rng.uniform(
                .5, 1, size=v.shape) * np.maximum(np.abs(v), 1e-2)
    return out


def hub(case, rec):
    """For one case in nine: after how many operations to choose an expression
    that many others will use."""
    if case['seed'] % 9 != 4:
        return None
    rec.count('hub_models')
    return 1 + case['seed'] // 9 % 4
