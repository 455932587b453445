"""Stock components used by themselves."""
import copy
import importlib

import numpy as np

from omtv import gen, oracle
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P36'
RULE = ('per case one stock component class with random options, added to a '
        'plain OpenMDAO model (inputs from other components, connected or '
        'promoted, or left to their initial values, once or as two '
        'instances); outputs and total derivatives in forward or reverse '
        'mode at two points are compared with the formula of the component '
        'evaluated and complex-stepped by the oracle; the arguments are '
        'unchanged; distinct = (class, options)')
ASSUME = C.POINT_ASSUME + [
    'classes excluded: ConditionalComponent, which nothing uses and which '
    'cannot be instantiated, and PassThroughComp and DecomposeComp, whose '
    'options are expressions (they are reached through expressions)']
CL = {}     # name -> generator of (path, options, names, shapes, points, f)


def comp(path, cls):
    def reg(g):
        CL[cls] = ('omtools.comps.' + path, g)
        return g
    return reg


def shp(rng, lo=1, hi=4, cap=24, dmax=5):
    while True:
        s = tuple(int(x) for x in rng.integers(1, dmax, size=rng.integers(
            lo, hi + 1)))
        if np.prod(s) <= cap:
            return s


def vals(rng, shapes, lo=-2., hi=2.):
    return [[np.round(rng.uniform(lo, hi, size=s), 4) for s in shapes]
            for _ in range(3)]


def num(rng, lo=-3., hi=3.):
    v = float(np.round(rng.uniform(lo, hi), 2))
    return [v, int(round(v)), np.float64(v), np.int64(round(v))][
        int(rng.integers(4))]


# -- elementwise functions
def elementwise(fn, path, cls):
    op = O.REG[fn]

    @comp(path, cls)
    def g(rng):
        s = shp(rng)
        pts = []
        while len(pts) < 3:
            lo, hi = [(-1., 1.), (-2., 2.), (.1, 3.), (-9., 9.)][
                int(rng.integers(4))]
            for _ in range(40):
                v = np.round(rng.uniform(lo, hi, size=s), 4)
                if op.ok(v):
                    pts.append([v])
                    break
            else:
                if np.prod(s) > 3:
                    s = shp(rng, cap=3)
                    pts = []
        opt = {'in_name': 'x0', 'out_name': 'f', 'shape': s}
        if rng.random() < .3 and len(s) == 1:
            opt['shape'] = s[0]
        return opt, ('val', 'arr'), [s], pts, lambda a: op.r(a[0])


for _f, _p, _c in (
        ('arccos', 'arccoscomp', 'ArccosComp'),
        ('arcsin', 'arcsincomp', 'ArcsinComp'),
        ('arctan', 'arctancomp', 'ArctanComp'), ('cos', 'coscomp', 'CosComp'),
        ('cosec', 'coseccomp', 'CosecComp'),
        ('cosech', 'cosechcomp', 'CosechComp'),
        ('cosh', 'coshcomp', 'CoshComp'), ('cotan', 'cotancomp', 'CotanComp'),
        ('cotanh', 'cotanhcomp', 'CotanhComp'), ('exp', 'expcomp', 'ExpComp'),
        ('log', 'logcomp', 'LogComp'), ('log10', 'log10comp', 'Log10Comp'),
        ('sec', 'seccomp', 'SecComp'), ('sech', 'sechcomp', 'SechComp'),
        ('sin', 'sincomp', 'SinComp'), ('sinh', 'sinhcomp', 'SinhComp'),
        ('tan', 'tancomp', 'TanComp'), ('tanh', 'tanhcomp', 'TanhComp')):
    elementwise(_f, _p, _c)


# -- arithmetic
@comp('linearcombination_comp', 'LinearCombinationComp')
def lincomb(rng):
    s = shp(rng)
    n = int(rng.integers(1, 5))
    names = ['x%d' % i for i in range(n)]
    c = [num(rng) for _ in range(n)]
    opt = {'out_name': 'f', 'shape': s}
    k = int(rng.integers(5))
    if k == 0:
        opt['coeffs_dict'] = dict(zip(names, c))
    else:
        opt['in_names'] = names[0] if n == 1 and rng.random() < .6 else names
        if k == 1:
            c = [1.] * n
        elif k == 2:
            opt['coeffs'] = c[0]
            c = c[:1] * n
        elif k == 3:
            opt['coeffs'] = list(c)
        else:
            opt['coeffs'] = np.array(c, dtype=float)
            c = list(opt['coeffs'])
    b = 0.
    r = rng.random()
    if r < .4:
        b = opt['constant'] = num(rng)
    elif r < .7:
        b = opt['constant'] = np.round(rng.uniform(-2, 2, size=s), 3)
    return (opt, ('in_vals', 'list'), [s] * n, vals(rng, [s] * n),
            lambda a: sum(ci * x for ci, x in zip(c, a)) + b)


def ipow(x, p):
    """x**p; for whole p by multiplication, exact at zero."""
    if p != int(p):
        return x**p
    r = x * 0. + 1.
    for _ in range(abs(int(p))):
        r = r * x
    return 1. / r if p < 0 else r


def powers_and_points(rng, s, n, terms=1):
    """Powers, and points where everything is differentiable: whole powers
    that are not negative also at zero and negative values."""
    pts = vals(rng, [s] * n, .2, 2.)
    P = np.zeros((terms, n))
    for i in range(n):
        k = rng.random()
        for t in range(terms):
            if k < .4:
                P[t, i] = np.round(rng.uniform(-2, 3), 2)
            elif k < .6:
                P[t, i] = rng.integers(-2, 4)
            else:
                P[t, i] = rng.integers(0, 4)
        for v in pts:
            if .4 <= k:
                v[i] = v[i] * rng.choice([-1., 1.], size=s)
            if .6 <= k:
                v[i] = v[i] * (rng.random(s) < .7)
    return P, pts


@comp('arithmetic_comps.power_combination_comp', 'PowerCombinationComp')
def powcomb(rng):
    s = shp(rng)
    n = int(rng.integers(1, 5))
    names = ['x%d' % i for i in range(n)]
    P, pts = powers_and_points(rng, s, n)
    p = [int(v) if v == int(v) and rng.random() < .5 else float(v)
         for v in P[0]]
    opt = {'out_name': 'f', 'shape': s}
    k = int(rng.integers(5))
    if k == 0:
        opt['powers_dict'] = dict(zip(names, p))
    else:
        opt['in_names'] = names[0] if n == 1 and rng.random() < .6 else names
        if k == 1:
            p = [1.] * n
        elif k == 2:
            q = int(rng.integers(0, 4))
            p = [q] * n
            opt['powers'] = q
        elif k == 3:
            opt['powers'] = list(p)
        else:
            opt['powers'] = np.array(p, dtype=float)
    c = 1.
    r = rng.random()
    if r < .4:
        c = opt['coeff'] = num(rng)
    elif r < .7:
        c = opt['coeff'] = np.round(rng.uniform(-2, 2, size=s), 3)

    def f(a):
        r = c
        for x, q in zip(a, p):
            r = r * ipow(x, q)
        return r
    return opt, ('in_vals', 'list'), [s] * n, pts, f


@comp('linearpowercombination', 'LinearPowerCombinationComp')
def linpow(rng):
    s = shp(rng)
    n, t = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    names = ['x%d' % i for i in range(n)]
    P, pts = powers_and_points(rng, s, n, t)
    c = [num(rng) for _ in range(t)]
    opt = {'out_name': 'f', 'shape': s}
    if rng.random() < .5:
        terms = []
        for k in range(t):
            d = {names[i]: float(P[k, i]) for i in rng.permutation(n)
                 if P[k, i] != 0 or rng.random() < .5}
            terms.append((c[k], d))
        used = {x for _, d in terms for x in d}
        for i in range(n):      # every input appears in some term
            if names[i] not in used:
                terms[0][1][names[i]] = float(P[0, i])
        opt['terms_list'] = terms
    else:
        opt['in_names'] = names[0] if n == 1 and rng.random() < .6 else names
        opt['powers'] = P.copy()
        opt['coeffs'] = list(c) if rng.random() < .5 else np.array(
            c, dtype=float)
    b = 0.
    r = rng.random()
    if r < .4:
        b = opt['constant'] = num(rng)
        b = opt['constant'] = float(b) if isinstance(b, np.generic) else b
    elif r < .6:
        b = opt['constant'] = np.round(rng.uniform(-2, 2, size=s), 3)

    def f(a):
        tot = a[0] * 0. + b
        for k in range(t):
            r = float(c[k])
            for x, q in zip(a, P[k]):
                r = r * ipow(x, q)
            tot = tot + r
        return tot
    return opt, None, [s] * n, pts, f


# -- reductions
def reduction(path, cls, several, mean):
    @comp(path, cls)
    def g(rng):
        n = int(rng.integers(1, 4)) if several else 1
        s = shp(rng, 1, 4)
        opt = {'out_name': 'f', 'shape': s}
        if several:
            opt['in_names'] = ['x%d' % i for i in range(n)]
        else:
            opt['in_name'] = 'x0'
        ax = None
        if len(s) > 1 and rng.random() < .6:
            ax = tuple(O.pick_axes(rng, len(s), full=False))
            opt['axes'] = ax
            if rng.random() < .5:
                opt['out_shape'] = np.zeros(s).sum(axis=ax).shape

        def f(a):
            if ax is None:
                r = sum(a) if several else np.sum(a[0]).reshape((1,))
                return r / (n if several else a[0].size) if mean else r
            r = sum(np.sum(x, axis=ax) for x in a)
            m = np.prod([s[i] for i in ax]) * n
            return r / m if mean else r
        return (opt, ('vals', 'list') if several else ('val', 'arr'),
                [s] * n, vals(rng, [s] * n), f)


reduction('single_tensor_sum_comp', 'SingleTensorSumComp', False, False)
reduction('multiple_tensor_sum_comp', 'MultipleTensorSumComp', True, False)
reduction('single_tensor_average_comp', 'SingleTensorAverageComp', False,
          True)
reduction('multiple_tensor_average_comp', 'MultipleTensorAverageComp', True,
          True)


def extremum(path, cls, kind, sign):
    @comp(path, cls)
    def g(rng):
        n = int(rng.integers(1, 5)) if kind == 'elementwise' else 1
        s = shp(rng, 2 if kind == 'axis' else 1)
        rho = float(rng.choice([2., 7., 20.]))
        opt = {'out_name': 'f', 'shape': s}
        ax = None
        if kind == 'elementwise':
            opt.update(in_names=['x%d' % i for i in range(n)])
        else:
            opt['in_name'] = 'x0'
        opt['rho'] = [rho, int(rho)][int(rng.integers(2))]
        if kind == 'axis':
            ax = int(rng.integers(-len(s), len(s)))
            opt['axis'] = ax
        sg = sign
        if kind == 'scalar':
            sg = 1. if rng.random() < .5 else -1.
            if sg < 0 or rng.random() < .5:
                opt['lower_flag'] = sg < 0

        def f(a):
            if kind == 'elementwise':
                return O.ks(np.stack(a), rho, 0, sg)
            return O.ks(a[0], rho, ax, sg)
        return (opt, ('vals', 'list') if kind == 'elementwise' else
                ('val', 'arr'), [s] * n, vals(rng, [s] * n), f)


extremum('elementwise_max_comp', 'ElementwiseMaxComp', 'elementwise', 1.)
extremum('elementwise_min_comp', 'ElementwiseMinComp', 'elementwise', -1.)
extremum('axiswise_max_comp', 'AxisMaxComp', 'axis', 1.)
extremum('axiswise_min_comp', 'AxisMinComp', 'axis', -1.)
extremum('scalar_extremum_comp', 'ScalarExtremumComp', 'scalar', 0)


def norm(path, cls, axiswise):
    @comp(path, cls)
    def g(rng):
        s = shp(rng, 2 if axiswise else 1)
        opt = {'in_name': 'x0', 'out_name': 'f', 'shape': s}
        p, ax = 2, None
        if rng.random() < .7:
            p = opt['pnorm_type'] = int(rng.choice([2, 4, 6]))
        if axiswise:
            ax = opt['axis'] = tuple(O.pick_axes(rng, len(s), full=False))
            if rng.random() < .5:
                opt['out_shape'] = np.zeros(s).sum(axis=ax).shape
        pts = vals(rng, [s], .1)
        for v in pts:
            v[0] = v[0] * rng.choice([-1., 1.], size=s)

        def f(a):
            r = np.sum(ipow(a[0], p), axis=ax)**(1. / p)
            return r.reshape((1,)) if ax is None else r
        return opt, ('val', 'arr'), [s], pts, f


norm('vectorized_pnorm_comp', 'VectorizedPnormComp', False)
norm('vectorized_axiswise_pnorm_comp', 'VectorizedAxisWisePnormComp', True)


# -- products
def two(rng, s0, s1, f, **opt):
    return (dict({'in_names': ['x0', 'x1'], 'out_name': 'f'}, **opt),
            ('in_vals', 'list'), [s0, s1], vals(rng, [s0, s1]), f)


@comp('matmat_comp', 'MatMatComp')
def matmat(rng):
    n, m, k = (int(v) for v in rng.integers(1, 5, size=3))
    opt = {'in_shapes': [(n, m), (m, k)]}
    out = (n, k) if k != 1 else (n,)
    if rng.random() < .5:
        out = opt['out_shape'] = (n, k)
    return two(rng, (n, m), (m, k), lambda a: np.einsum(
        'ij,jk->ik', *a).reshape(out), **opt)


@comp('matvec_comp', 'MatVecComp')
def matvec(rng):
    n, m = (int(v) for v in rng.integers(1, 5, size=2))
    return two(rng, (n, m), (m,), lambda a: np.einsum('ij,j->i', *a),
               in_shapes=[(n, m), (m,)])


@comp('vector_inner_product_comp', 'VectorInnerProductComp')
def vinner(rng):
    n = int(rng.integers(1, 7))
    return two(rng, (n,), (n,), lambda a: np.sum(a[0] * a[1]).reshape((1,)),
               in_shape=n)


@comp('vector_outer_product_comp', 'VectorOuterProductComp')
def vouter(rng):
    n, m = (int(v) for v in rng.integers(1, 6, size=2))
    return two(rng, (n,), (m,), lambda a: np.multiply.outer(*a),
               in_shapes=[n, m])


@comp('tensor_outer_product_comp', 'TensorOuterProductComp')
def touter(rng):
    s, t = shp(rng, 1, 3, 8), shp(rng, 1, 3, 8)
    return two(rng, s, t, lambda a: np.multiply.outer(*a), in_shapes=[s, t])


@comp('tensor_dot_product_comp', 'TensorDotProductComp')
def tdot(rng):
    s = shp(rng, 2)
    ax = int(rng.integers(-len(s), len(s)))
    opt = {'in_shape': s, 'axis': ax}
    if rng.random() < .5:
        opt['out_shape'] = np.zeros(s).sum(axis=ax).shape
    return two(rng, s, s, lambda a: np.sum(a[0] * a[1], axis=ax), **opt)


@comp('tensor_inner_product_comp', 'TensorInnerProductComp')
def tinner(rng):
    while True:
        s, t = shp(rng, 1, 3, 18), shp(rng, 1, 3, 18)
        pairs = [(i, j) for i in range(len(s)) for j in range(len(t))
                 if s[i] == t[j]]
        rng.shuffle(pairs)
        a0, a1 = [], []
        for i, j in pairs[:int(rng.integers(1, 4))]:
            if i not in a0 and j not in a1:
                a0.append(int(i))
                a1.append(int(j))
        if a0 and len(a0) + len(a1) < len(s) + len(t):
            break
    neg = rng.random() < .3
    u = [i - len(s) if neg and rng.random() < .5 else i for i in a0]
    v = [j - len(t) if neg and rng.random() < .5 else j for j in a1]
    ax = (u[0], v[0]) if len(u) == 1 and rng.random() < .3 else \
        (tuple(u), tuple(v)) if rng.random() < .3 else (u, v)
    opt = {'in_shapes': [s, t], 'axes': ax}
    if rng.random() < .5:
        opt['out_shape'] = np.tensordot(np.zeros(s), np.zeros(t),
                                        axes=(a0, a1)).shape
    return two(rng, s, t, lambda a: np.tensordot(*a, axes=(a0, a1)), **opt)


@comp('cross_product_comp', 'CrossProductComp')
def cross(rng):
    s = list(shp(rng, 1, 3, 8))
    ax = int(rng.integers(len(s)))
    s[ax] = 3
    s = tuple(s)
    pts = vals(rng, [s, s])
    opt = {'shape': s, 'axis': ax, 'in1_name': 'x0', 'in2_name': 'x1',
           'out_name': 'f'}
    return (opt, (('in1_val', 'in2_val'), 'each'), [s, s], pts,
            lambda a: O.REG['cross'].ref(a, {'axis': ax}))


def einsum(path, cls):
    @comp(path, cls)
    def g(rng):
        while True:
            n = int(rng.integers(1, 4))
            size = {c: int(d) for c, d in zip('abcde', rng.integers(
                1, 4, size=5))}
            subs = [''.join(rng.choice(list('abcde'), replace=rng.random() <
                                       .2, size=rng.integers(1, 4)))
                    for _ in range(n)]
            which = list(range(n))
            if n > 1 and rng.random() < .3:     # the same input twice
                which[-1] = 0
                # (the same shape for other letters)
                if len(subs[-1]) != len(subs[0]) or any(
                        size[c] != size[d] for c, d in zip(subs[-1],
                                                           subs[0])):
                    subs[-1] = subs[0]
            out = [c for c in set(''.join(subs)) if rng.random() < .5]
            out = ''.join(sorted(out))
            out = ''.join(rng.permutation(list(out))) if out else ''
            if np.prod([size[c] for c in out] or [1]) <= 40:
                break
        sub = ','.join(subs) + '->' + out
        shapes = [tuple(size[c] for c in t) for t in subs]
        uniq = sorted(set(which))
        opt = {'out_name': 'f', 'operation': sub,
               'in_names': ['x%d' % i for i in which],
               'in_shapes': list(shapes)}
        if n == 1 and rng.random() < .5:
            opt['in_names'], opt['in_shapes'] = 'x0', shapes[0]
        if rng.random() < .5:
            opt['out_shape'] = tuple(size[c] for c in out) or (1,)

        def f(a):
            r = np.einsum(sub, *[a[i] for i in which])
            return r if out else r.reshape((1,))
        ss = [shapes[i] for i in uniq]
        pts = vals(rng, ss)
        return opt, ('in_vals', which), ss, pts, f


einsum('einsum_comp_dense_derivs', 'EinsumComp')
einsum('einsum_comp_sparse_derivs', 'SparsePartialEinsumComp')


# -- shapes
@comp('reshape_comp', 'ReshapeComp')
def reshape(rng):
    s = shp(rng)
    f = O.factorizations(int(np.prod(s)), rng)
    t = tuple(int(x) for x in f[int(rng.integers(len(f)))])
    return ({'in_name': 'x0', 'out_name': 'f', 'shape': s, 'new_shape': t},
            ('val', 'arr'), [s], vals(rng, [s]), lambda a: a[0].reshape(t))


@comp('transpose_comp', 'TransposeComp')
def transpose(rng):
    s = shp(rng)
    opt = {'in_name': 'x0', 'out_name': 'f', 'in_shape': s}
    if rng.random() < .5:
        opt['out_shape'] = s[::-1]
    return opt, ('val', 'arr'), [s], vals(rng, [s]), lambda a: a[0].T


@comp('reorder_axes_comp', 'ReorderAxesComp')
def reorder(rng):
    s = shp(rng)
    q = [int(i) for i in rng.permutation(len(s))]
    L = list(rng.choice(list('abcdijkxyz'), size=len(s), replace=False))
    opt = {'in_name': 'x0', 'out_name': 'f', 'in_shape': s,
           'operation': ''.join(L) + '->' + ''.join(L[i] for i in q)}
    if rng.random() < .5:
        opt['out_shape'] = tuple(s[i] for i in q)
    if rng.random() < .4:
        opt['new_axes_locations'] = list(q)
    return (opt, ('val', 'arr'), [s], vals(rng, [s]),
            lambda a: a[0].transpose(q))


@comp('scalar_expansion_comp', 'ScalarExpansionComp')
def sexpand(rng):
    s = shp(rng)
    return ({'in_name': 'x0', 'out_name': 'f', 'shape': s},
            ('val', 'arr') if rng.random() < .7 else None, [(1,)],
            vals(rng, [(1,)]), lambda a: a[0] * np.ones(s))


@comp('array_expansion_comp', 'ArrayExpansionComp')
def aexpand(rng):
    s = shp(rng, 2)
    ind = sorted(int(i) for i in rng.choice(
        len(s), size=rng.integers(1, len(s)), replace=False))
    t = tuple(d for i, d in enumerate(s) if i not in ind)
    key = tuple(None if i in ind else slice(None) for i in range(len(s)))
    opt = {'in_name': 'x0', 'out_name': 'f', 'shape': s,
           'expand_indices': [int(i) for i in rng.permutation(ind)]}
    return (opt, ('val', 'arr'), [t], vals(rng, [t]),
            lambda a: a[0][key] * np.ones(s))


@comp('rotation_matrix_comp', 'RotationMatrixComp')
def rot(rng):
    s = shp(rng, 1, 3, 8)
    ax = str(rng.choice(list('xyz')))
    return ({'in_name': 'x0', 'out_name': 'f', 'shape': s, 'axis': ax},
            ('val', 'arr'), [s], vals(rng, [s], -4, 4),
            lambda a: O.REG['rotmat'].ref(a, {'axis': ax}))


@comp('indexed_pass_through_comp', 'IndexedPassThroughComp')
def indexed(rng):
    s = shp(rng, 1, 3)
    size = int(np.prod(s))
    perm = rng.permutation(size)
    n = int(rng.integers(1, min(size, 3) + 1))
    cuts = sorted(rng.choice(np.arange(1, size), size=n - 1, replace=False))
    idx = [np.array(a) for a in np.split(perm, cuts)]
    shapes = [tuple(int(d) for d in O.factorizations(len(i), rng)[0])
              for i in idx]
    opt = {'out_name': 'f', 'out_shape': s, 'expr_indices': {
        'x%d' % k: (shapes[k], idx[k]) for k in range(n)}}

    def f(a):
        r = np.zeros(size, dtype=np.result_type(*a))
        for i, x in zip(idx, a):
            r[i] = x.ravel()
        return r.reshape(s)
    return opt, ('vals', 'dict'), shapes, vals(rng, shapes), f


MIN = {'runs': 1500, 'entries_compared': 8000, 'blocks': 1500,
       'nonzero_blocks': 1100, 'arguments_compared': 700,
       'wiring.unconnected': 100, 'wiring.connect': 100,
       'wiring.promote': 100, 'setup_twice': 150, 'two_instances': 150}
MIN.update({'class.' + c: 12 for c in CL})


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 20, 400) * len(CL), tag=360)


def initial(kind, pts):
    """The options giving the initial values of the inputs."""
    if kind is None:
        return {}
    o, k = kind
    if k == 'arr':
        return {o: pts[0].copy()}
    if k == 'each':
        return {n: v.copy() for n, v in zip(o, pts)}
    if k == 'dict':
        return {o: {'x%d' % i: v.copy() for i, v in enumerate(pts)}}
    if k == 'list':
        return {o: [v.copy() for v in pts]}
    return {o: [pts[i].copy() for i in k]}


def jacobian(f, x):
    """Complex step, one column per entry of every input."""
    y = f(x)
    out = []
    for i, v in enumerate(x):
        J = np.zeros((y.size, v.size))
        for j in range(v.size):
            z = [u.astype(complex) for u in x]
            z[i].ravel()[j] += 1e-30j
            J[:, j] = np.imag(f(z)).ravel() / 1e-30
        out.append(J)
    return y, out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and \
            np.array_equal(a, b)
    if isinstance(a, dict):
        return type(b) is dict and list(a) == list(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def renamed(o, to):
    """The options with other names of inputs."""
    if isinstance(o, str):
        return to.get(o, o)
    if type(o) in (list, tuple):
        return type(o)(renamed(v, to) for v in o)
    if type(o) is dict:
        return {renamed(k, to): renamed(v, to) for k, v in o.items()}
    return o


def run(case, rec):
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 36)
    cls = sorted(CL)[case['seed'] % len(CL)]
    path, g = CL[cls]
    opt, ini, shapes, pts, f = g(rng)
    names = ['x%d' % i for i in range(len(shapes))]
    opt.update(initial(ini, pts[0]))
    if rng.random() < .6:
        # names whose order is not that of the alphabet
        pool = ['x1', 'q', 'b_2', 'z', 'a', 'x0', 'x10', 'Y', 'x2', 'mm',
                'out', 'k9']
        new = [pool[i] for i in rng.permutation(len(pool))]
        opt = renamed(opt, dict(zip(names, new)))
        names = new[:len(names)]
        rec.count('other_names')
    given = copy.deepcopy(opt)
    wiring = ['promote', 'connect', 'unconnected'][int(rng.integers(3))]
    twice, ninst = rng.random() < .3, 1 + int(rng.random() < .3)
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    text = {'component': cls, 'options': {k: repr(v)[:120] for k, v in
                                          given.items()}}
    with target('setup of ' + cls):
        K = getattr(importlib.import_module(path), cls)
        p = om.Problem()
        if wiring != 'unconnected':
            ivc = om.IndepVarComp()
            for n, v in zip(names, pts[0]):
                ivc.add_output(n, val=v)
            p.model.add_subsystem('ivc', ivc, promotes=(
                ['*'] if wiring == 'promote' else None))
        comps = ['c', 'd'][:ninst]
        for c in comps:
            # the second one gets the same arguments
            p.model.add_subsystem(c, K(**opt), promotes_inputs=(
                ['*'] if wiring == 'promote' else None))
            if wiring == 'connect':
                for n in names:
                    p.model.connect('ivc.' + n, c + '.' + n)
        for _ in range(2 if twice else 1):
            p.setup(mode=mode)
            p.final_setup()
    if twice:
        rec.count('setup_twice')
    if ninst > 1:
        rec.count('two_instances')
    own = wiring == 'unconnected'
    if own and ini is None:
        pts[0] = [np.ones(s) for s in shapes]
    for j, x in enumerate(pts):
        if j:
            with target('set_val'):
                for i, n in enumerate(names):
                    for k, c in enumerate(comps):
                        # instances left alone get different values
                        p.set_val(c + '.' + n if own else
                                  'ivc.' + n if wiring == 'connect' else n,
                                  pts[max(j - k, 0)][i] if own else x[i])
        oracle.run_model(p)
        rec.count('runs')
        T = oracle.totals(p, [c + '.f' for c in comps],
                          [c + '.' + n for c in comps for n in names] if own
                          else ['ivc.' + n for n in names] if wiring ==
                          'connect' else names)
        for k, c in enumerate(comps):
            at = pts[max(j - k, 0)] if own and j else x
            y, J = jacobian(f, at)
            m = oracle.mismatch(np.array(p.get_val(c + '.f')), y, 1e-9)
            rec.count('entries_compared', y.size)
            if m:
                rec.fail('value:' + cls, 'output of %s: %s' % (cls, m),
                         inputs=at, **text)
                return
            sc = max([1.] + [float(np.abs(b).max()) for b in J])
            for i, n in enumerate(names):
                pre = {'unconnected': c + '.', 'connect': 'ivc.',
                       'promote': ''}[wiring]
                got = T[c + '.f'][pre + n]
                rec.count('blocks')
                if J[i].any():
                    rec.count('nonzero_blocks')
                m = oracle.mismatch(got, J[i], 1e-6, sc)
                if m:
                    rec.fail('deriv:' + cls, 'derivative (%s) of the output '
                             'of %s with respect to %s: %s' % (
                                 mode, cls, n, m), inputs=at, **text)
                    return
    rec.count('arguments_compared')
    bad = [k for k in given if not same(given[k], opt[k])]
    if bad:
        rec.fail('arguments:' + cls, 'argument %s of %s was changed from '
                 '%r to %r' % (bad[0], cls, given[bad[0]], opt[bad[0]]),
                 **text)
        return
    rec.count('class.' + cls)
    rec.count('wiring.' + wiring)
    rec.sig((cls, sorted((k, str(v)) for k, v in given.items()
                         if 'val' not in k)))
    rec.show(text)
