"""Ill-formed expressions are rejected, never given a meaning."""
import numpy as np

from omtv import gen
from omtv import ops as O
from omtv.core import Rec, TargetError, target
from omtv.props import common as C

PID = 'P22'
RULE = ('one ill-formed expression and its well-formed twin per case, from '
        '%s families of mistakes, on random shapes, on inputs or on computed '
        'expressions; the former must raise an exception before it yields a '
        'value, the latter must compile and run; distinct = (family, '
        'shapes, parameters)')
ASSUME = ['an exception raised while constructing, setting up or running the '
          'model counts as rejection']
FN1 = [n for n, o in O.REG.items() if o.group == 'elementwise']


def alike(s):
    """Shapes that are easily confused with s: the same number of entries,
    an axis of length one more or less, axes permuted, one axis longer."""
    s = tuple(s)
    c = {s[::-1], s[1:] + s[:1], (int(np.prod(s)),), s[:-1] + (s[-1] + 1,)}
    for i in range(len(s) + 1):
        c.add(s[:i] + (1,) + s[i:])
        if i < len(s):
            c.add(s[:i] + (1,) + s[i + 1:])
            c.add(s[:i] + s[i + 1:])
    return sorted(t for t in c if t not in (s, ()))


def other_shape(rng, s, pred=lambda t: True):
    c = [t for t in alike(s) if pred(t)]
    if c and rng.random() < .5:
        return c[int(rng.integers(len(c)))]
    while True:
        t = gen.SHAPES[int(rng.integers(len(gen.SHAPES)))]
        if tuple(t) != tuple(s) and pred(t):
            return t


def shape(rng, pred=lambda t: True):
    while True:
        t = gen.SHAPES[int(rng.integers(len(gen.SHAPES)))]
        if pred(t):
            return t


def fits(c, s):
    """NumPy gives a value to combining a constant of shape c with a value
    of shape s (extra axes of length 1 included)."""
    try:
        return np.prod(np.broadcast_shapes(c, s)) == np.prod(s)
    except ValueError:
        return False


FAM = {}


def fam(f):
    FAM[f.__name__] = f
    return f


# each family returns (shapes, bad(ot, xs), good(ot, xs), description[, good
# shapes])
SYM = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b}


@fam
def binary_shapes(rng):
    k = str(rng.choice(list('+-*/')))
    s = shape(rng)
    t = other_shape(rng, s)
    f = SYM[k]
    return ([s, t], lambda ot, x: f(x[0], x[1]),
            lambda ot, x: f(x[0], x[1]), k, [s, s])


@fam
def constant_shape(rng):
    k = str(rng.choice(list('+-*/')))
    s = shape(rng)
    t = other_shape(rng, s, lambda t: not fits(t, s))
    f = SYM[k]
    return ([s], lambda ot, x: f(x[0], np.ones(t)),
            lambda ot, x: f(x[0], np.ones(s)), (k, t))


@fam
def operand_type(rng):
    k = str(rng.choice(list('+-*/')))
    s = shape(rng)
    v = [[1.] * 3, None, 'a', {}, (1., 2.), object()][int(rng.integers(6))]
    f = SYM[k]
    left = rng.random() < .4
    return ([s], lambda ot, x: f(v, x[0]) if left else f(x[0], v),
            lambda ot, x: f(2., x[0]) if left else f(x[0], 2.),
            (k, left, type(v).__name__))


@fam
def exponent(rng):
    s = shape(rng)
    r = rng.random()
    if r < .5:
        return ([s, s], lambda ot, x: x[0]**x[1],
                lambda ot, x: x[0]**2 + x[1], 'variable')
    t = other_shape(rng, s)
    return ([s], lambda ot, x: x[0]**np.full(t, 2.),
            lambda ot, x: x[0]**np.full(s, 2.), t)


@fam
def constant_kind(rng):
    """Constants and exponents that are not real."""
    k = str(rng.choice(list('+-*/^')))
    s = shape(rng)
    v = [1j, 2. + 1j, np.complex128(1. - 1j), np.full(s, 1. + 1j),
         np.full(s, '1'), np.full(s, 1. + 0j)][int(rng.integers(6))]
    f = SYM.get(k, lambda a, b: a**b)
    left = k != '^' and not isinstance(v, np.ndarray) and rng.random() < .4
    return ([s], lambda ot, x: f(v, x[0]) if left else f(x[0], v),
            lambda ot, x: f(2., x[0]) if left else f(x[0], 2.),
            (k, left, str(v)[:40]))


@fam
def divide_by_zero(rng):
    s = shape(rng)
    r = rng.random()
    if r < .5:
        return [s], lambda ot, x: x[0] / 0, lambda ot, x: x[0] / 1, 'number'
    c = np.ones(s)
    c.flat[int(rng.integers(c.size))] = 0
    return [s], lambda ot, x: x[0] / c, lambda ot, x: x[0] / (c + 1), 'array'


@fam
def divide_by_zero_value(rng):
    """The divisor becomes zero when the model runs."""
    s = shape(rng)
    return ([s, s], lambda ot, x: x[0] / (x[1] - x[1]),
            lambda ot, x: x[0] / (x[1] + x[1]), 'run')


@fam
def function_argument(rng):
    f = str(rng.choice(FN1 + ['transpose']))
    s = shape(rng)
    v = [0.5, np.full(s, .5), None, 'x', [.5]][int(rng.integers(5))]

    def good(ot, x):
        return getattr(ot, f)(x[0] * .5 if f in ('arcsin', 'arccos')
                              else x[0])
    return [s], lambda ot, x: getattr(ot, f)(v), good, (
        f, type(v).__name__)


@fam
def reduce_operands(rng):
    f = str(rng.choice(['sum', 'average', 'max', 'min']))
    n = int(rng.integers(2, 5))
    s = shape(rng)
    t = other_shape(rng, s)
    k = int(rng.integers(n))
    kw = {}
    if f in ('sum', 'average') and len(s) > 1 and rng.random() < .5:
        # shapes that differ along a reduced axis, or another one, only
        ax = int(rng.integers(len(s)))
        kw = {'axes': (ax,)}
        b = ax if rng.random() < .6 else int(rng.integers(len(s)))
        t = s[:b] + (s[b] + 1,) + s[b + 1:]
        if rng.random() < .3:
            t = s[:ax] + s[ax + 1:]
    ss = [t if i == k else s for i in range(n)]
    return (ss, lambda ot, x: getattr(ot, f)(*x, **kw),
            lambda ot, x: getattr(ot, f)(*x, **kw), (f, k, kw), [s] * n)


@fam
def reduce_constant(rng):
    f = str(rng.choice(['sum', 'average']))
    s = shape(rng)
    v = [1., np.ones(s), None][int(rng.integers(3))]
    first = rng.random() < .4
    return ([s, s], lambda ot, x: getattr(ot, f)(*(
        (v, x[0]) if first else (x[0], v))),
            lambda ot, x: getattr(ot, f)(*x), (f, first, type(v).__name__))


@fam
def axis_range(rng):
    f = str(rng.choice(['sum', 'average', 'max', 'min', 'pnorm', 'cross',
                        'dot']))
    if f in ('cross', 'dot'):
        s = shape(rng, lambda t: 3 in t and len(t) >= 2)
        a = len(s) + int(rng.integers(0, 3))
        if rng.random() < .3:
            a = -a - 1
        return ([s, s], lambda ot, x: getattr(ot, f)(x[0], x[1], axis=a),
                lambda ot, x: getattr(ot, f)(x[0], x[1], axis=s.index(3)),
                (f, a))
    s = shape(rng, lambda t: len(t) >= 2)
    a = len(s) + int(rng.integers(0, 3))
    g = int(rng.integers(len(s)))
    if rng.random() < .3:
        a = -a - 1
    if f in ('sum', 'average'):
        return ([s], lambda ot, x: getattr(ot, f)(x[0], axes=(a,)),
                lambda ot, x: getattr(ot, f)(x[0], axes=(g,)), (f, a))
    return ([s], lambda ot, x: getattr(ot, f)(x[0], axis=a),
            lambda ot, x: getattr(ot, f)(x[0], axis=g), (f, a))


@fam
def several_and_axis(rng):
    f = str(rng.choice(['max', 'min']))
    s = shape(rng, lambda t: len(t) >= 2)
    return ([s, s], lambda ot, x: getattr(ot, f)(*x, axis=0),
            lambda ot, x: getattr(ot, f)(*x), f)


@fam
def norm_order(rng):
    s = shape(rng)
    p = int(rng.choice([-2, -1, 0, 1, 3, 5, 7]))
    return ([s], lambda ot, x: ot.pnorm(x[0], pnorm_type=p),
            lambda ot, x: ot.pnorm(x[0], pnorm_type=4), p)


@fam
def product_shapes(rng):
    f = str(rng.choice(['dot', 'cross', 'matvec', 'matmat']))
    if f == 'dot':
        n, m = (int(v) for v in rng.choice(range(1, 6), 2, replace=False))
        return ([(n,), (m,)], lambda ot, x: ot.dot(*x),
                lambda ot, x: ot.dot(*x), (n, m), [(n,), (n,)])
    if f == 'cross':
        s = shape(rng, lambda t: 3 in t)
        t = other_shape(rng, s)
        ax = s.index(3)
        return ([s, t], lambda ot, x: ot.cross(x[0], x[1], axis=ax),
                lambda ot, x: ot.cross(x[0], x[1], axis=ax), (s, t), [s, s])
    n, m, k = (int(v) for v in rng.integers(1, 5, size=3))
    r = rng.random()
    if r < .4:          # an operand with too many or too few axes
        q = int(rng.integers(1, 4))
        vec = f == 'matvec'
        bad = [[(n, m), (m, q, k)], [(n, m, k), (m,) if vec else (m, q)],
               [(m,), (m,) if vec else (m, q)],
               [(n, m), (m, q)] if vec else [(n, m), (m, 1, 1)]][
                   int(rng.integers(4))]
        return (bad, lambda ot, x: getattr(ot, f)(*x),
                lambda ot, x: getattr(ot, f)(*x), (f, 'rank', bad),
                [(n, m), (m,) if vec else (m, q)])
    while k == m:
        k = int(rng.integers(1, 6))
    if f == 'matvec':
        return ([(n, m), (k,)], lambda ot, x: ot.matvec(*x),
                lambda ot, x: ot.matvec(*x), (n, m, k), [(n, m), (m,)])
    q = int(rng.integers(1, 4))
    return ([(n, m), (k, q)], lambda ot, x: ot.matmat(*x),
            lambda ot, x: ot.matmat(*x), (n, m, k, q), [(n, m), (m, q)])


@fam
def cross_axis(rng):
    f = str(rng.choice(['cross', 'dot']))
    s = shape(rng, lambda t: 3 in t and len(t) >= 2 and
              any(d != 3 for d in t))
    bad = int(rng.choice([i for i, d in enumerate(s) if d != 3]))
    ok = s.index(3)
    return ([s, s], lambda ot, x: getattr(ot, f)(x[0], x[1], axis=bad),
            lambda ot, x: getattr(ot, f)(x[0], x[1], axis=ok), (f, bad))


@fam
def inner_axes(rng):
    f = 'inner'
    nd = int(rng.integers(2, 4))
    a = [int(v) for v in rng.integers(1, 5, size=nd)]
    b = [int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4)))]
    i, j = int(rng.integers(nd)), int(rng.integers(len(b)))
    g = list(b)
    g[j] = a[i]
    k = int(rng.integers(7))
    ss = [tuple(a), tuple(g)]
    good = lambda ot, x: ot.inner(x[0], x[1], axes=([i], [j]))
    if k == 4:      # an axis of only one of the operands twice
        d = int(rng.integers(1, 4))
        e = int(rng.integers(1, 4))
        sh = [(d, e), (d, d)]
        ax = ([0, 0 if rng.random() < .5 else -2], [0, 1])
        if rng.random() < .5:
            sh, ax = sh[::-1], ax[::-1]
        return (sh, lambda ot, x: ot.inner(x[0], x[1], axes=ax),
                lambda ot, x: ot.inner(x[0], x[1], axes=([0], [0])),
                ('once', ax), [(d, e), (d, d)])
    if k == 5:      # vectors have one axis
        ax = [([1], [0]), ([0], [1]), ([5], [7]), ([-2], [-1]), ([0, 0],
              [0, 0]), ([], []), (2, 2), ([0, 1], [0, 1])][
                  int(rng.integers(8))]
        ss = [(a[i],)] * 2
        return (ss, lambda ot, x: ot.inner(x[0], x[1], axes=ax),
                lambda ot, x: ot.inner(x[0], x[1], axes=([0], [-1])),
                ('vectors', ax))
    if k == 6:      # axes that match in another order only
        d = int(rng.integers(1, 4))
        e = d + int(rng.integers(1, 3))
        sh = [(d, e) + tuple(a[:1])[:int(rng.integers(2))],
              (d, e) + tuple(b[:1])[:int(rng.integers(2))]]
        if len(sh[0]) + len(sh[1]) == 4:    # one axis is left
            sh[0] = (d, e, 2)
        ax = ([0, 1], [1, 0]) if rng.random() < .5 else ([1, 0], [0, 1])
        return (sh, lambda ot, x: ot.inner(x[0], x[1], axes=ax),
                lambda ot, x: ot.inner(x[0], x[1], axes=([0, 1], [0, 1])),
                ('order', ax))
    if k == 0:      # dimensions along the axes differ
        while b[j] == a[i]:
            b[j] = int(rng.integers(1, 6))
        return [tuple(a), tuple(b)], good, good, ('dim', i, j), ss
    if k == 1:      # not as many axes of the one as of the other
        o = (i + 1) % nd
        return (ss, lambda ot, x: ot.inner(x[0], x[1], axes=([i, o], [j])),
                good, ('count', i, o, j))
    if k == 2:      # an axis twice
        return (ss, lambda ot, x: ot.inner(x[0], x[1],
                                           axes=([i, i], [j, j])),
                good, ('twice', i, j))
    return (ss, lambda ot, x: ot.inner(x[0], x[1],
                                       axes=([nd], [j])), good, ('range', j))


@fam
def repeated_axes(rng):
    f = str(rng.choice(['sum', 'average', 'pnorm', 'sum2', 'average2']))
    s = shape(rng, lambda t: len(t) >= 3)
    a, b = (int(v) for v in rng.choice(len(s), 2, replace=False))
    bad = (a, b, a - (len(s) if rng.random() < .4 else 0))
    if rng.random() < .5:
        bad = bad[::2]
    if f == 'pnorm':
        return ([s], lambda ot, x: ot.pnorm(x[0], axis=bad),
                lambda ot, x: ot.pnorm(x[0], axis=(a, b)), bad)
    g = f.rstrip('2')
    n = 1 + (g != f)
    return ([s] * n, lambda ot, x: getattr(ot, g)(*x, axes=bad),
            lambda ot, x: getattr(ot, g)(*x, axes=(a, b)), (f, bad))


@fam
def condition_size(rng):
    s = shape(rng)
    c = shape(rng, lambda t: np.prod(t) > 1)
    one = (1,) * int(rng.integers(1, 3))
    return ([c, s, s], lambda ot, x: ot.if_else(*x),
            lambda ot, x: ot.if_else(*x), (c, s), [one, s, s])


@fam
def operand_kind(rng):
    """A number or an array where a product takes expressions only."""
    f = str(rng.choice(['dot', 'inner', 'outer', 'cross', 'matvec', 'matmat',
                        'einsum', 'max', 'min', 'pnorm', 'rotmat',
                        'reorder_axes']))
    ss = [(3,), (3,)]
    kw = {}
    n = 2
    if f == 'cross':
        kw = {'axis': 0}
    elif f == 'matvec':
        ss = [(2, 3), (3,)]
    elif f == 'matmat':
        ss = [(2, 3), (3, 2)]
    elif f == 'einsum':
        kw = {'subscripts': 'i,i->i'}
    elif f in ('pnorm', 'rotmat', 'reorder_axes'):
        ss, n = [(1,)], 1
        if f == 'reorder_axes':
            ss = [(2, 3)]
    a = {'rotmat': ('x',), 'reorder_axes': ('ij->ji',)}.get(f, ())
    k = int(rng.integers(n))
    v = [np.full(ss[k], .5), .5, None][int(rng.integers(3))]

    def bad(ot, x):
        x = list(x)
        x[k] = v
        return getattr(ot, f)(*x, *a, **kw)
    return (ss, bad, lambda ot, x: getattr(ot, f)(*x, *a, **kw),
            (f, k, type(v).__name__))


@fam
def einsum_subscripts(rng):
    n, m, q = (int(v) for v in rng.choice(range(2, 6), 3, replace=False))
    fmt = str(rng.choice(['dense', 'sparse']))
    bad = str(rng.choice(['ij,jk->ii', 'ij,jk->ikk', 'i,jk->ik', 'ij,j->i',
                          'ij,jk,k->i', 'ij->i', 'ij,jk->ikl', 'ii,jk->ik',
                          'ij,jk->k i j x']))

    def e(sub):
        return lambda ot, x: ot.einsum(*x, subscripts=sub,
                                       partial_format=fmt)
    return [(n, m), (m, q)], e(bad), e('ij,jk->ik'), (bad, fmt)


@fam
def einsum_format(rng):
    f = ['csr', '', None, 'Dense'][int(rng.integers(4))]
    s = shape(rng, lambda t: len(t) == 2)

    def e(f):
        return lambda ot, x: ot.einsum(*x, subscripts='ij->ji',
                                       partial_format=f)
    return [s], e(f), e('sparse'), f


@fam
def einsum_tuples(rng):
    """The interface in terms of tuples of indices."""
    n, m, q = (int(v) for v in rng.choice(range(2, 6), 3, replace=False))
    good = [(0, 1), (1, 2), (0, 2)]
    k = int(rng.integers(5))
    ss = [(n, m), (m, q)]

    def e(op):
        return lambda ot, x: ot.einsum_new_api(*x, operation=op)
    g = e(good)
    if k == 0:
        return [(n, m), (q, m)], g, g, 'dim', ss
    if k == 1:
        return ss, e([(0, 1, 3), (1, 2), (0, 2)]), g, 'labels'
    if k == 2:
        return ss, e([(0, 1), (1, 2), (1, 2), (0, 2)]), g, 'operands'
    if k == 3:
        return ss, e([(0, 1), (1, 2), (0, 5)]), g, 'output'
    return ss, e([(0, 1), (1, 2), (0, 0)]), g, 'twice'


@fam
def einsum_labels(rng):
    k = int(rng.integers(5))
    n, m, q = (int(v) for v in rng.choice(range(2, 6), 3, replace=False))
    fmt = str(rng.choice(['dense', 'sparse']))

    def e(sub):
        return lambda ot, x: ot.einsum(*x, subscripts=sub,
                                       partial_format=fmt)
    good = [(n, m), (m, q)]
    g = e('ij,jk->ik')
    if k == 0:          # contracted dimensions differ
        return [(n, m), (q, m)], g, g, ('dim', n, m, q, fmt), good
    if k == 1:          # too many labels
        return [(n, m), (m, q)], e('ijl,jk->ik'), g, ('labels', fmt), good
    if k == 2:          # operand without labels
        return ([(n, m)], g, g, ('operands', fmt), good)
    if k == 3:          # one label for axes of different lengths
        ss = [(1, n), (n, 1), (n, m)][int(rng.integers(3))]
        d = e(str(rng.choice(['ii->i', 'ii->'])))
        return [ss], d, d, ('diagonal', ss, fmt), [(n, n)]
    return [(n, m), (m, q)], e('ij,jk->iz'), g, ('output', fmt), good


@fam
def reorder_labels(rng):
    n = int(rng.integers(1, 4))
    s = [shape(rng, lambda t: len(t) == 3), (n, n, n)][int(rng.integers(2))]
    bad = str(rng.choice(['ijkl->lkji', 'ijk->ijl', 'ij->ji', 'ijk->kj',
                          'ijk->kkj', 'ijk->kjii', 'iij->jii', 'ijk',
                          '->ijk', 'ijk->', 'ijkl->kji', 'ijj->jii']))
    return ([s], lambda ot, x: ot.reorder_axes(x[0], bad),
            lambda ot, x: ot.reorder_axes(x[0], 'ijk->kji'), bad)


@fam
def expand_labels(rng):
    n, m, q = (int(v) for v in rng.choice(range(2, 6), 3, replace=False))
    k = int(rng.integers(5))

    def good(ot, x):
        return ot.expand(x[0], (n, m), 'i->ij')
    if k > 2:           # axes of the expression not once and in order
        bad, sh = [('ij->jik', (n, n, m)), ('ij->ji', (n, n)),
                   ('ij->kji', (m, n, n)), ('ii->iik', (n, n, m)),
                   ('ij->iik', (n, n, m)), ('ij->ijkl', (n, n, m)),
                   ('ij->jki', (n, m, n)), ('ij->ijkk', (n, n, m, m)),
                   ('i->ij', (n, n, m))][int(rng.integers(9))]
        return ([(n, n)], lambda ot, x: ot.expand(x[0], sh, bad),
                lambda ot, x: ot.expand(x[0], (n, m, n), 'ij->ikj'), bad)
    if k == 0:
        return [(n,)], lambda ot, x: ot.expand(x[0], (n, m)), good, 'none'
    if k == 1:
        return ([(n,)], lambda ot, x: ot.expand(x[0], (q, m), 'i->ij'), good,
                'dim')
    return ([(n, q)], lambda ot, x: ot.expand(x[0], (n, m), 'i->ij'), good,
            'labels', [(n,)])


@fam
def rotation_axis(rng):
    a = str(rng.choice(['w', '', 'xy', 'X', '1']))
    s = shape(rng, lambda t: np.prod(t) < 5)
    return ([s], lambda ot, x: ot.rotmat(x[0], a),
            lambda ot, x: ot.rotmat(x[0], 'y'), a)


@fam
def reshape_size(rng):
    s = shape(rng)
    t = other_shape(rng, s, lambda t: np.prod(t) != np.prod(s))
    return ([s], lambda ot, x: ot.reshape(x[0], tuple(t)),
            lambda ot, x: ot.reshape(x[0], (int(np.prod(s)),)), t)


@fam
def index_range(rng):
    s = shape(rng)
    ax = int(rng.integers(len(s)))
    d = s[ax]
    k = int(rng.integers(4))
    v = [d + int(rng.integers(3)), slice(0, d + 1), -1,
         slice(d, d + 2)][k]
    key = [slice(None)] * len(s)
    good = tuple(key[:ax] + [d - 1] + key[ax + 1:])
    key[ax] = v
    key = tuple(key)
    if len(s) == 1 and rng.random() < .5:
        key, good = key[0], good[0]
    return [s], lambda ot, x: x[0][key], lambda ot, x: x[0][good], str(key)


@fam
def index_type(rng):
    s = shape(rng)
    bad = [1.5, 'a', None, Ellipsis, [0], np.array([0])][int(
        rng.integers(6))]
    if len(s) > 1 or rng.random() < .5:
        bad = (bad,) + (0,) * (len(s) - 1)
    good = (0,) * len(s)
    return [s], lambda ot, x: x[0][bad], lambda ot, x: x[0][good], str(bad)


@fam
def index_rank(rng):
    s = shape(rng)
    n = len(s) + (1 if rng.random() < .5 or len(s) == 1 else -1)
    key = (0,) * n
    good = (0,) * len(s)
    return [s], lambda ot, x: x[0][key], lambda ot, x: x[0][good], n


@fam
def condition_branches(rng):
    s = shape(rng)
    t = other_shape(rng, s)
    return ([(1,), s, t], lambda ot, x: ot.if_else(*x),
            lambda ot, x: ot.if_else(*x), t, [(1,), s, s])


RULE = RULE % len(FAM)
# mistakes that only the values of the inputs reveal
AT_RUN = {'divide_by_zero_value'}
MIN = {'family.' + n: 8 for n in FAM}
MIN.update({'rejected': 400, 'twins_accepted': 400})


def cases(tier, seed):
    n = C.sized(tier, 120, 1000)
    return [{'seed': c['seed'], 'family': f} for i, f in enumerate(FAM)
            for c in C.seeds(seed, n, tag=2200 + i)]


def attempt(rng, shapes, f, wrap, where, stage):
    import omtools.api as ot
    import openmdao.api as om

    class G(ot.Group):
        def setup(self):
            xs = []
            for i, s in enumerate(shapes):
                x = self.declare_input('x%d' % i, shape=tuple(s), val=.7)
                xs.append(ot.tanh(x) * 1.2 if wrap else x)
            self.register_output('y', f(ot, xs))
    with target(where):
        p = om.Problem()
        p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup()
        p.final_setup()
        stage.append('set up')
        p.run_model()
        return np.array(p.get_val('y'))


def run(case, rec):
    rng = gen.rng_of(case['seed'], 22)
    t = FAM[case['family']](rng)
    shapes, bad, good, what = t[:4]
    gshapes = t[4] if len(t) > 4 else shapes
    wrap = bool(rng.random() < .5)
    attempt(rng, gshapes, good, wrap, 'running the well-formed twin of %s %s'
            % (case['family'], what), [])
    rec.count('twins_accepted')
    try:
        stage = []
        y = attempt(rng, shapes, bad, wrap, 'ill-formed', stage)
    except TargetError as e:
        if not isinstance(e.exc, Exception):
            rec.fail('exits:' + case['family'], '%s %s on shapes %s ends the '
                     'process with %r instead of raising an exception' % (
                         case['family'], what, shapes, e.exc))
            return
        if stage and case['family'] not in AT_RUN:
            rec.fail('late:' + case['family'], 'ill-formed expression is '
                     'rejected only after the model is set up: %s %s on '
                     'shapes %s: %r' % (case['family'], what, shapes, e.exc))
            return
        rec.count('rejected')
        rec.count('family.' + case['family'])
        rec.sig((case['family'], shapes, what, wrap))
        rec.show({'family': case['family'], 'what': str(what),
                  'raised': '%s: %s' % (type(e.exc).__name__,
                                        str(e.exc)[:80])})
        return
    rec.fail('accepted:' + case['family'], 'ill-formed expression accepted: '
             '%s %s on shapes %s gives a value of shape %s' % (
                 case['family'], what, shapes, y.shape), value=str(y)[:200])
