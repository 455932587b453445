"""Operation catalogue: for every public omtools operation, how to generate a
well-formed use of it, how to write it with the omtools API, and an
*independent* numpy reference.

References work on complex arrays carrying an infinitesimal imaginary part
(complex step), so one definition gives both the value and the derivative.
Nothing here reads omtools internals.
"""
import string

import numpy as np

ALPH = 'abcdefghijklmnopqrstuvwxyz'


def lift(f, df):
    """Extend a real function to complex-step arguments with its analytic
    derivative."""
    def g(x):
        x = np.asarray(x)
        if np.iscomplexobj(x):
            r = x.real
            return f(r) + 1j * (df(r) * x.imag)
        return f(x)
    return g


class Op:
    name = None
    group = None          # family used to select operations per property
    weight = 1.0

    def gen(self, rng, pool):
        """Return (arg ids, params) or None."""
        raise NotImplementedError

    def ot(self, ot, args, p):
        raise NotImplementedError

    def ref(self, args, p):
        raise NotImplementedError


REG = {}


def reg(op):
    REG[op.name] = op
    return op


# ------------------------------------------------------------------ helpers
class Pool:
    """Values available to the generator: id -> shape, list of real arrays
    (one per sample point)."""

    def __init__(self):
        self.items = []     # (id, shape, vals)
        self.srcs = set()
        self.indexed = []
        self.keys = []   # expressions of which a part was read
        self.hubs = []   # ids of expressions to use over and over

    def add(self, i, shape, vals):
        self.items.append((i, tuple(shape), vals))

    def pick(self, rng, pred=lambda s, v: True, recent=0.6):
        c = [it for it in self.items if pred(it[1], it[2])]
        if not c:
            return None
        if self.hubs and rng.random() < .5:
            h = [it for it in c if it[0] in self.hubs]
            if h:
                return h[rng.integers(len(h))]
        if rng.random() < recent:
            c = c[-4:]
        return c[rng.integers(len(c))]

    def get(self, i):
        for it in self.items:
            if it[0] == i:
                return it
        raise KeyError(i)


def amax(vals):
    return max(float(np.max(np.abs(v))) if v.size else 0. for v in vals)


def amin_abs(vals):
    return min(float(np.min(np.abs(v))) for v in vals)


def vmin(vals):
    return min(float(np.min(v)) for v in vals)


def vmax(vals):
    return max(float(np.max(v)) for v in vals)


def const(rng, lo=0.3, hi=2.5, neg=True):
    v = float(np.round(rng.uniform(lo, hi), 3))
    if neg and rng.random() < 0.4:
        v = -v
    return v


def carr(rng, shape, lo=0.3, hi=2.5, neg=True):
    v = np.round(rng.uniform(lo, hi, size=shape), 3)
    if neg:
        v = v * np.where(rng.random(size=shape) < 0.4, -1., 1.)
    return v


def enc(a):
    """JSON encoding of a constant operand (with its layout in memory)."""
    if isinstance(a, np.ndarray):
        e = {'nd': a.tolist(), 'dt': str(a.dtype), 'sh': list(a.shape)}
        if not a.flags.c_contiguous:
            e['lay'] = 'F' if a.flags.f_contiguous else 'strided'
        if not a.flags.writeable:
            e['ro'] = True
        return e
    if isinstance(a, np.generic):
        return {'np': a.item(), 'dt': str(a.dtype)}
    return a


def lay_out(rng, a):
    """The same array, laid out in memory in another way."""
    r = rng.random()
    if r < .12:
        a = np.asfortranarray(a)
    elif r < .2 and a.ndim:
        b = np.zeros(a.shape + (2, ), dtype=a.dtype)
        b[..., 0] = a
        a = b[..., 0]
    if rng.random() < .1:
        a.setflags(write=False)
    return a


def _array(p):
    a = np.array(p['nd'], dtype=p['dt']).reshape(p['sh'])
    if p.get('lay') == 'F':
        a = np.asfortranarray(a)
    elif p.get('lay'):
        b = np.zeros(a.shape + (2, ), dtype=a.dtype)
        b[..., 0] = a
        a = b[..., 0]
    if p.get('ro'):
        a.setflags(write=False)
    return a


ARRAYS = None           # id of constant -> the one array object given for it


def dec(p):
    if isinstance(p, dict) and 'nd' in p:
        if ARRAYS is not None:
            k = ('const', id(p))
            if k not in ARRAYS:
                ARRAYS[k] = _array(p)
            return ARRAYS[k]
        return _array(p)
    if isinstance(p, dict) and 'np' in p:
        return np.dtype(p['dt']).type(p['np'])
    return p


def val(p):
    """Plain numeric value of a constant operand for the reference."""
    d = dec(p)
    return np.asarray(d, dtype=float) if isinstance(
        d, (np.ndarray, np.generic)) else float(d)


def scalar_const(rng, **kw):
    """A constant in one of the numeric types users write."""
    v = const(rng, **kw)
    r = rng.random()
    if r < 0.45:
        return v
    if r < 0.65:
        i = int(round(v)) or 1
        return i
    if r < 0.8:
        return enc(np.float64(v))
    if r < 0.9:
        return enc(np.int64(int(round(v)) or 2))
    t = DTYPES[int(rng.integers(len(DTYPES)))]
    return enc(as_type(np.array(v), t)[()])


DTYPES = ['float32', 'float16', 'int32', 'int8', 'uint8', 'uint64', 'int64']


def as_type(v, t):
    """v in another numeric type: integers away from zero, unsigned ones
    positive."""
    if t.startswith('float'):
        return v.astype(t)
    i = np.where(np.round(v) == 0, 2, np.round(v))
    return (np.abs(i) if t[0] == 'u' else i).astype(t)


def bcast_shape(rng, shape):
    """A shape that NumPy broadcasts to the given one."""
    t = [1 if rng.random() < .4 else d for d in shape]
    return tuple(t[int(rng.integers(len(t) + 1)):]) if rng.random() < .5 \
        else tuple([1] * int(rng.integers(2)) + t)


# ---------------------------------------------------------------- operators
class Bin(Op):
    """variable (op) variable"""
    group = 'operator'

    def __init__(self, name, sym):
        self.name, self.sym = name, sym

    def gen(self, rng, pool):
        a = pool.pick(rng)
        if a is None:
            return None
        if rng.random() < 0.15:
            b = a
        else:
            b = pool.pick(rng, lambda s, v: s == a[1])
        if self.sym == '/' and amin_abs(b[2]) < 0.08:
            return None
        return [a[0], b[0]], {}

    def ot(self, ot, args, p):
        a, b = args
        return {'+': lambda: a + b, '-': lambda: a - b,
                '*': lambda: a * b, '/': lambda: a / b}[self.sym]()

    def ref(self, args, p):
        a, b = args
        return {'+': lambda: a + b, '-': lambda: a - b,
                '*': lambda: a * b, '/': lambda: a / b}[self.sym]()


for _n, _s in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
    reg(Bin(_n, _s)).weight = 2.0


class Const(Op):
    """variable (op) constant / constant (op) variable"""
    group = 'operator'
    weight = 1.5

    def __init__(self, name, sym, right):
        self.name, self.sym, self.right = name, sym, right

    def gen(self, rng, pool):
        a = pool.pick(rng)
        if a is None:
            return None
        if self.sym == '/' and not self.right and amin_abs(a[2]) < 0.08:
            return None
        zero = rng.random() < 0.06 and self.name != 'div_c'
        if self.right and rng.random() < 0.45:
            c = carr(rng, a[1] if rng.random() < .75 else
                     bcast_shape(rng, a[1]))
            if rng.random() < 0.35:
                c = as_type(c, DTYPES[int(rng.integers(len(DTYPES)))])
            if zero:
                c = np.where(rng.random(c.shape) < .5, c.dtype.type(0), c)
            c = enc(lay_out(rng, c))
        else:
            c = [0, 0., -0.][int(rng.integers(3))] if zero else \
                scalar_const(rng)
        return [a[0]], {'c': c}

    def _do(self, x, c):
        if self.right:
            return {'+': lambda: x + c, '-': lambda: x - c,
                    '*': lambda: x * c, '/': lambda: x / c}[self.sym]()
        return {'+': lambda: c + x, '-': lambda: c - x,
                '*': lambda: c * x, '/': lambda: c / x}[self.sym]()

    def ot(self, ot, args, p):
        return self._do(args[0], dec(p['c']))

    def ref(self, args, p):
        # (axes of length one may precede those of the expression)
        return self._do(args[0], val(p['c'])).reshape(args[0].shape)


for _n, _s in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
    reg(Const(_n + '_c', _s, True))
    reg(Const('c_' + _n, _s, False))


class Pow(Op):
    name = 'pow_c'
    group = 'operator'
    weight = 1.5

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: amax(v) < 8)
        if a is None:
            return None
        pos = vmin(a[2]) > 0.08
        nz = amin_abs(a[2]) > 0.15
        r = rng.random()
        if rng.random() < 0.3:       # array exponent
            if pos:
                p = np.round(rng.uniform(-2, 3, size=a[1]), 2)
            elif nz:
                p = rng.integers(-2, 4, size=a[1]).astype(
                    float if rng.random() < .5 else int)
            else:
                p = rng.integers(0, 4, size=a[1]).astype(float)
                if rng.random() < .4:
                    p = p.astype(DTYPES[int(rng.integers(len(DTYPES)))])
            return [a[0]], {'c': enc(lay_out(rng, p))}
        if pos and r < 0.5:
            p = float(np.round(rng.uniform(-2.5, 3), 2))
        elif nz and r < 0.7:
            p = int(rng.choice([-2, -1, 2, 3]))
        else:
            p = int(rng.choice([0, 1, 2, 2, 3, 4]))
            if r > 0.9:
                p = enc(np.dtype(DTYPES[int(rng.integers(len(DTYPES)))])
                        .type(p))
            elif r > 0.8:
                p = float(p)
        return [a[0]], {'c': p}

    def ot(self, ot, args, p):
        return args[0]**dec(p['c'])

    def ref(self, args, p):
        c = val(p['c'])
        return lift(lambda x: x**c,
                    lambda x: np.where(c == 0, 0., c * x**np.where(
                        c == 0, 1., c - 1.)))(args[0])


reg(Pow())


class Unary(Op):
    group = 'operator'

    def __init__(self, name, f):
        self.name, self.f = name, f

    def gen(self, rng, pool):
        a = pool.pick(rng)
        return None if a is None else ([a[0]], {})

    def ot(self, ot, args, p):
        return self.f(args[0])

    def ref(self, args, p):
        return self.f(args[0])


reg(Unary('neg', lambda x: -x))
reg(Unary('pos', lambda x: +x)).weight = 0.3


# ------------------------------------------------- elementwise std functions
class Fn(Op):
    group = 'elementwise'

    def __init__(self, name, f, df, ok):
        self.name, self.ok = name, ok
        self.r = lift(f, df)

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: all(self.ok(x) for x in v))
        return None if a is None else ([a[0]], {})

    def ot(self, ot, args, p):
        return getattr(ot, self.name)(args[0])

    def ref(self, args, p):
        return self.r(args[0])


def _within(lo, hi):
    return lambda x: bool(np.all((x > lo) & (x < hi)))


def _away(g, eps, lim=50.):
    return lambda x: bool(np.all(np.abs(g(x)) > eps) and
                          np.all(np.abs(x) < lim))


_big = _within(-50., 50.)
for _n, _f, _d, _ok in (
    ('sin', np.sin, np.cos, _big),
    ('cos', np.cos, lambda x: -np.sin(x), _big),
    ('tan', np.tan, lambda x: 1 / np.cos(x)**2, _away(np.cos, .25)),
    ('sec', lambda x: 1 / np.cos(x), lambda x: np.sin(x) / np.cos(x)**2,
     _away(np.cos, .25)),
    ('cosec', lambda x: 1 / np.sin(x), lambda x: -np.cos(x) / np.sin(x)**2,
     _away(np.sin, .25)),
    ('cotan', lambda x: np.cos(x) / np.sin(x), lambda x: -1 / np.sin(x)**2,
     _away(np.sin, .25)),
    ('arcsin', np.arcsin, lambda x: 1 / np.sqrt(1 - x * x),
     _within(-.95, .95)),
    ('arccos', np.arccos, lambda x: -1 / np.sqrt(1 - x * x),
     _within(-.95, .95)),
    ('arctan', np.arctan, lambda x: 1 / (1 + x * x), _big),
    ('sinh', np.sinh, np.cosh, _within(-4, 4)),
    ('cosh', np.cosh, np.sinh, _within(-4, 4)),
    ('tanh', np.tanh, lambda x: 1 / np.cosh(x)**2, _within(-20, 20)),
    ('sech', lambda x: 1 / np.cosh(x),
     lambda x: -np.sinh(x) / np.cosh(x)**2, _within(-20, 20)),
    ('cosech', lambda x: 1 / np.sinh(x),
     lambda x: -np.cosh(x) / np.sinh(x)**2, _away(np.sinh, .25, 20.)),
    ('cotanh', lambda x: np.cosh(x) / np.sinh(x),
     lambda x: -1 / np.sinh(x)**2, _away(np.sinh, .25, 20.)),
    ('exp', np.exp, np.exp, _within(-6, 4)),
    ('log', np.log, lambda x: 1 / x, _within(.08, 1e4)),
    ('log10', np.log10, lambda x: 1 / (x * np.log(10.)), _within(.08, 1e4)),
):
    reg(Fn(_n, _f, _d, _ok))


# ----------------------------------------------------------------- reductions
def pick_axes(rng, nd, neg=True, full=True):
    """A non-empty tuple of axes of an nd-dimensional array."""
    kmax = nd if full else nd - 1
    k = int(rng.integers(1, kmax + 1))
    axes = [int(i) for i in rng.choice(nd, size=k, replace=False)]
    if neg and rng.random() < 0.25:
        axes = [a - nd if rng.random() < 0.5 else a for a in axes]
    return axes


def same_shape(rng, pool, n, pred=lambda s, v: True, rep=0.12):
    a = pool.pick(rng, pred)
    if a is None:
        return None
    out = [a]
    for _ in range(n - 1):
        if rng.random() < rep:
            out.append(out[int(rng.integers(len(out)))])
        else:
            out.append(pool.pick(rng, lambda s, v: s == a[1] and pred(s, v),
                                 recent=0.3))
    return out


class SumLike(Op):
    group = 'reduction'

    def __init__(self, name, np_f):
        self.name, self.np_f = name, np_f

    def gen(self, rng, pool):
        n = int(rng.choice([1, 1, 2, 3, 4, 6]))
        if rng.random() < .06:
            n = int(rng.integers(7, 15))
        xs = same_shape(rng, pool, n)
        if xs is None:
            return None
        shape = xs[0][1]
        p = {'axes': None}
        if rng.random() < 0.6 and len(shape) >= 2:
            p['axes'] = pick_axes(rng, len(shape), full=False)
        return [x[0] for x in xs], p

    def ot(self, ot, args, p):
        f = getattr(ot, self.name)
        if p['axes'] is None:
            return f(*args)
        return f(*args, axes=tuple(p['axes']))

    def ref(self, args, p):
        if p['axes'] is None:
            if len(args) == 1:
                return self.np_f(args[0]).reshape((1,))
            r = sum(args[1:], args[0])
        else:
            ax = tuple(p['axes'])
            r = [self.np_f(a, axis=ax) for a in args]
            r = sum(r[1:], r[0])
        return r / len(args) if self.name == 'average' else r


reg(SumLike('sum', np.sum))
reg(SumLike('average', np.mean))


def ks(x, rho, axis=None, sign=1.):
    """Smooth maximum of sign*x, returned with the sign restored."""
    y = sign * x
    m = np.max(y.real, axis=axis, keepdims=True)
    r = m + np.log(np.sum(np.exp(rho * (y - m)), axis=axis,
                          keepdims=True)) / rho
    r = sign * r
    return np.squeeze(r, axis=axis) if axis is not None else r.reshape((1,))


class Extremum(Op):
    group = 'reduction'

    def __init__(self, name, sign):
        self.name, self.sign = name, sign

    def gen(self, rng, pool):
        r = rng.random()
        p = {'axis': None, 'rho': None}
        if rng.random() < 0.5:
            p['rho'] = float(rng.choice([2., 5., 10., 33.]))
            if rng.random() < .3:
                p['rho'] = int(p['rho'])
        if r < 0.4:
            n = int(rng.integers(2, 5))
            if rng.random() < .08:
                n = int(rng.integers(5, 15))
            xs = same_shape(rng, pool, n)
            return None if xs is None else ([x[0] for x in xs], p)
        a = pool.pick(rng, lambda s, v: r < 0.6 or len(s) >= 2)
        if a is None:
            return None
        if r >= 0.6:
            nd = len(a[1])
            ax = int(rng.integers(nd))
            p['axis'] = ax - nd if rng.random() < 0.25 else ax
        return [a[0]], p

    def ot(self, ot, args, p):
        kw = {}
        if p['axis'] is not None:
            kw['axis'] = p['axis']
        if p['rho'] is not None:
            kw['rho'] = p['rho']
        return getattr(ot, self.name)(*args, **kw)

    def ref(self, args, p):
        rho = 20. if p['rho'] is None else p['rho']
        if len(args) > 1:
            return ks(np.stack(args), rho, 0, self.sign)
        return ks(args[0], rho, p['axis'], self.sign)


reg(Extremum('max', 1.))
reg(Extremum('min', -1.))


class PNorm(Op):
    name = 'pnorm'
    group = 'reduction'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: amax(v) < 20)
        if a is None:
            return None
        p = {'p': int(rng.choice([2, 2, 4, 6])), 'axis': None}
        if rng.random() < .1 and amax(a[2]) < 5:
            p['p'] = int(rng.choice([8, 10, 12, 20]))
        if rng.random() < 0.6 and len(a[1]) >= 2:
            ax = pick_axes(rng, len(a[1]), full=False)
            p['axis'] = ax if len(ax) > 1 or rng.random() < .5 else ax[0]
        else:
            ax = range(len(a[1]))
        # stay away from the non-differentiable zero vector
        axt = tuple(ax) if not isinstance(ax, int) else (ax,)
        for v in a[2]:
            if np.min(np.sqrt(np.sum(v * v, axis=axt))) < 0.05:
                return None
        return [a[0]], p

    def ot(self, ot, args, p):
        kw = {}
        if p['axis'] is not None:
            kw['axis'] = tuple(p['axis']) if isinstance(
                p['axis'], list) else p['axis']
        if p['p'] != 2:
            kw['pnorm_type'] = p['p']
        return ot.pnorm(args[0], **kw)

    def ref(self, args, p):
        x = args[0]
        ax = p['axis']
        ax = None if ax is None else (tuple(ax) if isinstance(
            ax, list) else (ax,))
        s = x
        for _ in range(p['p'] - 1):
            s = s * x
        s = np.sum(s, axis=ax)
        r = lift(lambda y: y**(1. / p['p']),
                 lambda y: y**(1. / p['p'] - 1) / p['p'])(s)
        return r.reshape((1,)) if ax is None else r


reg(PNorm())


# ------------------------------------------------------------------- products
class Dot(Op):
    name = 'dot'
    group = 'product'

    def gen(self, rng, pool):
        if rng.random() < 0.5:
            xs = same_shape(rng, pool, 2, lambda s, v: len(s) == 1)
            return None if xs is None else ([x[0] for x in xs],
                                            {'axis': None})
        xs = same_shape(rng, pool, 2,
                        lambda s, v: len(s) >= 2 and 3 in s)
        if xs is None:
            return None
        s = xs[0][1]
        ax = int(rng.choice([i for i in range(len(s)) if s[i] == 3]))
        if rng.random() < 0.2:
            ax -= len(s)
        return [x[0] for x in xs], {'axis': ax}

    def ot(self, ot, args, p):
        if p['axis'] is None:
            return ot.dot(args[0], args[1])
        return ot.dot(args[0], args[1], axis=p['axis'])

    def ref(self, args, p):
        r = np.sum(args[0] * args[1], axis=p['axis'])
        return r.reshape((1,)) if p['axis'] is None else r


class Inner(Op):
    name = 'inner'
    group = 'product'

    def gen(self, rng, pool):
        if rng.random() < 0.35:
            xs = same_shape(rng, pool, 2, lambda s, v: len(s) == 1)
            return None if xs is None else ([x[0] for x in xs],
                                            {'axes': None})
        a = pool.pick(rng, lambda s, v: len(s) >= 2)
        if a is None:
            return None

        def fits(s, v):
            return any(x in a[1] for x in s) and len(s) >= 1
        b = pool.pick(rng, fits)
        if b is None:
            return None
        if rng.random() < 0.4:
            a, b = b, a
        k = int(rng.integers(1, 4))
        ax0, ax1 = [], []
        cand = [(i, j) for i in range(len(a[1])) for j in range(len(b[1]))
                if a[1][i] == b[1][j]]
        rng.shuffle(cand)
        for i, j in cand:
            if i not in ax0 and j not in ax1 and len(ax0) < k:
                ax0.append(int(i))
                ax1.append(int(j))
        if len(ax0) == len(a[1]) and len(ax1) == len(b[1]):
            ax0, ax1 = ax0[:-1], ax1[:-1]
            if not ax0:
                return None
        if rng.random() < 0.25:
            ax0 = [i - len(a[1]) if rng.random() < .5 else i for i in ax0]
            ax1 = [j - len(b[1]) if rng.random() < .5 else j for j in ax1]
        return [a[0], b[0]], {'axes': [ax0, ax1]}

    def ot(self, ot, args, p):
        if p['axes'] is None:
            return ot.inner(args[0], args[1])
        return ot.inner(args[0], args[1],
                        axes=(list(p['axes'][0]), list(p['axes'][1])))

    def ref(self, args, p):
        if p['axes'] is None:
            return np.sum(args[0] * args[1]).reshape((1,))
        return np.tensordot(args[0], args[1], axes=p['axes'])


class Outer(Op):
    name = 'outer'
    group = 'product'

    def gen(self, rng, pool):
        r = 2 if rng.random() < .7 else 5
        a = pool.pick(rng, lambda s, v: np.prod(s) <= 12 and len(s) <= r)
        if a is None:
            return None
        b = a if rng.random() < .12 else pool.pick(
            rng, lambda s, v: np.prod(s) * np.prod(a[1]) <= 40 and
            len(s) <= r)
        return None if b is None else ([a[0], b[0]], {})

    def ot(self, ot, args, p):
        return ot.outer(*args)

    def ref(self, args, p):
        return np.multiply.outer(args[0], args[1])


class Cross(Op):
    name = 'cross'
    group = 'product'

    def gen(self, rng, pool):
        xs = same_shape(rng, pool, 2, lambda s, v: 3 in s)
        if xs is None:
            return None
        s = xs[0][1]
        ax = int(rng.choice([i for i in range(len(s)) if s[i] == 3]))
        return [x[0] for x in xs], {'axis': ax}

    def ot(self, ot, args, p):
        return ot.cross(args[0], args[1], axis=p['axis'])

    def ref(self, args, p):
        a = np.moveaxis(args[0], p['axis'], 0)
        b = np.moveaxis(args[1], p['axis'], 0)
        r = np.stack([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                      a[0] * b[1] - a[1] * b[0]])
        return np.moveaxis(r, 0, p['axis'])


class MatVec(Op):
    name = 'matvec'
    group = 'product'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: len(s) == 2)
        if a is None:
            return None
        b = pool.pick(rng, lambda s, v: s == (a[1][1],))
        return None if b is None else ([a[0], b[0]], {})

    def ot(self, ot, args, p):
        return ot.matvec(*args)

    def ref(self, args, p):
        return np.sum(args[0] * args[1][None, :], axis=1)


class MatMat(Op):
    name = 'matmat'
    group = 'product'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: len(s) == 2)
        if a is None:
            return None
        b = pool.pick(rng, lambda s, v: len(s) in (1, 2) and
                      s[0] == a[1][1])
        return None if b is None else ([a[0], b[0]], {})

    def ot(self, ot, args, p):
        return ot.matmat(*args)

    def ref(self, args, p):
        a, b = args
        if b.ndim == 1:
            return np.einsum('ij,j->i', a, b)
        return np.einsum('ij,jk->ik', a, b)


class RotMat(Op):
    name = 'rotmat'
    group = 'product'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: np.prod(s) <= 4 and len(s) <= 2 and
                      amax(v) < 500)
        if a is None:
            return None
        return [a[0]], {'axis': str(rng.choice(list('xyz')))}

    def ot(self, ot, args, p):
        return ot.rotmat(args[0], p['axis'])

    def ref(self, args, p):
        t = args[0]
        c = lift(np.cos, lambda x: -np.sin(x))(t)
        s = lift(np.sin, np.cos)(t)
        R = np.zeros(t.shape + (3, 3), dtype=c.dtype)
        i = {'x': 0, 'y': 1, 'z': 2}[p['axis']]
        j, k = (i + 1) % 3, (i + 2) % 3
        R[..., i, i] = 1
        R[..., j, j] = c
        R[..., k, k] = c
        R[..., j, k] = -s
        R[..., k, j] = s
        return R.reshape((3, 3)) if t.shape == (1,) else R


for _c in (Dot, Inner, Outer, Cross, MatVec, MatMat, RotMat):
    reg(_c())


# ------------------------------------------------------------------ reshaping
def factorizations(n, rng, maxd=4):
    if n == 1:
        return [(1,), (1, 1)]
    out = []
    for _ in range(6):
        m, s = n, []
        while m > 1 and len(s) < maxd - 1:
            d = [k for k in range(1, m + 1) if m % k == 0]
            k = int(rng.choice(d))
            s.append(k)
            m //= k
        s.append(m)
        out.append(tuple(s))
    return out


class Reshape(Op):
    name = 'reshape'
    group = 'shape'

    def gen(self, rng, pool):
        a = pool.pick(rng)
        if a is None:
            return None
        f = factorizations(int(np.prod(a[1])), rng)
        return [a[0]], {'shape': [int(x) for x in f[rng.integers(len(f))]]}

    def ot(self, ot, args, p):
        return ot.reshape(args[0], tuple(p['shape']))

    def ref(self, args, p):
        return args[0].reshape(tuple(p['shape']))


class Transpose(Op):
    name = 'transpose'
    group = 'shape'

    def gen(self, rng, pool):
        a = pool.pick(rng)
        return None if a is None else ([a[0]], {})

    def ot(self, ot, args, p):
        return ot.transpose(args[0])

    def ref(self, args, p):
        return args[0].transpose()


class Reorder(Op):
    name = 'reorder_axes'
    group = 'shape'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: len(s) >= 2)
        if a is None:
            return None
        nd = len(a[1])
        letters = list(rng.choice(list(ALPH), size=nd, replace=False))
        perm = rng.permutation(nd)
        return [a[0]], {'op': ''.join(letters) + '->' +
                        ''.join(letters[i] for i in perm)}

    def ot(self, ot, args, p):
        return ot.reorder_axes(args[0], p['op'])

    def ref(self, args, p):
        i, o = p['op'].split('->')
        return np.transpose(args[0], [i.index(c) for c in o])


class Expand(Op):
    name = 'expand'
    group = 'shape'

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: np.prod(s) <= 9 and len(s) <= 3)
        if a is None:
            return None
        s = a[1]
        if s == (1,):
            nd = int(rng.integers(1, 4))
            return [a[0]], {'shape': [int(x) for x in
                                      rng.integers(1, 4, size=nd)],
                            'ind': None}
        nd = len(s)
        extra = int(rng.integers(1, 3))
        letters = list(rng.choice(list(ALPH), size=nd + extra,
                                  replace=False))
        inl = letters[:nd]
        pos = sorted(rng.choice(nd + extra, size=nd, replace=False))
        out, shape, k, e = [], [], 0, nd
        for i in range(nd + extra):
            if i in pos:
                out.append(inl[k])
                shape.append(int(s[k]))
                k += 1
            else:
                out.append(letters[e])
                shape.append(int(rng.integers(1, 4)))
                e += 1
        return [a[0]], {'shape': shape,
                        'ind': ''.join(inl) + '->' + ''.join(out)}

    def ot(self, ot, args, p):
        if p['ind'] is None:
            return ot.expand(args[0], tuple(p['shape']))
        return ot.expand(args[0], tuple(p['shape']), p['ind'])

    def ref(self, args, p):
        x = args[0]
        if p['ind'] is None:
            return x * np.ones(tuple(p['shape']))
        i, o = p['ind'].split('->')
        idx = tuple(slice(None) if c in i else None for c in o)
        return x[idx] * np.ones(tuple(p['shape']))


for _c in (Reshape, Transpose, Reorder, Expand):
    reg(_c())


# --------------------------------------------------------------------- einsum
class Einsum(Op):
    name = 'einsum'
    group = 'einsum'

    def gen(self, rng, pool):
        n = int(rng.choice([1, 2, 2, 3, 4]))
        rank, many = 3, rng.random() < .08
        if many:
            n, rank = int(rng.integers(3, 10)), 5
        xs = []
        for _ in range(n):
            if xs and rng.random() < .15:
                xs.append(xs[-1])
                continue
            x = pool.pick(rng, lambda s, v: np.prod(s) <= (
                6 if many else 12) and len(s) <= rank)
            if x is None:
                return None
            xs.append(x)
        letters = list(rng.permutation(list(
            ALPH[:12] if rng.random() < .7 else ALPH[:7] + 'ABCIJKL')))
        if many:        # over the whole alphabet
            letters = list(rng.permutation(list(string.ascii_letters)))
        size, subs = {}, []
        # axes of length 1 broadcast; letters repeated in one operand
        bc, diag = rng.random() < .3, rng.random() < .2
        for x in xs:
            t, own = '', {}
            for d in x[1]:
                c = [l for l in size if (
                    own[l] == d and diag if l in t else
                    size[l] == d or bc and 1 in (d, size[l]))]
                if c and (rng.random() < 0.55 or not letters or
                          np.prod(list(size.values())) * d > 3000):
                    l = c[int(rng.integers(len(c)))]
                    size[l] = max(size[l], d)
                else:
                    l = str(letters.pop())
                    size[l] = d
                t += l
                own[l] = d
            subs.append(t)
        if np.prod(list(size.values())) > 20000:
            return None
        used = sorted(size)
        out = [l for l in used if rng.random() < 0.5]
        rng.shuffle(out)
        out = out[:7]
        while out and np.prod([size[l] for l in out]) > 36:
            out.pop()
        sub = ','.join(subs) + '->' + ''.join(out)
        if rng.random() < .15:      # spaces are allowed
            sub = sub.replace(',', ', ').replace('->', ' -> ' if out else
                                                 ' ->')
        return [x[0] for x in xs], {
            'sub': sub, 'fmt': str(rng.choice(['dense', 'sparse'])),
            'api': str(rng.choice(['old', 'new']))}

    def ot(self, ot, args, p):
        kw = {}
        if p['fmt'] != 'dense':
            kw['partial_format'] = p['fmt']
        if p['api'] == 'old':
            return ot.einsum(*args, subscripts=p['sub'], **kw)
        ins, out = p['sub'].replace(' ', '').split('->')
        num = {}
        op = []
        for t in ins.split(','):
            op.append(tuple(num.setdefault(c, len(num)) for c in t))
        if out:
            op.append(tuple(num[c] for c in out))
        return ot.einsum_new_api(*args, operation=op, **kw)

    def ref(self, args, p):
        r = np.einsum(p['sub'], *args)
        return r.reshape((1,)) if p['sub'].endswith('->') else r


reg(Einsum())


# ------------------------------------------------------------------- indexing
def rand_key(rng, shape, steps=True):
    """A non-empty tuple key of slices/ints over the whole shape, plus a
    spelling ('tuple', or 'bare' when 1-D)."""
    key = []
    for d in shape:
        r = rng.random()
        if r < 0.25:
            key.append(int(rng.integers(d)))
        elif r < 0.4:
            key.append([None, None, None])
        else:
            a = int(rng.integers(d))
            b = int(rng.integers(a + 1, d + 1))
            st = None
            if steps and rng.random() < 0.3 and b - a > 1:
                st = int(rng.integers(1, b - a + 1))
            if rng.random() < .2 and a == 0:
                a = None
            if rng.random() < .2 and b == d:
                b = None
            if steps and rng.random() < .08 and d > 1:      # backwards
                a = int(rng.integers(1, d))
                b = int(rng.integers(0, a))
                st = -int(rng.integers(1, a - b + 1))
            key.append([a, b, st])
    return key


def near_key(rng, shape, key):
    """A key that resembles another one: parts of axes of equal length
    exchanged, or one part shifted, or with another step, bound or spelling."""
    key = [list(x) if isinstance(x, list) else x for x in key]
    same = [(i, j) for i in range(len(key)) for j in range(i)
            if shape[i] == shape[j] and key[i] != key[j]]
    if same and rng.random() < .5:
        i, j = same[int(rng.integers(len(same)))]
        key[i], key[j] = key[j], key[i]
        return key
    i = int(rng.integers(len(key)))
    d = shape[i]
    r = range(d)[slice(*key[i])] if isinstance(key[i], list) else \
        range(key[i], key[i] + 1)
    r = r[::-1] if r.step < 0 else r
    w = rng.random()
    if w < .3:                          # shifted
        a = int(rng.integers(-r[0], d - r[-1]))
        key[i] = [r[0] + a, r[-1] + 1 + a, r.step if len(r) > 1 else None]
    elif w < .5:                        # every entry between the same ends
        key[i] = [r[0], r[-1] + 1, None]
    elif w < .7 and r[-1] - r[0] > 1:   # other step
        key[i] = [r[0], r[-1] + 1, int(rng.integers(1, r[-1] - r[0] + 1))]
    elif w < .85:                       # the same entries spelled otherwise
        key[i] = [r[0], min(d, r[-1] + r.step), r.step] if len(r) > 1 else \
            [r[0], r[0] + 1, [None, 1, 2][int(rng.integers(3))]]
    elif r[0] + len(r) <= d:            # as many from the same start
        key[i] = [r[0], r[0] + len(r), None]
    return key


def to_key(k, bare):
    t = tuple(slice(*x) if isinstance(x, list) else x for x in k)
    return t[0] if bare else t


def np_key(k):
    """numpy key keeping every axis (an int keeps a length-one axis, which is
    the documented omtools shape rule)."""
    return tuple(slice(*x) if isinstance(x, list) else slice(x, x + 1)
                 for x in k)


class GetItem(Op):
    name = 'getitem'
    group = 'index'
    weight = 3.0

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: np.prod(s) >= 2)
        if a is None:
            return None
        if pool.indexed and rng.random() < .5:
            a = pool.get(pool.indexed[int(rng.integers(len(pool.indexed)))])
        pool.indexed.append(a[0])
        k = rand_key(rng, a[1])
        old = [q for i, q in pool.keys if i == a[0]]
        if old and rng.random() < .5:
            k = near_key(rng, a[1], old[int(rng.integers(len(old)))])
        pool.keys.append((a[0], k))
        return [a[0]], {'key': k,
                        'bare': bool(len(a[1]) == 1 and rng.random() < .6)}

    def ot(self, ot, args, p):
        return args[0][to_key(p['key'], p['bare'])]

    def ref(self, args, p):
        return args[0][np_key(p['key'])]


reg(GetItem())


class Assign(Op):
    """Index-based assignment of expressions to a created output.  p['keys']
    holds one key per argument, in order of assignment."""
    name = 'assign'
    group = 'assign'
    weight = 1.0

    def gen(self, rng, pool):
        a = pool.pick(rng, lambda s, v: np.prod(s) <= 12)
        if a is None:
            return None
        sh = a[1]
        if len(sh) >= 2 and rng.random() < .4:
            g = self.grid(rng, pool, a)
            if g is not None:
                return g
        ax = int(rng.integers(len(sh)))
        rest = sh[:ax] + sh[ax + 1:]
        xs, ids = [a], {a[0]}
        for _ in range(int(rng.integers(0, 3))):
            b = pool.pick(rng, lambda s, v: len(s) == len(sh) and
                          s[:ax] + s[ax + 1:] == rest, recent=.2)
            if b[0] not in ids:
                ids.add(b[0])
                xs.append(b)
        n = [x[1][ax] for x in xs]
        tot = sum(n)
        shape = sh[:ax] + (tot,) + sh[ax + 1:]
        if np.prod(shape) > 36:
            return None
        keys = []
        stride = len(xs) > 1 and len(set(n)) == 1 and rng.random() < .4
        pos = 0
        for i, k in enumerate(n):
            if stride:
                sl = [i, [tot, i + len(xs) * (k - 1) + 1, None][
                    int(rng.integers(3))], len(xs)]
                if i == 0 and rng.random() < .4:
                    sl[0] = None
            else:
                sl = [pos, pos + k, None if rng.random() < .7 else 1]
                if pos == 0 and rng.random() < .3:
                    sl[0] = None
                if pos + k == tot and rng.random() < .3:
                    sl[1] = None
                if pos + k < tot and rng.random() < .3:
                    sl[1] = pos + k - tot
                if k == 1 and rng.random() < .5:
                    sl = pos
                elif pos > 0 and rng.random() < .1:         # backwards
                    sl = [pos + k - 1, pos - 1, -1]
            pos += k
            key = [sl if j == ax else
                   ([None, None, None] if rng.random() < .5 else [0, d, None])
                   for j, d in enumerate(shape)]
            keys.append({'key': key, 'bare': bool(
                len(shape) == 1 and rng.random() < .6)})
        order = [int(i) for i in rng.permutation(len(xs))]
        return [xs[i][0] for i in order], {
            'shape': [int(d) for d in shape], 'keys': [keys[i]
                                                      for i in order]}

    def grid(self, rng, pool, a):
        """Blocks of equal shapes, along two axes, interleaved or not."""
        sh = a[1]
        ids = sorted({i for i, t, v in pool.items if t == sh})
        r, c = ((2, 2), (1, 2), (2, 1), (3, 1), (2, 3))[int(rng.integers(5))]
        if len(ids) < r * c or np.prod(sh) * r * c > 64:
            return None
        ids = [int(i) for i in rng.choice(ids, r * c, replace=False)]
        a0, a1 = (int(i) for i in rng.choice(len(sh), 2, replace=False))
        n = {a0: r, a1: c}
        inter = {a0: rng.random() < .4, a1: rng.random() < .4}
        keys = []
        for q in range(r * c):
            key = []
            for j, d in enumerate(sh):
                if j not in n:
                    key.append([None, None, None])
                    continue
                k = q // c if j == a0 else q % c
                if inter[j]:
                    key.append([k, n[j] * d, n[j]])
                elif d == 1 and rng.random() < .5:
                    key.append(k)
                else:
                    key.append([k * d, (k + 1) * d if rng.random() < .7 or
                                k == n[j] - 1 else (k + 1 - n[j]) * d, None])
            keys.append({'key': key, 'bare': False})
        return ids, {'shape': [d * n.get(j, 1) for j, d in enumerate(sh)],
                     'keys': keys}

    def ref(self, args, p):
        t = complex if any(np.iscomplexobj(a) for a in args) else float
        out = np.full(tuple(p['shape']), np.nan, dtype=t)
        for a, k in zip(args, p['keys']):
            out[np_key(k['key'])] = a
        return out


reg(Assign())


class IfElse(Op):
    name = 'if_else'
    group = 'cond'
    weight = 0.6

    def gen(self, rng, pool):
        c = pool.pick(rng, lambda s, v: s == (1,) or
                      np.prod(s) == 1 and rng.random() < .4, recent=.2)
        # away from the switch, or exactly on it (counts as true)
        if c is None or any(
                not (abs(float(v.flat[0])) > .05 or
                     (v.flat[0] == 0 and c[0] in pool.srcs))
                for v in c[2]):
            return None
        xs = same_shape(rng, pool, 2)
        if xs is None:
            return None
        return [c[0], xs[0][0], xs[1][0]], {}

    def ot(self, ot, args, p):
        return ot.if_else(*args)

    def ref(self, args, p):
        c, t, f = args
        return (f if c.real.flat[0] < 0 else t) + 0. * c.flat[0]


reg(IfElse())
