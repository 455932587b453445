"""Ill-formed models are rejected, never given a meaning."""
import numpy as np

from omtv import gen
from omtv.core import TargetError, target
from omtv.props import common as C
from omtv.props.p22 import other_shape, shape

PID = 'P29'
RULE = ('one ill-formed model and its well-formed twin per case, from %s '
        'families of mistakes in registering, defining and assigning '
        'outputs, in naming and in adding subsystems, in a top-level model '
        'or inside a subsystem; the former must raise an exception before '
        'it yields a value, the latter must set up and run; distinct = '
        '(family, parameters)')
ASSUME = ['an exception raised while constructing, setting up or running '
          'the model counts as rejection']
FAM = {}


def fam(f):
    FAM[f.__name__] = f
    return f


# each family returns (description, write(ot, g, bad)); write builds the model
# in group g with output(s), with the mistake iff bad
def src(ot, g, s, n='x', wrap=False):
    x = g.declare_input(n, shape=tuple(s), val=.6)
    return ot.tanh(x) if wrap else x


@fam
def register_input(rng):
    s = shape(rng)

    def w(ot, g, bad):
        x = src(ot, g, s)
        g.register_output('y', x if bad else x * 1.)
    return s, w


@fam
def register_twice(rng):
    s = shape(rng)
    kind = int(rng.integers(4))

    def w(ot, g, bad):
        x = src(ot, g, s)
        e = [ot.tanh(x), x + x, x * 2., None][kind]
        if e is None:
            e = g.create_indep_var('d', shape=tuple(s), val=2.)
        else:
            g.register_output('y', e)
        g.register_output('z', e if bad else e * 1.)
    return (s, kind), w


@fam
def same_name(rng):
    s = shape(rng)
    kind = int(rng.integers(4))

    def w(ot, g, bad):
        x = src(ot, g, s)
        n = 'y' if bad else 'z'
        if kind == 0:
            g.register_output('y', x + 1.)
            g.register_output(n, ot.tanh(x))
        elif kind == 1:
            g.create_indep_var('y', shape=tuple(s), val=2.)
            g.register_output(n, ot.tanh(x))
        elif kind == 2:
            g.create_indep_var('y', shape=tuple(s), val=2.)
            g.create_indep_var(n, shape=tuple(s), val=3.)
        else:
            with g.create_group('s') as c:
                a = c.declare_input('x', shape=tuple(s), val=.6)
                c.register_output('y', ot.sin(a))
            g.register_output(n, ot.tanh(x))
    return (s, kind), w


@fam
def undefined_output(rng):
    s = shape(rng)
    used = bool(rng.random() < .5)

    def w(ot, g, bad):
        x = src(ot, g, s)
        y = g.create_output('y', shape=tuple(s))
        if not bad:
            y.define(x * .5)
        g.register_output('z', y + x if used else x * 2.)
    return (s, used), w


@fam
def define_twice(rng):
    s = shape(rng)

    def w(ot, g, bad):
        x = src(ot, g, s)
        y = g.create_output('y', shape=tuple(s))
        y.define(ot.tanh(x))
        if bad:
            y.define(ot.sin(x))
    return s, w


@fam
def define_self(rng):
    s = shape(rng)

    def w(ot, g, bad):
        x = src(ot, g, s)
        y = g.create_output('y', shape=tuple(s))
        y.define(y if bad else ot.tanh(x))
    return s, w


@fam
def define_and_assign(rng):
    n = int(rng.integers(1, 6))
    first = bool(rng.random() < .5)

    def w(ot, g, bad):
        x = src(ot, g, (n,))
        y = g.create_output('y', shape=(n,))
        e = ot.tanh(x)
        if first or not bad:
            y[0:n] = e
            if bad:
                y.define(ot.sin(x))
        else:
            y.define(ot.sin(x))
            y[0:n] = e
    return (n, first), w


@fam
def assign_overlap(rng):
    """Several parts, in any order, one of which takes an entry of another
    one that was assigned at any earlier time."""
    n = int(rng.integers(3, 10))
    m = int(rng.choice([0, 0, 1, 2, 3]))
    cuts = sorted(int(v) for v in rng.choice(range(1, n), min(n - 1, int(
        rng.integers(1, 6))), replace=False))
    stride = int(rng.integers(2, 4)) if rng.random() < .3 else 0
    if stride:
        parts = [(i, n, stride) for i in range(min(stride, n))]
    else:
        parts = [(a, b, 1) for a, b in zip([0] + cuts, cuts + [n])]
    order = [int(v) for v in rng.permutation(len(parts))]
    again = int(rng.integers(n))
    end = again + 1
    if rng.random() < .5:
        end = int(rng.integers(again + 1, n + 1))
    last = rng.random() < .7
    ints = [bool(rng.random() < .5) for _ in parts]

    def w(ot, g, bad):
        y = g.create_output('y', shape=(n, m) if m else (n,))
        todo = [parts[i] for i in order]
        extra = (again, end, 1)
        if bad:
            if last:
                todo.append(extra)
            else:
                todo.insert(0, extra)
        for k, (a, b, c) in enumerate(todo):
            d = len(range(a, b, c))
            key = slice(a, b, None if c == 1 else c)
            if d == 1 and ints[k % len(ints)]:
                key = a
            e = src(ot, g, (d, m) if m else (d,), 'a%d' % k, True)
            y[(key, slice(0, m)) if m else key] = e
    return (n, m, str(parts), str(order), again, end, last), w


@fam
def assign_reuse(rng):
    n = int(rng.integers(1, 5))

    def w(ot, g, bad):
        x = src(ot, g, (n,))
        e = ot.tanh(x)
        y = g.create_output('y', shape=(2 * n,))
        y[0:n] = e
        y[n:2 * n] = e if bad else e * 1.
    return n, w


@fam
def assign_range(rng):
    n = int(rng.integers(2, 7))
    kind = int(rng.integers(5))

    def w(ot, g, bad):
        e = src(ot, g, (1,), 'a', True)
        f = src(ot, g, (n,), 'b', True)
        if kind == 0:
            y = g.create_output('y', shape=(n,))
            y[n if bad else n - 1] = e
            y[0:n - 1] = src(ot, g, (n - 1,), 'c', True)
        elif kind == 1:
            y = g.create_output('y', shape=(n,))
            y[-1 if bad else n - 1] = e
            y[0:n - 1] = src(ot, g, (n - 1,), 'c', True)
        elif kind == 2:
            y = g.create_output('y', shape=(n,))
            y[slice(1, n + 1) if bad else slice(0, n)] = f
        elif kind == 3:
            y = g.create_output('y', shape=(n, 2))
            h = src(ot, g, (n, 1), 'd', True)
            y[0:n, 0:1] = h
            y[0:n, slice(2, 3) if bad else slice(1, 2)] = src(
                ot, g, (n, 1), 'c', True)
        else:
            y = g.create_output('y', shape=(n, 2))
            y[0:n, 0:2] = src(ot, g, (n, 2), 'd', True)
            if bad:
                y[n, 0] = src(ot, g, (1, 1), 'c', True)
    return (n, kind), w


@fam
def assign_shape(rng):
    n = int(rng.integers(2, 7))
    kind = int(rng.integers(3))

    def w(ot, g, bad):
        if kind == 0:
            y = g.create_output('y', shape=(n,))
            y[0:n] = src(ot, g, (n - 1 if bad else n,), 'a', True)
        elif kind == 1:
            y = g.create_output('y', shape=(n, 2))
            y[0:n, 0:2] = src(ot, g, (2 * n,) if bad else (n, 2), 'a', True)
        else:
            y = g.create_output('y', shape=(n,))
            y[0] = src(ot, g, (2,) if bad else (1,), 'a', True)
            y[1:n] = src(ot, g, (n - 1,), 'b', True)
    return (n, kind), w


@fam
def assign_key(rng):
    n = int(rng.integers(2, 7))
    key = [1.0, 'a', None, [0, 1], Ellipsis, np.arange(n)][
        int(rng.integers(6))]

    def w(ot, g, bad):
        y = g.create_output('y', shape=(n,))
        y[key if bad else slice(0, n)] = src(ot, g, (n,), 'a', True)
    return (n, str(key)), w


@fam
def assign_axes(rng):
    """Fewer or more indices than axes."""
    n, m = int(rng.integers(2, 5)), int(rng.integers(1, 5))
    kind = int(rng.integers(6))
    k = int(rng.integers(1, n))

    def w(ot, g, bad):
        y = g.create_output('y', shape=(n, m))
        if kind == 0:       # would be taken for entries in row-major order
            e = src(ot, g, (k,) if bad else (k, m), 'a', True)
            y[slice(0, k) if bad else (slice(0, k), slice(0, m))] = e
        elif kind == 1:
            e = src(ot, g, (1,) if bad else (1, 1), 'a', True)
            y[k if bad else (k, 0)] = e
        elif kind == 2:
            e = src(ot, g, (n,) if bad else (n, m), 'a', True)
            y[(slice(0, n),) if bad else (slice(0, n), slice(0, m))] = e
        elif kind == 3:
            e = src(ot, g, (1,) if bad else (1, 1), 'a', True)
            y[(k,) if bad else (k, 0)] = e
        elif kind == 4:
            e = src(ot, g, (1, 1, 1) if bad else (1, 1), 'a', True)
            y[(k, 0, 0) if bad else (k, 0)] = e
        else:
            e = src(ot, g, (n, m), 'a', True)
            y[slice(0, n) if bad else (slice(0, n), slice(0, m))] = e
    return (n, m, kind), w


@fam
def value_shape(rng):
    s = shape(rng, lambda t: tuple(t) != (1,))
    t = other_shape(rng, s)
    kind = int(rng.integers(3))

    def w(ot, g, bad):
        v = np.ones(t if bad else s)
        if kind == 0:
            x = g.declare_input('x', shape=tuple(s), val=v)
        elif kind == 1:
            x = g.create_indep_var('x', shape=tuple(s), val=v)
        else:
            x = g.create_output('x', shape=tuple(s), val=v)
            x.define(src(ot, g, s, 'a') * 2.)
        g.register_output('y', x * 2.)
    return (s, t, kind), w


@fam
def input_twice(rng):
    """Two inputs of one name and different shapes."""
    s = shape(rng)
    t = other_shape(rng, s, lambda t: np.prod(t) != np.prod(s))

    def w(ot, g, bad):
        x = g.declare_input('x', shape=tuple(s))
        z = g.declare_input('x', shape=tuple(t) if bad else tuple(s))
        g.register_output('y', ot.tanh(x))
        g.register_output('z', ot.sin(z))
    return (s, t), w


@fam
def connected_shapes(rng):
    """Input declared with another size than the output it is fed by."""
    s = shape(rng)
    t = other_shape(rng, s, lambda t: np.prod(t) != np.prod(s))

    def w(ot, g, bad):
        x = src(ot, g, s)
        g.register_output('u', ot.tanh(x))
        with g.create_group('s') as c:
            v = c.declare_input('u', shape=tuple(t) if bad else tuple(s))
            c.register_output('y', ot.sin(v))
    return (s, t), w


@fam
def subsystem_name(rng):
    s = shape(rng)

    def w(ot, g, bad):
        for k in range(2):
            with g.create_group('s' if bad else 's%d' % k) as c:
                x = c.declare_input('x', shape=tuple(s))
                c.register_output('y%d' % k, x * 2.)
    return s, w


@fam
def not_an_expression(rng):
    v = [3., None, 'x', np.ones(3), [1]][int(rng.integers(5))]
    kind = int(rng.integers(3))

    def w(ot, g, bad):
        x = src(ot, g, (3,), wrap=True)
        if kind == 0:
            g.register_output('y', v if bad else x)
        elif kind == 1:
            y = g.create_output('y', shape=(3,))
            y.define(v if bad else x)
        else:
            y = g.create_output('y', shape=(3,))
            y[0:3] = v if bad else x
    return (type(v).__name__, kind), w


@fam
def required_by_subsystem(rng):
    """A subsystem needs an output that is computed from what it computes."""
    s = shape(rng)
    key = tuple(slice(0, d) for d in s)

    def w(ot, g, bad):
        x = src(ot, g, s)
        y = g.create_output('y', shape=tuple(s))
        with g.create_group('s') as c:
            a = c.declare_input('y', shape=tuple(s))
            c.register_output('u', ot.sin(a))
        u = g.declare_input('u', shape=tuple(s))
        y[key] = u * .5 if bad else x * .5
        g.register_output('z', u + 1.)
    return s, w


def implicit(ot, g, f):
    class I(ot.ImplicitComponent):
        def setup(self):
            f(self.group)
    c = I()
    import openmdao.api as om
    c.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, iprint=-1)
    c.linear_solver = om.DirectSolver()
    g.add_subsystem('i', c, promotes=['*'])


@fam
def residual_self(rng):
    s = shape(rng, lambda t: np.prod(t) < 7)
    br = bool(rng.random() < .5)

    def w(ot, g, bad):
        def f(h):
            x = h.declare_input('x', shape=tuple(s), val=.5)
            y = h.create_implicit_output('y', shape=tuple(s))
            r = y if bad else y - x
            if br:
                y.define_residual_bracketed(r, x1=-3., x2=3.)
            else:
                y.define_residual(r)
        implicit(ot, g, f)
    return (s, br), w


@fam
def residual_twice(rng):
    s = shape(rng, lambda t: np.prod(t) < 7)
    br = [bool(rng.random() < .5) for _ in range(2)]

    def w(ot, g, bad):
        def f(h):
            x = h.declare_input('x', shape=tuple(s), val=.5)
            y = h.create_implicit_output('y', shape=tuple(s))
            for k in range(2 if bad else 1):
                r = y - x * (k + 1.)
                if br[k]:
                    y.define_residual_bracketed(r, x1=-3., x2=3.)
                else:
                    y.define_residual(r)
        implicit(ot, g, f)
    return (s, br), w


@fam
def residual_shape(rng):
    s = shape(rng, lambda t: 1 < np.prod(t) < 7)
    t = other_shape(rng, s, lambda t: np.prod(t) != np.prod(s))

    def w(ot, g, bad):
        def f(h):
            x = h.declare_input('x', shape=tuple(t if bad else s), val=.5)
            y = h.create_implicit_output('y', shape=tuple(s))
            if bad:
                y.define_residual(ot.expand(ot.sum(y), tuple(t)) - x
                                  if tuple(t) != (1,) else ot.sum(y) - x)
            else:
                y.define_residual(y - x)
        implicit(ot, g, f)
    return (s, t), w


@fam
def bracket_shape(rng):
    s = shape(rng, lambda t: np.prod(t) < 7)

    def fits(t):
        try:
            return np.broadcast_shapes(tuple(t), tuple(s)) == tuple(s)
        except ValueError:
            return False
    t = other_shape(rng, s, lambda t: not fits(t))
    which = int(rng.integers(3))
    wide = float(rng.integers(2, 6))

    def w(ot, g, bad):
        def f(h):
            x = h.declare_input('x', shape=tuple(s), val=.5)
            y = h.create_implicit_output('y', shape=tuple(s))
            u = np.full(tuple(t if bad else s), wide)
            y.define_residual_bracketed(
                y - x, x1=-u if which != 1 else -wide,
                x2=u if which != 0 else wide)
        implicit(ot, g, f)
    return (s, t, which), w


@fam
def define_shape(rng):
    s = shape(rng)
    t = other_shape(rng, s, lambda t: np.prod(t) != np.prod(s))

    def w(ot, g, bad):
        x = src(ot, g, t if bad else s)
        y = g.create_output('y', shape=tuple(s))
        y.define(ot.tanh(x))
        g.register_output('z', y + 1.)
    return (s, t), w


@fam
def bad_name(rng):
    s = shape(rng)
    n = str(rng.choice(['a b', 'a:b ', 'x.y', 'a,b', '!', '']))
    kind = int(rng.integers(2))

    def w(ot, g, bad):
        x = src(ot, g, s)
        m = n if bad else 'ok'
        if kind == 0:
            g.register_output(m, ot.tanh(x))
        else:
            g.create_indep_var(m, shape=tuple(s))
    return (n, kind), w


RULE = RULE % len(FAM)
MIN = {'family.' + n: 12 for n in FAM}
MIN.update({'rejected': 500, 'twins_accepted': 500})


def cases(tier, seed):
    n = C.sized(tier, 100, 800)
    return [{'seed': c['seed'], 'family': f} for i, f in enumerate(FAM)
            for c in C.seeds(seed, n, tag=2900 + i)]


def attempt(w, bad, nested, where, stage):
    import omtools.api as ot
    import openmdao.api as om

    class G(ot.Group):
        def setup(self):
            if nested == 1:
                with self.create_group('sub') as c:
                    w(ot, c, bad)
            else:
                w(ot, self, bad)
    with target(where):
        p = om.Problem()
        if nested == 2:
            p.model = G()
        else:
            p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup()
        p.final_setup()
        stage.append('set up')
        p.run_model()
    return p


def run(case, rec):
    rng = gen.rng_of(case['seed'], 29)
    what, w = FAM[case['family']](rng)
    nested = int(rng.integers(3))
    attempt(w, False, nested, 'running the well-formed twin of %s %s' % (
        case['family'], what), [])
    rec.count('twins_accepted')
    try:
        stage = []
        attempt(w, True, nested, 'ill-formed', stage)
    except TargetError as e:
        if not isinstance(e.exc, Exception):
            rec.fail('exits:' + case['family'], 'ends the process: %r' %
                     e.exc)
            return
        if stage:
            rec.fail('late:' + case['family'], 'ill-formed model is rejected '
                     'only after it is set up: %s %s: %r' % (
                         case['family'], what, e.exc))
            return
        rec.count('rejected')
        rec.count('family.' + case['family'])
        rec.sig((case['family'], str(what), nested))
        rec.show({'family': case['family'], 'what': str(what),
                  'raised': '%s: %s' % (type(e.exc).__name__,
                                        str(e.exc)[:80])})
        return
    rec.fail('accepted:' + case['family'], 'ill-formed model accepted: %s %s '
             '(%s)' % (case['family'], what, ['flat', 'in a subsystem',
                                              'as the model'][nested]))
