"""The work of setting a model up is bounded by its size."""
import numpy as np

from omtv import gen, oracle, perturb
from omtv.core import STEPS, StepBudget, target
from omtv.props import common as C

PID = 'P24'
RULE = ('one family of models per case (chains, repeated diamonds, '
        'Fibonacci recurrences, fans, wide sums, dense dependencies, '
        'sequences and nests of subsystems, many indexed reads and writes, '
        'many independent variables, residuals and cyclic definitions with '
        'repeated diamonds), at size n and 2n; jumps and calls executed by '
        'the package during setup are counted online and must not grow '
        'faster than the fourth power of the size; small members are also '
        'run and compared with a closed-form evaluation; distinct = (family, '
        'size, node order)')
ASSUME = ['work is counted in jumps and calls of package code, so the '
          'verdict does not depend on the speed of the machine']
STEP_LIMIT = 20000000
FAM = {}


def fam(lo, hi):
    """Sizes of the smaller member."""
    def f(g):
        FAM[g.__name__] = (g, lo, hi)
        return g
    return f


# each family: setup(ot, self, n) -> reference value of output 'y' for x = X
X = np.array([.3, .7, .5])


@fam(40, 120)
def chain(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    v = X
    for k in range(n):
        x, v = (ot.sin(x), np.sin(v)) if k % 2 else (x * 2. + .1,
                                                     v * 2. + .1)
    g.register_output('y', x)
    return v


@fam(14, 40)
def diamonds(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    v = X
    for k in range(n):
        x, v = ot.sin(x) * ot.cos(x), np.sin(v) * np.cos(v)
    g.register_output('y', x)
    return v


@fam(20, 60)
def fibonacci(ot, g, n):
    a = g.declare_input('x', shape=(3,), val=X)
    b = a * .5
    u, v = X, X * .5
    for k in range(n):
        a, b = b, ot.tanh(a + b)
        u, v = v, np.tanh(u + v)
    g.register_output('y', b)
    return v


@fam(14, 40)
def same_twice(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    v = X
    for k in range(n):
        x, v = ot.tanh(x + x), np.tanh(v + v)
    g.register_output('y', x)
    return v


@fam(20, 60)
def fan(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    s = ot.tanh(x)
    for k in range(n):
        g.register_output('z%d' % k, s * float(k + 1))
    g.register_output('y', s * 2.)
    return np.tanh(X) * 2


@fam(15, 50)
def wide_sum(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    t = [ot.sin(x * float(k + 1)) for k in range(n)]
    g.register_output('y', ot.sum(*t))
    return sum(np.sin(X * (k + 1.)) for k in range(n))


@fam(8, 22)
def dense(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    t, u = [x, x * .5], [X, X * .5]
    for k in range(n):
        t.append(ot.tanh(ot.sum(*t)))
        u.append(np.tanh(sum(u)))
    g.register_output('y', t[-1])
    return u[-1]


@fam(15, 50)
def independent(ot, g, n):
    v, x = 0., None
    for k in range(n):
        d = g.create_indep_var('d%d' % k, shape=(3,), val=X + k)
        x = d if x is None else x + d
        v = v + X + k
    g.register_output('y', ot.tanh(x))
    return np.tanh(v)


@fam(12, 40)
def reads_and_writes(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    z = ot.expand(ot.sum(x), (n,))
    y = g.create_output('y', shape=(n,))
    for k in range(n):
        y[k] = z[k] * float(k)
    return X.sum() * np.arange(n)


@fam(5, 16)
def subsystems(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    g.register_output('t0', x * 1.5)
    v = X * 1.5
    for k in range(n):
        with g.create_group('g%d' % k) as c:
            a = c.declare_input('t%d' % k, shape=(3,))
            c.register_output('t%d' % (k + 1), ot.sin(a) * ot.cos(a))
        v = np.sin(v) * np.cos(v)
    a = g.declare_input('t%d' % n, shape=(3,))
    g.register_output('y', a + 1.)
    return v + 1


@fam(4, 12)
def nested(ot, g, n):
    def down(h, k):
        x = h.declare_input('x', shape=(3,), val=X)
        if k == 0:
            return h.register_output('u0', ot.tanh(x)), np.tanh(X)
        with h.create_group('n%d' % k) as c:
            v = down(c, k - 1)[1]
        u = h.declare_input('u%d' % (k - 1), shape=(3,))
        return h.register_output('u%d' % k, ot.tanh(u + x)), np.tanh(v + X)
    u, v = down(g, n)
    g.register_output('y', u * 3.)
    return v * 3


@fam(8, 20)
def cyclic(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    y = g.create_output('y', shape=(3,))
    t = y
    for k in range(n):
        t = ot.sin(t) * ot.cos(t)
    y.define(t * .1 + x)
    return None


@fam(8, 20)
def residual(ot, g, n):
    class I(ot.ImplicitComponent):
        def setup(self):
            h = self.group
            x = h.declare_input('x', shape=(3,), val=X)
            s = h.create_implicit_output('y', shape=(3,))
            t = s
            for k in range(n):
                t = ot.sin(t) * ot.cos(t)
            s.define_residual(s - x - t * .1)
    g.declare_input('x', shape=(3,), val=X)
    g.add_subsystem('i', I(), promotes=['*'])
    return None


@fam(8, 20)
def bracketed(ot, g, n):
    class I(ot.ImplicitComponent):
        def setup(self):
            h = self.group
            x = h.declare_input('x', shape=(3,), val=X)
            s = h.create_implicit_output('y', shape=(3,))
            t = s
            for k in range(n):
                t = ot.sin(t) * ot.cos(t)
            s.define_residual_bracketed(s - x - t * .1, x1=-9., x2=9.)
    g.declare_input('x', shape=(3,), val=X)
    g.add_subsystem('i', I(), promotes=['*'])
    return None


@fam(15, 40)
def dead(ot, g, n):
    x = g.declare_input('x', shape=(3,), val=X)
    t = x
    for k in range(n):
        t = ot.sin(t) * ot.cos(t)
    g.register_output('y', ot.exp(x))
    return np.exp(X)


MIN = {'family.' + n: 4 for n in FAM}
MIN.update({'pairs': 80, 'values_checked': 60, 'deep': 1})


def cases(tier, seed):
    n = C.sized(tier, 6, 40)
    out = [{'seed': c['seed'], 'family': f} for i, f in enumerate(FAM)
           for c in C.seeds(seed, n, tag=2400 + i)]
    # depth beyond the interpreter's recursion limit
    deep = [('chain', 1300), ('diamonds', 420), ('fibonacci', 600)]
    if tier == 'thorough':
        deep += [('chain', 4000), ('diamonds', 1300), ('fibonacci', 2000),
                 ('cyclic', 420), ('residual', 420), ('nested', 40),
                 ('independent', 300), ('wide_sum', 300), ('fan', 400)]
    return [{'seed': int(seed) * 31 + i, 'family': f, 'n': n}
            for i, (f, n) in enumerate(deep)] + out


def measure(f, n, seed, rec, run):
    import omtools.api as ot
    import openmdao.api as om
    ref = {}

    class G(ot.Group):
        def setup(self):
            ref['y'] = f(ot, self, n)
    with perturb.node_order(gen.rng_of(seed, n)):
        p = om.Problem()
        start = STEPS.n
        with target('setup of %s(%d)' % (f.__name__, n)):
            p.model.add_subsystem('m', G(), promotes=['*'])
            p.setup()
        work = STEPS.n - start
        if run:
            oracle.run_model(p)
            if ref['y'] is not None:
                d = oracle.mismatch(np.array(p.get_val('y')), ref['y'], 1e-9)
                rec.count('values_checked')
                if d:
                    rec.fail('value:' + f.__name__, '%s of size %d: %s' % (
                        f.__name__, n, d))
    return work


def run(case, rec):
    rng = gen.rng_of(case['seed'], 24)
    f, lo, hi = FAM[case['family']]
    if 'n' in case:
        n = case['n']
        w = measure(f, n, case['seed'], rec, False)
        rec.count('deep')
        sizes = [(n, w)]
        lo, wlo = 10, measure(f, 10, case['seed'], rec, False)
        sizes.insert(0, (lo, wlo))
    else:
        n = int(rng.integers(lo, hi + 1))
        sizes = [(m, measure(f, m, case['seed'], rec,
                             m == n or rng.random() < .3))
                 for m in (n, 2 * n)]
        rec.count('pairs')
        rec.count('family.' + case['family'])
    (n, a), (m, b) = sizes
    if b > (m / n)**4 * a:
        rec.fail('work:' + case['family'], 'setting up %s of size %d takes '
                 '%d steps, of size %d %d steps' % (case['family'], n, a, m,
                                                    b))
    rec.sig((case['family'], n, case['seed']))
    rec.show({'family': case['family'], 'sizes': [n, m], 'steps': [a, b]})
    rec.extra['steps'] = [n, a, m, b]
    if TRACE:
        print(case['family'], n, a, m, b, np.log(b / a) / np.log(m / n))


TRACE = False
