"""A rejected or failed step leaves no trace."""
import contextlib

import numpy as np

from omtv import build, gen, implicit, monitor, nest, oracle
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C
from omtv.props.p10 import census

PID = 'P33'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case (flat, kept by a parent, a tree of '
        'subsystems, or an implicit component) and faults of three kinds: '
        'an exception raised at a random point of its setup (between any two '
        'calls of the user, while components are added or set up), up to '
        'three times; rejected statements, caught by the user, between its '
        'statements; an exception in a random component during a run or '
        'while derivatives are computed (in the internal problem of an '
        'implicit component, too); the exception reaches the caller as it '
        'is, and the next attempt without fault has the components, values '
        'and derivatives of the model; distinct = (program signature, kind '
        'of model, faults)')
ASSUME = C.POINT_ASSUME
MIN = {'setup_faults': 250, 'rejected': 800, 'run_faults': 150,
       'linearize_faults': 80, 'internal_faults': 40, 'bracket_faults': 30, 'block_faults': 20, 'recovered': 500,
       'implicit_setup_faults': 60,  'jacobian_blocks': 400,
       **{'point.' + k: 10 for k in (
           'declare_input', 'create_indep_var', 'expression', 'assignment',
           'register_output', 'add_subsystem', 'component', 'setup')},
       **{'attempt.' + k: 20 for k in (
           'constant', 'index', 'assign', 'reshape', 'axis', 'product',
           'register_input', 'twice', 'define', 'argument', 'key')}}


class Injected(Exception):
    pass


def cases(tier, seed):
    out = []
    for i, (k, q, t) in enumerate([
            ('setup', 220, 2500), ('caught', 220, 2500), ('run', 160, 1800),
            ('implicit_setup', 70, 700), ('implicit_run', 80, 900),
            ('bracket', 40, 400), ('block', 30, 200)]):
        out += [dict(c, kind=k) for c in C.seeds(
            seed, C.sized(tier, q, t), tag=330 + i)]
    return out


@contextlib.contextmanager
def points():
    """Counts the points of a setup at which an exception can be raised and
    raises one at the chosen point."""
    import omtools.api as ot
    from openmdao.core.group import Group
    from openmdao.core.component import Component
    st = {'n': 0, 'seen': [], 'at': None, 'exc': None, 'where': None, 'off': 0}
    undo = []

    def tick(where):
        if st['off']:
            return
        st['n'] += 1
        st['seen'].append(where)
        if st['at'] == st['n']:
            st['where'] = where
            st['exc'] = Injected(where)
            raise st['exc']

    def wrap(cls, name, where):
        f = getattr(cls, name)

        def w(*a, **k):
            tick(where)
            st['off'] += 1      # calls of the package itself are no points
            try:
                r = f(*a, **k)
            finally:
                st['off'] -= 1
            return r
        undo.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, w)

    def wrap_in(cls, name, where):
        f = getattr(cls, name)

        def w(*a, **k):
            tick(where)
            return f(*a, **k)
        undo.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, w)
    for n in ('declare_input', 'create_indep_var', 'create_output',
              'create_implicit_output', 'register_output'):
        wrap(ot.Group, n, n)
    from omtools.core.explicit_output import ExplicitOutput
    wrap(ExplicitOutput, '__setitem__', 'assignment')
    for op in O.REG.values():
        wrap_in(op, 'ot', 'expression')
    wrap_in(ot.Group, 'add_subsystem', 'add_subsystem')
    wrap_in(Group, 'add_subsystem', 'component')
    wrap_in(Component, '_setup_procs', 'setup')
    try:
        yield st
    finally:
        for cls, name, f in undo:
            if f is None:
                delattr(cls, name)
            else:
                setattr(cls, name, f)


def choose(rng, seen):
    w = sorted(set(seen))
    if 'assignment' in w:
        w += ['assignment'] * 3
    w = w[int(rng.integers(len(w)))]
    at = [i + 1 for i, v in enumerate(seen) if v == w]
    return at[int(rng.integers(len(at)))]


def expect_fault(rec, st, f, label):
    """Run f, which must end with the injected exception; None if the chosen
    point was not reached."""
    try:
        f()
    except BaseException as e:
        if st['exc'] is None:
            raise
        if e is not st['exc']:
            rec.fail('masked', 'an exception raised at %s reached the caller '
                     'as %s: %s; %s' % (st['where'], type(e).__name__, e,
                                        label))
            return False
        return True
    if st['exc'] is not None:
        rec.fail('swallowed', 'an exception raised at %s did not reach the '
                 'caller; %s' % (st['where'], label))
        return False
    return None


def judge(rec, pr, p, j, label, mech, derivs=True):
    build.set_point(p, pr, pr.point(j))
    oracle.run_model(p)
    if not oracle.check_values(rec, pr, p, pr.point(j), label=label,
                               mech=mech + '-value'):
        return False
    if derivs and not oracle.check_totals(
            rec, pr, p, pr.point(j), label=label, J=C.cached_jac(pr, j),
            mech=mech + '-deriv'):
        return False
    rec.count('recovered')
    return True


def run(case, rec):
    return globals()['run_' + case['kind']](case, rec)


def run_setup(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 33)
    pr = gen.generate([case['seed']], int(rng.integers(2, 12)),
                      groups=GROUPS if rng.random() < .5 else
                      ['operator', 'index', 'assign'], p_indep=.3,
                      out_all=bool(rng.random() < .5))
    if not pr.outs:
        return
    if nest.usable(pr) and rng.random() < .5:
        kind = 'tree'
        tree, _ = nest.plan(pr, rng)

        def make():
            E = nest.Emit(pr, gen.rng_of(case['seed'], 5))

            class Top(ot.Group):
                def setup(self):
                    E.rng = gen.rng_of(case['seed'], 5)
                    E.group(self, tree)
            return Top()
    else:
        kind = ['flat', 'kept'][int(rng.integers(2))]
        G = build.group_class(pr, build.schedule(pr, rng, True))

        class Keeps(ot.Group):
            def initialize(self):
                self.child = G()

            def setup(self):
                self.add_subsystem('child', self.child, promotes=['*'])
        make = G if kind == 'flat' else Keeps

    def problem(model):
        p = om.Problem()
        if pr.needed() and rng.random() < .7:
            p.model.add_subsystem('m', model, promotes=['*'])
        else:
            p.model = model
        return p
    other = problem(make())
    p = problem(make())
    faults = []
    with points() as st:
        with target('setup'):
            other.setup()
        names = census(other)
        seen = list(st['seen'])
        for k in range(int(rng.integers(1, 4))):
            st.update(n=0, at=choose(rng, seen), exc=None)
            r = expect_fault(rec, st, p.setup, 'model: %s' % kind)
            if r is False:
                return
            if r is None:       # fewer points than expected
                rec.count('not_reached')
                continue
            faults.append(st['where'])
            rec.count('setup_faults')
            rec.count('point.' + st['where'])
        st.update(at=None, exc=None)
        label = 'after setup failed at %s (%s): ' % (faults, kind)
        with target('setup ' + label):
            p.setup()
            p.final_setup()
    if census(p) != names:
        rec.fail('components', '%scomponents %s, without faults %s' % (
            label, dict(census(p)), dict(names)))
        return
    if not judge(rec, pr, p, 1, label, 'setup-again'):
        return
    if not judge(rec, pr, other, 0, 'another instance, ' + label, 'other',
                 False):
        return
    rec.sig((pr.signature(), kind, faults))
    rec.show({'model': kind, 'faults': faults})


def run_block(case, rec):
    """Errors raised in (nested) with-blocks while outputs are incomplete."""
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 39)
    depth = int(rng.integers(1, 4))
    where = int(rng.integers(depth))
    early = bool(rng.random() < .5)
    indexed = bool(rng.random() < .5)
    exc = [Injected('x'), ValueError('x'), ZeroDivisionError('x')][
        int(rng.integers(3))]
    live = [True]

    def fill(g, d):
        x = g.declare_input('x', shape=(2,), val=3.)
        y = g.create_output('y%d' % d, shape=(2,))
        if live[0] and d == where and early:
            raise exc
        if d + 1 < depth:
            with g.create_group('s%d' % d) as c:
                fill(c, d + 1)
        if live[0] and d == where:
            raise exc
        if indexed:
            y[0:1] = x[1:2] * (d + 1.)
            y[1:2] = x[0:1] + 0.
        else:
            y.define(x * (d + 1.))

    class G(ot.Group):
        def setup(self):
            with self.create_group('top') as c:
                fill(c, 0)
    p = om.Problem()
    p.model.add_subsystem('m', G(), promotes=['*'])
    try:
        p.setup()
    except Exception as e:
        if e is not exc:
            rec.fail('masked', 'an error raised in a with-block reached the '
                     'caller as %s: %s' % (type(e).__name__, e))
            return
    else:
        rec.fail('swallowed', 'an error raised in a with-block did not reach '
                 'the caller')
        return
    live[0] = False
    with target('setup after an error in a with-block'):
        p.setup()
    x = rng.uniform(-1, 1, size=2)
    with target('set_val'):
        p.set_val('x', x)
    oracle.run_model(p)
    for d in range(depth):
        ref = x * (d + 1.)
        if indexed:
            ref = np.array([x[1] * (d + 1.), x[0]])
        with target('reading outputs'):
            m = oracle.mismatch(np.array(p.get_val('y%d' % d)), ref, 1e-9)
        if m:
            rec.fail('block-again', 'y%d after an error in a with-block: %s'
                     % (d, m))
            return
    rec.count('block_faults')
    rec.count('recovered')
    rec.sig((depth, where, early, indexed, type(exc).__name__))


def attempts(rng, g, ot, pr, env, done):
    """One ill-formed statement about the expressions written so far."""
    x_id = list(env)[int(rng.integers(len(env)))]
    x = env[x_id]
    s = tuple(pr.shape_of(x_id))
    y_id = list(env)[int(rng.integers(len(env)))]
    y = env[y_id]
    t = tuple(pr.shape_of(y_id))
    n = int(np.prod(s))
    c = ['constant', 'index', 'reshape', 'axis', 'product', 'argument',
         'key']
    src = [i for i in env if pr.stmt(i)['op'] == 'input']
    asg = [i for i in env if pr.stmt(i)['op'] == 'assign']
    if src:
        c.append('register_input')
    if done:
        c += ['twice'] * 3
    if asg:
        c += ['assign'] * 6 + ['define'] * 2
    k = c[int(rng.integers(len(c)))]
    if k == 'constant':
        bad = np.ones(s + (2,))
        ops = [lambda: x + bad, lambda: x * bad, lambda: x - bad,
               lambda: x / bad, lambda: x**bad, lambda: x / 0.,
               lambda: x / np.zeros(s), lambda: x + 'a', lambda: x * None]
        if s != t:
            ops += [lambda: x + y, lambda: x * y, lambda: x - y,
                    lambda: x / y] * 2
        f = ops[int(rng.integers(len(ops)))]
    elif k == 'index':
        key = tuple(slice(0, d + 1 + int(rng.integers(3))) for d in s)
        if len(s) == 1 and rng.random() < .5:
            key = n + int(rng.integers(3))
        elif rng.random() < .5:
            key = tuple(0 for d in s[:-1]) + (s[-1],)

        def f():
            return x[key]
    elif k == 'key':
        key = [1.5, None, 'a', (None,) * len(s), [0]][int(rng.integers(5))]

        def f():
            return x[key]
    elif k == 'reshape':
        def f():
            return ot.reshape(x, (n + 1,))
    elif k == 'axis':
        fn = [ot.sum, ot.average, ot.max, ot.min][int(rng.integers(4))]

        def f():
            return fn(x, axes=(len(s) + int(rng.integers(3)),))
    elif k == 'product':
        z = g.declare_input('zz', shape=(17, 19))
        fs = [lambda: ot.matvec(z, x), lambda: ot.matmat(z, x),
              lambda: ot.dot(x, z), lambda: ot.cross(x, z, axis=0),
              lambda: ot.einsum(x, z, subscripts='abcdefg,hi->ai'),
              lambda: ot.if_else(x, z, y), lambda: ot.sum(x, z),
              lambda: ot.expand(z, (2, 2)), lambda: ot.max(x, z)]
        f = fs[int(rng.integers(len(fs)))]
    elif k == 'argument':
        fs = [lambda: ot.sin(3.), lambda: ot.exp('a'),
              lambda: ot.pnorm(x, pnorm_type=3), lambda: ot.transpose(None),
              lambda: ot.sum(np.ones(s)), lambda: x**'a']
        f = fs[int(rng.integers(len(fs)))]
    elif k == 'register_input':
        def f():
            g.register_output('other%d' % rng.integers(99),
                              env[src[int(rng.integers(len(src)))]])
    elif k == 'twice':
        e = env[done[int(rng.integers(len(done)))]]

        def f():
            g.register_output('other%d' % rng.integers(99), e)
    elif k == 'define':
        e = env[asg[int(rng.integers(len(asg)))]]

        def f():
            e.define(x)
    else:
        i = asg[int(rng.integers(len(asg)))]
        a, p = env[i], pr.stmt(i)['p']
        r = int(rng.integers(3))
        m = int(rng.integers(len(p['keys'])))
        key = O.to_key(p['keys'][m]['key'], p['keys'][m]['bare'])
        if r == 0:          # these entries are assigned already
            e = x if rng.random() < .5 else env[pr.stmt(i)['args'][m]]
        elif r == 1:        # not there
            e, key = x, tuple(slice(d, d + 2) for d in p['shape'])
        else:               # shape does not fit
            e = g.declare_input('zz', shape=(17, 19))

        def f():
            a[key] = e
    return k, f


def run_caught(case, rec):
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 34)
    pr = gen.generate([case['seed']], int(rng.integers(2, 14)),
                      groups=GROUPS if rng.random() < .6 else
                      ['operator', 'index', 'assign'], p_indep=.3,
                      out_all=bool(rng.random() < .5))
    if not pr.outs:
        return
    acts = build.schedule(pr, rng, True)
    accepted, log = [], []
    kinds = []

    class G(ot.Group):
        def setup(self):
            env, done = {}, []

            def steps():
                last = None
                for a in acts:
                    yield a
                    if a[0] == 'r' and pr.stmt(a[2])['op'] != 'assign':
                        done.append(a[2])
                    while env and rng.random() < .6:
                        k, f = attempts(rng, self, ot, pr, env, done)
                        try:
                            f()
                        except Exception as e:
                            log.append(k)
                        else:
                            accepted.append(k)

            build.emit(self, pr, steps(), ot, env=env)
    p = om.Problem()
    ref = build.problem(pr, acts=acts)
    label = 'after rejected statements: '
    try:
        with target('setup of a model that catches rejections'):
            p.model.add_subsystem('m', G(), promotes=['*'])
            p.setup()
            p.final_setup()
    except Exception:
        if accepted:
            rec.count('accepted')
            return
        raise
    if any(k in ('assign', 'register_input', 'define') or k == 'twice'
           for k in accepted):
        rec.count('accepted')
        return
    for k in log:
        rec.count('rejected')
        rec.count('attempt.' + k)
    label = 'after rejected statements %s: ' % log
    if census(p) != census(ref):
        rec.fail('rejected-components', '%scomponents %s, without them %s' % (
            label, dict(census(p)), dict(census(ref))))
        return
    if not judge(rec, pr, p, 1, label, 'rejected'):
        return
    rec.sig((pr.signature(), log))
    rec.show({'rejected': log})


@contextlib.contextmanager
def failing(comp, method, exc, skip, off=None):
    """The method of one component raises after skip calls."""
    orig = getattr(comp, method)
    n = [0]

    def f(*a, **k):
        if off and off['lin']:
            return orig(*a, **k)
        n[0] += 1
        if n[0] > skip:
            raise exc
        return orig(*a, **k)
    setattr(comp, method, f)
    try:
        yield n
    finally:
        delattr(comp, method)
        if getattr(comp, method) != orig:
            setattr(comp, method, orig)


def fault(rec, rng, p, comps, methods, label, skip=0, off=None):
    """Run or differentiate p while one component fails.  False: violation,
    None: the component was not used."""
    import openmdao.api as om
    c = comps[int(rng.integers(len(comps)))]
    m = methods[int(rng.integers(len(methods)))]
    exc = [Injected('x'), om.AnalysisError('x'), KeyboardInterrupt()][
        int(rng.integers(3))]
    with failing(c, m, exc, skip, off):
        try:
            if m in ('compute', 'solve_nonlinear', 'apply_nonlinear',
                     '_solve_nonlinear'):
                p.run_model()
            else:
                p.compute_totals(of=[n for n in label['of']],
                                 wrt=[n for n in label['wrt']])
        except BaseException as e:
            if e is not exc:
                if isinstance(e, type(exc)) and 'x' in str(e):
                    return True
                rec.fail('masked', 'an exception in %s of %s reached the '
                         'caller as %s: %s' % (m, type(c).__name__,
                                               type(e).__name__, e))
                return False
            return True
    return None


def run_run(case, rec):
    rng = gen.rng_of(case['seed'], 35)
    pr = gen.generate([case['seed']], int(rng.integers(2, 12)),
                      groups=GROUPS, p_indep=.3,
                      out_all=bool(rng.random() < .5))
    if not pr.outs:
        return
    p = build.problem(pr, outer=['auto', 'self'][int(rng.integers(2))],
                      mode=str(rng.choice(['fwd', 'rev'])))
    comps = [c for c in monitor.components(p)
             if hasattr(c, 'compute') and type(c).__name__ != 'IndepVarComp']
    if not comps:
        return
    wrt = [s['p']['name'] for s in pr.live_sources()]
    names = {'of': [n for n, _ in pr.outs], 'wrt': wrt}
    hist = []
    for k in range(int(rng.integers(1, 5))):
        j = int(rng.integers(2))
        build.set_point(p, pr, pr.point(j))
        if rng.random() < .55:
            r = fault(rec, rng, p, comps, ['compute'], names)
            rec.count('run_faults', r is True)
            hist.append('run')
        else:
            oracle.run_model(p)
            r = fault(rec, rng, p, [c for c in comps if hasattr(
                c, 'compute_partials')], ['compute_partials'], names) \
                if wrt else None
            rec.count('linearize_faults', r is True)
            hist.append('linearize')
        if r is False:
            return
        if rng.random() < .5:
            j = int(rng.integers(2))
        if not judge(rec, pr, p, j, 'after faults in %s: ' % hist,
                     'after-fault', bool(wrt) and rng.random() < .6):
            return
    rec.sig((pr.signature(), hist))
    rec.show({'faults': hist})


def check_system(rec, p, sy, pt, rng, label, mech, derivs=True):
    """States and their derivatives after setting the parameters."""
    implicit.set_vals(p, pt, sy.params)
    implicit.set_vals(p, sy.prog.point(0), sy.states)   # declared start
    oracle.run_model(p)
    got = implicit.get_states(p, sy)
    for n in sy.states:
        d = oracle.mismatch(got[n], pt[n], 1e-7)
        if d:
            rec.fail(mech + '-state', '%simplicit output %s: %s' % (
                label, n, d))
            return False
    if derivs and sy.params:
        J = sy.ift(pt, sy.params)
        T = oracle.totals(p, sy.states, sy.params)
        row = 0
        for n in sy.states:
            h, col = int(np.prod(sy.shapes[n])), 0
            for q in sy.params:
                w = int(np.prod(sy.shapes[q]))
                rec.count('jacobian_blocks')
                d = oracle.mismatch(T[n][q], J[row:row + h, col:col + w],
                                    1e-5, np.abs(J[row:row + h]).max())
                col += w
                if d:
                    rec.fail(mech + '-deriv', '%sd %s / d %s: %s' % (
                        label, n, q, d))
                    return False
            row += h
    rec.count('recovered')
    return True


def system(case):
    sy = implicit.random_system(case['seed'], k=2)
    if sy is None:
        return None, None
    pts = []
    for j in range(2):
        st = dict(sy.prog.point(j))
        st.update({n: sy.prog.point(0)[n] for n in sy.states})
        pts.append(sy.newton(st))
    return (sy, pts) if all(q is not None for q in pts) else (None, None)


def implicit_problem(sy):
    import openmdao.api as om
    c = implicit.component(sy)
    c.nonlinear_solver = om.NewtonSolver(
        solve_subsystems=False, maxiter=40, iprint=-1, atol=1e-13,
        rtol=1e-14)
    c.linear_solver = om.DirectSolver()
    p = om.Problem()
    p.model.add_subsystem('c', c, promotes=['*'])
    return p


def run_implicit_setup(case, rec):
    rng = gen.rng_of(case['seed'], 36)
    sy, pts = system(case)
    if sy is None:
        rec.count('unsuitable')
        return
    faults = []
    other, p = implicit_problem(sy), implicit_problem(sy)
    with points() as st:
        with target('setup of the implicit model'):
            other.setup()
        seen = list(st['seen'])
        for k in range(int(rng.integers(1, 4))):
            st.update(n=0, at=choose(rng, seen), exc=None)
            r = expect_fault(rec, st, p.setup, 'implicit component')
            if r is False:
                return
            if r is None:
                rec.count('not_reached')
                continue
            faults.append(st['where'])
            rec.count('implicit_setup_faults')
        st.update(at=None, exc=None)
        label = 'after setup failed at %s: ' % faults
        with target('setup of the implicit model ' + label):
            p.setup()
            p.final_setup()
    if not check_system(rec, p, sy, pts[1], rng, label, 'implicit-again') or \
            not check_system(rec, other, sy, pts[0], rng, 'another instance '
                             + label, 'implicit-other', False):
        return
    rec.sig((sy.prog.signature(), faults))


def run_implicit_run(case, rec):
    rng = gen.rng_of(case['seed'], 37)
    sy, pts = system(case)
    if sy is None or not sy.params:
        rec.count('unsuitable')
        return
    p = implicit_problem(sy)
    with target('setup of the implicit model'):
        p.setup()
        p.final_setup()
    c = p.model.c
    oracle.run_model(p)
    inner = [q for q in monitor.components(c.prob)
             if hasattr(q, 'compute') and type(q).__name__ != 'IndepVarComp']
    names = {'of': sy.states, 'wrt': sy.params}
    lin = c.linearize

    def linearize(*a, **k):
        # OpenMDAO does not recover from exceptions in linearize
        state['lin'] = True
        try:
            return lin(*a, **k)
        finally:
            state['lin'] = False
    state = {'lin': False}
    c.linearize = linearize
    hist = []
    for k in range(int(rng.integers(1, 6))):
        j = int(rng.integers(2))
        implicit.set_vals(p, sy.prog.point(j), sy.params)
        if rng.random() < .3:
            implicit.set_vals(p, sy.prog.point(0), sy.states)
        if rng.random() < .7 and inner:
            r = fault(rec, rng, p, inner, ['compute'], names,
                      skip=int(rng.integers(4)), off=state)
            hist.append('inner run')
            rec.count('internal_faults', r is True)
        else:
            r = fault(rec, rng, p, [c], ['apply_nonlinear'], names,
                      skip=int(rng.integers(3)))
            hist.append('run')
            rec.count('run_faults', r is True)
        if r is False:
            return
        if rng.random() < .5:
            j = int(rng.integers(2))
        if not check_system(rec, p, sy, pts[j], rng,
                            'after faults in %s: ' % hist,
                            'implicit-after-fault'):
            return
    rec.sig((sy.prog.signature(), hist))


def run_bracket(case, rec):
    """Faults during the bisection of bracketed outputs."""
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 38)
    n = int(rng.integers(1, 4))
    sign = float(rng.choice([-1., 1.]))

    class B(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            a = g.declare_input('a', shape=(n,), val=1.)
            b = g.declare_input('b', val=1.)
            x = g.create_implicit_output('x', shape=(n,), val=.5)
            y = g.create_implicit_output('y', val=.25)
            x.define_residual_bracketed(sign * (x + x**3 - ot.sin(a)),
                                        x1=-2., x2=2.)
            y.define_residual_bracketed(ot.exp(y) + y - b, x1=-5., x2=3.)
            self.linear_solver = om.DirectSolver()
    p = om.Problem()
    p.model.add_subsystem('c', B(maxiter=60), promotes=['*'])
    with target('setup of a bracketed component'):
        p.setup()
        p.final_setup()
    c = p.model.c
    inner = [q for q in monitor.components(c.prob)
             if hasattr(q, 'compute') and type(q).__name__ != 'IndepVarComp']
    hist = []
    for k in range(int(rng.integers(1, 5))):
        r = fault(rec, rng, p, inner, ['compute'], None,
                  skip=int(rng.integers(120)))
        if r is False:
            return
        hist.append(r)
        rec.count('bracket_faults', r is True)
        a, b = rng.uniform(-1, 1, size=n), rng.uniform(-2, 5, size=1)
        with target('set_val'):
            p.set_val('a', a)
            p.set_val('b', b)
        oracle.run_model(p)
        with target('reading implicit outputs'):
            x, y = np.array(p.get_val('x')), np.array(p.get_val('y'))
        d = max(np.abs(x + x**3 - np.sin(a)).max(),
                np.abs(np.exp(y) + y - b).max())
        if not d < 1e-10:
            rec.fail('bracket-after-fault', 'residual %s after faults in '
                     'the bisection' % d)
            return
        if rng.random() < .5:
            T = oracle.totals(p, ['x', 'y'], ['a', 'b'])
            for o, w, ref in (
                    ('x', 'a', np.diag(np.cos(a) / (1 + 3 * x**2))),
                    ('y', 'b', 1 / (np.exp(y) + 1).reshape(1, 1)),
                    ('x', 'b', np.zeros((n, 1)))):
                d = oracle.mismatch(np.asarray(T[o][w]), ref, 1e-6, 1.)
                rec.count('jacobian_blocks')
                if d:
                    rec.fail('bracket-after-fault-deriv', 'd %s / d %s after '
                             'faults in the bisection: %s' % (o, w, d))
                    return
        rec.count('recovered')
    rec.sig((n, sign, hist))
