"""The result of a pass depends on the current input values only."""
import numpy as np

from omtv import build, gen, implicit, nest, oracle
from omtv import ops as O
from omtv.core import Rec, target
from omtv.props import common as C
from omtv.props import p20

PID = 'P23'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model class per case (flat or a tree of subsystems) and '
        'a random history of 8 to 16 steps over one or two live problems '
        'made from it: set some or all inputs, change them by a few '
        'millionths, run, run again, compute '
        'totals in either mode, have OpenMDAO check the partials, set up again, replace a problem by a new '
        'one; after every run and every totals the result must be the '
        'reference at the current inputs, a repeated run must change no '
        'bit, and arrays handed to the package must keep their values; '
        'distinct = (program signature, history)')
ASSUME = C.POINT_ASSUME
MIN = {'step.run': 700, 'step.totals': 220, 'step.setup': 150,
       'step.new': 60, 'step.again': 100, 'step.nudge': 150,
       'step.check': 80,
       'histories': 200,
       'arrays_watched': 900, 'two_problems': 60, 'subsystem_trees': 60,
       'implicit_histories': 50, 'bracketed_runs': 60,
       'bracketed_histories': 20}


def cases(tier, seed):
    a = C.seeds(seed, C.sized(tier, 420, 5000), tag=23)
    b = C.seeds(seed, C.sized(tier, 160, 1600), tag=231)
    return [{'seed': 0, 'directed': True}] + a + [
        dict(c, implicit=True) for c in b] + [
        dict(c, bracketed=True) for c in C.seeds(seed, C.sized(
            tier, 50, 900), tag=232)]


class Live:
    """One problem and what its inputs currently are."""

    def __init__(self, make, prog):
        self.make, self.prog = make, prog
        self.renew('auto')

    def renew(self, mode):
        self.p = self.make(mode)
        self.again = False
        self.fresh()

    def fresh(self):
        self.pt = None
        self.ran = False

    def set(self, rng, j, partial):
        srcs = self.prog.live_sources()
        new = self.prog.point(j)
        if self.pt is None or not partial:
            self.pt = dict(new)
            only = None
        else:
            only = [s['p']['name'] for s in srcs if rng.random() < .5]
            self.pt.update({n: new[n] for n in only})
        build.set_point(self.p, self.prog, self.pt, only)
        self.ran = False


def domain_ok(prog, pt):
    with np.errstate(all='ignore'):
        v = prog.eval(pt)
    return all(np.all(np.isfinite(x)) and
               (x.size == 0 or np.abs(x).max() < 1e4) for x in v.values())


def stale(L, pr, k, jacs):
    """Are the totals right once OpenMDAO forgets the variable scopes it
    remembers from an earlier setup of this problem?"""
    if not L.again:
        return False
    for g in L.p.model.system_iter(include_self=True, recurse=True):
        if getattr(g, '_scope_cache', None):
            g._scope_cache = {}
    return oracle.check_totals(Rec(None), pr, L.p, L.pt, J=jacs[k])


def run_directed(rec):
    """The known finding, so that its state is seen on every run."""
    vals = [[1., 2., 3.], [1., 2., 4.], [2., 1., 3.]]
    pr = gen.Prog([
        {'id': 0, 'op': 'input', 'args': [],
         'p': {'name': 'x0', 'shape': [3], 'vals': vals}},
        {'id': 1, 'op': 'cross', 'args': [0, 0], 'p': {'axis': 0}}],
        [['y0', 1]], k=3)
    import openmdao.api as om
    G = build.group_class(pr)

    def make(mode):
        p = om.Problem()
        with target('setup'):
            p.model.add_subsystem('m', G(), promotes=['*'])
            p.setup(mode=mode)
        return p
    L = Live(make, pr)
    for k in range(3):
        if k:
            with target('setting up the problem again'):
                L.p.setup()
            L.fresh()
            L.again = True
        L.set(None, k, False)
        oracle.run_model(L.p)
        if not oracle.check_values(rec, pr, L.p, L.pt, mech='history-value'):
            return
        if not oracle.check_totals(rec, pr, L.p, L.pt, mech='history-deriv'):
            if stale(L, pr, 0, [pr.jac(L.pt)]):
                rec.violations[-1]['mech'] = 'stale-scope-after-setup-again'
            return


def run(case, rec):
    if case.get('directed'):
        return run_directed(rec)
    if case.get('implicit'):
        return run_implicit(case, rec)
    if case.get('bracketed'):
        return run_bracketed(case, rec)
    rng = gen.rng_of(case['seed'], 23)
    pr = gen.generate([case['seed']], int(rng.integers(2, 12)),
                      groups=GROUPS, k=3, out_all=bool(rng.random() < .5))
    if not pr.outs:
        return
    O.ARRAYS = arrays = {}
    try:
        history(case, rec, rng, pr, arrays)
    finally:
        O.ARRAYS = None


def history(case, rec, rng, pr, arrays):
    # one array object per constant and default, used over and over again
    tree = None
    if nest.usable(pr) and rng.random() < .35:
        tree, nsub = nest.plan(pr, rng)
        kind = 'nest'
        rec.count('subsystem_trees')

        def make(mode):
            return nest.problem(pr, tree, case['seed'], mode=mode)
    else:
        import openmdao.api as om
        kind = 'flat'
        G = build.group_class(pr, arrays=arrays)

        def make(mode):
            p = om.Problem()
            with target('setup'):
                p.model = om.Group()
                p.model.add_subsystem('m', G(), promotes=['*'])
                p.setup(mode=mode)
            return p
    ls = [Live(make, pr)]
    if rng.random() < .4:
        ls.append(Live(make, pr))
        rec.count('two_problems')
    watch = {}

    def check_arrays(where):
        for k, a in arrays.items():
            if k not in watch:
                watch[k] = a.copy()
                rec.count('arrays_watched')
            elif not np.array_equal(watch[k], a):
                rec.fail('mutated:' + k[0], 'an array handed to the package '
                         'as a %s changed its value %s' % (k[0], where),
                         before=watch[k], after=a)
                return False
        return True
    check_arrays('')
    hist = []
    jacs = {}
    for step in range(int(rng.integers(8, 17))):
        w = int(rng.integers(len(ls)))
        L = ls[w]
        r = rng.random()
        if L.pt is None or r < .3:
            j, part = int(rng.integers(3)), bool(rng.random() < .5)
            keep = None if L.pt is None else dict(L.pt)
            L.set(rng, j, part)
            if not domain_ok(pr, L.pt):     # mixed points may leave domains
                L.pt = keep
                L.set(rng, j, False)
            what = ('set', j, part)
        elif r < .37:
            names = [s['p']['name'] for s in pr.live_sources()]
            pt = C.nudged(rng, L.pt, names)
            if domain_ok(pr, pt):
                L.pt = pt
            build.set_point(L.p, pr, L.pt, None)
            L.ran = False
            what = ('nudge',)
        elif r < .6 or not L.ran:
            oracle.run_model(L.p)
            L.ran = True
            what = ('run',)
            if not oracle.check_values(
                    rec, pr, L.p, L.pt, mech='history-value',
                    label='after %s: ' % (hist + [(w, 'run')])):
                return
        elif r < .65:
            with target('checking partials after %s' % (hist,)), \
                    np.errstate(all='ignore'):
                L.p.check_partials(out_stream=None, compact_print=True,
                                   step=float(rng.choice([1e-6, .05])))
            what = ('check',)
        elif r < .73:
            a = {n: np.array(L.p.get_val(n)) for n, _ in pr.outs}
            oracle.run_model(L.p)
            what = ('again',)
            for n in a:
                b = np.array(L.p.get_val(n))
                if not np.array_equal(a[n], b):
                    rec.fail('second-run', 'output %s changed in a second '
                             'run with the same inputs, after %s' % (
                                 n, hist), first=a[n], second=b)
                    return
        elif r < .85:
            what = ('totals',)
            k = repr(sorted((n, v.tolist()) for n, v in L.pt.items()))
            if k not in jacs:
                jacs[k] = pr.jac(L.pt)
            nv = len(rec.violations)
            if not oracle.check_totals(
                    rec, pr, L.p, L.pt, J=jacs[k], mech='history-deriv',
                    label='after %s: ' % (hist,)):
                if len(rec.violations) != nv + 1 or not stale(L, pr, k, jacs):
                    return
                # a second setup of the same problem left the scopes of the
                # first one behind
                v = rec.violations[-1]
                rec.count('stale_scope')
                v['mech'] = 'stale-scope-after-setup-again'
                if sum(w['mech'] == v['mech']
                       for w in rec.violations) > 1:
                    rec.violations.pop()
        elif r < .94:
            mode = str(rng.choice(['fwd', 'rev', 'auto']))
            with target('setting up the problem again after %s' % (hist,)):
                L.p.setup(mode=mode)
                if rng.random() < .5:
                    L.p.final_setup()
            L.fresh()
            L.again = True
            what = ('setup', mode)
        else:
            L.renew(str(rng.choice(['fwd', 'rev', 'auto'])))
            what = ('new',)
        hist.append((w,) + what)
        rec.count('step.' + what[0])
        if not check_arrays('after %s' % (hist,)):
            return
    rec.count('histories')
    rec.sig((pr.signature(), kind, hist))
    rec.show({'model': kind, 'history': [str(h) for h in hist][:12]})


def run_implicit(case, rec):
    """Histories over a model with implicit outputs."""
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 24)
    sy = implicit.random_system(case['seed'], k=2)
    if sy is None:
        return
    pts = [sy.newton(sy.prog.point(j)) for j in range(2)]
    # every solve must converge from the state either point leaves behind
    for j in range(2):
        if pts[j] is None or not sy.params:
            return
    for j in range(2):
        st = dict(sy.prog.point(j))
        for start in (pts[1 - j], sy.prog.point(0)):    # declared values
            st.update({n: start[n] for n in sy.states})
            alt = sy.newton(st)
            if alt is None or any(oracle.mismatch(alt[n], pts[j][n], 1e-8)
                                  for n in sy.states):
                return

    def make():
        p = om.Problem()
        with target('setup of the implicit model'):
            c = implicit.component(sy)
            c.nonlinear_solver = om.NewtonSolver(
                solve_subsystems=False, maxiter=40, iprint=-1, atol=1e-13,
                rtol=1e-14)
            c.linear_solver = om.DirectSolver()
            p.model.add_subsystem('c', c, promotes=['*'])
            p.setup()
        return p
    p = make()
    cur, sol, ran, hist = None, None, False, []
    for step in range(int(rng.integers(6, 12))):
        r = rng.random()
        if cur is None or r < .3:
            cur = int(rng.integers(2))
            sol = pts[cur]
            implicit.set_vals(p, sy.prog.point(cur), sy.params)
            ran = False
            what = 'set%d' % cur
        elif r < .4:
            pt = C.nudged(rng, sol, sy.params)
            new = sy.newton(pt)
            if new is not None and sy.newton(
                    dict(pt, **{n: pts[cur][n] for n in sy.states})) is None:
                new = None
            if new is not None:
                sol = new
            implicit.set_vals(p, sol, sy.params)
            ran = False
            what = 'nudge'
        elif r < .65 or not ran:
            with target('run_model'):
                p.run_model()
            ran = True
            what = 'run'
            got = implicit.get_states(p, sy)
            for n in sy.states:
                d = oracle.mismatch(got[n], sol[n], 1e-7)
                if d:
                    rec.fail('history-state', 'implicit output %s after %s: '
                             '%s' % (n, hist + ['run'], d))
                    return
        elif r < .7:
            with target('checking partials of the implicit model'), \
                    np.errstate(all='ignore'):
                p.check_partials(out_stream=None, compact_print=True,
                                 step=float(rng.choice([1e-6, .05])))
            what = 'check'
        elif r < .84:
            what = 'totals'
            J = sy.ift(sol, sy.params)
            T = oracle.totals(p, sy.states, sy.params)
            row = 0
            for n in sy.states:
                h = int(np.prod(sy.shapes[n]))
                col = 0
                for q in sy.params:
                    w = int(np.prod(sy.shapes[q]))
                    d = oracle.mismatch(T[n][q], J[row:row + h,
                                                  col:col + w], 1e-5,
                                        np.abs(J[row:row + h]).max())
                    col += w
                    if d:
                        rec.fail('history-implicit-deriv', 'd %s / d %s '
                                 'after %s: %s' % (n, q, hist, d))
                        return
                row += h
        elif r < .93:
            what = 'setup'
            with target('setting up the problem again'):
                p.setup(mode=str(rng.choice(['fwd', 'rev'])))
            cur, ran = None, False
        else:
            what = 'new'
            p = make()
            cur, ran = None, False
        hist.append(what)
        rec.count('step.' + what.rstrip('01'))
    rec.count('implicit_histories')
    rec.sig((sy.prog.signature(), tuple(hist)))


def run_bracketed(case, rec):
    """Histories over implicit outputs that are found in brackets."""
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 25)
    sy, br, mono, _ = p20.build_system(rng)
    if not mono:
        return

    def make():
        p = om.Problem()
        with target('setup of the bracketed model'):
            p.model.add_subsystem('c', implicit.component(
                sy, brackets={n: br[n][:2] for n in sy.states}),
                promotes=['*'])
            p.setup()
        return p

    def state():
        """Parameters, and the roots they give."""
        root, pt = {}, {}
        lam = [0., 1., rng.random()][int(rng.integers(3))]
        base = [sy.prog.point(j) for j in (0, 1)]
        for q in sy.params:
            pt[q] = base[0][q] + lam * (base[1][q] - base[0][q])
        at = dict(base[0], **pt)
        for n in sy.states:
            r = br[n][2]
            root[n] = at[n] = r[0] + lam * (r[1] - r[0])
            at[sy.place[n]] = np.zeros_like(at[n])
        acc = sy.unpack(sy.F(at))
        for n in sy.states:
            pt[sy.place[n]] = at[sy.place[n]] = acc[n]
        J = sy.ift(at, sy.params)
        return pt, root, J, np.linalg.cond(sy.dF(at, sy.states))
    p, cur, ran, hist = make(), None, False, []
    for step in range(int(rng.integers(6, 14))):
        r = rng.random()
        if cur is None or r < .35:
            cur, ran, what = state(), False, 'set'
            implicit.set_vals(p, cur[0], sy.params)
        elif r < .45:
            # a guess is replaced by the solution
            what = 'guess'
            with target('setting implicit outputs'):
                for n in sy.states:
                    p.set_val(n, br[n][0] + rng.random() * (
                        br[n][1] - br[n][0]))
            ran = False
        elif r < .8 or not ran:
            what, ran = 'run', True
            oracle.run_model(p)
            got = implicit.get_states(p, sy)
            rec.count('bracketed_runs')
            for n in sy.states:
                d = oracle.mismatch(got[n], cur[1][n], 1e-8)
                if d:
                    rec.fail('history-bracket', 'bracketed output %s after '
                             '%s: %s' % (n, hist + ['run'], d),
                             residual=oracle.ops_text(sy.prog, sy.res[n]))
                    return
        elif r < .9 and cur[3] < 1e3:
            what = 'totals'
            T = oracle.totals(p, sy.states, sy.params)
            row = 0
            for n in sy.states:
                h, col = int(np.prod(sy.shapes[n])), 0
                for q in sy.params:
                    w = int(np.prod(sy.shapes[q]))
                    d = oracle.mismatch(T[n][q], cur[2][row:row + h,
                                                        col:col + w], 1e-5,
                                        np.abs(cur[2][row:row + h]).max())
                    col += w
                    if d:
                        rec.fail('history-bracket-deriv', 'd %s / d %s after '
                                 '%s: %s' % (n, q, hist, d))
                        return
                row += h
        elif r < .95:
            what, cur, ran = 'setup', None, False
            with target('setting up the bracketed model again'):
                p.setup()
        else:
            what, cur, ran, p = 'new', None, False, make()
        hist.append(what)
        rec.count('step.' + what)
    rec.count('bracketed_histories')
    rec.sig((sy.prog.signature(), tuple(hist)))
