"""Models under complex step."""
import numpy as np

from omtv import build, gen, implicit, nest, oracle
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C
from omtv.props import p18, p20

PID = 'P31'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('per case a random model, flat or a tree of subsystems, set up for '
        'complex step: with an infinitesimal imaginary direction added to '
        'the inputs every output gets the exact directional derivative as '
        'its imaginary part, before and after the partials are computed '
        'there; back at real values every output is what it was bit for '
        'bit; checking the partials by complex step finds those every '
        'component declares; total derivatives approximated by complex step '
        'through converged or bracketed implicit outputs and cyclic '
        'definitions match the implicit function theorem; distinct = '
        '(program signature, kind of model)')
ASSUME = C.POINT_ASSUME + [
    'complex step is only required to be exact to first order']
MIN = {'directions': 500, 'outputs_compared': 900, 'nonzero_outputs': 700,
       'subsystem_trees': 40, 'partials_checked': 1200,
       'approx_blocks': 300, 'approx.newton': 40, 'approx.bracketed': 20,
       'approx.cycle': 30, 'back_to_real': 300}
MIN.update({'op.' + n: 2 for n, o in O.REG.items() if o.group in GROUPS})
H = 1e-30


def cases(tier, seed):
    n = [(320, 'explicit'), (70, 'newton'), (30, 'bracketed'), (50, 'cycle')]
    out = []
    for i, (k, kind) in enumerate(n):
        out += [dict(c, kind=kind) for c in C.seeds(
            seed, C.sized(tier, k, 12 * k), tag=310 + i)]
    return out


def run(case, rec):
    {'explicit': explicit, 'newton': newton, 'bracketed': bracketed,
     'cycle': cycle}[case['kind']](case, rec)


def explicit(case, rec):
    rng = gen.rng_of(case['seed'], 31)
    names = sorted(o.name for o in O.REG.values() if o.group in GROUPS)
    op = names[case['seed'] % len(names)]
    for t in range(8):
        pr = gen.generate([case['seed'], t], int(rng.integers(1, 9)),
                          groups=GROUPS, focus=[op], k=2,
                          out_all=bool(rng.random() < .5))
        if any(pr.stmt(i)['op'] == op for i in pr.needed()):
            break
    if not pr.outs:
        rec.count('empty_programs')
        return
    kw = {'force_alloc_complex': True}
    if nest.usable(pr) and rng.random() < .25:
        tree, nsub = nest.plan(pr, rng)
        kind = 'nest'
        rec.count('subsystem_trees')
        import openmdao.api as om
        E = nest.Emit(pr, gen.rng_of(case['seed'], 5))
        import omtools.api as ot

        class Top(ot.Group):
            def setup(self):
                E.group(self, tree)
        with target('setup'):
            p = om.Problem()
            p.model.add_subsystem('m', Top(), promotes=['*'])
            p.setup(**kw)
            p.final_setup()
    else:
        kind = 'flat'
        p = build.problem(pr, outer=['auto', 'ivc', 'self'][
            int(rng.integers(3))], setup_kw=kw)
    srcs = [s['p']['name'] for s in pr.live_sources()]
    for j in (0, 1):
        pt = pr.point(j)
        build.set_point(p, pr, pt)
        oracle.run_model(p)
        if not oracle.check_values(rec, pr, p, pt, label='real values: '):
            return
        real = {n: np.array(p.get_val(n)) for n, _ in pr.outs}
        for again in (False, True):
            d = {n: np.round(rng.uniform(-1, 1, size=pt[n].shape), 3) *
                 (rng.random() < .8) for n in srcs}
            at = {n: pt[n] + 1j * H * d[n] for n in srcs}
            with target('running under complex step'), \
                    np.errstate(all='ignore'):
                p.set_complex_step_mode(True)
                for n in srcs:
                    p.set_val(n, at[n])
                p.run_model()
                if again:
                    p.model.run_linearize()
                    p.run_model()
                got = {n: np.array(p.get_val(n)) for n, _ in pr.outs}
            with np.errstate(all='ignore'):
                ref = pr.outputs(pt, over=at)
            rec.count('directions')
            sc = max([1.] + [float(np.abs(np.imag(v)).max()) / H
                             for v in ref.values()])
            for n, i in pr.outs:
                rec.count('outputs_compared')
                if np.any(np.imag(ref[n])):
                    rec.count('nonzero_outputs')
                m = oracle.mismatch(got[n].real, ref[n].real, 1e-9) or \
                    oracle.mismatch(got[n].imag / H, np.imag(ref[n]) / H,
                                    1e-7, sc * 1e-3)
                if m:
                    rec.fail('complex:' + pr.stmt(i)['op'],
                             'derivative along a direction by complex step%s'
                             ' of %s = %s: %s' % (
                                 ' after computing partials' if again else
                                 '', n, oracle.ops_text(pr, i), m),
                             direction=d)
                    return
            with target('leaving complex step'):
                p.set_complex_step_mode(False)
            build.set_point(p, pr, pt)
            oracle.run_model(p)
            rec.count('back_to_real')
            for n, i in pr.outs:
                v = np.array(p.get_val(n))
                if v.dtype.kind != 'f' or not np.array_equal(v, real[n]):
                    rec.fail('back-to-real', 'output %s = %s changed by a '
                             'run under complex step' % (
                                 n, oracle.ops_text(pr, i)),
                             before=real[n], after=v)
                    return
    if not check_partials(rec, p, 1e-6):
        return
    for s in pr.stmts:
        if s['id'] in pr.needed() and s['op'] not in ('input', 'indep'):
            rec.count('op.' + s['op'])
    rec.sig((pr.signature(), kind))
    rec.show({'outputs': [[nm, oracle.ops_text(pr, i)]
                          for nm, i in pr.outs][:3], 'model': kind})


def check_partials(rec, p, tol):
    """OpenMDAO's own check, by complex step, of every component."""
    with target('checking partials by complex step'), \
            np.errstate(all='ignore'):
        data = p.check_partials(out_stream=None, method='cs',
                                compact_print=True)
    for c in data:
        for (o, w), e in data[c].items():
            rec.count('partials_checked')
            ref = np.asarray(e['J_fd'])
            # J_rev: matrix-free in reverse mode; neither: not declared
            got = e.get('J_fwd', e.get('J_rev', np.zeros(ref.shape)))
            m = oracle.mismatch(np.asarray(got), ref, tol)
            if m:
                comp = p.model._get_subsystem(c)
                rec.fail('check-partials:' + type(comp).__name__,
                         'declared partials of %s with respect to %s of '
                         'component %s (%s) against complex step: %s' % (
                             o, w, c, type(comp).__name__, m))
                return False
    return True


def downstream(states, shapes, params):
    """Group around a component: parameters are computed from d_*, states
    are used by y_*."""
    import omtools.api as ot

    def wrap(comp):
        class G(ot.Group):
            def setup(self):
                for q in params:
                    d = self.declare_input('d_' + q, shape=shapes[q])
                    self.register_output(q, d * 2.)
                self.add_subsystem('c', comp, promotes=['*'])
                for n in states:
                    s = self.declare_input(n, shape=shapes[n])
                    self.register_output('y_' + n, ot.sin(s))
        return G()
    return wrap


def blocks(rec, sysm, T, J, at, fac, mech, txt, tol=1e-5):
    r0 = 0
    sc = np.abs(J).max()
    for n in sysm.states:
        c0, sz = 0, int(np.prod(sysm.shapes[n]))
        for q in sysm.params:
            w = int(np.prod(sysm.shapes[q]))
            ref = J[r0:r0 + sz, c0:c0 + w] * fac
            c0 += w
            for o, rf in ((n, ref), ('y_' + n, np.cos(
                    np.ravel(at[n]))[:, None] * ref)):
                rec.count('approx_blocks')
                m = oracle.mismatch(np.asarray(T[o][('d_' if fac != 1 else
                                                     '') + q]), rf, tol, sc)
                if m:
                    rec.fail(mech, 'd %s / d %s approximated by complex '
                             'step: %s' % (o, q, m), **txt)
                    return False
        r0 += sz
    return True


def approx(p, sysm, fac, pts, start, rec, mech, txt):
    import openmdao.api as om
    with target('setup for complex step'):
        p.model.approx_totals(method='cs')
        p.setup(force_alloc_complex=True)
        p.final_setup()
    pre = 'd_' if fac != 1 else ''
    for j in (0, 1):
        pt = sysm.prog.point(j)
        with target('set_val'):
            for q in sysm.params:
                p.set_val(pre + q, pt[q] / fac)
        if start is not None:
            implicit.set_vals(p, start(j), sysm.states)
        oracle.run_model(p)
        got = implicit.get_states(p, sysm)
        at = dict(pt, **got)
        if not np.abs(sysm.F(at)).max() <= 1e-7:
            rec.count('not_converged')
            continue
        dF = sysm.dF(at, sysm.states)
        if np.linalg.cond(dF) > 1e3:
            rec.count('ill_conditioned')
            continue
        J = sysm.ift(at, sysm.params)
        with np.errstate(all='ignore'):
            T = oracle.totals(p, sysm.states + ['y_' + n for n in
                                                sysm.states],
                              [pre + q for q in sysm.params])
        rec.count('approx.' + mech.split('-')[0])
        if not blocks(rec, sysm, T, J, at, fac, mech, txt):
            return False
        for n in sysm.states:
            d = oracle.mismatch(np.array(p.get_val(n)), got[n], 1e-9)
            if d:
                rec.fail(mech + '-state', 'output %s after approximating '
                         'totals by complex step: %s' % (n, d), **txt)
                return False
    return True


def texts(sysm):
    return {n: oracle.ops_text(sysm.prog, sysm.res[n]) for n in sysm.states}


def newton(case, rec):
    import openmdao.api as om
    sysm = implicit.random_system(case['seed'], max_ops=4)
    if sysm is None or not sysm.params:
        rec.count('unusable')
        return
    sols = [sysm.newton(sysm.prog.point(j)) for j in (0, 1)]
    if any(s is None for s in sols):
        rec.count('reference_diverges')
        return
    rng = gen.rng_of(case['seed'], 32)
    lin = 'direct'      # OpenMDAO's Krylov solver is for real vectors only
    where = ['comp', 'group'][int(rng.integers(2))]
    comp = implicit.component(
        sysm, rng=rng, subs=bool(rng.random() < .4),
        setup_extra=(lambda c: p18.solvers(c, lin)) if where == 'comp'
        else None)
    with target('setup'):
        p = om.Problem()
        g = downstream(sysm.states, sysm.shapes, sysm.params)(comp)
        # not on the group whose totals are approximated
        p.model.add_subsystem('m', g, promotes=['*'])
        if where == 'group':
            p18.solvers(g, lin)
    if not approx(p, sysm, 2., None, lambda j: sols[j], rec, 'newton-deriv',
                  texts(sysm)):
        return
    if not partials(case, rec, comp_of(sysm, rng), sysm, sols[0]):
        return
    rec.sig((sysm.prog.signature(), 'newton', lin, where))


def comp_of(sysm, rng):
    return implicit.component(sysm, rng=rng)


def partials(case, rec, comp, sysm, at):
    """check_partials by complex step on a component alone."""
    import openmdao.api as om
    with target('setup'):
        p = om.Problem()
        p.model.add_subsystem('c', comp, promotes=['*'])
        p18.solvers(p.model, 'direct')
        p.setup(force_alloc_complex=True)
        p.final_setup()
    implicit.set_vals(p, at, sysm.params + sysm.states)
    oracle.run_model(p)
    return check_partials(rec, p, 1e-5)


def bracketed(case, rec):
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 20)
    sysm, br, mono, dec = p20.build_system(rng)
    spelled = {}
    for n in sysm.states:
        lo, hi, root = br[n]
        for j in range(2):
            pt = sysm.prog.point(j)
            a = sysm.unpack(sysm.F(dict(pt, **{n: lo})))[n]
            b = sysm.unpack(sysm.F(dict(pt, **{n: hi})))[n]
            if not np.all(a * b < 0):
                rec.count('no_sign_change')
                return
        spelled[n] = (lo, hi) if rng.random() < .6 else (hi, lo)
    comp = implicit.component(sysm, brackets=spelled, rng=rng)
    with target('setup'):
        p = om.Problem()
        p.model = downstream(sysm.states, sysm.shapes, sysm.params)(comp)
    if approx(p, sysm, 2., None, None, rec, 'bracketed-deriv', texts(sysm)):
        rec.sig((sysm.prog.signature(), 'bracketed'))


def cycle(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    sysm = implicit.random_system(case['seed'], cycle=True, max_ops=4,
                                  coupled=case['seed'] % 4 > 0)
    if sysm is None or not sysm.params:
        rec.count('unusable')
        return
    sols = [sysm.sweep(sysm.prog.point(j)) for j in (0, 1)]
    if any(s is None for s in sols):
        rec.count('not_contracting')
        return
    gs = bool(case['seed'] % 2)
    for sol in sols:
        dF = sysm.dF(sol, sysm.states)
        if np.abs(np.eye(len(dF)) - dF).sum(axis=1).max() > (
                .7 if gs else .85):
            rec.count('not_contracting')
            return
    prog = sysm.prog
    need = prog.needed() | {sysm.ids[n] for n in sysm.states}

    class G(ot.Group):
        def setup(self):
            if gs:
                # a tolerance below rounding: always all the sweeps, so that
                # the imaginary parts converge too
                self.nonlinear_solver = om.NonlinearBlockGS(
                    maxiter=70, iprint=-1, atol=1e-99, rtol=1e-99)
            else:
                self.nonlinear_solver = om.NewtonSolver(
                    solve_subsystems=False, maxiter=60, iprint=-1,
                    atol=1e-14, rtol=1e-99)
            self.linear_solver = om.DirectSolver()
            env = {}
            for s in prog.stmts:
                p = s['p']
                if s['id'] not in need:
                    continue
                if s['op'] != 'input':
                    env[s['id']] = O.REG[s['op']].ot(
                        ot, [env[a] for a in s['args']], p)
                elif p['name'] in sysm.states:
                    env[s['id']] = self.create_output(
                        p['name'], shape=tuple(p['shape']))
                else:
                    env[s['id']] = self.declare_input(
                        p['name'], shape=tuple(p['shape']))
            for n in sysm.states:
                env[sysm.ids[n]].define(env[sysm.res[n]])
                self.register_output('y_' + n, ot.sin(env[sysm.ids[n]]))
    with target('setup'):
        p = om.Problem()
        p.model.add_subsystem('m', G(), promotes=['*'])
    if approx(p, sysm, 1, None, lambda j: sols[j], rec, 'cycle-deriv',
              texts(sysm)):
        rec.sig((prog.signature(), 'cycle', gs))
