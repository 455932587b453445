"""Implicit outputs satisfy their residual equations."""
import numpy as np

from omtv import gen, implicit, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P18'
RULE = ('one random system of residual equations per case (one to three '
        'states of different shapes, coupled or not, random expressions of any magnitude); '
        'after a converged solve the reference residual at the reported '
        'states is zero, the states are those the reference solver reaches '
        'from the same start, at arbitrary states the reported residuals '
        'equal the reference ones, and the start is the declared initial '
        'value; distinct = (program signature, solver configuration)')
ASSUME = ['only systems on which a reference Newton iteration converges '
          'within 9 steps with decreasing residuals through well-conditioned Jacobians are judged']
SPELLINGS = {'spelling.inputs_after_subsystem': 15,
             'spelling.permuted': 25,
             **{'spelling.' + k: 40 for k in (
                 'inputs_declared_again', 'late_inputs',
                 'inputs_of_subsystems', 'states_in_subsystems')}}
MIN = {'solves': 200, 'coupled_solves': 50, 'states': 250,
       'residual_checks': 250, 'nearby_states': 150, 'multi_state': 80,
       'in_subsystems': 60, **SPELLINGS,
       'rescaled': 60, 'initial_values': 250,
       'linear.direct': 30, 'linear.krylov': 30, 'linear.own': 30}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 350, 5000), tag=18)


def solvers(comp_or_group, lin, tol=1e-13, scale=1.):
    import openmdao.api as om
    s = om.NewtonSolver(solve_subsystems=False, maxiter=40, iprint=-1,
                        atol=tol * scale, rtol=1e-99)
    comp_or_group.nonlinear_solver = s
    if lin == 'direct':
        comp_or_group.linear_solver = om.DirectSolver()
    elif lin == 'own':          # the component's own linear solve
        comp_or_group.linear_solver = om.LinearRunOnce()
    elif lin == 'krylov':
        comp_or_group.linear_solver = om.ScipyKrylov(
            iprint=-1, atol=1e-14 * scale, rtol=1e-13, maxiter=400)


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    sysm = implicit.random_system(case['seed'])
    if sysm is None:
        rec.count('unusable')
        return
    sysm.permute(case['seed'])
    rng = gen.rng_of(case['seed'], 18)
    lin = ['direct', 'krylov', 'own'][int(rng.integers(3))]
    where = 'comp' if lin != 'own' and rng.random() < .6 else 'group'
    if lin != 'krylov' or where == 'comp':  # rows of comparable magnitude
        implicit.random_scale(rng, sysm, rec)
    wrap = ['om', 'ot'][int(rng.integers(2))]
    order = [sysm.states[i] for i in rng.permutation(len(sysm.states))]
    comp = implicit.component(
        sysm, order=order, rng=rng, subs=bool(rng.random() < .4),
        setup_extra=(lambda c: solvers(c, lin, scale=sysm.scale)) if where == 'comp' else None)
    with target('setup'):
        p = om.Problem()
        if wrap == 'om':
            p.model.add_subsystem('c', comp, promotes=['*'])
        else:
            class G(ot.Group):
                def setup(self):
                    self.add_subsystem('c', comp, promotes=['*'])
            p.model = G()
        if where == 'group':
            solvers(p.model, lin, scale=sysm.scale)
        p.setup()
        p.final_setup()
    pt0 = sysm.prog.point(0)
    with target('reading initial values'):
        for n in sysm.states:
            rec.count('initial_values')
            if not np.array_equal(np.array(p.get_val(n)), pt0[n]):
                rec.fail('initial-value', 'implicit output %s starts at %s, '
                         'declared %s' % (n, p.get_val(n), pt0[n]))
                return
    # residual function at arbitrary states, also at states next to another
    pts = []
    for j in (0, 1):
        pts.append(sysm.prog.point(j))
        for names in (sysm.params, sysm.states):
            pts.append(C.nudged(rng, pts[-1], names))
    for j, pt in enumerate(pts):
        implicit.set_vals(p, pt, sysm.params + sysm.states)
        with target('run_apply_nonlinear'):
            p.model.run_apply_nonlinear()
        ref = sysm.unpack(sysm.F(pt))
        for n in sysm.states:
            with target('reading residuals'):
                got = np.array(p.model._residuals[
                        [a for a in p.model._residuals
                         if a.rsplit('.', 1)[-1] == n][0]])
            rec.count('residual_checks')
            if j % 3:
                rec.count('nearby_states')
            d = oracle.mismatch(np.abs(got) / sysm.scale,
                                np.abs(ref[n]) / sysm.scale, 1e-9)
            if d:
                rec.fail('residual', 'residual of %s: %s' % (n, d),
                         residual=oracle.ops_text(sysm.prog, sysm.res[n]))
                return
    for j in (0, 1):
        pt = sysm.prog.point(j)
        sol = sysm.newton(pt)
        if sol is None:
            rec.count('reference_diverges')
            continue
        implicit.set_vals(p, pt, sysm.params + sysm.states)
        oracle.run_model(p)
        got = implicit.get_states(p, sysm)
        at = dict(pt, **got)
        r = sysm.F(at) / sysm.scale
        rec.count('solves')
        rec.count('linear.' + lin)
        rec.count('states', len(sysm.states))
        if sysm.coupled and len(sysm.states) > 1:
            rec.count('coupled_solves')
        if len(sysm.states) > 1:
            rec.count('multi_state')
        txt = {n: oracle.ops_text(sysm.prog, sysm.res[n])
               for n in sysm.states}
        if not np.all(np.isfinite(r)) or np.abs(r).max() > 1e-7:
            rec.fail('not-solved', 'residuals at the reported solution are '
                     'up to %g (%s linear solver on the %s)' % (
                         np.abs(r).max(), lin, where), **txt)
            return
        d = oracle.mismatch(sysm.pack(got), sysm.pack(sol), 1e-6)
        if d:
            rec.fail('other-root', 'solution differs from the one reached '
                     'by the reference: ' + d, **txt)
            return
    rec.count('in_subsystems', getattr(sysm, 'in_sub', 0))
    for k, v in sysm.seen.items():
        rec.count('spelling.' + k, v)
    rec.sig((sysm.prog.signature(), lin, where, wrap))
    rec.show({'states': {n: sysm.shapes[n] for n in sysm.states},
              'residual': oracle.ops_text(sysm.prog,
                                          sysm.res[sysm.states[0]])})
