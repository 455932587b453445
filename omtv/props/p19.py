"""Derivatives through implicit outputs."""
import numpy as np

from omtv import gen, implicit, oracle
from omtv.core import target
from omtv.props import common as C
from omtv.props import p18

PID = 'P19'
RULE = ('one random system of residual equations per case between an '
        'upstream and a downstream explicit expression; total derivatives '
        'of every implicit output and of the downstream value with respect '
        'to every parameter, in forward and reverse mode, at two converged '
        'points, against the implicit function theorem applied to the '
        'reference residuals, and partial derivatives of the residuals at '
        'values where only states or only parameters changed; distinct = (program signature, solver '
        'configuration, mode)')
ASSUME = p18.ASSUME
MIN = {'solved_points': 250, 'partials_of_residuals': 800, 'deriv_blocks': 800, 'nonzero_blocks': 500,
       'linear.direct': 50, 'linear.krylov': 50, 'linear.own': 50,
       'coupled': 80, 'mode.fwd': 100, 'mode.rev': 100,
       'in_subsystems': 60, **p18.SPELLINGS, 'rescaled': 30}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 300, 4000), tag=19)


def partials(case, rec, sysm):
    """Derivatives of the residuals at arbitrary values, also where only
    the states or only the parameters changed since the last time."""
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 1991)
    if rng.random() < .5:
        return True
    with target('setup'):
        p = om.Problem()
        p.model.add_subsystem('c', implicit.component(
            sysm, rng=rng, subs=bool(rng.random() < .3)), promotes=['*'])
        p.setup(mode=['fwd', 'rev'][int(rng.integers(2))])
        p.final_setup()
    a, b = sysm.prog.point(0), sysm.prog.point(1)
    pts = [{n: (a, b)[i if n in sysm.states else j][n] for n in a}
           for i, j in ((0, 0), (0, 1), (1, 1), (1, 0))]
    pts = pts if rng.random() < .5 else pts[::-1]
    names = sysm.states + sysm.params
    pts.append(C.nudged(rng, pts[-1], sysm.params))
    for k, pt in enumerate(pts):
        implicit.set_vals(p, pt, names)
        with target('partials of residuals'):
            p.model.run_apply_nonlinear()
            data = p.check_partials(out_stream=None)['c']
        ref = sysm.dF(pt, names)
        r0 = 0
        for n in sysm.states:
            h, c0 = int(np.prod(sysm.shapes[n])), 0
            for q in names:
                w = int(np.prod(sysm.shapes[q]))
                got = data.get((n, q), {}).get('J_fwd', np.zeros((h, w)))
                rec.count('partials_of_residuals')
                d = oracle.mismatch(got, ref[r0:r0 + h, c0:c0 + w], 1e-7,
                                    np.abs(ref).max())
                if d:
                    rec.fail('partials', 'd residual of %s / d %s at point '
                             '%d: %s' % (n, q, k, d), point={
                                 m: np.ravel(v).tolist()
                                 for m, v in pt.items()},
                             residual=oracle.ops_text(sysm.prog,
                                                      sysm.res[n]))
                    return False
                c0 += w
            r0 += h
    return True


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    sysm = implicit.random_system(case['seed'], max_ops=5)
    if sysm is None:
        rec.count('unusable')
        return
    if not sysm.params:
        rec.count('no_params')
        return
    sysm.permute(case['seed'])
    lin = ['direct', 'krylov', 'own'][case['seed'] % 3]
    if lin == 'own':
        implicit.random_scale(gen.rng_of(case['seed'], 1919), sysm, rec, .6)
    for mode in ('fwd', 'rev'):
        rng = gen.rng_of(case['seed'], 19)
        where = 'comp' if lin != 'own' and rng.random() < .6 else 'group'
        subs = bool(rng.random() < .35)
        order = [sysm.states[i] for i in rng.permutation(len(sysm.states))]
        comp = implicit.component(
            sysm, order=order, rng=rng, subs=subs,
            setup_extra=(lambda c: p18.solvers(
                c, lin, scale=sysm.scale))
            if where == 'comp' else None)

        class G(ot.Group):
            def setup(self):
                for q in sysm.params:
                    d = self.declare_input('d_' + q, shape=sysm.shapes[q])
                    self.register_output(q, d * 2.)
                self.add_subsystem('c', comp, promotes=['*'])
                for n in sysm.states:
                    s = self.declare_input(n, shape=sysm.shapes[n])
                    self.register_output('y_' + n, ot.sin(s))
        with target('setup'):
            p = om.Problem()
            p.model = G()
            if where == 'group':
                p18.solvers(p.model, lin, scale=sysm.scale)
            p.setup(mode=mode)
            p.final_setup()
        for j in (0, 1):
            pt = sysm.prog.point(j)
            sol = sysm.newton(pt)
            if sol is None:
                rec.count('reference_diverges')
                continue
            implicit.set_vals(p, pt, sysm.states)
            with target('set_val'):
                for q in sysm.params:
                    p.set_val('d_' + q, pt[q] / 2.)
                    # Newton of the parent starts where the reference does
                    p.set_val(q, pt[q])
            oracle.run_model(p)
            got = implicit.get_states(p, sysm)
            at = dict(pt, **got)
            r = np.abs(sysm.F(at) / sysm.scale).max()
            if not r <= 1e-7:
                rec.fail('not-solved', 'residuals up to %g (relative to '
                         'their magnitude) after the solve' % r)
                return
            J = sysm.ift(at, sysm.params) * 2.
            of = sysm.states + ['y_' + n for n in sysm.states]
            T = oracle.totals(p, of, ['d_' + q for q in sysm.params])
            rec.count('solved_points')
            rec.count('mode.' + mode)
            rec.count('linear.' + lin)
            if sysm.coupled and len(sysm.states) > 1:
                rec.count('coupled')
            r0 = 0
            for n in sysm.states:
                sz = int(np.prod(sysm.shapes[n]))
                c0 = 0
                for q in sysm.params:
                    w = int(np.prod(sysm.shapes[q]))
                    ref = J[r0:r0 + sz, c0:c0 + w]
                    c0 += w
                    co = np.cos(np.ravel(got[n]))[:, None]
                    for o, rf in ((n, ref), ('y_' + n, co * ref)):
                        rec.count('deriv_blocks')
                        if np.any(rf):
                            rec.count('nonzero_blocks')
                        d = oracle.mismatch(T[o]['d_' + q], rf, 1e-6,
                                            np.abs(J).max())
                        if d:
                            rec.fail(
                                'implicit-deriv', 'd %s / d %s (%s mode, %s '
                                'linear solver on the %s): %s' % (
                                    o, 'd_' + q, mode, lin, where, d),
                                **{k: oracle.ops_text(sysm.prog,
                                                      sysm.res[k])
                                   for k in sysm.states})
                            return
                r0 += sz
        rec.sig((sysm.prog.signature(), lin, where, mode))
    if not partials(case, rec, sysm):
        return
    rec.count('in_subsystems', getattr(sysm, 'in_sub', 0))
    for k, v in sysm.seen.items():
        rec.count('spelling.' + k, v)
    rec.show({'states': sysm.shapes, 'linear': lin, 'where': where})
