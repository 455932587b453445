"""Cyclic definitions: outputs defined in terms of themselves."""
import numpy as np

from omtv import gen, implicit, oracle, perturb
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P21'
RULE = ('one model per case with one to three outputs defined in terms of '
        'themselves and of each other by random contracting expressions, in '
        'the model or in a subsystem, under block Gauss-Seidel or Newton; '
        'at convergence every output equals its defining expression and the '
        'downstream expressions use it, before running they have the '
        'declared values and the first sweep starts from these, total '
        'derivatives match the implicit function theorem in both modes; '
        'distinct = (program signature, solver configuration)')
ASSUME = ['only definitions whose reference iteration contracts by at least '
          '0.7 per sweep are judged']
MIN = {'declared_starts': 150, 'first_sweeps': 30, 'fixed_points': 200, 'several': 60, 'mutual': 6, 'deriv_blocks': 500,
       'nonlinear.gs': 60, 'nonlinear.newton': 60, 'in_subsystem': 30,
       'reads_itself': 100}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 280, 4000), tag=21)


def start(case, rec, sysm):
    """The outputs have the values they were created with until the model is
    run, and these are the values the first sweep uses."""
    import openmdao.api as om
    import omtools.api as ot
    prog = sysm.prog
    rng = gen.rng_of(case['seed'], 22)
    need = prog.needed() | {sysm.ids[n] for n in sysm.states}
    given, val = {}, {}
    for n in sysm.states:
        given[n], val[n], k = C.spell_value(rng, np.round(rng.uniform(
            -1.5, 1.5, size=sysm.shapes[n]), 2), sysm.shapes[n])
        if rng.random() < .12:
            given[n], val[n] = {'shape': sysm.shapes[n]}, np.ones(
                sysm.shapes[n])
    nested = bool(rng.random() < .3)

    def body(g):
        env = {}
        for s in prog.stmts:
            p = s['p']
            if s['id'] not in need:
                continue
            if s['op'] != 'input':
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [env[a] for a in s['args']], p)
            elif p['name'] in sysm.states:
                env[s['id']] = g.create_output(p['name'], **given[p['name']])
            else:
                env[s['id']] = g.declare_input(
                    p['name'], shape=tuple(p['shape']), val=np.array(
                        p['vals'][1]).reshape(p['shape']))
        for n in sysm.states:
            env[sysm.ids[n]].define(env[sysm.res[n]])

    class G(ot.Group):
        def setup(self):
            if not nested:
                return body(self)

            class Sub(ot.Group):
                def setup(self):
                    body(self)
            self.add_subsystem('sub', Sub(), promotes=['*'])
    with target('setup'):
        p = om.Problem(G())
        p.setup()
        p.final_setup()
    for n in sysm.states:
        rec.count('declared_starts')
        d = oracle.mismatch(np.array(p.get_val(n)), val[n], 1e-14)
        if d:
            rec.fail('start', 'value of %s, created with %s, before running: '
                     '%s' % (n, given[n], d))
            return False
    if len(sysm.states) == 1:
        at = dict(prog.point(1), **val)
        ref = sysm.pack(val) - sysm.F(at)
        if not np.all(np.isfinite(ref)) or np.abs(ref).max() > 1e3:
            return True
        oracle.run_model(p)
        rec.count('first_sweeps')
        n = sysm.states[0]
        d = oracle.mismatch(np.ravel(p.get_val(n)), ref, 1e-9)
        if d:
            rec.fail('first-sweep', '%s after one sweep from %s: %s' % (
                n, val[n].tolist(), d), defined=oracle.ops_text(
                    prog, sysm.res[n]))
            return False
    return True


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    sysm = implicit.random_system(case['seed'], cycle=True, max_ops=5,
                                  coupled=case['seed'] % 4 > 0)
    if sysm is None or not sysm.params:
        rec.count('unusable')
        return
    sols = [sysm.sweep(sysm.prog.point(j)) for j in (0, 1)]
    if any(s is None for s in sols):
        rec.count('not_contracting')
        return
    for sol in sols:    # contraction in the maximum norm: any sweep order
        dF = sysm.dF(sol, sysm.states)
        if np.abs(np.eye(len(dF)) - dF).sum(axis=1).max() > .85:
            rec.count('not_contracting')
            return
    if not start(case, rec, sysm):
        return
    prog = sysm.prog
    need = prog.needed() | {sysm.ids[n] for n in sysm.states}
    nl = ['gs', 'newton'][case['seed'] % 2]
    nested = case['seed'] % 3 == 0
    for mode in ('fwd', 'rev'):
        rng = gen.rng_of(case['seed'], 21)
        order = [sysm.states[i] for i in rng.permutation(len(sysm.states))]
        lin = ['direct', 'krylov', 'gs'][int(rng.integers(3))]

        def solvers(g):
            if nl == 'gs':
                g.nonlinear_solver = om.NonlinearBlockGS(
                    maxiter=200, iprint=-1, atol=1e-14, rtol=1e-99)
            else:
                g.nonlinear_solver = om.NewtonSolver(
                    solve_subsystems=True, max_sub_solves=30, maxiter=60,
                    iprint=-1, atol=1e-14, rtol=1e-99)
            if lin == 'direct' or nl == 'newton' and lin == 'gs':
                g.linear_solver = om.DirectSolver()
            elif lin == 'krylov':
                g.linear_solver = om.ScipyKrylov(
                    iprint=-1, atol=1e-14, rtol=1e-14, maxiter=800)
            else:
                g.linear_solver = om.LinearBlockGS(
                    maxiter=300, iprint=-1, atol=1e-15, rtol=1e-99)

        def body(g):
            solvers(g)
            env = {}
            for s in prog.sources:
                if s['id'] not in need:
                    continue
                p = s['p']
                if p['name'] in sysm.states:
                    env[s['id']] = g.create_output(
                        p['name'], shape=tuple(p['shape']),
                        val=np.array(p['vals'][0]).reshape(p['shape']))
                else:
                    env[s['id']] = g.declare_input(
                        p['name'], shape=tuple(p['shape']))
            for s in prog.stmts:
                if s['op'] != 'input' and s['id'] in need:
                    env[s['id']] = O.REG[s['op']].ot(
                        ot, [env[a] for a in s['args']], s['p'])
            for n in order:
                env[sysm.ids[n]].define(env[sysm.res[n]])
            return env

        class G(ot.Group):
            def setup(self):
                if nested:
                    class Sub(ot.Group):
                        def setup(self):
                            body(self)
                    self.add_subsystem('sub', Sub(), promotes=['*'])
                    y = {n: self.declare_input(n, shape=sysm.shapes[n])
                         for n in sysm.states}
                else:
                    env = body(self)
                    y = {n: env[sysm.ids[n]] for n in sysm.states}
                for n in sysm.states:
                    self.register_output('y_' + n, ot.sin(y[n]) * 2.)
        with perturb.node_order(rng), target('setup'):
            p = om.Problem()
            if rng.random() < .5:
                p.model = G()
            else:
                p.model.add_subsystem('m', G(), promotes=['*'])
            p.setup(mode=mode)
            p.final_setup()
        for j in (0, 1):
            pt = prog.point(j)
            implicit.set_vals(p, pt, sysm.params)
            # near the solution: convergence from afar is not at stake
            implicit.set_vals(p, {n: sols[j][n] + .02 * np.cos(np.arange(
                sols[j][n].size)).reshape(sols[j][n].shape)
                for n in sysm.states}, sysm.states)
            oracle.run_model(p)
            got = implicit.get_states(p, sysm)
            at = dict(pt, **got)
            f = sysm.F(at)
            txt = {n: oracle.ops_text(prog, sysm.res[n])
                   for n in sysm.states}
            rec.count('fixed_points')
            rec.count('nonlinear.' + nl)
            if not np.all(np.isfinite(f)) or np.abs(f).max() > 1e-9:
                rec.fail('not-fixed', 'outputs differ from their defining '
                         'expressions by up to %g' % np.abs(f).max(), **txt)
                return
            d = oracle.mismatch(sysm.pack(got), sysm.pack(sols[j]), 1e-8)
            if d:
                rec.fail('other-fixed-point', d, **txt)
                return
            for n in sysm.states:
                with target('reading downstream output'):
                    v = np.array(p.get_val('y_' + n))
                d = oracle.mismatch(v, 2 * np.sin(got[n]), 1e-9)
                if d:
                    rec.fail('downstream', 'y_%s = 2 sin(%s): %s' % (n, n, d))
                    return
            J = sysm.ift(at, sysm.params)
            T = oracle.totals(p, sysm.states + [
                'y_' + n for n in sysm.states], sysm.params)
            r0 = 0
            for n in sysm.states:
                c0, sz = 0, int(np.prod(sysm.shapes[n]))
                for q in sysm.params:
                    w = int(np.prod(sysm.shapes[q]))
                    ref = J[r0:r0 + sz, c0:c0 + w]
                    c0 += w
                    for o, rf in ((n, ref), ('y_' + n, 2 * np.cos(
                            np.ravel(got[n]))[:, None] * ref)):
                        rec.count('deriv_blocks')
                        d = oracle.mismatch(T[o][q], rf, 1e-6,
                                            np.abs(J).max())
                        if d:
                            rec.fail('cycle-deriv', 'd %s / d %s (%s): %s' %
                                     (o, q, mode, d), **txt)
                            return
                r0 += sz
        rec.sig((prog.signature(), nl, lin, nested, mode))
    deps = {n: {prog.stmt(i)['p']['name'] for i in prog.needed(
        [(n, sysm.res[n])]) if prog.stmt(i)['op'] == 'input'}
        for n in sysm.states}
    if len(sysm.states) > 1:
        rec.count('several')
    if any(a in deps[b] and b in deps[a] for a in sysm.states
           for b in sysm.states if a < b):
        rec.count('mutual')
    if any(n in deps[n] for n in sysm.states):
        rec.count('reads_itself')
    if nested:
        rec.count('in_subsystem')
    rec.show({'defined': {n: oracle.ops_text(prog, sysm.res[n])
                          for n in sysm.states}})
