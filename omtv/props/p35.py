"""Drivers and linear solvers: what an optimizer sees."""
import numpy as np

from omtv import build, gen, nest, oracle
from omtv import ops as O
from omtv.core import target
from omtv.implicit import PARTIAL
from omtv.props import common as C

PID = 'P35'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case with an objective, constraints and design '
        'variables (flagged independent variables, or declared on the model, '
        'with and without scaling), distributed over subsystems; total '
        'derivatives asked for in random subsets and orders, '
        'with a total colouring and under other linear solvers '
        '(direct, assembled dense, and CSC Jacobians, block '
        'Gauss-Seidel) of the model and of subsystems; then an SLSQP run, '
        'during which every value of the objective and the constraints and '
        'every gradient that the optimizer is given is compared with the '
        'reference at the design of that moment; distinct = (program '
        'signature, linear solver, distribution)')
ASSUME = C.POINT_ASSUME + [
    'OpenMDAO\'s drivers, scaling, colouring and linear solvers']
MIN = {'optimizer_values': 600, 'optimizer_gradients': 300,
       'flagged': 80, 'declared': 80, 'requests': 300, 'coloured': 30,
       'improved': 60, 'subsystems': 60,
       'linear.direct': 20, 'linear.dense': 20, 'linear.csc': 20,
       'linear.gs': 20, 'linear.default': 20}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 240, 4000), tag=35)


def program(case):
    """A model whose output 'obj' is bounded below."""
    rng = gen.rng_of(case['seed'], 36)
    pr = gen.generate([case['seed'], 35], int(rng.integers(2, 9)),
                      groups=GROUPS, exclude=PARTIAL + ('if_else',),
                      max_size=24, p_indep=.5,
                      out_all=bool(rng.random() < .5))
    live = pr.needed()
    src = [s for s in pr.sources if s['id'] in live]
    if not pr.outs or not src or not nest.usable(pr):
        return None
    if any(np.abs(v).max() > 30 for k in (0, 1)
           for v in pr.point(k).values()):
        return None
    ctr = [max(s['id'] for s in pr.stmts) + 1]

    def add(op, args, **p):
        pr.stmts.append({'id': ctr[0], 'op': op, 'args': args, 'p': p})
        ctr[0] += 1
        return ctr[0] - 1
    tot = None
    for s in src:
        x = add('sub_c', [s['id']], c=float(np.round(
            rng.uniform(-.8, .8), 2)))
        x = add('pow_c', [x], c=2)
        terms = [add('sum', [x], axes=None)]
        tot = terms[0] if tot is None else add('add', [tot, terms[0]])
    cons = []
    for n, i in pr.outs:
        t = add('tanh', [i])
        if pr.stmt(i)['op'] != 'assign' and rng.random() < .5 and \
                len(cons) < 2:
            cons.append(n)
        t = add('sum', [t], axes=None)
        t = add('mul_c', [t], c=float(np.round(rng.uniform(-.6, .6), 2)))
        tot = add('add', [tot, t])
    pr.outs.append(['obj', tot])
    pr._shapes = {}
    return pr, src, cons, rng


def linear(om, s, kind):
    kw = {}
    if kind in ('dense', 'csc'):
        s.linear_solver = om.DirectSolver(assemble_jac=True)
        s.options['assembled_jac_type'] = kind
    elif kind == 'direct':
        s.linear_solver = om.DirectSolver()
    elif kind == 'gs':
        s.linear_solver = om.LinearBlockGS(iprint=-1, maxiter=30, atol=1e-13,
                                           rtol=1e-13)


def run(case, rec):
    import openmdao.api as om
    g = program(case)
    if g is None:
        rec.count('unusable')
        return
    pr, src, cons, rng = g
    tree, n = nest.plan(pr, rng, depth=2, p_sub=[0., .5][case['seed'] % 2])
    kind = ['direct', 'dense', 'csc', 'gs', 'default'][
        int(rng.integers(5))]
    flagged = {s['p']['name'] for s in src if s['op'] == 'indep' and
               rng.random() < .7}
    dvs = {}
    for s in src:
        if s['p']['name'] not in flagged and (
                rng.random() < .7 or not flagged and not dvs):
            dvs[s['p']['name']] = [{}, {'ref': 2.5}, {'lower': -2., 'upper':
                                                      2.5}, {
                'scaler': 3., 'adder': .5}][int(rng.integers(4))]
    oref = float([1., 1., 4.][int(rng.integers(3))])
    lim = {}
    ref0 = pr.outputs(0)
    for c in cons:      # not active at the start, usually not at the end
        lim[c] = float(np.abs(ref0[c]).max() + 5.)
    late = bool(rng.random() < .5)

    def declare(m):
        m.add_objective('obj', ref=oref)
        for c in cons:
            m.add_constraint(c, upper=lim[c])
        for d, kw in dvs.items():
            m.add_design_var(d, **kw)
    colour = bool(rng.random() < .3)
    krng = gen.rng_of(case['seed'], 37)

    def mid(p):
        for s in p.model.system_iter(include_self=True, recurse=True,
                                     typ=om.Group):
            if s is p.model:
                linear(om, s, kind)
            elif krng.random() < .3:
                linear(om, s, 'csc' if kind == 'csc' else 'direct')
        p.driver = om.ScipyOptimizeDriver(
            optimizer='SLSQP', maxiter=12, tol=1e-9, disp=False)
        if colour:
            p.driver.declare_coloring(show_summary=False)
    mode = ['fwd', 'rev', 'auto'][case['seed'] % 3]
    p = nest.problem(pr, tree, case['seed'], mode=mode, mid=mid, dv=flagged,
                     post=None if late else declare,
                     pre=declare if late else None)
    names = sorted(flagged) + sorted(dvs)
    outs = [a for a, _ in pr.outs]
    live = [s['p']['name'] for s in pr.live_sources()]
    shapes = {s['p']['name']: tuple(s['p']['shape']) for s in pr.sources}

    def design():
        pt = dict(start)
        with target('reading design variables'):
            for d in names:
                pt[d] = np.array(p.get_val(d)).reshape(shapes[d])
        return pt

    start = pr.point(1)
    build.set_point(p, pr, start)
    oracle.run_model(p)
    if not oracle.check_values(rec, pr, p, start):
        return
    J = pr.jac(1)
    # requests
    for _ in range(2):
        of = [outs[i] for i in rng.permutation(len(outs))][
            :int(rng.integers(1, len(outs) + 1))]
        wrt = [live[i] for i in rng.permutation(len(live))][
            :int(rng.integers(1, len(live) + 1))]
        T = oracle.totals(p, of, wrt)
        rec.count('requests')
        for o in of:
            for w in wrt:
                d = oracle.mismatch(T[o][w], J[o, w], 1e-6,
                                    max(np.abs(J[o, x]).max() for x in live))
                if d:
                    rec.fail('request', 'd %s / d %s of compute_totals(%s, '
                             '%s), %s linear solver: %s' % (o, w, of, wrt,
                                                            kind, d),
                             **{o: oracle.ops_text(pr, dict(pr.outs)[o])})
                    return
    # optimizer
    class Stop(Exception):
        pass

    def scaled(w):
        kw = dvs.get(w, {})
        return kw.get('ref', 1. / kw.get('scaler', 1.))
    real_run = p.driver._run_solve_nonlinear
    real_tot = p.driver._compute_totals
    resp = ['obj'] + cons
    oid = dict(pr.outs)

    def usable_point(pt):
        return all(np.all(np.isfinite(v)) for v in pt.values())

    def after_run(*a, **k):
        out = real_run(*a, **k)
        pt = design()
        if not usable_point(pt):
            return out
        with np.errstate(all='ignore'):
            env = pr.outputs(pt)
        for o in resp:
            if not np.all(np.isfinite(env[o])):
                continue
            rec.count('optimizer_values')
            d = oracle.mismatch(np.array(p.get_val(o)), env[o], 1e-9)
            if d:
                rec.fail('optimizer-value', '%s = %s at a point of the '
                         'optimizer: %s' % (o, oracle.ops_text(pr, oid[o]),
                                            d))
                raise Stop
        return out

    def after_tot(*a, **k):
        out = real_tot(*a, **k)
        pt = design()
        if not usable_point(pt):
            return out
        with np.errstate(all='ignore'):
            JJ = pr.jac(pt)
        if not all(np.all(np.isfinite(v)) for v in JJ.values()):
            return out
        # the array the driver uses: rows and columns in its own order
        of = k.get('of') or resp
        wrt = k.get('wrt') or list(p.driver._designvars)
        rows = []
        for o in of:
            o = o.split('.')[-1]
            rows.append(np.hstack([JJ[o, w.split('.')[-1]] * scaled(
                w.split('.')[-1]) / (oref if o == 'obj' else 1.)
                for w in wrt]))
        want = np.vstack(rows)
        rec.count('optimizer_gradients')
        d = oracle.mismatch(np.asarray(out), want, 1e-6, np.abs(want).max())
        if d:
            rec.fail('optimizer-gradient', 'gradient of %s with respect to '
                     '%s given to the optimizer (%s linear solver%s): %s' % (
                         of, wrt, kind, ', coloured' if colour else '', d))
            raise Stop
        return out
    p.driver._run_solve_nonlinear = after_run
    p.driver._compute_totals = after_tot
    f0 = float(pr.outputs(start)['obj'].ravel()[0])
    try:
        with target('run_driver'), np.errstate(all='ignore'):
            p.run_driver()
    except Exception as e:
        if rec.violations or isinstance(e.__cause__, Stop):
            return
        raise
    p.driver._run_solve_nonlinear = real_run
    p.driver._compute_totals = real_tot
    pt = design()
    if not usable_point(pt):
        return
    oracle.run_model(p)
    if not oracle.check_values(rec, pr, p, pt, label='after the '
                               'optimization, '):
        return
    f1 = float(np.ravel(p.get_val('obj'))[0])
    if f1 < f0 - 1e-9 * (1 + abs(f0)):
        rec.count('improved')
    rec.count('linear.' + kind)
    rec.count('flagged', len(flagged))
    rec.count('declared', len(dvs))
    rec.count('subsystems', n)
    if colour:
        rec.count('coloured')
    for s in pr.stmts:
        if s['op'] not in ('input', 'indep'):
            rec.count('op.' + s['op'])
    rec.sig((pr.signature(), kind, n))
    rec.show({'objective': oracle.ops_text(pr, oid['obj']), 'constraints':
              cons, 'flagged': sorted(flagged), 'declared': dvs})
