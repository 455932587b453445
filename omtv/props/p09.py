"""Execution order of a cycle-free model: one pass is enough."""
import numpy as np

from omtv import build, gen, monitor, oracle, perturb
from omtv.core import target
from omtv.props import common as C

PID = 'P09'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random cycle-free model per case, written in a random statement '
        'and registration order, analysed under a random node visiting '
        'order; an event log of component executions is checked online '
        'against the connection graph, and a second pass must change '
        'nothing; distinct = distinct sequence of executed components '
        'together with the model signature')
ASSUME = ['the connection graph reported by OpenMDAO after setup is trusted']
MIN = {'exec_events': 4000, 'edges_checked': 4000, 'passes': 500,
       'second_pass_identical': 500, 'reversed_sorting': 60,
       'multi_branch': 200}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 900, 12000), tag=9)


def outputs(p):
    return {n: np.array(v) for n, v in p.model._outputs._abs_item_iter()} \
        if hasattr(p.model._outputs, '_abs_item_iter') else {
            n: np.array(p.model._outputs[n]) for n in p.model._outputs}


def run(case, rec):
    rng = gen.rng_of(case['seed'], 9)
    wide = rng.random() < .4
    hub = C.hub(case, rec)
    pr = gen.generate([case['seed']], hub and int(rng.integers(
        20, 80)) or int(rng.integers(3, 28)),
                      hub=hub, groups=GROUPS, n_src=int(rng.integers(2, 7)),
                      out_all=bool(wide))
    if not pr.outs:
        rec.count('empty_programs')
        return
    rev = bool(rng.random() < .4)
    acts = build.schedule(pr, rng, shuffle_reg=True)
    with perturb.node_order(rng):
        p = build.problem(pr, acts=acts, reverse=rev,
                          outer=['auto', 'ivc', 'self'][int(
                              rng.integers(3))])
    log = monitor.ExecLog(p)
    build.set_point(p, pr, pr.point(0))
    ev = log.run()
    rec.count('passes')
    if rev:
        rec.count('reversed_sorting')
    if len(pr.outs) > 2:
        rec.count('multi_branch')
    if not monitor.check_order(rec, p, ev):
        return
    if not oracle.check_values(rec, pr, p, pr.point(0), mech='one-pass'):
        return
    a = outputs(p)
    # a second point: a single pass is enough from a stale state as well
    build.set_point(p, pr, pr.point(1))
    log.run()
    if not oracle.check_values(rec, pr, p, pr.point(1), mech='one-pass'):
        return
    a = outputs(p)
    ev2 = log.run()
    b = outputs(p)
    if ev2 != ev:
        rec.fail('order-changes', 'execution order differs between passes')
        return
    for n in a:
        if not np.array_equal(a[n], b[n], equal_nan=True):
            rec.fail('second-pass', 'output %s changes when the model is run '
                     'again without changing inputs: not converged after '
                     'one pass' % n)
            return
    rec.count('second_pass_identical')
    with target('run_apply_nonlinear'):
        p.model.run_apply_nonlinear()
    r = np.array(p.model._residuals.asarray())
    s = max(1., np.abs(p.model._outputs.asarray()).max())
    if np.abs(r).max(initial=0) > 1e-10 * s:
        rec.fail('residual', 'residual %g after one pass' % np.abs(r).max())
        return
    cls = {c.pathname: type(c).__name__ for c in monitor.components(p)}
    rec.sig((pr.signature(), [cls[e] for e in ev]))
    rec.show({'events': ev[:12], 'edges': len(monitor.connections(p))})
