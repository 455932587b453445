"""Meaning does not depend on the order in which a model is written down."""
import numpy as np

from omtv import build, gen, monitor, oracle, perturb
from omtv.props import common as C

PID = 'P11'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case, written in several random legal orders '
        'of its statements and registrations, with both branch sorting '
        'preferences and under several node visiting orders; outputs and '
        'total derivatives of every variant are compared with the same '
        'reference and the set of components must not change; distinct = '
        'distinct (model, execution order) pairs')
ASSUME = C.POINT_ASSUME
MIN = {'variants': 1500, 'distinct_exec_orders': 700, 'models': 250}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 350, 4000), tag=11)


def run(case, rec):
    rng = gen.rng_of(case['seed'], 11)
    hub = C.hub(case, rec)
    pr = gen.generate([case['seed']], hub and int(rng.integers(
        20, 80)) or int(rng.integers(4, 20)),
                      hub=hub, groups=GROUPS, n_src=int(rng.integers(2, 6)))
    if not pr.outs:
        rec.count('empty_programs')
        return
    orders, census = set(), None
    for v in range(6):
        acts = build.schedule(pr, rng if v else None, shuffle_reg=bool(v))
        with perturb.node_order(rng):
            p = build.problem(pr, acts=acts, reverse=bool(v % 2),
                              mode='fwd' if v % 2 else 'rev')
        log = monitor.ExecLog(p)
        build.set_point(p, pr, pr.point(v % 2))
        ev = log.run()
        if not monitor.check_order(rec, p, ev):
            return
        if not oracle.check_values(rec, pr, p, pr.point(v % 2),
                                   label='variant %d: ' % v,
                                   mech='order-value'):
            return
        if v < 4 and not oracle.check_totals(
                rec, pr, p, pr.point(v % 2), label='variant %d: ' % v,
                J=C.cached_jac(pr, v % 2), mech='order-deriv'):
            return
        cls = {c.pathname: type(c).__name__ for c in monitor.components(p)}
        cen = sorted(cls.values())
        if census is not None and cen != census:
            rec.fail('order-census', 'the components of the model depend on '
                     'the order of its statements: %s vs %s' % (
                         set(cen) ^ set(census), len(cen)))
            return
        census = cen
        orders.add(tuple(cls[e] for e in ev))
        rec.count('variants')
    rec.count('models')
    rec.count('distinct_exec_orders', len(orders))
    for o in orders:
        rec.sig((pr.signature(), o))
    rec.show({'orders': len(orders), 'components': len(census)})
