from omtv import build, gen, monitor, nest, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P15'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case, distributed over a random tree of '
        'subsystems (omtools.Group subclasses, create_group contexts, groups '
        'populated before or after being added, OpenMDAO groups) exchanging '
        'values by name; values and total derivatives compared with the '
        'flat reference; distinct = (program signature, tree shape)')
ASSUME = C.POINT_ASSUME
MIN = {'inputs_declared_again': 60, 'outputs_defined': 60,
       'subsystems': 800, 'kind.ot': 60, 'kind.ctx': 60, 'kind.om': 60,
       'kind.pre': 60, 'kind.post': 60, 'crossing_values': 600}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 700, 9000))


def kinds(tree):
    for t in tree:
        if t[0] == 'sub':
            yield t[2]
            yield from kinds(t[3])


def shape(tree):
    return [t[1]['id'] if t[0] == 's' else [t[2], shape(t[3])] for t in tree]


def make(case, groups, max_ops=16, p_sub=.5, rec=None):
    rng = gen.rng_of(case['seed'], 31)
    hub = C.hub(case, rec) if rec else None
    pr = gen.generate([case['seed']], hub and int(rng.integers(20, 60)) or
                      int(rng.integers(3, max_ops)), groups=groups, hub=hub, exclude=('pos',), p_indep=.4)
    if not pr.outs or not nest.usable(pr):
        return None
    tree, n = nest.plan(pr, rng, depth=int(rng.integers(1, 4)), p_sub=p_sub)
    if not n:
        return None
    return pr, tree, n, rng


def run(case, rec):
    g = make(case, GROUPS, rec=rec)
    if g is None:
        rec.count('unusable')
        return
    pr, tree, n, rng = g
    modes = ['fwd', 'rev']
    for m in modes:
        p = nest.problem(pr, tree, case['seed'], mode=m,
                         outer=bool(rng.random() < .7))
        for k in (0, 1) if m == 'fwd' else (1,):
            pt = pr.point(k)
            build.set_point(p, pr, pt)
            oracle.run_model(p)
            if not oracle.check_values(rec, pr, p, pt):
                return
            if not oracle.check_totals(rec, pr, p, pt, label=m + ' ',
                                       J=C.cached_jac(pr, k)):
                return
    rec.count('subsystems', n)
    rec.count('inputs_declared_again', p.omtv_again)
    rec.count('outputs_defined', p.omtv_defined)
    for k in kinds(tree):
        rec.count('kind.' + k)
    rec.count('crossing_values', sum(
        1 for a, b, _, _ in monitor.connections(p)
        if a.rsplit('.', 1)[0] != b.rsplit('.', 1)[0]))
    rec.sig(pr.signature() + str(shape(tree)))
    rec.show({'tree': shape(tree)})
