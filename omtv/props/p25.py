"""Conditional expressions: the selected branch, and its derivatives only."""
import numpy as np

from omtv import build, gen, oracle
from omtv import ops as O
from omtv.props import common as C

PID = 'P25'
GROUPS = ['cond']
SIDE = ['operator', 'elementwise', 'shape', 'reduction']
RULE = ('one random model with conditional expressions per case (every '
        'output compared at 2 sample points, every total-derivative block in '
        'forward and reverse mode), or one model whose conditions are driven '
        'through zero and the neighbourhood of zero by histories of inputs; '
        'a distinct case is a distinct (operation, argument wiring, shape) '
        'signature of the registered outputs')
ASSUME = C.POINT_ASSUME
MIN = C.minima(GROUPS)
MIN.update({'edge.zero': 300, 'edge.neg': 300, 'edge.pos': 300,
            'edge.totals': 300, 'edge.ranked': 100})
EDGE = [0., -0., 0., 1e-300, -1e-300, 5e-324, -5e-324, 1e-17, -1e-17, 1., -1.,
        1e300, -1e300, 0.3, -0.3]


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1200, 15000))


def edge(case, rec):
    rng = gen.rng_of(case['seed'], 25)
    sh = gen.SHAPES[int(rng.integers(len(gen.SHAPES)))]
    k = 4
    n_if = int(rng.integers(1, 4))
    stmts, nid = [], 0

    def add(op, args=(), **p):
        stmts.append({'id': len(stmts), 'op': op, 'args': list(args), 'p': p})
        return len(stmts) - 1
    conds = []
    for i in range(n_if):
        conds.append(add(['input', 'indep'][int(rng.integers(2))],
                         name='c%d' % i, shape=[1] * int(
                             rng.choice([1, 1, 1, 2, 3])), vals=[
                             [float(EDGE[int(rng.integers(len(EDGE)))])]
                             for _ in range(k)]))
    br = [add('input', name='x%d' % i, shape=list(sh),
              vals=[np.round(rng.uniform(-2, 2, size=sh), 3).ravel().tolist()
                    for _ in range(k)]) for i in range(2)]
    wrap = ['tanh', 'sin', 'neg', 'cos']
    outs = []
    for i, c in enumerate(conds):
        r = rng.random()
        if r < .25:
            c = add('mul_c', [c], c=2.)
        elif r < .4:
            c = add('add', [c, c])
        elif r < .5:
            c = add('sub', [c, c])
        elif r < .6:
            c = add('neg', [c])
        t = br[int(rng.integers(len(br)))]
        f = br[int(rng.integers(len(br)))]
        if rng.random() < .6:
            t = add(wrap[int(rng.integers(4))], [t])
        if rng.random() < .6:
            f = add(wrap[int(rng.integers(4))], [f])
        y = add('if_else', [c, t, f])
        outs.append(['y%d' % i, y])
        br.append(y)
    pr = gen.Prog(stmts, outs, k)
    outer = ['auto', 'ivc', 'self'][int(rng.integers(3))]
    mode = ['fwd', 'rev'][int(rng.integers(2))]
    p = build.problem(pr, outer=outer, mode=mode)
    for j in range(k):
        pt = pr.point(j)
        build.set_point(p, pr, pt)
        oracle.run_model(p)
        rec.count('model_runs')
        env = pr.eval(j)
        for s in stmts:
            if s['op'] == 'if_else':
                c = env[s['args'][0]]
                if c.ndim > 1:
                    rec.count('edge.ranked')
                c = c.flat[0]
                rec.count('edge.zero' if c == 0 else
                          'edge.neg' if c < 0 else 'edge.pos')
        if not oracle.check_values(rec, pr, p, pt):
            return
        if rng.random() < .6:
            rec.count('edge.totals')
            if not oracle.check_totals(rec, pr, p, pt, label=mode + ' ',
                                       J=pr.jac(j)):
                return
    C.observe_ops(rec, pr)


def run(case, rec):
    if case['seed'] % 3 == 0:
        return edge(case, rec)
    C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                focus=C.family(GROUPS), max_ops=8)
