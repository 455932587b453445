import numpy as np

from omtv import gen
from omtv.props import common as C

PID = 'P13'
GROUPS = ['assign']
SIDE = ['operator', 'index', 'elementwise', 'shape']
RULE = ('one random model per case (index-based assignment to created outputs); a distinct case is a distinct '
        '(operation, argument wiring, shape) signature of the registered '
        'outputs; every output is compared at 2 sample points and every '
        'total-derivative block in forward and reverse mode; some outputs are assigned from up to '
        'twenty expressions')
ASSUME = C.POINT_ASSUME
MIN = C.minima(GROUPS)
MIN.update({'many_parts': 60, 'parts': 800})


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1500, 20000))


def many(rng):
    """An output made of many parts."""
    n = int(rng.integers(6, 21))
    sh = ((1,), (1,), (2,), (1, 2), (2, 1), (1, 1), (1, 3))[
        int(rng.integers(7))]
    ax = int(rng.integers(len(sh)))
    stmts = []

    def add(op, args=(), **p):
        stmts.append({'id': len(stmts), 'op': op, 'args': list(args), 'p': p})
        return len(stmts) - 1
    xs, length = [], []
    for i in range(n):
        d = list(sh)
        if rng.random() < .2:
            d[ax] = int(rng.integers(1, 4))
        x = add(['input', 'indep'][int(rng.integers(2))], name='x%d' % i,
                shape=d, vals=[np.round(rng.uniform(-2, 2, size=d),
                                        3).ravel().tolist()
                               for _ in range(2)])
        if rng.random() < .5:
            x = add(['tanh', 'sin', 'neg', 'cos'][int(rng.integers(4))], [x])
        xs.append(x)
        length.append(d[ax])
    tot = sum(length)
    inter = len(set(length)) == 1 and rng.random() < .5
    shape = [tot if j == ax else d for j, d in enumerate(sh)]
    keys, pos = [], 0
    for i, k in enumerate(length):
        if inter:
            sl = [i, [tot, n * (k - 1) + i + 1, None][int(rng.integers(3))],
                  n]
        elif k == 1 and rng.random() < .5:
            sl = pos
        else:
            sl = [pos, pos + k if rng.random() < .7 or pos + k == tot
                  else pos + k - tot, None]
        pos += k
        keys.append({'key': [sl if j == ax else [None, None, None]
                             for j in range(len(sh))],
                     'bare': len(sh) == 1 and bool(rng.random() < .6)})
    o = [int(i) for i in rng.permutation(n)]
    y = add('assign', [xs[i] for i in o], shape=shape,
            keys=[keys[i] for i in o], name='o')
    outs = [['o', y]]
    if rng.random() < .4:
        outs.append(['z', add('sin', [y])])
    return gen.Prog(stmts, outs, 2)


def run(case, rec):
    prog = None
    if case['seed'] % 14 == 5:
        prog = many(gen.rng_of(case['seed'], 13))
        rec.count('many_parts')
        rec.count('parts', len(prog.sources))
    C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                focus=C.family(GROUPS), max_ops=8, prog=prog)
