import numpy as np

from omtv import gen
from omtv import ops as O
from omtv.props import common as C

PID = 'P12'
GROUPS = ['index']
SIDE = ['operator', 'elementwise', 'shape']
RULE = ('one random model per case (index-based extraction from inputs and expressions, and many similar parts of one expression); a distinct case is a distinct '
        '(operation, argument wiring, shape) signature of the registered '
        'outputs; every output is compared at 2 sample points and every '
        'total-derivative block in forward and reverse mode')
ASSUME = C.POINT_ASSUME
MIN = C.minima(GROUPS)
MIN['alike'] = 200


def cases(tier, seed):
    e = C.seeds(seed, C.sized(tier, 300, 6000), tag=12)
    for c in e:
        c['alike'] = True
    return C.seeds(seed, C.sized(tier, 1500, 20000)) + e


SHAPES = [(3, 3), (3, 3, 3), (4, 4), (5, 5), (2, 2, 2), (4, 3, 4), (6,),
          (9,), (3, 3, 1), (2, 4, 2), (4, 2, 4), (2, 2, 2, 2), (6, 6),
          (3, 1, 3, 3)]


def alike(seed):
    """A model that reads many parts of one expression which resemble each
    other: as many entries, the same ends, axes exchanged, other steps."""
    rng = gen.rng_of(seed, 12)
    sh = SHAPES[int(rng.integers(len(SHAPES)))]
    size = int(np.prod(sh))
    pr = gen.Prog(k=2)
    pr.stmts.append({'id': 0, 'op': ['input', 'indep'][int(
        rng.integers(2))], 'args': [], 'p': {
            'name': 'x0', 'shape': list(sh), 'vals': [
                np.round(rng.uniform(.3, 2., size=size), 4).tolist()
                for _ in range(2)]}})
    src = 0
    if rng.random() < .5:
        pr.stmts.append({'id': 1, 'op': 'sin', 'args': [0], 'p': {}})
        src = 1
    keys, seen = [], set()
    for _ in range(60):
        if len(keys) >= int(rng.integers(2, 9)):
            break
        if not keys or rng.random() < .15:
            # slices of equal axes with as many entries, or the same ends
            k = []
            for d in sh:
                n = int(rng.integers(1, d + 1))
                m = [[a, b, s] for a in range(d) for b in range(a + 1, d + 1)
                     for s in (1, 2, 3) if len(range(a, b, s)) == n]
                if rng.random() < .2:       # backwards
                    m = [[a, b, s] for a in range(1, d) for b in range(a)
                         for s in (-1, -2) if len(range(a, b, s)) == n] or m
                k.append(m[int(rng.integers(len(m)))])
        else:
            k = O.near_key(rng, sh, keys[int(rng.integers(len(keys)))])
            if rng.random() < .3:
                k = O.near_key(rng, sh, k)
        c = gen.canon_key({'key': k}, sh)
        if c in seen or any(not len(range(*r)) for r in c):
            continue
        seen.add(c)
        keys.append(k)
    nid = src + 1
    for k in keys:
        pr.stmts.append({'id': nid, 'op': 'getitem', 'args': [src],
                         'p': {'key': k, 'bare': len(sh) == 1}})
        nid += 1
        if rng.random() < .3:
            pr.stmts.append({'id': nid, 'op': 'mul_c', 'args': [nid - 1],
                             'p': {'c': 1.5}})
            nid += 1
        pr.outs.append(['y%d' % len(pr.outs), nid - 1])
    return pr


def run(case, rec):
    if case.get('alike'):
        rec.count('alike')
        return C.pointwise(case, rec, None, prog=alike(case['seed']))
    C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                focus=C.family(GROUPS), max_ops=8)
