from omtv import extreme
from omtv.props import common as C

PID = 'P02'
GROUPS = ['elementwise']
SIDE = ['operator']
RULE = ('one random model per case (elementwise functions mixed with operators); a distinct case is a distinct '
        '(operation, argument wiring, shape) signature of the registered '
        'outputs; every output is compared at 2 sample points and every '
        'total-derivative block in forward and reverse mode; some cases '
        'judge a single operation at extreme magnitudes entry by entry')
ASSUME = C.POINT_ASSUME
MIN = C.minima(GROUPS)
MIN.update({'extreme_entries': 800, 'extreme_slopes': 800})


def cases(tier, seed):
    e = C.seeds(seed, C.sized(tier, 300, 6000), tag=31)
    for c in e:
        c['extreme'] = True
    return C.seeds(seed, C.sized(tier, 1500, 20000)) + e


def run(case, rec):
    if case.get('extreme'):
        return extreme.function(case, rec)
    C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                focus=C.family(GROUPS), max_ops=6)
