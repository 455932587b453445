from omtv.props import common as C

PID = 'P05'
GROUPS = ['product']
SIDE = ['operator']
RULE = ('one random model per case (vector, matrix and tensor products mixed with operators); a distinct case is a distinct '
        '(operation, argument wiring, shape) signature of the registered '
        'outputs; every output is compared at 2 sample points and every '
        'total-derivative block in forward and reverse mode')
ASSUME = C.POINT_ASSUME
MIN = C.minima(GROUPS)


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1500, 20000))


def run(case, rec):
    C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                focus=C.family(GROUPS), max_ops=5)
