from omtv.props import common as C
from omtv import ops as O

PID = 'P03'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random composite model per case using every operation of the '
        'package (up to 24 expressions); total derivatives of every output '
        'with respect to every independent variable and input in forward '
        'and reverse mode at 2 points, against the complex-step derivative '
        'of the reference composition')
ASSUME = C.POINT_ASSUME
MIN = {'op.' + n: 4 for n in O.REG}
MIN.update({'model_runs': 500, 'nonzero_blocks': 2000})


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 900, 12000))


def run(case, rec):
    C.pointwise(case, rec, GROUPS, max_ops=24)
