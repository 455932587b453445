from omtv.props import common as C

PID = 'P07'
GROUPS = ['einsum']
SIDE = ['operator']
RULE = ('one random model per case (einsum in both APIs and partial formats); a distinct case is a distinct '
        '(operation, argument wiring, shape) signature of the registered '
        'outputs; every output is compared at 2 sample points and every '
        'total-derivative block in forward and reverse mode')
ASSUME = C.POINT_ASSUME
MIN = dict(C.minima(GROUPS), **{'repeated_in_operand': 25,
                                'broadcast.dense': 25,
                                'broadcast.sparse': 25})


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1200, 15000))


def run(case, rec):
    pr = C.pointwise(case, rec, list(GROUPS) + list(SIDE),
                     focus=C.family(GROUPS), max_ops=4)
    for i in pr.needed() if pr else ():
        s = pr.stmt(i)
        if s['op'] != 'einsum':
            continue
        size, sub = {}, s['p']['sub'].replace(
            ' ', '').split('->')[0].split(',')
        kinds = set()
        for t, a in zip(sub, s['args']):
            if len(set(t)) < len(t):
                kinds.add('repeated_in_operand')
            for c, d in zip(t, pr.shape_of(a)):
                if size.setdefault(c, d) != d:
                    kinds.add('broadcast.' + s['p']['fmt'])
        for k in kinds:
            rec.count(k)
