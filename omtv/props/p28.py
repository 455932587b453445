"""Shapes known while writing a model are the shapes computed by it."""
import numpy as np

from omtv import build, gen
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P28'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random composite model per case; the shape every expression '
        'object reports while the model is written is compared with the '
        'shape of the reference value, with the shape of the output it is '
        'registered as and with the shape of the computed value; whether '
        'an expression reports its shape right does not depend on it being '
        'registered; distinct = (operation, argument shapes, parameters)')
ASSUME = []
MIN = {'op.' + n: 8 for n, o in O.REG.items() if o.group in GROUPS}
MIN.update({'expressions': 8000, 'registered': 2500})


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 1200, 15000), tag=28)


def run(case, rec):
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 28)
    pr = gen.generate([case['seed']], int(rng.integers(3, 16)),
                      groups=GROUPS, k=1, out_all=bool(rng.random() < .5))
    if not pr.outs:
        return
    bad = []

    def post(model, env):
        for s in pr.stmts:
            e = env.get(s['id'])
            if e is None:
                continue
            exp = tuple(pr.shape_of(s['id']))
            got = e.shape
            rec.count('expressions')
            rec.count('op.' + s['op'])
            rec.sig((s['op'], [pr.shape_of(a) for a in s['args']],
                     exp, str({k: v for k, v in s['p'].items()
                               if k != 'vals'})[:200]))
            if not isinstance(got, tuple) or tuple(got) != exp:
                bad.append((s, got, exp))

    import openmdao.api as om
    acts = build.schedule(pr)

    class M(ot.Group):
        def setup(self):
            post(self, build.emit(self, pr, acts, ot))
    p = om.Problem()
    with target('setup'):
        p.model.add_subsystem('m', M(), promotes=['*'])
        p.setup()
    if bad:
        s, got, exp = bad[0]
        rec.fail('shape:' + s['op'], '%s of arguments of shapes %s with %s '
                 'reports shape %r, its value has shape %r' % (
                     s['op'], [pr.shape_of(a) for a in s['args']],
                     {k: v for k, v in s['p'].items() if k != 'vals'},
                     got, exp))
        return
    with target('run_model'):
        p.run_model()
    for n, i in pr.outs:
        with target('reading output ' + n):
            v = np.array(p.get_val(n))
            meta = p.model.get_io_metadata(
                iotypes='output', metadata_keys=['shape'])
        exp = tuple(pr.shape_of(i))
        shapes = {m['shape'] for a, m in meta.items()
                  if m['prom_name'] == n}
        rec.count('registered')
        if v.shape != exp or shapes != {exp}:
            rec.fail('output-shape:' + pr.stmt(i)['op'], 'output %s has '
                     'shape %s, declared %s, expected %s' % (
                         n, v.shape, shapes, exp))
            return
    rec.show({'outputs': [[n, list(pr.shape_of(i))] for n, i in pr.outs]})
