"""Inputs: declared defaults when unconnected, the connection otherwise."""
import numpy as np

from omtv import build, gen, monitor, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P17'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case over inputs declared with arrays, '
        'lists, numbers of several types or without a shape as defaults and '
        'never set; outputs after a pass must be those '
        'of the declared values whatever operations consume the inputs; '
        'then a random subset of the inputs is connected to a source by '
        'promotion or by an explicit connection and must take the value of '
        'the source; distinct = (program signature, connected subset, kind '
        'of connection)')
ASSUME = C.POINT_ASSUME[:2]
MIN = {'default_models': 500, 'connected.promoted': 200,
       'connected.explicit': 100, 'unconnected': 250, 'consumers': 2000,
       'declared_again': 100,
       **{'default.' + k: 50 for k in C.VALUE_KINDS}}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 800, 10000), tag=17)


def run(case, rec):
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 17)
    pr = gen.generate([case['seed']], int(rng.integers(1, 12)),
                      groups=GROUPS, p_indep=0., n_src=int(
                          rng.integers(1, 5)))
    if not pr.outs:
        rec.count('empty_programs')
        return
    # some defaults are written as one number
    need = pr.needed()
    for s in pr.sources:
        s['kw'], v, s['kind'] = C.spell_value(rng, s['p']['vals'][0],
                                              s['p']['shape'])
        s['p']['vals'][0] = v.ravel().tolist()
    ref = pr.outputs(0)
    if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6
               for v in ref.values()):
        rec.count('out_of_domain')
        return
    try:
        with np.errstate(all='raise'):
            pr.outputs(0)
    except FloatingPointError:
        rec.count('out_of_domain')
        return
    if not regular(pr):
        rec.count('out_of_domain')
        return

    # an input can be declared again where it is used
    again = bool(rng.random() < .25)

    class G(ot.Group):
        def setup(self):
            env = Declared(self, case['seed']) if again else {}
            for a in build.schedule(pr):
                if a[0] == 's' and a[1]['op'] == 'input':
                    s = a[1]
                    env[s['id']] = self.declare_input(s['p']['name'],
                                                      **s['kw'])
                    if again:
                        env.kw[s['id']] = s
                else:
                    build.emit(self, pr, [a], ot, 0, env)

    outer = ['auto', 'self'][int(rng.integers(2))]
    with target('setup'):
        p = om.Problem()
        if outer == 'self':
            p.model = G()
        else:
            p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup()
    oracle.run_model(p)
    rec.count('default_models')
    rec.count('declared_again', again)
    live = pr.live_sources()
    for s in live:
        rec.count('default.' + s['kind'])
    rec.count('consumers', sum(len(set(s['args'])) for s in pr.stmts
                               if s['id'] in need))
    if not oracle.check_values(rec, pr, p, pr.point(0), label='defaults: ',
                               mech='default'):
        return
    for s in live:
        with target('reading input'):
            got = p.get_val(s['p']['name'])
        if oracle.mismatch(np.ravel(got),
                           pr.point(0)[s['p']['name']].ravel(), 0.):
            rec.fail('default-read', 'input %s reads %s' % (
                s['p']['name'], got))
            return
    # connected
    conn = {s['p']['name'] for s in live if rng.random() < .6}
    how = 'promoted' if rng.random() < .6 else 'explicit'
    c = om.IndepVarComp()
    pt = {k: pr.point(1 if k in conn else 0)[k] for k in pr.point(0)}
    # the mixed point must be in the domain as well
    try:
        with np.errstate(all='raise'):
            ref = pr.outputs(pt)
    except FloatingPointError:
        rec.count('mixed_out_of_domain')
        conn = set()
        pt = pr.point(0)
    if not regular(pr, pt):
        conn, pt = set(), pr.point(0)
    for n in sorted(conn):
        c.add_output(n if how == 'promoted' else 's_' + n, val=pt[n])
    with target('setup with connections'):
        p = om.Problem()
        if conn:
            p.model.add_subsystem('src', c, promotes=['*'])
        p.model.add_subsystem('m', G(), promotes=['*'])
        if how == 'explicit':
            for n in sorted(conn):
                p.model.connect('s_' + n, n)
        p.setup()
    oracle.run_model(p)
    rec.count('connected.' + how, len(conn))
    rec.count('unconnected', len(live) - len(conn))
    if not oracle.check_values(rec, pr, p, pt, label='connected %s: ' %
                               sorted(conn), mech='connected'):
        return
    rec.sig((pr.signature(), sorted(conn), how))
    rec.show({'defaults': len(live), 'connected': sorted(conn)})


class Declared(dict):
    def __init__(self, g, seed):
        self.g, self.kw, self.rng = g, {}, gen.rng_of(seed, 79)
        self.n = 0

    def __getitem__(self, i):
        if i in self.kw and self.rng.random() < .5:
            self.n += 1
            s = self.kw[i]
            return self.g.declare_input(s['p']['name'], **s['kw'])
        return dict.__getitem__(self, i)


def regular(pr, pt=0):
    """Well inside every operation's domain: perturbing changes little."""
    try:
        with np.errstate(all='raise'):
            a = pr.outputs(pt)
            base = pr.point(pt) if not isinstance(pt, dict) else pt
            b = pr.outputs({k: v * (1 + 1e-9) + 1e-12
                            for k, v in base.items()})
    except (FloatingPointError, ZeroDivisionError):
        return False
    return all(np.all(np.isfinite(a[k])) and np.all(
        np.abs(a[k] - b[k]) <= 1e-5 * (1 + np.abs(a[k]).max()))
        and np.abs(a[k]).max() < 1e6 for k in a)
