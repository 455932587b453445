"""Exactly the registered computation is built: nothing dead, nothing twice."""
import collections

import numpy as np

from omtv import build, gen, monitor, oracle, perturb
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P10'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('one random model per case, built once as it is and once without '
        'the expressions no registered output needs: the executed '
        'components, counted by kind, must be the same; every registered '
        'output is produced by exactly one component, every expression is '
        'evaluated at most once however many consumers it has; distinct = '
        '(model signature, number of dead expressions)')
ASSUME = ['an expression built alone on inputs of the same shapes costs as '
          'many components as it does inside a model, or more']
MIN = {'parts_read': 800, 'dead_expressions': 1000, 'components': 3000, 'outputs_seen': 2000,
       'shared_expressions': 250, 'unused_inputs': 50}
_solo = {}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 700, 9000), tag=10)


def pruned(pr):
    need = pr.needed()
    return gen.Prog([s for s in pr.stmts if s['id'] in need or
                     s['op'] == 'indep'], pr.outs, pr.k)


def census(p):
    return collections.Counter(type(c).__name__
                               for c in monitor.components(p))


def solo_cost(pr, s):
    """Components of one expression built alone on declared inputs."""
    keys = [gen.alias_key(pr, a) for a in s['args']]
    alias = tuple(keys.index(k) for k in keys)
    shapes = tuple(tuple(pr.shape_of(a)) for a in s['args'])
    p = {k: v for k, v in s['p'].items() if k != 'name'}
    key = (s['op'], alias, shapes, str(p))
    if key in _solo:
        return _solo[key]
    import omtools.api as ot
    import openmdao.api as om
    vals = [np.array(pr.eval(0)[a], dtype=float) for a in s['args']]

    class G(ot.Group):
        def setup(self):
            v = {}
            for i in sorted(set(alias)):
                v[i] = self.declare_input('q%d' % i, shape=shapes[i],
                                          val=vals[i])
            self.register_output('y', O.REG[s['op']].ot(
                ot, [v[i] for i in alias], s['p']))
    with target('setup of a single expression'):
        pb = om.Problem()
        pb.model.add_subsystem('m', G(), promotes=['*'])
        pb.setup()
        pb.final_setup()
    _solo[key] = sum(census(pb).values())
    return _solo[key]


def many_parts(pr, rng, rec):
    """Read one expression in many parts, several of them more than once."""
    need = pr.needed()
    big = [s['id'] for s in pr.stmts if s['id'] in need and s['op'] !=
           'pos' and np.prod(pr.shape_of(s['id'])) >= 4]
    if not big:
        return
    i = big[int(rng.integers(len(big)))]
    keys = []
    for _ in range(int(rng.integers(4, 30))):
        if keys and rng.random() < .4:
            k = keys[int(rng.integers(len(keys)))]
        else:
            k = O.rand_key(rng, pr.shape_of(i))
        keys.append(k)
    nid = max(s['id'] for s in pr.stmts) + 1
    rec.count('parts_read', len(keys))
    for j, k in enumerate(keys):
        pr.stmts.append({'id': nid, 'op': 'getitem', 'args': [i],
                         'p': {'key': k, 'bare': False}})
        pr.stmts.append({'id': nid + 1, 'op': 'neg', 'args': [nid], 'p': {}})
        pr.outs.append(['part%d' % j, nid + 1])
        nid += 2
    pr._shapes = {}


def run(case, rec):
    rng = gen.rng_of(case['seed'], 10)
    hub = C.hub(case, rec)
    pr = gen.generate([case['seed']], hub and int(rng.integers(
        20, 80)) or int(rng.integers(3, 22)), hub=hub,
                      groups=GROUPS, n_src=int(rng.integers(2, 6)),
                      p_indep=.25)
    assign = {r for _, r in pr.outs if pr.stmt(r)['op'] == 'assign'}
    keep = [o for o in pr.outs if o[1] in assign or rng.random() < .5]
    if not keep:
        keep = pr.outs[:1]
    if not keep:
        rec.count('empty_programs')
        return
    pr.outs = keep
    if case['seed'] % 4 == 1:
        many_parts(pr, rng, rec)
    q = pruned(pr)
    outer = ['auto', 'self'][int(rng.integers(2))]
    with perturb.node_order(rng):
        p = build.problem(pr, acts=build.schedule(pr, rng, True),
                          outer=outer)
        p2 = build.problem(q, outer=outer)
    dead = len(pr.stmts) - len(q.stmts)
    rec.count('dead_expressions', dead)
    rec.count('unused_inputs', sum(
        1 for s in pr.sources if s['op'] == 'input' and
        s['id'] not in pr.needed()))
    c1, c2 = census(p), census(p2)
    rec.count('components', sum(c1.values()))
    if c1 != c2:
        d = {k: (c1[k], c2[k]) for k in set(c1) | set(c2) if c1[k] != c2[k]}
        rec.fail('dead-code', 'components differ when expressions that no '
                 'registered output needs are left out: %s (with, without)'
                 % d)
        return
    # registered outputs exist exactly once
    made = collections.Counter(
        n.rsplit('.', 1)[-1] for n in p.model._outputs
        if not n.startswith('_auto_ivc.'))
    for n, i in pr.outs:
        rec.count('outputs_seen')
        if made[n] != 1:
            rec.fail('output-once', 'registered output %s is produced by %d '
                     'components' % (n, made[n]))
            return
    # nothing evaluated twice
    need = pr.needed()
    bound, dec = 0, set()
    for s in pr.stmts:
        if s['op'] == 'indep':
            bound += 1
        elif s['op'] in ('input', 'pos') or s['id'] not in need:
            pass
        elif s['op'] == 'getitem':
            dec.add(gen.alias_key(pr, s['args'][0]))
        elif s['op'] == 'assign':
            bound += 1
        else:
            bound += solo_cost(pr, s)
    bound += len(dec)
    uses = collections.Counter(a for s in pr.stmts if s['id'] in need
                               for a in set(s['args']))
    rec.count('shared_expressions', sum(
        1 for i, k in uses.items() if k > 1 and
        pr.stmt(i)['op'] not in ('input', 'indep')))
    if sum(c1.values()) > bound:
        rec.fail('evaluated-twice', '%d components for expressions that cost '
                 '%d when each is evaluated once' % (sum(c1.values()),
                                                     bound))
        return
    log = monitor.ExecLog(p)
    build.set_point(p, pr, pr.point(1))
    ev = log.run()
    if len(ev) != sum(c1.values()) or len(set(ev)) != len(ev):
        rec.fail('exec-count', 'components executed %d times, %d exist' % (
            len(ev), sum(c1.values())))
        return
    oracle.check_values(rec, pr, p, pr.point(1))
    rec.sig((pr.signature(), dead))
    rec.show({'dead': dead, 'components': dict(c1)})
