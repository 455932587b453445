"""Subsystems: execution order and data flow across subsystem boundaries."""
import numpy as np

from omtv import build, gen, monitor, nest, oracle, perturb
from omtv.core import target
from omtv.props import common as C
from omtv.props import p15

PID = 'P14'
GROUPS = ['operator', 'elementwise', 'index', 'shape', 'reduction',
          'assign']
RULE = ('one random model per case distributed over a random tree of '
        'subsystems, or written around subsystems that are read through '
        'explicit connections; the event log of component executions is checked '
        'against the connection graph: every producer of a value, inside or '
        'outside of a subsystem, runs before its consumers, every component '
        'once per pass, a second pass changes nothing and every name '
        'produced somewhere is connected to the inputs of that name; '
        'distinct = (program signature, tree, order of component kinds)')
ASSUME = ['the connection graph reported by OpenMDAO after setup is trusted']
MIN = {'inputs_declared_again': 60, 'outputs_defined': 60,
       'exec_events': 5000, 'edges_checked': 4000, 'cross_edges': 1500,
       'linked.none': 150, 'linked.out': 80, 'linked.in': 80,
       'linked_models': 120, 'linked_values': 1200,
       'subsystems': 800, 'second_pass_identical': 300}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 700, 9000), tag=14)


FN = [(lambda ot, a: ot.sin(a), np.sin),
      (lambda ot, a: ot.cos(a) * 2., lambda a: np.cos(a) * 2.),
      (lambda ot, a: ot.exp(a * .1), lambda a: np.exp(a * .1)),
      (lambda ot, a: a * a * .1 + 1., lambda a: a * a * .1 + 1.),
      (lambda ot, a: ot.tanh(a), np.tanh),
      (lambda ot, a: a - .5, lambda a: a - .5)]


def linked(case, rec):
    """Subsystems that promote some or none of their variables, between
    expressions that read them through explicit connections."""
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 1414)
    ref = {'d0': rng.uniform(-1, 1, 2), 'd1': rng.uniform(-1, 1, 2)}
    steps, ready, pending = [], ['d0', 'd1'], []
    nsub = nexp = 0
    for _ in range(int(rng.integers(4, 16))):
        if nsub and rng.random() < .6 or nsub > 5:
            # an expression of one or two values, some of a subsystem
            a = [(ready + pending)[int(rng.integers(len(ready + pending)))]
                 for _ in range(2)]
            if pending and rng.random() < .5:
                a[0] = pending[-1 - int(rng.integers(min(2, len(pending))))]
            f = [int(q) for q in rng.integers(len(FN), size=rng.integers(1, 5))]
            n = 'e%d' % nexp
            nexp += 1
            v = ref[a[0]]
            for q in f:
                v = FN[q][1](v)
            ref[n] = v + ref[a[1]]
            steps.append(('e', n, a, f))
            ready.append(n)
        else:
            n = 's%d' % nsub
            nsub += 1
            m = int(rng.integers(1, 3))
            a = [(ready + pending)[int(rng.integers(len(ready + pending)))]
                 for _ in range(m)]
            f = int(rng.integers(len(FN)))
            r = rng.random()
            prom = None if r < .5 else 'out' if r < .75 else 'in'
            kind = ['ot', 'pre', 'om', 'exec'][int(rng.integers(4))]
            if kind == 'exec' and prom is None:
                prom = 'out'
            if kind == 'exec':
                f = 0
            ref[n + '.o'] = FN[f][1](sum(ref[q] for q in a)) * .5
            steps.append(('s', n, a, f, prom, kind))
            pending.append(n + '.o')

    def subsystem(n, m, f, kind):
        ins = ['%si%d' % (n, k) for k in range(m)]

        def fill(g):
            z = [g.declare_input(i, shape=(2,)) for i in ins]
            t = z[0]
            for q in z[1:]:
                t = t + q
            g.register_output(n + 'o', FN[f][0](ot, t) * .5)
        if kind == 'exec':
            return om.ExecComp('%so=sin(%s)*.5' % (n, '+'.join(ins)),
                               shape=(2,)), ins
        if kind == 'pre':
            g = ot.Group()
            fill(g)
            return g, ins

        class S(ot.Group):
            def setup(self):
                fill(self)
        c = S()
        if kind == 'om':
            w = om.Group()
            w.add_subsystem('c', c, promotes=['*'])
            c = w
        return c, ins

    early = bool(rng.random() < .5)

    class Top(ot.Group):
        def setup(self):
            env, read, reg, src = {}, {}, set(), {}
            for d in ('d0', 'd1'):
                env[d] = self.create_indep_var(d, shape=(2,), val=ref[d])
                reg.add(d)
                src[d] = d

            def get(q):
                # a value of a subsystem is read by another name
                if q not in env:
                    nm = 'r' + q.replace('.', '')
                    env[q] = self.declare_input(nm, shape=(2,))
                    links.append((src[q], nm))
                return env[q]
            links = []
            for st in steps:
                if st[0] == 'e':
                    _, n, a, f = st
                    v = get(a[0])
                    for q in f:
                        v = FN[q][0](ot, v)
                    env[n] = v + get(a[1])
                    src[n] = n
                    if early:
                        self.register_output(n, env[n])
                        reg.add(n)
                    continue
                _, n, a, f, prom, kind = st
                for q in a:
                    if q not in reg and '.' not in q:
                        self.register_output(q, env[q])
                        reg.add(q)
                c, ins = subsystem(n, len(a), f, kind)
                kw = {None: {}, 'out': {'promotes_outputs': [n + 'o']},
                      'in': {'promotes_inputs': ins}}[prom]
                self.add_subsystem(n, c, **kw)
                rec.count('linked.%s' % (prom or 'none'))
                src[n + '.o'] = n + 'o' if prom == 'out' else \
                    '%s.%so' % (n, n)
                for q, i in zip(a, ins):
                    links.append((src[q], i if prom == 'in' else
                                  '%s.%s' % (n, i)))
            for n in list(env):
                if n[0] == 'e' and n not in reg:
                    self.register_output(n, env[n])
            for a, b in links:
                self.connect(a, b)
            where.update(src)
    where = {}
    p = om.Problem()
    with perturb.node_order(rng), target('setup'):
        p.model = Top()
        p.setup()
        p.final_setup()
    log = monitor.ExecLog(p)
    ev = log.run()
    if not monitor.check_order(rec, p, ev, 'with explicit connections: '):
        return
    rec.count('linked_models')
    for n in ref:
        if n in where:
            got = np.array(p[where[n]])
            rec.count('linked_values')
            if not np.allclose(got, ref[n], rtol=1e-9, atol=1e-11):
                rec.fail('linked', '%s is %s after one pass, expected %s' % (
                    where[n], got, ref[n]), steps=steps)
                return
    rec.sig(('linked', str(steps)))


def run(case, rec):
    if case['seed'] % 5 == 2:
        linked(case, rec)
        return
    g = p15.make(case, GROUPS, max_ops=22, p_sub=.6, rec=rec)
    if g is None:
        rec.count('unusable')
        return
    pr, tree, n, rng = g
    with perturb.node_order(rng):
        p = nest.problem(pr, tree, case['seed'],
                         outer=bool(rng.random() < .6))
    log = monitor.ExecLog(p)
    build.set_point(p, pr, pr.point(0))
    ev = log.run()
    rec.count('subsystems', n)
    rec.count('inputs_declared_again', p.omtv_again)
    rec.count('outputs_defined', p.omtv_defined)
    if not monitor.check_order(rec, p, ev):
        return
    for s, t, sv, tv in monitor.connections(p):
        if s.rsplit('.', 1)[0] != t.rsplit('.', 1)[0]:
            rec.count('cross_edges')
    # names produced in the model are never fed from outside
    made = {nm.rsplit('.', 1)[-1] for nm in p.model._outputs
            if not nm.startswith('_auto_ivc.')}
    for tgt in monitor.auto_fed(p):
        v = tgt.rsplit('.', 1)[-1]
        if v in made:
            rec.fail('unconnected', 'input %s is not connected to the '
                     'output %s that the model computes' % (tgt, v))
            return
    if not oracle.check_values(rec, pr, p, pr.point(0), mech='one-pass'):
        return
    build.set_point(p, pr, pr.point(1))
    log.run()
    if not oracle.check_values(rec, pr, p, pr.point(1), mech='one-pass'):
        return
    a = {k: np.array(p.model._outputs[k]) for k in p.model._outputs}
    log.run()
    for k in a:
        if not np.array_equal(a[k], p.model._outputs[k], equal_nan=True):
            rec.fail('second-pass', 'output %s changes in a second pass' % k)
            return
    rec.count('second_pass_identical')
    cls = {c.pathname: type(c).__name__ for c in monitor.components(p)}
    rec.sig((pr.signature(), str(p15.shape(tree)), [cls[e] for e in ev]))
    rec.show({'tree': p15.shape(tree), 'events': ev[:10]})
