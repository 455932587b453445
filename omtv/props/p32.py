"""Group classes are reusable: every instance computes its own model."""
import numpy as np

from omtv import build, gen, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P32'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('per case one omtools.Group class with options that choose one of '
        'three random programs, a gain and an initial value, and classes '
        'derived from it (another default, inherited setup, setup extended '
        'with super); two to six instances in one model, not promoted, in '
        'an OpenMDAO or an omtools group, connected explicitly, and a second '
        'problem; names of one instance, values and total derivatives '
        'against the reference of the assembled model; distinct = '
        '(program signatures, instances, connections)')
ASSUME = C.POINT_ASSUME
MIN = {'instances': 700, 'same_class_other_options': 110, 'connections': 110,
       'class.base': 200, 'class.defaults': 120, 'class.inherits': 100,
       'class.extends': 100, 'second_problem': 50, 'jacobian_blocks': 1500,
       'nonzero_blocks': 800, 'implicit_instances': 60,
       'own_maxiter': 20}


def cases(tier, seed):
    a = C.seeds(seed, C.sized(tier, 260, 3500), tag=32)
    b = C.seeds(seed, C.sized(tier, 60, 500), tag=321)
    return a + [dict(c, implicit=True) for c in b]


def classes(progs):
    import omtools.api as ot

    class Base(ot.Group):
        def initialize(self):
            self.options.declare('variant', default=0)
            self.options.declare('gain', default=1.5, types=float)
            self.options.declare('start', default=0)

        def setup(self):
            pr = progs[self.options['variant']]
            env = build.emit(self, pr, build.schedule(pr), ot,
                             self.options['start'])
            self.last = env[pr.outs[-1][1]]
            self.register_output('gained', self.options['gain'] * self.last)

    class Defaults(Base):
        def initialize(self):
            super().initialize()
            self.options['gain'] = -2.5
            self.options['variant'] = len(progs) - 1

    class Inherits(Base):
        note = 'nothing else'

        def helper(self):
            return 3

    class Extends(Inherits):
        def setup(self):
            super().setup()
            self.register_output('extra', ot.sin(self.last) + self.helper())
    return {'base': (Base, 1.5, 0), 'defaults': (Defaults, -2.5,
                                                 len(progs) - 1),
            'inherits': (Inherits, 1.5, 0), 'extends': (Extends, 1.5, 0)}


def run(case, rec):
    if case.get('implicit'):
        return run_implicit(case, rec)
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 32)
    progs = []
    for v in range(3):
        for t in range(20):
            pr = gen.generate([case['seed'], v, t], int(rng.integers(1, 6)),
                              groups=GROUPS, k=2, max_size=12)
            if pr.outs and not any(
                    o == 'gained' for o, _ in pr.outs):
                break
        else:
            rec.count('unusable')
            return
        progs.append(pr)
    cl = classes(progs)
    n = int(rng.integers(2, 7))
    inst = []
    free = {}           # full name -> value, at the two points
    conns = []
    shapes = {}
    for i in range(n):
        kind = list(cl)[int(rng.integers(4))]
        cls, gain, variant = cl[kind]
        kw = {}
        if rng.random() < .6:
            kw['variant'] = variant = int(rng.integers(3))
        if rng.random() < .6:
            kw['gain'] = gain = float(np.round(rng.uniform(-3, 3), 2))
        start = 0
        if rng.random() < .5:
            kw['start'] = start = 1
        pr = progs[variant]
        name = 'g%d' % i
        ins = {}
        for s in pr.live_sources():
            q = s['p']['name']
            sh = tuple(s['p']['shape'])
            full = name + '.' + q
            cand = [k for k, w in shapes.items() if w == sh]
            if s['op'] == 'input' and cand and rng.random() < .5:
                src = cand[int(rng.integers(len(cand)))]
                conns.append((src, full))
                ins[q] = src
            else:
                ins[q] = None
                free[full] = [np.array(s['p']['vals'][j]).reshape(sh)
                              for j in (0, 1)]
        for o, k in pr.outs:
            shapes[name + '.' + o] = tuple(pr.shape_of(k))
        shapes[name + '.gained'] = tuple(pr.shape_of(pr.outs[-1][1]))
        inst.append((name, kind, kw, gain, variant, start, ins))

    def evaluate(pt):
        val = {}
        for name, kind, kw, gain, variant, start, ins in inst:
            pr = progs[variant]
            at = {s['p']['name']: np.zeros(s['p']['shape'])
                  for s in pr.sources}
            over = {q: val[src] if src else pt[name + '.' + q]
                    for q, src in ins.items()}
            for s in pr.sources:        # declared but not used
                over.setdefault(s['p']['name'], np.array(
                    s['p']['vals'][0]).reshape(s['p']['shape']))
            with np.errstate(all='ignore'):
                out = pr.outputs(at, over=over)
            last = out[pr.outs[-1][0]]
            for o, v in out.items():
                val[name + '.' + o] = v
            val[name + '.gained'] = gain * last
            if kind == 'extends':
                val[name + '.extra'] = np.sin(last) + 3
        return val
    pts = [{f: v[j] for f, v in free.items()} for j in (0, 1)]
    refs = [evaluate(pt) for pt in pts]
    for r in refs:      # connected values may leave the domains
        for v in r.values():
            if not np.all(np.isfinite(v)) or np.abs(v).max() > 1e4:
                rec.count('outside_domain')
                return
    J = {}
    for f, v in free.items():
        for k in range(v[1].size):
            x = v[1].astype(complex)
            x.flat[k] += 1e-30j
            r = evaluate(dict(pts[1], **{f: x}))
            for o, w in r.items():
                J.setdefault((o, f), np.zeros((w.size, v[1].size)))[:, k] = \
                    np.imag(w).ravel() / 1e-30
    for b in J.values():
        if not np.all(np.isfinite(b)) or np.abs(b).max() > 1e6:
            rec.count('outside_domain')
            return
    parent = ['om', 'ot'][int(rng.integers(2))]

    def make(mode):
        p = om.Problem()
        if parent == 'om':
            g = p.model
            for name, kind, kw, *_ in inst:
                g.add_subsystem(name, cl[kind][0](**kw))
            for a, b in conns:
                g.connect(a, b)
        else:
            class Parent(ot.Group):
                def setup(self):
                    for name, kind, kw, *_ in inst:
                        self.add_subsystem(name, cl[kind][0](**kw))
                    for a, b in conns:
                        self.connect(a, b)
            p.model = Parent()
        p.setup(mode=mode)
        p.final_setup()
        return p
    with target('setup of %d instances' % n):
        ps = [make('fwd' if rng.random() < .5 else 'rev')]
        if rng.random() < .4:
            ps.append(make('rev'))
            rec.count('second_problem')
    label = '; '.join('%s = %s(%s)' % (q[0], q[1], ', '.join(
        '%s=%s' % z for z in q[2].items())) for q in inst) + '; ' + \
        ', '.join('%s -> %s' % c for c in conns)
    # declared values of unconnected inputs before anything is set
    p = ps[0]
    for name, kind, kw, gain, variant, start, ins in inst:
        for q, src in ins.items():
            if src is None:
                with target('reading declared values'):
                    got = np.array(p.get_val(name + '.' + q))
                # (OpenMDAO reports the shape of the component it connects
                # the source to)
                d = oracle.mismatch(got.ravel(), free[name + '.' + q][
                    start].ravel(), 1e-13)
                if d:
                    rec.fail('declared', 'value of %s.%s before running: %s; '
                             '%s' % (name, q, d, label))
                    return
    for j in (0, 1):
        for k, p in enumerate(ps):
            pt, ref = pts[(j + k) % 2], refs[(j + k) % 2]
            with target('set_val'):
                for f, v in pt.items():
                    p.set_val(f, v)
        for k, p in enumerate(ps):
            ref = refs[(j + k) % 2]
            oracle.run_model(p)
            for o, v in ref.items():
                rec.count('outputs_compared')
                with target('reading ' + o):
                    got = np.array(p.get_val(o))
                d = oracle.mismatch(got, v, 1e-8)
                if d:
                    rec.fail('value', '%s: %s; %s' % (o, d, label))
                    return
            if (j + k) % 2 == 0:
                continue
            of = list(ref)
            T = oracle.totals(p, of, list(free)) if free else {}
            for o in of if free else []:
                sc = max(np.abs(J[o, f]).max() for f in free)
                for f in free:
                    rec.count('jacobian_blocks')
                    if np.any(J[o, f]):
                        rec.count('nonzero_blocks')
                    d = oracle.mismatch(np.asarray(T[o][f]), J[o, f], 1e-6,
                                        sc)
                    if d:
                        rec.fail('deriv', 'd %s / d %s: %s; %s' % (
                            o, f, d, label))
                        return
    rec.count('instances', n)
    rec.count('connections', len(conns))
    for q in inst:
        rec.count('class.' + q[1])
    if any(a[1] == b[1] and a[2:] != b[2:] for a in inst for b in inst
           if a[0] < b[0]):
        rec.count('same_class_other_options')
    rec.sig((tuple(p.signature() for p in progs), label))
    rec.show({'instances': label})


def run_implicit(case, rec):
    """The same for a class of implicit components."""
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 33)
    bracket = bool(rng.random() < .5)

    class Base(ot.ImplicitComponent):
        def initialize(self):
            self.options.declare('power', default=3)
            self.options.declare('size', default=2)

        def setup(self):
            g, n = self.group, self.options['size']
            a = g.declare_input('a', shape=(n,), val=np.arange(1., n + 1.))
            x = g.create_implicit_output('x', shape=(n,), val=1.)
            r = x + x**self.options['power'] - a
            if bracket:
                x.define_residual_bracketed(r, x1=0., x2=9.)
            else:
                x.define_residual(r)
                self.nonlinear_solver = om.NewtonSolver(
                    solve_subsystems=False, iprint=-1, maxiter=60,
                    atol=1e-13, rtol=1e-99)
            self.linear_solver = om.DirectSolver()
            self.more(a, x)

        def more(self, a, x):
            pass

    class Inherits(Base):
        def initialize(self):
            super().initialize()
            self.options['power'] = 5

    class Extends(Inherits):
        def setup(self):
            super().setup()
            g = self.group
            b = g.declare_input('b', val=2.)
            z = g.create_implicit_output('z', val=1.)
            if bracket:
                z.define_residual_bracketed(z + z**3 - b, x1=-1., x2=4.)
            else:
                z.define_residual(z + z**3 - b)
    ks = {'base': (Base, 3), 'inherits': (Inherits, 5),
          'extends': (Extends, 5)}
    n = int(rng.integers(2, 5))
    inst = []
    with target('setup of implicit instances'):
        p = om.Problem()
        for i in range(n):
            kind = list(ks)[int(rng.integers(3))]
            cls, pw = ks[kind]
            kw, size = {}, 2
            if rng.random() < .5:
                kw['power'] = pw = [3, 5, 7][int(rng.integers(3))]
            if rng.random() < .5:
                kw['size'] = size = int(rng.integers(1, 5))
            if bracket and rng.random() < .5:
                kw['maxiter'] = int(rng.integers(2, 50))
                rec.count('own_maxiter')
            p.model.add_subsystem('c%d' % i, cls(**kw))
            inst.append(('c%d' % i, kind, pw, size, kw.get('maxiter', 100)))
        p.setup(mode='fwd' if rng.random() < .5 else 'rev')
        p.final_setup()
    label = str(inst)

    def root(a, k):
        x = np.ones(a.shape)
        for _ in range(100):
            x = x - (x + x**k - a) / (1 + k * x**(k - 1))
        return x
    for rep in (0, 1):
        at = {}
        for name, kind, pw, size, iters in inst:
            a = rng.uniform(.5, 4., size=size) if rep else np.arange(
                1., size + 1.)
            if rep:
                with target('set_val'):
                    p.set_val(name + '.a', a)
            at[name] = a
        oracle.run_model(p)
        of = [q[0] + '.x' for q in inst] + [q[0] + '.z' for q in inst
                                            if q[1] == 'extends']
        T = oracle.totals(p, of, [q[0] + '.a' for q in inst])
        for name, kind, pw, size, iters in inst:
            rec.count('implicit_instances')
            rec.count('class.' + kind)
            x = root(at[name], pw)
            with target('reading implicit outputs'):
                tol = 1e-8 + 9. * .5**iters / max(1., np.abs(x).max())
                d = oracle.mismatch(np.array(p.get_val(name + '.x')), x,
                                    tol)
                if d is None and kind == 'extends':
                    d = oracle.mismatch(np.array(p.get_val(name + '.z')),
                                        root(np.array([2.]), 3),
                                        1e-8 + 9. * .5**iters)
            if d:
                rec.fail('implicit', 'outputs of %s: %s; %s' % (name, d,
                                                                label))
                return
            for o in of if iters > 30 else []:
                ref = np.zeros(np.shape(T[o][name + '.a']))
                if o == name + '.x':
                    ref = np.diag(1 / (1 + pw * x**(pw - 1)))
                d = oracle.mismatch(np.asarray(T[o][name + '.a']), ref, 1e-6)
                if d:
                    rec.fail('implicit-deriv', 'd %s / d %s.a: %s; %s' % (
                        o, name, d, label))
                    return
    rec.sig((bracket, label))
    rec.show({'instances': label})
