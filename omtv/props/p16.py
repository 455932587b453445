"""Independent variables: always present, first, with their values."""
import numpy as np

from omtv import build, gen, monitor, nest, oracle, perturb
from omtv.core import target
from omtv.props import common as C
from omtv.props import p15

PID = 'P16'
GROUPS = ['operator', 'elementwise', 'shape', 'index', 'reduction',
          'assign']
RULE = ('one random model per case, flat or with subsystems, in which '
        'independent variables are created at arbitrary places (before, '
        'between and after expressions and subsystems), used or unused; the '
        'event log of a pass shows them before every other component of the '
        'same group, their initial value is the declared one and exactly the '
        'flagged ones are design variables; and groups that consist of '
        'independent variables only, or of those and one reader; '
        'distinct = (program signature, '
        'tree, flags)')
ASSUME = []
MIN = {'indeps': 900, 'unused': 150, 'flagged': 150, 'not_flagged': 300,
       'order_checks': 2000, 'with_subsystems': 100, 'late': 100,
       'lone': 40, 'lone_none': 10, 'lone_om': 10, 'lone_ot': 10,
       'lone_expr': 10,
       **{'value.' + k: 50 for k in C.VALUE_KINDS + ['default']}}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 700, 9000), tag=16) + [
        dict(c, lone=True)
        for c in C.seeds(seed, C.sized(tier, 120, 1200), tag=161)]


def run_lone(case, rec):
    """A group of independent variables with at most one reader."""
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 162)
    n = int(rng.integers(1, 5))
    plan = []
    for k in range(n):
        sh = [(1,), (2,), (2, 3)][int(rng.integers(3))]
        plan.append(('v%d' % k, sh, rng.uniform(-1, 1, size=sh),
                     bool(rng.random() < .6)))
    reader = ['none', 'om', 'ot', 'expr'][int(rng.integers(4))]
    reads = plan[int(rng.integers(n))]

    def child():
        class S(ot.Group):
            def setup(self):
                x = self.declare_input(reads[0], shape=reads[1])
                self.register_output('w', 2. * x)
        return S()

    class G(ot.Group):
        def setup(self):
            vs = {}
            for nm, sh, v, dv in plan:
                vs[nm] = self.create_indep_var(nm, shape=sh, val=v, dv=dv)
            if reader == 'om':
                self.add_subsystem('c', om.ExecComp(
                    'w=2*' + reads[0], shape=reads[1]), promotes=['*'])
            elif reader == 'ot':
                self.add_subsystem('c', child(), promotes=['*'])
            elif reader == 'expr':
                self.register_output('w', 2. * vs[reads[0]])
    outer = bool(rng.random() < .5)
    with perturb.node_order(rng), target('setup'):
        p = om.Problem()
        if outer:
            p.model.add_subsystem('m', G(), promotes=['*'])
            p.model.add_subsystem('after', om.ExecComp(
                'u=3*' + reads[0], shape=reads[1]), promotes=['*'])
        else:
            p.model = G()
        p.setup()
        p.run_model()
        dvs = {(v.get('name') or k).rsplit('.', 1)[-1] for k, v in
               p.model.get_design_vars(use_prom_ivc=True).items()}
    want = {q[0] for q in plan if q[3]}
    label = '%s of %s, reader: %s' % (sorted(want), [q[0] for q in plan],
                                      reader)
    if dvs != want:
        rec.fail('indep-dv', 'flagged %s; design variables are %s' %
                 (label, sorted(dvs)))
        return
    for nm, sh, v, dv in plan:
        with target('reading independent variable'):
            got = np.array(p.get_val(nm))
        if got.shape != sh or not np.array_equal(got, v):
            rec.fail('indep-value', 'independent variable %s is %s, declared '
                     '%s (%s)' % (nm, got, v, label))
            return
    for nm, f in [('w', 2.)] * (reader != 'none') + [('u', 3.)] * outer:
        with target('reading output'):
            got = np.array(p.get_val(nm))
        if not np.allclose(got, f * reads[2], rtol=1e-12):
            rec.fail('indep-read', '%s = %g %s is %s at %s (%s)' % (
                nm, f, reads[0], got, reads[2], label))
            return
    rec.count('lone')
    rec.count('lone_' + reader)
    rec.sig(('lone', reader, outer, [(q[1], q[3]) for q in plan]))


def run(case, rec):
    if case.get('lone'):
        return run_lone(case, rec)
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 16)
    pr = gen.generate([case['seed']], int(rng.integers(2, 14)),
                      groups=GROUPS, n_src=int(rng.integers(3, 7)),
                      p_indep=.7,
                      exclude=('pos', 'div', 'c_div', 'pow_c'))
    if not pr.outs or not nest.usable(pr):
        rec.count('unusable')
        return
    used = {a for s in pr.stmts for a in s['args']}
    info = {}
    for s in pr.sources:
        if s['op'] == 'indep':
            dv = bool(rng.random() < .4)
            kw, v, kind = C.spell_value(rng, s['p']['vals'][0],
                                        s['p']['shape'])
            if rng.random() < .1:
                kind, v = 'default', np.ones(s['p']['shape'])
                kw = {'shape': tuple(s['p']['shape'])}
            info[s['id']] = (dv, v, kw, kind)
    # statements with the independent variables moved to random places
    acts = build.schedule(pr, rng, shuffle_reg=True)
    nsub = int(rng.integers(0, 3)) if rng.random() < .6 else 0
    for k in range(nsub):
        acts.insert(int(rng.integers(0, len(acts) + 1)), ('g', k))
    outer = ['auto', 'self'][int(rng.integers(2))]
    late = []

    def declare(self, s):
        dv, v, kw, kind = info[s['id']]
        kw = dict(kw)
        if dv or rng.random() < .3:
            kw['dv'] = dv
        return self.create_indep_var(s['p']['name'], **kw)

    class G(ot.Group):
        def setup(self):
            env, reg, sub = {}, [], False
            for a in acts:
                if a[0] == 'g':
                    sub = True
                    # consumes something registered before, computes a value
                    # that nothing else needs
                    src = reg[int(rng.integers(len(reg)))] if reg else None
                    with self.create_group('g%d' % a[1]) as g:
                        d = g.create_indep_var('e%d' % a[1], val=3.)
                        if src is None:
                            g.register_output('z%d' % a[1], d * 2.)
                        else:
                            x = g.declare_input(
                                src[0], shape=tuple(pr.shape_of(src[1])))
                            g.register_output('z%d' % a[1], ot.sum(x) * d)
                elif a[0] == 's' and a[1]['op'] == 'indep':
                    env[a[1]['id']] = declare(self, a[1])
                    if sub:
                        late.append(a[1]['id'])
                    reg.append((a[1]['p']['name'], a[1]['id']))
                else:
                    build.emit(self, pr, [a], ot, 0, env)
                    if a[0] == 'r' and pr.stmt(a[2])['op'] != 'assign':
                        reg.append((a[1], a[2]))
    with perturb.node_order(rng), target('setup'):
        p = om.Problem()
        if outer == 'self':
            p.model = G()
        else:
            p.model.add_subsystem('m', G(), promotes=['*'])
        p.setup()
        p.final_setup()
        dvs = set(v['name'] if 'name' in v else k for k, v in
                  p.model.get_design_vars(use_prom_ivc=True).items())
        dvs = {d.rsplit('.', 1)[-1] for d in dvs}
    # present, with the declared value, before and after a pass
    for stage in ('after setup', 'after a pass'):
        for s in pr.sources:
            if s['op'] != 'indep':
                continue
            dv, v, kw, kind = info[s['id']]
            nm, sh = s['p']['name'], tuple(s['p']['shape'])
            want = v
            with target('reading independent variable'):
                got = np.array(p.get_val(nm))
            rec.count('indeps')
            if got.shape != sh or not np.array_equal(got, want):
                rec.fail('indep-value', 'independent variable %s is %s %s, '
                         'declared %s' % (nm, got, stage, want))
                return
            if (nm in dvs) != dv:
                rec.fail('indep-dv', 'independent variable %s, dv=%s, design '
                         'variables are %s' % (nm, dv, sorted(dvs)))
                return
            rec.count('flagged' if dv else 'not_flagged')
            if s['id'] not in used:
                rec.count('unused')
            rec.count('value.' + kind)
        if stage == 'after setup':
            log = monitor.ExecLog(p)
            ev = log.run()
    extra = dvs - {s['p']['name'] for s in pr.sources}
    if extra:
        rec.fail('indep-dv', 'unexpected design variables %s' % extra)
        return
    # first within their own group
    pos = {c: k for k, c in enumerate(ev)}
    comp = {n.rsplit('.', 1)[1]: n.rsplit('.', 1)[0]
            for n in p.model._outputs}
    isindep = {s['p']['name'] for s in pr.sources if s['op'] == 'indep'}
    first = [pos[comp[n]] for n in isindep]
    others = [k for c, k in pos.items()
              if c not in {comp[n] for n in isindep} and
              c != '_auto_ivc']
    if first and others:
        rec.count('order_checks', len(first) * len(others))
        if max(first) > min(others):
            rec.fail('indep-order', 'independent variable executes after %s' %
                     ev[min(others)], events=ev)
            return
    for k in range(nsub):
        if pos[comp['e%d' % k]] > pos[comp['z%d' % k]]:
            rec.fail('indep-order', 'independent variable of a subsystem '
                     'executes after another component', events=ev)
            return
    if nsub:
        rec.count('with_subsystems')
    if late:
        rec.count('late', len(late))
    rec.sig((pr.signature(), nsub, [(i[0], i[3]) for i in info.values()]))
    rec.show({'events': ev[:8], 'dvs': sorted(dvs)})
