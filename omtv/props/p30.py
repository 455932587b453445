"""Subsystems keep their names, and exactly what is asked for is promoted."""
import numpy as np

from omtv import gen, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P30'
RULE = ('one model per case with one to four subsystems of different kinds '
        '(groups and components of either package, subclasses and prepared '
        'objects) with random promotions (none, all, lists, patterns, '
        'renaming, inputs only, outputs only) at one or two levels; the set '
        'of names every variable of a subsystem has, and the values that '
        'flow through these names, are compared with an independent model of '
        'promotion; distinct = (kinds, promotions, levels)')
ASSUME = ['components are always given an explicit promotion']
KINDS = ['om', 'ot', 'exec', 'pre', 'implicit']
MIN = {'kind.' + k: 80 for k in KINDS}
MIN.update({'names_checked': 3000, 'promoted': 1000, 'unpromoted': 800,
            'renamed': 200, 'values_checked': 2000, 'two_levels': 80,
            'connected': 300, 'default_used': 300, 'pattern': 80,
            'nothing_listed': 20})
IN, OUT = ('a', 'bb'), ('u', 'vv')
DEF = {'a': .3, 'bb': -.4}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 500, 8000), tag=30)


def compute(a, b):
    return {'u': 2 * a + b, 'vv': a - 3 * b}


def fill(g):
    x = g.declare_input('a', shape=(2,), val=DEF['a'])
    y = g.declare_input('bb', shape=(2,), val=DEF['bb'])
    g.register_output('u', 2. * x + y)
    g.register_output('vv', x - 3. * y)


def make(kind):
    import omtools.api as ot
    import openmdao.api as om

    def ex():
        return om.ExecComp(['u=2*a+bb', 'vv=a-3*bb'],
                           a=np.full(2, DEF['a']), bb=np.full(2, DEF['bb']),
                           u=np.ones(2), vv=np.ones(2))
    if kind == 'exec':
        return ex()
    if kind == 'om':
        w = om.Group()
        w.add_subsystem('c', ex(), promotes=['*'])
        return w
    if kind == 'pre':
        g = ot.Group()
        fill(g)
        return g
    if kind == 'ot':
        class S(ot.Group):
            def setup(self):
                fill(self)
        return S()

    class I(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            x = g.declare_input('a', shape=(2,), val=DEF['a'])
            y = g.declare_input('bb', shape=(2,), val=DEF['bb'])
            u = g.create_implicit_output('u', shape=(2,))
            v = g.create_implicit_output('vv', shape=(2,))
            u.define_residual(u - 2. * x - y)
            v.define_residual(v - x + 3. * y)
    c = I()
    c.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, iprint=-1)
    c.linear_solver = om.DirectSolver()
    return c


def promotion(rng, k, ins, outs, must):
    """Random keyword arguments and the resulting names {var: name}.
    ins/outs: names a variable may get without renaming."""
    kw, names = {}, {}

    def entries(vs, plain):
        lst = []
        for v in vs:
            r = rng.random()
            if r < .3:
                continue
            if v in plain and r < .7:
                if rng.random() < .3:
                    lst.append(v[0] + '*')
                    names[v] = v
                else:
                    lst.append(v)
                    names[v] = v
            else:
                new = 'r%d%s' % (k, v)
                lst.append((v, new))
                names[v] = new
        return lst
    if rng.random() < .08:
        return {['promotes', 'promotes_inputs', 'promotes_outputs'][
            int(rng.integers(3))]: []}, {}
    r = rng.random()
    if r < .15 and set(OUT) <= set(outs):
        kw['promotes'] = ['*']
        names = {v: v for v in IN + OUT}
    elif r < .5:
        kw['promotes'] = entries(IN + OUT, ins + outs)
    else:
        if rng.random() < .8:
            kw['promotes_inputs'] = entries(IN, ins)
        if rng.random() < .8:
            kw['promotes_outputs'] = entries(OUT, outs)
        if rng.random() < .3:       # everything of one sort
            names = {v: n for v, n in names.items() if v not in IN}
            names.update({v: v for v in IN})
            kw['promotes_inputs'] = ['*']
        if rng.random() < .4 and set(OUT) <= set(outs):
            names = {v: n for v, n in names.items() if v not in OUT}
            names.update({v: v for v in OUT})
            kw['promotes_outputs'] = ['*']
    kw = {n: v for n, v in kw.items() if v or rng.random() < .5}
    if not kw and must:
        kw = {'promotes_outputs': [('u', 'r%du' % k)]}
        names = {'u': 'r%du' % k}
    return kw, names


def run(case, rec):
    import omtools.api as ot
    import openmdao.api as om
    rng = gen.rng_of(case['seed'], 30)
    n = int(rng.integers(1, 5))
    regs = [v for v in IN if rng.random() < .6]
    x = rng.uniform(-1, 1, size=2)
    taken, plan = set(), []
    for k in range(n):
        kind = KINDS[int(rng.integers(len(KINDS)))]
        kw, names = promotion(
            rng, k, list(IN), [o for o in OUT if o not in taken],
            must=kind in ('exec', 'implicit'))
        for o in OUT:
            if names.get(o) == o:
                taken.add(o)
        plan.append(('s%d' % k, kind, kw, names))
    # second level: the whole group inside another one
    two = bool(rng.random() < .4)
    upper = None
    if two:
        tops = sorted(set(v for p in plan for v in p[3].values()) |
                      set(regs) | ({'x'} if regs else set()))
        upper = {v: v for v in tops if rng.random() < .6}
        if rng.random() < .3:
            upper = {v: v for v in tops}
        for v in list(upper):
            if rng.random() < .3:
                upper[v] = 'top_' + v
        upkw = {'promotes': [v if v == w else (v, w)
                             for v, w in upper.items()]} if upper else {}
    downs = {}

    class G(ot.Group):
        def setup(self):
            z = self.declare_input('x', shape=(2,), val=x)
            if 'a' in regs:
                self.register_output('a', ot.tanh(z))
            if 'bb' in regs:
                self.register_output('bb', z * 2.)
            for name, kind, kw, names in plan:
                self.add_subsystem(name, make(kind), **kw)
            for name, kind, kw, names in plan:
                for o in OUT:
                    if o in names:
                        e = self.declare_input(names[o], shape=(2,))
                        d = 'd_%s_%s' % (name, o)
                        self.register_output(d, ot.sin(e))
                        downs[d] = (name, o)

    class T(ot.Group):
        def setup(self):
            self.add_subsystem('inner', G(), **upkw)
    p = om.Problem()
    with target('setup'):
        p.model.add_subsystem('m', T() if two else G(), promotes=['*'])
        p.setup()
        p.run_model()
        meta = p.model.get_io_metadata(metadata_keys=['val'])
    label = '%s%s' % ([q[1:3] for q in plan],
                      ' inside a group promoting %s' % upper if two else '')
    # ------------------------------------------------------------ the model
    pre = 'm.inner.' if two else 'm.'
    src = {'a': np.tanh(x), 'bb': 2 * x}
    val = {}
    for name, kind, kw, names in plan:
        ins = {}
        for v in IN:
            fed = v in regs and names.get(v) == v
            ins[v] = src[v] if fed else np.full(2, DEF[v])
            rec.count('connected' if fed else 'default_used')
        val[name] = dict(ins, **compute(ins['a'], ins['bb']))

    def outer(local, dotted):
        """Name seen from the top of a name inside group G."""
        if not two:
            return local
        if local in upper:
            return upper[local]
        return 'inner.' + local
    for name, kind, kw, names in plan:
        rec.count('kind.' + kind)
        if kw and not any(kw.values()):
            rec.count('nothing_listed')
        if any('*' in str(v) for w in kw.values() for v in w):
            rec.count('pattern')
        for v in IN + OUT:
            pro = names.get(v)
            exp = outer(pro if pro else name + '.' + v, not pro)
            rec.count('promoted' if pro else 'unpromoted')
            if pro and pro != v:
                rec.count('renamed')
            # variables of the subsystem of that name
            mine = [(a, m) for a, m in meta.items()
                    if a.startswith(pre + name + '.') and
                    a.rsplit('.', 1)[1] == v]
            rec.count('names_checked')
            if not mine:
                rec.fail('missing', 'no variable %s in subsystem %s: %s' % (
                    v, name, label))
                return
            got = {m['prom_name'] for a, m in mine}
            if got != {exp}:
                rec.fail('name:' + kind, 'variable %s of subsystem %s is '
                         'called %s, expected %s: %s' % (
                             v, name, sorted(got), exp, label))
                return
            with target('reading %s' % exp):
                g = np.array(p.get_val(
                    exp if v in OUT or not pro else
                    mine[0][0]))
            rec.count('values_checked')
            d = oracle.mismatch(g, val[name][v], 1e-8)
            if d:
                rec.fail('value:' + kind, '%s of subsystem %s (%s): %s; %s' %
                         (v, name, exp, d, label))
                return
    for dn, (name, o) in downs.items():
        with target('reading ' + dn):
            g = np.array(p.get_val(outer(dn, False)))
        rec.count('values_checked')
        d = oracle.mismatch(g, np.sin(val[name][o]), 1e-8)
        if d:
            rec.fail('downstream:' + o, '%s = sin of %s of subsystem %s: %s; '
                     '%s' % (dn, o, name, d, label))
            return
    if two:
        rec.count('two_levels')
    rec.sig(label)
    rec.show({'subsystems': label})
