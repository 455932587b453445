"""Turn a program into a model written with the omtools public API."""
import numpy as np

from omtv import ops as O
from omtv.core import target


def schedule(prog, rng=None, shuffle_reg=False):
    """List of actions: ('s', stmt) and ('r', name, id).  Statement order is a
    random topological order when rng is given; registrations happen at a
    random legal time and in random relative order when shuffle_reg."""
    stmts = list(prog.stmts)
    if rng is not None:
        done, out, rest = set(), [], list(stmts)
        while rest:
            ready = [s for s in rest if all(a in done for a in s['args'])]
            s = ready[rng.integers(len(ready))]
            rest.remove(s)
            done.add(s['id'])
            out.append(s)
        stmts = out
    acts = [('s', s) for s in stmts]
    outs = list(prog.outs)
    if shuffle_reg and rng is not None:
        outs = [outs[i] for i in rng.permutation(len(outs))]
        for n, i in outs:
            lo = next(k for k, a in enumerate(acts)
                      if a[0] == 's' and a[1]['id'] == i)
            pos = int(rng.integers(lo + 1, len(acts) + 1))
            acts.insert(pos, ('r', n, i))
    else:
        acts += [('r', n, i) for n, i in outs]
    return acts


def emit(self, prog, acts, ot, defaults=0, env=None, arrays=None,
         redeclare=None):
    """Run the actions inside an omtools Group.setup; redeclare: seed of the
    choice of inputs to declare anew when they are used."""
    env = {} if env is None else env
    again = None if redeclare is None else np.random.default_rng(redeclare)

    def declare(s):
        p = s['p']
        v = np.array(p['vals'][defaults], dtype=float).reshape(p['shape'])
        if arrays is not None:
            v = arrays.setdefault(('default', s['id']), v)
        f = self.declare_input if s['op'] == 'input' else \
            self.create_indep_var
        return f(p['name'], shape=tuple(p['shape']), val=v)

    def arg(x):
        if again is not None and prog.stmt(x)['op'] == 'input' and \
                again.random() < .5:
            env[x] = declare(prog.stmt(x))
        return env[x]
    for a in acts:
        if a[0] == 's':
            s = a[1]
            if s['op'] in ('input', 'indep'):
                env[s['id']] = declare(s)
            elif s['op'] == 'assign':
                p = s['p']
                y = self.create_output(p['name'], shape=tuple(p['shape']))
                for x, k in zip(s['args'], p['keys']):
                    y[O.to_key(k['key'], k['bare'])] = arg(x)
                env[s['id']] = y
            else:
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [arg(x) for x in s['args']], s['p'])
        elif prog.stmt(a[2])['op'] != 'assign':
            self.register_output(a[1], env[a[2]])
    return env


def group_class(prog, acts=None, defaults=0, post=None, reverse=None,
                arrays=None, redeclare=None):
    """An omtools.Group subclass computing prog."""
    import omtools.api as ot
    acts = schedule(prog) if acts is None else acts

    class Model(ot.Group):
        def setup(self):
            if reverse is not None:
                self.reverse_branch_sorting = reverse
            emit(self, prog, acts, ot, defaults, arrays=arrays,
                 redeclare=redeclare)
            if post:
                post(self)
    return Model


def problem(prog, acts=None, outer='auto', mode='auto', defaults=0,
            pre=None, setup_kw=None, **kw):
    """A set-up Problem around prog.  outer: 'self' (the omtools group is the
    model), 'auto' (plain omtools group, inputs fed by auto-IVC inside an
    OpenMDAO group), 'ivc' (inputs fed by an IndepVarComp)."""
    import openmdao.api as om
    G = group_class(prog, acts, defaults, **kw)
    p = om.Problem()
    with target('setup'):
        if outer == 'self':
            p.model = G()
        else:
            p.model = om.Group()
            if outer == 'ivc':
                c = om.IndepVarComp()
                live = [s for s in prog.live_sources() if s['op'] == 'input']
                for s in live:
                    c.add_output(s['p']['name'],
                                 shape=tuple(s['p']['shape']))
                if live:
                    p.model.add_subsystem('ivc', c, promotes=['*'])
            p.model.add_subsystem('m', G(), promotes=['*'])
        if pre:
            pre(p)
        p.setup(mode=mode, **(setup_kw or {}))
        p.final_setup()
    return p


def set_point(p, prog, pt, only=None):
    with target('set_val'):
        for s in prog.live_sources():
            n = s['p']['name']
            if only is not None and n not in only:
                continue
            p.set_val(n, pt[n])
