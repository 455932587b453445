"""Distribute a program over a tree of subsystems that exchange values through
promoted outputs and declared inputs."""
import copy

import numpy as np

from omtv import gen
from omtv import ops as O
from omtv.core import target

KINDS = ['ot', 'ctx', 'om', 'pre', 'post']


def usable(prog):
    """No two statements denote the same expression object."""
    ks = [gen.alias_key(prog, s['id']) for s in prog.stmts]
    return len(set(ks)) == len(ks) and all(
        s['op'] != 'pos' for s in prog.stmts)


def plan(prog, rng, depth=2, kinds=KINDS, p_sub=0.5):
    """Tree: list of ('s', stmt) / ('sub', name, kind, tree)."""
    ctr = [0]

    def split(stmts, d):
        out, i = [], 0
        while i < len(stmts):
            n = int(rng.integers(1, 6))
            blk = stmts[i:i + n]
            i += n
            if d > 0 and rng.random() < p_sub and any(
                    s['op'] != 'input' for s in blk):
                ctr[0] += 1
                name = 'g%d' % ctr[0]
                kind = kinds[int(rng.integers(len(kinds)))]
                out.append(('sub', name, kind, split(blk, d - 1)))
            else:
                out += [('s', s) for s in blk]
        return out
    return split(list(prog.stmts), depth), ctr[0]


def members(tree):
    ids = set()
    for t in tree:
        if t[0] == 's':
            ids.add(t[1]['id'])
        else:
            ids |= members(t[3])
    return ids


class Emit:
    def __init__(self, prog, rng, defaults=0, prereg=False, dv=()):
        import omtools.api as ot
        import openmdao.api as om
        self.ot, self.om = ot, om
        self.prog, self.rng, self.defaults = prog, rng, defaults
        self.dv = dv
        self.deferred = 0
        # values from outside can be declared again where they are used
        self.rng2 = gen.rng_of(int(copy.deepcopy(rng).integers(2 ** 31)), 79)
        self.again = self.rng2.random() < .25
        # values can be given to an output that was created
        # (the same ones each time the model is set up)
        define = self.rng2.random() < .25
        self.define = {q['id'] for q in prog.stmts
                       if self.rng2.random() < .4 and define}
        self.redeclared = self.defined = 0
        self.m = {s['id']: s for s in prog.stmts}
        self.outn = {i: n for n, i in prog.outs}
        self.uses = {}
        for s in prog.stmts:
            for a in s['args']:
                self.uses.setdefault(a, set()).add(s['id'])
        self.live = prog.needed()

    def name(self, i):
        s = self.m[i]
        if s['op'] in ('input', 'indep', 'assign'):
            return s['p']['name']
        return self.outn.get(i, 'v%d' % i)

    def group(self, g, tree):
        """Write tree inside group g."""
        env, reg, late, declared = {}, set(), [], set()
        mine = members(tree)
        local = {t[1]['id'] for t in tree if t[0] == 's'}

        def get(i):
            again = i in env and i in declared and self.again and \
                self.rng2.random() < .4
            if again:
                self.redeclared += 1
            if i not in env or again:
                declared.add(i)
                s = self.m[i]
                if s['op'] in ('input', 'indep'):
                    v = np.array(s['p']['vals'][self.defaults],
                                 dtype=float).reshape(s['p']['shape'])
                    env[i] = g.declare_input(self.name(i),
                                             shape=tuple(s['p']['shape']),
                                             val=v)
                else:
                    env[i] = g.declare_input(
                        self.name(i), shape=tuple(self.prog.shape_of(i)))
            return env[i]

        def register(force):
            todo = [i for i in local if i in env and i not in reg and
                    self.m[i]['op'] not in ('input', 'indep', 'assign')]
            for i in todo:
                crossing = self.uses.get(i, set()) - local
                if crossing and force or i in self.outn and (
                        force is None or self.rng.random() < .4) or \
                        crossing and force is None:
                    if i in self.define:
                        y = g.create_output(
                            self.name(i), shape=tuple(self.prog.shape_of(i)))
                        y.define(env[i])
                        env[i] = y
                        self.defined += 1
                    else:
                        g.register_output(self.name(i), env[i])
                    reg.add(i)

        # values from outside may be declared at the top, before subsystems
        for t in tree:
            if t[0] == 's':
                for a in t[1]['args']:
                    if a not in mine and self.rng.random() < .3 or \
                            self.m[a]['op'] == 'input' and \
                            self.rng.random() < .2:
                        get(a)
        for j, t in enumerate(tree):
            if t[0] == 's':
                s = t[1]
                if s['op'] == 'input':
                    continue
                if s['op'] == 'indep':
                    v = np.array(s['p']['vals'][self.defaults],
                                 dtype=float).reshape(s['p']['shape'])
                    env[s['id']] = g.create_indep_var(
                        s['p']['name'], shape=tuple(s['p']['shape']), val=v,
                        **({'dv': True} if s['p']['name'] in self.dv
                           else {}))
                elif s['op'] == 'assign':
                    p = s['p']
                    args = [get(a) for a in s['args']]
                    y = g.create_output(p['name'], shape=tuple(p['shape']))
                    parts = list(zip(args, p['keys']))
                    # the last parts can be given after the next statement,
                    # which may add a subsystem that reads the output
                    near = tree[j + 1:j + 2] and tree[j + 1][0] == 'sub'
                    n = int(self.rng.integers(len(parts) + 1)) if \
                        self.rng.random() < (.8 if near else .2) else \
                        len(parts)
                    for x, k in parts[:n]:
                        y[O.to_key(k['key'], k['bare'])] = x
                    if parts[n:]:
                        self.deferred += 1
                        late.append((y, parts[n:]))
                    env[s['id']] = y
                    continue
                else:
                    env[s['id']] = O.REG[s['op']].ot(
                        self.ot, [get(a) for a in s['args']], s['p'])
                if self.rng.random() < .2:
                    register(False)
            else:
                register(True)
                self.sub(g, *t[1:])
                # values of the subsystem are declared afterwards, lazily
            for y, parts in late:
                for x, k in parts:
                    y[O.to_key(k['key'], k['bare'])] = x
            late.clear()
        for y, parts in late:
            for x, k in parts:
                y[O.to_key(k['key'], k['bare'])] = x
        register(None)
        return env

    def sub(self, g, name, kind, tree):
        E = self
        if kind == 'ctx':
            with g.create_group(name) as c:
                E.group(c, tree)
            return
        if kind in ('pre', 'post'):
            c = self.ot.Group()
            if kind == 'pre':
                E.group(c, tree)
            g.add_subsystem(name, c, promotes=['*'])
            if kind == 'post':
                E.group(c, tree)
            return

        class Sub(self.ot.Group):
            def setup(self):
                E.group(self, tree)
        c = Sub()
        if kind == 'om':
            w = self.om.Group()
            w.add_subsystem('in_' + name, c, promotes=['*'])
            c = w
        g.add_subsystem(name, c, promotes=['*'])


def problem(prog, tree, seed, mode='auto', outer=True, defaults=0,
            mid=None, setup_kw=None, dv=(), post=None, pre=None):
    import omtools.api as ot
    import openmdao.api as om
    E = Emit(prog, gen.rng_of(seed, 5), defaults, dv=dv)

    class Top(ot.Group):
        def setup(self):
            E.group(self, tree)
            if post:
                post(self)
    p = om.Problem()
    with target('setup'):
        if outer:
            p.model.add_subsystem('m', Top(), promotes=['*'])
        else:
            p.model = Top()
        if pre:
            pre(p.model)
        p.setup(mode=mode, **(setup_kw or {}))
        if mid:
            mid(p)
        p.final_setup()
    p.omtv_again, p.omtv_defined = E.redeclared, E.defined
    return p
