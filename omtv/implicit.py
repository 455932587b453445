"""Random systems of residuals, their reference solution and the omtools
component that solves them."""
import numpy as np

from omtv import build, gen, oracle
from omtv import ops as O
from omtv.core import target

GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index']
PARTIAL = ('div', 'c_div', 'pow_c', 'div_c', 'tan', 'sec', 'cosec', 'cotan',
           'arcsin', 'arccos', 'cosech', 'cotanh', 'log', 'log10', 'pnorm',
           'pos', 'exp', 'sinh', 'cosh', 'sech')
SSH = [(1,), (1,), (3,), (2,), (2, 2), (2, 3), (4,), (3, 1), (1, 2, 2)]


class System:
    """prog: sources are states and parameters; res: state -> residual id;
    post: registered downstream outputs are none (explicit part is built
    separately)."""

    def __init__(self, prog, states, res, params):
        self.seen = {}
        self.prog, self.states, self.res, self.params = (prog, states, res,
                                                         params)

    cycle = False
    scale = 1.
    in_sub = 0

    def rescale(self, c):
        """Multiply every residual by a small or large number, which leaves
        the solution and the iterates of Newton's method as they are."""
        self.scale = c
        for n in self.states:
            k = 1 + max(s['id'] for s in self.prog.stmts)
            self.prog.stmts.append({'id': k, 'op': 'mul_c',
                                    'args': [self.res[n]], 'p': {'c': c}})
            self.res[n] = k
        self.prog.outs = [[n, i] for n, i in self.res.items()]
        self.prog._shapes = {}

    def permute(self, seed):
        """Sometimes give states the residuals of others."""
        rng = gen.rng_of(seed, 83)
        if rng.random() < .7:
            return
        by = {}
        for n in self.states:
            by.setdefault(self.shapes[n], []).append(n)
        old, new = dict(self.res), {}
        for ns in by.values():
            for a, b in zip(ns, rng.permutation(ns)):
                new[a] = old[b]
                self.seen['permuted'] = self.seen.get('permuted', 0) + (
                    a != b)
        self.res = {n: new[n] for n in self.states}
        self.prog.outs = [[n, i] for n, i in self.res.items()]

    def pack(self, d):
        return np.concatenate([np.asarray(d[n]).ravel()
                               for n in self.states])

    def unpack(self, x):
        out, k = {}, 0
        for n in self.states:
            s = int(np.prod(self.shapes[n]))
            out[n] = x[k:k + s].reshape(self.shapes[n])
            k += s
        return out

    def F(self, pt):
        env = self.prog.eval(pt)
        if self.cycle:
            return np.concatenate([
                np.ravel(env[self.ids[n]] - env[self.res[n]])
                for n in self.states])
        return np.concatenate([np.asarray(env[self.res[n]]).ravel()
                               for n in self.states])

    def dF(self, pt, wrt):
        """Jacobian of all residuals with respect to the named sources."""
        cols = []
        for n in wrt:
            x = np.asarray(pt[n], dtype=float)
            for j in range(x.size):
                xc = x.astype(complex)
                xc.flat[j] += 1e-30j
                cols.append(np.imag(self.F(dict(pt, **{n: xc}))) / 1e-30)
        return np.stack(cols, axis=1)

    def sweep(self, pt, iters=80):
        """Reference fixed-point iteration, all states at once; None if it
        does not contract quickly."""
        pt = dict(pt)
        last = None
        for it in range(iters):
            f = self.F(pt)
            if not np.all(np.isfinite(f)):
                return None
            n = np.abs(f).max()
            if n < 1e-13:
                return pt
            if last is not None and n > .7 * last + 1e-13:
                return None
            last = n
            pt.update(self.unpack(self.pack(pt) - f))
        return None

    def newton(self, pt, iters=9):
        """Reference Newton from the given states; None if it is not a
        well-conditioned, quickly convergent solve."""
        pt = dict(pt)
        for it in range(iters):
            f = self.F(pt) / self.scale
            n = np.linalg.norm(f)
            if it and not n <= 1.5 * last + 1e-12:
                return None
            last = n
            J = self.dF(pt, self.states) / self.scale
            if not np.all(np.isfinite(f)) or not np.all(np.isfinite(J)):
                return None
            if np.linalg.cond(J) > 1e4:
                return None
            if np.abs(f).max() < 1e-12:
                return pt
            dx = np.linalg.solve(J, f)
            if np.abs(dx).max() > 20:
                return None
            pt.update(self.unpack(self.pack(pt) - dx))
        return None

    def ift(self, pt, wrt):
        """d states / d params at a solution."""
        return -np.linalg.solve(self.dF(pt, self.states), self.dF(pt, wrt))


def random_system(seed, coupled=None, nmax=3, k=2, max_ops=6,
                  cycle=False):
    rng = gen.rng_of(seed, 41)
    nst = int(rng.integers(1, nmax + 1))
    npar = int(rng.integers(1, 4))
    coupled = bool(rng.random() < .6) if coupled is None else coupled
    names = ['s%d' % i for i in range(nst)] + ['p%d' % i
                                              for i in range(npar)]
    rng3 = gen.rng_of(seed, 89)
    if rng3.random() < .25:
        names = gen.words(rng3, len(names))
    prog = gen.Prog(k=k)
    shapes = {}
    base = SSH[int(rng.integers(len(SSH)))]
    ctr = [0]

    def add(op, args, p):
        prog.stmts.append({'id': ctr[0], 'op': op, 'args': args, 'p': p})
        ctr[0] += 1
        return ctr[0] - 1

    ids = {}
    for i, n in enumerate(names):
        sh = base if rng.random() < .6 else SSH[int(rng.integers(len(SSH)))]
        shapes[n] = tuple(sh)
        vals = [np.round(rng.uniform(-1.2, 1.2, size=sh), 3)
                for _ in range(k)]
        ids[n] = add('input', [], {'name': n, 'shape': list(sh), 'vals': [
            v.ravel().tolist() for v in vals]})

    def shape_of(i):
        prog._shapes = {}
        return prog.shape_of(i)

    def fit(i, sh):
        s = shape_of(i)
        if s == sh:
            return i
        if np.prod(s) == np.prod(sh):
            return add('reshape', [i], {'shape': list(sh)})
        if s != (1,):
            i = add('sum', [i], {'axes': None})
        if sh != (1,):
            i = add('expand', [i], {'shape': list(sh), 'ind': None})
        return i

    # random smooth terms over all sources (or only one state each)
    def terms(allowed, n_ops):
        pool = O.Pool()
        env = [prog.eval(j) for j in range(k)]
        for n in allowed:
            pool.add(ids[n], shapes[n], [e[ids[n]] for e in env])
        cand = [o for o in O.REG.values() if o.group in GROUPS and
                o.name not in PARTIAL]
        out, used, tries = [], set(), 0
        while len(out) < n_ops and tries < 60:
            tries += 1
            op = cand[int(rng.integers(len(cand)))]
            g = op.gen(rng, pool)
            if g is None:
                continue
            args, p = g
            v = [np.asarray(op.ref([pool.get(a)[2][j] for a in args], p))
                 for j in range(k)]
            if v[0].size == 0 or v[0].size > 24 or v[0].ndim > 4 or \
                    v[0].ndim == 0 or O.amax(v) > 50:
                continue
            i = add(op.name, list(args), p)
            pool.add(i, v[0].shape, v)
            out.append(i)
            used.update(args)
        return [i for i in out if i not in used] or out

    st = names[:nst]
    par = names[nst:]
    res, acc = {}, {n: [] for n in st}
    K = float(np.round(rng.uniform(2., 6.), 2))
    for n in st:
        others = [m for m in st if m != n and coupled and rng.random() < .7]
        allowed = [n] + others + [q for q in par if rng.random() < .7]
        for t in terms(allowed, int(rng.integers(1, max_ops)))[-3:]:
            b = add(str(rng.choice(['tanh', 'sin', 'arctan'])), [t], {})
            b = add('c_mul', [b], {'c': float(np.round(
                rng.uniform(.2, .9), 2))})
            acc[n].append(fit(b, shapes[n]))
        if cycle:       # right-hand side of a fixed-point definition
            r = fit(ids[par[int(rng.integers(npar))]], shapes[n])
            if r in ids.values():
                r = add('mul_c', [r], {'c': .8})
            for a in acc[n]:
                a = add('mul_c', [a], {'c': float(np.round(
                    rng.uniform(.1, .5), 2))})
                r = add(str(rng.choice(['add', 'sub'])), [r, a], {})
            res[n] = r
            continue
        r = add('c_mul' if rng.random() < .5 else 'mul_c', [ids[n]],
                {'c': K})
        for a in acc[n]:
            r = add(str(rng.choice(['add', 'sub'])), [r, a], {})
        q = fit(ids[par[int(rng.integers(npar))]], shapes[n])
        if q in ids.values():
            q = add('c_mul', [q], {'c': 1.5})
        r = add('sub', [r, q], {})
        if rng.random() < .5:       # cubic stiffening keeps one root
            c = add('pow_c', [ids[n]], {'c': 3})
            r = add('add', [r, c], {})
        res[n] = r
    # shared nodes between residuals would be one expression: keep distinct
    sysm = System(prog, st, res, par)
    sysm.shapes = shapes
    sysm.ids = ids
    sysm.coupled = coupled
    sysm.cycle = cycle
    need = prog.needed([(n, i) for n, i in res.items()])
    sysm.params = [q for q in par if ids[q] in need]
    prog.outs = [[n, i] for n, i in res.items()]
    keys = [gen.alias_key(prog, i) for i in need]
    return sysm if len(set(keys)) == len(keys) else None


def component(sysm, setup_extra=None, brackets=None, order=None, rng=None,
              subs=False, **kw):
    """omtools.ImplicitComponent subclass instance for the system."""
    import omtools.api as ot
    prog = sysm.prog
    need = prog.needed()

    class C(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            env, par, par0 = {}, {}, {}
            rng2 = gen.rng_of(len(prog.stmts), len(need), 77)
            again, late = rng2.random() < .3, rng2.random() < .4
            full = subs and rng2.random() < .4

            def note(what):
                sysm.seen[what] = sysm.seen.get(what, 0) + 1

            def get(i):     # a parameter can be declared again at its use
                if i in par and (i not in env or again and
                                 rng2.random() < .5):
                    if i not in env:
                        note('inputs_after_subsystem' if g in subsystems
                             else 'late_inputs')
                    else:
                        note('inputs_declared_again')
                    env[i] = g.declare_input(par[i][0], **par[i][1])
                return env[i]
            subsystems = set()
            srcs = [s for s in prog.sources if s['id'] in need]
            if rng is not None:
                srcs = [srcs[i] for i in rng.permutation(len(srcs))]
            for s in srcs:
                p = s['p']
                f = g.create_implicit_output if p['name'] in sysm.states \
                    else g.declare_input
                kw = dict(shape=tuple(p['shape']), val=np.array(
                    p['vals'][0]).reshape(p['shape']))
                if p['name'] not in sysm.states:
                    par[s['id']] = p['name'], kw
                    if late and rng2.random() < .7:
                        continue    # it is declared where it is used
                env[s['id']] = f(p['name'], **kw)
                if p['name'] in sysm.states:
                    par0[s['id']] = p['name'], kw
            pure = set()        # statements that do not involve a state
            for s in prog.stmts:
                if s['op'] == 'input':
                    if s['p']['name'] not in sysm.states:
                        pure.add(s['id'])
                    continue
                if s['id'] not in need:
                    continue
                if s['args'] and all(a in pure for a in s['args']):
                    pure.add(s['id'])
                inside = subs and s['id'] in pure and rng.random() < .7
                if not inside and full and s['id'] not in pure and \
                        s['id'] not in sysm.res.values():
                    inside = rng2.random() < .4
                    if inside:
                        note('states_in_subsystems')
                if inside:
                    free = {**par0, **{i: v for i, v in par.items()
                                       if i not in env}}
                    free = {i: v for i, v in free.items()
                            if i in par0 or rng2.random() < .6}
                    env[s['id']] = in_subsystem(g, s, get, free, note)
                    subsystems.add(g)
                    sysm.in_sub = sysm.in_sub + 1
                    continue
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [get(x) for x in s['args']], s['p'])
            for n in (order or sysm.states):
                y = env[sysm.ids[n]]
                r = env[sysm.res[n]]
                if brackets is None:
                    y.define_residual(r)
                else:
                    y.define_residual_bracketed(r, x1=brackets[n][0],
                                                x2=brackets[n][1])
            if setup_extra:
                setup_extra(self)

    def in_subsystem(g, s, get, free, note):
        """Compute one statement in a subsystem of the component, which
        itself declares the parameters and states that are free."""
        k = s['id']
        args, kws = [], {}
        for j, a in enumerate(s['args']):
            if a in free:
                note('inputs_of_subsystems')
                args.append(free[a][0])
                kws[a] = free[a][1]
                continue
            nm = 'q%d_%d' % (k, j)
            g.register_output(nm, get(a) * 1.)
            args.append(nm)
        kind = ['ctx', 'pre', 'cls'][int(rng.integers(3))]

        def fill(c):
            v = [c.declare_input(nm, **kws.get(a, {
                'shape': tuple(prog.shape_of(a))}))
                for nm, a in zip(args, s['args'])]
            c.register_output('z%d' % k, O.REG[s['op']].ot(ot, v, s['p']))
        if kind == 'ctx':
            with g.create_group('g%d' % k) as c:
                fill(c)
        elif kind == 'pre':
            c = ot.Group()
            fill(c)
            g.add_subsystem('g%d' % k, c, promotes=['*'])
        else:
            class Sub(ot.Group):
                def setup(self):
                    fill(self)
            g.add_subsystem('g%d' % k, Sub(), promotes=['*'])
        return g.declare_input('z%d' % k, shape=tuple(prog.shape_of(k)))
    return C(**kw)


def set_vals(p, pt, names):
    with target('set_val'):
        for n in names:
            p.set_val(n, pt[n])


def get_states(p, sysm):
    with target('reading implicit outputs'):
        return {n: np.array(p.get_val(n)) for n in sysm.states}


def random_scale(rng, sysm, rec, p=.35):
    """Sometimes state the residuals in units that make them tiny or huge."""
    if rng.random() < p:
        sysm.rescale(float([1e-12, 1e-9, 1e-7, 1e5][int(rng.integers(4))]))
        rec.count('rescaled')
