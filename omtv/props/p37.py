"""Every kind of building block next to every other, in one model."""
import numpy as np

from omtv import gen, implicit, oracle, perturb
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C
from omtv.props import p18, p20

PID = 'P37'
RULE = ('one model per case that chains four to nine stages of random kinds: '
        'expressions, subsystems (subclass, with-block, filled before or '
        'after being added), OpenMDAO components and groups, implicit '
        'components solved by Newton or in brackets, groups of cyclic '
        'definitions, and subsystems that hold such a chain themselves; '
        'every stage is judged on the values it actually received, at two '
        'points, visited back and forth in one problem, and total '
        'derivatives over the whole chain are the product of the '
        'derivatives of the stages (implicit function theorem where they '
        'are solved), in forward and reverse mode; distinct = (kinds, '
        'programs, mode)')
ASSUME = C.POINT_ASSUME[:2] + [
    'implicit and cyclic stages are judged only when a reference iteration '
    'converges quickly at every point',
    'the derivatives of all states of an implicit component are asked for '
    'unless a direct solver solves for them: OpenMDAO leaves a state that '
    'is not asked for out of the products that any other solver is given, '
    'its own components included']
KINDS = ['expr', 'cls', 'ctx', 'pre', 'post', 'omc', 'omg', 'impl', 'brack',
         'cycle', 'pipe']
MIN = {'points': 250, 'stages_judged': 1500, 'deriv_blocks': 3000,
       'nonzero_blocks': 1500, 'nested_chains': 25, 'mode.fwd': 40,
       'mode.rev': 40, 'solved_stages': 200,
       **{'kind.' + k: 25 for k in KINDS if k != 'pipe'}}
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 120, 2200), tag=37)


def size(sh):
    return int(np.prod(sh))


def rename(prog, pre):
    """Names that are the stage's own."""
    for s in prog.stmts:
        if 'name' in s['p']:
            s['p']['name'] = pre + s['p']['name']
    prog.outs = [[pre + n, i] for n, i in prog.outs]


# ----------------------------------------------------------------------- links
class Link:
    """name = lo + (hi - lo) (1 + tanh(source)) / 2, source fitted to shape"""

    def __init__(self, name, src, s_shape, shape, lo, hi):
        self.name, self.src, self.s_shape = name, src, tuple(s_shape)
        self.shape, self.lo, self.hi = tuple(shape), lo, hi

    def ref(self, x):
        x = np.asarray(x).reshape(self.s_shape)
        if size(self.s_shape) == size(self.shape):
            x = x.reshape(self.shape)
        else:
            x = np.sum(x) * np.ones(self.shape)
        t = np.tanh(x)
        return (t + 1.) * (.5 * (self.hi - self.lo)) + self.lo

    def ot(self, ot, x):
        if self.s_shape != self.shape:
            if size(self.s_shape) == size(self.shape):
                x = ot.reshape(x, self.shape)
            else:
                if self.s_shape != (1,):
                    x = ot.sum(x)
                if self.shape != (1,):
                    x = ot.expand(x, self.shape)
        return (ot.tanh(x) + 1.) * (.5 * (self.hi - self.lo)) + self.lo


# ---------------------------------------------------------------------- stages
class Stage:
    """links: name of input -> Link; shapes: of inputs; outs: [(name, shape)];
    solved: names of outs that are found by iteration."""
    solved = ()
    scale = 1.

    def jac(self, x, y):
        """d outs / d inputs {(out, in): matrix} at inputs x, outputs y."""
        J = {}
        for n, sh in self.ins:
            v = np.asarray(x[n], dtype=float)
            cols = {o: np.zeros((size(s), v.size)) for o, s in self.outs}
            for j in range(v.size):
                c = v.astype(complex)
                c.flat[j] += 1e-30j
                r = self.ref(dict(x, **{n: c}))
                for o in cols:
                    if np.iscomplexobj(r[o]):
                        cols[o][:, j] = np.imag(r[o]).ravel() / 1e-30
            for o in cols:
                J[o, n] = cols[o]
        return J


class Expr(Stage):
    def __init__(self, kind, seed, pre):
        rng = gen.rng_of(seed, 371)
        self.kind = kind
        pr = gen.generate([seed], int(rng.integers(1, 7)), groups=GROUPS,
                          p_indep=0., n_src=int(rng.integers(1, 4)))
        rename(pr, pre)
        self.prog = pr
        live = pr.live_sources()
        self.ins = [(s['p']['name'], tuple(s['p']['shape'])) for s in live]
        self.outs = [(n, pr.shape_of(i)) for n, i in pr.outs]
        self.range = {s['p']['name']: (np.min(s['p']['vals']),
                                       np.max(s['p']['vals']))
                      for s in live}
        self.fill = {s['p']['name']: np.array(s['p']['vals'][0]).reshape(
            s['p']['shape']) for s in pr.sources}
        self.text = {n: oracle.ops_text(pr, i) for n, i in pr.outs}

    def ref(self, x):
        return self.prog.outputs(dict(self.fill, **x))

    def write(self, g, ot, handle):
        """The statements, in a group where handle(name) gives the inputs."""
        env, pr = {}, self.prog
        need = pr.needed()
        for s in pr.stmts:
            if s['op'] == 'input':
                if s['id'] in need:
                    env[s['id']] = handle(s['p']['name'])
            elif s['op'] == 'assign':
                if s['id'] not in need:
                    continue
                y = g.create_output(s['p']['name'], shape=tuple(
                    s['p']['shape']))
                for a, k in zip(s['args'], s['p']['keys']):
                    y[O.to_key(k['key'], k['bare'])] = env[a]
                env[s['id']] = y
            elif s['id'] in need:
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [env[a] for a in s['args']], s['p'])
        for n, i in pr.outs:
            if pr.stmt(i)['op'] != 'assign':
                g.register_output(n, env[i])
        return {n: env[i] for n, i in pr.outs}

    def emit(self, g, ot, handle):
        if self.kind == 'expr':
            return self.write(g, ot, handle)
        shape = dict(self.ins)

        def fill(c):
            self.write(c, ot, lambda n: c.declare_input(n, shape=shape[n]))
        nm = 'g_' + self.outs[0][0]
        if self.kind == 'ctx':
            with g.create_group(nm) as c:
                fill(c)
        elif self.kind == 'cls':
            class Sub(ot.Group):
                def setup(self):
                    fill(self)
            g.add_subsystem(nm, Sub(), promotes=['*'])
        else:
            c = ot.Group()
            if self.kind == 'pre':
                fill(c)
            g.add_subsystem(nm, c, promotes=['*'])
            if self.kind == 'post':
                fill(c)


class Plain(Stage):
    """OpenMDAO's own components."""

    def __init__(self, kind, seed, pre):
        rng = gen.rng_of(seed, 372)
        self.kind = kind
        sh = implicit.SSH[int(rng.integers(len(implicit.SSH)))]
        self.ins = [(pre + 'a', sh), (pre + 'b', sh)]
        self.outs = [(pre + 'y', sh)] + (
            [(pre + 'z', sh)] if kind == 'omg' else [])
        self.range = {n: (-1.5, 1.5) for n, _ in self.ins}
        self.c = float(np.round(rng.uniform(.3, 2), 2))
        self.pre = pre
        self.text = {pre + 'y': '%s * a * b + a ** 2' % self.c,
                     pre + 'z': 'sin(y) - b'}

    def ref(self, x):
        a, b = (x[n] for n, _ in self.ins)
        y = self.c * a * b + a ** 2
        return {self.pre + 'y': y, self.pre + 'z': np.sin(y) - b}

    def emit(self, g, ot, handle):
        import openmdao.api as om
        p, sh = self.pre, self.ins[0][1]
        e = om.ExecComp('%sy = %s * %sa * %sb + %sa ** 2' % (
            p, self.c, p, p, p), shape=sh, has_diag_partials=True)
        if self.kind == 'omc':
            g.add_subsystem('g_' + p + 'y', e, promotes=['*'])
            return
        m = om.Group()
        m.add_subsystem('one', e, promotes=['*'])
        m.add_subsystem('two', om.ExecComp('%sz = sin(%sy) - %sb' % (
            p, p, p), shape=sh), promotes=['*'])
        g.add_subsystem('g_' + p + 'y', m, promotes=['*'])


class Solved(Stage):
    def __init__(self, kind, seed, pre):
        rng = gen.rng_of(seed, 373)
        self.kind = kind
        self.rng_key = (seed, 374)
        self.br = None
        if kind == 'brack':
            s = p20.build_system(rng)[0]
        else:
            s = implicit.random_system(seed, cycle=kind == 'cycle',
                                       max_ops=4, nmax=2)
        self.sys = s
        if s is None or not s.params:
            raise LookupError
        rename(s.prog, pre)
        for a in ('shapes', 'ids', 'res'):
            setattr(s, a, {pre + k: v for k, v in getattr(s, a).items()})
        s.states = [pre + n for n in s.states]
        s.params = [pre + n for n in s.params]
        self.solved = s.states
        self.ins = [(q, tuple(s.shapes[q])) for q in s.params]
        self.outs = [(n, tuple(s.shapes[n])) for n in s.states]
        src = {x['p']['name']: x for x in s.prog.sources}
        self.range = {q: (np.min(src[q]['p']['vals']),
                          np.max(src[q]['p']['vals'])) for q in s.params}
        self.start = s.prog.point(0)
        if kind == 'brack':
            B = 16. + 2 * max(max(abs(a), abs(b))
                              for a, b in self.range.values())
            self.br = {n: (-B, B) if rng.random() < .6 else (B, -B)
                       for n in s.states}
        self.text = {n: oracle.ops_text(s.prog, s.res[n]) for n in s.states}
        self.lin = ['direct', 'krylov', 'own'][int(rng.integers(3))]
        self.nl = ['gs', 'newton'][int(rng.integers(2))]
        self.subs = bool(rng.random() < .3)

    def solve(self, x):
        """Reference states, or None."""
        at = dict(self.start, **x)
        if self.kind == 'impl':
            s = self.sys.newton(at)
        elif self.kind == 'cycle':
            s = self.sys.sweep(at)
            if s is not None:
                dF = self.sys.dF(s, self.sys.states)
                if np.abs(np.eye(len(dF)) - dF).sum(axis=1).max() > .8:
                    s = None
        else:       # any root will do: bisection entry by entry
            B = max(map(abs, self.br[self.sys.states[0]]))
            lo = {n: np.full(self.sys.shapes[n], -B)
                  for n in self.sys.states}
            hi = {n: -v for n, v in lo.items()}
            with np.errstate(all='ignore'):
                fl = self.sys.F(dict(at, **lo))
                fh = self.sys.F(dict(at, **hi))
                if not np.all(np.sign(fl) * np.sign(fh) < 0):
                    return None
                a, b = self.sys.pack(lo), self.sys.pack(hi)
                up = np.sign(fh)
                for _ in range(90):
                    m = .5 * (a + b)
                    f = up * self.sys.F(dict(at, **self.sys.unpack(m)))
                    b = np.where(f >= 0, m, b)
                    a = np.where(f < 0, m, a)
            s = dict(at, **self.sys.unpack(.5 * (a + b)))
        if s is None:
            return None
        dF = self.sys.dF(s, self.sys.states)
        if not np.all(np.isfinite(dF)) or np.linalg.cond(dF) > 300 or \
                self.bad(x, s):
            return None
        return {n: s[n] for n in self.sys.states}

    def bad(self, x, y):
        """How far y is from a solution, beyond the accuracy expected."""
        at = dict(self.start, **x)
        at.update({n: y[n] for n in self.sys.states})
        with np.errstate(all='ignore'):
            f = np.abs(self.sys.F(at))
            tol = 1e-9 * (1 + np.abs(self.sys.dF(
                at, self.sys.states)).max())
        return None if np.all(f <= tol) else float(np.max(f))

    def jac(self, x, y):
        at = dict(self.start, **x)
        at.update({n: y[n] for n in self.sys.states})
        dF = self.sys.dF(at, self.sys.states)
        if np.linalg.cond(dF) > 1e3:
            return None
        M = -np.linalg.solve(dF, self.sys.dF(at, self.sys.params))
        J, r0 = {}, 0
        for n, sh in self.outs:
            c0 = 0
            for q, s2 in self.ins:
                J[n, q] = M[r0:r0 + size(sh), c0:c0 + size(s2)]
                c0 += size(s2)
            r0 += size(sh)
        return J

    def emit(self, g, ot, handle):
        rng = gen.rng_of(*self.rng_key)
        nm = 'g_' + self.outs[0][0]
        if self.kind == 'cycle':
            return self.cycle(g, ot, nm, rng)
        extra = None
        if self.kind == 'impl' and self.lin != 'own':
            def extra(c):
                p18.solvers(c, self.lin)
        comp = implicit.component(self.sys, brackets=self.br, rng=rng,
                                  subs=self.subs, setup_extra=extra)
        if self.kind == 'impl' and self.lin == 'own':
            import openmdao.api as om
            m = om.Group()
            m.add_subsystem('c', comp, promotes=['*'])
            p18.solvers(m, 'own')
            comp = m
        g.add_subsystem(nm, comp, promotes=['*'])

    def cycle(self, g, ot, nm, rng):
        import openmdao.api as om
        st, sysm, prog = self, self.sys, self.sys.prog
        need = prog.needed() | set(
            sysm.ids[n] for n in sysm.states)

        class Sub(ot.Group):
            def setup(self):
                if st.nl == 'gs':
                    self.nonlinear_solver = om.NonlinearBlockGS(
                        maxiter=200, iprint=-1, atol=1e-14, rtol=1e-99)
                else:
                    self.nonlinear_solver = om.NewtonSolver(
                        solve_subsystems=True, max_sub_solves=30,
                        maxiter=60, iprint=-1, atol=1e-14, rtol=1e-99)
                self.linear_solver = om.DirectSolver()
                env = {}
                for s in prog.stmts:
                    p = s['p']
                    if s['id'] not in need:
                        continue
                    if s['op'] != 'input':
                        env[s['id']] = O.REG[s['op']].ot(
                            ot, [env[a] for a in s['args']], p)
                    elif p['name'] in sysm.states:
                        env[s['id']] = self.create_output(
                            p['name'], shape=tuple(p['shape']))
                    else:
                        env[s['id']] = self.declare_input(
                            p['name'], shape=tuple(p['shape']))
                for n in sysm.states:
                    env[sysm.ids[n]].define(env[sysm.res[n]])
        g.add_subsystem(nm, Sub(), promotes=['*'])


class Pipe:
    """A chain in a subsystem: gates are the values that enter it."""
    kind = 'pipe'

    def __init__(self, pre):
        self.pre, self.gates, self.chain = pre, [], []


MAKE = {'impl': Solved, 'brack': Solved, 'cycle': Solved, 'omc': Plain,
        'omg': Plain}


def grow(rng, seed, pre, n, avail, known, J, flat, depth=0,
         kinds=KINDS):
    """Append n stages.  avail: [(name, shape)] that can be read here;
    known: reference values of everything at both points."""
    chain = []
    for i in range(n):
        p = '%s%d_' % (pre, i)
        kind = kinds[int(rng.integers(len(kinds)))]
        if kind == 'pipe':
            if depth > 1 or len(avail) < 2:
                kind = 'cls'
            else:
                st = Pipe(p)
                for k in range(2):
                    src = avail[int(rng.integers(len(avail)))]
                    ln = Link(p + 'in%d' % k, src[0], src[1],
                              implicit.SSH[int(rng.integers(len(
                                  implicit.SSH)))], -1., 1.)
                    st.gates.append(ln)
                    for v in known:
                        v[ln.name] = ln.ref(v[ln.src])
                    flat.append(ln)
                inner = [(g.name, g.shape) for g in st.gates]
                st.chain = grow(rng, seed + 17 * (i + 1), p,
                                int(rng.integers(2, 4)), inner, known, J,
                                flat, depth + 1, kinds)
                st.reads = inner
                new = [o for c in st.chain for o in outs_of(c)]
                st.outs = new
                if not new:
                    continue
                avail += new
                chain.append(st)
                continue
        for attempt in range(6):
            try:
                st = MAKE.get(kind, Expr)(
                    kind, seed * 64 + 8 * i + attempt + 1000003 * depth, p)
            except LookupError:
                continue
            if not st.outs or not st.ins or sum(
                    size(s) for _, s in st.outs) > 80:
                continue
            st.links, vals = [], [{}, {}]
            for q, sh in st.ins:
                # late values more often than early ones
                k = len(avail) - 1 - int(len(avail) * rng.random() ** 1.7)
                src = avail[k]
                lo, hi = st.range[q]
                ln = Link(q, src[0], src[1], sh, float(lo), float(hi))
                st.links.append(ln)
                for v, w in zip(known, vals):
                    w[q] = ln.ref(v[src[0]])
            ys = [usable(st, w) for w in vals]
            if any(y is None for y in ys):
                continue
            for v, w, y in zip(known, vals, ys):
                v.update(w)
                v.update(y)
            flat += st.links + [st]
            avail += st.outs
            chain.append(st)
            break
    return chain


def outs_of(st):
    return st.outs


def usable(st, x):
    """Reference outputs at these inputs if they are far from singular."""
    if isinstance(st, Solved):
        return st.solve(x)
    try:
        with np.errstate(all='raise'):
            y = st.ref(x)
            z = st.ref({k: v * (1 + 1e-9) + 1e-12 for k, v in x.items()})
    except (FloatingPointError, ZeroDivisionError):
        return None
    for k in y:
        if not np.all(np.isfinite(y[k])) or np.abs(y[k]).max() > 1e4 or \
                np.any(np.abs(y[k] - z[k]) > 1e-6 * (1 + np.abs(y[k]).max())):
            return None
    return {k: np.real(y[k]) for k, _ in st.outs}


def write(g, ot, chain, vars_, shapes):
    """Emit a chain into group g; vars_: name -> expression to read."""
    def get(n):
        if n not in vars_:
            vars_[n] = g.declare_input(n, shape=shapes[n])
        return vars_[n]
    for st in chain:
        links = st.gates if st.kind == 'pipe' else st.links
        for ln in links:
            e = ln.ot(ot, get(ln.src))
            g.register_output(ln.name, e)
            vars_[ln.name] = e
        if st.kind == 'pipe':
            class Sub(ot.Group):
                def setup(self, st=st):
                    write(self, ot, st.chain, {}, shapes)
            g.add_subsystem('g_' + st.pre, Sub(), promotes=['*'])
        else:
            r = st.emit(g, ot, lambda n: vars_[n])
            if r:
                vars_.update(r)


class Chain:
    """A chain of stages over a few external inputs."""

    def __init__(self, rng, seed, n, kinds=KINDS):
        ext = [('e%d' % i,
                implicit.SSH[int(rng.integers(len(implicit.SSH)))])
               for i in range(int(rng.integers(1, 4)))]
        self.pts = [{n: np.round(rng.uniform(-1.2, 1.2, size=s), 3)
                     for n, s in ext} for _ in range(2)]
        self.known = [dict(p) for p in self.pts]
        self.flat = []
        self.chain = grow(rng, seed, 'm', n, list(ext), self.known, None,
                          self.flat, kinds=kinds)
        self.stages = [s for s in self.flat if not isinstance(s, Link)]
        self.indep = {n: bool(rng.random() < .4) for n, _ in ext}
        read = {s.src for s in self.flat if isinstance(s, Link)}
        self.ext = [(n, s) for n, s in ext if n in read or self.indep[n]]
        self.shapes = dict(self.ext)
        for s in self.flat:
            if isinstance(s, Link):
                self.shapes[s.name] = s.shape
            else:
                self.shapes.update(dict(s.outs))
        self.outs = [o for s in self.stages for o, _ in s.outs]
        self.iterated = [n for s in self.stages for n in s.solved
                         if s.kind != 'brack']
        self.kinds = [s.kind for s in self.stages]

    def of(self, rng, rec):
        """What to differentiate."""
        of = [self.outs[i] for i in rng.permutation(len(self.outs))[:4]]
        for o, _ in self.stages[-1].outs:
            if o not in of:
                of.append(o)
        of = of[:6]
        for s in self.stages:
            if s.kind == 'impl' and s.lin != 'direct' and len(s.solved) > 1:
                of += [n for n in s.solved if n not in of]      # see ASSUME
                rec.count('coupled_not_direct')
        return of

    def model(self, ot):
        st = self

        class Model(ot.Group):
            def setup(self):
                v = {}
                for n, sh in st.ext:
                    v[n] = self.create_indep_var(n, shape=sh) \
                        if st.indep[n] else self.declare_input(n, shape=sh)
                write(self, ot, st.chain, v, st.shapes)
        return Model()

    def guess(self, p, j):
        """Start the iterations near the solution at point j."""
        for n in self.iterated:
            v = self.known[j][n]
            p.set_val(n, v + .01 * np.cos(np.arange(v.size)).reshape(v.shape))


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 37)
    ch = Chain(rng, case['seed'], int(rng.integers(4, 10)))
    flat, ext, kinds, stages = ch.flat, ch.ext, ch.kinds, ch.stages
    if len(stages) < 3:
        rec.count('unusable')
        return
    of = ch.of(rng, rec)
    for mode in ('fwd', 'rev'):
        with perturb.node_order(gen.rng_of(case['seed'], 375)), \
                target('setup'):
            p = om.Problem()
            if rng.random() < .5:
                p.model = ch.model(ot)
            else:
                p.model.add_subsystem('m', ch.model(ot), promotes=['*'])
            p.setup(mode=mode)
            p.final_setup()
        for j in (0, 1, 0) if mode == 'fwd' else (1, ):
            with target('set_val'):
                for n, _ in ext:
                    p.set_val(n, ch.pts[j][n])
                ch.guess(p, j)
            oracle.run_model(p)
            rec.count('points')
            rec.count('mode.' + mode)
            got = {}
            with target('reading values'):
                for n in ch.shapes:
                    got[n] = np.array(p.get_val(n))
            if not judge(rec, flat, got, kinds):
                return
            dv = chain_rule(flat, got, ext)
            if dv is None:
                rec.count('ill_conditioned')
                continue
            T = oracle.totals(p, of, [n for n, _ in ext])
            for o in of:
                for n, _ in ext:
                    ref, bound = dv[o][n]
                    rec.count('deriv_blocks')
                    if np.any(ref):
                        rec.count('nonzero_blocks')
                    d = oracle.mismatch(np.asarray(T[o][n]), ref, 1e-6,
                                        bound)
                    if d:
                        k = next(s for s in stages if o in dict(s.outs))
                        rec.fail('mixed-deriv:' + k.kind,
                                 'd %s / d %s (%s mode) in a chain of %s: %s'
                                 % (o, n, mode, ', '.join(kinds), d),
                                 stage=k.text)
                        return
    for k in kinds:
        rec.count('kind.' + k)
    pipes = sum(s.kind == 'pipe' for s in ch.chain)
    rec.count('nested_chains', pipes)
    rec.count('solved_stages', sum(bool(s.solved) for s in stages))
    rec.sig((kinds, [sorted(s.text.values()) for s in stages]))
    rec.show({'kinds': kinds, 'chains_in_subsystems': pipes})


def judge(rec, flat, got, kinds):
    for s in flat:
        if isinstance(s, Link):
            d = oracle.mismatch(got[s.name], s.ref(got[s.src]), 1e-9)
            if d:
                rec.fail('link', '%s, computed from %s%s: %s' % (
                    s.name, s.src, s.s_shape, d), chain=kinds)
                return False
            continue
        x = {n: got[n] for n, _ in s.ins}
        rec.count('stages_judged')
        if isinstance(s, Solved):
            b = s.bad(x, got)
            if b is not None:
                rec.fail('mixed-residual:' + s.kind, 'outputs %s of a stage '
                         'leave residuals up to %g in a chain of %s' % (
                             list(s.solved), b, ', '.join(kinds)),
                         stage=s.text)
                return False
            continue
        r = s.ref(x)
        for n, _ in s.outs:
            d = oracle.mismatch(got[n], np.real(r[n]), 1e-9)
            if d:
                rec.fail('mixed-value:' + s.kind, '%s = %s in a chain of %s: '
                         '%s' % (n, s.text.get(n), ', '.join(kinds), d))
                return False
    return True


def chain_rule(flat, got, ext):
    """{name: {external: (matrix, bound on the terms that add up to it)}}"""
    D = {}
    for n, sh in ext:
        D[n] = {m: (np.eye(size(sh)) if m == n else np.zeros(
            (size(sh), size(s2))), 1.) for m, s2 in ext}
    for s in flat:
        if isinstance(s, Link):
            x = np.asarray(got[s.src], dtype=float)
            M = np.zeros((size(s.shape), x.size))
            for j in range(x.size):
                c = x.astype(complex)
                c.flat[j] += 1e-30j
                M[:, j] = np.imag(s.ref(c)).ravel() / 1e-30
            loc = {s.name: {s.src: M}}
        else:
            J = s.jac({n: got[n] for n, _ in s.ins}, got)
            if J is None:
                return None
            loc = {o: {n: J[o, n] for n, _ in s.ins} for o, _ in s.outs}
        for o, row in loc.items():
            D[o] = {}
            for m, s2 in ext:
                ref = sum(M @ D[n][m][0] for n, M in row.items())
                bound = sum(np.abs(M).sum(axis=1).max() * D[n][m][1]
                            for n, M in row.items())
                if not np.all(np.isfinite(ref)) or bound > 1e9:
                    return None
                D[o][m] = (ref, bound)
    return D
