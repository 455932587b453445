"""Coupled subsystems under a solver of their parent."""
import numpy as np

from omtv import gen, implicit, oracle, perturb
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P34'
RULE = ('one model per case of two to four disciplines that use the values '
        'of each other by random contracting expressions, each in a '
        'subsystem of its own (subclass, with-block, group filled before or '
        'after it is added, OpenMDAO group, two levels), several in one, or '
        'written in the parent, in random order, met by promotion or '
        'connected explicitly, under block '
        'Gauss-Seidel, block Jacobi or Newton of the parent; at convergence '
        'every discipline holds, downstream expressions use the converged '
        'values, total derivatives in both modes match the implicit function '
        'theorem; '
        'distinct = (program signature, distribution, solvers, mode)')
ASSUME = ['only couplings whose reference Jacobian is a contraction in the '
          'maximum norm (0.85 at the solution, 0.7 per sweep) are judged',
          'OpenMDAO\'s block solvers visit subsystems in their order']
MIN = {'coupled_points': 300, 'mutual': 60, 'deriv_blocks': 2000,
       'nonlinear.gs': 60, 'nonlinear.jacobi': 60, 'nonlinear.newton': 60,
       'kind.ot': 25, 'kind.ctx': 25, 'kind.pre': 25, 'kind.post': 25,
       'kind.om': 25, 'kind.deep': 25, 'kind.parent': 25,
       'kind.shared': 20, 'reads_itself': 40, 'explicit_connections': 10}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 230, 4000), tag=34)


def usable(seed):
    """A system with mutual coupling, if one of a few attempts has one."""
    best = None
    for k in range(6):
        u = attempt(seed * 6 + k)
        if u is None:
            continue
        if mutual(u[0]):
            return u
        best = best or u
    return best if seed % 4 == 0 else None


def reading(sysm):
    src = {s['id']: s['p']['name'] for s in sysm.prog.sources}
    return {n: sorted({src[i] for i in sysm.prog.needed(
        [(n, sysm.res[n])]) if i in src}) for n in sysm.states}


def mutual(sysm):
    """Some discipline depends on itself through another one."""
    r = reading(sysm)

    def reach(n):
        todo, seen = [m for m in r[n] if m != n], set()
        while todo:
            m = todo.pop()
            if m in r and m not in seen:
                seen.add(m)
                todo += r[m]
        return seen
    return any(n in reach(n) for n in sysm.states)


def attempt(seed):
    sysm = implicit.random_system(seed, cycle=True, max_ops=5, coupled=True,
                                  nmax=4)
    if sysm is None or not sysm.params or len(sysm.states) < 2:
        return None
    sols = [sysm.sweep(sysm.prog.point(j)) for j in (0, 1)]
    if any(s is None for s in sols):
        return None
    for sol in sols:
        dF = sysm.dF(sol, sysm.states)
        if np.abs(np.eye(len(dF)) - dF).sum(axis=1).max() > .85:
            return None
    return sysm, sols


def solvers(om, g, nl, lin, inner=False):
    kw = dict(iprint=-1, atol=1e-14, rtol=1e-99)
    if nl == 'gs':
        g.nonlinear_solver = om.NonlinearBlockGS(maxiter=200, **kw)
    elif nl == 'jacobi':
        g.nonlinear_solver = om.NonlinearBlockJac(maxiter=400, **kw)
    else:
        g.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=True, max_sub_solves=30, maxiter=60, **kw)
    if lin == 'direct' or inner or nl == 'newton' and lin in ('gs', 'jac'):
        g.linear_solver = om.DirectSolver()
    elif lin == 'assembled':
        g.linear_solver = om.DirectSolver(assemble_jac=True)
        g.options['assembled_jac_type'] = 'dense'
    elif lin == 'krylov':
        g.linear_solver = om.ScipyKrylov(iprint=-1, atol=1e-14, rtol=1e-14,
                                         maxiter=800)
    elif lin == 'gs':
        g.linear_solver = om.LinearBlockGS(maxiter=300, iprint=-1,
                                           atol=1e-15, rtol=1e-99)
    else:
        g.linear_solver = om.LinearBlockJac(maxiter=800, iprint=-1,
                                            atol=1e-15, rtol=1e-99)


def layout(sysm, rng):
    """[(kind, [state, ...])] in the order they are added."""
    order = [sysm.states[i] for i in rng.permutation(len(sysm.states))]
    out = []
    i = 0
    while i < len(order):
        n = 2 if len(order) - i > 1 and (i or len(order) > 2) and \
            rng.random() < .3 else 1
        kind = ['ot', 'ctx', 'pre', 'post', 'om', 'deep', 'parent'][
            int(rng.integers(7))]
        if kind == 'parent':
            n = 1
        out.append((kind, order[i:i + n]))
        i += n
    if all(k == 'parent' for k, _ in out):
        out[0] = ('ot', out[0][1])
    return out


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    u = usable(case['seed'])
    if u is None:
        rec.count('unusable')
        return
    sysm, sols = u
    prog, S = sysm.prog, sysm.states
    reads = reading(sysm)
    rng = gen.rng_of(case['seed'], 34)
    parts = layout(sysm, rng)
    nl = ['gs', 'newton', 'jacobi', 'jacobi', 'newton'][case['seed'] % 5]
    lin = ['direct', 'krylov', 'gs', 'assembled', 'jac'][
        int(rng.integers(5))]
    if nl == 'jacobi' and any(k == 'parent' for k, _ in parts):
        # block Jacobi of single components starts from arbitrary values
        nl = 'gs'
    explicit = bool(rng.random() < .6) and all(
        k != 'parent' and len(m) == 1 for k, m in parts)
    late = bool(rng.random() < .5)
    outer = bool(rng.random() < .5)
    default = {q: np.round(rng.uniform(-1, 1, size=sysm.shapes[q]), 2)
               for q in sysm.shapes}

    def discipline(g, members, have=None):
        """Write the disciplines of these states in group g."""
        env = {} if have is None else have
        own = set()
        for n in members:
            if any(n in reads[m] for m in members):
                own.add(n)
        for n in S + sysm.params:
            i = sysm.ids[n]
            if n in own:
                env[i] = g.create_output(n, shape=sysm.shapes[n],
                                         val=default[n])
            elif any(n in reads[m] for m in members) and i not in env:
                env[i] = g.declare_input(n, shape=sysm.shapes[n],
                                         val=default[n])
        need = prog.needed([(n, sysm.res[n]) for n in members])
        for s in prog.stmts:
            if s['op'] != 'input' and s['id'] in need:
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [env[a] for a in s['args']], s['p'])
        for n in members:
            if n in own:
                env[sysm.ids[n]].define(env[sysm.res[n]])
            else:
                g.register_output(n, env[sysm.res[n]])
        if own and not explicit:
            solvers(om, g, 'gs', 'direct', inner=True)
        elif own:
            solvers(om, g, 'newton', 'direct', inner=True)
        return own

    def add(g, k, kind, members):
        pr = None if explicit else ['*']
        name = 'sub%d' % k
        if kind == 'ctx' and pr:
            with g.create_group(name) as c:
                discipline(c, members)
            return
        if kind in ('pre', 'post'):
            c = ot.Group()
            if kind == 'pre':
                discipline(c, members)
            g.add_subsystem(name, c, promotes=pr)
            if kind == 'post':
                discipline(c, members)
            return

        class Sub(ot.Group):
            def setup(self):
                discipline(self, members)
        c = Sub()
        if kind in ('om', 'deep'):
            w = om.Group() if kind == 'om' else ot.Group()
            w.add_subsystem('inner', c, promotes=['*'])
            c = w
        g.add_subsystem(name, c, promotes=pr)

    class Coupled(ot.Group):
        def setup(self):
            solvers(om, self, nl, lin)
            env = {}
            rd = set()
            for k, (kind, members) in enumerate(parts):
                if kind == 'parent':
                    # reads what other disciplines compute
                    n = members[0]
                    if n in reads[n]:
                        discipline_parent(self, n, env, rd)
                    else:
                        for m in reads[n]:
                            if sysm.ids[m] not in env:
                                env[sysm.ids[m]] = self.declare_input(
                                    m, shape=sysm.shapes[m], val=default[m])
                                rd.add(m)
                        write(self, n, env)
                else:
                    add(self, k, kind, members)
            if explicit:
                home = {m: 'sub%d.%s' % (k, m)
                        for k, (_, ms) in enumerate(parts) for m in ms}
                src = {}
                for q in sysm.params:
                    src[q] = q
                    self.create_indep_var(q, shape=sysm.shapes[q],
                                          val=default[q])
                src.update(home)
                for k, (_, ms) in enumerate(parts):
                    for q in sorted({r for m in ms for r in reads[m]}):
                        if q not in ms:
                            self.connect(src[q], 'sub%d.%s' % (k, q))
            elif late:
                down(self, lambda n: env.get(sysm.ids[n]))

    def write(g, n, env):
        need = prog.needed([(n, sysm.res[n])])
        for s in prog.stmts:
            if s['op'] != 'input' and s['id'] in need and \
                    s['id'] not in env:
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [env[a] for a in s['args']], s['p'])
        g.register_output(n, env[sysm.res[n]])
        env[sysm.ids[n]] = env[sysm.res[n]]

    def discipline_parent(g, n, env, rd):
        for m in reads[n]:
            if m == n:
                env[sysm.ids[n]] = g.create_output(
                    n, shape=sysm.shapes[n], val=default[n])
            elif sysm.ids[m] not in env:
                env[sysm.ids[m]] = g.declare_input(
                    m, shape=sysm.shapes[m], val=default[m])
                rd.add(m)
        need = prog.needed([(n, sysm.res[n])])
        for s in prog.stmts:
            if s['op'] != 'input' and s['id'] in need and \
                    s['id'] not in env:
                env[s['id']] = O.REG[s['op']].ot(
                    ot, [env[a] for a in s['args']], s['p'])
        env[sysm.ids[n]].define(env[sysm.res[n]])

    def down(g, have):
        for n in S:
            y = have(n)
            if y is None:
                y = g.declare_input(n, shape=sysm.shapes[n], val=default[n])
            g.register_output('y_' + n, ot.sin(y) * 2.)

    class Outer(ot.Group):
        def setup(self):
            if explicit:
                self.add_subsystem('c', Coupled())
                for n in S:
                    y = self.declare_input(n, shape=sysm.shapes[n])
                    self.register_output('y_' + n, ot.sin(y) * 2.)
                for k, (_, ms) in enumerate(parts):
                    for n in ms:
                        self.connect('c.sub%d.%s' % (k, n), n)
                return
            self.add_subsystem('c', Coupled(), promotes=['*'])
            if not late:
                down(self, lambda n: None)

    path = {n: n for n in list(S) + list(sysm.params)}
    if explicit:
        for k, (_, ms) in enumerate(parts):
            for n in ms:
                path[n] = 'c.sub%d.%s' % (k, n)
        for q in sysm.params:
            path[q] = 'c.' + q
        rec.count('explicit_connections')
    txt = {n: oracle.ops_text(prog, sysm.res[n]) for n in S}
    txt['layout'] = parts
    used = [q for q in sysm.params if any(q in reads[n] for n in S)]
    for mode in ('fwd', 'rev'):
        r = gen.rng_of(case['seed'], 35)
        with perturb.node_order(r), target('setup'):
            p = om.Problem()
            if outer or explicit or not late:
                p.model = Outer()
            else:
                p.model.add_subsystem('m', Coupled(), promotes=['*'])
            p.setup(mode=mode)
            p.final_setup()
        for j in (0, 1):
            pt = prog.point(j)
            with target('set_val'):
                for q in used:
                    p.set_val(path[q], pt[q])
                for n in S:
                    p.set_val(path[n], sols[j][n] + .02 * np.cos(np.arange(
                        sols[j][n].size)).reshape(sols[j][n].shape))
            oracle.run_model(p)
            with target('reading outputs'):
                got = {n: np.array(p.get_val(path[n])) for n in S}
                low = {n: np.array(p.get_val('y_' + n)) for n in S}
            at = dict(pt, **got)
            f = sysm.F(at)
            rec.count('coupled_points')
            rec.count('nonlinear.' + nl)
            if not np.all(np.isfinite(f)) or np.abs(f).max() > 1e-9:
                rec.fail('inconsistent', 'values of the disciplines differ '
                         'from their expressions by up to %g' %
                         np.abs(f).max(), **txt)
                return
            d = oracle.mismatch(sysm.pack(got), sysm.pack(sols[j]), 1e-8)
            if d:
                rec.fail('other-solution', d, **txt)
                return
            for n in S:
                d = oracle.mismatch(low[n], 2 * np.sin(got[n]), 1e-9)
                if d:
                    rec.fail('downstream', 'y_%s = 2 sin(%s): %s' % (n, n, d),
                             **txt)
                    return
            J = sysm.ift(at, used)
            T = oracle.totals(p, [path[n] for n in S] + [
                'y_' + n for n in S], [path[q] for q in used])
            r0 = 0
            for n in S:
                c0, sz = 0, int(np.prod(sysm.shapes[n]))
                for q in used:
                    w = int(np.prod(sysm.shapes[q]))
                    ref = J[r0:r0 + sz, c0:c0 + w]
                    c0 += w
                    for o, rf in ((path[n], ref), (
                            'y_' + n, 2 * np.cos(np.ravel(got[n]))[:, None]
                            * ref)):
                        rec.count('deriv_blocks')
                        d = oracle.mismatch(T[o][path[q]], rf, 1e-6,
                                            np.abs(J).max())
                        if d:
                            rec.fail('coupled-deriv', 'd %s / d %s (%s, %s '
                                     'under %s): %s' % (o, q, mode, lin, nl,
                                                        d), **txt)
                            return
                r0 += sz
        rec.sig((prog.signature(), str(parts), nl, lin, explicit, mode))
    for kind, ms in parts:
        rec.count('kind.' + kind)
        if len(ms) > 1:
            rec.count('kind.shared')
        if any(n in reads[n] for n in ms):
            rec.count('reads_itself')
    if mutual(sysm):
        rec.count('mutual')
    rec.show({'layout': parts, 'solvers': [nl, lin],
              'defined': {n: txt[n] for n in S}})
