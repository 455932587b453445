"""Bracketed implicit outputs: a root inside the declared bracket."""
import copy

import numpy as np

from omtv import gen, implicit, oracle
from omtv import ops as O
from omtv.core import target
from omtv.props import common as C

PID = 'P20'
RULE = ('one component per case with one to three bracketed implicit '
        'outputs, scalar or array, increasing, decreasing or non-monotone '
        'entry by entry, brackets given as numbers, lists or arrays in '
        'either order and of any magnitude, default or explicit iteration '
        'limit; after every '
        'solve each entry lies in its bracket and the reference residual '
        'changes sign within the width the iteration limit guarantees; '
        'derivatives match the implicit function theorem; distinct = '
        '(residual signature, bracket spelling, limit)')
ASSUME = ['only brackets whose ends have reference residuals of opposite '
          'sign are used; residuals of one output do not depend on another '
          'bracketed output']
MIN = {'integers': 20, 'solves': 250, 'entries': 1000, 'arrays': 100, 'several': 60,
       'spelling.num': 50, 'spelling.list': 30, 'spelling.array': 50,
       'reversed': 50, 'decreasing_entries': 150, 'limited': 40,
       'non_monotone': 15, 'derivs': 500, 'rescaled': 30, 'magnitudes': 40}


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 260, 5000), tag=20)


def build_system(rng, k=2, xs=None, rng_s=None):
    prog = gen.Prog(k=k)
    nst = int(rng.integers(1, 4))
    sysm = implicit.System(prog, [], {}, [])
    sysm.shapes, sysm.ids = {}, {}
    br = {}
    mono = True
    dec = 0

    def add(op, args, p):
        prog.stmts.append({'id': len(prog.stmts), 'op': op, 'args': args,
                           'p': p})
        return len(prog.stmts) - 1

    def src(n, sh, vals):
        i = add('input', [], {'name': n, 'shape': list(sh), 'vals': [
            np.ravel(v).tolist() for v in vals]})
        sysm.shapes[n], sysm.ids[n] = tuple(sh), i
        return i
    shared = None
    nms = {c: ['%s%d' % (c, i) for i in range(nst)] for c in 'spt'}
    rng_n = gen.rng_of(int(copy.deepcopy(rng).integers(2 ** 31)), 89)
    if rng_n.random() < .25:
        w = gen.words(rng_n, 3 * nst)
        nms = {'s': w[:nst], 'p': w[nst:2 * nst], 't': w[2 * nst:]}
    sysm.place = dict(zip(nms['s'], nms['t']))
    for s in range(nst):
        n = nms['s'][s]
        sh = implicit.SSH[int(rng.integers(len(implicit.SSH)))]
        root = [np.round(rng.uniform(-1.5, 1.5, size=sh), 3)
                for _ in range(k)]
        x = src(n, sh, [np.zeros(sh)] * k)
        sysm.states.append(n)
        if xs is not None and rng_s.random() < .5:
            # the output has another order of magnitude
            xs[n] = float(rng_s.choice([1e-12, 1e-9, 1e-5, 1e-3, 1e3, 1e7]))
            x = add('mul_c', [x], {'c': 1. / xs[n]})
        p = src(nms['p'][s], sh, [np.round(rng.uniform(.5, 1.5, size=sh), 3)
                                for _ in range(k)])
        sysm.params.append(nms['p'][s])
        sign = np.where(rng.random(sh) < .4, -1., 1.)
        dec += int((sign < 0).sum())
        acc = add('mul_c', [x], {'c': O.enc(sign * rng.choice([.5, 1., 2.]))})
        for _ in range(int(rng.integers(0, 3))):
            f = str(rng.choice(['tanh', 'arctan', 'sinh', 'cube', 'sin']))
            a = add('mul', [x, p], {}) if rng.random() < .5 else x
            if f == 'cube':
                a = add('pow_c', [a], {'c': 3})
            else:
                if f == 'sin':
                    a = add('mul_c', [a], {'c': 3.})
                    mono = False
                a = add(f, [a], {})
            a = add('mul_c', [a], {'c': O.enc(
                sign * np.round(rng.uniform(.3, 1.5), 2))})
            acc = add('add', [acc, a], {})
        if shared is not None and rng.random() < .4 and \
                sysm.shapes[nms['p'][shared]] == tuple(sh):
            acc = add('add', [acc, sysm.ids[nms['p'][shared]]], {})
        shared = s
        # T places the root
        env = [prog.eval(j, over={n: root[j] * (xs or {}).get(n, 1.)})
               for j in range(k)]
        t = src(nms['t'][s], sh, [e[acc] for e in env])
        sysm.params.append(nms['t'][s])
        sysm.res[n] = add('sub', [acc, t], {})
        lo = np.min(root, axis=0) - np.round(rng.uniform(.05, 2., sh), 2)
        hi = np.max(root, axis=0) + np.round(rng.uniform(.05, 2., sh), 2)
        r = rng.random()
        if r < .08:         # root at one end of the bracket
            lo = np.min(root, axis=0)
        br[n] = (lo, hi, root)
    prog.outs = [[n, i] for n, i in sysm.res.items()]
    need = prog.needed()
    sysm.params = [q for q in sysm.params if sysm.ids[q] in need]
    return sysm, br, mono, dec


def run(case, rec):
    import openmdao.api as om
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 20)
    xs, rng_s = {}, gen.rng_of(case['seed'], 2021)
    sysm, br, mono, dec = build_system(
        rng, xs=xs if rng_s.random() < .3 else None, rng_s=rng_s)
    implicit.random_scale(gen.rng_of(case['seed'], 2020), sysm, rec, .25)
    spelled, lims, kinds = {}, {}, []
    for n in sysm.states:
        lo, hi, root = br[n]
        kind = ['num', 'list', 'array'][int(rng.integers(3))]
        if lo.ndim > 1 and kind == 'list':
            kind = 'array'
        if kind == 'num':
            lo = np.full_like(lo, np.floor(lo.min() * 10) / 10)
            hi = np.full_like(hi, np.ceil(hi.max() * 10) / 10)
        if n not in xs and rng_s.random() < .25:
            # integers, also as numbers and lists of that kind
            lo, hi = np.floor(lo).astype(int), np.ceil(hi).astype(int)
            rec.count('integers')
        if n in xs:
            lo, hi = lo * xs[n], hi * xs[n]
            rec.count('magnitudes')
        # opposite signs at the ends, at every point, otherwise not judged
        for j in range(2):
            pt = sysm.prog.point(j)
            a = sysm.unpack(sysm.F(dict(pt, **{n: lo})))[n]
            b = sysm.unpack(sysm.F(dict(pt, **{n: hi})))[n]
            if not np.all(a * b <= 0) or np.any((a == 0) & (b == 0)):
                rec.count('no_sign_change')
                return
        x1, x2 = (lo, hi)
        if rng.random() < .35:
            x1, x2 = hi, lo
            rec.count('reversed')
        f = {'num': lambda v: v.flat[0].item(), 'list': lambda v: v.tolist(),
             'array': lambda v: v}[kind]
        spelled[n] = (f(x1), f(x2))
        lims[n] = (lo, hi)
        kinds.append(kind)
    limit = None if rng.random() < .7 else int(rng.integers(3, 45))
    kw = {} if limit is None else {'maxiter': limit}
    order = [sysm.states[i] for i in rng.permutation(len(sysm.states))]
    comp = implicit.component(sysm, brackets=spelled, order=order, rng=rng,
                              **kw)
    mode = 'fwd' if rng.random() < .5 else 'rev'
    with target('setup'):
        p = om.Problem()
        if rng.random() < .5:
            p.model.add_subsystem('c', comp, promotes=['*'])
        else:
            class G(ot.Group):
                def setup(self):
                    self.add_subsystem('c', comp, promotes=['*'])
            p.model = G()
        p.setup(mode=mode)
        p.final_setup()
    for k_ in kinds:
        rec.count('spelling.' + k_)
    for j in (0, 1, 0, -1):
        # -1: the parameters stay, the unknowns are overwritten
        if j < 0:
            j = 0
            with target('set_val'):
                for n in sysm.states:
                    p.set_val(n, lims[n][0] + .3 * (lims[n][1] - lims[n][0]))
            rec.count('overwritten')
        else:
            pt = sysm.prog.point(j)
            implicit.set_vals(p, pt, sysm.params)
        oracle.run_model(p)
        rec.count('solves')
        if limit is not None:
            rec.count('limited')
        got = implicit.get_states(p, sysm)
        txt = {n: oracle.ops_text(sysm.prog, sysm.res[n])
               for n in sysm.states}
        for n in sysm.states:
            lo, hi = lims[n]
            x = got[n]
            rec.count('entries', int(x.size))
            if x.size > 1:
                rec.count('arrays')
            eps = 1e-11 * np.maximum(xs.get(n, 1.), np.abs(hi - lo))
            if not np.all((x >= lo - eps) & (x <= hi + eps)):
                rec.fail('outside-bracket', 'output %s = %s is outside of '
                         'its bracket %s .. %s' % (n, x, lo, hi), **txt)
                return
            w = eps + (0. if limit is None else
                       (hi - lo) * 2.**-limit)
            a = sysm.unpack(sysm.F(dict(pt, **{n: np.maximum(
                x - w, lo)})))[n]
            b = sysm.unpack(sysm.F(dict(pt, **{n: np.minimum(
                x + w, hi)})))[n]
            mid = sysm.unpack(sysm.F(dict(pt, **{n: x})))[n]
            ok = (a * b <= 0) | (np.abs(mid) < 1e-9 * sysm.scale)
            if not np.all(ok):
                rec.fail('not-a-root', 'output %s: no root within %s of %s, '
                         'bracket %s .. %s, residual %s' % (
                             n, w.max(), x, lo, hi, mid), **txt)
                return
        if limit is None:
            at = dict(pt, **got)
            dF = sysm.dF(at, sysm.states)
            cols = np.concatenate([np.full(int(np.prod(sysm.shapes[n])),
                                           xs.get(n, 1.))
                                   for n in sysm.states])
            if np.linalg.cond(dF * cols) < 1e3:
                J = sysm.ift(at, sysm.params)
                T = oracle.totals(p, sysm.states, sysm.params)
                r0 = 0
                for n in sysm.states:
                    c0, sz = 0, int(np.prod(sysm.shapes[n]))
                    for q in sysm.params:
                        s2 = int(np.prod(sysm.shapes[q]))
                        d = oracle.mismatch(
                            T[n][q], J[r0:r0 + sz, c0:c0 + s2], 1e-6,
                            np.abs(J[r0:r0 + sz]).max())
                        rec.count('derivs')
                        c0 += s2
                        if d:
                            rec.fail('bracket-deriv', 'd %s / d %s (%s): %s'
                                     % (n, q, mode, d), **txt)
                            return
                    r0 += sz
    if len(sysm.states) > 1:
        rec.count('several')
    rec.count('decreasing_entries', dec)
    if not mono:
        rec.count('non_monotone')
    rec.sig((sysm.prog.signature(), kinds, limit))
    rec.show({'brackets': {n: [str(v) for v in b]
                           for n, b in spelled.items()}, 'maxiter': limit})
