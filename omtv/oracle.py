"""Oracles over executions: values, derivatives, execution-order events."""
import collections
import re

import numpy as np

from omtv.core import target, Violation

RTOL_V, RTOL_D = 1e-9, 1e-6


def mismatch(got, ref, rtol, scale=None):
    """None if equal; otherwise a description.  The scale of the comparison
    is the largest magnitude involved, so cancellation is not an error."""
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape:
        return 'shape %s, expected %s' % (got.shape, ref.shape)
    s = max(1., float(np.max(np.abs(ref))) if ref.size else 0.,
            scale or 0.)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(got - ref) <= rtol * s)
    if bad.any():
        k = int(np.flatnonzero(bad.ravel())[0])
        return '%d of %d entries differ; entry %d is %r, expected %r' % (
            bad.sum(), bad.size, k, got.ravel()[k], ref.ravel()[k])
    return None


def ops_text(prog, i):
    """The expression of one output, for messages."""
    m = {s['id']: s for s in prog.stmts}

    def t(j, d):
        s = m[j]
        if s['op'] in ('input', 'indep'):
            return s['p']['name'] + str(tuple(s['p']['shape']))
        if d > 4:
            return '...'
        extra = {k: v for k, v in s['p'].items() if v is not None}
        return '%s(%s%s)' % (s['op'], ', '.join(
            t(a, d + 1) for a in s['args']), ', ' + str(extra)[:120]
            if extra else '')
    return t(i, 0)


def culprit(prog, p, pt, bad):
    """Smallest failing output (fewest needed statements)."""
    return min(bad, key=lambda n: len(prog.needed([(n, dict(
        (a, b) for a, b in prog.outs)[n])])))


def check_values(rec, prog, p, pt, label='', mech='value'):
    """Every registered output equals the reference at this point."""
    ref = prog.outputs(pt)
    bad = {}
    for n, v in ref.items():
        with target('reading output ' + n):
            got = np.array(p.get_val(n))
        rec.count('outputs_compared')
        rec.count('entries_compared', int(v.size))
        d = mismatch(got, v, RTOL_V)
        if d:
            bad[n] = d
    if bad:
        n = culprit(prog, p, pt, bad)
        i = dict((a, b) for a, b in prog.outs)[n]
        rec.fail(mech + ':' + prog.stmt(i)['op'],
                 '%soutput %s = %s: %s' % (label, n, ops_text(prog, i),
                                           bad[n]))
        return False
    return True


def totals(p, of, wrt):
    with target('compute_totals'):
        return p.compute_totals(of=of, wrt=wrt, return_format='dict')


def check_totals(rec, prog, p, pt, label='', J=None, mech='deriv',
                 dtot=totals):
    J = prog.jac(pt) if J is None else J
    of = [n for n, _ in prog.outs]
    wrt = [s['p']['name'] for s in prog.live_sources()]
    if not of or not wrt:
        return True
    T = dtot(p, of, wrt)
    bad = {}
    for o in of:
        # scale: largest sensitivity of this output
        sc = max([float(np.max(np.abs(J[o, w]))) for w in wrt] + [0.])
        for w in wrt:
            got = np.asarray(T[o][w])
            rec.count('jacobian_blocks')
            rec.count('jacobian_entries', int(J[o, w].size))
            if np.any(J[o, w]):
                rec.count('nonzero_blocks')
            d = mismatch(got, J[o, w], RTOL_D, sc)
            if d:
                bad.setdefault(o, (w, d))
    if bad:
        n = culprit(prog, p, pt, bad)
        i = dict((a, b) for a, b in prog.outs)[n]
        rec.fail(mech + ':' + prog.stmt(i)['op'],
                 '%sd %s / d %s, %s = %s: %s' % (
                     label, n, bad[n][0], n, ops_text(prog, i), bad[n][1]))
        return False
    return True


def run_model(p):
    with target('run_model'):
        p.run_model()
