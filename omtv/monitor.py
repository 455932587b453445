"""Monitors at the boundary between omtools and OpenMDAO: they observe which
components exist, how they are connected and when they execute."""
from omtv.core import target


def components(p):
    from openmdao.core.component import Component
    return [c for c in p.model.system_iter(include_self=False, recurse=True,
                                           typ=Component)
            if c.name != '_auto_ivc']


class ExecLog:
    """Event log of component executions during run_model."""

    def __init__(self, p):
        self.p = p
        self.events = []
        for c in components(p):
            self._wrap(c)

    def _wrap(self, c):
        orig = c._solve_nonlinear
        path = c.pathname

        def logged(*a, **k):
            self.events.append(path)
            return orig(*a, **k)
        c._solve_nonlinear = logged

    def run(self):
        self.events.clear()
        with target('run_model'):
            self.p.run_model()
        return list(self.events)


def connections(p):
    """(source component, target component, source var, target var) of every
    resolved connection between components of the model."""
    m = p.model
    out = []
    for tgt, src in m._conn_global_abs_in2out.items():
        if src.startswith('_auto_ivc.'):
            continue
        out.append((src.rsplit('.', 1)[0], tgt.rsplit('.', 1)[0], src, tgt))
    return out


def auto_fed(p):
    """Promoted names of inputs that nothing in the model computes."""
    m = p.model
    out = set()
    for tgt, src in m._conn_global_abs_in2out.items():
        if src.startswith('_auto_ivc.'):
            out.add(tgt)
    return out


def check_order(rec, p, events, label=''):
    """Every connected source component executed before its target, and each
    component executed exactly once in the pass."""
    first, n = {}, {}
    for k, c in enumerate(events):
        first.setdefault(c, k)
        n[c] = n.get(c, 0) + 1
    rec.count('exec_events', len(events))
    for c in components(p):
        if n.get(c.pathname, 0) != 1:
            rec.fail('exec-count', '%scomponent %s executed %d times in one '
                     'pass' % (label, c.pathname, n.get(c.pathname, 0)),
                     events=events)
            return False
    for s, t, sv, tv in connections(p):
        rec.count('edges_checked')
        if first[s] >= first[t]:
            rec.fail('feedback', '%s%s executed at position %d but its input '
                     '%s comes from %s, which executed at position %d' % (
                         label, t, first[t], tv, s, first[s]), events=events)
            return False
    return True
