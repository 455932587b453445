"""Random model programs: a JSON-able list of statements over omtools'
public API plus, for every sample point, the reference value of every node."""
import numpy as np

from omtv import ops as O

SHAPES = [(1,), (1,), (3,), (3,), (2, 3), (2, 3), (3, 2), (3, 3), (4,),
          (2,), (2, 2), (2, 3, 2), (3, 1), (1, 3), (1, 1), (5,), (2, 2, 2),
          (3, 4), (4, 3), (1, 2, 3), (6,), (10,), (5, 3), (3, 3, 2),
          (3, 2, 3), (2, 1, 3, 2), (2, 2, 3, 1), (1, 2, 1, 3, 2), (12,),
          (2, 3, 4)]
LARGE = [(30,), (7, 8), (4, 5, 3), (2, 3, 2, 2, 2), (25, 2), (1, 40), (64,),
         (3, 3, 3, 3), (2, 2, 2, 2, 2, 1), (3, 17)]
RANKS = [(2, 1, 3, 1, 2), (1, 3, 1, 1, 2, 2), (3, 1, 2, 1, 2, 1, 1),
         (2, 2, 1, 2, 3), (1, 1, 1, 3), (2, 3, 1, 1, 1, 2)]
HUGE = [(1100,), (37, 31), (1031, 1), (1, 1027), (11, 10, 11), (520, 2),
        (3, 400), (1025,)]
SQUARE = [(4, 4), (5, 4), (4, 5), (5, 5), (4,), (5,)]


def rng_of(*key):
    return np.random.default_rng([int(k) & 0xffffffff for k in key])


def src_vals(rng, shape, k):
    """k sample values for a source; each source has a sign/range flavour so
    that every partial function finds arguments in its domain."""
    fl = rng.random()
    if fl < 0.35:
        lo, hi = 0.25, 2.2
    elif fl < 0.6:
        lo, hi = 0.15, 0.85
    elif fl < 0.8:
        lo, hi = -0.85, 0.85
    elif fl < 0.9:
        lo, hi = -2.2, -0.3
    elif fl < 0.94:
        lo, hi = -2.5, 2.5
    elif fl < 0.96:
        lo, hi = -12., 12.
    elif fl < 0.975:
        lo, hi = 20., 200.
    else:       # exact small integers, zero included
        return [rng.integers(-3, 4, size=shape).astype(float)
                for _ in range(k)]
    return [np.round(rng.uniform(lo, hi, size=shape), 4) for _ in range(k)]


class Prog:
    """stmts: [{'id','op','args','p'}]; sources have op 'input'/'indep' and
    p = {'name','shape','vals'}; outs: [[name, id]] in registration order."""

    def __init__(self, stmts=None, outs=None, k=2):
        self.stmts = stmts or []
        self.outs = outs or []
        self.k = k

    def json(self):
        return {'stmts': self.stmts, 'outs': self.outs, 'k': self.k}

    @staticmethod
    def load(d):
        return Prog(d['stmts'], d['outs'], d['k'])

    def stmt(self, i):
        for s in self.stmts:
            if s['id'] == i:
                return s
        raise KeyError(i)

    @property
    def sources(self):
        return [s for s in self.stmts if s['op'] in ('input', 'indep')]

    def needed(self, outs=None):
        """ids reachable from the registered outputs"""
        todo = [i for _, i in (self.outs if outs is None else outs)]
        seen = set()
        m = {s['id']: s for s in self.stmts}
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo.extend(m[i]['args'])
        return seen

    def live_sources(self):
        n = self.needed()
        return [s for s in self.sources
                if s['op'] == 'indep' or s['id'] in n]

    # ------------------------------------------------------------- reference
    def eval(self, point, over=None, ids=None):
        """Reference value of every node.  point: sample index, or a dict
        name -> array."""
        env = {}
        for s in self.stmts:
            if ids is not None and s['id'] not in ids:
                continue
            if s['op'] in ('input', 'indep'):
                n = s['p']['name']
                if over is not None and n in over:
                    v = np.asarray(over[n])
                elif isinstance(point, dict):
                    v = np.asarray(point[n])
                else:
                    v = np.array(s['p']['vals'][point],
                                 dtype=float).reshape(s['p']['shape'])
                env[s['id']] = v
            else:
                env[s['id']] = O.REG[s['op']].ref(
                    [env[a] for a in s['args']], s['p'])
        return env

    def outputs(self, point, over=None):
        env = self.eval(point, over, self.needed() |
                        {s['id'] for s in self.sources})
        return {n: env[i] for n, i in self.outs}

    def point(self, k):
        return {s['p']['name']: np.array(
            s['p']['vals'][k], dtype=float).reshape(s['p']['shape'])
            for s in self.sources}

    def jac(self, point):
        """Reference total Jacobian {(out, src): 2-D array} by complex step."""
        h = 1e-30
        J = {}
        srcs = self.live_sources()
        base = self.point(point) if not isinstance(point, dict) else point
        for s in srcs:
            n = s['p']['name']
            x = base[n]
            cols = {o: np.zeros((int(np.prod(self.shape_of(i))), x.size))
                    for o, i in self.outs}
            for j in range(x.size):
                xc = x.astype(complex)
                xc.flat[j] += 1j * h
                out = self.outputs(base, {n: xc})
                for o, v in out.items():
                    if np.iscomplexobj(v):
                        cols[o][:, j] = v.imag.ravel() / h
            for o in cols:
                J[o, n] = cols[o]
        return J

    def shape_of(self, i):
        if not hasattr(self, '_shapes') or i not in self._shapes:
            env = self.eval(0)
            self._shapes = {k: v.shape for k, v in env.items()}
        return self._shapes[i]

    def __len__(self):
        return len(self.stmts)

    def signature(self):
        n = self.needed()
        return '|'.join('%s:%s:%s' % (s['op'], ','.join(map(str, s['args'])),
                                      'x'.join(map(str, self.shape_of(
                                          s['id']))))
                        for s in self.stmts if s['id'] in n)


def words(rng, n):
    """Names that are parts of each other."""
    w = ['q', 'Q', 'q_', 'qq', 'q0', 'q1', 'q_q', 'qQ', 'q00', 'q01', 'q10',
         'q_0', 'q_1', 'q0_', 'qq0', 'q0q', 'Qq', 'Q0', 'q11', 'q1_', 'qqq',
         'q_00']
    while len(w) < n:
        w += [a + b for a in w[:22] for b in ('x', '2', 'q2')]
        w = list(dict.fromkeys(w))
    k = max(n, min(len(w), n + 2))
    return [w[i] for i in rng.permutation(k)[:n]]


def rename(pr, rng):
    """Give sources and outputs names that are parts of each other."""
    named = [s for s in pr.stmts
             if s['op'] in ('input', 'indep', 'assign')]
    old = list(dict.fromkeys([s['p']['name'] for s in named] +
                             [n for n, _ in pr.outs]))
    m = dict(zip(old, words(rng, len(old))))
    for s in named:
        s['p']['name'] = m[s['p']['name']]
    pr.outs = [[m[n], i] for n, i in pr.outs]


def generate(seed, n_ops, groups=None, n_src=None, k=2, p_indep=0.3,
             names=None, max_size=40, out_all=False, focus=None,
             exclude=(), hub=None, large=False):
    """Random program.  `focus`: op names guaranteed preferred.  `hub`: make
    the expression found after so many operations an argument of many."""
    rng = rng_of(*seed) if isinstance(seed, (list, tuple)) else rng_of(seed)
    pr = Prog(k=k)
    pool = O.Pool()
    nid = 0
    ns = n_src or int(rng.integers(2, 5))
    base = [SHAPES[rng.integers(len(SHAPES))] for _ in range(2)]
    if max_size == 40 and rng.random() < .03:
        # a few models with larger arrays and more axes
        base = [LARGE[rng.integers(len(LARGE))]] * 2
        max_size = 100
    elif rng.random() < .03:
        base = [RANKS[rng.integers(len(RANKS))]] * 2
    elif rng.random() < .05:
        base = [SQUARE[rng.integers(len(SQUARE))] for _ in range(2)]
    if large:
        base, max_size = [HUGE[rng.integers(len(HUGE))]] * 2, 1500
    for i in range(ns):
        sh = base[i % 2] if rng.random() < .5 or large else SHAPES[
            rng.integers(len(SHAPES))]
        vals = src_vals(rng, sh, k)
        op = 'indep' if rng.random() < p_indep else 'input'
        nm = names[i] if names else '%s%d' % ('x' if op == 'input' else 'd',
                                              i)
        pr.stmts.append({'id': nid, 'op': op, 'args': [],
                         'p': {'name': nm, 'shape': list(sh),
                               'vals': [v.ravel().tolist() for v in vals]}})
        pool.add(nid, sh, vals)
        pool.srcs.add(nid)
        nid += 1
    cand = [o for o in O.REG.values()
            if (groups is None or o.group in groups) and
            o.name not in exclude]
    w = np.array([o.weight for o in cand])
    w = w / w.sum()
    fc = [O.REG[f] for f in focus] if focus else []
    made = tries = 0
    while made < n_ops and tries < n_ops * 40:
        tries += 1
        if fc and (rng.random() < 0.5 or tries < 3):
            op = fc[rng.integers(len(fc))]
        else:
            op = cand[rng.choice(len(cand), p=w)]
        g = op.gen(rng, pool)
        if g is None:
            continue
        args, p = g
        if op.name == 'assign':
            ks = [alias_key(pr, a) for a in args]
            if len(set(ks)) < len(ks):
                continue
            p['name'] = 'o%d' % nid
        vals = [np.asarray(op.ref([pool.get(a)[2][j] for a in args], p))
                for j in range(k)]
        if vals[0].size == 0 or vals[0].size > max_size or vals[0].ndim > 8 \
                or vals[0].ndim == 0:
            continue
        if not all(np.all(np.isfinite(v)) for v in vals) or \
                O.amax(vals) > 3000:
            continue
        pr.stmts.append({'id': nid, 'op': op.name, 'args': list(args),
                         'p': p})
        pool.add(nid, vals[0].shape, vals)
        if made == hub:
            pool.hubs.append(nid)
        nid += 1
        made += 1
    # outputs: sinks are most interesting, plus a few intermediates
    ids = [s['id'] for s in pr.stmts if s['op'] not in ('input', 'indep')]
    used = {a for s in pr.stmts for a in s['args']}
    # '+x' returns x itself: it cannot be registered under a second name
    alias = {s['id']: s['args'][0] for s in pr.stmts if s['op'] == 'pos'}

    def root(i):
        while i in alias:
            i = alias[i]
        return i
    srcs = {s['id'] for s in pr.sources}
    outs, seen = [], set()
    for i in ids:
        r = root(i)
        if r in seen or r in srcs:
            continue
        if pr.stmt(r)['op'] == 'assign':
            # registered by create_output under its own name
            seen.add(r)
            outs.append([pr.stmt(r)['p']['name'], r])
            continue
        # indexing the same key twice returns the same expression object
        if out_all or i not in used or rng.random() < 0.25:
            st = pr.stmt(r)
            if st['op'] == 'getitem':
                key = alias_key(pr, r)
                if key in seen:
                    continue
                seen.add(key)
            seen.add(r)
            outs.append(['y%d' % len(outs), i])
    pr.outs = outs
    rng = rng_of(*(seed if isinstance(seed, (list, tuple)) else [seed]), 97)
    if not names and rng.random() < .15:
        rename(pr, rng)
    return pr


def alias_key(pr, i):
    """Identity of the expression object behind statement i."""
    s = pr.stmt(i)
    while s['op'] == 'pos':
        i = s['args'][0]
        s = pr.stmt(i)
    if s['op'] == 'getitem':
        return ('g', alias_key(pr, s['args'][0]),
                canon_key(s['p'], pr.shape_of(s['args'][0])))
    return i


def canon_key(p, shape):
    return tuple((tuple(slice(*x).indices(d)) if isinstance(x, list)
                  else (x, x + 1, 1)) for x, d in zip(p['key'], shape))
