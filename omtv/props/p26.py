"""Distinct expressions never share a name; given names are the names."""
import re


from omtv import build, gen, monitor, oracle
from omtv.core import target
from omtv.props import common as C

PID = 'P26'
GROUPS = ['operator', 'elementwise', 'reduction', 'product', 'shape',
          'einsum', 'index', 'assign', 'cond']
RULE = ('random models set up after thousands of other expressions have '
        'been created in the same process, with outputs registered under '
        'names of many forms: every component and every output of the model '
        'has a valid name of its own, every registered name is readable and '
        'holds its own value, nothing else takes it; and streams of up to '
        '300000 expressions (crossing every change of name length) whose '
        'names must be pairwise distinct and valid; the generator of names '
        'alone is asked for up to 2**51; distinct = (model '
        'signature, names) or stream length')
ASSUME = ['users do not choose names that start with an underscore']
MIN = {'models': 250, 'names': 5000, 'streams': 2, 'stream_names': 330000,
       'registered': 700, 'like_parts': 150}
STEP_LIMIT = 200000000
VALID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]*$')
FORMS = ['y%d', 'out_%d', 'Y%d_', 'y_%d_z', 'comp%d', 'decompose%d',
         'very_long_name_of_an_output_number_%d', 'yy%dA', 'a%d', 'root%d',
         'z%dz%d', 'residual%d', 'x_%d']


def cases(tier, seed):
    out = [{'stream': 300000, 'seed': 0}, {'stream': 40000, 'seed': 1}]
    out += [{'far': 1, 'seed': k} for k in range(C.sized(tier, 2, 12))]
    if tier == 'thorough':
        out.append({'stream': 1500000, 'seed': 2})
    return out + C.seeds(seed, C.sized(tier, 500, 6000), tag=26)


def fresh(ot, x, k):
    """A new expression; several kinds."""
    return x * 2. if k % 3 == 0 else (x + x if k % 3 == 1 else ot.sin(x))


def run_far(case, rec):
    """Names of expressions far beyond what can be created in a check."""
    try:
        from omtools.utils.gen_hex_name import gen_hex_name
    except ImportError:
        rec.count('no_generator')
        return
    rng = gen.rng_of(case['seed'], 263)
    nums = set(range(2000))
    for e in range(10, 51):
        for b in [2 ** e] + [int(v) for v in rng.integers(
                2 ** e, 2 ** (e + 1), size=300)]:
            nums |= {b - 1, b, b + 1}
    for k in range(2, 9):
        for base in (62, 63, 64):
            nums |= set(range(base ** k - 70, base ** k + 70))
    names = {}
    with target('generating names'):
        for k in sorted(nums):
            n = gen_hex_name(k)
            if n in names or not isinstance(n, str) or not VALID.match(n) \
                    or not n.startswith('_'):
                rec.fail('far', 'expression %d is named %r, %s' % (
                    k, n, 'like %d' % names[n] if n in names else
                    'which a user could choose'))
                return
            names[n] = k
    rec.count('far_names', len(names))
    rec.sig(('far', case['seed']))


def run(case, rec):
    import omtools.api as ot
    if 'far' in case:
        return run_far(case, rec)
    if 'stream' in case:
        g = ot.Group()
        x = g.declare_input('x', shape=(2,))
        seen, last = set(), None
        with target('creating expressions'):
            for k in range(case['stream']):
                n = fresh(ot, x, k % 3 * 2 if k % 3 == 1 else k).name
                if n in seen or not isinstance(n, str) or \
                        not VALID.match(n) or n == 'x':
                    rec.fail('stream', 'expression %d is named %r, which is '
                             '%s' % (k, n, 'taken' if n in seen
                                     else 'not a valid name'))
                    return
                seen.add(n)
        rec.count('streams')
        rec.count('stream_names', len(seen))
        rec.sig(('stream', case['stream']))
        return
    rng = gen.rng_of(case['seed'], 26)
    pr = gen.generate([case['seed']], int(rng.integers(3, 16)),
                      groups=GROUPS, k=1, out_all=bool(rng.random() < .6))
    if not pr.outs:
        return
    names = {}
    for i, (n, j) in enumerate(pr.outs):
        if pr.stmt(j)['op'] == 'assign':
            names[n] = n
            continue
        f = FORMS[int(rng.integers(len(FORMS)))]
        names[n] = f.replace('%d', str(int(rng.integers(10**3))) + '_' +
                             'abcdefghijklmnopqrstuvwxyz'[i % 26] * (
                                 1 + i // 26))
    # names that look like those of the parts of others
    others = [s['p']['name'] for s in pr.sources]
    for i, (n, j) in enumerate(pr.outs):
        new = ['decompose_%s', 'comp_%s', 'comp_decompose_%s', '%s_0'][int(
            rng.integers(4))] % others[int(rng.integers(len(others)))]
        if pr.stmt(j)['op'] != 'assign' and rng.random() < .25 and \
                new not in names.values():
            names[n] = new
            rec.count('like_parts')
        others.append(names[n])
    pr.outs = [[names[n], j] for n, j in pr.outs]
    # other expressions created before
    g = ot.Group()
    x = g.declare_input('x', shape=(2,))
    with target('creating expressions'):
        for k in range(int(rng.integers(0, 3000))):
            fresh(ot, x, k)
    p = build.problem(pr, outer=['auto', 'self'][int(rng.integers(2))])
    comps = [c.pathname for c in monitor.components(p)]
    meta = p.model.get_io_metadata(iotypes='output',
                                   metadata_keys=['shape'])
    proms = [m['prom_name'] for a, m in meta.items()
             if not a.startswith('_auto_ivc')]
    rec.count('names', len(comps) + len(proms))
    for what, lst in (('component', comps), ('output', proms)):
        twice = {c for c in lst if lst.count(c) > 1}
        if twice:
            rec.fail('twice', '%s name used twice: %s' % (what, twice))
            return
        for c in lst:
            if not VALID.match(c.rsplit('.', 1)[-1]):
                rec.fail('invalid', '%s name %r' % (what, c))
                return
    pt = pr.point(0)
    oracle.run_model(p)
    if not oracle.check_values(rec, pr, p, pt, mech='named-value'):
        return
    for n, j in pr.outs:
        rec.count('registered')
        if proms.count(n) != 1:
            rec.fail('registered', 'output %s is not among %s' % (n, proms))
            return
    rec.count('models')
    rec.sig((pr.signature(), sorted(names.values())))
    rec.show({'outputs': [n for n, _ in pr.outs][:6],
              'automatic': sorted(set(proms) - {n for n, _ in pr.outs})[:6]})
