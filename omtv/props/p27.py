"""Options: declared constraints always hold, reads return the last valid
value."""
from omtv import gen
from omtv.core import target
from omtv.props import common as C

PID = 'P27'
RULE = ('a random history of 10 to 60 declarations, assignments, bulk '
        'updates, reads, removals, membership tests and iterations over one '
        'to three options dictionaries per case, some read-only, some with '
        'options given at construction, checked step by step against a small '
        'sequential model: which steps raise which class of error, and '
        'every readable value after every step; distinct = history')
ASSUME = ['types are given as a type or a tuple, list or set of types; '
          'bounds are used with numbers only',
          'a declaration that fails because the default is not admissible '
          'leaves the dictionary as it was']
MIN = {'histories': 400, 'set_ok': 1500, 'set_rejected': 2000,
       'reads': 20000, 'reads_required': 500, 'read_only': 60,
       'constructed': 150, 'values': 500, 'types': 500, 'bounds': 500,
       'function': 200, 'none_allowed': 60, 'undeclared': 200,
       'update_stopped': 100, 'tables': 200, 'declare_failed': 200,
       'declare_failed_again': 80, 'types_listed': 150}
NAMES = ['a', 'b', 'c', 'long_name', 'x1', 'Z']
NUM = [-3, -1, 0, 1, 2, 5, 7, .5, 2.5, 5.0, -1.5, 1e3]
OTHER = ['s', 'tt', '', (1, 2), [1], True, None]
TYPES = [int, float, str, (int, float), (str, tuple), list, bool,
         [int, float], [str], {int, float}, {list, tuple, str}, [bool, str]]


class Rejected(Exception):
    pass


def checker(kind):
    def even(name, value):
        if not isinstance(value, (int, float)) or value % 2:
            raise Rejected('%s=%r' % (name, value))

    def short(name, value):
        if len(str(value)) > 3:
            raise Rejected('%s=%r' % (name, value))
    return {'even': even, 'short': short, None: None}[kind]


class Opt:
    """Model of one option."""

    def __init__(self, d):
        self.d = d
        self.set = 'default' in d
        self.value = d.get('default')

    def error(self, v):
        """Class of the error assigning v raises, or None."""
        d = self.d
        if not (v is None and d.get('allow_none')):
            if d.get('values') is not None and v not in d['values']:
                return ValueError
            if d.get('types') is not None and not isinstance(
                    v, tuple(d['types']) if isinstance(
                        d['types'], (list, set)) else d['types']):
                return TypeError
            if d.get('upper') is not None and v > d['upper'] or \
                    d.get('lower') is not None and v < d['lower']:
                return ValueError
        if d.get('check'):
            try:
                checker(d['check'])('n', v)
            except Rejected:
                return Rejected
        return None


def pick(rng, lst):
    return lst[int(rng.integers(len(lst)))]


def declaration(rng):
    d = {}
    r = rng.random()
    numeric = False
    if r < .3:
        d['values'] = [pick(rng, NUM + OTHER[:4])
                       for _ in range(int(rng.integers(1, 5)))]
    elif r < .65:
        d['types'] = pick(rng, TYPES)
        numeric = d['types'] in (int, float, (int, float), [int, float],
                                 {int, float})
    elif r < .8:
        numeric = True
    if numeric and rng.random() < .6:
        if rng.random() < .7:
            d['lower'] = pick(rng, [-2, 0, 1, -.5])
        if rng.random() < .7:
            d['upper'] = pick(rng, [2, 5, 5.5, 100])
    d['numeric'] = numeric
    if rng.random() < .2:
        d['check'] = pick(rng, ['even', 'short'])
    if rng.random() < .25:
        d['allow_none'] = True
    return d


def value(rng, d):
    """A value, often acceptable, comparable with the bounds."""
    v = value1(rng, d)
    if d is not None and rng.random() < .6:
        if d.get('allow_none') and not d.get('check') and \
                rng.random() < .2:
            return None
        for _ in range(8):
            if Opt(d).error(v) is None:
                break
            v = value1(rng, d)
    return v


def value1(rng, d):
    if d is None:
        return pick(rng, NUM + OTHER)
    if d.get('values') is not None and rng.random() < .6:
        return pick(rng, d['values'])
    if d.get('lower') is not None or d.get('upper') is not None:
        if d.get('types') is None:
            return pick(rng, NUM + ([None] if d.get('allow_none') else []))
        if rng.random() < .15:
            # rejected by type before bounds are looked at
            return pick(rng, ['s', (1, 2)] +
                        ([None] if d.get('allow_none') else []))
        return pick(rng, NUM)
    if d['numeric'] and rng.random() < .6:
        return pick(rng, NUM)
    return pick(rng, NUM + OTHER)


def kwargs(d):
    k = {n: d[n] for n in ('default', 'values', 'types', 'lower', 'upper',
                           'allow_none') if n in d}
    if d.get('check'):
        k['check_valid'] = checker(d['check'])
    k['desc'] = 'some words'
    return k


def cases(tier, seed):
    return C.seeds(seed, C.sized(tier, 600, 12000), tag=27)


def run(case, rec):
    import omtools.api as ot
    rng = gen.rng_of(case['seed'], 27)
    objs = []
    log = []

    def bad(mech, msg):
        rec.fail(mech, '%s; history: %s' % (msg, log[-8:]))
        return False

    def attempt(f):
        """(class of exception or None, result)"""
        try:
            return None, f()
        except (KeyError, ValueError, TypeError, RuntimeError,
                Rejected) as e:
            return e, None

    def observe(i):
        o, m, _ = objs[i]
        for n in NAMES:
            with target('testing membership'):
                inn = n in o
            if inn != (n in m):
                return bad('contains', 'option %s declared: %s' % (n, inn))
            e, v = attempt(lambda: o[n])
            if n not in m:
                if not isinstance(e, KeyError):
                    return bad('get-undeclared', 'reading the undeclared '
                               'option %s gives %r %r' % (n, e, v))
            elif not m[n].set:
                rec.count('reads_required')
                if not isinstance(e, RuntimeError):
                    return bad('get-required', 'reading the required option '
                               '%s that was not given gives %r %r' % (
                                   n, e, v))
            else:
                rec.count('reads')
                if e is not None or v is not m[n].value:
                    return bad('get', 'option %s is %r (%r), expected %r' % (
                        n, v, e, m[n].value))
        with target('iterating'):
            ks = list(o)
        if sorted(ks) != sorted(m):
            return bad('iterate', 'iteration gives %s, expected %s' % (
                ks, sorted(m)))
        return True

    def create():
        ro = bool(rng.random() < .2)
        init = {pick(rng, NAMES): declaration(rng)
                for _ in range(int(rng.integers(0, 4)))}
        for n, d in init.items():
            v = value(rng, d)
            if rng.random() < .5 and Opt(d).error(v) is None:
                d['default'] = v
        given = {}
        for n in list(init):
            if rng.random() < .5 and not ro:
                v = value(rng, init[n])
                if Opt(init[n]).error(v) is None:
                    given[n] = v

        class D(ot.OptionsDictionary):
            def initialize(self):
                for n, d in init.items():
                    self.declare(n, **kwargs(d))
        with target('creating options'):
            o = D(read_only=ro, **given)
        m = {n: Opt(d) for n, d in init.items()}
        for n, v in given.items():
            m[n].value, m[n].set = v, True
        if given:
            rec.count('constructed')
        if ro:
            rec.count('read_only')
        objs.append((o, m, ro))
        log.append(('create', len(objs) - 1, sorted(init), ro))

    create()
    for step in range(int(rng.integers(10, 60))):
        if len(objs) < 3 and rng.random() < .05:
            create()
        i = int(rng.integers(len(objs)))
        o, m, ro = objs[i]
        n = pick(rng, sorted(m) if m and rng.random() < .7 else NAMES)
        r = rng.random()
        if r < .2:
            d = declaration(rng)
            err = None
            if rng.random() < .5:
                d['default'] = value(rng, d)
                err = Opt(d).error(d['default'])
            log.append((i, 'declare', n, d))
            for k in ('values', 'types'):
                if k in d:
                    rec.count(k)
            if isinstance(d.get('types'), (list, set)):
                rec.count('types_listed')
            if 'lower' in d or 'upper' in d:
                rec.count('bounds')
            if d.get('check'):
                rec.count('function')
            e, _ = attempt(lambda: o.declare(n, **kwargs(d)))
            if err is None and e is not None or \
                    err is not None and not isinstance(e, err):
                bad('declare', 'declaring %s with %s gives %r, expected %s' %
                    (n, d, e, err))
                return
            if err is None:
                m[n] = Opt(d)
            else:
                rec.count('declare_failed')
                if n in m:
                    rec.count('declare_failed_again')
        elif r < .62:
            v = value(rng, m[n].d if n in m else None)
            log.append((i, 'set', n, v))
            e, _ = attempt(lambda: o.__setitem__(n, v))
            err = KeyError if n not in m or ro else m[n].error(v)
            if n not in m:
                rec.count('undeclared')
            if err is None and e is not None or \
                    err is not None and not isinstance(e, err):
                bad('set', 'setting %s to %r gives %r, expected %s' % (
                    n, v, e, err))
                return
            if err is None:
                m[n].value, m[n].set = v, True
                rec.count('set_ok')
                if v is None and m[n].d.get('allow_none'):
                    rec.count('none_allowed')
            else:
                rec.count('set_rejected')
        elif r < .8:
            ks = [pick(rng, sorted(m) if m and rng.random() < .8 else NAMES)
                  for _ in range(int(rng.integers(1, 4)))]
            new = {k: value(rng, m[k].d if k in m else None) for k in ks}
            log.append((i, 'update', new))
            err = None
            for k, v in new.items():
                err = KeyError if k not in m or ro else m[k].error(v)
                if err is not None:
                    rec.count('update_stopped')
                    break
                m[k].value, m[k].set = v, True
            e, _ = attempt(lambda: o.update(new))
            if err is None and e is not None or \
                    err is not None and not isinstance(e, err):
                bad('update', 'updating with %r gives %r, expected %s' % (
                    new, e, err))
                return
        elif r < .84:
            log.append((i, 'undeclare', n))
            with target('undeclaring an option'):
                o.undeclare(n)
            m.pop(n, None)
        elif all(x.set for x in m.values()):
            log.append((i, 'str'))
            with target('printing options'):
                lines = o.__rst__()
            rec.count('tables')
            rows = lines[3:-1]
            got = [ln.split()[0] for ln in rows if ln.split()]
            if got != sorted(m):
                bad('table', 'the table lists %s, expected %s' % (
                    got, sorted(m)))
                return
            for ln, k in zip(rows, sorted(m)):
                if not ln.split(None, 1)[1].startswith(str(m[k].value)):
                    bad('table', 'the table shows %r for %s, which is %r' % (
                        ln, k, m[k].value))
                    return
        for j in range(len(objs)):
            if not observe(j):
                return
    rec.count('histories')
    rec.sig(log)
    rec.show({'history': [str(x)[:90] for x in log][:8]})
