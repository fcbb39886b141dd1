"""Records belief updates, sampled transitions, construction and dumps of models."""
from hlib import *
import models
import exactrng
from pomdp_io import K, Unreadable, read_pomdp, model_of
from task_models.lib.pomdp import POMDP, Impossible

args = parse_args()
P = args.prop
R = Recorder(args)


def arrays(p):
    return [np.array(x, copy=True) for x in (p.T, p.O, p.R, p.start)]


def same(p, old):
    return all(np.array_equal(x, y) for x, y in zip((p.T, p.O, p.R, p.start), old))


# -- P01 --------------------------------------------------------------------------


def sc_belief(ev, rng):
    m = models.gen(rng)
    n, na, no = models.dims(m)
    cost = rng.random() < .4
    ev.cfg = {'m': m, 'cost': cost}
    kw = {}
    if rng.random() < .5:
        kw = {'states': ['s%d' % i for i in range(n)], 'actions': ['a%d' % i for i in range(na)],
              'observations': ['o%d' % i for i in range(no)]}
    p = models.build(m, values='cost' if cost else 'reward', **kw)
    old = arrays(p)
    b = np.array(p.start)
    for _ in range(rng.randint(4, 14)):
        k = rng.random()
        a, o = rng.randrange(na), rng.randrange(no)
        if k < .1:
            b = np.array(p.start)
            ev.append({'op': 'reset'})
        elif k < .7:
            c = np.array(b)
            out, x = outcome(p.belief_update, a, o, b)
            ev.append({'op': 'update', 'a': a + 1, 'o': o + 1, 'out': out,
                       'b': [fix(v, K) for v in x] if out == 'ok' else [],
                       'same': np.array_equal(b, c) and same(p, old)})
            if out == 'ok':
                b = x
        else:
            w = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
            if sum(w) == 0:
                w[rng.randrange(n)] = 1
            given = np.array(w) / float(sum(w))
            c = np.array(given)
            out, x = outcome(p.belief_update, a, o, given)
            ev.append({'op': 'from', 'w': w, 'a': a + 1, 'o': o + 1, 'out': out,
                       'b': [fix(v, K) for v in x] if out == 'ok' else [],
                       'same': np.array_equal(given, c) and same(p, old)})


EPS = 1e-9


def tiny_row(rng, n, D):
    """<<coefficient, exponent>>, those of exponent 0 sum to D."""
    r = [[x, 0] for x in models.row(rng, n, D, .5, .4)]
    for i in range(n):
        if r[i][0] == 0 and rng.random() < .6:
            r[i] = [rng.randint(1, 3), rng.choice([1, 1, 2])]
    return r


def tiny_array(x, D):
    x = np.array(x, dtype=float)
    a = x[..., 0] / D * EPS ** x[..., 1]
    return a / a.sum(-1)[..., None]


def sc_tiny(ev, rng):
    n, na, no, D = rng.choice([2, 3]), rng.choice([1, 2]), rng.choice([2, 3]), rng.choice([2, 4, 5])
    start = tiny_row(rng, n, D)
    LT = [[tiny_row(rng, n, D) for _ in range(n)] for _ in range(na)]
    LO = [[tiny_row(rng, no, D) for _ in range(n)] for _ in range(na)]
    ev.cfg = {'m': {'n': n, 'D': D, 'start': [x[0] for x in start], 'LT': LT, 'LO': LO}}
    p = POMDP(tiny_array(LT, D), tiny_array(LO, D), np.zeros((na, n, n, no)),
              tiny_array([start], D)[0], .9)
    old = arrays(p)
    for _ in range(3):
        b = np.array(p.start)
        ev.append({'op': 'tiny_start', 'w': start})
        for _ in range(4):
            a, o = rng.randrange(na), rng.randrange(no)
            c = np.array(b)
            out, x = outcome(p.belief_update, a, o, b)
            ev.append({'op': 'tiny', 'a': a + 1, 'o': o + 1, 'out': out,
                       'b': [fix(v, K) for v in x] if out == 'ok' else [],
                       'pos': [bool(v > 0) for v in x] if out == 'ok' else [],
                       'same': np.array_equal(b, c) and same(p, old)})
            if out == 'ok':
                b = x


def sc_sample(ev, rng):
    m = models.gen(rng)
    if rng.random() < .3:
        m = models.skewed(rng, m)
    n, na, no = models.dims(m)
    cost = rng.random() < .5
    ev.cfg = {'m': m, 'cost': cost}
    p = models.build(m, values='cost' if cost else 'reward')
    for a in range(na):
        for s in range(n):
            ex, d = exactrng.distribution(
                lambda: p.sample_transition(a, s),
                lambda r: (int(r[0]), int(r[1]), fix(r[2], 1000)))
            ev.append({'op': 'trans', 'a': a + 1, 's': s + 1, 'exact': ex,
                       'outs': [{'n': k[0] + 1, 'o': k[1] + 1, 'r': k[2], 'p': fix(v[0])}
                                for k, v in sorted(d.items())]})
    ex, d = exactrng.distribution(p.sample_start, lambda r: int(r))
    ev.append({'op': 'starts', 'exact': ex,
               'outs': [{'s': k + 1, 'p': fix(v[0])} for k, v in sorted(d.items())]})


# -- P02 --------------------------------------------------------------------------


def dirichlet(rng, shape):
    x = np.zeros(shape)
    for i in np.ndindex(*shape[:-1]):
        D = rng.choice([1, 2, 4, 5, 10])
        x[i] = np.array(models.row(rng, shape[-1], D)) / float(D)
    return x


def names(rng, n, pre, dup):
    l = rng.choice([['%s%d' % (pre, i) for i in range(n)], list(range(n)),
                    list(range(5, 5 + n)), [0, '0', 1, '1', 2, '2'][:n] if n < 7 else ['n%d' % i for i in range(n)], [True, False] if n == 2 else ['x%d' % i for i in range(n)]])
    l = list(l)
    if dup and n > 1:
        i, j = rng.sample(range(n), 2)
        l[i] = l[j]
    return l


def enc(x):
    """Different texts for different names."""
    return '"%s"' % x if isinstance(x, str) and x.isdigit() else str(x)


def spoil(rng, x):
    x = np.array(x)
    i = tuple(rng.randrange(d) for d in x.shape)
    k = rng.randint(0, 3)
    if k == 0:
        x[i] += rng.choice([.5, .01, .002, 5e-5, -5e-5])
    elif k == 1:
        x[i[:-1]] = 0.
    elif k == 2:
        x[i] = np.nan
    else:
        x[i[:-1]] *= rng.choice([.5, 2, 1.01])
    return x


def sc_build(ev, rng):
    ev.cfg = {}
    large = rng.random() < .15
    for _ in range(2 if large else 6):
        n, na, no = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
        if large:
            n, na, no = rng.choice([(12, 10, 1), (40, 3, 2), (3, 40, 2)])
        dS = {'T': (na, n, n), 'O': (na, n, no), 'R': (na, n, n, no), 'start': (n,)}
        defects = set()
        if rng.random() < .7:
            if large:
                defects.add(rng.choice(['nT', 'nO', 'none', 'dupS', 'dupA']))
            for _ in range(0 if large else rng.choice([1, 1, 1, 2])):
                defects.add(rng.choice(['sT', 'sO', 'sR', 'sStart', 'nT', 'nO', 'nStart', 'dupS',
                                        'dupA', 'dupO', 'disc', 'values', 'cS', 'cA', 'cO',
                                        'rank', 'sameT']))
        sh = dict(dS)
        for d, k in (('sT', 'T'), ('sO', 'O'), ('sR', 'R'), ('sStart', 'start')):
            if d in defects:
                s = list(sh[k])
                i = rng.randrange(len(s))
                s[i] += rng.choice([1, 1, -1]) if s[i] > 1 else 1
                sh[k] = tuple(s)
        if 'sameT' in defects:   # consistent, but not with the number of names
            sh['T'] = (na, n + 1, n + 1)
            sh['start'] = (n + 1,)
        arr = {k: dirichlet(rng, sh[k]) for k in ('T', 'O', 'start')}
        arr['R'] = np.array([float(rng.randint(-5, 5)) for _ in range(int(np.prod(sh['R'])))]
                            ).reshape(sh['R'])
        for d, k in (('nT', 'T'), ('nO', 'O'), ('nStart', 'start')):
            if d in defects:
                arr[k] = spoil(rng, arr[k])
        if 'rank' in defects:
            k = rng.choice(['T', 'O', 'R', 'start'])
            arr[k] = arr[k][None] if rng.random() < .5 or arr[k].ndim < 2 else arr[k][0]
        kw = {}
        for key, pre, d, c, cnt in (('states', 's', 'dupS', 'cS', n), ('actions', 'a', 'dupA', 'cA', na),
                                    ('observations', 'o', 'dupO', 'cO', no)):
            if d in defects or c in defects or rng.random() < .6:
                k = cnt + (rng.choice([-1, 1]) if c in defects else 0)
                kw[key] = names(rng, max(1, k), pre, d in defects)
        disc = rng.choice([0, 0., .5, .9, 1, 1.])
        if 'disc' in defects:
            disc = rng.choice([1.01, -.01, 2, -1, 1.5])
        values = rng.choice(['reward', 'cost', None])
        if 'values' in defects:
            values = rng.choice(['rewards', '', 'Cost', 'gain'])
        if values is not None:
            kw['values'] = values
        old = [np.array(arr[k]) for k in ('T', 'O', 'R', 'start')]
        out, p = outcome(lambda: POMDP(arr['T'], arr['O'], arr['R'], arr['start'], disc,
                                       **{k: (tuple(v) if k != 'values' and rng.random() < .3 else v)
                                          for k, v in kw.items()}))

        def given(k):
            return {'given': k in kw, 'l': [enc(x) for x in kw.get(k, [])]}
        ev.append({'op': 'build', 'out': out, 'sT': list(arr['T'].shape), 'sO': list(arr['O'].shape),
                   'sR': list(arr['R'].shape), 'sStart': list(arr['start'].shape),
                   'nT': [num(x) for x in np.ravel(arr['T'].sum(-1))],
                   'nO': [num(x) for x in np.ravel(arr['O'].sum(-1))],
                   'nStart': [num(x) for x in np.ravel(arr['start'].sum(-1))],
                   'states': given('states'), 'actions': given('actions'),
                   'observations': given('observations'), 'disc': num(disc),
                   'values': 'reward' if values is None else values,
                   'gotStates': [enc(x) for x in p.states] if out == 'ok' else [],
                   'gotActions': [enc(x) for x in p.actions] if out == 'ok' else [],
                   'gotObservations': [enc(x) for x in p.observations] if out == 'ok' else []})
        if out == 'ok' and rng.random() < .6:
            pe = rng.choice([None, 1e-3, .1, .5])
            out, _ = outcome(lambda: p.randomize() if pe is None else p.randomize(pe))
            sums = [num(x) for a in (p.T, p.O, p.start) for x in np.ravel(a.sum(-1))]
            out2, _ = outcome(lambda: POMDP(p.T, p.O, p.R, p.start, p.discount, states=p.states,
                                            actions=p.actions, observations=p.observations))
            ev.append({'op': 'randomize', 'out': out, 'sums': sums, 'rebuilt': out2,
                       'least': fix(min(p.T.min(), p.O.min()), 1e6)})


# -- P03 --------------------------------------------------------------------------


def nasty(rng, shape):
    """Distributions whose rounding is not obvious."""
    x = np.zeros(shape)
    for i in np.ndindex(*shape[:-1]):
        n = shape[-1]
        k = rng.randint(0, 5)
        if k == 0:
            v = np.ones(n)
        elif k == 1:
            v = np.array([rng.choice([0., 1., 1e-6, 4e-6, 6e-6]) for _ in range(n)])
            v[rng.randrange(n)] = 1.
        elif k == 2:
            v = np.array([rng.random() for _ in range(n)])
        elif k == 3:
            v = np.array([rng.choice([3., 7., 1 / 3., .5e-5]) for _ in range(n)])
        elif k == 4:  # all rounded up, or down
            e = rng.choice([.6e-5, .4e-5])
            v = np.full(n, (10 * 1e-5 + e))
            v[rng.randrange(n)] = 0
            v[rng.randrange(n)] += 1 - v.sum()
        else:
            v = np.zeros(n)
            v[rng.randrange(n)] = 1.
        x[i] = v / v.sum()
    return x


def sc_dump(ev, rng):
    ev.cfg = {}
    n, na, no = rng.choice([1, 2, 3, 5, 8]), rng.randint(1, 3), rng.randint(1, 4)
    T, O, start = nasty(rng, (na, n, n)), nasty(rng, (na, n, no)), nasty(rng, (n,))
    R_ = np.array([rng.choice([0., rng.randint(-50, 50), rng.uniform(-10, 10), 1 / 3.,
                               rng.randint(-1000, 1000) / 100.])
                   for _ in range(na * n * n * no)]).reshape((na, n, n, no))
    kw = {}
    for k, pre, c in (('states', 's', n), ('actions', 'do-', na), ('observations', 'o', no)):
        if rng.random() < .6:
            kw[k] = rng.choice([['%s%d' % (pre, i) for i in range(c)], list(range(c)),
                                ['%s%d' % (pre, c - i) for i in range(c)]])
    p = POMDP(T, O, R_, start, rng.choice([.9, 1, .95, 0.5, 1., .98765, .99995, .000125]),
              values=rng.choice(['reward', 'cost']), **kw)
    m = model_of(p)
    where = rng.random()
    if where < .7:
        out, text = outcome(p.dump)
    else:
        out, path = outcome(p.dump_to, WORK, 'model')
        text = open(path).read() if out == 'ok' else ''
        if out == 'ok':
            os.remove(path)
    f = {}
    if out == 'ok':
        try:
            f = read_pomdp(text)
        except (Unreadable, ValueError, IndexError) as e:
            out = 'unreadable: ' + str(e)
    ev.append({'op': 'dump', 'out': out, 'model': m, 'file': f})
    route = rng.randint(0, 2)
    path = os.path.join(WORK, 'model.json')

    def reload():
        if route == 0:
            return POMDP.from_json(p.as_json())
        if route == 1:
            p.save_as_json(path)
            return POMDP.load_from_json(path)
        return POMDP.from_dict(p.to_dict())
    out, q = outcome(reload)
    ev.append({'op': 'json', 'out': out, 'model': m, 'loaded': model_of(q) if out == 'ok' else {},
               'exact': out == 'ok' and all(np.array_equal(x, y) for x, y in zip(
                   (p.T, p.O, p.R, p.start), (q.T, q.O, q.R, q.start)))
               and p.states == q.states and p.actions == q.actions
               and p.observations == q.observations and p.discount == q.discount})


k = 8 if THOROUGH else 1
if P in ('P01', 'ALL'):
    for i in range(150 * k):
        R.scenario('belief-%d' % i, sc_belief)
    for i in range(80 * k):
        R.scenario('tiny-%d' % i, sc_tiny)
    for i in range(40 * k):
        R.scenario('sample-%d' % i, sc_sample)
if P in ('P02', 'ALL'):
    for i in range(80 * k):
        R.scenario('build-%d' % i, sc_build)
if P in ('P03', 'ALL'):
    for i in range(80 * k):
        R.scenario('dump-%d' % i, sc_dump)
R.close()
