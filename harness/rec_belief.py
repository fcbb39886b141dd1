"""Records beliefs made of particles, and as arrays."""
from hlib import *
from collections import Counter
import models
from exactrng import distribution
from task_models.lib.belief import ArrayBelief, ParticleBelief, MaxSamplesReached
from task_models.lib.pomdp import POMDP

args = parse_args()
R = Recorder(args)
PK = 1000000


class Logged(POMDP):
    log = None

    def sample_transition(self, a, s):
        t, o, r = super(Logged, self).sample_transition(a, s)
        self.log[(int(a) + 1, int(s) + 1, int(t) + 1, int(o) + 1)] += 1
        return t, o, r


def counts(b, n):
    """Number of particles in each state, and frequencies as numbers of particles."""
    c = [0] * n
    for s in b.part_states:
        c[int(s)] += 1
    N = len(b.part_states)
    arr = b.array
    freq = [int(round(x * N)) if abs(x * N - round(x * N)) < 1e-6 else -1 for x in arr]
    if b.to_list() != arr.tolist():
        freq = []
    return c, freq


def draws(fun):
    exact, d = distribution(fun, key=int, limit=4000, samples=4000)
    return {'exact': exact, 'dist': [{'s': k + 1, 'p': fix(p, PK)} for k, (p, _) in sorted(d.items())]}


def sc_particles(ev, rng, n, D=None, steps=6, det=None):
    m = models.gen(rng, D=D or rng.choice([2, 4, 5, 10]), det=det)
    ns, na, no = models.dims(m)
    ev.cfg = {'m': m}
    p = models.build(m, cls=Logged)
    p.log = Counter()
    out, b = outcome(ParticleBelief, p.sample_start, ns, n)
    c, f = counts(b, ns) if out == 'ok' else ([], [])
    ev.append({'op': 'start', 'n': n, 'out': out, 'counts': c, 'freq': f})
    old = []
    for _ in range(steps):
        if n <= 300 and rng.random() < .4:
            ev.append(dict(draws(b.sample), op='sample'))
        a, o = rng.randrange(na), rng.randrange(no)
        if rng.random() < .6:  # an observation that is possible
            _, o, _ = p.sample_transition(a, b.sample())
        p.log.clear()
        ea, eo, new = 0, 0, None
        try:
            new = b.successor(p, a, o)
            out = 'ok'
        except MaxSamplesReached as e:
            out, ea, eo = 'MaxSamplesReached', int(e.action) + 1, int(e.observation) + 1
            str(e)
        except Exception as e:
            out = type(e).__name__
        c, f = counts(new, ns) if new is not None else ([], [])
        ev.append({'op': 'succ', 'n': n, 'a': int(a) + 1, 'o': int(o) + 1, 'out': out, 'counts': c, 'freq': f,
                   'before': counts(b, ns)[0], 'ea': ea, 'eo': eo,
                   'calls': [{'a': k[0], 's': k[1], 't': k[2], 'o': k[3], 'n': v}
                             for k, v in sorted(p.log.items())]})
        if new is not None:
            b = new
    ev.append(dict(draws(b.sample), op='sample'))


def sc_populate(ev, rng):
    for _ in range(8):
        ns, n = rng.choice([rng.randint(1, 6)] * 3 + [rng.randint(65, 300)]), rng.choice([1, 2, 5, 10, 99])
        given = [rng.randrange(ns) for _ in range(rng.choice([0, 1, 1, 2, 3, 10, 100]))]
        todo = list(given)

        def sampler():
            if not todo:
                raise MaxSamplesReached(0, 0, None)
            return todo.pop()
        out, b = outcome(ParticleBelief, sampler, ns, n)
        c, f = counts(b, ns) if out == 'ok' else ([], [])
        used = given[len(todo):]
        ev.append({'op': 'populate', 'ns': ns, 'n': n, 'given': [s + 1 for s in used], 'out': out,
                   'counts': c, 'freq': f})


def sc_arrays(ev, rng):
    m = models.gen(rng, D=rng.choice([2, 4, 5]))
    ns, na, no = models.dims(m)
    ev.cfg = {'m': m}
    p = models.build(m, cls=Logged)
    p.log = Counter()
    for _ in range(10):
        w = [rng.choice([0, 0, 1, 2, 3, 7]) for _ in range(ns)]
        if sum(w) == 0:
            w[rng.randrange(ns)] = 1
        W = sum(w)
        arr = np.array(w) / float(W)
        normal = rng.random() < .8
        if not normal:
            arr = arr * rng.choice([.5, 1.5, 2., 0., .9, 1.1])
        given = rng.choice([arr, arr.tolist(), tuple(arr.tolist())])
        out, b = outcome(ArrayBelief, given)
        e = {'op': 'array', 'w': w, 'normal': normal, 'out': out, 'list': [], 'dist': [], 'exact': True}
        ev.append(e)
        if out != 'ok' or not normal:
            continue
        e['list'] = [int(round(x * W)) if abs(x * W - round(x * W)) < 1e-9 else -1 for x in b.to_list()]
        e.update(draws(b.sample))
        a, o = rng.randrange(na), rng.randrange(no)
        out, new = outcome(b.successor, p, a, o)
        if out == 'ValueError':
            out = 'Impossible'
        ev.append({'op': 'asucc', 'w': w, 'a': a + 1, 'o': o + 1, 'out': out,
                   'b': [fix(x, 100000) for x in new.to_list()] if out == 'ok' else [],
                   'before': [int(round(x * W)) for x in b.to_list()]})


k = 4 if THOROUGH else 1
for n, num in ((1, 12), (2, 6), (5, 10), (30, 8), (100, 8)):
    for i in range(num * k):
        R.scenario('p%d-%d' % (n, i), lambda ev, rng: sc_particles(ev, rng, n, D=10 if i % 2 else None), timeout=60)
for i in range(6 * k):
    R.scenario('big%d' % i, lambda ev, rng: sc_particles(ev, rng, 2000, D=rng.choice([2, 4]), steps=2, det=0), timeout=100)
for i in range(15 * k):
    R.scenario('q%d' % i, sc_populate)
    R.scenario('a%d' % i, sc_arrays)
R.close()
