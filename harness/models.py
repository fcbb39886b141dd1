"""Random models with small rational probabilities."""
import numpy as np
from task_models.lib.pomdp import POMDP


def row(rng, n, D, sparse=.4, det=.2):
    """n non-negative integers of sum D."""
    if rng.random() < det:
        r = [0] * n
        r[rng.randrange(n)] = D
        return r
    ok = [i for i in range(n) if rng.random() > sparse] or [rng.randrange(n)]
    r = [0] * n
    for _ in range(D):
        r[rng.choice(ok)] += 1
    return r


def gen(rng, n=None, na=None, no=None, D=None, sparse=None, rewards=10, det=None):
    n = n or rng.choice([2, 2, 3, 4])
    na = na or rng.choice([1, 2, 3])
    no = no or rng.choice([2, 2, 3])
    D = D or rng.choice([2, 4, 5, 10])
    sp = rng.choice([.2, .4, .6]) if sparse is None else sparse
    dt = rng.choice([0, .2, .5]) if det is None else det
    return {'n': n, 'D': D, 'start': row(rng, n, D, sp, dt),
            'T': [[row(rng, n, D, sp, dt) for _ in range(n)] for _ in range(na)],
            'O': [[row(rng, no, D, sp, dt) for _ in range(n)] for _ in range(na)],
            'R': [[[[rng.randint(-rewards, rewards) * 1000 for _ in range(no)]
                    for _ in range(n)] for _ in range(n)] for _ in range(na)]}


def skewed(rng, m, D=1000):
    """The same model, with very likely and very unlikely outcomes."""
    def one(r):
        k = max(range(len(r)), key=lambda i: r[i])
        r = [0 if x == 0 else rng.choice([1, 2, 9]) if i != k else 0 for i, x in enumerate(r)]
        r[k] = D - sum(r)
        return r
    return dict(m, D=D, start=one(m['start']), T=[[one(r) for r in x] for x in m['T']],
                O=[[one(r) for r in x] for x in m['O']])


def build(m, discount=.9, values='reward', cls=POMDP, **kw):
    D = float(m['D'])
    return cls(np.array(m['T']) / D, np.array(m['O']) / D, np.array(m['R']) / 1000.,
               np.array(m['start']) / D, discount, values=values, **kw)


def dims(m):
    return m['n'], len(m['T']), len(m['O'][0][0])
