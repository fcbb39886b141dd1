"""Reading of model files, and projection of models."""
import re
from decimal import Decimal
import numpy as np
from hlib import fix

K = 100000


class Unreadable(Exception):
    pass


def read_pomdp(text):
    """Strict reader of the files of the solver, as produced for full matrices."""
    lines = [l.strip() for l in text.split('\n')]
    lines = [l for l in lines if l and not l.startswith('#')]
    it = iter(range(len(lines)))
    pos = [0]

    def nxt():
        if pos[0] >= len(lines):
            raise Unreadable('end')
        pos[0] += 1
        return lines[pos[0] - 1]

    def number(t):
        if not re.match(r'^-?[0-9]+(\.[0-9]*)?$', t):
            raise Unreadable(t)
        d = Decimal(t) * K
        if d != int(d):
            raise Unreadable('too precise for this check: ' + t)
        return int(d)

    def header(key):
        k, _, v = nxt().partition(':')
        if k.strip() != key:
            raise Unreadable(key)
        return v.strip()

    def domain(v):
        t = v.split()
        if len(t) == 1 and t[0].isdigit():
            return [str(i) for i in range(int(t[0]))]
        return t
    d = {'discount': fix(float(header('discount')), 1000000)}
    if header('values') != 'reward':
        raise Unreadable('values')
    for k in ('states', 'actions', 'observations'):
        d[k] = domain(header(k))
    S, A, O = len(d['states']), len(d['actions']), len(d['observations'])

    def rows(n, cols):
        out = []
        for _ in range(n):
            t = nxt().split()
            if len(t) != cols:
                raise Unreadable('columns')
            out.append([number(x) for x in t])
        return out
    d['start'] = [number(x) for x in header('start').split()]
    if len(d['start']) != S:
        raise Unreadable('start')

    def blocks(key, args, n, cols):
        found = {}
        total = 1
        for names_ in args:
            total *= len(names_)
        for _ in range(total):
            t = [x.strip() for x in nxt().split(':')]
            if t[0] != key or len(t) != len(args) + 1:
                raise Unreadable(key)
            idx = tuple(names_.index(x) for x, names_ in zip(t[1:], args))
            if idx in found:
                raise Unreadable('twice')
            found[idx] = rows(n, cols)
        return [r for i in sorted(found) for r in found[i]]
    d['T'] = blocks('T', [d['actions']], S, S)
    d['O'] = blocks('O', [d['actions']], S, O)
    d['R'] = blocks('R', [d['actions'], d['states']], S, O)
    if pos[0] != len(lines):
        raise Unreadable('trailing lines')
    return d


def flat(x):
    x = np.asarray(x)
    return [[fix(v, K) for v in r] for r in x.reshape((-1, x.shape[-1]))]


def model_of(p):
    return {'discount': fix(p.discount, 1000000), 'states': [str(x) for x in p.states],
            'actions': [str(x) for x in p.actions], 'observations': [str(x) for x in p.observations],
            'start': [fix(v, K) for v in p.start], 'T': flat(p.T), 'O': flat(p.O), 'R': flat(p.R)}
