"""Exact distribution of the result of functions that draw random numbers with
numpy.random and random: all outcomes of all draws are enumerated."""
import random
from contextlib import contextmanager
import numpy as np


class Unsupported(Exception):
    pass


class TooMany(Exception):
    pass


class _Run(object):

    def __init__(self, prefix):
        self.prefix = prefix     # choices to make
        self.taken = []          # (chosen, alternatives)
        self.proba = 1.

    def branch(self, probas):
        """Chooses one outcome of a draw with the given probabilities."""
        alt = [i for i, p in enumerate(probas) if p > 1e-12]
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(alt):
            raise Unsupported('draws are not reproducible')
        self.taken.append((c, len(alt)))
        self.proba *= probas[alt[c]]
        return alt[c]


_run = None


class U(object):
    """Uniform number in [0, 1) known to be in [lo, hi)."""
    __array_ufunc__ = None

    def __init__(self):
        self.lo, self.hi = 0., 1.

    def below(self, x):
        x = float(x)
        if x <= self.lo:
            return False
        if x >= self.hi:
            return True
        p = (x - self.lo) / (self.hi - self.lo)
        if _run.branch([p, 1 - p]) == 0:
            self.hi = x
            return True
        self.lo = x
        return False

    def __lt__(self, x):
        return self.below(x)

    __le__ = __lt__

    def __gt__(self, x):
        return not self.below(x)

    __ge__ = __gt__

    def _no(self, *a):
        raise Unsupported('operation on uniform number')

    def __mul__(self, x):
        return Scaled(self, float(x))

    __rmul__ = __mul__
    __float__ = __int__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __truediv__ = __rtruediv__ = __eq__ = __ne__ = __bool__ = __index__ = _no
    __hash__ = object.__hash__


class Scaled(object):
    __array_ufunc__ = None

    def __init__(self, u, k):
        self.u, self.k = u, k
        if k <= 0:
            raise Unsupported('scale')

    def __lt__(self, x):
        return self.u.below(float(x) / self.k)

    __le__ = __lt__

    def __gt__(self, x):
        return not self.u.below(float(x) / self.k)

    __ge__ = __gt__

    def __int__(self):
        n = int(self.k)
        if n != self.k:
            raise Unsupported('int')
        for i in range(1, n):
            if self.u.below(i / self.k):
                return i - 1
        return n - 1

    def __float__(self):
        raise Unsupported('float')


class UArray(object):
    """Array of uniform numbers."""
    __array_ufunc__ = None

    def __init__(self, shape):
        self.a = np.empty(shape, dtype=object)
        for i in np.ndindex(self.a.shape):
            self.a[i] = U()
        self.shape = self.a.shape
        self.size = self.a.size

    def _compare(self, x, fun):
        x = np.broadcast_to(x, self.shape)
        out = np.zeros(self.shape, dtype=bool)
        for i in np.ndindex(self.shape):
            out[i] = fun(self.a[i], x[i])
        return out

    def __lt__(self, x):
        return self._compare(x, lambda u, y: u < y)

    __le__ = __lt__

    def __gt__(self, x):
        return self._compare(x, lambda u, y: u > y)

    __ge__ = __gt__

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __getitem__(self, i):
        return self.a[i]

    def __array__(self, *a, **k):
        raise Unsupported('array of uniform numbers')


def _size(size):
    return size if isinstance(size, tuple) else (int(size),)


def _uniform(size=None):
    if size is None:
        return U()
    return UArray(_size(size))


def _rand(*dims):
    return _uniform(dims if dims else None)


def _uniform_range(low=0., high=1., size=None):
    if low == 0. and high == 1.:
        return _uniform(size)
    raise Unsupported('uniform')


def _index(n, p=None):
    return _run.branch([1. / n] * n if p is None else [float(x) for x in p])


def _choice(a, size=None, replace=True, p=None):
    if isinstance(a, (int, np.integer)):
        n, get = int(a), lambda i: np.int64(i)
    else:
        arr = np.asarray(a)
        if arr.ndim != 1:
            raise ValueError("a must be 1-dimensional")
        n, get = len(arr), lambda i: arr[i]
    if n <= 0:
        raise ValueError("a must be greater than 0 unless no samples are taken")
    if p is not None:
        p = np.asarray(p, dtype=float)
        if p.shape != (n,):
            raise ValueError("'a' and 'p' must have same size")
        if abs(p.sum() - 1) > 1e-7:
            raise ValueError("probabilities do not sum to 1")
        if (p < 0).any():
            raise ValueError("probabilities are not non-negative")
    if size is None:
        return get(_index(n, p))
    if not replace:
        raise Unsupported('replace')
    shape = _size(size)
    out = [get(_index(n, p)) for _ in range(int(np.prod(shape)))]
    return np.array(out).reshape(shape)


def _randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    low, high = int(low), int(high)
    if high - low > 64:
        raise Unsupported('randint')
    if high <= low:
        raise ValueError("low >= high")
    if size is None:
        return low + _index(high - low)
    return np.array([low + _index(high - low) for _ in range(int(np.prod(_size(size))))]
                    ).reshape(_size(size))


def _binomial(n, p, size=None):
    if size is None and n == 1 and np.isscalar(p):
        return _run.branch([1. - p, float(p)])
    if n == 1:
        p = np.broadcast_to(p, p.shape if size is None else _size(size))
        out = np.zeros(p.shape, dtype=int)
        for i in np.ndindex(p.shape):
            out[i] = _run.branch([1. - p[i], float(p[i])])
        return out
    raise Unsupported('binomial')


def _multinomial(n, p, size=None):
    if n != 1 or size is not None:
        raise Unsupported('multinomial')
    out = np.zeros(len(p), dtype=int)
    out[_index(len(p), p)] = 1
    return out


def _permutation(x):
    l = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
    if len(l) > 5:
        raise Unsupported('permutation')
    out = []
    while l:
        out.append(l.pop(_index(len(l))))
    return np.array(out)


def _py_choice(seq):
    return seq[_index(len(seq))]


def _unsupported(*a, **k):
    raise Unsupported('draw')


NP = {'random': _uniform, 'random_sample': _uniform, 'ranf': _uniform, 'sample': _uniform,
      'rand': _rand, 'uniform': _uniform_range, 'choice': _choice, 'randint': _randint,
      'binomial': _binomial, 'multinomial': _multinomial, 'permutation': _permutation,
      'shuffle': _unsupported, 'dirichlet': _unsupported, 'randn': _unsupported,
      'normal': _unsupported, 'default_rng': _unsupported, 'RandomState': _unsupported}
PY = {'random': U, 'choice': _py_choice, 'randrange': _randint,
      'randint': lambda a, b: a + _index(b - a + 1), 'uniform': _uniform_range,
      'shuffle': _unsupported, 'choices': _unsupported, 'sample': _unsupported}


@contextmanager
def _patched():
    old = [(m, k, getattr(m, k)) for m, d in ((np.random, NP), (random, PY)) for k in d
           if hasattr(m, k)]
    try:
        for m, k, _ in old:
            setattr(m, k, (NP if m is np.random else PY)[k])
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def distribution(fun, key, limit=3000, samples=4000):
    """Distribution of key(fun()), as (exact, {key: (probability, result)}).
    When draws are made in an unknown manner, falls back to sampling."""
    global _run
    acc = {}
    stack = [[]]
    n = 0
    try:
        while stack:
            prefix = stack.pop()
            n += 1
            if n > limit:
                raise TooMany()
            _run = _Run(prefix)
            with _patched():
                res = fun()
            k = key(res)
            p = _run.proba
            acc[k] = (acc[k][0] + p if k in acc else p, res)
            taken = _run.taken
            for i in range(len(prefix), len(taken)):
                base = [c for c, _ in taken[:i]]
                for c in range(1, taken[i][1]):
                    stack.append(base + [c])
        return True, acc
    except (Unsupported, TooMany):
        pass
    finally:
        _run = None
    acc = {}
    for _ in range(samples):
        res = fun()
        k = key(res)
        acc[k] = (acc[k][0] + 1. / samples if k in acc else 1. / samples, res)
    return False, acc
