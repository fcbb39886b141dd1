"""Records traces of the objects tasks are made of: equality, hash, collections,
conditions and circuits."""
from hlib import *
from task_models.state import State, NDimensionalState
from task_models.action import (Action, Condition, MatchAllCondition,
                                PrePostConditionAction)
from task_models.task import AbstractAction, MetaAction
from task_models.task_to_pomdp import CollaborativeAction
from task_models.snap_circuit import (SnapCircuitState, SnapCircuitPart,
                                      PartPresenceCondition, PlaceAction)
from task_models.lib.belief import ArrayBelief

args = parse_args()
P = args.prop
R = Recorder(args)

FINE = 70000000
DTYPES = [int, float, np.int32, np.float64, np.int8]


def arr(rng, v, scale=1):
    """Array with the given content, in some numeric type."""
    if scale != 1:
        return np.array([x / float(scale) for x in v])
    if v and max(v) >= FINE:  # numbers that differ by their last digit
        return np.array([1.5 + (x - FINE) * 2. ** -52 if x >= FINE else x for x in v])
    big = max([abs(x) for x in v] + [0]) > 100
    return np.array(v, dtype=rng.choice(DTYPES[:4] if big else DTYPES))


class World(object):

    def __init__(self, rng, style):
        self.rng = rng
        self.objs = {}
        self.n = 0
        self.py = {}
        n = rng.randint(1, 3)
        vec = lambda: [rng.randint(0, 1) for _ in range(n)]

        def cond():
            if rng.random() < .2:
                return self.new({'kind': 'all'})
            m = vec()
            if rng.random() < .2:  # on other features
                m = m + [rng.randint(0, 1)] if rng.random() < .5 else m[:1]
            big = rng.choice([1, 1, 1, 100000, FINE + 1])
            v = [(big + rng.randint(-1, 0)) * x for x in m]
            if rng.random() < .1:  # one value for all features
                return self.new({'kind': 'cond', 'm': [1] * rng.choice([1, len(m), 3]),
                                 'v': [big]})
            return self.new({'kind': 'cond', 'm': m, 'v': v})

        if style in ('states', 'mixed'):
            for _ in range(5):
                v = [rng.choice([-1, 0, 1, 2]) for _ in range(rng.choice([n, n, n + 1]))]
                if rng.random() < .2:
                    v = [x + 1000000 for x in v]
                self.new({'kind': 'nd', 'shape': [len(v)], 'v': v})
            v = [FINE + rng.randint(0, 1) for _ in range(n)]  # almost equal ones
            for _ in range(3):
                self.new({'kind': 'nd', 'shape': [n], 'v': v[:-1] + [FINE + rng.randint(0, 2)]})
            v = [rng.randint(0, 1) for _ in range(4)]
            self.new({'kind': 'nd', 'shape': [2, 2], 'v': v})
            self.new({'kind': 'nd', 'shape': [4], 'v': v})
        if style in ('conds', 'mixed', 'prepost'):
            cs = [cond() for _ in range(6)]
        if style in ('prepost', 'mixed'):
            for _ in range(6):
                self.new({'kind': 'prepost', 'pre': rng.choice(cs),
                          'post': rng.choice(cs)})
        if style in ('meta', 'mixed'):
            ab = [self.new({'kind': 'abs', 'name': x}) for x in 'abc']
            ab += [self.dup(x) for x in ab]
            pool = list(ab)
            for _ in range(8):
                ordered = rng.random() < .7
                sub = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
                if not ordered:
                    sub = self.distinct(sub)
                pool.append(self.new({
                    'kind': 'meta', 'of': rng.choice(['sequence', 'parallel', 'alternative']),
                    'ordered': ordered, 'sub': sub}))
            m = rng.choice(pool[len(ab):])
            d = dict(self.objs[m])
            d['sub'] = d['sub'][::-1]
            self.new(d)
            d = dict(self.objs[m])
            d['sub'] = [self.dup(x) for x in d['sub']]
            self.new(d)
        if style in ('circuit', 'mixed'):
            ps = [self.new({'kind': 'part', 'id': rng.randint(0, 2), 'label': rng.choice('xyX')})
                  for _ in range(5)]
            for _ in range(5):
                b = rng.choice([[2, 2], [2, 3], [3, 2]])
                parts = []
                for _ in range(rng.randint(0, 4)):
                    p = self.objs[rng.choice(ps)]
                    parts.append([rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 3),
                                  p['id'], p['label']])
                self.new({'kind': 'circuit', 'board': b, 'parts': [
                    [str(y) for y in x] for x in parts]})
        if style in ('belief', 'mixed'):
            for _ in range(5):
                k = rng.choice([2, 2, 3])
                v = rng.choice([[4, 0, 0], [0, 4, 0], [2, 2, 0], [1, 3, 0], [0, 0, 4],
                                [2, 1, 1]] if k == 3 else [[4, 0], [2, 2], [1, 3], [0, 4]])
                v = [x << 28 for x in v]
                if rng.random() < .4 and min(v[:2]) > 0:  # very close to another one
                    v[0] += 1
                    v[1] -= 1
                self.new({'kind': 'belief', 'v': v})
        for x in list(self.objs):
            if rng.random() < .6:
                self.dup(x)
        if rng.random() < .5:
            for k in rng.sample(['none', 'text', 'int', 'tuple', 'array', 'action'], 2):
                self.new({'kind': 'foreign-' + k})
        self.coll_names = [x for x in self.objs
                           if self.objs[x]['kind'] != 'foreign-array']

    def new(self, d):
        name = 'o%d' % self.n
        self.n += 1
        self.objs[name] = d
        return name

    def dup(self, x):
        return self.new(dict(self.objs[x]))

    def canon(self, x):
        d = self.objs[x]
        return json.dumps([self.canon(y) for y in d['sub']] if d['kind'] == 'meta' and
                          d['ordered'] else
                          sorted(self.canon(y) for y in d['sub'])
                          if d['kind'] == 'meta' else d['name']) + d.get('of', '')

    def distinct(self, sub):
        out, seen = [], set()
        for x in sub:
            c = self.canon(x)
            if c not in seen:
                seen.add(c)
                out.append(x)
        return out

    def obj(self, name):
        """The object: always another one, but for those compared by identity."""
        d, rng = self.objs[name], self.rng
        k = d['kind']
        if k.startswith('foreign'):
            if name not in self.py:
                self.py[name] = {'none': None, 'text': 'foo', 'int': 3, 'tuple': ('a', 1),
                                 'array': 'arr', 'action': Action('foo')}[k[8:]]
            return self.py[name]
        if k == 'nd':
            return NDimensionalState(arr(rng, d['v']).reshape(d['shape']))
        if k == 'cond':
            return Condition(arr(rng, d['m']), arr(rng, d['v']))
        if k == 'all':
            return MatchAllCondition()
        if k == 'prepost':
            return PrePostConditionAction(self.obj(d['pre']), self.obj(d['post']),
                                          name=rng.choice(['x', 'y']))
        if k == 'abs':
            return rng.choice([AbstractAction(d['name']),
                               CollaborativeAction(d['name'], (1, 2, 3))])
        if k == 'meta':
            sub = [self.obj(x) for x in d['sub']]
            if not d['ordered']:
                rng.shuffle(sub)
            return MetaAction(d['of'], sub if d['ordered'] else set(sub))
        if k == 'part':
            return SnapCircuitPart(d['id'], d['label'])
        if k == 'circuit':
            parts = [((int(x), int(y), int(o)), SnapCircuitPart(int(i), l))
                     for x, y, o, i, l in d['parts']]
            rng.shuffle(parts)
            return SnapCircuitState(tuple(d['board']), rng.choice([list, set])(parts))
        if k == 'belief':
            if all(x in (0, 1 << 30) for x in d['v']) and rng.random() < .5:
                return ArrayBelief(np.array([x >> 30 for x in d['v']]))
            v = [x / 2. ** 30 for x in d['v']]
            return ArrayBelief(rng.choice([list, np.array])(v))
        raise ValueError(k)

    def cfg(self):
        return {'objs': self.objs}


def tf(out):
    o, v = out
    if o != 'ok':
        return o
    return {True: 'true', False: 'false'}.get(v if isinstance(v, (bool, np.bool_)) and
                                              bool(v) == v else bool(v), 'odd')


def sc_equality(style):
    def run(ev, rng):
        w = World(rng, style)
        names = list(w.objs)
        pairs = [(x, y) for x in names for y in names]
        rng.shuffle(pairs)
        # all pairs of same kind first
        pairs.sort(key=lambda p: w.objs[p[0]]['kind'] != w.objs[p[1]]['kind'])
        for x, y in pairs[:160]:
            a, b = w.obj(x), w.obj(y)
            h = outcome(lambda: 'same' if hash(a) == hash(b) else 'other')
            ev.append({'op': 'eq', 'x': x, 'y': y, 'eq': tf(outcome(lambda: a == b)),
                       'qe': tf(outcome(lambda: b == a)),
                       'ne': tf(outcome(lambda: a != b)),
                       'hash': h[1] if h[0] == 'ok' else h[0]})
        return w.cfg()
    return run


def sc_collection(style):
    def run(ev, rng):
        w = World(rng, style)
        s, d = set(), {}
        for i in range(60):
            x = rng.choice(w.coll_names)
            k = rng.random()
            if k < .5:
                def put():
                    s.add(w.obj(x))
                    d[w.obj(x)] = i
                out, _ = outcome(put)
                ev.append({'op': 'put', 'x': x, 'v': i, 'out': out, 'n': len(s), 'm': len(d)})
            elif k < .65:
                def rem():
                    o1, _ = outcome(s.remove, w.obj(x))
                    o2, _ = outcome(d.pop, w.obj(x))
                    return o1 if o1 == o2 else o1 + '/' + o2
                out = rem()
                ev.append({'op': 'del', 'x': x, 'out': out, 'n': len(s), 'm': len(d)})
            else:
                c1 = tf(outcome(lambda: w.obj(x) in s))
                c2 = tf(outcome(lambda: w.obj(x) in d))
                out, v = outcome(lambda: d[w.obj(x)])
                ev.append({'op': 'get', 'x': x, 'in': c1 if c1 == c2 else 'odd',
                           'out': out, 'v': v if out == 'ok' else -1})
        return w.cfg()
    return run


class Own(State):

    def __init__(self, f):
        self.f = f

    def get_features(self):
        return self.f

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return self is other


def sc_conditions(ev, rng):
    for _ in range(25):
        n = rng.randint(1, 4)
        pool = rng.choice([[0, 1], [-1, 0, 1, 2], [0, 1, 2, 3], [0, 1000000, 1000001, 999999],
                           [0, 1]])
        small = rng.random() < .3  # features that are all close to zero

        def arr(rng, v):
            return np.array(v) * 2. ** -40 if small else globals()['arr'](rng, v)

        def mk():
            """A condition, described and built; sometimes ill-formed."""
            if rng.random() < .1:
                return {'all': True, 'm': [], 'v': []}, MatchAllCondition()
            m = [rng.randint(0, 1) for _ in range(n)]
            v = [rng.choice(pool) * x for x in m]
            if rng.random() < .15:
                v = [rng.choice(pool) for _ in m]
            out, c = outcome(lambda: Condition(np.array(m), arr(rng, v)))
            ev.append({'op': 'cond', 'm': m, 'v': v, 'out': out})
            return ({'all': False, 'm': m, 'v': v}, c) if out == 'ok' else mk()

        def st(c=None):
            f = [rng.choice(pool) for _ in range(n)]
            if c is not None and not c['all'] and rng.random() < .7:
                # satisfied, up to one feature
                f = [y if x else z for x, y, z in zip(c['m'], c['v'], f)]
                if rng.random() < .5:
                    i = rng.randrange(n)
                    f[i] = rng.choice(pool)
            if rng.random() < .5:
                return f, NDimensionalState(arr(rng, f))
            return f, Own(arr(rng, f))

        c, oc = mk()
        for _ in range(3):
            f, s = st(c)
            ev.append({'op': 'check', 'c': c, 'f': f, 'out': tf(outcome(oc.check, s))})
        q, oq = mk()
        act = PrePostConditionAction(oc, oq, name='act')
        for _ in range(4):
            f, s = st(c)
            f1, s1 = st(q)
            ev.append({'op': 'action', 'pre': c, 'post': q, 'before': f, 'after': f1,
                       'out': tf(outcome(act.check, s, s1))})
    return {'objs': {}}


def sc_all_conditions(n):
    def run(ev, rng):
        """All 0/1 conditions on n features, all states."""
        import itertools
        B = list(itertools.product([0, 1], repeat=n))
        for m in B:
            for v in B:
                out, c = outcome(lambda: Condition(np.array(m), np.array(v)))
                ev.append({'op': 'cond', 'm': list(m), 'v': list(v), 'out': out})
                if out == 'ok':
                    for f in B:
                        ev.append({'op': 'check', 'c': {'all': False, 'm': list(m), 'v': list(v)},
                                   'f': list(f), 'out': tf(outcome(
                                       c.check, NDimensionalState(np.array(f))))})
        return {'objs': {}}
    return run


def sc_circuit(ev, rng):
    for _ in range(12):
        board = (rng.randint(1, 4), rng.randint(1, 4))

        def part():
            return [rng.randint(0, 19), rng.randrange(board[0]), rng.randrange(board[1]),
                    rng.randint(0, 3)]

        def mk(ps):
            items = [((x, y, o), SnapCircuitPart(i, 'p%d' % i)) for i, x, y, o in ps]
            rng.shuffle(items)
            return SnapCircuitState(board, items)

        ps = [part() for _ in range(rng.randint(0, 4))]
        s = mk(ps)
        f = np.array(s.features)
        flat = np.array(s.get_features())
        given = [[str(i), str(x), str(y), str(o), 'p%d' % i] for i, x, y, o in ps]
        got = [[str(p.id)] + [str(z) for z in loc] + [p.label] for loc, p in s.parts]
        nz = np.argwhere(f).tolist()
        ev.append({'op': 'circuit', 'board': list(board), 'parts': ps, 'feat': nz,
                   'ones': 'true' if all(f[tuple(i)] == 1 for i in nz) else 'false',
                   'shape': list(f.shape), 'flat': np.nonzero(flat)[0].tolist(),
                   'dim': int(s.n_dim), 'len': int(flat.size), 'given': given, 'got': got})
        for _ in range(6):
            x = rng.choice(ps) if ps and rng.random() < .6 else part()
            if ps and rng.random() < .3:
                x = list(rng.choice(ps))
                k = rng.randrange(4)
                x[k] = part()[k]
            loc = tuple(x[1:])
            p = SnapCircuitPart(x[0], 'p%d' % x[0])
            there = rng.random() < .5
            ev.append({'op': 'presence', 'x': x, 'there': there, 'parts': ps,
                       'out': tf(outcome(lambda: PartPresenceCondition(
                           board, p, loc, is_there=there).check(mk(ps))))})
            after = [list(q) for q in ps]
            if rng.random() < .8:
                after.append(x)
            if rng.random() < .3:
                after.append(part())
            if rng.random() < .2 and after:
                after.pop(rng.randrange(len(after)))
            before = [q for q in ps if q != x] if rng.random() < .6 else ps
            a = PlaceAction(board, p, loc)
            ev.append({'op': 'place', 'x': x, 'before': before, 'after': after,
                       'out': tf(outcome(a.check, mk(before), mk(after))),
                       'pos': [int(z) for z in a.position], 'ori': int(a.orientation)})
    return {'objs': {}}


def many(name, n, fun):
    for i in range(n * (6 if THOROUGH else 1)):
        R.scenario('%s-%d' % (name, i), fun)


if P in ('G06', 'ALL'):
    for st in ('states', 'conds', 'prepost', 'meta', 'circuit', 'belief', 'mixed'):
        many('eq-' + st, 6, sc_equality(st))
        many('coll-' + st, 10, sc_collection(st))
if P in ('G07', 'ALL'):
    many('cond', 60, sc_conditions)
    many('circuit', 60, sc_circuit)
    for n in (1, 2, 3):
        R.scenario('all-%d' % n, sc_all_conditions(n))
R.close()
