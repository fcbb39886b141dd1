"""Records extractions of hierarchical tasks from demonstrations."""
import itertools
from hlib import *
import trees
from task_models.state import State, NDimensionalState
from task_models.action import Action, Condition, PrePostConditionAction
from task_models.task import (TaskGraph, AbstractAction, MetaAction,
                              ConjugateTaskGraph, HierarchicalTask)

args = parse_args()
R = Recorder(args)


class HistoryState(State):

    def __init__(self, history):
        self.h = tuple(history)

    def get_features(self):
        return np.array([len(self.h)])

    def __hash__(self):
        return hash(self.h)

    def __eq__(self, other):
        return isinstance(other, HistoryState) and self.h == other.h

    def __ne__(self, other):
        return not self == other


# Tasks are ('Leaf', name) or (kind, [tasks]).

def executions(t):
    if t[0] == 'Leaf':
        return [[t[1]]]
    if t[0] == 'Alternative':
        return [e for c in t[1] for e in executions(c)]
    orders = ([t[1]] if t[0] == 'Sequential' else itertools.permutations(t[1]))
    res = []
    for o in orders:
        for es in itertools.product(*[executions(c) for c in o]):
            res.append([a for e in es for a in e])
    return res


def describe(t):
    if t[0] == 'Leaf':
        return {'k': 'Leaf', 'act': t[1], 'kids': []}
    return {'k': t[0], 'act': '', 'kids': [describe(c) for c in t[1]]}


def tasks_of(i, j, excl):
    if i == j:
        return [('Leaf', 'a%d' % i)]
    return [(k, l) for k in ('Sequential', 'Parallel') if k != excl
            for l in lists(i, j, k)]


def lists(i, j, k):
    res = []
    for m in range(i, j):
        for t in tasks_of(i, m, k):
            res += [[t, u] for u in tasks_of(m + 1, j, k)]
            if m + 1 < j:
                res += [[t] + l for l in lists(m + 1, j, k)]
    return res


def random_task(rng, n, excl=None, alt=False):
    """Random task with n leaves."""
    if n == 1:
        return ('Leaf', None)
    kinds = ['Sequential', 'Parallel'] + (['Alternative'] if alt else [])
    k = rng.choice([x for x in kinds if x != excl])
    m = rng.randint(2, n if rng.random() < .4 else min(n, 3))
    cuts = sorted(rng.sample(range(1, n), m - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    return (k, [random_task(rng, p, k, alt) for p in parts])


def named(t, names):
    if t[0] == 'Leaf':
        return ('Leaf', names.pop())
    return (t[0], [named(c, names) for c in t[1]])


class Vocabulary(object):

    def __init__(self, rng, actions):
        self.rng = rng
        self.actions = actions
        self.astyle = rng.choice(['abs', 'abs', 'pre'])
        self.sstyle = rng.choice(['hist', 'done'])
        self.metas = []

    def state(self, history):
        if self.sstyle == 'hist':
            return HistoryState(history)
        return NDimensionalState(np.array(
            [int(a in history) for a in self.actions]))

    def sname(self, s):
        if isinstance(s, HistoryState):
            return ':'.join(('h',) + s.h)
        return 's' + ''.join(str(int(x)) for x in s.get_features())

    def action(self, a):
        if self.astyle == 'abs':
            return AbstractAction(a)
        v = np.array([(self.actions.index(a) >> k) & 1 for k in range(4)])
        m = np.array([0] * len(self.actions))
        return Named(a, m, v)

    def name(self, o):
        if isinstance(o, MetaAction):
            for i, m in enumerate(self.metas):
                if m == o:
                    return 'M%d' % (i + 1)
            return '?'
        if isinstance(o, Action):
            return {'initial': 'I', 'terminal': 'T'}.get(o.name, o.name)
        if isinstance(o, State):
            return self.sname(o)
        return o

    def cproj(self, c):
        return {'trans': [[self.name(x) for x in t] for t in c.all_transitions()],
                'init': self.name(c.initial), 'term': self.name(c.terminal)}


class Named(PrePostConditionAction):
    """User-defined action, always possible."""

    def __init__(self, name, mask, extra):
        c = Condition(mask, mask)
        super(Named, self).__init__(c, c, name=name)

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, other):
        return isinstance(other, Named) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def check(self, pre, post):
        return True


def tree(x):
    return {'k': x['k'], 'act': x['act'], 'kids': [tree(y) for y in x['kids']]}


def extract(ev, rng, task, first):
    leaves = sorted({a for e in executions(task) for a in e})
    v = Vocabulary(rng, leaves)
    es = executions(task)
    rng.shuffle(es)
    g = TaskGraph()
    paths = []
    for e in es:
        p = [v.state([])]
        for i, a in enumerate(e):
            p += [v.action(a), v.state(e[:i + 1])]
        g.add_path(p)
        paths.append([v.name(x) for x in p])
    c = g.conjugate()
    ev.append({'op': 'demos', 'paths': paths, 'c': v.cproj(c)})
    n = 0
    while n < 30:
        n += 1
        if first:
            found = next(c.get_max_chains(), None)
        else:
            chains = list(c.get_max_chains())
            found = rng.choice(chains) if chains else None
        kind = 'sequence'
        if found is None:
            kind = 'parallel'
            if first:
                found = next(c.get_max_cliques(), None)
            else:
                qs = list(c.get_max_cliques())
                found = rng.choice(qs) if qs else None
            if found is not None and rng.random() < .5:
                found = list(found)
                rng.shuffle(found)
        if found is None:
            break
        acts = [v.name(x) for x in found]
        m = MetaAction(kind, found if rng.random() < .5 else list(found))
        acts = [v.name(x) for x in m.actions]
        v.metas.append(m)
        if rng.random() < .5 and isinstance(found, list):
            # an equal node
            m = MetaAction(kind, list(m.actions))
        c.compact(found, m)
        ev.append({'op': kind, 'acts': acts, 'new': 'M%d' % len(v.metas),
                   'c': v.cproj(c)})
        if len(c.all_nodes()) <= 1:
            break
    single = len(c.all_nodes()) == 0 and isinstance(c.initial, MetaAction)
    e = {'op': 'over', 'single': 'true' if single else 'false',
         'tree': {'k': 'Leaf', 'act': '', 'kids': []}}
    if single:
        root = c.initial.to_combination()
        HierarchicalTask(root=root).as_dictionary()
        e['tree'] = tree(trees.project(root, act=v.name))
    ev.append(e)
    return {'task': describe(task)}


def number(t):
    """Number of executions."""
    if t[0] == 'Leaf':
        return 1
    ns = [number(c) for c in t[1]]
    if t[0] == 'Alternative':
        return sum(ns)
    r = 1
    for i, x in enumerate(ns):
        r *= x * (i + 1 if t[0] == 'Parallel' else 1)
    return r


def sc_enum(task):
    def run(ev, rng):
        return extract(ev, rng, task, rng.random() < .5)
    return run


def sc_random(alt):
    def run(ev, rng):
        while True:
            n = rng.randint(2, 8)
            t = random_task(rng, n, alt=alt)
            if number(t) <= (120 if THOROUGH else 50):
                break
        names = ['b%d' % i for i in range(n)] + ['c%d' % i for i in range(n)]
        names = rng.sample(names, n)
        return extract(ev, rng, named(t, names), rng.random() < .5)
    return run


for n in range(1, 6 if THOROUGH else 5):
    for i, t in enumerate(tasks_of(1, n, None)):
        R.scenario('enum-%d-%d' % (n, i), sc_enum(t))
k = 6 if THOROUGH else 1
for i in range(90 * k):
    R.scenario('random-%d' % i, sc_random(False))
for i in range(30 * k):
    R.scenario('alternative-%d' % i, sc_random(True))
R.close()
