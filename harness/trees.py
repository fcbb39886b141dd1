"""Random task trees, as descriptions and as real objects."""
import json
import numpy as np
from fractions import Fraction
from hlib import num, fix
from task_models.action import (Action, Condition, MatchAllCondition,
                                PrePostConditionAction)
from task_models.task import (AbstractAction, LeafCombination, HierarchicalTask,
                              SequentialCombination, AlternativeCombination,
                              ParallelCombination)
from task_models import task_to_pomdp, bring_next_to_pomdp, supportive

CLASSES = {'Sequential': SequentialCombination, 'Alternative': AlternativeCombination,
           'Parallel': ParallelCombination}


def kind(node):
    if isinstance(node, LeafCombination):
        return 'Leaf'
    for k, c in CLASSES.items():
        if isinstance(node, c):
            return k
    return 'Unknown ' + type(node).__name__


def _plain(x):
    if isinstance(x, MatchAllCondition):
        return 'all'
    if isinstance(x, Condition):
        return [_plain(x.mask), _plain(x.value)]
    if isinstance(x, np.ndarray):
        return [_plain(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, float) or isinstance(x, int):
        return float(x)
    return x


ATTRS = ('agent', 'durations', 'h_proba', 'no_proba', 'fail_proba', 'obj',
         'conditions', 'hold', 'pre', 'post')


def describe_action(a):
    d = {k: _plain(getattr(a, k)) for k in ATTRS if hasattr(a, k)}
    return type(a).__name__ + json.dumps(d, sort_keys=True)


def project(node, act=describe_action):
    k = kind(node)
    if k == 'Leaf':
        return {'k': k, 'name': node.name, 'hi': bool(node.highlighted),
                'act': act(node.action), 'pr': [], 'kids': []}
    return {'k': k, 'name': node.name, 'hi': bool(node.highlighted), 'act': '',
            'pr': [num(p) for p in node.proba] if k == 'Alternative' else [],
            'kids': [project(c, act) for c in node.children]}


def objects(node, out=None):
    """All nodes and actions of a tree."""
    if out is None:
        out = []
    out.append(node)
    if kind(node) == 'Leaf':
        out.append(node.action)
    else:
        for c in node.children:
            objects(c, out)
    return out


def at(node, path):
    for i in path:
        node = node.children[i - 1]
    return node


def paths(node, want=None, here=()):
    out = []
    if want is None or kind(node) == want:
        out.append(list(here))
    if kind(node) != 'Leaf':
        for i, c in enumerate(node.children):
            out += paths(c, want, here + (i + 1,))
    return out


class Gen(object):
    """Generator of random trees with a given budget of leaves (counted after
    expansion of parallel nodes)."""

    def __init__(self, rng, leaf, budget=8, depth=3, kids=3, p_leaf=.4, names='unique',
                 kinds=('Sequential', 'Alternative', 'Parallel'), hi=.2, probas=True):
        self.rng, self.leaf, self.budget, self.depth = rng, leaf, budget, depth
        self.kids, self.p_leaf, self.names, self.kinds = kids, p_leaf, names, kinds
        self.hi, self.probas = hi, probas
        self.n = 0
        self.want = {}  # highlighted nodes

    def wanted(self, node, tree=None):
        """Projection of a tree as it was asked for."""
        tree = tree or project(node)
        tree['hi'] = self.want[id(node)]
        for n, t in zip(node.children if tree['kids'] else [], tree['kids']):
            self.wanted(n, t)
        return tree

    def name(self, pre):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def highlight(self):
        """Arguments; nodes are not highlighted by default."""
        hi = self.rng.random() < self.hi
        return {'highlighted': hi} if hi or self.rng.random() < .5 else {}

    def proba(self, n):
        if not self.probas or self.rng.random() < .5:
            return None
        return proba_vector(self.rng, n)

    def make(self, depth=None, budget=None, root=True):
        """Returns (node, size after expansion)."""
        rng = self.rng
        depth = self.depth if depth is None else depth
        budget = self.budget if budget is None else budget
        if depth == 0 or budget < 2 or (not root and rng.random() < self.p_leaf):
            kw = self.highlight()
            node = LeafCombination(self.leaf(self), **kw)
            self.want[id(node)] = kw.get('highlighted', False)
            return (node, 1)
        k = rng.choice(self.kinds)
        n = rng.choice([1] + [2] * 4 + list(range(2, self.kids + 1)))
        mult = 1
        if k == 'Parallel':
            n = min(n, 3)
            mult = [1, 1, 2, 6][n]
            if budget < n * mult:
                n, mult = (2, 2) if budget >= 4 else (1, 1)
        n = max(1, min(n, budget // mult))
        children, used = [], 0
        for i in range(n):
            b = (budget // mult - used - (n - 1 - i))
            c, s = self.make(depth - 1, max(1, b if i == n - 1 else rng.randint(1, b)), False)
            children.append(c)
            used += s
        kw = self.highlight()
        if k == 'Alternative':
            p = self.proba(len(children))
            if p is not None:
                kw['probabilities'] = p
        node = CLASSES[k](children, name=self.name('n'), **kw)
        self.want[id(node)] = kw.get('highlighted', False)
        return node, used * mult


# Shapes that random trees seldom have: a letter for each combination, '.' for leaves
SHAPES = [
    'S(A(.A(..)).)', 'S(.A(.A(.A(..)))..)', 'S(......)', 'A(........)', 'S(.A(.......).)',
    'S(.P(...))', 'S(P(..)A(.S(..)A(...)))', 'A(S(A(.A(..)).)S(..A(..)))',
    'S(S(S(..).)S(.A(.S(A(.A(..)).))))', 'A(A(A(..).).)', 'S(A(S(.))A(S(A(.))))',
    'A(.S(.A(..)A(...).))', 'S(A(..)A(..)A(..)A(..))', 'P(A(..).)', 'P(S(..)A(..))', 'S(.......)',
    'A(S(A(...)A(...)).)', 'S(.A(.......))', 'S(A(..)S(A(...)A(A(..).)))', 'A(P(..)S(P(..).))',
    'A(............)', 'S(.A(..........).)', 'S(...........)',
]


def shaped(g, shape):
    """Tree of a given shape."""
    def one(i):
        if shape[i] == '.':
            return LeafCombination(g.leaf(g)), i + 1
        k = {'S': 'Sequential', 'A': 'Alternative', 'P': 'Parallel'}[shape[i]]
        i += 2
        kids = []
        while shape[i] != ')':
            c, i = one(i)
            kids.append(c)
        return CLASSES[k](kids, name=g.name('n')), i + 1
    return one(0)[0]


def proba_vector(rng, n):
    w = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
    if sum(w) == 0:
        w[rng.randrange(n)] = 1
    return [float(Fraction(x, sum(w))) for x in w]


def leaf_mixed(g):
    rng = g.rng
    n = g.name('a')
    k = rng.randint(0, 5)
    if k == 0:
        return Action(n, agent=rng.choice(['human', 'robot', 'None']))
    if k == 1:
        return AbstractAction(n)
    if k == 2:
        return task_to_pomdp.CollaborativeAction(
            n, (rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 9)),
            human_probability=rng.choice([None, .5]),
            fail_probability=rng.choice([.1, .25, 0.]), no_probability=rng.choice([.1, .5]))
    if k == 3:
        return bring_next_to_pomdp.CollaborativeAction(n, rng.choice(['leg', 'top']))
    if k == 4:
        m = np.array([rng.randint(0, 1) for _ in range(2)])
        return PrePostConditionAction(
            Condition(m, m * rng.randint(0, 1)),
            rng.choice([MatchAllCondition(), Condition(1 - m, 1 - m)]), name=n)
    return rng.choice([lambda: supportive.AssembleLeg(n), lambda: supportive.AssembleFoot(n),
                       lambda: supportive.AssembleTopJoint(n),
                       lambda: supportive.AssembleLegToTop(n, bring_top=rng.random() < .5)])()


def expand(node):
    """Same tree with all parallel nodes expanded, from the root."""
    if kind(node) == 'Parallel':
        node = node.to_alternative()
    if kind(node) == 'Leaf':
        return node
    return CLASSES[kind(node)]([expand(c) for c in node.children], name=node.name,
                               highlighted=node.highlighted)


def radix(name):
    return name.lower().replace(' ', '-')


def leaves(node):
    if kind(node) == 'Leaf':
        return [node]
    return [l for c in node.children for l in leaves(c)]


def scalar(row):
    """Value of costs that do not depend on the observation."""
    v = sorted(set(fix(x, 1000) for x in row))
    return v[0] if len(v) == 1 else 1999999999
