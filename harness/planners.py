"""Planners whose model records the transitions they make."""
import numpy as np
import exactrng
import models
from hlib import fix
from task_models.lib import belief as belief_module
from task_models.lib.belief import MaxSamplesReached, ParticleBelief
from task_models.lib.pomcp import POMCPPolicyRunner, NTransitionsHorizon
from task_models.lib.pomdp import POMDP
from task_models.supportive import (SupportivePOMDP, NHTMHorizon, USES, CONSUMES, CONSUMES_SOME,
                                    SupportedAction)
from task_models.evaluation import FinishedOrNTransitionsHorizon
from task_models.task import (SequentialCombination, AlternativeCombination, ParallelCombination,
                              LeafCombination)

DISCOUNTS = [(1, 1), (1, 2), (9, 10), (19, 20)]
K = 10000


class Log(object):
    """Calls of a model."""

    def __init__(self):
        self.calls = []
        self.quiet = 0
        self.simulating = True

    def add(self, a, s, res, off):
        if not self.quiet:
            t, o, r = res
            self.calls.append({'op': 'call', 'a': int(a) + 1, 's': int(s) + off, 't': int(t) + off,
                               'o': int(o) + 1, 'r': fix(r, 1000), 'failed': False})


LOG = None
_successor = ParticleBelief.successor


def _logged_successor(self, *args, **kwargs):
    # The transitions sampled to find a belief are not those of a simulation
    LOG.quiet += 1
    try:
        return _successor(self, *args, **kwargs)
    except MaxSamplesReached:
        if LOG.calls and LOG.simulating:
            LOG.calls[-1]['failed'] = True
        raise
    finally:
        LOG.quiet -= 1


ParticleBelief.successor = _logged_successor


class LoggedPOMDP(POMDP):

    def sample_transition(self, a, s):
        res = super(LoggedPOMDP, self).sample_transition(a, s)
        self.log.add(a, s, res, 1)
        return res


class LoggedSupportive(SupportivePOMDP):

    def sample_transition(self, a, s, **kw):
        res = super(LoggedSupportive, self).sample_transition(a, s, **kw)
        self.log.add(a, s, res, 0)
        return res


class Step(SupportedAction):

    def __init__(self, name, hold, conditions):
        super(Step, self).__init__(name)
        self.uid = name
        self.hold = hold
        self.conditions = conditions


def gen_htm(rng, leaves=None, objects=('top', 'leg', 'screws'), some=True):
    """A task tree with the given number of leaves, and its steps."""
    count = [0]

    def leaf():
        count[0] += 1
        kinds = [USES, CONSUMES] + ([CONSUMES_SOME] if some else [])
        conds = [(rng.choice(kinds), o)
                 for o in rng.sample(list(objects), rng.randint(0, min(2, len(objects))))]
        return LeafCombination(Step('step %d' % count[0], rng.choice([None, 'h', 'v']), conds))

    def tree(n, depth=0):
        if n == 1 and (depth > 2 or rng.random() < .8):
            return leaf()
        k = rng.randint(1, min(n, 3))
        sizes = [1] * k
        for _ in range(n - k):
            sizes[rng.randrange(k)] += 1
        c = [tree(x, depth + 1) for x in sizes]
        cls = rng.choice([SequentialCombination, SequentialCombination, AlternativeCombination,
                          ParallelCombination])
        return cls(c, name='n%d' % depth)
    return tree(leaves or rng.randint(1, 3))


class Planner(object):
    """A planner under test, with its specification parameters."""

    def __init__(self, rng, shared=None, supportive=False, runner=POMCPPolicyRunner, log=None, **kw):
        global LOG
        LOG = self.log = log or Log()
        self.supportive = supportive
        d = rng.choice(DISCOUNTS)
        horizon = kw.pop('horizon', None)
        wide, free, particle, default = (kw.pop(x, False) for x in ('wide', 'free', 'particle', 'default'))
        if supportive:
            ending = kw.pop('ending', False)  # the final state is reached within the horizon
            self.model = LoggedSupportive(gen_htm(rng, leaves=1 if ending else None), discount=d[0] / float(d[1]))
            self.model.log = self.log
            self.m = None
            na, no = self.model.n_actions, self.model.n_observations
            div, fin = self.model.n_states // self.model.n_htm_states, self.model.n_htm_states - 1
            kind = rng.choice(['htm', 'final', 'final', 'trans'])
            n = rng.choice([0, 1, 2, 3]) if kind == 'htm' else rng.choice([0, 1, 2, 4, 6])
            if ending:
                n = rng.choice([3, 4, 6]) if kind == 'htm' else 12
            cls = {'htm': NHTMHorizon, 'final': FinishedOrNTransitionsHorizon,
                   'trans': NTransitionsHorizon}[kind]
            self.horizon = gen = cls.generator(self.model, n=n)
            shared = False
            belief = {'belief': 'particle', 'belief_params': {'n_particles': rng.choice([1, 5, 20])}}
        else:
            self.m = models.gen(rng, D=rng.choice([2, 4, 5]) if not shared else 4, det=.5 if shared else None,
                                sparse=.6 if shared else None, na=rng.choice([3, 4, 5]) if wide else None,
                                rewards=0 if free else 10)
            if kw.pop('blind', False):  # observations tell nothing
                r = [1] * 4 if len(self.m['O'][0][0]) > 3 else [2, 1, 1] if len(self.m['O'][0][0]) == 3 else [3, 1]
                self.m['O'] = [[list(r) for _ in x] for x in self.m['O']]
            na, no = models.dims(self.m)[1:]
            A = ['a%d' % i for i in range(na)]
            O = ['o%d' % i for i in range(no)]
            if rng.random() < .2:  # names that differ only by their case
                A, O = (['%s%d' % (x if i % 2 else x.upper(), i // 2) for i in range(k)]
                        for x, k in (('a', na), ('o', no)))
            rng.shuffle(A)
            rng.shuffle(O)
            # states of the specification are numbered from 1, those of the model from 0
            self.model = models.build(self.m, discount=d[0] / float(d[1]), cls=LoggedPOMDP,
                                      actions=A, observations=O)
            self.model.log = self.log
            div, fin = 1, -1
            kind = 'trans'
            n = horizon if horizon is not None else rng.choice([0, 1, 2, 3, 4, 6])
            gen = n if rng.random() < .5 else NTransitionsHorizon.generator(self.model, n=n)
            if shared is None:
                shared = rng.random() < .4
            belief = {}
            if particle:
                belief = {'belief': 'particle', 'belief_params': {'n_particles': rng.choice([1, 5, 20])}}
                shared = False
        # Beliefs are not known exactly
        self.supportive = supportive = supportive or particle
        rel = rng.random() < .3
        c = rng.choice([None, 0, 1, 2, 10, 100]) if not rel else rng.choice([None, 0, .5, 1, 2])
        if default and not rel:
            c = None
        if c is None:
            c10 = 10 if rel else 1000
        else:
            c10 = int(c * 10)
        self.iters = rng.choice([1, 3, 6, 12])
        rolls = rng.choice([1, 1, 2, 3, 4, 6])
        self.p = {'na': na, 'no': no, 'shared': shared, 'succ': [], 'dp': d[0], 'dq': d[1], 'alpha': 1,
                  'rollouts': rolls, 'c': c10, 'rel': rel, 'kind': kind, 'hn': n, 'div': div, 'fin': fin}
        self.cfg = {'p': self.p, 'iters': self.iters, 'sup': []}
        if self.m and not particle:
            self.cfg['m'] = {k: self.m[k] for k in ('n', 'D', 'start', 'T', 'O')}
        params = dict(iterations=self.iters, horizon=gen, relative_exploration=rel, rollout_it=rolls,
                      belief_values=shared, logger=lambda *a: None)
        params.update(belief)
        params.update(kw)
        if c is not None:
            params['exploration'] = c
        self.beliefs = {}
        self.known = {}
        self.runner = runner(self.model, **params)
        self.tree = self.runner.tree
        self.A, self.O = list(self.model.actions), list(self.model.observations)
        self.known = self.snapshot()

    # -- Beliefs, for shared nodes

    def number(self, b):
        t = tuple(float(x) for x in b)
        if t not in self.beliefs:
            self.beliefs[t] = len(self.beliefs) + 1
        return self.beliefs[t]

    def finish(self):
        """Completes the configuration, after all events."""
        if not self.p['shared']:
            return
        known = sorted(self.beliefs, key=lambda t: self.beliefs[t])
        for t in known:
            row = []
            for a in range(self.p['na']):
                r = []
                for o in range(self.p['no']):
                    try:
                        r.append(self.number(POMDP.belief_update(self.model, a, o, np.array(t))))
                    except ValueError:
                        r.append(0)
                row.append(r)
            self.p['succ'].append(row)
        self.cfg['sup'] = [[i + 1 for i, x in enumerate(t) if x > 0]
                           for t in sorted(self.beliefs, key=lambda t: self.beliefs[t])]

    # -- Search tree

    def snapshot(self):
        """All nodes, by key, without actions that were never simulated."""
        out = {}
        na, no = self.p['na'], self.p['no']
        shared = self.p['shared']
        todo = [((), self.tree.root)]
        objects = {}
        while todo:
            path, node = todo.pop()
            b = node.belief.array
            key = (self.number(b),) if shared else path
            if key in objects:
                if objects[key] is not node:
                    out[key]['dup'] = True
                continue
            objects[key] = node
            kid, edge = [], []
            for a in range(na):
                c = node.children[a]
                e = [0] * no
                if c is None:
                    kid.append([0, 0])
                else:
                    kid.append([int(c.n_simulations), fix(c.value, 1000)])
                    for o in c.children:
                        e[o] = self.number(c.children[o].belief.array) if shared else 1
                        todo.append((path + (a + 1, int(o) + 1), c.children[o]))
                edge.append(e)
            out[key] = {'key': list(key), 'n': int(node.n_simulations), 'v': fix(node.value, 1000),
                        'kid': kid, 'edge': edge, 'dup': False,
                        'b': [fix(x, K) for x in b] if not self.supportive else []}
        return out

    def delta(self):
        new = self.snapshot()
        out = [new[k] for k in sorted(new) if k not in self.known or new[k] != self.known[k]]
        out += [dict(self.known[k], n=-1, b=[]) for k in sorted(self.known) if k not in new]
        self.known = new
        return out

    def node(self, key):
        """A node of an unshared tree."""
        n = self.tree.root
        for a, o in zip(key[::2], key[1::2]):
            n = n.children[a - 1].children[o - 1]
        return n

    def key(self, node):
        if self.p['shared']:
            return [self.number(node.belief.array)]
        todo = [((), self.tree.root)]
        while todo:
            path, n = todo.pop()
            if n is node:
                return list(path)
            for a, c in enumerate(n.children):
                if c is not None:
                    todo.extend((path + (a + 1, int(o) + 1), x) for o, x in c.children.items())
        return [-1]

    # -- Operations

    def flush(self, ev):
        ev.extend(self.log.calls)
        self.log.calls = []

    def plan(self, ev, iters=None):
        """get_action"""
        ev.append({'op': 'begin', 'who': 'runner', 'key': [], 'iters': -1 if iters is None else iters,
                   'forced': 0})
        try:
            a = self.runner.get_action() if iters is None else self.runner.get_action(iterations=iters)
        finally:
            self.flush(ev)
        ev.append({'op': 'end', 'delta': self.delta(), 'sims': self.iters if iters is None else iters})
        ev.append({'op': 'act', 'out': 'ok', 'a': self.A.index(a) + 1 if a in self.A else 0})
        return self.A.index(a)

    def choices(self, ev):
        """The actions that may be chosen without planning."""
        n = len(self.log.calls)
        exact, d = exactrng.distribution(lambda: self.runner.get_action(iterations=0), self.A.index,
                                         samples=400)
        ev.append({'op': 'choices', 'acts': sorted(a + 1 for a in d)})
        assert len(self.log.calls) == n
        self.plan(ev, 0)

    def visit(self, ev, rng):
        """A node asked for directly."""
        h, b = [], np.array(self.model.start)
        for _ in range(rng.choice([0, 2, 4, 5])):
            a, o = rng.randrange(self.p['na']), rng.randrange(self.p['no'])
            try:
                b = POMDP.belief_update(self.model, a, o, b)
            except ValueError:
                continue
            h += [a, o]
        from hlib import outcome
        out, n = outcome(self.tree.get_node, h)
        ev.append({'op': 'node', 'hist': [x + 1 for x in h], 'out': out,
                   'b': [fix(x, K) for x in n.belief.array] if out == 'ok' else [],
                   'delta': self.delta()})

    def simulate(self, ev, key, action=None):
        ev.append({'op': 'begin', 'who': 'tree', 'key': list(key), 'iters': 1,
                   'forced': 0 if action is None else action + 1})
        node = self.node(key) if not self.p['shared'] else self.by_number(key[0])
        try:
            if action is None:
                self.tree.simulate_from_node(node)
            else:
                self.tree.simulate_from_node(node, action=action)
        finally:
            self.flush(ev)
        ev.append({'op': 'end', 'delta': self.delta(), 'sims': 1})

    def by_number(self, k):
        todo, done = [self.tree.root], set()
        while todo:
            n = todo.pop()
            if id(n) in done:
                continue
            done.add(id(n))
            if self.number(n.belief.array) == k:
                return n
            for c in n.children:
                if c is not None:
                    todo.extend(c.children.values())

    def step(self, ev, o):
        from hlib import outcome
        out, _ = outcome(self.runner.step, self.O[o] if o is not None else 'nothing')
        ev.append({'op': 'step', 'o': 0 if o is None else o + 1, 'out': out, 'delta': self.delta()})
        return out

    def reset(self, ev):
        from hlib import outcome
        out, _ = outcome(self.runner.reset)
        ev.append({'op': 'reset', 'out': out, 'delta': self.delta()})

    def peek(self, ev):
        b = self.runner.belief.array
        ev.append({'op': 'peek', 'b': [fix(x, K) for x in b] if not self.supportive else [],
                   'hist': [int(x) + 1 for x in self.runner.history]})
