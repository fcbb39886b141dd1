"""Records evaluations of policies."""
from hlib import *
import json
import re
import tempfile
import numpy as np
import planners
from planners import gen_htm
from task_models.evaluation import simulate_one_evaluation, evaluate, FinishedOrNTransitionsHorizon
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.policy import PolicyLongSupportiveSequence
from task_models.supportive import SupportivePOMDP, AssembleLeg, AssembleFoot
from task_models.task import SequentialCombination, LeafCombination

args = parse_args()
R = Recorder(args)
WORK = os.environ.get('VERIF_WORK', tempfile.gettempdir())
planners.LOG = planners.Log()
DISCOUNTS = [(1, 1), (1, 2), (9, 10), (19, 20)]


class Journal(object):
    """Events of each process."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=WORK)
        self.on = False

    def add(self, **e):
        if self.on:
            with open(os.path.join(self.dir, str(os.getpid())), 'a') as f:
                f.write(json.dumps(e) + '\n')

    def read(self):
        out = {}
        for pid in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, pid)) as f:
                out[int(pid)] = [json.loads(x) for x in f]
        return out


class Supportive(SupportivePOMDP):
    """Logs transitions."""

    def sample_start(self):
        s = super(Supportive, self).sample_start()
        self.journal.add(op='start', s=int(s))
        return s

    def sample_transition(self, a, s, **kw):
        t, o, r = self.transition(a, s, **kw)
        self.journal.add(op='call', a=int(a), s=int(s), t=int(t), o=int(o), r=fix(r, 1000))
        return t, o, r

    def transition(self, a, s, **kw):
        return super(Supportive, self).sample_transition(a, s, **kw)


class Scripted(Supportive):
    """Any transitions and rewards."""

    def transition(self, a, s, **kw):
        self.n_simulator_calls += 1
        if np.random.random() < self.p_end:
            t = self.n_states - 1 - np.random.randint(self.n_states // self.n_htm_states)
        else:
            t = np.random.randint(self.n_states)
        return t, np.random.randint(self.n_observations), np.random.choice([0, 1, -1, 3, 10, -25, .5, 100, -100.25])


class Any(object):
    """Takes random actions, with simulations of its own."""

    def __init__(self, model, sims):
        self.model, self.sims = model, sims

    def reset(self):
        pass

    def simulate(self):
        for _ in range(np.random.randint(self.sims + 1)):
            self.model.sample_transition(np.random.randint(self.model.n_actions),
                                         np.random.randint(self.model.n_states))

    def get_action(self, iterations=None):
        self.simulate()
        return self.model.actions[np.random.randint(self.model.n_actions)]

    def step(self, observation):
        self.simulate()


class Watched(object):

    def __init__(self, policy, model, journal):
        self.policy, self.model, self.journal = policy, model, journal

    def reset(self):
        self.policy.reset()
        self.journal.add(op='reset')

    def get_action(self, iterations=None):
        self.journal.add(op='getin')
        a = self.policy.get_action()
        self.journal.add(op='getout', a=self.model.actions.index(a))
        return a

    def step(self, observation):
        self.journal.add(op='stepin', o=self.model.observations.index(observation))
        self.policy.step(observation)
        self.journal.add(op='stepout')


def setting(rng, ev, what):
    j = Journal()
    d = rng.choice(DISCOUNTS)
    leg = None
    if what == 'long':
        leg = SequentialCombination([LeafCombination(rng.choice([AssembleLeg, AssembleFoot])('leg %d' % i))
                                     for i in range(rng.randint(1, 3))])
    model = (Scripted if what == 'any' else Supportive)(leg or gen_htm(rng), discount=d[0] / float(d[1]))
    model.p_preferences = [rng.choice([.3, 1.])]
    model.p_end = rng.choice([0, .1, .3])
    model.journal = j
    if what == 'long':
        pol = PolicyLongSupportiveSequence(model)
        model.p_preferences, model.p_change_preference = [1.], 0.
    elif what == 'pomcp':
        pol = POMCPPolicyRunner(model, iterations=rng.choice([2, 10]), logger=lambda *a: None,
                                horizon=FinishedOrNTransitionsHorizon.generator(model, n=rng.choice([2, 4])),
                                belief='particle', belief_params={'n_particles': 20})
    else:
        pol = Any(model, rng.choice([0, 0, 2]))
    ev.cfg = {'div': model.n_states // model.n_htm_states, 'fin': model.n_htm_states - 1, 'rare': what == 'pomcp'}
    return model, Watched(pol, model, j), j, d


LINE = re.compile(r'^\s*<\s*(-?\d+)\s*:.*>: (.*?) → (.*?) \[(.*)\]\s*$')
HEAD = re.compile(r'^\s*Evaluation: (\d+) transitions, return:\s+(\S+) \[([\d,]+) calls in .*\]\s*$')
LAST = re.compile(r'^\s*<\s*(-?\d+)\s*:.*>\s*$')


def summary(model, text):
    e = {'op': 'summary', 'ok': False}
    lines = str(text).strip('\n').split('\n')
    h, l = HEAD.match(lines[0]), LAST.match(lines[-1])
    ls = [LINE.match(x) for x in lines[1:-1]]
    try:
        if h and l and all(ls):
            e.update(n=int(h.group(1)), ret=int(round(float(h.group(2)))), calls=int(h.group(3).replace(',', '')),
                     last=int(l.group(1)), ok=True,
                     lines=[{'s': int(x.group(1)), 'a': model.actions.index(x.group(2)),
                             'o': model.observations.index(x.group(3)), 'r': fix(x.group(4), 1000)} for x in ls])
    except ValueError:
        e = {'op': 'summary', 'ok': False}
    return e


def begin(max_h, d):
    return {'op': 'begin', 'max': max_h, 'p': d[0], 'q': d[1]}


def record(out, r):
    e = {'op': 'ret', 'out': out}
    if out == 'ok':
        e.update(states=[int(x) for x in r['states']], actions=[int(x) for x in r['actions']],
                 observations=[int(x) for x in r['observations']], rewards=[fix(x, 1000) for x in r['rewards']],
                 ret=fix(r['return'], 1000), calls=int(r['simulator-calls']), elapsed=fix(r['elapsed-time'], 1))
    return e


def sc_one(ev, rng, what, unbounded=False):
    model, pol, j, d = setting(rng, ev, what)
    if unbounded:  # the default limit is reached
        model.p_end = 0
    for _ in range(1 if unbounded else rng.choice([1, 2, 3])):
        kw = {}
        n = 200
        if unbounded:
            kw['discount'] = False
        elif what != 'long' or rng.random() < .5:
            n = kw['max_horizon'] = rng.choice([0, 1, 2, 5, 12]) if what == 'pomcp' else rng.choice([-1, 0, 1, 2, 5, 12, 30])
        if rng.random() < .5 and not unbounded:
            kw['discount'] = rng.random() < .5
        disc = d if kw.get('discount', True) else (1, 1)
        said = []
        if rng.random() < .6:
            kw['logger'] = said.append
        ev.append(begin(n, disc))
        j.on = True
        out, r = outcome(simulate_one_evaluation, model, pol, **kw)
        j.on = False
        f = os.path.join(j.dir, str(os.getpid()))
        if os.path.exists(f):
            with open(f) as fp:
                ev.extend(json.loads(x) for x in fp)
            os.remove(f)
        ev.append(record(out, r))
        if 'logger' in kw:
            ev.extend(summary(model, x) for x in said)
            if len(said) != 1:
                ev.append({'op': 'summary', 'ok': False})
        if out != 'ok':
            break


def sc_many(ev, rng, what):
    model, pol, j, d = setting(rng, ev, what)
    n = rng.choice([1, 2, 5])
    kw = {}
    limit = 200
    if what != 'long':
        limit = kw['max_horizon'] = rng.choice([1, 3, 6])
    if rng.random() < .5:
        kw['logger'] = lambda text: j.add(**summary(model, text))
    j.on = True
    out, rs = outcome(evaluate, model, pol, n, **kw)
    j.on = False
    rs = list(rs) if out == 'ok' else []
    left = [record('ok', r) for r in rs]
    logs = j.read()
    unmatched = 0
    for pid in sorted(logs):
        e = logs[pid]
        said = [x for x in e if x['op'] == 'summary']
        e = [x for x in e if x['op'] != 'summary']
        # States and rewards identify the record of an episode.
        mine = [x for x in left if x['states'][:1] == [y['s'] for y in e if y['op'] == 'start'][:1] and
                x['calls'] == len([1 for y in e if y['op'] == 'call'])]
        real, inside = [], False
        for y in e:
            inside = (inside or y['op'] in ('getin', 'stepin')) and y['op'] not in ('getout', 'stepout')
            if y['op'] == 'call' and not inside:
                real.append(y['t'])
        mine = [x for x in mine if x['states'][1:] == real] or mine
        if mine:
            left.remove(mine[0])
            ev.append(begin(limit, d))
            ev.extend(e + [mine[0]] + said)
        else:
            unmatched += 1
    ev.append({'op': 'many', 'out': out, 'n': n, 'got': len(rs), 'episodes': len(logs),
               'unmatched': unmatched + len(left)})


def beliefs_of(runner, model):
    """Probability of the first preference, and of each step of the task."""
    arr = [float(x) for x in runner.belief.array]
    div = model.n_states // model.n_htm_states
    htm = [sum(arr[i * div:(i + 1) * div]) for i in range(model.n_htm_states)]
    pref = sum(p for s, p in enumerate(arr) if model._int_to_state(s).has_preference(
        len(model.preferences) - 1))
    return [fix(x, 1000) for x in htm], fix(pref, 1000)


class Walker(POMCPPolicyRunner):
    """Planner whose decisions are logged (from when it has a journal)."""
    journal = None

    def add(self, **e):
        if self.journal is not None:
            self.journal.add(**e)

    def reset(self, *a, **kw):
        super(Walker, self).reset(*a, **kw)
        self.add(op='reset')

    def get_action(self, *a, **kw):
        self.add(op='getin')
        x = super(Walker, self).get_action(*a, **kw)
        self.add(op='getout', a=self.tree.model.actions.index(x))
        return x

    def step(self, o):
        self.add(op='stepin', o=self.tree.model.observations.index(o))
        super(Walker, self).step(o)
        self.add(op='stepout')
        self.beliefs.append(beliefs_of(self, self.tree.model))


WALK = re.compile(r'^<\s*(-?\d+)\s*:.*> -- (.*) --> <\s*(-?\d+)\s*:.*>, (.*), (\S+)$')
BELIEF = re.compile(r'^belief: (.*) \| (\S+)$')
TOTAL = re.compile(r'^Total reward: (\S+)$')


def trajectory(model, said, beliefs):
    e = {'op': 'trajectory', 'ok': False, 'lines': [], 'total': 0, 'prefs': [], 'bel': [x[1] for x in beliefs],
         'shown': [], 'steps': []}
    ls = [WALK.match(x) for x in said[1:-1:2]]
    bs = [BELIEF.match(x) for x in said[2:-1:2]]
    t = TOTAL.match(said[-1]) if said else None
    if t and all(ls) and all(bs) and said[0] == 'New trajectory' and len(said) % 2 == 0:
        try:
            e.update(ok=True, total=fix(float(t.group(1)), 1000),
                     lines=[{'s': int(x.group(1)), 'a': model.actions.index(x.group(2)), 't': int(x.group(3)),
                             'o': model.observations.index(x.group(4)), 'r': fix(float(x.group(5)), 1000)}
                            for x in ls],
                     prefs=[fix(float(x.group(2)), 1000) for x in bs],
                     shown=[[fix(float(z), 1000) for z in x.group(1).split(' ')] for x in bs],
                     steps=[y[0] for y in beliefs])
        except ValueError:
            e['ok'] = False
    return e


def sc_walk(ev, rng):
    j = Journal()
    d = rng.choice(DISCOUNTS)
    model = (Scripted if rng.random() < .5 else Supportive)(gen_htm(rng), discount=d[0] / float(d[1]))
    model.p_preferences = [rng.choice([.3, 1.])]
    model.p_end = rng.choice([.2, .5])
    model.journal = j
    pol = Walker(model, iterations=rng.choice([5, 20]), logger=lambda *a: None,
                 horizon=FinishedOrNTransitionsHorizon.generator(model, n=rng.choice([2, 4])),
                 belief='particle', belief_params={'n_particles': 50})
    ev.cfg = {'div': model.n_states // model.n_htm_states, 'fin': model.n_htm_states - 1, 'rare': True}
    pol.journal = j
    for _ in range(2):
        said = []
        pol.beliefs = []
        ev.append(begin(2000, d))
        j.on = True
        out, _ = outcome(pol.run_trajectory, logger=said.append)
        j.on = False
        f = os.path.join(j.dir, str(os.getpid()))
        with open(f) as fp:
            e = [json.loads(x) for x in fp]
        os.remove(f)
        ev.extend(e)
        if out == 'ok':
            ev.append(trajectory(model, said, pol.beliefs))
        else:
            ev.append(record(out, None))
            break


k = 5 if THOROUGH else 1
for i in range(24 * k):
    R.scenario('walk%d' % i, sc_walk)
for i in range(50 * k):
    R.scenario('any%d' % i, lambda ev, rng: sc_one(ev, rng, 'any'))
for i in range(2 * k):
    R.scenario('default%d' % i, lambda ev, rng: sc_one(ev, rng, 'any', True))
for i in range(14 * k):
    R.scenario('long%d' % i, lambda ev, rng: sc_one(ev, rng, 'long'))
for i in range(10 * k):
    R.scenario('pomcp%d' % i, lambda ev, rng: sc_one(ev, rng, 'pomcp'))
for i in range(10 * k):
    R.scenario('many%d' % i, lambda ev, rng: sc_many(ev, rng, rng.choice(['any', 'any', 'long', 'pomcp'])), timeout=60)
R.close()
