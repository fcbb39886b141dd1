"""Records experiments: parameters, stages, failures, results, planners and launchers."""
from hlib import *
import json
import tempfile
import time
import numpy as np
from task_models.evaluation import SupportiveExperiment, ExpLauncher
from task_models.supportive import SupportivePOMDP, AssembleLeg
from task_models.task import SequentialCombination, LeafCombination
from task_models.utils.multiprocess import get_process_elapsed_time

args = parse_args()
R = Recorder(args)
WORK = os.environ.get('VERIF_WORK', tempfile.gettempdir())

BEGIN = time.time() - 60  # (margin)


class Failure(Exception):
    pass


def show(x):
    return json.dumps(x, sort_keys=True)


def pars(d):
    return {str(k): show(v) for k, v in d.items()}


class Scripted(SupportivePOMDP):
    """Any transitions; never ends."""

    def sample_transition(self, a, s, **kw):
        self.n_simulator_calls += 1
        h, block = self.n_htm_states, self.n_states // self.n_htm_states
        if self.onward == 2 and s % 2 == 0:  # a first half in the same step
            t = s // 2 * 2 + 1
        elif self.onward == 2:
            t = ((s // block + 1) % (h - 1)) * block
        elif self.onward:  # to the next step, in a cycle
            t = ((s // block + 1) % (h - 1)) * block + np.random.randint(block)
        else:
            t = np.random.randint(self.n_states - block)
        self.simulated.append(int(s // block))
        return t, np.random.randint(self.n_observations), np.random.choice([0, 1, -1, .5, 100])


def scripted(rng, onward=0):
    m = Scripted(SequentialCombination([LeafCombination(AssembleLeg('leg')) for _ in range(8 if onward else 2)]),
                 discount=.9)
    m.p_preferences = [.5]
    m.p_changed_by_human = 0.
    m.onward, m.simulated = onward, []
    return m


class Policy(object):
    """Takes random actions."""

    def __init__(self, exp):
        self.exp, self.model = exp, exp.model

    def reset(self):
        self.exp.note('episode')

    def get_action(self, iterations=None):
        if iterations is not None:
            self.exp.note('warmup', it=int(iterations))
            self.exp.may_fail('warmup')
        elif os.getpid() != self.exp.pid:
            self.exp.may_fail('evaluate')
        return self.model.actions[np.random.randint(self.model.n_actions)]

    def step(self, observation):
        pass


# Values that may be recorded.
NUMBERS = [lambda: np.int64(3), lambda: np.int32(-7), lambda: np.float64(.25), lambda: np.float32(-1.5), lambda: np.float16(2.5),
           lambda: np.arange(4), lambda: np.array([[.5, 1.25], [-3., 0.]], dtype=np.float32), lambda: np.array([]),
           lambda: [np.int8(1), {'x': np.float32(.125)}], lambda: np.uint64(12), lambda: np.array(True),
           lambda: {'a': np.zeros((2, 0)), 'b': np.array(['u', 'v'])}, lambda: np.float32(1e10), lambda: np.float32(1 / 3.), lambda: [np.float32(1e-9)] * 2]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return plain(x.tolist()) if hasattr(x, 'tolist') else x


def experiment(rng, defaults, limit):
    class Exp(SupportiveExperiment):
        DEFAULT_PARAMETERS = dict(SupportiveExperiment.DEFAULT_PARAMETERS, **defaults)
        EVALUATE_ARGUMENTS = {} if limit is None else {'max_horizon': limit}
        failing = ''
        last = None

        def __init__(self, *a, **kw):
            super(Exp, self).__init__(*a, **kw)
            self.log = lambda *a: None
            Exp.last = self

        def note(self, op, **e):
            if os.getpid() == self.pid:
                if op != 'episode':
                    self.notes.append(dict(e, op=op))
            else:
                open(os.path.join(self.dir, str(os.getpid())), 'w').close()

        def may_fail(self, stage):
            if stage == self.failing:
                raise Failure()

        def init_run(self):
            self.pid, self.dir = os.getpid(), tempfile.mkdtemp(dir=WORK)
            self.notes = []
            self.note('init', par=pars(self.parameters))
            self.may_fail('init')
            self.model = scripted(rng)
            self.policy = Policy(self)

        def finish_run(self):
            self.note('finish', n=len(self.results['evaluations']), episodes=len(os.listdir(self.dir)))
            self.may_fail('finish')
            if self.failing == 'write':
                self.results['odd'] = object()
            else:
                self.results['numbers'] = rng.choice(NUMBERS)()

    return Exp


VALUES = {'n_evaluations': [0, 1, 2, 3, 5], 'n_warmup': [0, 1, 7, 2000], 'iterations': [1, 10], 'policy': ['other', 'x'],
          'horizon-length': [1, 5], 'p_preference': [0, .5, 1], 'belief-values': [True, False]}
NEW = {'p_change_preference': [0., .1], 'task': ['sequence', u'unit\xe9'], 'list': [[1, 2], []], 'none': [None]}


def some(rng, values, p):
    return {k: rng.choice(v) for k, v in values.items() if rng.random() < p}


def evaluations(l):
    return [{'s': [int(x) for x in r['states']], 'a': [int(x) for x in r['actions']],
             'o': [int(x) for x in r['observations']], 'r': [fix(x, 100) for x in r['rewards']],
             'ret': fix(r['return'], 1000), 'calls': int(r['simulator-calls']),
             't': fix(r['elapsed-time'], 1000)} for r in l]


def content(path):
    """What is in a file of results."""
    if not os.path.exists(path):
        return {'is': False}
    try:
        with open(path) as f:
            d = json.load(f)
        return {'is': True, 'par': pars(d['parameters']), 'ev': evaluations(d['evaluations']), 'warm': lasted(d['t_warmup']),
                'keys': sorted(d), 'numbers': show(d.get('numbers'))}
    except (ValueError, KeyError):
        return {'is': True, 'par': {}, 'ev': [{'s': []}], 'warm': False, 'keys': ['unreadable'], 'numbers': ''}


def lasted(t):
    return 0 <= t <= time.time() - BEGIN


def in_memory(x):
    r = x.results
    return {'is': True, 'par': pars(r['parameters']), 'ev': evaluations(r['evaluations']), 'warm': lasted(r['t_warmup']),
            'keys': sorted(r), 'numbers': show(plain(r.get('numbers')))}


def defaults_of(cls):
    return pars(cls.DEFAULT_PARAMETERS)


class TestPath(object):

    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=WORK)

    def __call__(self, name):
        return os.path.join(self.dir, name)


def sc_run(ev, rng):
    defaults = some(rng, VALUES, .3)
    defaults.setdefault('n_evaluations', 2)  # (quick)
    limit = rng.choice([1, 3, 10])
    cls = experiment(rng, defaults, limit)
    given = dict(some(rng, VALUES, .3), **some(rng, NEW, .3))
    path = TestPath()
    for turn in range(2):
        how = rng.choice(['direct', 'direct', 'none', 'file'])
        before = defaults_of(cls)
        if how == 'file':
            with open(path('config.json'), 'w') as f:
                json.dump(given, f)
            out, x = outcome(cls.load_from_serialized, path('config.json'))
        else:
            out, x = outcome(cls, given) if how == 'direct' else outcome(cls)
        g = {} if how == 'none' else given
        ev.append({'op': 'new', 'out': out, 'defaults': before, 'after': defaults_of(cls), 'given': pars(g),
                   'kept': pars(given) == pars(dict(given)), 'par': pars(x.parameters) if out == 'ok' else {}})
        if out != 'ok':
            return
        if rng.random() < .8:
            x.path = path('results-%d.json' % (turn if rng.random() < .5 else 0))
            ev.append({'op': 'path', 'file': content(x.path)})
        for _ in range(rng.choice([1, 1, 2])):
            x.failing = rng.choice(['', '', '', 'init', 'warmup', 'evaluate', 'finish', 'write'])
            if x.failing == 'write' and x.path is None:
                x.failing = ''
            if x.failing == 'evaluate' and x.parameters['n_evaluations'] == 0:
                x.failing = ''
            debug = rng.random() < .3
            if debug and x.failing == 'evaluate':
                x.failing = ''
            x.results.pop('odd', None)
            run(ev, x, lambda: x.run(debug=debug) if debug or rng.random() < .5 else x.run(), debug, limit)
    ev.append({'op': 'defaults', 'defaults': defaults_of(cls), 'base': pars(SupportiveExperiment.DEFAULT_PARAMETERS),
               'expected': BASE})


BASE = pars(SupportiveExperiment.DEFAULT_PARAMETERS)


def run(ev, x, fun, debug, limit):
    x.notes = []
    ev.append({'op': 'run', 'debug': debug})
    out, _ = outcome(fun)
    ev.extend(x.notes)
    e = {'op': 'end', 'out': out, 'failing': x.failing, 'limit': limit, 'file': content(x.path) if x.path else {'is': False},
         'par': pars(x.parameters), 'memory': in_memory(x) if out == 'ok' else {'is': False}}
    ev.append(e)


def sc_arguments(ev, rng):
    defaults = {'n_evaluations': 2, 'n_warmup': 3}
    limit = 3
    cls = experiment(rng, defaults, limit)
    given = dict(some(rng, VALUES, .4), **some(rng, NEW, .3))
    path = TestPath()
    argv, how = ['prog'], rng.choice(['', 'config', 'path'])
    if how:
        with open(path('config.json'), 'w') as f:
            json.dump(given, f)
        argv.append(path('config.json'))
    name = rng.choice(['result', 'a b', 'x.y'])
    if how == 'path':
        argv += [path(''), name]
    flag, arg = rng.random() < .4, rng.random() < .4
    if flag:
        argv.insert(rng.choice([1, len(argv)]), '--debug')
    before = defaults_of(cls)
    old, sys.argv = sys.argv, argv
    try:
        out, _ = outcome(lambda: cls.run_from_arguments(debug=True) if arg else cls.run_from_arguments())
    finally:
        sys.argv = old
    x = cls.last
    ev.append({'op': 'new', 'out': out, 'defaults': before, 'after': defaults_of(cls), 'given': pars(given if how else {}),
               'kept': True, 'par': {}, 'later': True})
    if x is None or out != 'ok':
        return
    x.path = x.path or None
    if how == 'path':
        ev.append({'op': 'path', 'file': {'is': False}})
    ev.append({'op': 'run', 'debug': flag or arg})
    ev.extend(x.notes)
    files = sorted(f for f in os.listdir(path.dir) if f != 'config.json')
    ev.append({'op': 'end', 'out': 'ok', 'failing': '', 'limit': limit, 'par': pars(x.parameters),
               'file': content(path(name + '.json')) if how == 'path' else {'is': files != []}, 'memory': in_memory(x)})
    ev.append({'op': 'files', 'got': files, 'want': [name + '.json'] if how == 'path' else []})


def sc_planner(ev, rng):
    """Planners are created from parameters."""
    kind = rng.choice(['transitions', 'transitions', 'htm'])
    par = {'iterations': rng.choice([1, 4, 9, 20]), 'rollout-iterations': rng.choice([1, 2, 3]),
           'exploration': rng.choice([0, 1., 50, 7.5]), 'relative-explo': rng.random() < .5,
           'belief-values': rng.random() < .2, 'n_particles': rng.choice([1, 7, 13, 31]),
           'horizon-type': kind, 'horizon-length': rng.choice([1, 2, 3, 6])}
    if rng.random() < .3:
        par.pop('iterations')
    x = experiment(rng, {'iterations': 12}, None)(par)
    pace = rng.choice([1, 2])
    x.model = scripted(rng, onward=pace)
    out, _ = outcome(x.init_pomcp_policy)
    e = {'op': 'planner', 'out': out, 'kind': kind, 'pace': pace, 'values': par['belief-values'], 'horizon': par['horizon-length'],
         'rollouts': par['rollout-iterations'], 'iterations': par.get('iterations', 12), 'n': par['n_particles'],
         'explo': show(float(par['exploration'])), 'relative': par['relative-explo']}
    if out == 'ok':
        p = x.policy
        x.model.simulated[:] = []
        p.get_action(iterations=1)
        e['first'] = [x.model.simulated.count(i) for i in range(1, 9)]
        n = p.tree.root.n_simulations
        p.get_action()
        e['sims'] = int(p.tree.root.n_simulations - n)
        e['asked'], e['done'] = [rng.choice([0, 2, 5]) for _ in range(2)] + [0], []
        for k in e['asked']:
            n = p.tree.root.n_simulations
            p.get_action(iterations=k)
            e['done'].append(int(p.tree.root.n_simulations - n))
        b = np.array(p.belief.array) * par['n_particles']
        e['part'] = bool((np.abs(b - np.round(b)) < 1e-6).all() and abs(b.sum() - par['n_particles']) < 1e-6)
        e['gexplo'] = show(float(getattr(p.tree, 'exploration', par['exploration'])))
        e['grelative'] = bool(getattr(p.tree, 'relative_explo', par['relative-explo']))
    ev.append(e)


class Job(object):

    def __init__(self, path, name):
        self.path, self.name, self.config = path, name, os.path.join(path, name + '-config.json')


def sc_launcher(ev, rng):
    """Launchers write configurations and read results."""
    l = ExpLauncher()
    path = TestPath()
    names = ['exp%d' % i for i in range(rng.randint(0, 4))]
    l.exps = {n: dict(some(rng, VALUES, .5), **some(rng, NEW, .5)) for n in names}
    l.jobs = {n: Job(path.dir, n) for n in names}
    out, _ = outcome(l.action_prepare)
    got = {}
    limit = 4
    for n in names:
        f = l.jobs[n].config
        got[n] = {}
        if os.path.exists(f):
            with open(f) as fp:
                got[n] = pars(json.load(fp))
    ev.append({'op': 'prepare', 'out': out, 'exps': {n: pars(l.exps[n]) for n in names}, 'got': got})
    cls = experiment(rng, {'n_evaluations': 2, 'n_warmup': 3}, limit)
    want = {}
    for n in names:
        x = cls.load_from_serialized(l.jobs[n].config)
        x.path = path(n + '.json')
        if rng.random() < .5:
            x.run()
            want[n] = evaluations(x.results['evaluations'])
        else:  # any results
            es = [{'return': rng.choice([0., -3.5, 12, 1e-3, 250.25]), 'elapsed-time': rng.choice([0, 0., 1, 2.5, 86400.]),
                   'simulator-calls': rng.choice([0, 0, 1, 250]), 'states': [0], 'actions': [], 'observations': [],
                   'rewards': []} for _ in range(rng.choice([0, 1, 3, 12]))]
            with open(x.path, 'w') as fp:
                json.dump({'evaluations': es, 'parameters': x.parameters, 't_warmup': 0.}, fp)
            want[n] = evaluations(es)
    out, r = outcome(l.get_results)
    e = {'op': 'results', 'out': out, 'want': want, 'got': {}}
    if out == 'ok':
        e['got'] = {n: {'ret': [fix(y, 1000) for y in r[n][0]], 't': [fix(y, 1000) for y in r[n][1]],
                        'calls': [int(y) for y in r[n][2]]} for n in r}
    ev.append(e)


def sc_elapsed(ev, rng):
    """Elapsed times, from the text that is printed by ps."""
    d = tempfile.mkdtemp(dir=WORK)
    ps, text = os.path.join(d, 'ps'), os.path.join(d, 'text')
    with open(ps, 'w') as f:
        f.write('#!/bin/sh\necho "$@" > %s/args\ncat %s\n' % (d, text))
    os.chmod(ps, 0o755)
    old = os.environ['PATH']
    os.environ['PATH'] = d + os.pathsep + old
    try:
        for _ in range(12):
            t = [rng.choice([0, 0, 1, 9, 10, 365]), rng.choice([0, 0, 1, 23]), rng.choice([0, 1, 9, 10, 59]), rng.randint(0, 59)]
            s = '%02d:%02d' % (t[2], t[3])
            if t[0] or t[1]:
                s = '%02d:' % t[1] + s
            if t[0]:
                s = ('%02d-' if rng.random() < .7 else '%d-') % t[0] + s
            with open(text, 'w') as f:
                f.write(' ' * rng.choice([0, 3, 11 - len(s) if len(s) < 11 else 0]) + s + '\n')
            if os.path.exists(d + '/args'):
                os.remove(d + '/args')
            pid = rng.choice([None, os.getpid(), 1])
            out, r = outcome(lambda: get_process_elapsed_time() if pid is None else get_process_elapsed_time(pid))
            if not os.path.exists(d + '/args'):
                continue  # ps is not used
            with open(d + '/args') as f:
                asked = str(os.getpid() if pid is None else pid) in f.read().split()
            ev.append({'op': 'etime', 'out': out, 't': t, 'asked': asked, 'r': fix(r.total_seconds(), 1) if out == 'ok' else -1})
    finally:
        os.environ['PATH'] = old


k = 5 if THOROUGH else 1
for i in range(40 * k):
    R.scenario('run%d' % i, sc_run, timeout=60)
for i in range(12 * k):
    R.scenario('arguments%d' % i, sc_arguments, timeout=60)
for i in range(40 * k):
    R.scenario('planner%d' % i, sc_planner)
for i in range(8 * k):
    R.scenario('launcher%d' % i, sc_launcher, timeout=60)
for i in range(4 * k):
    R.scenario('elapsed%d' % i, sc_elapsed)
R.close()
