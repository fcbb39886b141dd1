"""Runs the scripts of experiments, and records their models and evaluations."""
from hlib import *
import glob
import io
import json
import logging
import runpy
import tempfile
import numpy as np
from task_models import evaluation
from task_models.evaluation import SupportiveExperiment
from task_models.supportive import USES, CONSUMES, CONSUMES_SOME

args = parse_args()
R = Recorder(args)
WORK = os.environ.get('VERIF_WORK', tempfile.gettempdir())
REPO = os.environ.get('VERIF_REPO', '/repo')
CONDS = {USES: 'U', CONSUMES: 'C', CONSUMES_SOME: 'S'}
O = ['none', 'fail', 'not-found', 'yes', 'no']
logging.basicConfig(handlers=[logging.StreamHandler(io.StringIO())])
RUN = SupportiveExperiment.run
HERE = []


def parts(a):
    w = a.split(' ', 1)
    return [w[0], '' if len(w) == 1 else w[1]]


def launch(job, given, run, name='job'):
    """The experiment of a script, given a configuration."""
    def stand_in(self, debug=False):
        HERE.append(self)
        if run:
            return RUN(self, debug=debug)
        self.init_run()
    del HERE[:]
    path = tempfile.mkdtemp(dir=WORK)
    config = os.path.join(path, 'config.json')
    with open(config, 'w') as f:
        json.dump(given, f)
    script = os.path.join(REPO, 'samples', 'supportive_evaluation_%s_job.py' % job)
    argv = sys.argv
    sys.argv = [script, config, path, name]
    SupportiveExperiment.run = stand_in
    try:
        out, _ = outcome(runpy.run_path, script, run_name='__main__')
    finally:
        sys.argv = argv
        SupportiveExperiment.run = RUN
    files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(path, '*')))
    res = None
    if name + '.json' in files:
        with open(os.path.join(path, name + '.json')) as f:
            res = json.load(f)
    return out, HERE[0] if len(HERE) == 1 else None, res


def parameters(job, given):
    """As the specification wants them."""
    P = {'job': job, 'task': given.get('task', 'alternative'), 'n': given.get('n_subtasks', 20),
         'policy': given.get('policy', 'random' if job == 'multitask' else 'pomcp'),
         'subrewards': given.get('intermediate-rewards', False), 'pchangegiven': 'p_change_preference' in given,
         'ppref': num(given.get('p_preference', .3)), 'pchange': num(given.get('p_change_preference', .01)),
         'reps': given.get('n_evaluations', -1)}
    return P


def model_event(ev, p):
    nodes, objs = list(p.htm_nodes), list(p.objects)
    conds = [[{'c': CONDS[c], 'name': o} for c, o in n.action.conditions] for n in nodes]
    ev.cfg['objects'] = objs
    ev.cfg['m'] = {
        'leaf': [{'hold': n.action.hold or '', 'conds': [{'c': c['c'], 'o': objs.index(c['name']) + 1} for c in cs]}
                 for n, cs in zip(nodes, conds)],
        'succs': [[int(x) + 1 for x in s] for s in p.htm_succs], 'init': [int(x) + 1 for x in p.htm_init],
        'nobj': len(objs), 'clear': [bool(x) for x in p.clearable], 'npref': len(p.preferences),
        'ppref': [num(x) for x in p.p_preferences], 'pfail': num(p.p_fail), 'pall': num(p.p_consume_all),
        'pobj': num(p.p_changed_by_human), 'pchange': num(p.p_change_preference),
        'rsub': fix(p.r_subtask, 1000), 'rfin': fix(p.r_final, 1000), 'rpref': fix(p.r_preference, 1000),
        'indep': bool(p.reward_independent_preference), 'cget': fix(p.cost_get, 1000),
        'cintr': fix(p.cost_intrinsic, 1000), 'chold': fix(p.cost_hold, 1000)}
    ev.append({'op': 'model', 'conds': conds, 'gamma': num(p.discount), 'observations': list(p.observations)})


def sc_run(ev, rng, job, given):
    P = parameters(job, given)
    ev.cfg = {'p': P}
    out, exp, res = launch(job, given, True)
    ev.append({'op': 'ran', 'out': out, 'file': res is not None})
    if exp is None or res is None:
        return
    p = exp.model
    model_event(ev, p)
    D = [[2 ** i for i in range(40)]]
    E = res['evaluations']
    ev.append({'op': 'evaluations', 'n': len(E)})
    for e in E:
        ev.append({'op': 'start', 's': e['states'][0]})
        k = len(e['actions'])
        sizes = [len(e['states']) - 1, k, len(e['observations']), len(e['rewards'])]
        for i in range(min(sizes)):
            ev.append({'op': 'act', 'a': parts(p.actions[e['actions'][i]]), 't': e['states'][i + 1],
                       'o': p.observations[e['observations'][i]], 'r': fix(e['rewards'][i], 1000)})
        ev.append({'op': 'end', 'sizes': sizes, 'ret': fix(e['return'], 1000), 'calls': e['simulator-calls']})


def sc_policy(ev, rng, job, given, fair):
    """The policy of a job, and any observations."""
    P = parameters(job, given)
    ev.cfg = {'p': P}
    out, exp, res = launch(job, given, False)
    ev.append({'op': 'made', 'out': out})
    if out != 'ok':
        return
    model_event(ev, exp.model)
    pol, model = exp.policy, exp.model
    ev.append({'op': 'reset', 'out': outcome(pol.reset)[0]})
    for _ in range(rng.choice([15, 40, 80])):
        if rng.random() < .03:
            ev.append({'op': 'reset', 'out': outcome(pol.reset)[0]})
        for _ in range(rng.choice([1, 1, 2])):
            out, a = outcome(pol.get_action)
            ev.append({'op': 'get', 'out': out, 'a': parts(a) if type(a) is str else ['?', '']})
            if a not in model.actions:
                return
        k = rng.random()
        if fair:
            o = 'none' if k < .8 else 'fail' if k < .9 or parts(a)[0] == 'hold' else 'not-found'
        else:
            o = rng.choice(O)
        ev.append({'op': 'tell', 'o': o, 'out': outcome(pol.step, o)[0]})


def gen(rng, job):
    g = {}
    if rng.random() < .8:
        g['p_preference'] = rng.choice([0., .05, .3, .5, 1.])
    if rng.random() < .4:
        g['p_change_preference'] = rng.choice([0., .1, .5])
    if job == 'preference':
        g['policy'] = rng.choice(['always-hold', 'never-hold'])
    elif job == 'multitask':
        if rng.random() < .8:
            g['task'] = rng.choice(['sequence', 'uniform', 'alternative'])
        if rng.random() < .7:
            g['policy'] = rng.choice(['repeat', 'repeat', 'random'])
        if rng.random() < .5 or g.get('task') == 'sequence' and rng.random() < .8:
            g['n_subtasks'] = rng.randint(1, 5)
    if rng.random() < .5:
        g['intermediate-rewards'] = rng.random() < .5
    g['n_evaluations'] = rng.randint(1, 4)
    return g


def planner(rng, job):
    g = gen(rng, job)
    g['policy'] = 'pomcp'
    if g.get('task') == 'sequence' or 'n_subtasks' in g:
        g['n_subtasks'] = rng.randint(1, 3)
    g.update({'n_warmup': 5, 'iterations': rng.choice([2, 5, 10]), 'n_particles': rng.choice([60, 100]),
              'horizon-length': rng.choice([1, 2, 4]), 'horizon-type': rng.choice(['transitions', 'htm']),
              'n_evaluations': rng.randint(1, 2)})
    return g


k = 6 if THOROUGH else 1
for i in range(9 * k):
    for job in ('preference', 'multitask'):
        R.scenario('%s%d' % (job, i), lambda ev, rng: sc_run(ev, rng, job, gen(rng, job)))
for i in range(2 * k):
    for job in ('preference', 'multitask', 'pomcp'):
        R.scenario('planner-%s%d' % (job, i), lambda ev, rng: sc_run(ev, rng, job, planner(rng, job)), timeout=100)
R.scenario('repetitions-p', lambda ev, rng: sc_run(ev, rng, 'preference', {'policy': 'always-hold', 'p_preference': 1.}))
R.scenario('repetitions-m', lambda ev, rng: sc_run(ev, rng, 'multitask', {'task': 'sequence', 'n_subtasks': 1}))
for i, (job, g) in enumerate([('preference', {'policy': 'sometimes'}), ('multitask', {'policy': 'none'}),
                              ('multitask', {'task': 'none'}), ('multitask', {'policy': 'never-hold'}),
                              ('preference', {'policy': 'repeat'})]):
    R.scenario('unknown%d' % i, lambda ev, rng: sc_run(ev, rng, job, g))
for i in range(12 * k):
    for job in ('preference', 'multitask'):
        R.scenario('policy-%s%d' % (job, i), lambda ev, rng: sc_policy(ev, rng, job, gen(rng, job), i % 3))
R.close()
