"""Records the models made from tasks (transitions, observations, costs)."""
from hlib import *
from trees import *
from task_models.task_to_pomdp import CollaborativeAction, HTMToPOMDP
import math

args = parse_args()
P = args.prop
R = Recorder(args)


def describe(a):
    return {'th': fix(a.durations[0], 1000), 'tr': fix(a.durations[1], 1000),
            'te': fix(a.durations[2], 1000), 'fail': num(a.fail_proba),
            'no': num(a.no_proba)}


def leaf(g):
    rng = g.rng
    d = tuple(rng.choice([1, 2, 3, 4, 5, 8, .5, 2.25, 10]) for _ in range(3))
    if rng.random() < .15:  # very fast or slow humans, immediate robots
        d = (rng.choice([.01, 100.]), rng.choice([0, 100.]), rng.choice([0, 30.]))
    kw = {}
    if rng.random() < .7:
        kw['fail_probability'] = rng.choice([0., .1, .25, .5, 1., .0125])
    if rng.random() < .7:
        kw['no_probability'] = rng.choice([0., .2, .5, .75, 1., .0375])
    if rng.random() < .3:
        kw['human_probability'] = .3
    return CollaborativeAction(rng.choice(['{}', 'Do {}', '{} Act']).format(g.name('a')), d, **kw)


def record(ev, rng, root, opts, task=None):
    x = expand(root)
    t = dict(t_wait=rng.choice([1, .5, 2, 0]), t_ask=rng.choice([1, 3, 1.5, 0]),
             t_tell=rng.choice([1, 2, 4, 0]))
    sub = rng.choice([1., 5, 20., 0, -2.]) if rng.random() < .4 else None
    par = {}
    if rng.random() < .7:
        par['intr_cost'] = rng.choice([0, 1, 2.5, -.5])
    if rng.random() < .7:
        par['end_reward'] = rng.choice([5, 20., 100, 0, -3.])
    if sub is not None:
        par['subtask_reward'] = sub
    m = {'tree': project(x, describe), 'wait': fix(t['t_wait'], 1000),
         'ask': fix(t['t_ask'], 1000), 'tell': fix(t['t_tell'], 1000),
         'intr': fix(par.get('intr_cost', 0), 1000), 'end': fix(par.get('end_reward', 10.), 1000),
         'sub': fix(sub or 0, 1000), 'hassub': sub is not None,
         'det': opts['deterministic'], 'struct': opts['structured'], 'loop': opts['loop'],
         'rs': opts['reward_state']}
    ls = leaves(x)
    ds = set([t['t_wait'], t['t_ask'], t['t_tell']] + [l.action.durations[2] for l in ls])
    m['exp'] = [[fix(d, 1000), fix(h, 1000), fix(math.exp(-float(d) / h))]
                for d in ds for h in set(l.action.durations[0] for l in ls)]
    before = json.dumps(project(root))
    kw = {k: v for k, v in opts.items() if v or rng.random() < .5}
    kw.update(par)
    conv = HTMToPOMDP(t['t_wait'], t['t_ask'], t['t_tell'], **kw)
    if rng.random() < .3:  # the converter can be used several times
        conv.task_to_pomdp(HierarchicalTask(root=LeafCombination(
            CollaborativeAction('other', (1, 1, 1)))))
    out, p = outcome(conv.task_to_pomdp, HierarchicalTask(root=root))
    cfg = {'m': m, 'orig': project(root, describe), 'rx': [radix(l.action.name) for l in ls],
           'states': list(p.states) if out == 'ok' else []}
    ev.cfg = cfg
    ev.append({'op': 'made', 'out': out if json.dumps(project(root)) == before
               else 'task-changed', 'nopar': not paths(root, 'Parallel'),
               'actions': list(p.actions) if out == 'ok' else [],
               'observations': list(p.observations) if out == 'ok' else [],
               'discount': fix(p.discount, 1000) if out == 'ok' else 0})
    if out != 'ok':
        return
    if P in ('T01', 'ALL'):
        ev.append({'op': 'start', 'row': [fix(v) for v in p.start]})
    O = np.asarray(p.O)
    RR = np.broadcast_to(-np.asarray(p.R), p.T.shape + (O.shape[-1],))
    for i, a in enumerate(p.actions):
        if P in ('T01', 'ALL'):
            ev.append({'op': 'T', 'a': a, 'rows': [[fix(v) for v in r] for r in p.T[i]]})
        if P in ('T02', 'ALL'):
            obs = []
            for r in O[i]:
                c = [o for o, v in zip(p.observations, r) if abs(v - 1.) < 1e-9]
                obs.append(c[0] if len(c) == 1 and abs(sum(r) - 1) < 1e-9 else 'several')
            ev.append({'op': 'O', 'a': a, 'obs': obs})
        if P in ('T03', 'ALL'):
            ev.append({'op': 'R', 'a': a, 'cost': [[scalar(o) for o in r] for r in RR[i]]})


OPTS = ('deterministic', 'structured', 'loop', 'reward_state')


def sc_task(i):
    def run(ev, rng):
        opts = {o: bool((i >> j) & 1) for j, o in enumerate(OPTS)}
        budget = rng.choice([2, 3, 5, 7])
        g = Gen(rng, leaf, budget=budget, depth=rng.randint(1, 3), probas=False, p_leaf=.3,
                kinds=rng.choice([('Sequential', 'Alternative'), ('Sequential', 'Parallel'),
                                  ('Sequential', 'Sequential', 'Alternative', 'Parallel')]))
        root, _ = g.make()
        record(ev, rng, root, opts)
    return run


def sc_shape(i, o):
    def run(ev, rng):
        opts = {x: bool((o >> j) & 1) for j, x in enumerate(OPTS)}
        record(ev, rng, shaped(Gen(rng, leaf), SHAPES[i]), opts)
    return run


n = 48 * (8 if THOROUGH else 1)
for i in range(n):
    R.scenario('task-%d' % i, sc_task(i))
for i in range(len(SHAPES)):
    for o in range(16) if THOROUGH else (5 * i % 16,):
        R.scenario('shape-%d-%d' % (i, o), sc_shape(i, o))
R.close()
