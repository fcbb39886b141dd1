"""Records planners: simulations, decisions, steps and exports."""
from hlib import *
import planners
from planners import Planner, NTransitionsHorizon, K
from task_models.lib.pomcp import POMCPPolicyRunner, _SearchTree, export_pomcp
import math

args = parse_args()
P = args.prop
R = Recorder(args)


def run(**kw):
    def scenario(ev, rng):
        pl = Planner(rng, **{k: v for k, v in kw.items() if k in ('shared', 'supportive', 'ending', 'blind', 'wide', 'free', 'particle', 'default')})
        ev.cfg = pl.cfg
        if kw.get('exact') and not pl.supportive:
            # plain averages
            pl.tree = planners_tree(pl)
            pl.p['alpha'] = 0
            pl.known = pl.snapshot()
        ev.append({'op': 'new', 'out': 'ok'})
        try:
            episode(ev, rng, pl, kw)
        finally:
            pl.finish()
    return scenario


def planners_tree(pl):
    """The same tree with plain averages."""
    t = pl.tree
    return type(t)(pl.model, t.horizon_gen, t.exploration, relative_exploration=t.relative_explo,
                   rollout_it=t.rollout_it, node_params={'alpha': 0.})


def episode(ev, rng, pl, kw):
    exact = kw.get('exact') and not pl.supportive
    length = kw.get('length', rng.randint(3, 12))
    if exact:
        keys = lambda: [list(k) for k in pl.known]
        for _ in range(length * 2):
            k = rng.choice(keys() + [[1] if pl.p['shared'] else []] * 3)
            pl.simulate(ev, k, rng.choice([None, None, rng.randrange(pl.p['na'])]))
        return
    acted = False
    for _ in range(length):
        k = rng.random()
        if k < .5 or (k < .8 and not acted and rng.random() < .8):
            pl.plan(ev, rng.choice([None, None, 1, 0, 2, 8, 20]))
            acted = True
        elif k < .8:
            o = rng.randrange(pl.p['no']) if rng.random() < .92 else None
            if acted or not pl.runner.history:
                if pl.step(ev, o) == 'ok':
                    acted = False
        elif k < .9:
            pl.reset(ev)
            acted = False
        if rng.random() < .5:
            pl.peek(ev)
        if kw.get('choices') and rng.random() < .5:
            pl.choices(ev)
            acted = True
        if kw.get('visit') and rng.random() < .4:
            pl.visit(ev, rng)
        if kw.get('export') and rng.random() < .5:
            export(ev, rng, pl)


# -- Exports ----------------------------------------------------------------------


def opt(x, scale):
    return {'d': x is not None, 'x': 0 if x is None else fix(x, scale)}


def raw(node):
    return [fix(x, K) for x in node.belief.array]


def value(x, node):
    """The exported value, which is that of the node."""
    return fix(x, 1000) if abs(x - node.value) <= 1e-9 * max(1, abs(x)) else 10 ** 9


def value_tree(d, node, pl, O=None):
    A, O = pl.A, pl.O
    kids = []
    assert d['node'] is None
    for a, c in zip(d['actions'], d['children']):
        i = A.index(a)
        obs = [O.index(o) for o in c['observations']]
        kids.append({'a': i + 1, 'value': value(c['value'], node.children[i]), 'visits': c['visits'],
                     'obs': [o + 1 for o in obs],
                     'children': [value_tree(x, node.children[i].children[o], pl)
                                  for o, x in zip(obs, c['children'])]})
    if len(d['actions']) != len(d['children']):
        kids.append({'a': 0})
    return {'value': value(d['value'], node), 'visits': d['visits'], 'kids': kids,
            'b': [fix(x, K) for x in d['belief']], 'raw': raw(node)}


def policy_tree(d, node, pl):
    A, O = pl.A, pl.O
    a = A.index(d['action'])
    obs = [O.index(o) for o in d.get('observations', [])]
    kids = node.children[a].children if node.children[a] is not None else {}
    return {'value': value(d['value'], node), 'visits': d['visits'], 'a': a + 1,
            'b': [fix(x, K) for x in d['belief']], 'raw': raw(node),
            'observed': 0 if d['observed'] is None else d['observed'] + 1,
            'values': [opt(x, 1000) for x in d['values']],
            'terms': [opt(x, 10000) for x in d['exploration_terms']],
            'visited': [int(x) for x in d['child_visits']], 'obs': [o + 1 for o in obs],
            'children': [policy_tree(x, kids[o], pl) for o, x in zip(obs, d.get('children', []))]}


def export(ev, rng, pl):
    policy, quotient, names, params = rng.random() < .6, False, True, True
    f = None
    if policy and rng.random() < .5:
        quotient = pl.supportive and rng.random() < .7
        path = os.path.join(WORK, 'tree.json')
        out, _ = outcome(export_pomcp, pl.runner, path, belief_as_quotient=quotient)
        if out == 'ok':
            with open(path) as fp:
                f = json.load(fp)
            d = f['graphs']
            names = (f['actions'] == pl.A and
                     f['states'] == (pl.model.htm_names if quotient else list(pl.model.states)))
            params = (f['exploration'] * 10 == pl.p['c'] and f['relative_exploration'] == pl.p['rel'])
    else:
        k = rng.random()
        if k < .5:
            out, d = outcome(pl.runner.trajectory_trees_from_starts, qvalue=not policy)
            d = d['graphs'] if out == 'ok' else None
        else:
            out, d = outcome(pl.tree.to_dict, as_policy=policy)
            d = [d]
    t = {}
    if out == 'ok':
        assert len(d) == 1
        t = (policy_tree if policy else value_tree)(d[0], pl.tree.root, pl)
    ev.append({'op': 'export', 'policy': policy, 'quotient': quotient, 'out': out, 'tree': t,
               'names': names, 'parameters': params, 'delta': pl.delta()})


def sc_refuse(prop):
    def scenario(ev, rng):
        pl = Planner(rng, shared=False)
        ev.cfg = pl.cfg
        if prop == 'M05':
            out, _ = outcome(lambda: POMCPPolicyRunner(pl.model, iterations=10, horizon=3, belief='particle',
                                                       belief_values=True))
            ev.append({'op': 'refuse', 'prop': prop, 'out': out})
        else:
            for h in (None, 3., 'x', [2]):
                out, _ = outcome(lambda: POMCPPolicyRunner(pl.model, iterations=10, horizon=h))
                ev.append({'op': 'refuse', 'prop': prop, 'out': out})
    return scenario


def sc_horizon(ev, rng):
    """Horizons alone."""
    pl = Planner(rng, supportive=True, ending=rng.random() < .5)
    ev.cfg = pl.cfg
    gen = pl.horizon
    hs = [gen()]
    prog, reached = [], [[bool(hs[0].is_reached())]]
    div, nh = pl.p['div'], pl.model.n_htm_states
    for _ in range(rng.randint(8, 25)):
        k, i = rng.random(), rng.randrange(len(hs))
        s = rng.randrange(nh) * div + rng.randrange(div)
        t = rng.choice([s, s // div * div + rng.randrange(div), rng.randrange(nh) * div + rng.randrange(div)])
        if k < .12 and len(hs) < 5:
            hs.append(gen())
            prog.append({'k': 'fresh', 'i': 1, 's': 0, 't': 0})
        elif k < .25 and len(hs) < 5:
            hs.append(hs[i].copy())
            prog.append({'k': 'copy', 'i': i + 1, 's': 0, 't': 0})
        else:
            hs[i].decrement(rng.randrange(pl.p['na']), s, t, rng.randrange(pl.p['no']))
            prog.append({'k': 'dec', 'i': i + 1, 's': s, 't': t})
        reached.append([bool(h.is_reached()) for h in hs])
    ev.append({'op': 'horizon', 'prog': prog, 'reached': reached})
    pl.finish()


def many(name, n, **kw):
    for i in range(n * (6 if THOROUGH else 1)):
        R.scenario('%s-%d' % (name, i), run(**kw))


if P in ('M01', 'ALL'):
    many('exact', 30, exact=True, shared=False)
    many('exact-shared', 15, exact=True, shared=True)
    many('runner', 30, shared=False)
    many('supportive', 20, supportive=True)
if P in ('M02', 'ALL'):
    many('choice', 70, shared=False, length=6)
    many('choice-wide', 25, shared=False, wide=True, choices=True, length=5)
    many('choice-wide-shared', 8, shared=True, wide=True, choices=True, length=5)
    many('choice-particle', 10, particle=True, length=6, choices=True)
    many('choice-default', 10, particle=True, default=True, length=8)
    many('choice-shared', 20, shared=True, length=6)
    many('choice-supportive', 10, supportive=True)
if P in ('M03', 'ALL'):
    many('horizon', 40)
    many('horizon-supportive', 60, supportive=True)
    many('horizon-ending', 15, supportive=True, ending=True)
    for i in range(60 * (6 if THOROUGH else 1)):
        R.scenario('alone-%d' % i, sc_horizon)
    R.scenario('refuse', sc_refuse('M03'))
if P in ('M04', 'ALL'):
    many('history', 80, length=16)
    many('history-nodes', 30, length=12, shared=False, visit=True)
    many('history-supportive', 10, supportive=True)
if P in ('M05', 'ALL'):
    many('shared', 60, shared=True)
    many('shared-export', 25, shared=True, export=True)
    many('shared-blind', 12, shared=True, export=True, blind=True)
    R.scenario('refuse', sc_refuse('M05'))
if P in ('M06', 'ALL'):
    many('export', 40, shared=False, export=True)
    many('export-free', 8, shared=False, free=True, export=True)
    many('export-shared', 25, shared=True, export=True)
    many('export-supportive', 25, supportive=True, export=True)
R.close()
