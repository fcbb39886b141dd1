"""Records models of supportive behaviours."""
from hlib import *
import re
import trees
from planners import Step, gen_htm
from exactrng import distribution
from task_models import supportive
from task_models.supportive import (SupportivePOMDP, _SupportivePOMDPState, _HTMToDAG, USES, CONSUMES,
                                    CONSUMES_SOME)
from task_models.task import LeafCombination

args = parse_args()
P = args.prop
R = Recorder(args)
PK = 100000000
CONDS = {USES: 'U', CONSUMES: 'C', CONSUMES_SOME: 'S'}


def want(*props):
    return P in props or P == 'ALL'


def name(action):
    return action.uid  # copies of a step are the same step


def steps_of(node):
    return trees.project(node, act=name)


def leaf(n, rng, objects, some=True, again=False, many=False):
    kinds = [USES, CONSUMES] + ([CONSUMES_SOME] if some else [])
    k = rng.randint(0, min(3, len(objects)))
    conds = [(rng.choice(kinds), o) for o in rng.sample(objects, k)]
    if conds and rng.random() < .15:
        conds.append((rng.choice(kinds), conds[0][1]))
    if many:
        conds = [(rng.choice(kinds), o) for o in rng.sample(objects, rng.randint(4, len(objects)))]
    if again:  # several conditions on the same objects, in any order
        conds = [(rng.choice(kinds), rng.choice(objects)) for _ in range(rng.randint(2, 3))]
        if rng.random() < .3:
            conds.append(conds[0])
    return LeafCombination(Step(n, rng.choice([None, 'h', 'v']), conds))


def tree(rng, objects, budget, some=True, again=False, shape=None, many=False):
    if shape is not None:
        g = trees.Gen(rng, lambda g: leaf(g.name('step '), rng, objects, some, again, many).action, probas=False)
        return trees.shaped(g, shape)
    if not again and rng.random() < .3:
        return gen_htm(rng, leaves=rng.randint(1, min(3, budget)), objects=objects, some=some)
    g = trees.Gen(rng, lambda g: leaf(g.name('step '), rng, objects, some, again).action, budget=budget, probas=False)
    return g.make()[0]


def size(node):
    k = trees.kind(node)
    if k == 'Leaf':
        return 1
    s = [size(c) for c in node.children]
    return sum(s) * {1: 1, 2: 2, 3: 6, 4: 24}.get(len(s), 120) if k == 'Parallel' else sum(s)


# probabilities of spontaneous changes, by number of bits
PROBA = [(0, 1), (1, 2), (1, 4), (1, 10)]
DEFAULT = {'p_fail': (1, 100), 'p_consume_all': (1, 2), 'p_changed_by_human': (1, 100),
           'p_change_preference': (1, 100)}


def make(ev, rng, nobj=None, budget=6, default=False, again=False, shape=None, many=False, npref=None):
    """A model, and its description for the specification."""
    objects = ['top', 'leg', 'screws', 'screwdriver', 'foot', 'joint', 'rod', 'dowel', 'brackets', 'nut',
               'bolt', 'Top'][:nobj if nobj is not None else rng.randint(1, 3)]
    rng.shuffle(objects)
    htm = tree(rng, objects, budget, again=again, shape=shape, many=many)
    before = steps_of(htm)
    prefs = ['hold'] if default or rng.random() < .7 else ['hold', 'light']
    if npref:
        prefs = ['hold', 'light', 'music'][:npref]
    ppref = [(3, 10)] if default else [rng.choice([(0, 1), (1, 1), (3, 10), (1, 2), (4, 5)]) for _ in prefs]
    if npref:
        ppref = [rng.choice([(3, 10), (1, 2), (4, 5)]) for _ in prefs]
    pr = dict(DEFAULT) if default else {
        'p_fail': rng.choice([(0, 1), (1, 10), (1, 4), (2, 5)]), 'p_consume_all': rng.choice([(0, 1), (1, 1), (1, 2), (1, 4)]),
        'p_changed_by_human': rng.choice(PROBA), 'p_change_preference': rng.choice(PROBA[1:] if npref else PROBA)}
    cls = type('Model', (SupportivePOMDP,), {
        'preferences': prefs, 'p_preferences': [a / float(b) for a, b in ppref]})
    out, p = outcome(cls, htm, discount=1.)
    if out != 'ok':
        ev.append({'op': 'crash', 'type': out})
        return None
    for k, (a, b) in pr.items():
        setattr(p, k, a / float(b))
    rew = {'r_subtask': 10., 'r_final': 100., 'r_preference': 10., 'cost_get': 15., 'cost_intrinsic': 1.,
           'cost_hold': 2.}
    indep = rng.random() < .4
    if not default:
        rew = {'r_subtask': float(rng.randint(0, 20)), 'r_final': float(rng.randint(0, 200)),
               'r_preference': rng.randint(0, 40) / 2., 'cost_get': float(rng.randint(0, 20)),
               'cost_intrinsic': rng.choice([0., 1., .5, 3.]), 'cost_hold': rng.choice([0., 2., 1.5, 7.])}
        for k, v in rew.items():
            setattr(p, k, v)
        # no two rewards are the same, in most models
    p.reward_independent_preference = indep
    nodes = list(p.htm_nodes)
    objs = list(p.objects)
    conds = [[{'c': CONDS[c], 'name': o} for c, o in n.action.conditions] for n in nodes]
    m = {'leaf': [{'hold': n.action.hold or '', 'conds': [{'c': c['c'], 'o': objs.index(c['name']) + 1} for c in cs]}
                  for n, cs in zip(nodes, conds)],
         'succs': [[int(x) + 1 for x in s] for s in p.htm_succs], 'init': [int(x) + 1 for x in p.htm_init],
         'nobj': len(objs), 'clear': [bool(x) for x in p.clearable], 'npref': len(prefs),
         'ppref': [list(x) for x in ppref], 'pfail': list(pr['p_fail']), 'pall': list(pr['p_consume_all']),
         'pobj': list(pr['p_changed_by_human']), 'pchange': list(pr['p_change_preference']),
         'rsub': fix(rew['r_subtask'], 1000), 'rfin': fix(rew['r_final'], 1000),
         'rpref': fix(rew['r_preference'], 1000), 'indep': indep, 'cget': fix(rew['cost_get'], 1000),
         'cintr': fix(rew['cost_intrinsic'], 1000), 'chold': fix(rew['cost_hold'], 1000)}
    ev.cfg = {'m': m, 'objects': objs, 'prefs': prefs}
    e = {'op': 'model', 'out': 'ok', 'before': before, 'tree': steps_of(htm), 'nleaves': len(nodes),
         'steps': [n.action.uid for n in nodes], 'nodes': [n.name for n in nodes], 'conds': conds,
         'actions': list(p.actions), 'nactions': int(p.n_actions), 'observations': list(p.observations),
         'nobservations': int(p.n_observations), 'features': list(p.features), 'names': list(p.htm_names),
         'nhtm': int(p.n_htm_states), 'clean': int(p.htm_clean), 'final': int(p.htm_final),
         'nstates': int(p.n_states), 'nnames': -1, 'distinct': True,
         'ids': [int(p.get_object_id(o)) + 1 for o in objs]}
    N = int(p.n_states)
    if P in ('S05', 'ALL') and N <= 1000:
        st = list(p.states)
        e['nnames'], e['distinct'] = len(st), len(set(st)) == len(st)
    some = range(N) if N <= 200 else sorted(rng.sample(range(N), 100) + list(range(N - 60, N)))
    e['isfinal'] = [{'s': s, 'f': bool(p.is_final(s))} for s in some]
    ev.append(e)
    return p


def dist(fun, key):
    ex, d = distribution(fun, key=key, limit=6000, samples=3000)
    return ex, [(k, fix(q, PK)) for k, (q, _) in sorted(d.items())]


def sc_model(ev, rng, **kw):
    make(ev, rng, budget=rng.choice([2, 4, 6, 8, 12]), **kw)


def sc_start(ev, rng, **kw):
    p = make(ev, rng, budget=rng.choice([2, 4, 6]), **kw)
    if p is None:
        return

    def go():
        return int(p.sample_start())
    out, r = outcome(dist, go, lambda s: s)
    ev.append({'op': 'start', 'out': out, 'exact': out != 'ok' or r[0],
               'outs': [{'s': s, 'p': q} for s, q in r[1]] if out == 'ok' else []})


# Several steps may follow one, or be followed by one
SHAPES = trees.SHAPES + ['A(........)', 'S(A(.........)A(..))', 'S(P(...).)', 'S(.P(...))']
OBS = ['none', 'fail', 'not-found', 'yes', 'no']


def sc_trans(ev, rng, n=8, budgets=(1, 2, 4, 6), **kw):
    p = make(ev, rng, budget=rng.choice(budgets), **kw)
    if p is None:
        return
    A, N, H = list(p.actions), int(p.n_states), int(p.n_htm_states)
    block = N // H
    # Steps with several successors
    forks = [i for i, x in enumerate(p.htm_succs) if len(x) > 1]
    for i in range(n):
        h = rng.randrange(H) if rng.random() < .7 else rng.randrange(max(1, H - 2))
        fork = forks and rng.random() < .4
        if fork:
            h = rng.choice(forks)
        s = h * block + rng.randrange(block)
        if rng.random() < .5:
            s |= 1 << (len(p.objects) + 1)  # prefers holding
        a = rng.randrange(4) if rng.random() < .6 else rng.randrange(len(A))
        if fork and rng.random() < .6:
            a = p.A_WAIT
        random_ = rng.random() < (.2 if len(p.objects) > 4 else .75)
        if kw.get('many') and rng.random() < .5:
            s = h * block + (s % block >> len(p.objects) << len(p.objects))  # no object there

        def go():
            t, o, r = p.sample_transition(a, s) if random_ and rng2() else \
                p.sample_transition(a, s, random=random_)
            return int(t), OBS[o] if p.observations == OBS else p.observations[o], fix(r, 1000)
        use = rng.random() < .5

        def rng2():
            return use
        out, r = outcome(dist, go, lambda x: x)
        ev.append({'op': 'trans', 'a': a + 1, 's': s, 'random': random_, 'out': out,
                   'exact': out != 'ok' or r[0],
                   'outs': [{'t': k[0], 'o': k[1], 'r': k[2], 'p': q} for k, q in r[1]] if out == 'ok' else []})
    for a in (len(A), len(A) + 5):
        out, _ = outcome(p.sample_transition, a, 0)
        ev.append({'op': 'bad', 'out': out})


def sc_dag(ev, rng):
    for i in range(6):
        t = tree(rng, ['a', 'b'], rng.choice([2, 4, 8, 12]), shape=rng.choice(SHAPES) if i < 2 else None)
        before = steps_of(t)
        out, d = outcome(_HTMToDAG, t)
        e = {'op': 'dag', 'out': out, 'tree': before, 'names': [], 'succs': [], 'init': [], 'nleaves': 0}
        if out == 'ok':
            e.update(names=[n.action.uid for n in d.nodes], nleaves=len(d.nodes),
                     succs=[[int(x) + 1 for x in s] for s in d.succs], init=[int(x) + 1 for x in d.init])
        ev.append(e)


def sc_provided(ev, rng):
    mk = [('BringTop', lambda: supportive.BringTop()), ('AssembleLeg', lambda: supportive.AssembleLeg('leg')),
          ('AssembleFoot', lambda: supportive.AssembleFoot('leg 2')),
          ('AssembleTopJoint', lambda: supportive.AssembleTopJoint('leg')),
          ('AssembleLegToTop', lambda: supportive.AssembleLegToTop('leg')),
          ('AssembleLegToTop-top', lambda: supportive.AssembleLegToTop('leg', bring_top=True))]
    rng.shuffle(mk)
    for n, f in mk * 2:
        a = f()
        ev.append({'op': 'provided', 'cls': n, 'hold': a.hold or '',
                   'conds': [{'c': CONDS[c], 'o': o} for c, o in a.conditions]})


# -- S02 ------------------------------------------------------------------------


def seen(x, dims):
    nh, np_, nb, no = dims
    text = []
    g = re.match(r'^<\s*(\d+): (\d+) ([01]*) ([01]*) ([01]*)>$', str(x))
    if g and len(g.group(3)) == np_ and len(g.group(4)) == nb and len(g.group(5)) == no:
        text = [int(g.group(1)), int(g.group(2))] + [int(c) for k in (3, 4, 5) for c in g.group(k)]
    return {'s': int(x.to_int()), 'h': int(x.htm), 'pr': [int(x.has_preference(i)) for i in range(np_)],
            'body': [int(x.has_body_feature(i)) for i in range(nb)],
            'ob': [int(x.has_object(i)) for i in range(no)], 'final': bool(x.is_final()),
            'n': int(x.n_states), 'text': text,
            'dims': [int(x.n_htm), int(x.n_preferences), int(x.n_body_features), int(x.n_objects)]}


def change(x, rng, dims):
    nh, np_, nb, no = dims
    fs = [('h', nh)] * 2 + [(f, k) for f, k in (('pr', np_), ('body', nb), ('ob', no)) if k]
    f, k = rng.choice(fs)
    i = rng.randrange(k)
    v = i if f == 'h' else rng.randint(0, 1)
    kind = rng.choice([int, int, bool, np.int64]) if f != 'h' else rng.choice([int, np.int64])
    if f == 'h':
        x.htm = kind(v)
    elif f == 'pr':
        x.set_preference(i, kind(v))
    elif f == 'body':
        x.set_body_feature(i, kind(v))
    else:
        x.set_object(i, kind(v))
    return f, i + 1, v


def sc_state(ev, rng):
    dims = (rng.randint(1, 6), rng.randint(0, 3), rng.randint(0, 2), rng.randint(0, 4))
    if rng.random() < .25:
        dims = (rng.randint(1, 100), rng.randint(0, 5), rng.randint(0, 3), rng.randint(5, 14))
    ev.cfg = {'d': dict(zip(('nh', 'np', 'nb', 'no'), dims))}
    n = dims[0] * 2 ** sum(dims[1:])
    some = list(range(n)) if n <= 24 else rng.sample(range(n), 16)
    for s in some + [-1]:
        x = _SupportivePOMDPState(*dims) if s < 0 else _SupportivePOMDPState(*dims, s=s)
        ev.append({'op': 'state', 's': max(s, 0), 'seen': seen(x, dims)})
    s = rng.randrange(n)
    x = _SupportivePOMDPState(*dims, s=s)
    ev.append({'op': 'state', 's': s, 'seen': seen(x, dims)})
    c = x.copy()
    ev.append({'op': 'copy', 'seen': seen(x, dims), 'seenc': seen(c, dims)})
    for _ in range(25):
        if rng.random() < .15:
            c = x.copy()
            ev.append({'op': 'copy', 'seen': seen(x, dims), 'seenc': seen(c, dims)})
        which = rng.random() < .3
        f, i, v = change(c if which else x, rng, dims)
        ev.append({'op': 'set', 'f': f, 'i': i, 'v': v, 'copy': which, 'seen': seen(x, dims),
                   'seenc': seen(c, dims)})
    for _ in range(3 if n < 500 else 0):
        w = [rng.choice([0, 0, 1, 2, 5]) for _ in range(n)]
        W = float(sum(w) or 1)
        arr = np.array(w) / W
        keep = arr.copy()

        def ints(a):
            return [int(round(v * W)) if abs(v * W - round(v * W)) < 1e-6 else -1 for v in a]
        out, q = outcome(x.belief_quotient, arr)
        out2, r = outcome(x.belief_preferences, arr)
        ok = out == out2 == 'ok'
        ev.append({'op': 'quotient', 'w': w, 'out': 'ok' if ok else out + ' ' + out2,
                   'steps': ints(q) if ok else [], 'prefs': ints(r) if ok else [],
                   'same': bool((arr == keep).all())})


k = 6 if THOROUGH else 1
if want('S01', 'S05'):
    for i in range(40 * k):
        R.scenario('m%d' % i, sc_model)
    for i, x in enumerate(SHAPES):
        R.scenario('shape%d' % i, lambda ev, rng: sc_model(ev, rng, shape=x, nobj=2))
    for i in range(8 * k):
        R.scenario('many%d' % i, lambda ev, rng: sc_model(ev, rng, nobj=rng.randint(6, 12), many=True,
                                                         shape=rng.choice(['S(....)', 'S(.A(..).)', '.'])))
if want('S01'):
    for i in range(12 * k):
        R.scenario('d%d' % i, sc_dag)
if want('S02'):
    for i in range(30 * k):
        R.scenario('s%d' % i, sc_state)
if want('S05'):
    for i in range(20 * k):
        R.scenario('b%d' % i, lambda ev, rng: sc_start(ev, rng, default=i % 5 == 0, nobj=rng.randint(1, 2) if i % 5 == 0 else None))
    for i in range(6 * k):
        R.scenario('prefs%d' % i, lambda ev, rng: sc_start(ev, rng, nobj=rng.randint(1, 2), npref=2 + i % 2))
if want('S03', 'S04'):
    for i in range(50 * k):
        R.scenario('t%d' % i, lambda ev, rng: sc_trans(ev, rng))
    for i in range(8 * k):
        R.scenario('e%d' % i, lambda ev, rng: sc_trans(ev, rng, default=True, nobj=rng.randint(0, 2)))
    for i in range(12 * k):
        R.scenario('c%d' % i, lambda ev, rng: sc_trans(ev, rng, n=12, budgets=(1, 2), nobj=rng.randint(1, 2), again=True))
    for i in range(10 * k):
        R.scenario('n%d' % i, lambda ev, rng: sc_trans(ev, rng, nobj=rng.randint(4, 7), shape=rng.choice(['.', 'S(..)', 'S(.A(..))']), many=True))
    for i in range(6 * k):
        R.scenario('prefs%d' % i, lambda ev, rng: sc_trans(ev, rng, nobj=1, budgets=(1, 2, 4), npref=2 + i % 2))
    for i, x in enumerate(SHAPES * (3 if THOROUGH else 1)):
        R.scenario('shape%d' % i, lambda ev, rng: sc_trans(ev, rng, n=6, shape=x, nobj=2))
if want('S03'):
    R.scenario('p', sc_provided)
R.close()
