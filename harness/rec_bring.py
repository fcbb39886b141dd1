"""Records bring-next models, tower tasks and hold-and-release models."""
from hlib import *
from trees import *
from task_models.bring_next_to_pomdp import CollaborativeAction, HTMToPOMDP
from task_models.tower_problem import TowerProblem
from task_models.hold_and_release import hold_and_release_pomdp

args = parse_args()
P = args.prop
R = Recorder(args)


def describe(a):
    return {'obj': a.obj}


def record(ev, rng, root, objects, opts):
    x = expand(root)
    ls = leaves(x)
    t = [rng.choice([0, 1, 2, 3.5]), rng.choice([1, 2, 4, 0]), rng.choice([5, 7.5, 10, 0, -1])]
    kw = {k: v for k, v in opts.items() if rng.random() < .7 or v != (k == 'loop')}
    reward = 10.
    if rng.random() < .6:
        reward = kw['end_reward'] = rng.choice([1., 20, 100, 0, -4])
    discount = .9 if opts['loop'] else 1.
    if rng.random() < .5:
        discount = kw['discount'] = rng.choice([.5, .95, 1., 0.])
    m = {'tree': project(x, describe), 'objects': objects, 'com': fix(t[0], 1000),
         'get': fix(t[1], 1000), 'err': fix(t[2], 1000), 'end': fix(reward, 1000),
         'loop': opts['loop'], 'noans': opts['no_answer']}
    before = json.dumps(project(root))
    conv = HTMToPOMDP(*t, objects, **kw)
    if rng.random() < .3:  # the converter can be used several times
        conv.task_to_pomdp(HierarchicalTask(root=LeafCombination(
            CollaborativeAction('other', objects[0]))))
    out, p = outcome(conv.task_to_pomdp, HierarchicalTask(root=root))
    ok = out == 'ok'
    ev.cfg = {'m': m, 'orig': project(root, describe), 'discount': fix(discount, 1000),
              'rx': [radix(l.action.name) for l in ls], 'states': list(p.states) if ok else []}
    ev.append({'op': 'made', 'out': out if json.dumps(project(root)) == before
               else 'task-changed', 'nopar': not paths(root, 'Parallel'),
               'actions': list(p.actions) if ok else [],
               'observations': list(p.observations) if ok else [],
               'discount': fix(p.discount, 1000) if ok else 0})
    if not ok:
        return
    if P in ('B01', 'ALL'):
        ev.append({'op': 'start', 'row': [num(v) for v in p.start]})
    for i, a in enumerate(p.actions):
        if P in ('B01', 'ALL'):
            ev.append({'op': 'T', 'a': a, 'rows': [[num(v) for v in r] for r in p.T[i]]})
        if P in ('B02', 'ALL'):
            ev.append({'op': 'O', 'a': a, 'rows': [[num(v) for v in r] for r in p.O[i]]})
        if P in ('B03', 'ALL'):
            ev.append({'op': 'R', 'a': a, 'cost': [[scalar(-o) for o in r] for r in p.R[i]]})


def sc_bring(i):
    def run(ev, rng):
        opts = {'loop': bool(i & 1), 'no_answer': bool(i & 2)}
        objects = ['leg', 'top', 'foot', 'Joint 1'][:rng.randint(1, 4)]

        def leaf(g):
            return CollaborativeAction(rng.choice(['{}', 'Do {}', '{} A']).format(g.name('a')),
                                       rng.choice(objects))
        # copies of parallel nodes hold copies of the actions
        g = Gen(rng, leaf, budget=rng.choice([2, 4, 6, 8]), depth=rng.randint(1, 3), probas=False,
                p_leaf=.3, kinds=rng.choice([('Sequential', 'Alternative'),
                                             ('Sequential', 'Parallel'),
                                             ('Sequential', 'Alternative', 'Parallel')]))
        root, _ = g.make()
        record(ev, rng, root, objects, opts)
    return run


LARGE = ['S(%s)' % ('.' * 33), 'S(..A(%s).)' % ('.' * 20), 'S(%s)' % ('A(..)' * 9),
         'S(P(....))']


def sc_large_task(shape, o):
    def run(ev, rng):
        objects = ['leg', 'top', 'foot', 'Joint 1'][:rng.randint(2, 4)]
        g = Gen(rng, lambda g: CollaborativeAction(g.name('a'), rng.choice(objects)))
        record(ev, rng, shaped(g, shape), objects,
               {'loop': bool(o & 1), 'no_answer': bool(o & 2)})
    return run


def sc_shape(i, o):
    def run(ev, rng):
        objects = ['leg', 'top', 'foot', 'Joint 1'][:rng.randint(2, 4)]
        g = Gen(rng, lambda g: CollaborativeAction(g.name('a'), rng.choice(objects)))
        record(ev, rng, shaped(g, SHAPES[i]), objects,
               {'loop': bool(o & 1), 'no_answer': bool(o & 2)})
    return run


def orders(ev, tp, os_, names, fun):
    out, t = outcome(fun)
    ok = out == 'ok'
    kids = t.root.children if ok else []
    ev.append({'op': 'orders', 'out': out, 'orders': [[int(x) for x in o] for o in os_],
               'names': names, 'k': kind(t.root) if ok else '',
               'seqs': [{'k': kind(c), 'name': c.name,
                         'objs': [l.action.obj for l in leaves(c)],
                         'leaves': [l.name for l in leaves(c)]} for c in kids],
               'leaves': [l.name for l in leaves(t.root)] if ok else []})


def sc_large(ev, rng):
    for h, n in ((7, 2), (2, 8), (5, 1), (1, 9), (12, 3)):
        tower(ev, rng, h, n, rng.choice([3, 13]))


def sc_tower(ev, rng):
    tower(ev, rng, rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4))


def tower(ev, rng, h, n, n_orders):
    if n_orders <= 4 and rng.random() < .2:
        h, n, tp = 2, 3, TowerProblem()
    else:
        tp = TowerProblem(height=h, n_towers=n)
    out, v = outcome(lambda: (list(tp.parts), [int(i) for i in tp.v_first()],
                              [int(i) for i in tp.h_first()]))
    ev.append({'op': 'tower', 'height': h, 'n': n, 'out': out,
               'parts': v[0] if v else [], 'v': v[1] if v else [], 'h': v[2] if v else []})
    vert, hor = list(range(h * n)), [i * h + j for j in range(h) for i in range(n)]
    orders(ev, tp, [vert, hor], ['vertical', 'horizontal'], tp.vertical_horizontal_task)
    os_ = []
    for _ in range(n_orders):
        o = list(range(h * n))
        rng.shuffle(o)
        os_.append(o)
    if rng.random() < .5:
        orders(ev, tp, os_, [str(i) for i in range(len(os_))], lambda: tp.task_from_orders(os_))
    else:
        names = rng.choice([['o%d' % i for i in range(len(os_))],
                            ['', 'a b'] + ['x' * i for i in range(1, len(os_) - 1)]])[:len(os_)]
        orders(ev, tp, os_, names, lambda: tp.task_from_orders(os_, names=names))
    out, s = outcome(tp.sequential_combination_from_order, os_[0])
    ev.append({'op': 'plain', 'out': out, 'order': os_[0], 'k': kind(s) if s else '',
               'names': [c.name for c in s.children] if s else [],
               'objs': [c.action.obj for c in s.children] if s else []})
    if rng.random() < .3 and h * n <= 6:
        # models of these tasks
        from task_models.bring_next_to_pomdp import HTMToPOMDP as H
        p = H(1, 2, 5, tp.parts).task_to_pomdp(tp.vertical_horizontal_task())
        if len(p.states) != 2 * h * n + 1:
            ev.append({'op': 'crash', 'type': 'states of the tower model'})


def sc_hold(ev, rng):
    for _ in range(4):
        w, f, c = [rng.choice([0, 1, 2.5, 10, -1]) for _ in range(3)]
        given = rng.random() < .7
        q = rng.choice([0., .1, .25, .5, .9, 1.]) if given else .2
        out, p = outcome(hold_and_release_pomdp, w, f, c, **({'proba_finish': q} if given else {}))
        e = {'op': 'model', 'out': out, 'm': {'wait': fix(w, 1000), 'fail': fix(f, 1000),
                                              'com': fix(c, 1000), 'p': num(q)}}
        if out == 'ok':
            n3 = lambda x: [[[num(z) for z in y] for y in r] for r in x]
            e.update({'states': list(p.states), 'actions': list(p.actions),
                      'observations': list(p.observations), 'discount': num(p.discount),
                      'start': [num(x) for x in p.start], 'T': n3(p.T), 'O': n3(p.O),
                      'C': [[[scalar(-z) for z in y] for y in r] for r in p.R]})
        ev.append(e)


k = 8 if THOROUGH else 1
if P in ('B01', 'B02', 'B03', 'ALL'):
    for i in range(100 * k):
        R.scenario('bring-%d' % i, sc_bring(i))
    for i in range(len(SHAPES)):
        for o in range(4) if THOROUGH else (i % 4, (i + 3) % 4):
            R.scenario('shape-%d-%d' % (i, o), sc_shape(i, o))
    for i, x in enumerate(LARGE):
        R.scenario('large-%d' % i, sc_large_task(x, i))
if P in ('B04', 'ALL'):
    R.scenario('tower-large', sc_large)
    for i in range(60 * k):
        R.scenario('tower-%d' % i, sc_tower)
if P in ('T04',):
    for i in range(40 * k):
        R.scenario('hold-%d' % i, sc_hold)
R.close()
