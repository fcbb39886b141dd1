"""Records policy graphs: their runners, files, trees and graphs of beliefs."""
from hlib import *
import io
import shutil
import tempfile
import models
from pomdp_io import read_pomdp, model_of, Unreadable
from task_models.lib.pomdp import (
    POMDP, GraphPolicy, GraphPolicyRunner, GraphPolicyBeliefRunner, parse_value_function,
    parse_policy_graph)

args = parse_args()
P = args.prop
R = Recorder(args)
K = 10000


def names(pre, n, rng):
    l = ['%s%d' % (pre, i) for i in range(n)]
    rng.shuffle(l)
    return l


def gen_graph(rng, na, no, n, N=None, full=False):
    N = N or rng.randint(1, 5)
    many = rng.random() < .5
    return {'actions': [1 + (i % na if many else rng.randrange(na)) for i in range(N)],
            'trans': [[0 if not full and rng.random() < .25 else rng.randint(1, N)
                       for _ in range(no)] for _ in range(N)],
            'values': [[rng.randint(-9, 9) for _ in range(n)] for _ in range(N)]}


def policy(g, A, O, **kw):
    return GraphPolicy([A[a - 1] for a in g['actions']], list(O),
                       [[None if t == 0 else t - 1 for t in ts] for ts in g['trans']],
                       np.array(g['values'], dtype=float), **kw)


def weights(rng, n, mx=3):
    w = [rng.randint(0, mx) for _ in range(n)]
    if sum(w) == 0:
        w[rng.randrange(n)] = 1
    return w


def belief(w):
    return np.array(w) / float(sum(w))


# -- P04 --------------------------------------------------------------------------


def sc_runner(ev, rng):
    n, na, no = rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 3)
    N = rng.choice([None, None, None, rng.randint(6, 25)])
    g = gen_graph(rng, na, no, n, N=N, full=N is not None and rng.random() < .7)
    ev.cfg = {'g': g}
    A, O = names('a', na, rng), names('o', no, rng)
    N = len(g['actions'])
    if rng.random() < .5:
        init, w = rng.randint(1, N), []
        out, p = outcome(policy, g, A, O, init=init - 1)
    elif rng.random() < .2:
        init, w = rng.randint(1, N), weights(rng, n)
        out, p = outcome(policy, g, A, O, init=init - 1, start=belief(w))
    else:
        init, w = 0, weights(rng, n)
        out, p = outcome(policy, g, A, O, start=belief(w))
    if out == 'ok':
        out, r = outcome(GraphPolicyRunner, p)
    ev.append({'op': 'new', 'init': init, 'start': w, 'out': out})
    if out != 'ok':
        return

    def act():
        out, a = outcome(r.get_action)
        ev.append({'op': 'action', 'out': out, 'a': A.index(a) + 1 if out == 'ok' else 0})
    act()
    for _ in range(rng.randint(3, 20)):
        k = rng.random()
        if k < .75:
            o = rng.randint(1, no) if rng.random() < .93 else 0
            out, _ = outcome(r.step, O[o - 1] if o else 'nothing')
            ev.append({'op': 'step', 'o': o, 'out': out})
            act()
        elif k < .88:
            given = rng.random() < .5
            w = weights(rng, n)
            out, _ = outcome(r.reset, belief(w)) if given else outcome(r.reset)
            ev.append({'op': 'reset', 'given': given, 'w': w, 'out': out})
            act()
        elif k < .95:
            act()
        else:
            w = weights(rng, n, 9)
            out, i = outcome(p.get_node_from_belief, belief(w))
            ev.append({'op': 'best', 'w': w, 'node': int(i) + 1 if out == 'ok' else 0})


def belief_setup(ev, rng, D=None):
    m = models.gen(rng, D=D or rng.choice([2, 4, 5]))
    n, na, no = models.dims(m)
    g = gen_graph(rng, na, no, n, N=rng.choice([None, None, None, rng.randint(6, 15)]))
    ev.cfg = {'m': m, 'g': g}
    A, O = names('a', na, rng), names('o', no, rng)
    p = models.build(m, states=names('s', n, rng), actions=A, observations=O,
                     values=rng.choice(['reward', 'cost']))
    pol = policy(g, A, O, **rng.choice([{'init': 0}, {'start': np.array(p.start)}]))
    out, r = outcome(GraphPolicyBeliefRunner, pol, p)
    ev.append({'op': 'bnew', 'out': out})
    return m, g, A, O, p, r if out == 'ok' else None


def tree(t, A, O):
    return {'b': [fix(x, K) for x in t['belief']], 'a': A.index(t['action']) + 1,
            'node': t['node'] + 1, 'obs': [O.index(o) + 1 for o in t['observations']],
            'children': [tree(c, A, O) for c in t['children']]}


def walk(ev, rng, m, A, O, r, steps, peek):
    n = m['n']
    for _ in range(steps):
        k = rng.random()
        if k < .8:
            o = rng.randint(1, len(O)) if rng.random() < .93 else 0
            a = A.index(r.get_action()) + 1
            out, _ = outcome(r.step, O[o - 1] if o else 'nothing')
            ev.append({'op': 'bstep', 'a': a, 'o': o, 'out': out})
        else:
            given = rng.random() < .5
            w = weights(rng, n)
            out, _ = outcome(r.reset, belief(w)) if given else outcome(r.reset)
            ev.append({'op': 'breset', 'given': given, 'w': w, 'out': out})
        if peek and rng.random() < .8:
            t = tree(r.trajectory_tree(0), A, O)
            ev.append({'op': 'bpeek', 'b': t['b'], 'node': t['node'], 'a': t['a']})


def sc_belief_runner(ev, rng):
    m, g, A, O, p, r = belief_setup(ev, rng)
    if r is not None:
        t = tree(r.trajectory_tree(0), A, O)
        ev.append({'op': 'bpeek', 'b': t['b'], 'node': t['node'], 'a': t['a']})
        walk(ev, rng, m, A, O, r, rng.randint(3, 15), True)


# -- P06 --------------------------------------------------------------------------


def sc_trees(ev, rng):
    m, g, A, O, p, r = belief_setup(ev, rng, D=rng.choice([2, 4]))
    if r is None:
        return
    for _ in range(rng.randint(1, 3)):
        walk(ev, rng, m, A, O, r, rng.randint(0, 3), False)
        h = rng.choice([0, 1, 2, 2, 3, 3])
        out, t = outcome(r.trajectory_tree, h)
        ev.append({'op': 'traj', 'h': h, 'out': out,
                   'tree': tree(t, A, O) if out == 'ok' else {}})
        t = r.trajectory_tree(0)  # belief of the runner is unchanged
        ev.append({'op': 'traj', 'h': 0, 'out': 'ok', 'tree': tree(t, A, O)})
    h = rng.choice([0, 1, 2, 3])
    if rng.random() < .5:  # very unlikely starts
        w = [x if x > 0 else rng.choice([0, 0, 1e-5, 1e-9]) for x in p.start.tolist()]
        if max(w) > 0:
            i = w.index(max(w))
            w[i] = 1 - sum(w[:i] + w[i + 1:])
        p.start = np.array(w)
    starts = [i + 1 for i, x in enumerate(p.start) if x > 0]
    if rng.random() < .5:
        out, d = outcome(r.trajectory_trees_from_starts, h)
    else:
        path = os.path.join(WORK, 'trees.json')
        out, _ = outcome(lambda: r.save_trajectories_from_starts(path, horizon=h, indent=2))
        d = json.load(open(path)) if out == 'ok' else None
    ev.append({'op': 'startTrees', 'h': h, 'out': out, 'starts': starts,
               'trees': [tree(t, A, O) for t in d['graphs']] if out == 'ok' else []})


def sc_deep(ev, rng):
    """Long horizons, with few observations possible."""
    m = models.gen(rng, n=rng.choice([2, 3]), no=rng.choice([2, 3]), D=rng.choice([2, 4]))
    n, na, no = models.dims(m)
    few = rng.randrange(n * na) if rng.random() < .5 else -1
    for a in range(na):
        for s in range(n):
            if a * n + s != few:
                m['O'][a][s] = models.row(rng, no, m['D'], det=1)
            if rng.random() < .8:
                m['T'][a][s] = models.row(rng, n, m['D'], det=1)
    g = gen_graph(rng, na, no, n)
    ev.cfg = {'m': m, 'g': g}
    A, O = names('a', na, rng), names('o', no, rng)
    p = models.build(m, states=names('s', n, rng), actions=A, observations=O)
    r = GraphPolicyBeliefRunner(policy(g, A, O, init=0), p)
    ev.append({'op': 'bnew', 'out': 'ok'})
    h = out = t = None
    for i in range(2, 13):  # the longest one of reasonable size
        o, x = outcome(r.trajectory_tree, i)
        if o == 'ok' and size(x) >= 120:
            break
        h, out, t = i, o, x
        if o != 'ok':
            break
    ev.append({'op': 'traj', 'h': h, 'out': out, 'tree': tree(t, A, O) if out == 'ok' else {}})


def sc_line(ev, rng):
    """Very long horizons: everything is deterministic but the start."""
    m = models.gen(rng, n=rng.choice([2, 3]), no=rng.choice([1, 2, 3]), D=rng.choice([2, 4]))
    n, na, no = models.dims(m)
    for a in range(na):
        for s in range(n):
            m['O'][a][s] = models.row(rng, no, m['D'], det=1)
            m['T'][a][s] = models.row(rng, n, m['D'], det=1)
    g = gen_graph(rng, na, no, n)
    ev.cfg = {'m': m, 'g': g}
    A, O = names('a', na, rng), names('o', no, rng)
    p = models.build(m, states=names('s', n, rng), actions=A, observations=O)
    r = GraphPolicyBeliefRunner(policy(g, A, O, init=0), p)
    ev.append({'op': 'bnew', 'out': 'ok'})
    h = rng.choice([13, 20, 33])
    out, t = outcome(r.trajectory_tree, h)
    ev.append({'op': 'traj', 'h': h, 'out': out, 'tree': tree(t, A, O) if out == 'ok' else {}})


def size(t):
    return 1 + sum(size(c) for c in t['children'])


def sc_visit(ev, rng):
    m, g, A, O, p, r = belief_setup(ev, rng)
    if r is None:
        return
    mx = rng.choice([1, 2, 5, 20, 20, 60])
    walk(ev, rng, m, A, O, r, rng.randint(0, 2), False)
    out, v = outcome(r.visit, mx)
    e = {'op': 'visit', 'max': mx, 'out': out}
    if out == 'ok':
        b = np.asarray(v.values)
        e.update({'init': int(v.init) + 1, 'beliefs': [[fix(x, 5000) for x in y] for y in b],
                  'sup': [[i + 1 for i, x in enumerate(y) if x > 0] for y in b],
                  'actions': [A.index(a) + 1 for a in v.actions],
                  'trans': [[0 if t is None else int(t) + 1 for t in ts] for ts in v.transitions]})
    ev.append(e)


# -- P05 --------------------------------------------------------------------------


def dec(rng):
    """A number with at most three decimals, and its value in thousandths."""
    k = rng.randint(-20000, 20000)
    return k, rng.choice(['%.3f', '%.20f', '%g', '%r']) % (k / 1000.)


def spread(rng, lines, blank):
    """Adds blank lines."""
    out = []
    for l in lines:
        while rng.random() < blank:
            out.append((rng.choice(['', '  ', '\t']), {'blank': True, 'nums': []}))
        out.append(l)
    while rng.random() < blank:
        out.append((rng.choice(['', ' ']), {'blank': True, 'nums': []}))
    return out


def gen_alpha(rng, actions, n, defect=None):
    L = []
    for a in actions:
        v = [dec(rng) for _ in range(n)]
        L.append((str(a) + rng.choice(['', '', ' ']), {'blank': False, 'nums': [a]}))
        L.append((' '.join(x[1] for x in v) + rng.choice(['', ' ', '  ']),
                  {'blank': False, 'nums': [x[0] for x in v]}))
    if defect == 'odd':
        L.pop(rng.choice([-1, -1, rng.randrange(len(L))]))
    elif defect == 'ragged':
        i = rng.randrange(len(actions)) * 2 + 1
        t, l = L[i]
        k, s = dec(rng)
        L[i] = (t.rstrip() + ' ' + s, {'blank': False, 'nums': l['nums'] + [k]})
    elif defect == 'empty':
        L = []
    elif defect == 'two-missing':  # a vector, and an action after it
        i, j = sorted(rng.sample(range(len(actions)), 2)) if len(actions) > 1 else (0, 0)
        L = [l for k, l in enumerate(L) if k not in (2 * i + 1, 2 * j)]
    elif defect == 'decimal':
        i = rng.randrange(len(actions)) * 2
        L[i] = (rng.choice(['%d.5', '%d.0', '%de0', 'a%d', '%d a', '%d,']) % actions[i // 2],
                {'blank': False, 'nums': []})
    elif defect == 'comment':
        L.insert(rng.randrange(len(L) + 1), (rng.choice(['# 0', '#', '# comment', '%']),
                                             {'blank': False, 'nums': []}))
    elif defect == 'extra-action':
        L.append(('0', {'blank': False, 'nums': [0]}))
    blank = rng.choice([0, .5])
    # After a removed line the remaining ones may be misread as one another: the
    # specification only knows numbers, so that vectors must not be read as actions.
    return spread(rng, L, blank)


def gen_pg(rng, actions, trans, defect=None):
    L = []
    for i, (a, ts) in enumerate(zip(actions, trans)):
        L.append([i, a] + list(ts))
    if defect == 'number':
        i = rng.randrange(len(L))
        L[i][0] += rng.choice([1, -1, 5])
    elif defect == 'swap' and len(L) > 1:
        L[0], L[1] = L[1], L[0]
    elif defect == 'missing':
        L.pop(rng.randrange(len(L)))
    elif defect == 'node':
        i = rng.randrange(len(L))
        L[i][rng.randrange(2, len(L[i]))] = len(L) + rng.choice([0, 0, 1, 3])
    elif defect == 'negative':  # -k is not a node: -k - 1 for the specification, where -1 is a dash
        i = rng.randrange(len(L))
        L[i][rng.randrange(2, len(L[i]))] = -1 - rng.choice([1, 1, 2, len(L)])
    elif defect == 'long':
        L[rng.randrange(len(L))].append(0)
    elif defect == 'short':
        L[rng.randrange(len(L))].pop()
    out = []
    if defect == 'comment':
        out.append(('# 0 0 0', {'blank': False, 'nums': []}))
    for l in L:
        t = '%d %d  ' % (l[0], l[1]) + ' '.join(
            '-' if x == -1 else str(x + 1) if x < 0 else str(x) for x in l[2:])
        out.append((t + rng.choice(['', ' ', '  ']), {'blank': False, 'nums': l}))
    return spread(rng, out, rng.choice([0, 0, .4]))


def text(lines, rng):
    s = '\n'.join(l[0] for l in lines)
    return s + ('\n' if rng.random() < .8 or (lines and not lines[-1][0]) else '')


def recs(lines):
    return [l[1] for l in lines]


def thousands(x):
    return [[fix(v, 1000) for v in r] for r in x]


def solution(rng, na, no, n, more=()):
    N = rng.choice([rng.randint(1, 5)] * 4 + [rng.randint(6, 30)])
    actions = [rng.randrange(na) for _ in range(N)]
    trans = [[-1 if rng.random() < .3 else rng.randrange(N) for _ in range(no)] for _ in range(N)]
    d = None
    if rng.random() < .5:
        d = rng.choice(['odd', 'ragged', 'empty', 'extra-action', 'number', 'swap', 'missing',
                        'node', 'long', 'short', 'mismatch', 'action', 'width', 'two-missing', 'decimal',
                        'comment'] + list(more))
    if d == 'two-missing' and n == 1:  # vectors would look like actions
        d = None
    al_actions = list(actions)
    if d == 'mismatch' and na > 1:
        i = rng.randrange(N)
        al_actions[i] = (al_actions[i] + 1) % na
    if d == 'reordered':
        rng.shuffle(al_actions)
    if d == 'action':
        i = rng.randrange(N)
        al_actions[i] = actions[i] = na + rng.choice([0, 0, 1, 4])
    if d == 'negative-action':
        i = rng.randrange(N)
        al_actions[i] = actions[i] = -rng.choice([1, 1, na])
    al = gen_alpha(rng, al_actions, n + (1 if d == 'width' else 0), d)
    pg = gen_pg(rng, actions, trans, d)
    return al, pg


def sc_parse(ev, rng):
    ev.cfg = {}
    for _ in range(5):
        na, no, n = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
        al, pg = solution(rng, na, no, n)
        # Vectors are read as actions after a removed line: keep what a reader of
        # numbers can decide (single integers are both)
        out, x = outcome(parse_value_function, io.StringIO(text(al, rng)))
        ev.append({'op': 'parseAlpha', 'lines': recs(al), 'out': out,
                   'actions': [int(a) for a in x[0]] if out == 'ok' else [],
                   'vectors': thousands(x[1]) if out == 'ok' else []})
        out, x = outcome(parse_policy_graph, io.StringIO(text(pg, rng)))
        ev.append({'op': 'parsePg', 'lines': recs(pg), 'out': out,
                   'actions': [int(a) for a in x[0]] if out == 'ok' else [],
                   'trans': [[0 if t is None else int(t) + 1 for t in ts] for ts in x[1]]
                   if out == 'ok' else []})


def projected(pol, A, O):
    return {'actions': [A.index(a) + 1 for a in pol.actions], 'values': thousands(pol.values),
            'trans': [[0 if t is None else int(t) + 1 for t in ts] for ts in pol.transitions],
            'init': int(pol.init) + 1, 'names': list(pol.observations) == list(O)}


def sc_load(ev, rng):
    ev.cfg = {}
    for _ in range(3):
        m = models.gen(rng, n=rng.randint(1, 4))
        n, na, no = models.dims(m)
        A, O = names('a', na, rng), names('o', no, rng)
        p = models.build(m, actions=A, observations=O)
        al, pg = solution(rng, na, no, n, more=['reordered'] * 4 + ['mismatch', 'mismatch', 'action', 'node', 'width',
                                               'negative', 'negative', 'negative-action', 'negative-action'])
        solve = rng.random() < .5
        missing = rng.random() < .1
        e = {'op': 'solve' if solve else 'load', 'al': recs(al), 'pg': recs(pg), 'na': na,
             'no': no, 'n': n, 'start': m['start'], 'got': {}, 'missing': missing}
        tal, tpg = text(al, rng), text(pg, rng)
        d = tempfile.mkdtemp(dir=WORK)
        base = os.path.join(d, 'x')
        with open(base + '.alpha', 'w') as f:
            f.write(tal)
        if not missing:
            with open(base + '.pg', 'w') as f:
                f.write(tpg)
        if not solve:
            out, pol = outcome(p.load_policy_from, d, 'x')
        else:
            opts = {'timeout': rng.choice(['', '20']), 'horizon': rng.choice(['', '7', '0']),
                    'seed': rng.choice(['', '1234', '0']), 'method': rng.choice(['incprune', 'grid']),
                    'grid': rng.choice(['', 'pairwise', 'simplex'])}
            kw = {'method': opts['method']}
            for k, o in (('timeout', 'timeout'), ('n_iterations', 'horizon'), ('seed', 'seed')):
                if opts[o]:
                    kw[k] = int(opts[o])
            if opts['grid']:
                kw['grid_type'] = opts['grid']
            e['opts'] = opts
            e['solver'] = rng.choice(['ok', 'ok', 'ok', 'fails'])
            os.environ['VERIF_FAKE_SOLUTION'] = base
            os.environ['VERIF_FAKE_STATUS'] = '0' if e['solver'] == 'ok' else '1'
            try:
                out, pol = outcome(lambda: p.solve(**kw))
            finally:
                del os.environ['VERIF_FAKE_SOLUTION'], os.environ['VERIF_FAKE_STATUS']
            try:
                e['args'] = open(base + '.args').read().split()
                e['given'] = read_pomdp(open(base + '.pomdp').read()) == model_of(p)
            except (OSError, Unreadable, ValueError) as x:
                e['args'] = []
                e['given'] = False
        shutil.rmtree(d)
        e['out'] = out
        if out == 'ok':
            e['got'] = projected(pol, A, O)
        ev.append(e)


def sc_json(ev, rng):
    ev.cfg = {}
    for _ in range(4):
        n, na, no = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
        g = gen_graph(rng, na, no, n, N=rng.choice([None, None, rng.randint(6, 25)]))
        A, O = names('a', na, rng), names('o', no, rng)
        v = np.array([[rng.uniform(-10, 10) for _ in r] for r in g['values']])
        g['values'] = v
        kw = rng.choice([{'init': rng.randrange(len(g['actions']))}, {'start': belief(weights(rng, n))},
                         {'init': len(g['actions']) - 1}])
        p = policy(g, A, O, **kw)
        route = rng.randint(0, 3)
        path = os.path.join(WORK, 'policy.json')
        ind = rng.choice([None, 2])

        def reload():
            if route == 0:
                return GraphPolicy.from_json(p.to_json(indent=ind))
            if route == 1:
                return GraphPolicy.from_dict(p.to_dict())
            p.save_as_json(path, indent=ind)
            return GraphPolicy.load_from_json(path)
        out, q = outcome(reload)
        ev.append({'op': 'policyJson', 'out': out, 'policy': projected(p, A, O),
                   'loaded': projected(q, A, O) if out == 'ok' else {},
                   'exact': out == 'ok' and np.array_equal(p.values, q.values)})


k = 8 if THOROUGH else 1
if P in ('P04', 'ALL'):
    for i in range(120 * k):
        R.scenario('runner-%d' % i, sc_runner)
    for i in range(120 * k):
        R.scenario('belief-runner-%d' % i, sc_belief_runner)
if P in ('P05', 'ALL'):
    for i in range(60 * k):
        R.scenario('parse-%d' % i, sc_parse)
    for i in range(120 * k):
        R.scenario('load-%d' % i, sc_load)
    for i in range(15 * k):
        R.scenario('json-%d' % i, sc_json)
if P in ('P06', 'ALL'):
    for i in range(60 * k):
        R.scenario('trees-%d' % i, sc_trees)
    for i in range(30 * k):
        R.scenario('deep-%d' % i, sc_deep)
    for i in range(20 * k):
        R.scenario('line-%d' % i, sc_line)
    for i in range(80 * k):
        R.scenario('visit-%d' % i, sc_visit)
R.close()
