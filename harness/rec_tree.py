"""Records traces of hierarchical tasks: expansion, copies, probabilities, export,
loading, lookups and conversion of meta actions."""
from hlib import *
import glob
from trees import *
from task_models.task import MetaAction
from task_models.json_to_htm import json_to_htm

args = parse_args()
P = args.prop
R = Recorder(args)


def distinct(*trees):
    ids = [id(o) for t in trees for o in objects(t)]
    return 'true' if len(set(ids)) == len(ids) else 'false'


def set_at(root, path, node):
    if not path:
        return node
    at(root, path[:-1]).children[path[-1] - 1] = node
    return root


def sc_many_orders(ev, rng, n=None):
    n = n or (5 if THOROUGH and rng.random() < .2 else 4)
    # (the tree may be inside another one)
    g = Gen(rng, leaf_mixed, p_leaf=1, depth=1, budget=2, kinds=('Sequential',))
    kids = [g.make()[0] if n == 4 and rng.random() < .3 else LeafCombination(leaf_mixed(g))
            for _ in range(n)]
    root = ParallelCombination(kids, name='p', highlighted=rng.random() < .5)
    if rng.random() < .5:
        root = SequentialCombination([LeafCombination(leaf_mixed(g)), root], name='s')
    first = project(root)
    p = paths(root, 'Parallel')[0]
    node = at(root, p)
    out, x = outcome(node.to_alternative)
    ev.append({'op': 'expand', 'path': p, 'out': out, 'x': project(x) if out == 'ok' else {},
               'distinct': distinct(node, x) if out == 'ok' else '', 'orig': project(root)})
    return {'tree': first}


def sc_expand(ev, rng):
    g = Gen(rng, leaf_mixed, budget=rng.choice([6, 12, 30]), kids=rng.choice([2, 3]),
            depth=rng.choice([1, 2, 3]), p_leaf=.3, probas=True,
            kinds=('Parallel', 'Parallel', 'Alternative', 'Sequential'))
    root, _ = g.make()
    first = project(root)
    for step in range(rng.randint(1, 3)):
        par = paths(root, 'Parallel')
        if not par:
            break
        p = rng.choice(par)
        node = at(root, p)
        whole = objects(root)
        out, x = outcome(node.to_alternative)
        e = {'op': 'expand', 'path': p, 'out': out}
        if out == 'ok':
            e['x'] = project(x)
            e['distinct'] = distinct(node, x)
            e['orig'] = project(root)
            ev.append(e)
            root = set_at(root, p, x)
            touch(ev, rng, root)
        else:
            ev.append(e)
            break
        if len(objects(root)) > 120:
            break
    return {'tree': first}


def touch(ev, rng, root):
    """Changes something in one place of the tree: nothing else may change."""
    for _ in range(2):
        p = rng.choice(paths(root))
        node = at(root, p)
        k = rng.randint(0, 2)
        if k == 0:
            node.highlighted = not node.highlighted
            ev.append({'op': 'touch', 'path': p, 'what': 'hi', 'hi': node.highlighted,
                       'tree': project(root)})
        elif k == 1 and kind(node) == 'Leaf':
            node.action.name = 'touched%d' % rng.randint(0, 99)
            ev.append({'op': 'touch', 'path': p, 'what': 'name', 'name': node.action.name,
                       'tree': project(root)})
        elif k == 2 and kind(node) == 'Alternative':
            set_proba(ev, rng, root, p)


def set_proba(ev, rng, root, p, bad=.4):
    node = at(root, p)
    n = len(node.children)
    v = proba_vector(rng, n)
    if rng.random() < bad:
        r = rng.random()
        i, j = rng.randrange(n), rng.randrange(n)
        if r < .3:
            v[i] += rng.choice([.5, .01, -.01, 1.])
        elif r < .6 and i != j:  # sums to one, but out of range
            d = v[i] + rng.choice([.25, .01, 1.])
            v[i] -= d
            v[j] += d
        elif r < .75:
            v = [x * rng.choice([2, .5]) for x in v]
        elif r < .9:
            v = barely_out(rng, n)
        else:
            v = [-x for x in v]
    typ = rng.choice([list, tuple, np.array])

    def do():
        node.proba = typ(v)
    out, _ = outcome(do)
    ev.append({'op': 'set_proba', 'path': p, 'pr': [given(x) for x in v], 'out': out,
               'tree': project(root)})


def given(x):
    """Number given as probability; any excess counts."""
    f = num(x)
    return [f[0] * 9973 + (1 if x > 1 else -1), f[1] * 9973] if x < 0 <= f[0] or \
        x > 1 and f[0] <= f[1] else f


def barely_out(rng, n):
    """Just out of range; the sum is very close to one."""
    v = [0.] * n
    d = 10. ** -rng.randint(6, 12)
    v[0] = 1 + d
    if n > 1:
        v[1] = rng.choice([-d, 0])
        if rng.random() < .3:
            v[0] = 1.
            v[1] = -d
    rng.shuffle(v)
    return v


def sc_proba(ev, rng):
    # Construction
    for _ in range(6):
        n = rng.randint(1, 4)
        leaves = [LeafCombination(AbstractAction('l%d' % i)) for i in range(n)]
        if rng.random() < .3:
            out, a = outcome(AlternativeCombination, leaves)
            ev.append({'op': 'make', 'n': n, 'given': False, 'pr': [], 'out': out,
                       'got': [num(x) for x in a.proba] if out == 'ok' else []})
            continue
        v = proba_vector(rng, n)
        if rng.random() < .5:
            i, j = rng.randrange(n), rng.randrange(n)
            d = rng.choice([.25, .125, 1.5, -.25])
            v[i] += d
            if rng.random() < .5:
                v[j] -= d
        elif rng.random() < .15:
            v = barely_out(rng, n)
        elif rng.random() < .2:  # almost valid
            v = [0.] * n
            v[rng.randrange(n)] += .5
            v[rng.randrange(n)] += .5
            i = rng.randrange(n)
            v[i] = round(v[i] + rng.choice([.001, -.001, .0005]), 6)
        out, a = outcome(lambda: AlternativeCombination(leaves, probabilities=v, name='x'))
        ev.append({'op': 'make', 'n': n, 'given': True, 'pr': [given(x) for x in v], 'out': out,
                   'got': [num(x) for x in a.proba] if out == 'ok' else []})
    for _ in range(3):  # sums that may be called one
        n = rng.randint(2, 5)
        v = proba_vector(rng, n)
        i = max(range(n), key=lambda k: v[k])
        v[i] -= rng.choice([8e-6, 3e-6, 1e-6])
        out, a = outcome(lambda: AlternativeCombination(
            [LeafCombination(AbstractAction('l%d' % i)) for i in range(n)], probabilities=v))
        ev.append({'op': 'near', 'pr': [fix(x, 1e8) for x in v], 'out': out,
                   'got': [fix(x, 1e8) for x in a.proba] if out == 'ok' else []})
    g = Gen(rng, leaf_mixed, budget=8, depth=3, kinds=('Alternative', 'Alternative', 'Parallel',
                                                       'Sequential'))
    root, _ = g.make()
    first = project(root)
    for _ in range(8):
        alts = paths(root, 'Alternative')
        k = rng.random()
        if alts and k < .6:
            set_proba(ev, rng, root, rng.choice(alts), bad=.6)
        elif k < .8:
            p = rng.choice(paths(root))
            fmt = rng.choice(['{}', "{}'", '{} bis'])
            node = at(root, p)
            out, c = outcome(lambda: node.deep_copy(rename_format=fmt) if rng.random() < .7
                             or fmt != '{}' else node.deep_copy())
            ev.append({'op': 'copy', 'path': p, 'suffix': fmt[2:], 'out': out,
                       'x': project(c) if out == 'ok' else {}, 'orig': project(root),
                       'distinct': distinct(node, c) if out == 'ok' else ''})
            if out == 'ok':
                root = set_at(root, p, c)
        else:
            par = paths(root, 'Parallel')
            if par and len(objects(root)) < 60:
                p = rng.choice(par)
                node = at(root, p)
                out, x = outcome(node.to_alternative)
                ev.append({'op': 'expand', 'path': p, 'out': out, 'x': project(x),
                           'distinct': distinct(node, x), 'orig': project(root)})
                root = set_at(root, p, x)
    return {'tree': first}


# -- Export, loading, lookups ---------------------------------------------------


def flat_export(d, out=None):
    if out is None:
        out = []
    out.append({'id': d['id'], 'parent': -1 if d['parent'] is None else d['parent'],
                'name': d['name'], 'k': 'Leaf' if d['combination'] is None else
                d['combination'], 'hi': 'highlighted' in d['attributes'],
                'n': len(d.get('children', []))})
    for c in d.get('children', []):
        flat_export(c, out)
    return out


def export(ev, rng, t):
    given = rng.choice([None, 'task', ''])
    out, d = outcome(lambda: t.as_dictionary() if given is None
                     else t.as_dictionary(name=given))
    ev.append({'op': 'export', 'out': out,
               'name': d['name'] if out == 'ok' else '',
               'given': 'Hierarchical task tree' if given is None else given,
               'nodes': flat_export(d['nodes']) if out == 'ok' else []})
    return d


WORDS = ['Mount', 'leg', 'Legs', 'top', 'TOP', 'Take', 'frame', 'le', 'g', '1', '2']


def describe(node, names):
    """Description of a node loaded from json."""
    k = kind(node)
    d = {'k': k, 'name': node.name, 'hi': bool(node.highlighted),
         'idx': node.idx, 'parent': -1 if node.parent is None else node.parent,
         'agent': node.action.agent if k == 'Leaf' else '-',
         'low': list(node.name.lower()),
         'kids': [] if k == 'Leaf' else [describe(c, names) for c in node.children]}
    return d


def json_tree(rng, ids, depth, parent, budget):
    idx = ids()
    name = ' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
    if depth == 0 or budget < 2 or rng.random() < .25:
        agent = rng.choice(['human', 'robot', 'None', 'Human', 'highlighter-robot',
                            'not highlighted', 'r2', None, 'human', 'robot', None, 'human-2',
                            'humanoid', 'superhuman', 'hum'])
        attr = [agent] if agent else []
        hi = rng.random() < .3
        if hi:
            attr.insert(rng.randint(0, len(attr)), 'highlighted')
        j = {'name': name, 'combination': None, 'id': idx, 'parent': parent,
             'attributes': attr}
        if rng.random() < .2:
            j['children'] = []
        d = {'k': 'Leaf', 'name': name, 'hi': hi, 'idx': idx,
             'parent': -1 if parent is None else parent, 'agent': agent or 'None',
             'low': list(name.lower()), 'kids': []}
        return j, d
    k = rng.choice(['Sequential', 'Alternative', 'Parallel'])
    hi = rng.random() < .3
    kids = [json_tree(rng, ids, depth - 1, idx, budget // 2)
            for _ in range(rng.randint(1, 3))]
    j = {'name': name, 'combination': k, 'id': idx, 'parent': parent,
         'attributes': ['highlighted'] if hi else [], 'children': [x[0] for x in kids]}
    d = {'k': k, 'name': name, 'hi': hi, 'idx': idx, 'parent': -1 if parent is None else parent,
         'agent': '-', 'low': list(name.lower()), 'kids': [x[1] for x in kids]}
    return j, d


def desc_of_json(j):
    agent = [a for a in j['attributes'] if a != 'highlighted']
    leaf = bool(agent) or not j['combination']
    return {'k': 'Leaf' if leaf else j['combination'], 'name': j['name'],
            'hi': 'highlighted' in j['attributes'], 'idx': j['id'],
            'parent': -1 if j['parent'] is None else j['parent'],
            'agent': (agent[0] if agent else 'None') if leaf else '-',
            'low': list(j['name'].lower()),
            'kids': [] if leaf else [desc_of_json(c) for c in j['children']]}


def lookups(ev, rng, t, n):
    # (not the same objects as in the tree)
    ids = [int(str(o.idx)) for o in objects(t.root) if hasattr(o, 'idx')]
    pid = lambda x: {'found': x is not None, 'idx': x.idx if x is not None else -1}
    start_nodes = [o for o in objects(t.root) if hasattr(o, 'idx')]
    # The parents of all nodes
    for i in sorted(set(ids))[:12]:
        out, r = outcome(t.find_parent_node, t.root, i)
        ev.append({'op': 'parent', 'from': t.root.idx, 'x': i, 'out': out, 'r': pid(r)})
    for _ in range(n):
        node = t.root if rng.random() < .7 else rng.choice(start_nodes)
        i = rng.choice(ids + [max(ids) + 1, min(ids) - 1])
        out, r = outcome(t.find_parent_node, node, i)
        ev.append({'op': 'parent', 'from': node.idx, 'x': i, 'out': out, 'r': pid(r)})
        i = rng.choice(ids + [-1, min(ids) - 1])
        out, r = outcome(t.find_next_human_action, node, i)
        ev.append({'op': 'human', 'from': node.idx, 'x': i, 'out': out, 'r': pid(r)})
        s = rng.choice(['mount', 'leg', 'legs', 'top', 'take', 'frame', 'le', 'x', '1', '2',
                        'leg 1', 'mount leg', ' ', 'e'])
        out, r = outcome(t.find_node_by_name, node, s)
        ev.append({'op': 'by_name', 'from': node.idx, 'low': list(s), 'out': out,
                   'r': pid(r)})


def load(ev, rng, j, d, n_look=10):
    path = os.path.join(WORK, 'tree.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(j, f, ensure_ascii=rng.random() < .5)
    out, t = outcome(json_to_htm, path)
    ev.append({'op': 'load', 'out': out,
               'tree': describe(t.root, None) if out == 'ok' else {}})
    if out != 'ok':
        return None
    ev.append({'op': 'load_empty', 'out': 'true' if t.is_empty() else 'false'})
    export(ev, rng, t)
    lookups(ev, rng, t, n_look)
    return t


def sc_json(ev, rng):
    start = rng.choice([0, 0, 3])
    pool = list(range(start, start + 60))
    if rng.random() < .5:
        pool = pool[:rng.choice([6, 12, 60])] + pool[12:]
        k = rng.choice([3, 6, 12, 60])
        first = pool[:k]
        rng.shuffle(first)
        pool[:k] = first
    if rng.random() < .4:  # numbers beyond those that are unique objects
        pool = [x + 1000 for x in pool]
    it = iter(pool)
    j, d = json_tree(rng, lambda: next(it), rng.randint(1, 3), None, 12)
    load(ev, rng, {'nodes': j}, d)
    return {'tree': {}, 'd': d}


def sc_json_file(path):
    def run(ev, rng):
        with open(path, encoding='utf-8') as f:
            j = json.load(f)
        d = desc_of_json(j['nodes'])
        load(ev, rng, j, d)
        return {'tree': {}, 'd': d}
    return run


def sc_export(ev, rng):
    g = Gen(rng, leaf_mixed, budget=rng.choice([3, 8, 20]), depth=rng.randint(0, 4))
    root, _ = g.make()
    t = HierarchicalTask(root=root) if rng.random() < .5 else HierarchicalTask(root)
    ev.append({'op': 'empty', 'out': 'true' if t.is_empty() else 'false'})
    d = export(ev, rng, t)
    export(ev, rng, t)
    # and back
    path = os.path.join(WORK, 'exported.json')
    with open(path, 'w') as f:
        json.dump(d, f)
    out, t2 = outcome(json_to_htm, path)
    ev.append({'op': 'reload', 'out': out,
               'tree': describe(t2.root, None) if out == 'ok' else {}})
    if out == 'ok':
        export(ev, rng, t2)
    e = HierarchicalTask()
    ev.append({'op': 'no_tree', 'empty': 'true' if e.is_empty() else 'false',
               'out': 'none' if e.as_dictionary()['nodes'] is None else 'some'})
    return {'tree': g.wanted(root), 'd': {}}


# -- Meta actions ----------------------------------------------------------------


def sc_meta(ev, rng):
    plain = [leaf_mixed(Gen(rng, None)) for _ in range(4)]
    for i, a in enumerate(plain):
        a.name = 'abcd'[i]
    out_names = {'sequence': 'Sequential', 'parallel': 'Parallel', 'alternative': 'Alternative'}

    def sym(s):
        return s.replace(u'\u2192', '>').replace(u'\u2228', 'v')

    def mk(depth):
        if depth == 0 or rng.random() < .3:
            a = rng.choice(plain)
            return a, {'k': 'plain', 'name': a.name, 'kids': []}
        subs = [mk(depth - 1) for _ in range(rng.randint(1, 3))]
        k = rng.choice(list(out_names))
        m = MetaAction(k, [s[0] for s in subs])
        return m, {'k': out_names[k], 'name': sym(m.name), 'kids': [s[1] for s in subs]}

    def proj(node):
        k = kind(node)
        if k == 'Leaf':
            same = [p for p in plain if p is node.action]
            return {'k': 'plain', 'name': same[0].name if same else '?' + node.name, 'kids': []}
        return {'k': k, 'kids': [proj(c) for c in node.children]}

    for _ in range(5):
        m, d = mk(rng.randint(1, 3))
        if d['k'] == 'plain':
            continue
        out, c = outcome(m.to_combination)
        ev.append({'op': 'meta', 'd': d, 'out': out, 'c': proj(c) if out == 'ok' else {}})
    return {'tree': {}, 'd': {}}


def many(name, n, fun):
    for i in range(n * (6 if THOROUGH else 1)):
        R.scenario('%s-%d' % (name, i), fun)


if P in ('H01', 'ALL'):
    many('expand', 120, sc_expand)
    many('orders', 3, sc_many_orders)
    R.scenario('orders-5', lambda ev, rng: sc_many_orders(ev, rng, 5))
    R.scenario('orders-6', lambda ev, rng: sc_many_orders(ev, rng, 6))
if P in ('H02', 'ALL'):
    many('proba', 120, sc_proba)
if P in ('H03', 'ALL'):
    many('json', 60, sc_json)
    many('export', 60, sc_export)
    for f in ('aamas_2018', 'icra', 'iros_2018', 'joint_task_model'):
        p = os.path.join(os.environ['VERIF_REPO'], 'visualization/htm/json', f + '.json')
        if os.path.exists(p):
            R.scenario('file-' + f, sc_json_file(p))
if P in ('H04', 'ALL'):
    many('meta', 80, sc_meta)
R.close()
