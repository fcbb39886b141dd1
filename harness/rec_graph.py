"""Records traces of task graphs and conjugate task graphs."""
import itertools
from hlib import *
from task_models.state import State, NDimensionalState
from task_models.action import Action, Condition, PrePostConditionAction
from task_models.task import (TaskGraph, ConjugateTaskGraph, AbstractAction,
                              BaseGraph, MetaAction, check_path, split_path,
                              max_cliques)

args = parse_args()
P = args.prop
R = Recorder(args)


class OwnState(State):
    """Minimal user-defined state."""

    def __init__(self, bits):
        self.bits = tuple(bits)

    def get_features(self):
        return np.array(self.bits)

    def __hash__(self):
        return hash(self.bits)

    def __eq__(self, other):
        return isinstance(other, OwnState) and self.bits == other.bits

    def __ne__(self, other):
        return not self == other


class World(object):
    """Vocabulary of a scenario: states and actions with abstract names; every
    use creates new (equal) objects."""

    def __init__(self, rng, n_bits, n_acts, wild=.5, kind=None):
        self.rng = rng
        self.kind = kind if kind is not None else rng.choice(['nd', 'own'])
        self.feat = {}
        for i in range(2 ** n_bits):
            self.feat['s%d' % i] = [(i >> k) & 1 for k in range(n_bits)]
        self.act = {}
        seen = set()
        while len(self.act) < n_acts:
            a = {}
            for m, v in (('pm', 'pv'), ('qm', 'qv')):
                mask = [0 if rng.random() < wild else 1 for _ in range(n_bits)]
                a[m] = mask
                a[v] = [rng.randint(0, 1) * x for x in mask]
            key = json.dumps(a, sort_keys=True)
            if key in seen:
                wild = wild * .95
                continue
            seen.add(key)
            self.act['a%d' % len(self.act)] = a
        self.back_s = {tuple(v): k for k, v in self.feat.items()}
        self.back_a = {self._akey(v['pm'], v['pv'], v['qm'], v['qv']): k
                       for k, v in self.act.items()}

    @staticmethod
    def _akey(*x):
        return tuple(tuple(int(z) for z in y) for y in x)

    def cfg(self):
        return {'feat': self.feat, 'act': self.act}

    def obj(self, name):
        if name in self.feat:
            f = self.feat[name]
            if self.kind == 'nd':
                return NDimensionalState(np.array(f))
            return OwnState(f)
        if name in self.act:
            a = self.act[name]
            dt = self.rng.choice(['b', int, float])
            return PrePostConditionAction(
                Condition(np.array(a['pm'], dtype=dt), np.array(a['pv'], dtype=dt)),
                Condition(np.array(a['qm'], dtype=dt), np.array(a['qv'], dtype=dt)),
                name=name if self.rng.random() < .8 else 'other')
        return {'x0': None, 'x1': 'foo', 'x2': 3, 'x3': ('s', 'a')}[name]

    def path(self, names):
        p = [self.obj(n) for n in names]
        return p if self.rng.random() < .8 else tuple(p)

    def name(self, o):
        if isinstance(o, PrePostConditionAction):
            return self.back_a[self._akey(o.pre.mask, o.pre.value,
                                          o.post.mask, o.post.value)]
        if isinstance(o, AbstractAction):
            return {'initial': 'I', 'terminal': 'T'}[o.name]
        if isinstance(o, str):
            return o
        return self.back_s[tuple(int(x) for x in o.get_features())]

    def explains(self, a, s, s1):
        a = self.act[a]
        f, f1 = self.feat[s], self.feat[s1]
        return (all(x * m == v for x, m, v in zip(f, a['pm'], a['pv'])) and
                all(x * m == v for x, m, v in zip(f1, a['qm'], a['qv'])))

    def random_path(self, length, valid=True):
        rng = self.rng
        S, A = list(self.feat), list(self.act)
        p = [rng.choice(S)]
        for _ in range(length):
            opts = [(a, s) for a in A for s in S if self.explains(a, p[-1], s)]
            if not opts:
                break
            p += list(rng.choice(opts))
        if not valid:
            k = rng.randint(0, 5)
            i = rng.randrange(len(p))
            every = S + A + ['x0', 'x1', 'x2', 'x3']
            if k == 0:
                p = p[:-1]
            elif k == 1:
                p[i] = rng.choice(every)
            elif k == 2:
                p.insert(i, rng.choice(every))
            elif k == 3:
                p = p[1:]
            elif k == 4:
                p.append(rng.choice(every))
            else:
                j = rng.randrange(len(p))
                p[i], p[j] = p[j], p[i]
        return p

    def trans(self, gr):
        return [[self.name(x) for x in t] for t in gr.all_transitions()]

    def proj(self, g):
        return {'trans': self.trans(g),
                'init': [self.name(s) for s in g.initial],
                'term': [self.name(s) for s in g.terminal]}

    def cproj(self, c):
        return {'trans': self.trans(c), 'init': self.name(c.initial),
                'term': self.name(c.terminal)}


def tf(out):
    o, v = out
    if o != 'ok':
        return o
    return {True: 'true', False: 'false'}.get(bool(v), 'odd')


def add_path(w, g, ev, p):
    out, _ = outcome(g.add_path, w.path(p))
    ev.append({'op': 'add_path', 'path': p, 'out': out, 'g': w.proj(g)})


def other_graph(w, g, rng):
    """A graph built differently, with about the same content."""
    h = TaskGraph()
    ts = list(g.all_transitions())
    rng.shuffle(ts)
    k = rng.randint(0, 4)
    if k == 1 and ts:
        ts = ts[:-1]
    for t in ts:
        h.add_transition(*[w.obj(w.name(x)) for x in t])
    if k == 2:
        extra = [w.obj(x) for x in w.random_path(1)[:3]]
        if len(extra) == 3:
            had = h.has_transition(*extra)
            h.add_transition(*extra)
            if rng.random() < .5 and not had:
                h.remove_transition(*extra)
    for s in g.initial:
        if k != 3:
            h.initial.add(w.obj(w.name(s)))
    for s in g.terminal:
        if k != 4:
            h.terminal.add(w.obj(w.name(s)))
    return h


def sc_paths(ev, rng):
    w = World(rng, rng.randint(1, 3), rng.randint(1, 5),
              wild=rng.choice([.3, .5, .8, 1.]) if rng.random() < .9 else .5)
    g = TaskGraph()
    known = []
    for _ in range(rng.randint(4, 14)):
        k = rng.random()
        if k < .3:
            p = w.random_path(rng.randint(0, 5))
            known.append(p)
            add_path(w, g, ev, p)
        elif k < .45:
            add_path(w, g, ev, w.random_path(rng.randint(0, 4), valid=False))
        elif k < .75:
            m = rng.random()
            if m < .35 and known:
                p = list(rng.choice(known))
                if rng.random() < .5:  # prefix or suffix
                    i = rng.randrange(0, len(p), 2) if p else 0
                    p = p[i:] if rng.random() < .5 else p[:i + 1]
            elif m < .6 and len(known) > 1:
                p, q = rng.choice(known), rng.choice(known)  # splice
                i = rng.randrange(0, max(1, len(p)), 2)
                js = [j for j in range(0, len(q), 2)
                      if i < len(p) and q[j] == p[i]]
                p = p[:i + 1] + (q[rng.choice(js) + 1:] if js else [])
            else:
                p = w.random_path(rng.randint(0, 3), valid=rng.random() < .7)
            ev.append({'op': 'has_path', 'path': p,
                       'out': tf(outcome(g.has_path, w.path(p)))})
        elif k < .8:
            p = w.random_path(rng.randint(0, 4), valid=rng.random() < .5)
            ev.append({'op': 'check_path', 'path': p,
                       'out': tf(outcome(check_path, w.path(p)))})
        elif k < .86:
            x = [rng.choice(list(w.feat)), rng.choice(list(w.act)),
                 rng.choice(list(w.feat))]
            g.add_transition(*[w.obj(y) for y in x])
            ev.append({'op': 'add_trans', 'x': x, 'g': w.proj(g)})
        elif k < .93:
            ts = w.trans(g)
            if ts and rng.random() < .7:
                x = rng.choice(ts)
            else:
                x = [rng.choice(list(w.feat)), rng.choice(list(w.act)),
                     rng.choice(list(w.feat))]
            ev.append({'op': 'has_trans', 'x': x, 'out': tf(outcome(
                g.has_transition, *[w.obj(y) for y in x]))})
            out, _ = outcome(g.remove_transition, *[w.obj(y) for y in x])
            ev.append({'op': 'remove_trans', 'x': x, 'out': out,
                       'g': w.proj(g)})
            ev.append({'op': 'has_trans', 'x': x, 'out': tf(outcome(
                g.has_transition, *[w.obj(y) for y in x]))})
        else:
            h = other_graph(w, g, rng)
            ev.append({'op': 'graph_eq', 'other': w.proj(h),
                       'out': tf(outcome(lambda: g == h))})
            ev.append({'op': 'graph_eq', 'other': w.proj(h),
                       'out': tf(outcome(lambda: h == g))})
    return w.cfg()


def sc_all_short(n):
    def run(ev, rng):
        """All short sequences over a small vocabulary."""
        w = World(rng, 1, 2, wild=.4)
        voc = list(w.feat) + list(w.act) + ['x1']
        for p in itertools.product(voc, repeat=n):
            ev.append({'op': 'check_path', 'path': list(p),
                       'out': tf(outcome(check_path, w.path(p)))})
        return w.cfg()
    return run


def sc_long(ev, rng):
    w = World(rng, 2, 3, wild=.9)
    for a in w.act:
        for s in w.feat:
            for tail in ([s], [s, a], [s, a, s], [], [s, s], [s, a, 'x0']):
                n = rng.choice([40, 3000])
                p = [w.obj(s), w.obj(a)] * n + [w.obj(x) for x in tail]
                ev.append({'op': 'long', 'rep': [s, a], 'n': n, 'tail': tail,
                           'out': tf(outcome(check_path, p))})
    return w.cfg()


def conj_events(w, g, ev):
    out, _ = outcome(g.check_only_deterministic_transitions)
    ev.append({'op': 'det_check', 'out': out})
    out, c = outcome(g.conjugate)
    ev.append({'op': 'conjugate', 'out': out,
               'c': w.cproj(c) if out == 'ok' else
               {'trans': [], 'init': 'I', 'term': 'T'}, 'g': w.proj(g)})
    return c


def det_paths(w, rng, n, length):
    """Valid paths of a deterministic model."""
    nxt = {}
    S, A = list(w.feat), list(w.act)
    paths = []
    for _ in range(n):
        p = [rng.choice(S[:max(1, len(S) // 2)])]
        for _ in range(rng.randint(0, length)):
            opts = []
            for a in A:
                if (p[-1], a) in nxt:
                    opts.append((a, nxt[p[-1], a]))
                else:
                    ss = [s for s in S if w.explains(a, p[-1], s)]
                    if ss:
                        opts.append((a, rng.choice(ss)))
            if not opts:
                break
            a, s = rng.choice(opts)
            nxt[p[-1], a] = s
            p += [a, s]
        paths.append(p)
    return paths


def sc_conjugate(ev, rng):
    w = World(rng, rng.randint(1, 3), rng.randint(1, 6), wild=rng.choice([.4, .7, .9]))
    g = TaskGraph()
    det = rng.random() < .75
    ps = (det_paths(w, rng, rng.randint(0, 6), 5) if det else
          [w.random_path(rng.randint(0, 4)) for _ in range(rng.randint(1, 5))])
    for p in ps:
        add_path(w, g, ev, p)
        if rng.random() < .4:
            conj_events(w, g, ev)
    if rng.random() < .2:
        x = [rng.choice(list(w.feat)), rng.choice(list(w.act)),
             rng.choice(list(w.feat))]
        g.add_transition(*[w.obj(y) for y in x])
        ev.append({'op': 'add_trans', 'x': x, 'g': w.proj(g)})
    conj_events(w, g, ev)
    ts = w.trans(g)
    if ts and rng.random() < .4:
        x = rng.choice(ts)
        out, _ = outcome(g.remove_transition, *[w.obj(y) for y in x])
        ev.append({'op': 'remove_trans', 'x': x, 'out': out, 'g': w.proj(g)})
        conj_events(w, g, ev)
    return w.cfg()


def conj_queries(w, c, ev, rng, which):
    if which in ('chains', 'both'):
        out, res = outcome(lambda: list(itertools.islice(c.get_max_chains(), 200)))
        ev.append({'op': 'chains', 'out': out, 'c': w.cproj(c),
                   'res': [[w.name(x) for x in ch] for ch in res or []]})
    if which in ('cliques', 'both'):
        out, res = outcome(lambda: list(itertools.islice(c.get_max_cliques(), 400)))
        ev.append({'op': 'cliques', 'out': out, 'c': w.cproj(c),
                   'res': [[w.name(x) for x in q] for q in res or []]})


class Free(object):
    """Vocabulary of free labelled graphs: nodes are abstract actions."""

    def __init__(self, rng):
        self.rng = rng
        self.metas = {}
        self.style = rng.choice(['abs', 'abs', 'pre'])
        self._pre = {}

    def cfg(self):
        return {'feat': {}, 'act': {}}

    def obj(self, name):
        if name == 'I':
            return ConjugateTaskGraph.initial
        if name == 'T':
            return ConjugateTaskGraph.terminal
        if name in self.metas:
            return self.metas[name]
        if name[0] == 's':
            return OwnState([int(x) for x in name[1:]])
        if self.style == 'pre' and name[0] == 'a':
            n = int(name[1:])
            v = np.array([(n >> k) & 1 for k in range(5)])
            one = np.ones(5, dtype=int)
            return PrePostConditionAction(Condition(one, v), Condition(one, v),
                                          name='x')
        return AbstractAction(name)

    def name(self, o):
        for k, m in self.metas.items():
            if o is m:
                return k
        if isinstance(o, OwnState):
            return 's' + ''.join(map(str, o.bits))
        if isinstance(o, str):
            return o
        if isinstance(o, PrePostConditionAction):
            return 'a%d' % sum(int(x) << k for k, x in enumerate(o.pre.value))
        n = o.name
        return {'initial': 'I', 'terminal': 'T'}.get(n, n)

    trans = World.trans
    cproj = World.cproj


def random_edges(rng, kind):
    n = rng.randint(2, 7)
    A = ['a%d' % i for i in range(n)]
    es = []
    if kind == 'chain':
        A = ['a%d' % i for i in range(rng.randint(3, 10))]
        n = len(A)
        # Graph with long chains: few branching points
        order = A[:]
        rng.shuffle(order)
        prev = 'I'
        for i, a in enumerate(order):
            es.append((prev, a))
            if rng.random() < .2:
                es.append((rng.choice(['I'] + order[:i + 1]), rng.choice(order)))
            prev = a if rng.random() < .8 else rng.choice(['I'] + order[:i + 1])
        for a in order:
            if rng.random() < .25:
                es.append((a, 'T'))
        if rng.random() < .8:
            es.append((order[-1], 'T'))
    elif kind == 'longchain':
        # One long chain, possibly with a short-cut, a branch or a way back
        order = ['a%d' % i for i in range(rng.randint(12, 36))]
        if rng.random() < .5:
            rng.shuffle(order)
        k = rng.randint(0, 3)
        es = list(zip(['I'] + order if k != 1 else order, order if k != 1 else order[1:]))
        if rng.random() < .7:
            es.append((order[-1], 'T'))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            es.append((rng.choice(['I'] + order), rng.choice(order + ['T'])))
    elif kind == 'clique':
        p = rng.choice([.3, .6, .85, 1.])
        for a in A:
            for b in A:
                if a < b and rng.random() < p:
                    es += [(a, b), (b, a)]
                elif rng.random() < .2:
                    es.append((a, b))
        for a in A:
            if rng.random() < .3:
                es.append(('I', a))
            if rng.random() < .3:
                es.append((a, 'T'))
    else:
        m = rng.randint(1, 2 * n)
        for _ in range(m):
            es.append((rng.choice(A + ['I']), rng.choice(A + ['T'])))
        if rng.random() < .15:
            es.append((rng.choice(A), 'I'))
    if rng.random() < .3:
        rng.shuffle(es)
    return es


def free_graph(ev, rng, kind, style=None):
    w = Free(rng)
    w.style = style or w.style
    c = ConjugateTaskGraph()
    es = random_edges(rng, kind)
    es = list(dict.fromkeys(es))
    for i, (u, v) in enumerate(es):
        for _ in range(2 if rng.random() < .2 else 1):  # several labels
            x = [u, 's' + ''.join(rng.choice('01') for _ in range(2)), v]
            c.add_transition(*[w.obj(y) for y in x])
            if kind != 'longchain':
                ev.append({'op': 'conj_add', 'x': x, 'c': w.cproj(c)})
    if kind == 'longchain':
        ev.append({'op': 'conj_new', 'trans': w.trans(c)})
    # keep only the last full projection to limit the size of traces
    return w, c


def compact_once(w, c, ev, rng, k):
    nodes = [w.name(x) for x in c.all_nodes()]
    r = rng.random()
    sub = None
    new_kind = 'sequence'
    if r < .35:
        chains = outcome(lambda: list(itertools.islice(c.get_max_chains(), 50)))[1]
        if chains:
            sub = [w.name(x) for x in rng.choice(chains)]
    elif r < .6:
        qs = outcome(lambda: list(itertools.islice(c.get_max_cliques(), 50)))[1]
        if qs:
            sub = [w.name(x) for x in rng.choice(qs)]
            new_kind = 'parallel'
    if sub is None:
        sub = [x for x in nodes if rng.random() < rng.choice([.2, .5, 1.])]
        if rng.random() < .2:
            sub.append('a31')  # not in the graph
    q = rng.random()
    if q < .6:
        new = 'M%d' % k
        w.metas[new] = MetaAction(new_kind, [w.obj(x) for x in sub])
    elif q < .8:
        new = 'm%d' % k
        w.metas[new] = AbstractAction(new)
    elif sub and q < .9:
        new = rng.choice(sub)
    else:
        new = rng.choice(nodes) if nodes else 'a0'
    objs = [w.obj(x) for x in sub]
    objs = rng.choice([list, tuple, set])(objs)
    out, _ = outcome(c.compact, iter(objs) if rng.random() < .2 else objs, w.obj(new))
    ev.append({'op': 'compact', 'nodes': sub, 'new': new, 'out': out,
               'c': w.cproj(c)})


def sc_free(kind, which, compacts):
    def run(ev, rng):
        w, c = free_graph(ev, rng, kind)
        conj_queries(w, c, ev, rng, which)
        for k in range(rng.randint(0, compacts)):
            compact_once(w, c, ev, rng, k)
            conj_queries(w, c, ev, rng, which)
        return w.cfg()
    return run


def sc_enum(which, block, blocks, n):
    """All graphs over n actions, with arcs from I and to T."""
    def run(ev, rng):
        w = Free(rng)
        A = ['a%d' % i for i in range(n)]
        arcs = [(u, v) for u in ['I'] + A for v in A + ['T']
                if u != v or which != 'chains' or True]
        arcs = [x for x in arcs if x != ('I', 'T')]
        total = 2 ** len(arcs)
        for k in range(block, total, blocks):
            c = ConjugateTaskGraph()
            es = [a for i, a in enumerate(arcs) if (k >> i) & 1]
            ts = [[u, 's0', v] for u, v in es]
            for x in ts:
                c.add_transition(*[w.obj(y) for y in x])
            ev.append({'op': 'conj_new', 'trans': ts})
            conj_queries(w, c, ev, rng, which)
        return w.cfg()
    return run


def sc_raw_cliques(ev, rng):
    for _ in range(8):
        n = rng.randint(0, 8)
        p = rng.choice([.2, .5, .8, .95])
        gr = {i: set() for i in range(1, n + 1)}
        if rng.random() < .5:
            for i in gr:
                for j in gr:
                    if i < j and rng.random() < p:
                        gr[i].add(j)
                        gr[j].add(i)
        else:  # union of cliques
            for _ in range(rng.randint(1, 4)):
                if n:
                    q = [rng.randint(1, n) for _ in range(rng.randint(1, 5))]
                    for i in q:
                        for j in q:
                            if i != j:
                                gr[i].add(j)
        edges = [['n%d' % i, 'n%d' % j] for i in gr for j in gr[i]]
        out, res = outcome(lambda: list(itertools.islice(max_cliques(gr), 400)))
        ev.append({'op': 'raw_cliques', 'nodes': ['n%d' % i for i in gr],
                   'edges': edges, 'out': out,
                   'res': [['n%d' % i for i in q] for q in res or []]})
    return {'feat': {}, 'act': {}}


def sc_compact_task(ev, rng):
    w = World(rng, rng.randint(1, 3), rng.randint(1, 4), wild=.7)
    g = TaskGraph()
    for _ in range(rng.randint(1, 4)):
        add_path(w, g, ev, w.random_path(rng.randint(0, 5)))
    for k in range(rng.randint(1, 3)):
        nodes = [w.name(x) for x in g.all_nodes()]
        sub = [x for x in nodes if rng.random() < rng.choice([.2, .5, .9])]
        new = 'm%d' % k if rng.random() < .6 else rng.choice(nodes + ['m9'])
        out, _ = outcome(g.compact, [w.obj(x) if x in w.feat else x for x in sub],
                         w.obj(new) if new in w.feat else new)
        ev.append({'op': 'compact_task', 'nodes': sub, 'new': new, 'out': out,
                   'g': w.proj(g)})
    return w.cfg()


def export(w, gr, ev, rng, of):
    nm = rng.choice(['', 'graph', 'x y'])
    out, d = outcome(gr.as_dictionary, nm)
    e = {'op': 'export', 'of': of, 'out': out, 'given': nm, 'name': '',
         'nodes': [], 'links': [], 'all': []}
    if out == 'ok':
        text = {}
        for x in gr.all_nodes():
            text[str(x)] = w.name(x)
        for t in gr.all_transitions():
            text.setdefault(str(t[1]), w.name(t[1]))
        e['name'] = d['name']
        e['nodes'] = [{'id': n['id'], 'label': text.get(n['value']['label'], '?')}
                      for n in d['nodes']]
        e['links'] = [{'u': l['u'], 'v': l['v'],
                       'label': text.get(l['value']['label'], '?')}
                      for l in d['links']]
        e['all'] = [w.name(x) for x in gr.all_nodes()]
        json.dumps(d)
    ev.append(e)


class TextWorld(World):

    def obj(self, name):
        o = World.obj(self, name)
        if isinstance(o, PrePostConditionAction):
            o.name = name
        return o


def sc_export(ev, rng):
    w = TextWorld(rng, 2, 3, wild=.7, kind='own')
    OwnState.__str__ = lambda self: 'S' + ''.join(map(str, self.bits))
    g = TaskGraph()
    export(w, g, ev, rng, 'g')
    for p in det_paths(w, rng, rng.randint(1, 4), 4):
        add_path(w, g, ev, p)
    export(w, g, ev, rng, 'g')
    c = conj_events(w, g, ev)
    if c is not None:
        export(w, c, ev, rng, 'c')
    return w.cfg()


class SameTextWorld(World):
    """Distinct states, respectively actions, may print alike."""

    def texts(self):
        self.text = {n: 'S%d' % v[0] for n, v in self.feat.items()}
        for n in self.act:
            self.text[n] = self.rng.choice(['x', 'x', 'y', 'initial'])
        self.text.update({'I': 'initial', 'T': 'terminal'})

    def obj(self, name):
        o = World.obj(self, name)
        if isinstance(o, PrePostConditionAction):
            o.name = self.text[name]
        return o


def export_text(w, gr, ev, of):
    out, d = outcome(gr.as_dictionary)
    ns, ls = (d['nodes'], d['links']) if out == 'ok' else ([], [])
    ev.append({'op': 'export_text', 'of': of, 'out': out,
               'text': [{'n': n, 't': t} for n, t in sorted(w.text.items())],
               'nodes': [{'id': n['id'], 'label': n['value']['label']} for n in ns],
               'links': [{'u': l['u'], 'v': l['v'], 'label': l['value']['label']} for l in ls]})


def sc_export_text(ev, rng):
    w = SameTextWorld(rng, 2, 3, wild=.7, kind='own')
    w.texts()
    OwnState.__str__ = lambda self: 'S%d' % self.bits[0]
    g = TaskGraph()
    for p in det_paths(w, rng, rng.randint(1, 4), 4):
        add_path(w, g, ev, p)
    export_text(w, g, ev, 'g')
    c = conj_events(w, g, ev)
    if c is not None:
        export_text(w, c, ev, 'c')
    return w.cfg()


def sc_export_free(ev, rng):
    w, c = free_graph(ev, rng, rng.choice(['chain', 'clique', 'any']), 'abs')
    export(w, c, ev, rng, 'c')
    compact_once(w, c, ev, rng, 0)
    export(w, c, ev, rng, 'c')
    return w.cfg()


def many(name, n, fun):
    for i in range(n * (6 if THOROUGH else 1)):
        R.scenario('%s-%d' % (name, i), fun)


if P in ('G01', 'ALL'):
    many('paths', 150, sc_paths)
    for n in range(0, 6 if THOROUGH else 5):
        R.scenario('short-%d' % n, sc_all_short(n))
    many('long', 2, sc_long)
    many('conj', 20, sc_conjugate)
if P in ('G02', 'ALL'):
    many('conj', 220, sc_conjugate)
if P in ('G03', 'ALL'):
    many('chain', 130, sc_free('chain', 'chains', 1))
    many('any', 80, sc_free('any', 'chains', 2))
    many('longchain', 12, sc_free('longchain', 'chains', 0))
    nb = 4
    for b in range(nb):
        R.scenario('enum2-%d' % b, sc_enum('chains', b, nb, 2))
if P in ('G04', 'ALL'):
    many('clique', 110, sc_free('clique', 'cliques', 1))
    many('any', 30, sc_free('any', 'cliques', 1))
    many('raw', 60, sc_raw_cliques)
    nb = 4
    for b in range(nb):
        R.scenario('enum2-%d' % b, sc_enum('cliques', b, nb, 2))
if P in ('G05', 'ALL'):
    many('chain', 60, sc_free('chain', 'none', 3))
    many('clique', 60, sc_free('clique', 'none', 3))
    many('any', 60, sc_free('any', 'none', 3))
    many('task', 60, sc_compact_task)
if P in ('G08', 'ALL'):
    many('export', 80, sc_export)
    many('exportfree', 80, sc_export_free)
    many('exporttext', 60, sc_export_text)
R.close()
