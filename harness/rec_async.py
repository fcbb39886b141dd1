"""Records planners that explore in the background."""
from hlib import *
import threading
import time
import planners
from planners import Planner, Log, K
from task_models.lib.pomcp import AsyncPOMCPPolicyRunner, _SearchTree

args = parse_args()
P = args.prop
R = Recorder(args)
MAIN = threading.current_thread()
CURRENT = None
_simulate = _SearchTree.simulate_from_node


def thread():
    return 'main' if threading.current_thread() is MAIN else 'bg'


def simulate(tree, node, *a, **kw):
    pl = CURRENT
    if pl is None or getattr(tree, 'closed', False):
        return _simulate(tree, node, *a, **kw)
    th = thread()
    if th == 'bg':
        pl.ready.wait(20)
        if getattr(tree, 'closed', False) or tree is not pl.tree:
            return _simulate(tree, node, *a, **kw)
    forced = kw.get('action', a[0] if a else None)
    pl.add({'op': 'simin', 'th': th, 'key': pl.key(node), 'forced': 0 if forced is None else int(forced) + 1,
            'delta': pl.delta()})
    pl.gate(th, 'in')
    pl.log.simulating = True
    try:
        return _simulate(tree, node, *a, **kw)
    finally:
        pl.log.simulating = False
        pl.gate(th, 'out')
        if pl.events:
            pl.add({'op': 'simout', 'th': th, 'delta': pl.delta()})
        if th == 'bg':
            pl.n_bg += 1


_SearchTree.simulate_from_node = simulate


class AsyncLog(Log):

    def __init__(self, pl):
        super(AsyncLog, self).__init__()
        self.pl = pl
        self.simulating = False

    def add(self, a, s, res, off):
        if not self.quiet and self.pl.events:
            super(AsyncLog, self).add(a, s, res, off)
            e = self.calls[-1]
            e['th'] = thread()
            self.pl.add(e)
            self.pl.gate(e['th'], 'call')


class AsyncPlanner(Planner):

    def __init__(self, ev, rng, **kw):
        global CURRENT
        self.ev, self.rng, self.events = ev, rng, True
        self.ready = threading.Event()
        self.inside = threading.Event()
        self.gated = None
        self.slow = 0
        self.nap = .03  # How long simulations are suspended
        self.n_bg = 0
        self.before = set(threading.enumerate())
        CURRENT = self
        super(AsyncPlanner, self).__init__(rng, runner=AsyncPOMCPPolicyRunner, log=AsyncLog(self), **kw)
        ev.cfg = self.cfg
        self.add({'op': 'new', 'out': 'ok'})
        self.ready.set()

    def add(self, e):
        if self.events:
            self.ev.append(e)

    def gate(self, th, where):
        """Lets the other thread run."""
        if th == 'bg' and self.gated == where:
            self.gated = None
            self.inside.set()
            time.sleep(self.nap)
        elif th == 'main' and where == 'call' and self.slow > 0:
            self.slow -= 1
            time.sleep(.015)

    def surprise(self):
        """Sometimes waits until the thread is in a simulation."""
        self.slow = self.rng.choice([0, 0, 1, 2])
        if self.nap > .1 or self.rng.random() < .6:
            self.inside.clear()
            self.gated = self.rng.choice(['in', 'in', 'call', 'out'] if self.nap < .1 else ['in', 'call'])
            self.inside.wait(.3 if self.nap < .1 else 3)
            self.gated = None

    def call(self, what, o=0, iters=0):
        self.surprise()
        self.add({'op': 'opcall', 'what': what, 'o': o, 'iters': iters})

    patience = 15.

    def progress(self, k=1):
        limit = self.patience
        n, t = self.n_bg, time.time()
        while self.n_bg - n < k and time.time() - t < limit:
            time.sleep(.002)
        if self.n_bg == n:
            AsyncPlanner.patience = .2
        self.add({'op': 'progress', 'n': self.n_bg - n})

    def alive(self):
        return any(t.is_alive() for t in set(threading.enumerate()) - self.before)

    def close(self):
        self.events = False
        self.tree.closed = True
        self.ready.set()
        self.runner.thread._done = True  # in case it could not be stopped


class Oops(Exception):
    pass


def sc_async(ev, rng, script=None, **kw):
    """script: calls to make (get .1, step .5, execute .7, reset .85, stop .93) and how
    long to suspend the simulation in which they fall."""
    pl = AsyncPlanner(ev, rng, **kw)
    stopped = False
    try:
        r = pl.runner
        acted = False
        pl.progress(rng.randint(1, 3))
        for i in range(rng.randint(5, 9) if script is None else len(script)):
            if script is not None:
                pl.nap = script[i][1]
            if not stopped and rng.random() < .3:
                pl.progress(rng.randint(1, 3))
            elif rng.random() < .2:
                time.sleep(rng.choice([.005, .02]))
            k = rng.random() if script is None else script[i][0]
            if script is None and not acted and k < .75 or k < .3:
                n = rng.choice([0, 0, 1, 2, 4, None])
                pl.call('get', iters=pl.iters if n is None else n)
                out, a = outcome(r.get_action) if n is None else outcome(r.get_action, iterations=n)
                pl.add({'op': 'ret', 'what': 'get', 'out': out, 'a': pl.A.index(a) + 1 if a in pl.A else 0})
                acted = True
            elif k < .65:
                if not acted:
                    continue
                o = rng.randrange(pl.p['no'])
                if rng.random() < .1:
                    o = None
                elif rng.random() < .5:  # an observation that was simulated already
                    node = r.tree.get_node(list(r.history)) if r.history else r.tree.root
                    kid = node.children[r._last_action] if r._last_action is not None else None
                    if kid is not None and len(kid.children):
                        o = rng.choice(sorted(kid.children.copy()))
                pl.call('step', o=0 if o is None else int(o) + 1)
                out, _ = outcome(r.step, pl.O[o] if o is not None else 'nothing')
                pl.add({'op': 'ret', 'what': 'step', 'out': out})
                if out == 'ok':
                    acted = False
                pl.add({'op': 'peek', 'b': [fix(x, K) for x in r.belief.array] if not pl.supportive else [],
                        'hist': [int(x) + 1 for x in r.history]})
            elif k < .78:
                value, error = object(), Oops('x')
                fails = rng.random() < .4

                def fun(x, w=5, y=None):
                    pl.add({'op': 'funin'})
                    time.sleep(rng.choice([0, .02, .03]))
                    pl.add({'op': 'funout'})
                    if fails:
                        raise error
                    return (x, y) if w == 5 else w
                pl.call('exec')
                try:
                    res = r.execute(fun, value, y=3)
                    right = not fails and type(res) is tuple and res[0] is value and res[1] == 3
                except Oops as e:
                    right = fails and e is error
                pl.add({'op': 'ret', 'what': 'exec', 'right': bool(right)})
                if not stopped and rng.random() < .7:
                    pl.progress()
            elif k < .9:
                pl.call('reset')
                out, _ = outcome(r.reset)
                pl.add({'op': 'ret', 'what': 'reset', 'out': out})
                acted = False
            elif k < .95 or stopped:
                stopped = stop(pl)
        pl.nap = .03
        if not stopped and rng.random() < .8:
            pl.progress()
        for _ in range(rng.choice([1, 1, 2])):
            stop(pl)
        time.sleep(.03)
        if rng.random() < .5:
            n = rng.randint(1, 3)
            pl.call('get', iters=n)
            out, a = outcome(r.get_action, iterations=n)
            pl.add({'op': 'ret', 'what': 'get', 'out': out, 'a': pl.A.index(a) + 1 if a in pl.A else 0})
        pl.add({'op': 'final', 'delta': pl.delta()})
    finally:
        pl.close()
        pl.finish()


def stop(pl):
    pl.call('stop')
    out, _ = outcome(pl.runner.stop)
    pl.add({'op': 'ret', 'what': 'stop', 'out': out, 'alive': pl.alive()})
    return True


k = 5 if THOROUGH else 1
for i in range(16 * k):
    R.scenario('h%d' % i, lambda ev, rng: sc_async(ev, rng, shared=False), timeout=90)
for i in range(6 * k):
    R.scenario('s%d' % i, lambda ev, rng: sc_async(ev, rng, shared=True), timeout=90)
for i in range(8 * k):
    R.scenario('p%d' % i, lambda ev, rng: sc_async(ev, rng, supportive=True), timeout=90)
# Calls that fall in a very long simulation
LONG = 4.
for i, script in enumerate([[(.1, .03), (.5, LONG)], [(.1, LONG), (.5, .03)], [(.1, .03), (.7, LONG)],
                            [(.1, .03), (.5, .03), (.85, LONG)]] * (2 if THOROUGH else 1)):
    R.scenario('long%d' % i, lambda ev, rng: sc_async(ev, rng, script=script, shared=False, horizon=4), timeout=90)
R.close()
