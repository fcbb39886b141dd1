"""Records the hand-written policy, with observations from random worlds."""
from hlib import *
from task_models.policy import PolicyLongSupportiveSequence
from task_models.supportive import (SupportivePOMDP, AssembleLeg, AssembleFoot, AssembleTopJoint,
                                    AssembleLegToTop, BringTop)
from task_models.task import SequentialCombination, LeafCombination

args = parse_args()
R = Recorder(args)
O = ['none', 'fail', 'not-found', 'yes', 'no']


def gen_task(rng):
    n = rng.choice([1, 2, 3, 4] * 3 + [9, 14])
    # tools and legs have to be known
    steps = [AssembleLeg('leg')] + [rng.choice([AssembleLeg, AssembleFoot, AssembleTopJoint, AssembleLegToTop])(
        'leg-%d' % i) for i in range(1, n)]
    if rng.random() < .3:
        steps.append(BringTop())
    rng.shuffle(steps)
    k = rng.randint(1, len(steps))
    c = [LeafCombination(s) for s in steps]
    return SequentialCombination([SequentialCombination(c[:k], name='a')] + c[k:], name='task'), len(steps)


def parts(a):
    w = a.split(' ')
    return [w[0], '' if w[0] == 'wait' else w[1]]


def sc(ev, rng, how):
    task, n = gen_task(rng)
    ev.cfg = {'n': n}
    model = SupportivePOMDP(task)
    out, pol = outcome(PolicyLongSupportiveSequence, model)
    ev.append({'op': 'new', 'out': out})
    if out != 'ok':
        return
    fresh = True

    def peek():
        h = list(pol.history)
        pairs = [[parts(model.actions[h[i]]), model.observations[h[i + 1]]] for i in range(0, len(h) - 1, 2)]
        ev.append({'op': 'peek', 'hist': pairs if len(h) % 2 == 0 else pairs + [[['odd', ''], '']]})

    def step(o):
        out, _ = outcome(pol.step, o)
        ev.append({'op': 'step', 'o': o if o in O else '?', 'out': out})
        return out
    for _ in range(rng.choice([5, 15, 30] if model.n_htm_states < 9 else [60, 90])):
        if rng.random() < .03:
            out, _ = outcome(pol.reset)
            ev.append({'op': 'reset', 'out': out})
            fresh = True
        if fresh and rng.random() < .2:
            step(rng.choice(O))
        for _ in range(rng.choice([1, 1, 1, 2])):
            out, a = outcome(pol.get_action)
            ev.append({'op': 'get', 'out': out, 'a': parts(a) if type(a) is str else ['?', '']})
            if a not in model.actions:
                return
        fresh = False
        if rng.random() < .05:
            step('something')
        k = rng.random()
        if how == 'fair':
            o = 'none' if k < .7 else 'fail' if k < .85 or parts(a)[0] == 'hold' else 'not-found'
        else:
            o = rng.choice(O)
        step(o)
        if rng.random() < .1:
            peek()
    peek()


def sc_world(ev, rng):
    """With the model of the task, until the end."""
    task, n = gen_task(rng)
    ev.cfg = {'n': n}
    model = SupportivePOMDP(task)
    model.p_preferences = [1.]
    model.p_change_preference = 0.
    out, pol = outcome(PolicyLongSupportiveSequence, model)
    ev.append({'op': 'new', 'out': out})
    if out != 'ok':
        return
    s = model.sample_start()
    for _ in range(60):
        if model.is_final(s):
            break
        out, a = outcome(pol.get_action)
        ev.append({'op': 'get', 'out': out, 'a': parts(a) if type(a) is str else ['?', '']})
        if a not in model.actions:
            return
        s, o, _ = model.sample_transition(model.actions.index(a), s)
        out, _ = outcome(pol.step, model.observations[o])
        ev.append({'op': 'step', 'o': model.observations[o], 'out': out})


k = 6 if THOROUGH else 1
for i in range(40 * k):
    R.scenario('fair%d' % i, lambda ev, rng: sc(ev, rng, 'fair'))
for i in range(30 * k):
    R.scenario('any%d' % i, lambda ev, rng: sc(ev, rng, 'any'))
for i in range(20 * k):
    R.scenario('world%d' % i, sc_world)
R.close()
