"""Records repetitions of functions in processes."""
from hlib import *
import json
import multiprocessing
import signal
import subprocess
import tempfile
import time
import numpy as np
from task_models.utils.multiprocess import repeat

args = parse_args()
R = Recorder(args)
WORK = os.environ.get('VERIF_WORK', tempfile.gettempdir())
KINDS = ['raise', 'exit', 'exit0', 'kill', 'term', 'stuck', 'unsendable']


class Failure(Exception):
    pass


class Unsendable(object):

    def __reduce__(self):
        raise Failure('cannot be sent')


class Pool(object):
    """One call of repeat, with what happens in processes."""

    def __init__(self, ncpu, fails=(), size=0, long=None, torn=False):
        self.ncpu, self.fails, self.size, self.long, self.torn = ncpu, dict(fails), size, long, torn
        fd, self.path = tempfile.mkstemp(dir=WORK, suffix='.pool')
        os.close(fd)
        self.count = multiprocessing.Value('i', 0)

    def write(self, **e):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, (json.dumps(e) + '\n').encode())
        os.close(fd)

    def tear(self):
        # The parent is stopped until this process was killed while sending its result
        parent, me = os.getppid(), os.getpid()
        subprocess.Popen(['sh', '-c', 'sleep .5; kill -KILL %d; sleep .2; kill -CONT %d' % (me, parent)])
        os.kill(parent, signal.SIGSTOP)
        self.write(op='die', pid=me, kind='torn')
        return b'x' * 5000000

    def __call__(self):
        with self.count.get_lock():
            i = self.count.value
            self.count.value += 1
        pid = os.getpid()
        draw = [int(x) for x in np.random.randint(0, 2 ** 31 - 1, size=4)]
        self.write(op='start', pid=pid, draw=draw)
        kind = self.fails.get(i)
        time.sleep(self.long[i] if self.long else 0)
        if self.torn and i == 0:
            return self.tear()
        if kind is None:
            self.write(op='end', pid=pid)
            return (pid, draw, b'x' * self.size)
        self.write(op='die', pid=pid, kind=kind)
        if kind == 'raise':
            sys.stderr = open(os.devnull, 'w')
            raise Failure()
        elif kind == 'exit':
            sys.exit(3)
        elif kind == 'exit0':
            os._exit(0)
        elif kind == 'kill' or kind == 'term':
            os.kill(pid, signal.SIGKILL if kind == 'kill' else signal.SIGTERM)
            time.sleep(60)
        elif kind == 'unsendable':
            sys.stderr = open(os.devnull, 'w')
            return Unsendable()

    def events(self):
        with open(self.path) as f:
            return [json.loads(x) for x in f.read().split('\n') if x]


def call(ev, n, pool):
    os.cpu_count = lambda: pool.ncpu
    ev.append({'op': 'call', 'n': n, 'ncpu': pool.ncpu})
    try:
        out, res = outcome(repeat, pool, n)
    finally:
        got = pool.events()
        ids = {}
        for e in got:
            e['pid'] = ids.setdefault(e['pid'], len(ids) + 1)
        ev.extend(got)
        for p in multiprocessing.active_children():
            p.kill()
            p.join()
    ok = out == 'ok'
    if ok and not isinstance(res, list):
        ok, out = False, 'no list'
    rs = []
    for r in res if ok else []:
        good = type(r) is tuple and len(r) == 3 and r[2] == b'x' * pool.size
        rs.append({'pid': ids.get(r[0], 0) if good else 0, 'draw': r[1] if good else []})
    ev.append({'op': 'ret', 'out': out, 'results': rs})


def sc_ok(ev, rng):
    for _ in range(rng.choice([1, 2])):
        n = rng.choice([0, 1, 2, 3, 5, 7] * 2 + [18])
        top = rng.choice([0, .01, .05])
        call(ev, n, Pool(rng.choice([1, 2, 3, 8]), size=rng.choice([0, 100, 70000, 1000000]),
                         long=[rng.uniform(0, top) for _ in range(n)]))


def sc_fail(ev, rng, kind):
    n = rng.choice([1, 2, 3, 5])
    who = rng.sample(range(n), rng.choice([1, 1, min(n, 2)]))
    call(ev, n, Pool(rng.choice([1, 2, 3]), fails={i: kind for i in who},
                     size=rng.choice([0, 100, 200000]), long=[rng.uniform(0, .04) for _ in range(n)]))
    if rng.random() < .5:
        call(ev, 2, Pool(2, long=[0, 0]))  # works afterwards


VALUES = [None, False, 0, 0., '', (), [], {}, [None], Failure('returned'), ValueError, float('inf'), ('error', 1), -1, b'', True,
          {'a': np.arange(3)}, np.zeros((2, 0)), np.int64(0)]


def sc_values(ev, rng):
    """Any value can be a result."""
    os.cpu_count = lambda: 2
    for v in rng.sample(VALUES, 5):
        n = rng.choice([1, 2, 3])
        out, res = outcome(repeat, lambda: v, n)
        ev.append({'op': 'values', 'n': n, 'out': out, 'count': len(res) if out == 'ok' else -1,
                   'right': out == 'ok' and all(type(r) is type(v) and repr(r) == repr(v) for r in res)})


def sc_torn(ev, rng):
    call(ev, 2, Pool(1, torn=True))


k = 10 if THOROUGH else 3
for i in range(8 * k):
    R.scenario('ok%d' % i, sc_ok, timeout=60)
for kind in ['raise', 'exit', 'exit0', 'kill', 'term', 'unsendable']:
    for i in range(2 * k):
        R.scenario('%s%d' % (kind, i), lambda ev, rng: sc_fail(ev, rng, kind), timeout=60)
for i in range(2 * k):
    R.scenario('values%d' % i, sc_values, timeout=60)
R.scenario('killed-while-sending', sc_torn, timeout=10)
R.close()
