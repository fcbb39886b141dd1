"""Common part of the harnesses that record traces from the real code."""
import argparse
import json
import os
import random
import resource
import signal
import sys
import traceback
import types
from fractions import Fraction

import warnings
warnings.simplefilter('ignore')

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
WORK = os.environ.get('VERIF_WORK', '/tmp')

resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

# The evaluation module imports a job launcher which is not installed here (and
# which is only used to submit jobs on clusters).
_e = types.ModuleType('expjobs')
_h = types.ModuleType('expjobs.helpers')


class _Launcher(object):
    pass


_h.Launcher = _Launcher
_e.helpers = _h
sys.modules.setdefault('expjobs', _e)
sys.modules.setdefault('expjobs.helpers', _h)

import numpy as np  # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*args):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def parse_args():
    p = argparse.ArgumentParser()
    p.add_argument('--out', required=True)
    p.add_argument('--prop', default='ALL')
    p.add_argument('--inputs', default=None)
    p.add_argument('rest', nargs='*')
    a = p.parse_args()
    if a.inputs:
        with open(a.inputs) as f:
            a.inputs = json.load(f)
    return a


def outcome(fun, *args, **kwargs):
    """Calls fun and classifies its outcome: ('ok', value) or (exception, None)."""
    try:
        return 'ok', fun(*args, **kwargs)
    except Hang:
        raise
    except RecursionError:
        return 'RecursionError', None
    except SystemExit:
        return 'SystemExit', None
    except Exception as e:
        for c in (KeyError, IndexError):
            if isinstance(e, c):
                return c.__name__, None
        return type(e).__name__, None


def is_error(e, cls):
    return isinstance(e, cls)


def num(x):
    """Any number as a pair [numerator, denominator] with small terms (exact, or
    rounded when the number is not close to a small fraction)."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [999999, 7]
    if x != x or x in (float('inf'), float('-inf')):
        return [999999, 7]
    f = Fraction(x).limit_denominator(2000)
    if abs(float(f) - x) > 1e-9 * max(1., abs(x)):
        if abs(x) > 200:
            f = Fraction(int(round(x * 1000)), 1000)
            f = Fraction(f.numerator, f.denominator)
        else:
            f = Fraction(int(round(x * 99991)), 99991)
        if f.denominator == 1:  # never pass for exact
            f = Fraction(f.numerator * 99991 + (1 if x > f else -1), 99991)
    n, d = f.numerator, f.denominator
    if abs(n) > 2000000000:
        return [999999, 7]
    return [n, d]


def fix(x, scale=1000000):
    """Number as scaled integer (for comparisons with tolerance)."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return -2000000000
    if x != x:
        return -2000000000
    y = int(round(max(-2e9, min(2e9, x * scale))))
    return y


class Events(list):
    """Events of a trace; cfg can be set as soon as known."""
    cfg = None


class Recorder(object):

    def __init__(self, args):
        self.args = args
        self.f = open(args.out + '.part', 'w')
        self.n = 0
        self.hung = False

    def scenario(self, tid, fun, timeout=30, cfg=None):
        """Runs fun(ev, rng), which appends events to the list ev, and records
        these as a trace. fun may return the trace configuration."""
        if self.hung:  # no need to wait for all other ones
            return
        ev = Events()
        h = 0
        for c in tid:
            h = (h * 131 + ord(c)) % (1 << 31)
        rng = random.Random(SEED * 1000003 + h)
        np.random.seed((SEED * 7919 + h) % (1 << 31))
        random.seed(SEED * 31 + h)
        res = None
        old = sys.stdout
        signal.alarm(timeout)
        try:
            res = fun(ev, rng)
        except Hang:
            ev.append({'op': 'hang'})
            self.hung = True
        except MemoryError:
            ev.append({'op': 'hang'})
        except (Exception, SystemExit) as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            ev.append({'op': 'crash', 'type': type(e).__name__,
                       'text': str(e)[:200],
                       'where': ['%s:%s' % (os.path.basename(x.filename), x.name)
                                 for x in tb[-4:]]})
        finally:
            signal.alarm(0)
            sys.stdout = old
        self.write(tid, res if res is not None else (ev.cfg or cfg or {}), ev)

    def write(self, tid, cfg, ev):
        if not isinstance(cfg, dict):
            raise ValueError('cfg')
        self.f.write(json.dumps({'id': tid, 'cfg': cfg, 'ev': ev}) + '\n')
        self.f.flush()
        self.n += 1

    def close(self):
        self.f.close()
        os.rename(self.args.out + '.part', self.args.out)
        sys.stdout.flush()
        os._exit(0)  # do not wait for threads
