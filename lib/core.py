"""Shared machinery of the checks: TLC design runs, recording of traces from the
real code and validation of these traces by TLC.

Exit codes of a check: 0 (property held on everything explored), 1 (violation, with
a VIOLATION line), 2 (failure of the machinery itself).
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')


class MachineryError(Exception):
    pass


class Ctx:

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = self.first = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.runs = []
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.actions = {}
        self.round = 0  # rounds after the first one only use other seeds
        self._stub()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _stub(self):
        self.stub = os.path.join(self.work, 'bin')
        os.mkdir(self.stub)
        shutil.copy(os.path.join(HARNESS, 'fake_solver.py'),
                    os.path.join(self.stub, 'pomdp-solve'))
        os.chmod(os.path.join(self.stub, 'pomdp-solve'), 0o755)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- TLC ---------------------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(),
            heap='2g', simulate=None):
        meta = tempfile.mkdtemp(dir=self.work, prefix='tlc-')
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else
               '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + meta,
               '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfg]
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s/%s' % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode('utf-8', 'replace')

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
        if m:
            return int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            return int(m[-1]), int(m[-1])
        return 0, 0

    def design(self, module, cfg=None, timeout=600, workers=4, env=None,
               heap='4g', simulate=None, extra=()):
        """Exhaustive check of a design specification with its invariants."""
        if self.round:
            return
        cfg = cfg or module + '.cfg'
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout,
                           env=env, heap=heap, simulate=simulate, extra=extra)
        gen, dis = self.counts(out)
        ok = rc == 0 and ('No error has been found' in out or simulate)
        if not ok:
            raise MachineryError('design check %s failed (rc %d):\n%s' % (
                cfg, rc, out[-4000:]))
        self.states += dis
        self.transitions += gen
        self.runs.append({'design': cfg, 'distinct_states': dis,
                          'transitions': gen, 'wall_s': round(time.time() - t, 1)})
        return out

    # -- Recording ---------------------------------------------------------

    def env(self):
        e = dict(os.environ)
        e.update({'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
                  'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
                  'OPENBLAS_NUM_THREADS': '1', 'HOME': self.work,
                  'PYTHONPATH': os.pathsep.join([HARNESS, REPO]),
                  'PATH': self.stub + os.pathsep + e.get('PATH', ''),
                  'VERIF_REPO': REPO, 'VERIF_WORK': self.work,
                  'TMPDIR': self.work,
                  'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier})
        return e

    def record(self, script, args=(), timeout=400, inputs=None):
        """Runs a harness against the real code; returns the list of traces."""
        out = tempfile.mktemp(dir=self.work, suffix='.traces')
        cmd = [PYTHON, os.path.join(HARNESS, script), '--out', out,
               '--prop', self.prop] + [str(a) for a in args]
        if inputs is not None:
            f = tempfile.mktemp(dir=self.work, suffix='.in')
            with open(f, 'w') as fp:
                json.dump(inputs, fp)
            cmd += ['--inputs', f]
        try:
            p = subprocess.run(cmd, cwd=self.work, env=self.env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            # What was recorded may tell already that something is wrong
            self.incomplete = 'harness %s timed out' % script
            try:
                with open(out + '.part') as f:
                    lines = f.read().split('\n')[:-1]
            except IOError:
                lines = []
            if not lines:
                raise MachineryError(self.incomplete)
            return [json.loads(x) for x in lines]
        if p.returncode != 0 or not os.path.exists(out):
            raise MachineryError('harness %s failed (rc %s):\n%s' % (
                script, p.returncode, p.stdout.decode()[-4000:]))
        with open(out) as f:
            traces = [json.loads(line) for line in f]
        if not traces:
            raise MachineryError('harness %s recorded nothing' % script)
        return traces

    # -- Validation --------------------------------------------------------

    def validate(self, module, traces, cfg=None, env=None, shards=None,
                 timeout=700, heap='3g'):
        """Has TLC decide whether each recorded trace is a behaviour of the
        specification. Violations are collected in self.violations."""
        cfg = cfg or module + '.cfg'
        if shards is None:
            size = sum(len(t['ev']) for t in traces)
            shards = max(1, min(7, size // 150 + 1, len(traces)))
        buckets = [[] for _ in range(shards)]
        loads = [0] * shards
        for t in sorted(traces, key=lambda t: -len(json.dumps(t))):
            i = loads.index(min(loads))
            buckets[i].append(t)
            loads[i] += len(json.dumps(t))
        t0 = time.time()

        def run(ts):
            f = tempfile.mktemp(dir=self.work, suffix='.json')
            with open(f, 'w') as fp:
                json.dump(ts, fp)
            e = {'TRACE_FILE': f, 'PROP': self.prop}
            e.update(env or {})
            rc, out = self.tlc(module, cfg, env=e, timeout=timeout, heap=heap)
            os.remove(f)
            return ts, rc, out

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(run, buckets))
        nst = 0
        for ts, rc, out in results:
            gen, dis = self.counts(out)
            self.states += dis
            self.transitions += gen
            nst += dis
            fails = {}
            for m in re.finditer(r'VFAIL\|(\d+)\|(\d+)\|([^"|]*)', out):
                fails.setdefault(int(m.group(1)), set()).add(
                    (int(m.group(2)), m.group(3)))
            done = set(int(x) for x in re.findall(r'VDONE\|(\d+)', out))
            for a, n in re.findall(r'VCOUNT\|([^"|]*)\|(\d+)', out):
                self.actions[a] = self.actions.get(a, 0) + int(n)
            crashed = not (rc == 0 and 'No error has been found' in out)
            if crashed and re.search(
                    r'(Parsing or semantic analysis failed|Could not parse|'
                    r'OutOfMemory|StackOverflow|Cannot find source file|'
                    r'Unknown operator|No space left)', out):
                raise MachineryError('TLC failed on %s:\n%s' % (
                    module, out[-4000:]))
            for i, t in enumerate(ts, 1):
                if i in fails:
                    for ln, cl in sorted(fails[i]):
                        self._violation(module, t, ln, cl)
                elif i not in done and not crashed:
                    raise MachineryError('trace %s of %s was not decided:\n%s'
                                         % (t.get('id'), module, out[-3000:]))
            if crashed and not fails:
                # One of the traces is out of the vocabulary of the
                # specification: find which one(s).
                bad = self._bisect(module, cfg, env, [
                    t for i, t in enumerate(ts, 1) if i not in done],
                    timeout, heap)
                if not bad:
                    raise MachineryError('TLC failed on %s (rc %d):\n%s' % (
                        module, rc, out[-4000:]))
                for t, o in bad:
                    m = re.search(r'(The error occurred|Error: .*?)\n', o)
                    self._violation(module, t, 0, 'not-evaluable', detail=(
                        o[-1500:]))
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        self.runs.append({'traces': module, 'n': len(traces),
                          'events': sum(len(t['ev']) for t in traces),
                          'seed': self.seed, 'distinct_states': nst,
                          'wall_s': round(time.time() - t0, 1)})
        for t in traces[:: max(1, len(traces) // 2)][:2]:
            s = json.dumps(t)
            self.samples.append(t if len(s) < 1500 else s[:1500] + '...')

    def _bisect(self, module, cfg, env, ts, timeout, heap):
        bad = []
        for t in ts[:40]:
            f = tempfile.mktemp(dir=self.work, suffix='.json')
            with open(f, 'w') as fp:
                json.dump([t], fp)
            e = {'TRACE_FILE': f, 'PROP': self.prop}
            e.update(env or {})
            rc, out = self.tlc(module, cfg, env=e, timeout=timeout, heap=heap)
            if rc != 0:
                bad.append((t, out))
                break
        return bad

    def _violation(self, module, trace, line, clause, detail=None):
        self.violations.append({
            'property': self.prop, 'module': module, 'clause': clause,
            'seed': self.seed,
            'trace_id': trace.get('id'), 'line': line,
            'event': (trace['ev'][line - 1]
                      if 0 < line <= len(trace['ev']) else None),
            'detail': detail, 'trace': trace})

    def again(self, budget=450):
        """Starts a round with another seed, in the time that is left (thorough)."""
        spent = time.time() - self.t0
        last = spent - getattr(self, 'spent', 0)
        if (not self.thorough or self.violations or getattr(self, 'incomplete', None)
                or spent + 1.5 * last > budget):
            return False
        self.spent = spent
        self.round += 1
        self.seed = self.first + 1000 * self.round
        self.samples = self.samples[:4]
        return True

    # -- Result ------------------------------------------------------------

    def known(self):
        out = []
        f = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level):
        known = self.known()
        seen, real = set(), []
        for v in self.violations:
            k = '%s/%s' % (v['trace_id'], v['clause'])
            hit = [x for x in known if x[0] == k]
            if hit:
                seen.add(hit[0])
            else:
                real.append(v)
        for k, d in sorted(known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, d))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'events_validated': self.events,
               'samples': self.samples or ['none'], 'runs': self.runs}
        if self.actions:
            cov['trace_actions'] = self.actions
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.first,
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(real)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not real and getattr(self, 'incomplete', None):
            raise MachineryError(self.incomplete)
        if not real:
            print('OK property=%s traces=%d events=%d states=%d wall=%.1fs' % (
                self.prop, self.traces, self.events, self.states,
                time.time() - self.t0))
            return 0
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        real.sort(key=lambda v: len(json.dumps(v['trace'])))
        v = real[0]
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        for w in real[:10]:
            print('  rejected: clause=%s trace=%s line=%s event=%s' % (
                w['clause'], w['trace_id'], w['line'],
                json.dumps(w['event'])[:300]))
            if w['detail']:
                print('    ' + w['detail'][-600:].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1
