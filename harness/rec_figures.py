"""Runs the launchers of experiments and the plot functions, and records what
they prepare and draw."""
from hlib import *
import io
import runpy
import tempfile
import numpy as np
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from task_models import evaluation
from task_models.evaluation import SupportiveExperiment
from task_models.plot import plot_beliefs
from task_models.utils.plot import plot_var, boxplot, pcolormesh, remove_chartjunk
from task_models.utils.term import progress_bar

args = parse_args()
R = Recorder(args)
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRIPTS = os.path.join(REPO, 'samples', 'supportive_evaluation_%s.py')
SHOWS = []
plt.show = lambda *a, **k: SHOWS.append(1)


class Job(object):
    """A job on the cluster: where it works, its name and its script."""

    def __init__(self, path, name, script):
        self.path, self.name, self.script = path, name, script
        self.config = os.path.join(path, name + '.config.json')


_j = types.ModuleType('expjobs.job')
_j.Job = Job
sys.modules['expjobs.job'] = _j
sys.modules['expjobs'].job = _j
HERE = []


class Args(object):
    plot_destination = None


def launcher(script, path):
    del HERE[:]
    cls = evaluation.ExpLauncher
    cls.run = lambda self: HERE.append(self)
    try:
        runpy.run_path(SCRIPTS % script, run_name='__main__')
    finally:
        del cls.run
    l = HERE[0]
    l.args = Args()
    l.args.path = path
    l.init_jobs()
    return l


def known(script):
    """Names of the parameters of the script of jobs."""
    old, argv = SupportiveExperiment.run, sys.argv
    got = []
    SupportiveExperiment.run = lambda self, debug=False: got.append(self)
    sys.argv = [script]
    try:
        runpy.run_path(script, run_name='__main__')
    finally:
        SupportiveExperiment.run, sys.argv = old, argv
    return sorted(got[0].parameters)


def text(k, v):
    if k == 'p_preference':
        n = int(round(v * 20))
        return str(n) if abs(v * 20 - n) < 1e-9 else repr(v)
    if isinstance(v, bool):
        return 'true' if v else 'false'
    return str(v)


def config(c):
    return {k: text(k, v) for k, v in c.items()}


def captured(fun, *a, **k):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        out, r = outcome(fun, *a, **k)
        return out, r, sys.stdout.getvalue()
    finally:
        sys.stdout = old


def sort_of(c):
    return type(c).__name__


def dev(lo, hi):
    return fix((hi - lo) / 2., 100)


def fill_at(col, xs, ys):
    """Half-widths of the area at each x, or -1 where it is not around y."""
    v = np.concatenate([p.vertices for p in col.get_paths()])
    res = []
    for x, y in zip(xs, ys):
        c = [b for a, b in v if abs(a - x) < 1e-9]
        ok = c and abs(max(c) + min(c) - 2 * y) < 1e-6
        res.append(dev(min(c), max(c)) if ok else -1)
    return res


def bars_at(cont, xs, ys):
    res = []
    segs = cont[2][0].get_segments() if cont[2] else []
    for i, (x, y) in enumerate(zip(xs, ys)):
        c = [s for s in segs if abs(s[0][0] - x) < 1e-9]
        ok = len(c) == 1 and abs(c[0][0][1] + c[0][1][1] - 2 * y) < 1e-6
        res.append(dev(c[0][0][1], c[0][1][1]) if ok else -1)
    return res


def curves(ax):
    """Labelled curves: (label, line, bars)"""
    res = []
    inside = set()
    for c in ax.containers:
        if sort_of(c) == 'ErrorbarContainer':
            inside |= {c[0]} | set(c[1])
            res.append((c.get_label(), c[0], c))
    for l in ax.lines:
        if l not in inside and not l.get_label().startswith('_'):
            res.append((l.get_label(), l, None))
    return res


def areas(ax):
    return [c for c in ax.collections if sort_of(c) in ('PolyCollection', 'FillBetweenPolyCollection')]


def of_color(ax, l):
    """The area that has the colour of a line (any one of these if many)."""
    return [a for a in areas(ax) if np.allclose(a.get_facecolor()[0][:3], to_rgba(l.get_color())[:3])]


def sc_launcher(ev, rng, script):
    plt.close('all')
    path = tempfile.mkdtemp(dir=WORK)
    l = launcher(script, path)
    out, _ = outcome(l.action_prepare)
    files = {}
    for n in l.exps:
        f = l.jobs[n].config if n in l.jobs else ''
        files[n] = {}
        if os.path.exists(f):
            with open(f) as fp:
                files[n] = config(json.load(fp))
    jobs = {n: config(c) for n, c in l.exps.items()}
    js = {j.script for j in l.jobs.values()}
    target = os.path.realpath(SCRIPTS % (script + '_job'))
    right = (set(l.jobs) == set(l.exps) and {os.path.realpath(s) for s in js} == {target} and
             all(j.name == n and j.path == path for n, j in l.jobs.items()))
    ev.append({'op': 'jobs', 'script': script, 'out': out, 'jobs': jobs, 'files': files,
               'known': known(target) + ['p_change_preference'], 'right': right})
    # Results of all jobs
    n = rng.randint(1, 5)
    results = []
    for name in l.jobs:
        es = [{'return': float(rng.randint(-30, 30)), 'elapsed-time': float(rng.randint(31, 60)),
               'simulator-calls': rng.randint(61, 90)} for _ in range(n)]
        with open(os.path.join(path, name + '.json'), 'w') as f:
            json.dump({'evaluations': es}, f)
        results.append({'cfg': jobs[name], 'ret': [int(e['return']) for e in es],
                        'calls': [e['simulator-calls'] for e in es]})
    if script == 'multitask':
        return boxes(ev, rng, l, results)
    var = True
    if script == 'preference':
        var = rng.random() < .7
        out, _ = outcome(l.plot_results, var=var)
    elif rng.random() < .5:
        out, _ = outcome(l.action_plot)
    else:
        out, _ = outcome(l.plot_results)
    e = {'op': 'figure', 'script': script, 'out': out, 'results': results, 'var': var, 'lines': [], 'legend': []}
    for f in plt.get_fignums():
        axes = plt.figure(f).axes
        for ax in axes:
            col = {}
            cs, fills = curves(ax), areas(ax)
            for i, (label, line, bars) in enumerate(cs):
                xs, ys = line.get_data()
                pts = [[fix(x, 1000), fix(y, 1000)] for x, y in zip(xs, ys)]
                mine = [c for c in of_color(ax, line)]
                if mine:
                    ws = [fill_at(c, xs, ys) for c in mine]
                    w = [x for x in ws if -1 not in x] or ws
                    pts = [p + [d] for p, d in zip(pts, w[0])]
                if bars is not None:
                    pts = [p + [d] for p, d in zip(pts, bars_at(bars, xs, ys))]
                col[label] = to_rgba(line.get_color())
                e['lines'].append({'y': axes[0].get_ylabel(), 'x': ax.get_xlabel(), 'label': label, 'pts': pts})
            leg = ax.get_legend()
            if leg is not None:
                hs = getattr(leg, 'legend_handles', None) or leg.legendHandles
                for t, h in zip(leg.get_texts(), hs):
                    c = h.get_facecolor() if hasattr(h, 'get_facecolor') else None
                    if c is None and hasattr(h, 'get_color'):
                        c = h.get_color()
                    same = [k for k in col if c is not None and np.allclose(to_rgba(c), col[k])]
                    t = t.get_text()
                    if same:
                        e['legend'].append([t, t if t in same else same[0]])
    ev.append(e)
    plt.close('all')


def boxes(ev, rng, l, results):
    out, _, s = captured(l.print_results)
    names, avg = [], []
    for line in s.splitlines():
        head, _, tail = line.partition(':')
        if head == 'Policies':
            names = [x.strip() for x in tail.split(',')]
        elif head.endswith(' task'):
            avg += [[head[:-5], n, fix(x, 1000)] for n, x in zip(names, tail.split())]
    ev.append({'op': 'printed', 'out': out, 'avg': avg, 'results': results})
    for al in (True, False):
        boxes_of(ev, l, results, al)


def boxes_of(ev, l, results, al):
    seen = {}
    keep = matplotlib.axes.Axes.boxplot

    def spy(self, *a, **k):
        r = keep(self, *a, **k)
        seen[self] = r
        return r
    matplotlib.axes.Axes.boxplot = spy
    try:
        rs = l.get_results()
        if al:
            out, f = outcome(l.plot_results, rs, exclude_repeat=False)
        else:
            out, f = outcome(l.plot_results, rs)
    finally:
        matplotlib.axes.Axes.boxplot = keep
    e = {'op': 'boxes', 'out': out, 'all': al, 'results': results, 'axes': []}
    if out == 'ok':
        for ax in f.axes:
            e['axes'].append({'title': ax.get_title(), 'boxes': box_data(ax, seen[ax])})
    ev.append(e)
    plt.close('all')


def box_data(ax, bp):
    labels = [t.get_text() for t in ax.get_xticklabels()]
    labels += [''] * (len(bp['boxes']) - len(labels))
    res = []
    for n, b, m in zip(labels, bp['boxes'], bp['medians']):
        y = b.get_ydata() if hasattr(b, 'get_ydata') else b.get_path().vertices[:, 1]
        res.append([n, fix(min(y), 1000), fix(m.get_ydata()[0], 1000), fix(max(y), 1000)])
    return res


def sc_print(ev, rng):
    l = evaluation.ExpLauncher()
    for params in [None, {'axes.titlesize': 'large'}, {'font.size': 14, 'lines.linewidth': 3}]:
        before = dict(l.plot_parms)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with matplotlib.rc_context():
                if params is None:
                    out, _ = outcome(l.set_matplotlib_params_for_print)
                else:
                    out, _ = outcome(l.set_matplotlib_params_for_print, params=params)
                want = dict(before, **(params or {}))
                rows = []
                for k in ('font.size', 'axes.titlesize', 'xtick.labelsize', 'lines.linewidth', 'savefig.pad_inches'):
                    if k in want:
                        rows.append([k, str(matplotlib.rcParams[k]), str(matplotlib.rcsetup.validators[k](want[k])
                                    if hasattr(matplotlib.rcsetup, 'validators') else want[k])])
                    else:
                        rows.append([k, '', ''])
        rows = [[a, num_text(b), num_text(c)] for a, b, c in rows]
        ev.append({'op': 'print', 'out': out, 'set': rows, 'kept': before == dict(l.plot_parms)})


def num_text(s):
    try:
        return repr(float(s))
    except ValueError:
        return s


def axes_for(rng):
    """Some axes that are not the current ones, or None."""
    plt.close('all')
    if rng.random() < .5:
        f, axs = plt.subplots(1, 2)
        plt.sca(axs[0])
        return axs[1], axs[0]
    plt.figure()
    return None, None


def data(rng, n=None):
    n, k = n or rng.randint(1, 6), rng.randint(1, 5)
    return [[rng.randint(-30, 30) for _ in range(k)] for _ in range(n)]


def sc_curve(ev, rng):
    for _ in range(6):
        given, other = axes_for(rng)
        d = data(rng)
        xs = sorted(rng.sample(range(-50, 50), len(d)))
        kw = {}
        if rng.random() < .6:
            kw['x'] = rng.choice([list, np.array])(xs)
        else:
            xs = list(range(len(d)))
        style = rng.choice(['fill', 'bar', 'both', 'none', None])
        if style:
            kw['var_style'] = style
        var = rng.random() < .8
        if not var:
            kw['var'] = False
        color = rng.choice([None, None, '#ED1B23', 'black'])
        if color:
            kw['color'] = color
        label = rng.choice([None, 'some'])
        if label:
            kw['label'] = label
        if given is not None:
            kw['ax'] = given
        arr = rng.choice([list, np.array])(d) if 'x' in kw else np.array(d)
        out, r = outcome(plot_var, arr, **kw)
        e = {'op': 'curve', 'out': out, 'data': d, 'xs': [1000 * x for x in xs], 'style': style or 'fill', 'var': var,
             'pts': [], 'fill': [], 'bars': [], 'axes': False, 'colour': False}
        if out == 'ok':
            ax = given or plt.gca()
            line = r[0]
            x, y = line.get_data()
            e['pts'] = [[fix(a, 1000), fix(b, 1000)] for a, b in zip(x, y)]
            a = areas(ax)
            if a:
                e['fill'] = fill_at(a[0], x, y)
            c = [c for c in ax.containers if sort_of(c) == 'ErrorbarContainer']
            if c:
                e['bars'] = bars_at(c[0], x, y)
            e['axes'] = bool(line.axes is ax and (other is None or not (other.lines or other.collections))
                             and len(a) <= 1 and len(c) <= 1)
            e['colour'] = bool(color is None or to_rgba(line.get_color()) == to_rgba(color)) and all(
                np.allclose(f.get_facecolor()[0][:3], to_rgba(line.get_color())[:3]) for f in a)
        ev.append(e)


def sc_box(ev, rng):
    for _ in range(5):
        given, other = axes_for(rng)
        d = [data(rng, 1)[0] for _ in range(rng.randint(1, 5))]
        kw = {'ax': given} if given is not None else {}
        names = ['p%d' % i for i in range(len(d))]
        rng.shuffle(names)
        labels = rng.random() < .6
        if labels:
            kw['xticklabels'] = names
        for k in ('color', 'median_color'):
            if rng.random() < .5:
                kw[k] = rng.choice(['#1f82f9', '#bb0c36', 'black'])
        if rng.random() < .5:
            kw['showfliers'] = False
        out, r = outcome(boxplot, [list(x) for x in d], **kw)
        e = {'op': 'box', 'out': out, 'data': d, 'boxes': [], 'axes': False, 'colour': False,
             'labels': names if labels else [str(i + 1) for i in range(len(d))]}
        if out == 'ok':
            ax = given or plt.gca()
            e['boxes'] = box_data(ax, r)
            e['axes'] = bool(all(b.axes is ax for b in r['boxes']) and (other is None or not other.lines))

            def has(part, c):
                return all(to_rgba(b.get_color()) == to_rgba(c) for b in r[part])
            e['colour'] = (has('boxes', kw.get('color', '#2463a4')) and has('whiskers', kw.get('color', '#2463a4'))
                           and has('medians', kw.get('median_color', '#ED1B23')))
        ev.append(e)


def labels_for(rng, n, beliefs):
    if rng.random() < .3:
        return None
    if beliefs and rng.random() < .2:
        n = max(0, n + rng.choice([-1, 1]))
        if n == 0:
            n = 3
    return ['l%d' % rng.randint(0, 9) for _ in range(n)]


def sc_mesh(ev, rng, beliefs):
    for _ in range(5):
        given, other = axes_for(rng)
        n, k = rng.randint(1, 6), rng.randint(1, 6)
        sign = rng.choice([1, -1, 0])
        d = [[rng.randint(-30, 30) if sign == 0 else sign * rng.randint(0, 30) for _ in range(k)] for _ in range(n)]
        xl, yl = labels_for(rng, k, beliefs), labels_for(rng, n, beliefs)
        kw = {'ax': given} if given is not None else {}
        if rng.random() < .3:
            kw['cmap'] = plt.cm.Greens
        if xl is not None:
            kw['states' if beliefs else 'xticklabels'] = xl
        if yl is not None:
            kw['ylabels' if beliefs else 'yticklabels'] = yl
        if beliefs and rng.random() < .5:
            kw['xlabels_rotation'] = 45
        fun = plot_beliefs if beliefs else pcolormesh
        out, r = outcome(fun, np.array(d) / 4., **kw)
        e = {'op': 'mesh', 'beliefs': beliefs, 'out': out, 'data': d,
             'xl': {'is': xl is not None, 'l': xl or []}, 'yl': {'is': yl is not None, 'l': yl or []},
             'cells': [], 'lim': [], 'axes': False, 'xt': [], 'xs': [], 'yt': [], 'ys': []}
        if out == 'ok':
            ax = given or plt.gca()
            a = np.array(r.get_array()).reshape(n, k)
            e['cells'] = [[fix(x, 4) for x in row] for row in a]
            e['lim'] = [fix(x, 1000) for x in list(ax.get_xlim()) + list(ax.get_ylim())]
            e['axes'] = bool(r.axes is ax and (other is None or not other.collections)
                             and r.get_cmap().name == kw.get('cmap', r.get_cmap()).name)
            e['xt'] = [fix(x, 1000) for x in ax.get_xticks()]
            e['yt'] = [fix(x, 1000) for x in ax.get_yticks()]
            e['xs'] = [t.get_text() for t in ax.get_xticklabels()]
            e['ys'] = [t.get_text() for t in ax.get_yticklabels()]
        ev.append(e)


SIDES = ['top', 'bottom', 'left', 'right']


def sc_junk(ev, rng):
    for _ in range(4):
        plt.close('all')
        ax = plt.figure().add_subplot(1, 1, 1)
        ax.plot([0, 1], [0, 1])
        gone = rng.sample(SIDES, rng.randint(0, 4))
        names = rng.choice([None, 'x', 'y', ['x', 'y'], ['x']])
        ticks = rng.choice([None, 'x', 'y', 'xy', ['x', 'y']])
        kw = {}
        if names is not None:
            kw['ticklabels'] = names
        if ticks is not None:
            kw['ticks'] = ticks
        out, _ = outcome(remove_chartjunk, ax, gone, **kw)
        e = {'op': 'junk', 'out': out, 'gone': sorted(gone), 'names': sorted(names or []), 'ticks': sorted(ticks or []),
             'hidden': [], 'unnamed': [], 'unticked': []}
        if out == 'ok':
            ax.figure.canvas.draw()
            e['hidden'] = sorted(s for s in SIDES if not ax.spines[s].get_visible())
            for k, a in (('x', ax.xaxis), ('y', ax.yaxis)):
                if not any(t.get_text() for t in a.get_ticklabels()):
                    e['unnamed'].append(k)
                if a.get_ticks_position() == 'none' or not any(
                        t.tick1line.get_visible() or t.tick2line.get_visible() for t in a.get_major_ticks()):
                    e['unticked'].append(k)
        ev.append(e)


def sc_bar(ev, rng):
    for _ in range(20):
        todo = rng.choice([1, 2, 3, 7, 10, 50, 64, 99, 100])
        done = rng.choice([0, todo, rng.randint(0, todo), rng.randint(0, todo)])
        size = rng.choice([50, 50, 1, 10, 33])
        counted = rng.random() < .6
        kw = {}
        if size != 50:
            kw['size'] = size
        if not counted:
            kw['count'] = False
        out, s = outcome(progress_bar, done, todo, **kw)
        e = {'op': 'bar', 'out': out, 'done': done, 'todo': todo, 'size': size, 'counted': counted, 'filled': -1,
             'empty': -1, 'percent': -1, 'count': []}
        if out == 'ok':
            inside, _, after = s.partition(']')
            bar, _, p = inside[1:].partition(' ')
            e['filled'] = len(bar) - len(bar.lstrip('#'))
            e['empty'] = len(bar.lstrip('#')) if set(bar.lstrip('#')) <= {'.'} else -1
            e['percent'] = int(p.strip().rstrip('%'))
            e['count'] = [int(x) for x in after.split('/')] if after.strip() else []
        ev.append(e)


k = 4 if THOROUGH else 1
for i in range(3 * k):
    for s in ('preference', 'multitask', 'pomcp'):
        R.scenario('%s%d' % (s, i), lambda ev, rng: sc_launcher(ev, rng, s), timeout=120)
R.scenario('print', sc_print)
for i in range(10 * k):
    R.scenario('curve%d' % i, sc_curve, timeout=60)
    R.scenario('box%d' % i, sc_box, timeout=60)
    R.scenario('mesh%d' % i, lambda ev, rng: sc_mesh(ev, rng, False), timeout=60)
    R.scenario('beliefs%d' % i, lambda ev, rng: sc_mesh(ev, rng, True), timeout=60)
    R.scenario('bar%d' % i, sc_bar)
    R.scenario('junk%d' % i, sc_junk, timeout=60)
R.close()
