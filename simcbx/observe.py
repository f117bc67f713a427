"""Properties about watching a run: verbosity, tracking, plots; and the torch backend."""
import copy
import functools
import io
import math
import sys

import numpy as np
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba  # noqa: F401

import cbx.plotting as cp

from . import model
from .checks import Check, register, bad, gen_case
from .faults import outcome, first_diff
from . import gen
from .gen import ALL
from .steps import gen_prox, gen_resample
from .twins import Recorder, gen_reg_sched
from .util import Violation, HarnessError, pick, same, arr, h64
from .world import World, Oracle, DYNS, make_exc, initial_x


class Screen:
    """stands in for plt.pause and plt.savefig; may fail"""

    def __init__(self, faults, stats):
        self.faults = {f['n']: f for f in faults if f['at'] == 'screen'}
        self.n = 0
        self.stats = stats
        self.look = None
        self.frames = []
        self.exc = None

    def _hit(self, what):
        f = self.faults.get(self.n)
        self.n += 1
        if f is not None:
            self.stats['fault.%s_raises' % what] += 1
            self.exc = make_exc(f['exc'], what)
            raise self.exc

    def pause(self, wait):
        self.frames.append(('pause', self.look() if self.look else None))
        self._hit('pause')

    def savefig(self, fname, **kw):
        self.frames.append(('save', fname, kw))
        self._hit('savefig')

    def __enter__(self):
        self.old = plt.pause, plt.savefig
        plt.pause, plt.savefig = self.pause, self.savefig
        return self

    def __exit__(self, *a):
        plt.pause, plt.savefig = self.old


def new_ax():
    return matplotlib.figure.Figure().add_subplot()


class Ax:
    """a matplotlib axes that remembers what was drawn"""

    def __init__(self):
        self.ax = new_ax()
        self.contours, self.plots = [], []
        f, p = self.ax.contourf, self.ax.plot

        def contourf(*a, **k):
            self.contours.append([np.array(v) for v in a[:3]])
            return f(*a, **k)

        def plot(*a, **k):
            self.plots.append([np.array(v) for v in a[:2]])
            return p(*a, **k)
        self.ax.contourf, self.ax.plot = contourf, plot


class Evals:
    """evaluations for drawing are not evaluations of the run"""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.obj.log = False

    def __exit__(self, *a):
        self.w.obj.log = True


PLOT_DYNS = ['CBO', 'CBOMemory', 'AdamCBO', 'PSO', 'CBS', 'PolarCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO',
             'RegCombinationCBO']


def gen_plot(rng, c):
    d = c['d'][0]
    p = {'run': int(rng.integers(c['M'])), 'consensus': bool(rng.random() < .7), 'drift': bool(rng.random() < .7),
         'energy': bool(rng.random() < .6)}
    if rng.random() < .2:
        p['args'] = {'particle_args': {'s': 7., 'marker': 'x'}, 'consensus_args': {'s': 9.}, 'drift_args': {'width': .002, 'scale': 2.}}
    if d > 1:
        i = rng.permutation(d)[:2]
        p['dims'] = [int(i[0]), int(i[1])] if rng.random() < .7 else None
    return p


class LivePlot(Oracle):
    """plots each step as the documentation does and compares what is shown with the state"""

    def __init__(self, judge=True, faults=()):
        self.judge = judge
        self.faults = faults

    def on_init(self, w):
        p = w.case['plot']
        self.ax = Ax()
        self.screen = Screen(self.faults, w.stats)
        self.r = p['run']
        self.d = w.case['d'][0]
        self.dims = p.get('dims') or [0, 1]
        args = {'num_pts': 5}
        args.update(p.get('range') or {})
        with Evals(w):
            self.p = w.lib(cp.PlotDynamic, w.dyn, num_run=self.r, dims=p.get('dims'), ax=self.ax.ax, plot_consensus=p['consensus'],
                           plot_drift=p['drift'], eval_energy_1d=p['energy'], objective_args=args, **copy.deepcopy(p.get('args') or {}))
            w.lib(self.p.init_plot)
            style(self.p, p)
        self.c = self.q = None
        if self.judge:
            self.particles(w, arr(w.dyn.x), 'initially')
            contour(w, self.ax, self.r, self.d, self.dims, args)

    def on_step(self, w, st):
        with Screen([], w.stats) as s, Evals(w):
            s.faults, s.n = self.screen.faults, self.screen.n
            try:
                w.lib(self.p.update, wait=.01)
            except BaseException as e:
                if s.exc is None:
                    raise
                if e is not s.exc:
                    bad('changed', 'showing the plot raised %r, the caller was given %r', s.exc, e)
            self.screen.n = s.n
            if not s.frames:
                bad('unshown', 'update() did not show the plot')
        if not self.judge:
            return
        self.particles(w, st.S0.x, 'step %d' % w.steps)
        plan = model.plan_step(st, w.case)
        live = self.r in st.active
        if live:
            row = st.active.index(self.r)
            self.c = st.S1.consensus[row][:, self.pick()] if st.S1.get('consensus') is not None else None
            if plan.error or plan.ambiguous or plan.repeated:
                self.q = None
            else:
                P = plan.P[self.r]
                dr = st.S1.drift
                if dr is not None and dr.shape[1] == len(P) and self.d > 1:
                    self.q = st.S0.x[self.r][P][:, self.dims], -dr[row][:, self.dims]
                else:
                    self.q = None
        if w.case['plot']['consensus'] and self.c is not None:
            got = arr(self.p.scc.get_offsets())
            want = self.c if self.d > 1 else np.stack([self.c[:, 0], np.zeros(len(self.c))], axis=-1)
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=0):
                bad('consensus', 'step %d shows the consensus %s, it is %s', w.steps, got.tolist(), want.tolist())
            w.stats['reach.consensus_shown'] += 1
        if w.case['plot']['drift'] and self.q is not None:
            arrows(w, self.p.quiver, self.q, 'step %d' % w.steps)

    def pick(self):
        return [0] if self.d == 1 else self.dims

    def particles(self, w, x, when):
        got = arr(self.p.scx.get_offsets())
        want = shown(w, x[self.r], self.r, self.d, self.dims, w.case['plot']['energy'])
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-300):
            bad('particles', '%s: shows the particles %s, they are %s', when, got.tolist(), want.tolist())
        w.stats['reach.frames_compared'] += 1


def value(w, r, v):
    """the objective of a run, with its regularisation parameter when there is one"""
    return w.obj.scalar(v) + reg_part(w, r, v)


def reg_part(w, r, v):
    lam = None
    if any(isinstance(u, dict) and u['k'] == 'reg' for u in w.case.get('sched') or []):
        lam = float(np.broadcast_to(arr(w.dyn.f.lamda), (w.case['M'], 1))[r, 0])
    return model.reg_value(w.case, v, lam)


def shown(w, x, r, d, dims, energy):
    if d > 1:
        return x[:, dims]
    y = np.array([value(w, r, v) for v in x]) if energy else np.zeros(len(x))
    return np.stack([x[:, 0], y], axis=-1)


def style(plot, p):
    a = p.get('args')
    if a is None:
        return
    got = {'s': plot.scx.get_sizes().tolist()}
    want = {'s': [7.]}
    if plot.plot_consensus:
        got['c'], want['c'] = plot.scc.get_sizes().tolist(), [9.]
    if plot.plot_drift:
        q = plot.quiver
        got['d'], want['d'] = (q.width, q.scale, q.angles, q.scale_units), (.002, 2., 'xy', 'xy')
    if got != want:
        bad('style', 'drawn with %s, requested %s', got, want)


def arrows(w, quiver, q, when):
    got = arr(quiver.get_offsets())
    uv = np.stack([np.ma.filled(quiver.U, np.nan), np.ma.filled(quiver.V, np.nan)], axis=-1)
    k = np.argsort(q[0][:, 0], kind='stable'), np.argsort(got[:, 0], kind='stable')
    if got.shape != q[0].shape or not np.allclose(got[k[1]], q[0][k[0]], rtol=1e-12, atol=0):
        bad('arrows', '%s: arrows start at %s, the updated particles were at %s', when, got.tolist(), q[0].tolist())
    if not np.allclose(uv[k[1]], q[1][k[0]], rtol=1e-12, atol=0):
        bad('arrows', '%s: shows the arrows %s, the drift is %s', when, uv.tolist(), q[1].tolist())
    w.stats['reach.arrows_compared'] += len(got)


def contour(w, ax, r, d, dims, args):
    lo, hi = args.get('x_min', -1.), args.get('x_max', 1.)
    n = args['num_pts']
    if d == 1:
        x, y = ax.plots[0]
        want = [value(w, r, [v]) for v in x]
        if not np.allclose(x, np.linspace(lo, hi, n)) or not np.allclose(y, want, rtol=1e-12, atol=1e-12):
            bad('graph', 'the graph of the objective is not drawn at its values')
        return
    X, Y, Z = ax.contours[0]
    ylo, yhi = args.get('y_min'), args.get('y_max')
    if not np.allclose(X[0], np.linspace(lo, hi, n)) or not np.allclose(
            Y[:, 0], np.linspace(lo if ylo is None else ylo, hi if yhi is None else yhi, n)):
        bad('range', 'the contour plot covers [%g, %g] x [%g, %g], requested %s', X.min(), X.max(), Y.min(), Y.max(), args)
    for i in range(n):
        for j in range(n):
            v = np.zeros(d)
            v[dims[0]], v[dims[1]] = X[i, j], Y[i, j]
            e = value(w, r, v)
            if not abs(e - Z[i, j]) <= 1e-9 * (1 + abs(e)):
                bad('contour', 'the contour plot shows %r at %s, the objective is %r', float(Z[i, j]), v.tolist(), e)


@register
class C19(Check):
    id = 'C19'
    quick = 6250
    thorough = 80000
    real = Check.real + ['cbx.plotting', 'matplotlib artists (Agg, not rendered)']
    stub = Check.stub + ['plt.pause', 'plt.savefig']
    rule = ('Random dynamics plotted live after every step and from the history in random order, for random runs, dimensions and options, '
            'with batches, per-run termination and a display that fails at random frames. Non-trivial: a frame was compared.')

    def gen(self, rng):
        c = gen_case(rng, dyns=PLOT_DYNS, multi_d=False, x_none=.05, max_steps=6)
        c['kw'].pop('sigma_indep', None)    # the drift belongs to positions that are not in the history
        c['obj'].update(scale=1., offset=0.)
        c['plot'] = gen_plot(rng, c)
        if rng.random() < (.4 if c['dyn'] == 'RegCombinationCBO' else .1):
            gen_reg_sched(rng, c)
        if rng.random() < .5:
            c['plot']['range'] = {'x_min': float(pick(rng, [-2., 0., -.5])), 'x_max': float(pick(rng, [1., 3.]))}
            if c['d'][0] > 1 and rng.random() < .6:
                c['plot']['range'].update(y_min=float(pick(rng, [-1., 0.])), y_max=float(pick(rng, [.5, 2.])))
        c['track'] = {'names': pick(rng, [['x', 'consensus', 'drift'], ['drift', 'x', 'consensus'], ['x', 'consensus'], ['x', 'drift'], ['x']], [6, 1, 3, 1, 1])}
        c['given'] = bool(rng.random() < .1)
        c['freq'] = int(pick(rng, [1, 2, 3]))
        c['save'] = bool(rng.random() < .5)
        c['faults'] = []
        if rng.random() < .4:
            c['faults'] = [{'at': 'screen', 'n': int(rng.integers(0, 12)), 'exc': pick(rng, ['OSError', 'KeyboardInterrupt', 'RuntimeError'])}
                           for _ in range(2)]
        c['mode'] = 'loop'
        c['order'] = int(rng.integers(1 << 30))
        return c

    def run(self, case, stats):
        w = World(case, [LivePlot(faults=case['faults'])], stats)
        w.steps_log = []
        log = StepLog()
        w.oracles.append(log)
        w.run()
        self.history(w, case, stats, log)
        return w.signature(), w.simtime(), True

    def history(self, w, case, stats, log):
        h = w.dyn.history
        T = len(h['x']) - 1
        if T < 1:
            return
        p = case['plot']
        r, d, dims = p['run'], case['d'][0], p.get('dims') or [0, 1]
        args = {'num_pts': 5}
        args.update(p.get('range') or {})
        drift = p['drift'] and 'drift' in h
        X = h['x']
        if case['given']:       # the particles to show are given, in place of the saved ones
            X = [v + .5 for v in h['x']]
        ax = Ax()
        with Evals(w):
            H = w.lib(cp.PlotDynamicHistory, w.dyn, num_run=r, dims=p.get('dims'), ax=ax.ax, plot_consensus=p['consensus'],
                      plot_drift=p['drift'], particles=X if case['given'] else None, eval_energy_1d=p['energy'], objective_args=args, **copy.deepcopy(p.get('args') or {}))
        style(H, p)
        contour(w, ax, r, d, dims, args)

        def compare(i, when):
            got = arr(H.scx.get_offsets())
            want = shown(w, X[i][r], r, d, dims, p['energy'])
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-300):
                bad('history', '%s, frame %d: shows the particles %s, they were %s', when, i, got.tolist(), want.tolist())
            st, plan = log.steps[i]
            if r not in st.active:
                return
            row = st.active.index(r)
            if p['consensus'] and 'consensus' in h:
                c = st.S1.consensus[row]
                want = c[:, dims] if d > 1 else np.stack([c[:, 0], np.zeros(len(c))], axis=-1)
                got = arr(H.scc.get_offsets())
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=0):
                    bad('history', '%s, frame %d: shows the consensus %s, it was %s', when, i, got.tolist(), want.tolist())
            if drift and d > 1 and not (plan.error or plan.ambiguous or plan.repeated):
                P = plan.P[r]
                arrows(w, H.quiver, (arr(X[i])[r][P][:, dims], -st.S1.drift[row][:, dims]), '%s, frame %d' % (when, i))
            stats['reach.history_frames_compared'] += 1

        with Evals(w):
            for i in np.random.Generator(np.random.Philox(case['order'])).integers(0, T, min(T, 4)):
                w.lib(H.plot_at_ind, int(i))
                compare(int(i), 'plot_at_ind')
        with Screen(case['faults'], stats) as s, Evals(w):
            save = {'fname': 'frame', 'dpi': 50} if case['save'] else None
            at = []

            def look():
                t = H.ax.get_title()
                at.append(t)
                i = int(t.rsplit(' ', 1)[1])
                s.stats['reach.frames_compared'] += 1
                compare(i, 'run_plots')
                return i
            s.look = look
            try:
                w.lib(H.run_plots, freq=case['freq'], wait=.01, save_args=save)
                done = True
            except Violation:
                raise
            except BaseException as e:
                if s.exc is None:
                    raise
                if e is not s.exc:
                    bad('changed', 'showing the plot raised %r, the caller was given %r', s.exc, e)
                done = False
            want = []
            for i in range(0, T, case['freq']):
                want.append(('pause', i))
                if save:
                    want.append(('save', 'frame%d.png' % i, {'dpi': 50}))
            if not done:
                want = want[:len(s.frames)]
            elif s.exc is not None:
                bad('swallowed', 'showing the plot raised %r, but run_plots went on', s.exc)
            if s.frames != want:
                bad('frames', 'run_plots(freq=%d) over %d steps showed %s', case['freq'], T, s.frames)
            if not done:
                s.faults = {}
                s.frames = []
                w.lib(H.run_plots, freq=case['freq'], wait=.01, save_args=save)
                if len([f for f in s.frames if f[0] == 'pause']) != len(range(0, T, case['freq'])):
                    bad('frames', 'run_plots() after a failure showed %s', s.frames)


class StepLog(Oracle):
    def __init__(self):
        self.steps = []

    def on_step(self, w, st):
        self.steps.append((st, model.plan_step(st, w.case)))


# ---------------------------------------------------------------------------------------
class FaultyOut(io.StringIO):
    def __init__(self, n, exc):
        super().__init__()
        self.left, self.exc, self.made = n, exc, None

    def write(self, s):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.made = make_exc(self.exc, 'write')
                raise self.made
        return super().write(s)


@register
class C17(Check):
    id = 'C17'
    extra = ('reg', 'prox', 'sched', 'post')
    quick = 10000
    thorough = 150000
    real = Check.real + ['cbx.plotting']
    stub = Check.stub + ['stdout', 'plt.pause']
    rule = ('The same seeded run with and without observers: verbosity, print interval, tracked quantities, consensus evaluation points, '
            'live plots; stdout and the display fail at random and the run is continued. Non-trivial: some observer was on and a step taken.')

    def gen(self, rng):
        c = gen_case(rng, x_none=.2, max_steps=7)
        if rng.random() < .5:
            c['sampler'] = None
            c['seed'] = int(rng.integers(1000))
        o = {'verbosity': int(pick(rng, [0, 1, 2, 3]))}
        names = ['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean', 'best_energy', 'f_min', 'alpha', 'num_f_eval']
        k = int(rng.integers(0, 7))
        o['track'] = {'names': [names[i] for i in rng.permutation(len(names))[:k]], 'save_int': int(pick(rng, [1, 2, 3]))}
        o['print_int'] = pick(rng, [None, 1, 2, 5])
        o['points'] = bool(rng.random() < .3)
        if len(c['d']) == 1 and rng.random() < .25:
            o['plot'] = gen_plot(rng, c)
            o['screen'] = int(rng.integers(0, 6)) if rng.random() < .5 else None
        elif rng.random() < .5:
            o['out'] = int(rng.integers(0, 60))
            o['verbosity'] = max(o['verbosity'], 1)
            c['mode'] = 'optimize'
            o['exc'] = pick(rng, ['OSError', 'KeyboardInterrupt', 'ValueError'])
        c['obs'] = o
        if o.get('out') is None and rng.random() < .12:
            c['resample'] = gen_resample(rng, c)    # (reports to the output)
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        o = case['obs']
        alone = o['track']['names'][:1] if o.get('out') is None else []
        base = World(dict(case, track={'names': alone, 'save_int': o['track']['save_int']}), [], stats)
        base.run()
        c = dict(case, verbosity=o['verbosity'], track=o['track'], print_int=o['print_int'])
        oracles = []
        if o.get('plot'):
            c['plot'] = o['plot']
            fl = [] if o.get('screen') is None else [{'at': 'screen', 'n': o['screen'], 'exc': 'OSError'}]
            oracles = [LivePlot(judge=False, faults=fl)]
        w = World(c, oracles, stats, **({'save_consensus_eval_points': True} if o['points'] else {}))
        out = FaultyOut(o.get('out'), o.get('exc', 'OSError'))
        if o.get('out') is None:
            w.run()
        else:
            old, sys.stdout = sys.stdout, out
            try:
                w.build()
                try:
                    w.drive()
                except (Violation, HarnessError) as e:
                    if out.made is None or not isinstance(e, Violation) or e.__cause__ is not out.made:
                        raise
                except BaseException as e:
                    if out.made is None or e is not out.made:
                        raise
                else:
                    if out.made is not None:
                        bad('swallowed', 'stdout raised %r, but the run went on', out.made)
                if out.made is not None:
                    stats['fault.stdout_raises'] += 1
                    w.drive()
            finally:
                sys.stdout = old
        a, b = outcome(base), outcome(w)
        for q in (a, b):
            # (a quantity tracked alone has the same history as together with others)
            for k in [k for k in q if k.startswith('history.') and k[8:].split('.')[0] not in alone]:
                q.pop(k)
        if 'drift' in vars(base.dyn) and 'drift' in vars(w.dyn) and not w.case.get('plot'):
            a['drift'], b['drift'] = arr(base.dyn.drift), arr(w.dyn.drift)
        if o.get('out') is not None and any(t['k'] != 'sched' and t['k'] != 'max_it' for t in case['term']):
            for q in (a, b):
                q.pop('term_reason')
        k = first_diff(a, b)
        if k:
            bad('observed', '%s depends on the observers %s: %s, unobserved %s', k, o, np.ravel(b.get(k))[:5], np.ravel(a.get(k))[:5])
        return h64(base.signature(), o), base.simtime() + w.simtime(), w.steps > 0

    def shrink(self, case):
        from . import shrink
        o = case['obs']
        for k, v in (('plot', None), ('out', None), ('points', False), ('verbosity', 0), ('print_int', None)):
            if o.get(k) not in (v, None):
                d = copy.deepcopy(case)
                d['obs'][k] = v
                yield d
        for i in range(len(o['track']['names'])):
            d = copy.deepcopy(case)
            d['obs']['track']['names'].pop(i)
            yield d
        for s in shrink.candidates(case):
            if not (o.get('plot') and (s['M'] != case['M'] or s['d'] != case['d'])):
                yield s


# ---------------------------------------------------------------------------------------
@functools.cache
def net_class():
    import torch

    class Module(torch.nn.Module):
        def __init__(self, sizes, bias):
            super().__init__()
            self.layers = torch.nn.ModuleList([torch.nn.Linear(a, b, bias=bias, dtype=torch.float64)
                                               for a, b in zip(sizes[:-1], sizes[1:])])

        def forward(self, x):
            for i, layer in enumerate(self.layers):
                x = layer(x)
                if i < len(self.layers) - 1:
                    x = torch.tanh(x)
            return x
    return Module


class Net:
    """a small network whose parameters are the particles, evaluated twice: with loops over lists and
    by the torch helpers of the library"""

    def __init__(self, spec):
        self.spec = spec
        rng = np.random.default_rng(spec['seed'])
        self.sizes = spec['sizes']
        self.X = rng.uniform(-1, 1, (spec['rows'], self.sizes[0]))
        k = self.sizes[-1]
        self.Y = rng.integers(0, k, spec['rows']) if spec['loss'] == 'ce' else rng.uniform(-1, 1, (spec['rows'], k))
        names, shapes = [], []
        for i in range(len(self.sizes) - 1):
            names.append('layers.%d.weight' % i)
            shapes.append((self.sizes[i + 1], self.sizes[i]))
            if spec['bias']:
                names.append('layers.%d.bias' % i)
                shapes.append((self.sizes[i + 1],))
        o = spec.get('order')
        if o is not None:
            names, shapes = [names[i] for i in o], [shapes[i] for i in o]
        self.names, self.shapes = names, shapes
        self.offsets = np.concatenate([[0], np.cumsum([int(np.prod(s)) for s in shapes])]).astype(int)
        self.d = int(self.offsets[-1])

    def out(self, w, X=None):
        X = self.X if X is None else X
        P = {n: np.array(w[self.offsets[i]:self.offsets[i + 1]]).reshape(self.shapes[i]) for i, n in enumerate(self.names)}
        L = len(self.sizes) - 1
        for i in range(L):
            X = X @ P['layers.%d.weight' % i].T
            if self.spec['bias']:
                X = X + P['layers.%d.bias' % i]
            if i < L - 1:
                X = np.tanh(X)
        return X

    def loss(self, w):
        o = self.out(w)
        if self.spec['loss'] == 'mse':
            return float(((o - self.Y) ** 2).mean())
        o = o - o.max(axis=-1, keepdims=True)
        lp = o - np.log(np.exp(o).sum(axis=-1, keepdims=True))
        return float(-lp[np.arange(len(self.Y)), self.Y].mean())

    def module(self, flat=None):
        import torch
        m = net_class()(self.sizes, self.spec['bias'])
        if flat is not None:
            with torch.no_grad():
                P = dict(m.named_parameters())
                for i, n in enumerate(self.names):
                    P[n].copy_(torch.tensor(flat[self.offsets[i]:self.offsets[i + 1]]).reshape(P[n].shape))
        return m

    def torch_side(self, w, flats):
        """(objective, initial particles) built by the helpers"""
        import torch
        import cbx.utils.torch_utils as tu
        models = [self.module(f) for f in flats.reshape(-1, self.d)]
        x0 = w.lib(tu.flatten_parameters, models, self.names)
        named = self.spec.get('order') is not None or self.spec['named']
        self.pprop = w.lib(tu.get_param_properties, models, *([self.names] if named else []))
        X, Y = torch.tensor(self.X), torch.tensor(self.Y)
        loss = torch.nn.CrossEntropyLoss() if self.spec['loss'] == 'ce' else torch.nn.MSELoss()
        self.model = models[0]

        def f(x):
            return torch.stack([tu.eval_losses(X, Y, loss, self.model, run, self.pprop) for run in x])
        return f, x0.reshape(flats.shape)

    def check_end(self, w):
        """outputs and accuracy of the best particles"""
        import torch
        import cbx.utils.torch_utils as tu
        best = w.dyn.best_particle
        o = w.lib(tu.eval_models, torch.tensor(self.X), self.model, best, self.pprop)
        for r, v in enumerate(arr(best)):
            if o.shape[0] != len(best) or not np.allclose(arr(o[r]), self.out(v), rtol=1e-8, atol=1e-8):
                bad('net', 'eval_models gives %s for the best particle of run %d, the network gives %s', arr(o).ravel()[:6].tolist(), r,
                    self.out(v).ravel()[:6].tolist())
            if self.spec['loss'] != 'ce':
                continue
            cut = self.spec['rows'] // 2 + 1
            loader = [(torch.tensor(self.X[i:j]), torch.tensor(self.Y[i:j])) for i, j in ((0, cut), (cut, len(self.X))) if j > i]
            acc = float(w.lib(tu.eval_acc, self.model, best[r], self.pprop, loader))
            own = self.out(v)
            top = np.sort(own, axis=-1)
            if own.shape[-1] > 1 and (top[:, -1] - top[:, -2]).min() < 1e-9:
                continue
            if abs(acc - float((own.argmax(axis=-1) == self.Y).mean())) > 1e-6:
                bad('net', 'eval_acc of the best particle of run %d is %s, %s of the answers are right', r, acc,
                    float((own.argmax(axis=-1) == self.Y).mean()))


class TorchWorld(World):
    def kwargs(self):
        import torch
        import cbx.utils.torch_utils as tu
        kw = super().kwargs()
        if kw.get('x') is not None:
            kw['x'] = torch.tensor(kw['x'])
        if isinstance(kw.get('alpha'), np.ndarray):
            kw['alpha'] = torch.tensor(kw['alpha'])
        if self.case['dyn'] == 'PolarCBO':
            kw['compute_consensus'] = tu.compute_polar_consensus_torch
        return kw

    def default_post(self):
        import cbx.utils.torch_utils as tu
        return tu.post_process_default_torch()

    def build(self):
        import torch
        import cbx.utils.torch_utils as tu
        from .world import WrapPost
        c = self.case
        kw = self.kwargs()
        self.sampler.as_torch = True
        g = self.obj.callable(kw['f_dim'])

        def f(x):
            return torch.tensor(g(x.detach().numpy()))
        if c.get('net') is not None:
            self.net = Net(c['net'])
            f, x = self.net.torch_side(self, initial_x(c['x'], c['M'], c['N'], c['d']))
            if 'x' in kw:
                kw['x'] = x.reshape(kw['x'].shape)
        style = c.get('style', 'class')
        dt = torch.get_default_dtype()
        try:
            if style == 'own':          # draws and initial particles of the library's own source
                torch.manual_seed(c['seed'])
                torch.set_default_dtype(torch.float64)
                s = c.get('source')
                kw['sampler'] = tu.exponential_torch('cpu') if s == 'exponential' else tu.standard_normal_torch('cpu') if s else None
            if style == 'low':          # the parts handed to the numpy dynamic one by one
                kw.setdefault('compute_consensus', tu.compute_consensus_torch)
                kw.setdefault('post_process', self.default_post())
                kw.update(norm=tu.norm_torch, copy=torch.clone)
                cls = DYNS[c['dyn']]
            else:
                cls = tu.to_torch_dynamic(DYNS[c['dyn']])
                if c.get('device'):
                    kw['device'] = c['device']
            self.made = []
            if style == 'own':
                if kw['sampler'] is None:       # the default, recorded
                    cls = type('Recorded', (cls,), {'set_array_backend_funs': self.recorded(cls)})
                else:
                    kw['sampler'] = self.record(kw['sampler'])
            self.dyn = self.lib(cls, f, **kw)
            self.x0 = arr(self.dyn.x)
        finally:
            torch.set_default_dtype(dt)
        self.dyn.post_process = WrapPost(self, self.dyn.post_process)
        for o in self.oracles:
            o.on_init(self)
        return self.dyn

    def recorded(self, cls):
        world = self

        def set_array_backend_funs(dyn, *args, **kw):
            cls.set_array_backend_funs(dyn, *args, **kw)
            dyn.sampler = world.record(dyn.sampler)
        return set_array_backend_funs

    def record(self, sampler):
        import torch

        def draw(size=None):
            dt = torch.get_default_dtype()
            torch.set_default_dtype(torch.float64)
            try:
                z = sampler(size=size)
            finally:
                torch.set_default_dtype(dt)
            if not isinstance(z, torch.Tensor) or tuple(z.shape) != tuple(size):
                bad('draws', 'asked for draws of shape %s, got %s', tuple(size), getattr(z, 'shape', type(z)))
            self.made.append(arr(z))
            return z
        return draw

    def make_sched(self):
        import cbx.scheduler as cs
        import cbx.utils.torch_utils as tu
        s = self.case.get('sched')
        if s == 'effective':
            return tu.effective_sample_size()
        if isinstance(s, list):
            return cs.scheduler([
                cs.multiply(name=u.get('name', 'alpha'), factor=u['factor'], maximum=u.get('maximum', 1e5)) if u['k'] == 'multiply' else
                tu.effective_sample_size(eta=u['eta'], maximum=u.get('maximum', 1e5), solve_max_it=u.get('solve_max_it', 15)) for u in s])
        return super().make_sched()


class NetWorld(World):
    def pre_build(self):
        if self.case.get('net') is not None:
            net = Net(self.case['net'])
            self.obj.scalar = net.loss


@register
class C18(Check):
    id = 'C18'
    quick = 6250
    thorough = 100000
    real = Check.real + ['cbx.utils.torch_utils']
    rule = ('The same run on numpy arrays and on torch tensors, with the same draws, batches, termination schedules, resamplings, '
            'tracked quantities and injected answers; compared after every step. Objectives are functions of the particles or losses of '
            'networks whose flat parameters are the particles. Tensor dynamics are built as classes, part by part, or with the '
            'library\'s own random source (recorded). Non-trivial: a step was taken.')

    def gen(self, rng):
        c = gen_case(rng, dyns=['CBO', 'PolarCBO', 'MirrorCBO'], tame=True, heavy_draws=False, noises=['isotropic', 'anisotropic', 'constant'], corr=False,
                     x_none=0., max_steps=6, multi_d=True, extreme_alpha=False)
        c['f_dim'] = '3D'
        if c['dyn'] == 'PolarCBO' and c['kw']['kernel'] != 'Gaussian':
            c['kw']['kernel'] = 'Gaussian'      # the others use numpy functions
        if c['dyn'] == 'MirrorCBO' and (
                model.mirror_spec(c)['name'] == 'ProjectionHyperplane' or 'center' in model.mirror_spec(c)
                or model.mirror_spec(c)['name'] == 'ProjectionStiefel'):
            c['kw']['mirrormap'] = 'ProjectionBall'
        c.pop('inst', None)
        c.pop('pp', None)
        M = c['M']
        if rng.random() < .2:
            c['sched'] = [{'k': 'multiply', 'name': pick(rng, ['alpha', 'sigma', 'dt', 'lamda']), 'factor': float(pick(rng, [1.05, 2., .5])),
                           'maximum': float(pick(rng, [1e5, 50., 1.]))} for _ in range(int(rng.integers(1, 3)))]
            if rng.random() < .4:
                c['sched'].insert(0, {'k': 'effective', 'eta': float(pick(rng, [.5, .1, .9])), 'maximum': float(pick(rng, [1e5, 10.])),
                                      'solve_max_it': int(pick(rng, [15, 5]))})
        if rng.random() < .25 and c['dyn'] != 'MirrorCBO':
            n = {'sizes': pick(rng, [[1, 1], [2, 1], [1, 2], [2, 2, 1], [1, 3, 2], [2, 2, 2], [3, 3]]), 'rows': int(rng.integers(1, 6)),
                 'bias': bool(rng.random() < .7), 'loss': pick(rng, ['mse', 'ce']), 'seed': int(rng.integers(1 << 30)),
                 'named': bool(rng.random() < .5)}
            if rng.random() < .4:
                n['order'] = [int(i) for i in rng.permutation((len(n['sizes']) - 1) * (2 if n['bias'] else 1))]
            c['net'] = n
            c['d'] = [Net(n).d]
            c['x'] = {'kind': 'uniform', 'seed': int(rng.integers(1 << 30)), 'scale': float(pick(rng, [1., 3.]))}
            c.pop('xdim', None)
        elif rng.random() < .2:
            c['faults'] = [{'at': 'sampler', 'draw': int(rng.integers(0, 5)), 'kind': 'value', 'pos': int(rng.integers(0, 40)),
                            'value': pick(rng, [math.nan, math.inf, -math.inf])}]
            if c['x']['kind'] in ('same', 'dup'):       # a zero drift, up to rounding, times infinity
                c['x']['kind'] = 'uniform'
        if rng.random() < .3:
            c['track'] = {'names': pick(rng, [['x', 'energy'], ['update_norm', 'consensus'], ['x', 'update_norm', 'energy', 'consensus', 'best_energy'],
                                              ['drift', 'alpha'], ['drift_mean', 'num_f_eval'], ['best_particle', 't', 'it']]), 'save_int': int(pick(rng, [1, 2]))}
        if rng.random() < .25 and c['dyn'] != 'MirrorCBO':
            crits = [pick(rng, [{'k': 'at', 'at': {str(t): [int(v) for v in np.flatnonzero(rng.random(M) < .6)] for t in range(6)}},
                                {'k': 'loss', 'wait': int(rng.integers(1, 4))}, {'k': 'ensemble', 'thr': float(pick(rng, [.05, .5, 1e6]))},
                                {'k': 'consensus', 'patience': int(rng.integers(1, 4)), 'thr': float(pick(rng, [.05, .5, 1e6]))}])
                     for _ in range(int(rng.integers(1, 3)))]
            if c['dyn'] == 'PolarCBO' or len(c['d']) > 1:
                crits = [q for q in crits if q['k'] != 'consensus'] or [{'k': 'loss', 'wait': 1}]
            c['resample'] = {'crits': crits, 'sigma': float(pick(rng, [.1, 1.])), 'apply': bool(rng.random() < .2), 'best': bool(rng.random() < .5)}
        elif rng.random() < .1 and not c.get('faults'):
            gen_prox(rng, c)
            m = c.get('pp', {}).get('prox', {})
            if m.get('name') not in ('ProjectionBall', 'ProjectionSquare', 'ProjectionSimplex', 'NonsmoothBarrier', 'ElasticNet', 'L2') or 'center' in m:
                c.pop('pp', None)       # (numpy parameters, or projections that magnify rounding)
        u = rng.random()
        if u < .2 and c['dyn'] == 'CBO':
            c['style'] = 'low'
            if c.get('resample'):   # the numpy dynamic does not know how to get an array from a tensor
                c['resample']['best'] = False
            if c.get('track'):      # the caller's torch.clone copies tensors only
                c['track']['names'] = pick(rng, [['x', 'energy'], ['update_norm', 'consensus'], ['best_particle', 'drift']])
        elif u < .4 and not c.get('faults'):
            c['style'] = 'own'
            c['seed'] = int(rng.integers(1 << 30))
            c['source'] = pick(rng, [None, 'normal', 'exponential'])
            if c['dyn'] != 'MirrorCBO' and c.get('net') is None and len(c['d']) == 1 and rng.random() < .5:
                c['x'] = None
                c.pop('xdim', None)
        if c.get('style') != 'low' and rng.random() < .3:
            c['device'] = 'cpu'
        return c

    def run(self, case, stats):
        A, B = Recorder(), Recorder()
        w = TorchWorld(case, [B], stats)
        w.run()
        twin = case
        if case.get('style') == 'own':
            twin = copy.deepcopy(case)
            if case['x'] is None:
                if w.x0.shape != (case['M'], case['N'], case['d'][0]) or np.abs(w.x0).max() > 1:
                    bad('init', 'initial particles of shape %s with entries up to %s', w.x0.shape, np.abs(w.x0).max())
                twin['x'] = {'kind': 'explicit', 'x': w.x0.tolist()}
        u = NetWorld(twin, [A], stats)
        if case.get('style') == 'own':
            u.sampler.given = w.made
        u.run()
        n, amp = min(len(A.S), len(B.S)), 1.
        for k in range(n):
            if A.active[k] != B.active[k]:
                bad('active', 'step %d: active runs %s with torch, %s with numpy', k, B.active[k], A.active[k])
            if case['dyn'] == 'MirrorCBO' and 'y' in A.S[k]:
                amp *= max(1., 2. / (np.linalg.norm(A.S[k]['y'], axis=-1).min() + 1e-9))
                if amp > 1e8:
                    break       # projections of points close to the center magnify the rounding of all steps
            if k and case.get('resample') is not None:
                da, db = [R.S[k - 1]['best_energy'] - R.S[k]['best_energy'] for R in (A, B)]
                size = 1e-9 * (1e-3 + np.abs(A.S[k]['best_energy']))
                with np.errstate(invalid='ignore'):
                    if (((da > 0) != (db > 0)) & (np.abs(da) < size) & (np.abs(db) < size)).any():
                        break       # rounding decides whether the loss has improved
            for key in ('x', 'energy', 'best_energy', 'best_particle', 'consensus', 'update_diff', 'alpha', 'num_f_eval', 'f_min', 'it', 't', 'sigma', 'dt', 'lamda'):
                if key in A.S[k]:
                    self.compare(u, 'step %d: %s' % (k, key), key, A.S[k][key], B.S[k].get(key), A.S[k]['x'])
        else:
            if len(A.S) != len(B.S):
                bad('steps', '%d steps with torch, %d with numpy', len(B.S), len(A.S))
            if case.get('resample') is not None and n:
                ra, rb = u.resampling, w.resampling
                if not np.array_equal(ra.num_resampling, rb.num_resampling):
                    bad('resampled', 'resamplings %s with torch, %s with numpy', rb.num_resampling, ra.num_resampling)
                if hasattr(ra, 'best_consensus_energy'):
                    self.compare(u, 'best_consensus_energy', '', ra.best_consensus_energy, arr(rb.best_consensus_energy), ra.best_consensus)
            ha, hb = u.dyn.history, w.dyn.history
            if list(ha) != list(hb):
                bad('history', 'history of %s with torch, of %s with numpy', list(hb), list(ha))
            for name in ha:
                if len(ha[name]) != len(hb[name]):
                    bad('history', '%d entries of %s with torch, %d with numpy', len(hb[name]), name, len(ha[name]))
                for i, (a, b) in enumerate(zip(ha[name], hb[name])):
                    if name == 'particle_idx':      # indices: what do they select
                        probe = np.arange(case['M'] * case['N']).reshape(case['M'], case['N'])
                        a, b = probe[a], probe[b]
                    self.compare(u, 'entry %d of %s' % (i, name), {'update_norm': 'update_diff', 'drift': 'update_diff', 'drift_mean': 'update_diff'}.get(name, name),
                                 arr(a), arr(b), u.dyn.x)
            if case.get('mode') == 'optimize':
                a, b = arr(u.result), arr(w.result)
                self.compare(u, 'the result', 'best_particle' if a.shape == u.dyn.best_particle.shape else '', a, b, a)
            if case.get('net') is not None:
                w.net.check_end(w)
        return h64(u.signature()), u.simtime() + w.simtime(), n > 0

    def compare(self, u, what, key, a, b, x):
        if b is None or a.shape != b.shape:
            bad('shape', '%s has shape %s with torch, %s with numpy', what, None if b is None else b.shape, a.shape)
        if key == 'best_particle':      # any of several that are equally good
            b = b.copy()
            for r in range(len(a)):
                u0, u1 = u.obj.scalar(a[r].ravel()), u.obj.scalar(b[r].ravel())
                if abs(u0 - u1) <= 1e-9 * (abs(u0) + abs(u1)):
                    b[r] = a[r]
        fin = np.isfinite(a)
        s = np.abs(a[fin]).max(initial=1e-3)
        if key == 'update_diff':
            s = max(s, np.abs(x[np.isfinite(x)]).max(initial=0.))
        if not np.array_equal(fin, np.isfinite(b)) or not np.all(np.abs(a[fin] - b[fin]) <= 1e-6 * s):
            bad('differs', '%s is %s with torch, %s with numpy', what, b.ravel()[:6].tolist(), a.ravel()[:6].tolist())
