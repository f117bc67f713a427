"""The simulated world of one case.

A case is a JSON document. Everything a run of the library depends on is decided by it:
the objective (a callback that the simulator answers point by point), the random draws
(the ``sampler`` seam), batches (their seed), termination criteria, schedulers, trackers,
post processing (callback seams) and the faults these seams inject.
"""
import contextlib
import io
import math
import os
import sys
import warnings
from collections import Counter

import numpy as np

import cbx
import cbx.correction as ccorr
import cbx.dynamics as cd
import cbx.noise as cnoise
import cbx.regularizers as creg
import cbx.scheduler as csched
import cbx.utils.objective_handling as coh
import cbx.utils.resampling as cres
import cbx.utils.termination as cterm
import cbx.dynamics.mirrorcbo as cmirror
from cbx.dynamics.mirrorcbo import ProjectionStiefel
from cbx.dynamics.pdyn import ParticleDynamic, CBXDynamic, post_process_default

from .util import Violation, Injected, InjectedBase, HarnessError, rng_for, arr, h64

DYNS = {
    'ParticleDynamic': ParticleDynamic,
    'CBXDynamic': CBXDynamic,
    'CBO': cd.CBO, 'CBOMemory': cd.CBOMemory, 'AdamCBO': cd.AdamCBO, 'PSO': cd.PSO,
    'CBS': cd.CBS, 'PolarCBO': cd.PolarCBO, 'MirrorCBO': cd.MirrorCBO,
    'DriftConstrainedCBO': cd.DriftConstrainedCBO, 'HyperSurfaceCBO': cd.HyperSurfaceCBO,
    'RegCombinationCBO': cd.RegCombinationCBO,
}
MEMORY = ('CBOMemory', 'PSO')


# ---------------------------------------------------------------------------------------
class Objective:
    """Answers every evaluation point by point, so the answer for a point does not depend
    on what it was asked together with, and logs all points asked for."""

    def __init__(self, spec, faults=(), stats=None):
        self.spec = spec
        self.X = []      # all rows asked for, in order
        self.F = []      # the answers
        self.calls = []  # (shape, first row) of each call of the callback
        self.faults = {f['row']: f for f in faults if f['at'] == 'obj'}
        self.stats = stats if stats is not None else Counter()
        self.hook = None
        self.log = True
        self.scale = float(spec.get('scale', 1.))
        self.offset = float(spec.get('offset', 0.))
        self.shift = [float(s) for s in spec.get('shift', [0.])]
        self.poison = spec.get('poison')
        self.form = getattr(self, '_' + spec['name'])

    # -- the zoo
    def _u(self, v):
        s = self.shift
        n = len(s)
        return [v[i] - s[i % n] for i in range(len(v))]

    def _quad(self, v):
        return sum(u * u for u in self._u(v))

    def _rastrigin(self, v):
        return sum(u * u + 1. - math.cos(6.283185307179586 * u) for u in self._u(v))

    def _abs(self, v):
        return sum(abs(u) for u in self._u(v))

    def _lin(self, v):
        return sum((i + 1.) * u for i, u in enumerate(self._u(v)))

    def _step(self, v):
        return math.floor(2. * sum(abs(u) for u in self._u(v))) / 2.

    def _kink(self, v):
        return max(0., max(abs(u) for u in self._u(v)) - 1.)

    def _const(self, v):
        return 0.

    def _quart(self, v):
        return sum(u * u for u in self._u(v)) ** 2

    def _well(self, v):
        return -1. / (1. + sum(u * u for u in self._u(v)))

    def scalar(self, v):
        v = [float(t) for t in v]
        for t in v:
            if t != t or t in (math.inf, -math.inf):
                return math.nan
        p = self.poison
        if p is not None:
            u = v[p.get('dim', 0) % len(v)]
            if (u > p['thr']) == bool(p.get('above', True)):
                return float(p['value'])
        return self.scale * self.form(v) + self.offset

    def one(self, v):
        i = len(self.F)
        val = None
        f = self.faults.get(i)
        if f is not None and not f.get('spent'):
            if f['kind'] == 'raise':
                f['spent'] = True
                self.stats['fault.objective_raises'] += 1
                raise make_exc(f.get('exc', 'Injected'), 'objective row %d' % i)
            # (an objective has no finite value at a point that is not finite)
            if f['kind'] == 'value' and not (math.isfinite(f['value']) and not np.isfinite(v).all()):
                self.stats['fault.objective_value_' + str(f['value'])] += 1
                val = float(f['value'])
        if val is None:
            val = self.scalar(v)
            if self.poison is not None and val == float(self.poison['value']):
                self.stats['fault.poison_region_hit'] += 1
            elif val != val:
                self.stats['fault.nonfinite_point_seen'] += 1
        if self.log:
            self.X.append(np.array(v, dtype=float).ravel())
            self.F.append(val)
        return val

    def call1(self, v):
        self.calls.append(((1,), len(self.F)))
        if self.hook is not None:
            self.hook()
        return self.one(np.asarray(v))

    def call2(self, X):
        self.calls.append((X.shape, len(self.F)))
        if self.hook is not None:
            self.hook()
        return np.array([self.one(v) for v in np.asarray(X)])

    def call3(self, X):
        self.calls.append((X.shape, len(self.F)))
        if self.hook is not None:
            self.hook()
        X = np.asarray(X)
        n = X.shape[0] * X.shape[1]
        return np.array([self.one(v) for v in X.reshape(n, -1)], dtype=float).reshape(X.shape[:2])

    def callable(self, f_dim):
        fn = {'1D': self.call1, '2D': self.call2, '3D': self.call3}[f_dim]

        def objective(x):
            return fn(x)
        return objective


MADE = []       # the exceptions raised by the simulator


def make_exc(name, what):
    e = {
        'Injected': Injected, 'InjectedBase': InjectedBase,
        'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
        'OSError': OSError, 'FloatingPointError': FloatingPointError,
        'ValueError': ValueError, 'StopIteration': StopIteration, 'RuntimeError': RuntimeError,
        'IndexError': IndexError, 'TypeError': TypeError, 'AttributeError': AttributeError,
        'LinAlgError': np.linalg.LinAlgError,
    }[name](what)
    MADE.append(e)
    del MADE[:-8]
    return e


# ---------------------------------------------------------------------------------------
class Sampler:
    """The random source. One seed fixes all draws; ``keyed`` draws are a function of the
    run and of how many draws this run has had, not of the other runs."""

    def __init__(self, spec, faults=(), stats=None, world=None):
        self.spec = spec
        self.mode = spec.get('mode', 'normal')
        self.seed = spec.get('seed', 0)
        self.rng = rng_for('draws', self.seed)
        self.draws = []
        self.count = Counter()
        self.faults = {f['draw']: f for f in faults if f['at'] == 'sampler'}
        self.stats = stats if stats is not None else Counter()
        self.world = world
        self.map = spec.get('runs')     # run index -> key (for single-run twins)
        self.as_torch = False
        self.given = None       # recorded draws to give out
        self.hook = None

    def _normal(self, shape, rng):
        z = rng.standard_normal(shape)
        m = self.mode
        if m == 'zero':
            return 0. * z
        if m == 'big':
            z = z * (10. ** rng.integers(-3, 5, size=shape))
        elif m == 'coarse':
            z = np.round(z)
        elif m == 'sign':
            z = np.sign(z)
        return z

    def __call__(self, size=None, *args, **kwargs):
        i = len(self.draws)
        if self.hook is not None:
            self.hook()
        f = self.faults.get(i)
        if f is not None and f['kind'] == 'raise' and not f.get('spent'):
            f['spent'] = True
            self.stats['fault.sampler_raises'] += 1
            raise make_exc(f.get('exc', 'Injected'), 'draw %d' % i)
        size = tuple(size) if np.ndim(size) else ((int(size),) if size is not None else ())
        if self.mode == 'keyed' and len(size) >= 2:
            dyn = self.world.dyn if self.world is not None else None
            act = getattr(dyn, 'active_runs_idx', None)
            ids = list(range(size[0])) if act is None or len(act) != size[0] else [int(a) for a in act]
            if self.world is not None and self.world.indep and self.world.before_step():
                ids = self.world.near(arr(dyn.x), [int(a) for a in act])
                if len(ids) != size[0]:
                    raise Violation('indep', 'independent noise drawn for %d runs, %d runs are close to their consensus' % (size[0], len(ids)))
            out = []
            for r in ids:
                key = r if self.map is None else self.map[r]
                c = self.count[key]
                self.count[key] += 1
                o = rng_for('keyed', self.seed, int(key), c).standard_normal(size[1:])
                bad = self.spec.get('bad', {}).get(str(key), {}).get(str(c))
                if bad is not None and o.size:
                    self.stats['fault.draw_' + bad] += 1
                    o.reshape(-1)[c % o.size] = float(bad)
                out.append(o)
            z = np.stack(out) if out else np.zeros(size)
        else:
            z = self._normal(size, self.rng)
        if self.given is not None:      # recorded elsewhere
            if i >= len(self.given) or self.given[i].shape != size:
                raise Violation('draws', 'draw %d has shape %s, recorded %s' % (i, size, self.given[i].shape if i < len(self.given) else None))
            z = self.given[i].copy()
        if f is not None and f['kind'] == 'value' and z.size:
            self.stats['fault.draw_' + str(f['value'])] += 1
            z.reshape(-1)[f.get('pos', 0) % z.size] = float(f['value'])
        self.draws.append(z.copy())
        if self.as_torch:
            import torch
            return torch.tensor(z)
        return z


# ---------------------------------------------------------------------------------------
class SchedTerm:
    """Run i stops at iteration at[i] (a caller-defined criterion)."""

    def __init__(self, at):
        self.at = np.array(at)

    def __call__(self, dyn):
        return dyn.it >= self.at


class PulseTerm:
    """Stops run i exactly at the iterations listed for it (a pause)."""

    def __init__(self, at, M):
        self.at = {int(k): v for k, v in at.items()}
        self.M = M
        self.fired = set()

    def __call__(self, dyn):
        k = int(dyn.it)
        out = np.zeros((self.M,), dtype=bool)
        if k in self.at and k not in self.fired:
            out[:] = True
            for r in self.at[k]:
                out[r] = True
            self.fired.add(k)
        return out


def build_term(t, M):
    k = t['k']
    style = t.get('style', 'inst')
    names = {'max_it': ('max-it', 'max_it', cterm.max_it_term),
             'energy_tol': ('energy-tol', 'energy_tol', cterm.energy_tol_term),
             'diff_tol': ('diff-tol', 'diff_tol', cterm.diff_tol_term),
             'max_eval': ('max-eval', 'max_eval', cterm.max_eval_term),
             'max_time': ('max-time', 'max_time', cterm.max_time_term)}
    if k == 'sched':
        return SchedTerm(t['at'])
    if k == 'pause':
        return PauseTerm(t['at'], M)
    if k == 'pulse':
        return PulseTerm(t['at'], M)
    if k == 'stagnation':
        if style == 'str':
            return t['name']
        if style == 'dict':
            return {'name': t.get('name', 'energy-stagnation'), 'patience': t['patience'], 'std_thresh': t['thr']}
        return cterm.energy_stagnation_term(patience=t['patience'], std_thresh=t['thr'])
    name, par, cls = names[k]
    if style == 'str':      # the default threshold, which v repeats
        return t['name']
    if style == 'dict':
        return {'name': t.get('name', name), par: t['v']}
    return cls(**{par: t['v']})


ARRAY_KEYS = ('a', 'A', 'center')


def to_arrays(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, list) and (k in ARRAY_KEYS or (k == 'b' and d.get('name') in ('quadric', 'Quadric'))):
            v = np.array(v, dtype=float)
        elif k == 'nk':
            v = tuple(v)
        out[k] = v
    return out


def initial_x(spec, M, N, d):
    if spec.get('per_run') is not None:
        return np.concatenate([initial_x(dict(spec, per_run=None, seed=s), 1, N, d) for s in spec['per_run']])
    rng = rng_for('x', spec.get('seed', 0))
    shape = (M, N) + tuple(d)
    kind = spec.get('kind', 'uniform')
    s = spec.get('scale', 1.)
    if kind == 'uniform':
        x = s * rng.uniform(-1, 1, shape)
    elif kind == 'cluster':
        x = s * rng.uniform(-1, 1, (M, 1) + tuple(d)) + s * 1e-3 * rng.uniform(-1, 1, shape)
    elif kind == 'dup':
        x = s * np.round(2 * rng.uniform(-1, 1, shape)) / 2
    elif kind == 'same':
        x = s * np.ones(shape) * rng.uniform(-1, 1, (M, 1) + tuple(d))
    elif kind == 'pos':
        x = s * rng.uniform(.05, .9, shape)
    elif kind == 'simplex':
        x = rng.uniform(.05, 1., shape)
        x = x / x.sum(-1, keepdims=True)
    elif kind == 'sphere':
        x = rng.standard_normal(shape)
        x = s * x / np.linalg.norm(x, axis=-1, keepdims=True)
    elif kind == 'int':
        x = np.round(3 * rng.uniform(-1, 1, shape))
    elif kind == 'explicit':
        x = np.array(spec['x'], dtype=float).reshape(shape)
    else:
        raise ValueError(kind)
    if spec.get('poison'):
        m, n, v = spec['poison']
        x[m, n, ...] = float(v)
    for (m, n, vals) in spec.get('set', []):
        x[m, n, ...] = np.array(vals).reshape(d)
    return x


class WrapPost:
    """Post-processing seam: records the particles before and after."""

    def __init__(self, world, inner):
        self.world = world
        self.inner = inner
        self.n = 0

    def __call__(self, dyn):
        w = self.world
        w.pp_pre = arr(dyn.x)
        f = w.cbfault('post_process', self.n)
        self.n += 1
        if f is not None:
            raise make_exc(f.get('exc', 'Injected'), 'post_process')
        self.inner(dyn)
        w.pp_post = arr(dyn.x)


class OwnPost:
    """post-processing written by the caller: nothing, or a box, for the runs that go on"""

    def __init__(self, pp):
        self.kind, self.box = pp['own'], pp.get('box')

    def __call__(self, dyn):
        act = dyn.active_runs_idx
        if self.kind == 'inplace':
            dyn.x[act] = np.clip(dyn.x[act], -self.box, self.box)
        elif self.kind == 'replace':
            x = np.array(dyn.x)
            x[act] = np.clip(x[act], -self.box, self.box)
            dyn.x = x

    def __bool__(self):
        return self.kind != 'none'      # (only None stands for the default)

    @staticmethod
    def want(pp, x, act):
        x = np.array(x)
        if pp['own'] != 'none':
            x[act] = np.clip(x[act], -pp['box'], pp['box'])
        return x


class PauseTerm:
    """Stops runs at single iterations: they continue afterwards"""

    def __init__(self, at, M):
        self.at = {int(k): v for k, v in at.items()}
        self.M = M

    def __call__(self, dyn):
        out = np.zeros((self.M,), dtype=bool)
        for r in self.at.get(int(dyn.it), []):
            out[r] = True
        return out


class ProbeTerm:
    def __init__(self, world):
        self.world = world

    def __call__(self, dyn):
        self.world.guard(self.world.on_probe_term)
        return np.zeros((dyn.M,), dtype=bool)


class ProbeSched(csched.scheduler):
    def __init__(self, world, inner):
        super().__init__([])
        self.world = world
        self.inner = inner

    def update(self, dyn):
        self.world.guard(self.world.on_probe_sched, self.inner)


class FaultyTrack:
    def __init__(self, world):
        self.world = world
        self.n = 0

    def init_history(self, dyn):
        dyn.history['probe'] = []

    def update(self, dyn):
        f = self.world.cbfault('tracker', self.n)
        self.n += 1
        if f is not None:
            raise make_exc(f.get('exc', 'Injected'), 'tracker')
        dyn.history['probe'].append(int(dyn.it))


def own(obj, **kw):
    for k, v in kw.items():
        object.__setattr__(obj, k, v)


class Part:
    """A function written by the caller: what it is called with is recorded, and it may fail."""

    def __init__(self, world, name, fn):
        own(self, world=world, name=name, fn=fn, n=0)

    def __setattr__(self, k, v):
        raise Violation('modified', 'the library set the attribute %s of an object of the caller (%s)' % (k, self.name))

    def __call__(self, *args, **kw):
        w = self.world
        dyn = w.dyn
        if w.calls is not None and dyn is not None:
            w.calls.append((self.name, int(dyn.it), arr(dyn.x), [arr(a) for a in args if a is not dyn]))
        f = w.cbfault(self.name, self.n)
        own(self, n=self.n + 1)
        if f is not None:
            raise make_exc(f.get('exc', 'Injected'), self.name)
        return w.guard(self.fn, *args, **kw)


class UserKernel:
    """All that PolarCBO asks of a kernel of the caller is its negative logarithm."""

    def __init__(self, world, kappa):
        own(self, neg_log=Part(world, 'kernel', lambda x, y: np.abs(x - y).sum(axis=-1) / kappa))

    def __setattr__(self, k, v):
        raise Violation('modified', 'the library set the attribute %s of the kernel of the caller' % k)


class UserMap:
    def __init__(self, world):
        self.grad = Part(world, 'map', lambda x: 2 * np.arctanh(x))
        self.grad_conj = Part(world, 'map', lambda y: np.tanh(y / 2))


USER_NOISE = ('user', 'userdet', 'useralias')


def user_noise(world, kind):
    def noise(dyn):
        if kind == 'useralias':
            return dyn.drift
        if kind == 'userdet':
            return np.sqrt(dyn.dt) * .5 * dyn.drift
        z = np.sqrt(dyn.dt) * (np.abs(dyn.drift) + .1) * world.sampler(size=dyn.drift.shape)
        z.setflags(write=False)
        return z
    return Part(world, 'noise', noise)


def user_correction(world):
    from .model import user_gate

    def correction(dyn, x):
        d = world.case['d']
        return x * user_gate(int(np.prod(d))).reshape(d)
    return Part(world, 'correction', correction)


def user_consensus(world):
    def consensus(energy, x, alpha):
        best = x[np.arange(x.shape[0]), energy.argmin(axis=-1)]
        c = .5 * best[:, None] + .5 * x.mean(axis=1, keepdims=True)
        c.setflags(write=False)
        return c, energy
    return Part(world, 'consensus', consensus)


class FaultyTerm:
    def __init__(self, world, M):
        self.world = world
        self.M = M
        self.n = 0

    def __call__(self, dyn):
        f = self.world.cbfault('criterion', self.n)
        self.n += 1
        if f is not None:
            raise make_exc(f.get('exc', 'Injected'), 'criterion')
        return np.zeros((self.M,), dtype=bool)


class FaultySched(csched.scheduler):
    def __init__(self, world, inner):
        super().__init__([])
        self.world = world
        self.inner = inner
        self.n = 0

    def update(self, dyn):
        f = self.world.cbfault('scheduler', self.n)
        self.n += 1
        if f is not None:
            raise make_exc(f.get('exc', 'Injected'), 'scheduler')
        self.inner.update(dyn)


SNAP = ('x', 'y', 'v', 'm', 'energy', 'alpha', 'best_particle', 'best_energy', 'best_cur_particle',
        'best_cur_energy', 'f_min', 'num_f_eval', 'consensus', 'drift', 'update_diff', 'it', 't',
        'sigma', 'lamda', 'dt', 'consensus_eval_points')


class Snap(dict):
    __getattr__ = dict.get


class World:
    def __init__(self, case, oracles=(), stats=None, **override):
        if case.get('change'):
            case = dict(case, kw=dict(case.get('kw', {})))
        self.case = case
        self.oracles = list(oracles)
        self.stats = stats if stats is not None else Counter()
        self.trace = []         # schedule of the run, for counting distinct interleavings
        self.dyn = None
        self.pp_pre = self.pp_post = None
        self.res = None
        self.extra_term = []
        self.steps = 0
        self.faults = [dict(f) for f in case.get('faults', [])]
        self.cbfaults = {(f['at'], f['n']): f for f in self.faults if 'n' in f}
        self.obj = Objective(case['obj'], self.faults, self.stats)
        self.sampler = Sampler(case.get('sampler') or {}, self.faults, self.stats, self)
        self.override = override
        self.S0 = None
        self.calls = None       # what parts of the caller are called with
        self.indep = float(case.get('kw', {}).get('sigma_indep', 0.)) > 0 and bool(case.get('sampler'))
        self.lastcons = {}
        self.inputs = {}
        self.exc = None
        self.out = io.StringIO()

    # -- faults of the other callbacks
    def cbfault(self, at, n):
        f = self.cbfaults.get((at, n))
        if f is not None and not f.get('spent'):
            f['spent'] = True
            self.stats['fault.%s_raises' % at] += 1
            return f
        return None

    # -- construction
    def kwargs(self):
        c = self.case
        M, N, d = c['M'], c['N'], c['d']
        kw = {}
        for k, v in c.get('kw', {}).items():
            if k == 'alpha' and isinstance(v, list):
                v = np.array(v, dtype=float)[:, None]
            elif k in ('mirrormap', 'sdf') and isinstance(v, dict):
                v = to_arrays(v)
                if v['name'] == 'ProjectionStiefel':    # not available by name
                    v = ProjectionStiefel(v['nk'])
            elif k == 'constraints' and v is not None:
                v = [to_arrays(e) if e is not None else None for e in v]
            elif k == 'betas':
                v = tuple(v)
            elif k == 'batch_args' and v is not None:
                v = dict(v)
            elif k == 'noise' and v in USER_NOISE:
                v = user_noise(self, v)
            elif k == 'correction' and v == 'user':
                v = user_correction(self)
            elif k == 'compute_consensus' and v == 'user':
                v = user_consensus(self)
            elif k == 'kernel' and v == 'user':
                v = UserKernel(self, c['kw'].get('kappa', 1.))
            elif k == 'norm' and v == 'user':
                v = Part(self, 'norm', lambda x, *a, **b: 2 * np.linalg.norm(x, *a, **b))
            if k == 'mirrormap' and isinstance(v, dict) and v['name'] == 'user':
                v = UserMap(self)
            kw[k] = v
        if c.get('x') is not None:
            x = initial_x(c['x'], M, N, d)
            if c['x'].get('project'):
                from . import model
                x = np.array([[projected(c, v).reshape(d) for v in run] for run in x])
            if c.get('xdim') == 2:
                x = x[0]
            elif c.get('xdim') == 1:
                x = x[0, 0]
            kw['x'] = x
        else:
            kw.update(M=M, N=N, d=d[0])
        if c.get('seed') is not None:
            kw['seed'] = c['seed']
        if c.get('sampler') is not None:
            kw['sampler'] = self.sampler
        if c.get('term') is not None and c['term'][0].get('style') == 'arg':
            kw['max_it'] = c['term'][0]['v']
        elif c.get('term') is not None:
            kw['term_criteria'] = [build_term(t, M) for t in c['term']]
            kw['term_criteria'] += self.extra_term
            if c.get('faultyterm'):
                kw['term_criteria'].append(FaultyTerm(self, M))
        else:
            kw['max_it'] = c.get('max_it', 5)
        if c.get('mode', 'loop') == 'optimize' and c.get('term') is not None:
            kw['term_criteria'].append(ProbeTerm(self))
        if c.get('track') is not None:
            kw['track_args'] = dict(c['track'])
            if c.get('faultytrack'):
                kw['track_args']['extra_tracks'] = [FaultyTrack(self)]
        pp = c.get('pp')
        if pp == 'wrap':
            inner = post_process_default(
                copy_nan_to_num=True) if c['dyn'] == 'RegCombinationCBO' else post_process_default()
            kw['post_process'] = WrapPost(self, inner)
        elif isinstance(pp, dict):
            kw['post_process'] = self.custom_post(pp)
        if c.get('resample') is not None:
            kw['post_process'] = self.make_resampling(c['resample'])
        kw['verbosity'] = c.get('verbosity', 0)
        kw['f_dim'] = c.get('f_dim', '1D')
        if c.get('inst'):
            self.instances(kw)
        if c.get('check_f_dims') is not None:
            kw['check_f_dims'] = c['check_f_dims']
        kw.update(self.override)
        return kw

    def instances(self, kw):
        """objects instead of names"""
        if kw.get('sampler') is not None and self.case['dyn'] != 'HyperSurfaceCBO' and kw.get('noise') in ('isotropic', 'anisotropic', 'covariance', 'constant'):
            kw['noise'] = getattr(cnoise, kw['noise'] + '_noise')(norm=np.linalg.norm, sampler=kw['sampler'])
        cor = kw.get('correction')
        if isinstance(cor, str):
            kw['correction'] = ccorr.get_correction(cor, eps=kw.get('correction_eps', 1e-3))
        if isinstance(kw.get('kernel'), str):
            kw['kernel'] = DYNS['PolarCBO'].kernel_dict[kw['kernel']](kappa=kw.get('kappa', 1.))
        if isinstance(kw.get('mirrormap'), (str, dict)):
            kw['mirrormap'] = cmirror.get_mirror_map(kw['mirrormap'])

    def make_resampling(self, r):
        def crit(q):
            if q['k'] == 'ensemble':
                return cres.ensemble_update_resampling(q['thr'])
            if q['k'] == 'loss':
                return cres.loss_update_resampling(wait_thresh=q['wait'])
            if q['k'] == 'consensus':
                return cres.consensus_stagnation(patience=q['patience'], update_thresh=q['thr'])
            at = {int(k): v for k, v in q.get('at', {}).items()}
            return lambda dyn: np.array(at.get(int(dyn.it), []), dtype=int)
        var = r.get('var', 'x')
        kw = {} if var == 'x' and not r.get('name_var') else {'var_name': var}
        if r.get('apply'):
            def shift(dyn, idx):
                dyn.x[idx, ...] += 1.5
            kw['apply'] = shift
        self.resampling = cres.resampling([crit(q) for q in r['crits']], sigma_indep=r['sigma'],
                                          track_best_consensus=r['best'], **kw)
        pp = self.default_post()

        def post(dyn):
            pp(dyn)
            num = self.resampling.num_resampling
            self.res = {'pre': arr(getattr(dyn, var)), 'num0': None if num is None else arr(num), 'row0': len(self.obj.F),
                        'draw0': len(self.sampler.draws), 'update_diff': arr(dyn.update_diff), 'snap': self.snap(),
                        'best_energy': arr(dyn.best_energy)}
            self.resampling(dyn)
            self.res.update(post=arr(getattr(dyn, var)), num1=arr(self.resampling.num_resampling), row1=len(self.obj.F),
                            snap1=self.snap())
        return post

    def default_post(self):
        return post_process_default(copy_nan_to_num=True) if self.case['dyn'] == 'RegCombinationCBO' else post_process_default()

    def custom_post(self, pp):
        if 'own' in pp:
            return OwnPost(pp)
        # the projection of a mirror map as post processing
        m = to_arrays(pp['prox'])
        cls = getattr(cmirror, m.pop('name'))
        return cmirror.MirrorMaptoPostProcessProx(cls)(**m)

    def build(self):
        c = self.case
        kw = self.kwargs()
        self.inputs = kw
        self.f = self.obj.callable(kw['f_dim'])
        g = c.get('reg')
        if g is not None:       # the caller adds a regularisation to the objective
            self.f = creg.regularize_objective(self.f if kw['f_dim'] == '3D' else coh._promote_objective(self.f, kw['f_dim']),
                                               to_arrays(g['func']) if isinstance(g['func'], dict) else g['func'],
                                               lamda=g['lamda'], p=g['p'])
            kw['f_dim'] = '3D'
        self.pre_build()
        self.dyn = self.lib(self.cls(), self.f, **kw)
        pp = getattr(self.dyn, 'post_process', None)
        if isinstance(kw.get('post_process'), OwnPost) and pp is not kw['post_process']:
            raise Violation('post', 'the post processing of the caller was replaced by %s' % type(pp).__name__)
        if callable(pp) and not isinstance(pp, WrapPost):
            self.dyn.post_process = WrapPost(self, pp)
        for o in self.oracles:
            o.on_init(self)
        return self.dyn

    def pre_build(self):
        pass

    def cls(self):
        return DYNS[self.case['dyn']]

    # -- independent noise of DriftConstrainedCBO
    def near(self, x, active):
        """active runs whose particles are so close to their last consensus that they are disturbed"""
        eps = self.case['kw'].get('eps_indep', 0.001)
        return [r for r in active if r in self.lastcons
                and float(((x[r] - self.lastcons[r]) ** 2).sum(axis=-1).mean()) / x.shape[-1] < eps]

    def before_step(self):
        return self.S0 is not None and self.S0['nrows'] == len(self.obj.F)

    def disturb(self, st):
        """the state the step started from, after the independent noise"""
        kw, x, n, hit = self.case['kw'], st.S0.x.copy(), 0, set()
        while True:
            ids = self.near(x, st.active)
            if not ids:
                break
            if n >= len(st.draws) or st.draws[n].shape != (len(ids),) + x.shape[1:]:
                raise Violation('indep', 'runs %s are close to their consensus, but were not disturbed' % ids)
            for j, r in enumerate(ids):
                x[r] = x[r] + kw['sigma_indep'] * math.sqrt(float(st.S0.dt)) * st.draws[n][j]
            n += 1
            hit |= set(ids)
            self.stats['reach.independent_noise'] += 1
        # equal up to rounding to what the library has: take the nearest of its numbers
        for r in hit:
            seen = np.concatenate([np.reshape(st.X, (-1, x[0, 0].size)), st.S1.x[r].reshape(x.shape[1], -1)])
            for i in range(x.shape[1]):
                with np.errstate(all='ignore'):
                    dist = np.abs(seen - x[r, i].ravel()).max(axis=-1)
                v = seen[np.argmin(np.where(np.isnan(dist), np.inf, dist))]
                if np.allclose(v, x[r, i].ravel(), rtol=1e-13, atol=1e-13):
                    x[r, i] = v.reshape(x[r, i].shape)
        st.draws = st.draws[n:]
        st.S0 = Snap(st.S0, x=x)
        for a, r in enumerate(st.active):
            self.lastcons[r] = st.S1.consensus[a]

    def guard(self, fn, *args, **kw):
        """simulator code called from inside the library"""
        try:
            return fn(*args, **kw)
        except (Violation, Injected):
            raise
        except Exception as e:
            if self.injected(e):
                raise
            raise Violation('badcall:' + type(e).__name__, 'the library called a callback with arguments it cannot take (%s: %s at %s)' % (
                type(e).__name__, str(e)[:200], where(e))) from e

    def injected(self, e):
        return any(e is m for m in MADE)

    def lib(self, fn, *args, **kw):
        """call into the library; an exception the simulator did not inject is a violation"""
        try:
            return fn(*args, **kw)
        except (Violation, Injected, InjectedBase, KeyboardInterrupt):
            raise
        except Exception as e:
            if self.injected(e):
                raise
            raise Violation('crash:' + type(e).__name__, 'the library raised %s: %s at %s' % (
                type(e).__name__, str(e)[:200], where(e))) from e

    # -- scheduling
    def make_sched(self):
        s = self.case.get('sched')
        if s is None:
            return csched.scheduler([])
        if s == 'default':
            return self.dyn.default_sched()
        if s == 'effective':
            return csched.effective_sample_size()
        out = []
        for u in s:
            if u['k'] == 'multiply':
                out.append(csched.multiply(name=u.get('name', 'alpha'), factor=u['factor'], maximum=u.get('maximum', 1e5)))
            elif u['k'] == 'reg':
                if not hasattr(self, 'regsched'):       # (it keeps the thresholds when the run is continued)
                    self.regsched = creg.regularization_paramter_scheduler(**{k: v for k, v in u.items() if k != 'k'})
                out.append(self.regsched)
            elif u['k'] == 'effective':
                out.append(csched.effective_sample_size(eta=u['eta'], maximum=u.get('maximum', 1e5),
                                                        solve_max_it=u.get('solve_max_it', 15)))
        return csched.scheduler(out)

    def snap(self):
        d = self.dyn
        s = Snap()
        for k in SNAP:
            if hasattr(d, k):
                s[k] = arr(getattr(d, k))
        if hasattr(self, 'regsched'):
            M = self.case['M']
            s['reg_lamda'] = np.ones((M, 1)) * arr(d.f.lamda)
            s['reg_theta'] = np.ones(M) * arr(self.regsched.theta)
        s['nrows'] = len(self.obj.F)
        s['ncalls'] = len(self.obj.calls)
        s['ndraws'] = len(self.sampler.draws)
        s['hist'] = {k: len(v) for k, v in d.history.items()}
        return s

    def missed(self, S):
        if self.S0 is not None and int(S.it) > int(self.S0.it):
            for o in self.oracles:
                o.on_missed(self, S)

    def on_probe_term(self):
        S = self.snap()
        self.missed(S)
        self.S0 = S
        self.pp_pre = self.pp_post = None

    def on_probe_sched(self, inner):
        if self.steps >= self.case.get('cap', 400):
            raise Violation('nonterminating', 'no termination within %d steps' % self.steps)
        if self.S0 is None:
            for o in self.oracles:
                o.on_twice(self)
            raise Violation('sched', 'the schedule was applied again without a step')
        self.finish_step(inner)

    def finish_step(self, sched):
        st = Step(self, self.S0, self.snap())
        if self.indep:
            self.disturb(st)
        self.steps += 1
        self.trace.append(tuple(st.active))
        self.stats['steps'] += 1
        for o in self.oracles:
            o.on_step(self, st)
        if sched is not None:
            self.lib(sched.update, self.dyn)
            st.S2 = self.snap()
            for o in self.oracles:
                o.on_sched(self, st)
        for k, v in (self.case.get('change') or {}).get(str(self.steps), []):
            self.change(k, v)
        self.S0 = None

    def change(self, k, v):
        """between two steps the caller changes the dynamic, what follows is judged by the new setting"""
        dyn, kw = self.dyn, self.case['kw']
        self.stats['reach.changed_' + k] += 1
        if k == 'x':
            idx = np.asarray(dyn.active_runs_idx)
            z = np.random.default_rng(v['seed']).uniform(-v['scale'], v['scale'], dyn.x.shape)
            if v['new']:
                z0 = dyn.x.copy()
                z0[idx] = z[idx]
                dyn.x = z0
            else:
                dyn.x[idx] = z[idx]
            return
        kw[k] = v
        if k in ('noise', 'correction'):
            self.lib(getattr(dyn, 'set_' + k), v)
        elif k == 'kernel':
            self.lib(dyn.set_kernel, v)
        elif k == 'kappa':
            dyn.kappa = v
            self.lib(dyn.set_kernel, kw.get('kernel', 'Gaussian'))
        elif k == 'alpha':
            dyn.alpha = np.full_like(dyn.alpha, v)
        else:
            setattr(dyn, k, v)

    def run(self):
        c = self.case
        self.build()
        self.drive()
        for o in self.oracles:
            o.on_end(self)
        return self

    def drive(self, max_steps=None):
        try:
            self._drive(max_steps)
        except BaseException:
            self.indep = False      # how much of the aborted step was done is not known
            raise

    def _drive(self, max_steps=None):
        c = self.case
        self.sched = self.make_sched()
        if c.get('faultysched'):
            self.sched = FaultySched(self, self.sched)
        if c.get('mode', 'loop') == 'optimize':
            kw = {}
            if c.get('print_int') is not None and c['dyn'] != 'CBS':
                kw['print_int'] = c['print_int']
            self.result = self.lib(self.dyn.optimize, sched=ProbeSched(self, self.sched), **kw)
            self.missed(self.snap())
            for o in self.oracles:
                o.on_optimized(self, self.result)
        else:
            n = k = 0
            blind = c.get('blind') or {}
            while True:
                for _ in range(blind.get(str(k), 0)):       # steps of the caller without a check before
                    self.stats['reach.step_without_check'] += 1
                    self.S0 = self.snap()
                    self.pp_pre = self.pp_post = None
                    self.lib(self.dyn.step)
                    self.finish_step(self.sched)
                    n += 1
                k += 1
                B = self.snap()
                fin = self.lib(self.dyn.terminate)
                A = self.snap()
                for o in self.oracles:
                    o.on_terminate(self, B, A, fin)
                if fin:
                    break
                self.S0 = A
                self.pp_pre = self.pp_post = None
                self.lib(self.dyn.step)
                self.finish_step(self.sched)
                n += 1
                if n >= c.get('cap', 400):
                    raise Violation('nonterminating', 'no termination within %d steps' % n)
                if max_steps is not None and n >= max_steps:
                    break

    def simtime(self):
        return float(getattr(self.dyn, 't', 0.)) if self.dyn is not None else 0.

    def digest(self):
        """what was asked, drawn and produced: equal for equal runs"""
        return h64(len(self.obj.F), [x.tobytes().hex() for x in self.obj.X[-8:]], len(self.sampler.draws),
                   None if self.dyn is None else arr(self.dyn.x).tobytes().hex())

    def signature(self):
        c = self.case
        return h64(c['dyn'], c['M'], c['N'], c['d'], sorted(c.get('kw', {}).items(), key=str), c.get('term'),
                   c.get('sched'), c.get('faults'), self.trace[:40], self.digest())


class Step:
    def __init__(self, w, S0, S1):
        self.w = w
        self.S0, self.S1 = S0, S1
        self.S2 = None
        act = getattr(w.dyn, 'active_runs_idx', None)
        self.active = [int(a) for a in np.asarray(act)]
        self.res = w.res
        w.res = None
        end, dend, self.resampled = S1['nrows'], S1['ndraws'], {}
        if self.res is not None:
            end, dend = self.res['row0'], self.res['draw0']
            n0, n1 = self.res['num0'], self.res['num1']
            who = [r for r in range(w.case['M']) if n1[r] - (0 if n0 is None else n0[r])]
            self.resampled = {r: (self.res['row1'] - end) / len(who) for r in who}
        self.X = w.obj.X[S0['nrows']:end]
        self.F = w.obj.F[S0['nrows']:end]
        self.draws = w.sampler.draws[S0['ndraws']:dend]
        self.pp_pre, self.pp_post = w.pp_pre, w.pp_post


class Oracle:
    def on_init(self, w): pass
    def on_step(self, w, st): pass
    def on_sched(self, w, st): pass
    def on_missed(self, w, S): pass     # optimize() took a step without applying the schedule
    def on_twice(self, w): pass         # optimize() applied the schedule again
    def on_terminate(self, w, before, after, fin): pass
    def on_optimized(self, w, result): pass
    def on_end(self, w): pass


def projected(c, v):
    from . import model
    for k in range(50):
        p = model.mirror_grad_conj(c, v)
        if np.isfinite(p).all():
            return p
        v = v + .1 * np.sin(np.arange(1, v.size + 1) * (k + 1.)).reshape(v.shape)     # no unique projection
    raise ValueError('no projection')


def where(e):
    tb = e.__traceback__
    out = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/cbx/' in fn:
            out = os.path.basename(fn) + ':' + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return out


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            yield sys.stdout
        finally:
            sys.stdout = old
