"""The properties: for each a generator of cases and the oracles that decide it."""
import copy
import io
import math
import sys
import warnings
from collections import Counter

import numpy as np

from . import gen, model, shrink
from .gen import gen_case
from .util import Violation, Injected, InjectedBase, pick, arr, same, rng_for, h64
from .world import World, Oracle, Objective, Sampler, DYNS, MEMORY, quiet, build_term, initial_x

REGISTRY = {}


def register(cls):
    if cls.extra:
        cls.gen = with_extras(cls.gen)
    REGISTRY[cls.id] = cls()
    return cls


def with_extras(inner):
    """features that all dynamics share, now and then: particles are resampled, or projected by the map of a mirror dynamic,
    after the steps; the objective is regularised with a parameter for each run"""
    def make(self, rng):
        c = inner(self, rng)
        if 'kw' not in c:
            return c
        u = rng.random(8)
        big = (c.get('sampler') or {}).get('mode') == 'big'
        if 'reg' in self.extra and u[0] < .05 and not c.get('reg') and c.get('sched') != 'effective' \
                and not any(isinstance(v, dict) and v['k'] == 'reg' for v in c.get('sched') or []):
            twins.gen_reg_sched(rng, c)
        if u[3] < .08 and 'sched' in self.extra and not isinstance(c.get('sched'), list):
            gen_sched(rng, c)
        if u[6] < .06 and 'change' in self.extra and not big:
            gen_change(rng, c)
        if u[7] < .06 and not c.get('reset') and 'blind' in self.extra and c.get('mode', 'loop') == 'loop' and not any(
                t['k'] in ('stagnation', 'pause', *(['max_eval'] if self.id == 'C07' else [])) for t in c.get('term', [])):
            c['blind'] = {str(int(pick(rng, [0, 1, 2, 4]))): int(pick(rng, [1, 2, 3, 8])) for _ in range(int(pick(rng, [1, 2])))}
        if u[5] < .07 and 'obs' in self.extra and c.get('track') is None and not c.get('verbosity'):
            names = [k for k in ('x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean', 'best_energy', 'alpha') if rng.random() < .35]
            c['track'] = {'names': names, 'save_int': int(pick(rng, [1, 2, 3]))}
            c['verbosity'] = int(pick(rng, [0, 1, 2]))
        if c.get('resample') or c.get('pp') not in (None, 'wrap') or big:
            return c
        if 'resample' in self.extra and u[1] < .06:
            c['resample'] = steps.gen_resample(rng, c)
        elif 'prox' in self.extra and u[2] < .06 and not gen.fragile(c):
            steps.gen_prox(rng, c)
        elif 'post' in self.extra and u[4] < .05 and not gen.fragile(c):
            gen.gen_post(rng, c)
        return c
    return make


def gen_change(rng, c):
    """the caller changes parameters, models or positions between two steps"""
    name, kw = c['dyn'], c['kw']
    ks = ['dt', 'sigma', 'lamda']
    if not gen.fragile(c):
        ks.append('alpha')
    if name != 'HyperSurfaceCBO' and isinstance(kw.get('noise', 'isotropic'), str) and not gen.fragile(c):
        ks += ['noise'] * 2
    if name not in ('RegCombinationCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'AdamCBO') and isinstance(kw.get('correction', 'no_correction'), str):
        ks += ['correction'] * 2
    if name == 'PolarCBO':
        ks += ['kernel_factor_mode'] * 3
        if isinstance(kw.get('kernel', 'Gaussian'), str) and kw.get('kernel') != 'user' and not gen.fragile(c):
            ks += ['kappa'] if len(c['d']) > 1 else ['kernel', 'kappa']
    if name in MEMORY:
        ks += ['lamda_memory', 'sigma_memory']
    if name in ('DriftConstrainedCBO', 'AdamCBO'):
        ks += ['eps']
    if name == 'AdamCBO':
        ks += ['betas']
    if name == 'PSO':
        ks += ['m', 'gamma']
    if name not in ('MirrorCBO', 'HyperSurfaceCBO') and not gen.fragile(c):
        ks += ['x'] * 2
    val = {'dt': [.01, .1, .5], 'sigma': [0., .3, 1.], 'lamda': [.5, 1., 1.5], 'alpha': [1., 10., 100.], 'noise': ['isotropic', 'anisotropic', 'constant'],
           'correction': ['no_correction', 'heavi_side', 'heavi_side_reg'], 'kernel': ['Gaussian', 'Laplace', 'Constant', 'Taz', 'InverseQuadratic'],
           'kappa': [.3, 1., 3.], 'kernel_factor_mode': ['alpha', 'const'], 'lamda_memory': [.2, .6], 'sigma_memory': [0., .5], 'eps': [.05, .5],
           'betas': [[.5, .9], [.8, .99], [.2, .5]], 'm': [.05, .5], 'gamma': [.3, 1.], 'x': [None]}
    out = {}
    steps = sorted({int(rng.integers(1, 6)) for _ in range(int(pick(rng, [1, 2, 3])))})
    first = steps[0]
    for s in steps:
        q = []
        for k in sorted({str(pick(rng, ks)) for _ in range(int(pick(rng, [1, 2])))}):
            now = kw.get(k, {'noise': 'isotropic', 'correction': 'no_correction', 'kernel': 'Gaussian', 'kernel_factor_mode': 'alpha'}.get(k))
            v = pick(rng, [u for u in val[k] if s != first or not isinstance(u, str) or u != now])
            if v == 'Constant' and (np.any(np.array(kw['alpha']) == 0) or (kw.get('batch_args') or {}).get('partial', True) is False):
                v = 'Gaussian'      # 0 * inf: no weighted mean is defined
            if k == 'x':
                v = {'seed': int(rng.integers(1 << 30)), 'scale': float(pick(rng, [.1, 1., 5.])), 'new': bool(rng.random() < .5)}
            q.append([k, v])
        out[str(s)] = q
    if name in MEMORY and kw.get('sigma_memory') is None:
        kw['sigma_memory'] = .3
    if name == 'PSO' and kw.get('gamma') is None:
        kw['gamma'] = .9
    c['change'] = out


def gen_sched(rng, c):
    """parameters other than the exponent that change from step to step"""
    ups = []
    for name in [['dt', 'sigma', 'lamda', 'alpha'][i] for i in rng.permutation(4)[:int(pick(rng, [1, 2]))]]:
        f = float(pick(rng, [.5, .9, 1.1, 2.]))
        if name == 'dt' and f < 1 and c['kw'].get('sigma_indep'):
            f = 1.1     # (disturbances that shrink go on for very long)
        ups.append({'k': 'multiply', 'name': name, 'factor': f, 'maximum': {'dt': 1., 'sigma': 6., 'lamda': 2., 'alpha': 1e5}[name]})
    c['sched'] = ups
    if c['dyn'] in MEMORY:
        c['kw']['sigma_memory'] = .3


class Check:
    id = None
    extra = ()          # post-processings the oracles of the check can judge
    quick = 1000
    thorough = 20000
    chunk = 25
    rule = ''
    real = ['cbx.dynamics', 'cbx.noise', 'cbx.correction', 'cbx.scheduler', 'cbx.utils.termination',
            'cbx.utils.history', 'cbx.utils.objective_handling', 'cbx.utils.resampling', 'cbx.constraints', 'cbx.regularizers']
    stub = ['objective function (answered by the simulator)', 'random source (sampler seam)']

    def gen(self, rng):
        raise NotImplementedError

    def run(self, case, stats):
        """run one case; raise Violation; return (signature, simulated time, nontrivial)"""
        raise NotImplementedError

    assumptions = []

    def known(self, case, cls, msg):
        """key of the known finding this violation would be an instance of"""
        return None

    def shrink(self, case):
        return shrink.candidates(case)

    def simple(self, case, stats, oracles):
        w = World(case, oracles, stats)
        w.run()
        return w.signature(), w.simtime(), w.steps > 0


def fval_of(w, S):
    """value of the function minimised by a run at a point, with the parameters of a snapshot"""
    def f(v, r):
        return w.obj.scalar(v) + model.reg_value(w.case, v, model.run_lam(S, r))
    return f


def key(x):
    return (np.ascontiguousarray(x, dtype=float).ravel() + 0.).tobytes()


def bad(cls, msg, *a):
    raise Violation(cls, msg % a if a else msg)


# ---------------------------------------------------------------------------------------
# C01
class BestOracle(Oracle):
    """best energy = minimum over everything a run's particles were evaluated at, attained by
    the best particle, monotone; with injected objective values: over the answers given"""

    def on_init(self, w):
        self.best = np.full(w.case['M'], np.inf)
        self.nan = set()        # runs that were answered NaN: only monotonicity is checked
        self.where = [dict() for _ in range(w.case['M'])]   # row bytes -> answers
        S = w.snap()
        if w.case['dyn'] in MEMORY:
            # the memory is initialised by evaluating all particles
            M, N = w.case['M'], w.case['N']
            X, F = w.obj.X[-M * N:], w.obj.F[-M * N:]
            for m in range(M):
                for n in range(N):
                    self.note(m, X[m * N + n], F[m * N + n] + model.reg_value(w.case, X[m * N + n]))
        self.prev = np.full(w.case['M'], np.inf)

    def note(self, m, x, e):
        self.where[m].setdefault(key(x), []).append(e)
        if e != e:
            self.nan.add(m)
        if e == e and e < self.best[m]:
            self.best[m] = e

    def on_step(self, w, st):
        p = model.plan_step(st, w.case)
        if p.error:
            bad('evaluation', p.error)
        for r in p.active:
            if w.case['dyn'] in MEMORY:
                xm = st.pp_pre if st.pp_pre is not None else st.S1.x
                idx = p.P[r]
                X = xm[r]
            else:
                idx = p.B[r]
                X = st.S0.x[r]
            for i, e in zip(idx, p.E[r]):
                self.note(r, X[i].ravel(), e)
        self.compare(w, st.S1)

    def compare(self, w, S):
        for r in range(w.case['M']):
            be = float(S.best_energy[r])
            if be > self.prev[r]:
                bad('worse', 'run %d: best energy rose from %r to %r', r, self.prev[r], be)
            if be != be:
                bad('nan', 'run %d: the best energy is NaN', r)
            self.prev[r] = be
            if r in self.nan:
                continue
            # (the regularised objective is recomputed)
            tol = 1e-12 * abs(be) if w.case['dyn'] != 'RegCombinationCBO' and not w.case.get('reg') else 1e-9 * abs(be) + 1e-12
            if not (be == self.best[r] or abs(be - self.best[r]) <= tol):
                bad('notmin', 'run %d: best energy %r, but the smallest value found by its particles is %r', r, be, self.best[r])
            if np.isfinite(be):
                x = np.ascontiguousarray(S.best_particle[r].ravel())
                got = self.where[r].get(key(x))
                if got is None or not any(abs(g - be) <= tol for g in got):
                    bad('notattained', 'run %d: the best particle %s does not attain the best energy %r (answers there: %s)',
                        r, x.tolist(), be, got)

    def on_end(self, w):
        if w.case.get('reset') and not hasattr(w, 'regsched'):
            reset(w)
            w.drive()

    def on_optimized(self, w, result):
        if w.case['dyn'] == 'CBS':
            return
        if not same(result, w.dyn.best_particle):
            bad('returned', 'optimize() did not return the best particle')


def reset(w):
    """only the counters, the time and the history start afresh"""
    A = w.snap()
    w.lib(w.dyn.reset)
    B = w.snap()
    w.stats['reach.resets'] += 1
    for k in A:
        if k not in ('it', 't', 'hist') and not same(A[k], B[k]):
            bad('reset', 'reset() changed %s from %s to %s', k, np.ravel(A[k])[:4], np.ravel(B[k])[:4])
    if int(B.it) != 0 or float(B.get('t', 0.)) != 0.:
        bad('reset', 'reset() leaves it=%s, t=%s', B.it, B.get('t'))


@register
class C01(Check):
    id = 'C01'
    extra = ('reg', 'resample', 'prox', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 9000
    rule = ('Cases: random dynamic, sizes, noise, correction, batching, termination schedule per run, and injected objective '
            'answers (isolated +inf/NaN-free bad answers, lucky answers). Non-trivial: at least one step was taken.')

    def gen(self, rng):
        c = gen_case(rng, p_long=.01)
        k = c['kw']
        plain = dict(c, kw=dict(k, noise='isotropic')) if c['dyn'] != 'CBS' else c
        fragile = gen.fragile(plain)
        concat = (k.get('batch_args') or {}).get('var') == 'concat'
        if rng.random() < .35 and not concat:
            # answers that do not follow the landscape: isolated lucky or bad evaluations
            n = int(rng.integers(1, 4))
            tot = c['M'] * c['N'] * 6
            c['faults'] = [{'at': 'obj', 'row': int(rng.integers(0, tot)), 'kind': 'value',
                            'value': pick(rng, [-1e9, 1e9, float('inf')], [2, 1, 0 if fragile else 1])} for _ in range(n)]
            if rng.random() < .3 and not fragile:
                c['obj']['poison'] = {'dim': 0, 'thr': float(rng.uniform(-.5, .8)), 'value': float('inf'), 'above': bool(rng.random() < .5)}
            c['kw']['noise'] = 'isotropic' if c['kw']['noise'] in ('covariance', 'sampling') and c['dyn'] != 'CBS' else c['kw']['noise']
        if c.get('mode', 'loop') == 'loop' and rng.random() < .12:
            c['reset'] = True
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        return self.simple(case, stats, [BestOracle()])


from . import steps, twins, faults, observe, forms, custom, success  # noqa: E402,F401
