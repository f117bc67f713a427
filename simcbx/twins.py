"""Properties decided by comparing simulated runs with each other."""
import copy
import math
import os

import numpy as np

from . import gen, model
from .checks import reset, Check, register, bad, key, gen_case
from .gen import ALL, gen_objective
from .steps import RefineOracle, feasible, gen_resample
from .util import Violation, Injected, InjectedBase, pick, same, arr, h64, rng_for
from .world import World, Oracle, MEMORY, make_exc

STATE = ('x', 'y', 'v', 'm', 'energy', 'best_particle', 'best_energy', 'best_cur_energy', 'best_cur_particle', 'num_f_eval',
         'alpha', 'f_min', 'it', 't', 'consensus', 'update_diff')


class Recorder(Oracle):
    """per step copies of the state"""

    def __init__(self):
        self.S = []
        self.active = []
        self.draws = []

    def on_step(self, w, st):
        self.S.append(st.S1)
        self.active.append(st.active)
        self.draws.append(len(st.draws))


def final(w):
    s = w.snap()
    return {k: s[k] for k in STATE if k in s}


def diff_state(a, b, keys=STATE):
    for k in keys:
        if (k in a) != (k in b):
            return k
        if k in a and not same(a[k], b[k]):
            return k
    return None


# ---------------------------------------------------------------------------------------
@register
class C03(Check):
    id = 'C03'
    extra = ('reg', 'prox', 'sched', 'post', 'obs', 'blind')
    quick = 11250
    thorough = 200000
    rule = ('Random draws are keyed by run. Each case is simulated with several runs, then a chosen run is simulated alone '
            '(unbatched) or among other runs with different positions, exponents, termination schedules and objective faults. '
            'Non-trivial: the compared run took a step.')

    def gen(self, rng):
        c = gen_case(rng, M=int(pick(rng, [2, 3, 4])), sampler='keyed', tame=True, extreme_alpha=False, x_none=0., max_steps=6)
        c['kw']['sigma'] = float(pick(rng, [.1, 1., 2.])) if c['dyn'] != 'CBS' else 1.
        if c['dyn'] == 'CBS':
            c['kw'].pop('sigma')
        if c['obj']['name'] == 'step':
            c['obj']['name'] = 'quad'
        if c['x']['kind'] in ('dup', 'same', 'cluster'):
            c['x']['kind'] = 'uniform'
        c['x']['scale'] = min(c['x'].get('scale', 1.), 3.)
        if c['x']['kind'] == 'uniform' and c['x']['scale'] < .5:
            c['x']['scale'] = 1.
        c['x']['per_run'] = [int(v) for v in rng.integers(0, 1 << 30, c['M'])]
        for t in c['term']:
            if t['k'] == 'max_it':
                t['v'] = min(t['v'], 5)
        if rng.random() < .3:
            c['term'].append({'k': 'max_eval', 'v': int(c['N'] * rng.integers(1, 6)), 'style': 'inst'})
        r = int(rng.integers(c['M']))
        c['focus'] = r
        batched = model.batch_conf(c)[0]
        c['twin'] = 'others' if batched or rng.random() < .5 else 'alone'
        if c['twin'] == 'others':
            c['swap'] = {
                'per_run': [s if i == r else int(rng.integers(1 << 30)) for i, s in enumerate(c['x']['per_run'])],
                'alpha': [float(pick(rng, [.1, 1., 5., 1e4])) for _ in range(c['M'])],
                'at': [int(v) for v in rng.integers(0, 7, c['M'])],
                'poison': bool(rng.random() < .3)}
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        r = case['focus']
        A = Recorder()
        wa = World(case, [A], stats)
        wa.run()
        tw = copy.deepcopy(case)
        col = r
        if case['twin'] == 'alone':
            col = 0
            tw['M'] = 1
            tw['x']['per_run'] = [case['x']['per_run'][r]]
            tw['sampler']['runs'] = [r]
            if isinstance(tw['kw']['alpha'], list):
                tw['kw']['alpha'] = [tw['kw']['alpha'][r]]
            for t in tw['term']:
                if t['k'] == 'sched':
                    t['at'] = [t['at'][r]]
        else:
            sw = case['swap']
            tw['x']['per_run'] = sw['per_run']
            a = case['kw']['alpha']
            a = a if isinstance(a, list) else [a] * case['M']
            tw['kw']['alpha'] = [a[i] if i == r else sw['alpha'][i] for i in range(case['M'])]
            for t in tw['term']:
                if t['k'] == 'sched':
                    t['at'] = [t['at'][i] if i == r else sw['at'][i] for i in range(case['M'])]
        B = Recorder()
        wb = World(tw, [B], stats)
        wb.run()
        n = 0
        tol = 1e-4 if model.noise_kind(case) == 'covariance' else 1e-6
        for k in range(max(len(A.S), len(B.S))):
            ia = k < len(A.S) and r in A.active[k]
            ib = k < len(B.S) and col in B.active[k]
            if ia != ib:
                bad('active', 'run %d takes step %d: %s, but %s when the other runs differ', r, k, ia, ib)
            if not ia:
                break
            n += 1
            for q in ('x', 'y', 'v', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'f_min', 'update_diff', 'alpha'):
                if q not in A.S[k] or np.ndim(A.S[k][q]) == 0:
                    continue
                a, b = A.S[k][q][r], B.S[k][q][col]
                if a.shape != b.shape:
                    bad('shape', 'step %d: %s of run %d has shape %s or %s', k, q, r, a.shape, b.shape)
                fin = np.isfinite(a) & np.isfinite(b)
                if not np.array_equal(np.isfinite(a), np.isfinite(b)) or \
                        np.any(np.abs(a[fin] - b[fin]) > tol * (1e-3 + np.abs(A.S[k]['x'][r]).max() + np.abs(a[fin]).max(initial=0.))):
                    bad('differs', 'step %d: %s of run %d is %s, but %s when the other runs differ', k, q, r,
                        a.ravel()[:6].tolist(), b.ravel()[:6].tolist())
        stats['reach.steps_compared'] += n
        return h64(wa.signature(), wb.signature()), wa.simtime() + wb.simtime(), n > 0


# ---------------------------------------------------------------------------------------
class HistoryOracle(Oracle):
    def on_init(self, w):
        self.want = {}
        d = w.dyn
        self.names = (w.case.get('track') or {}).get('names', ['update_norm', 'energy'])
        if w.case.get('track') is None and w.case['dyn'] == 'CBS':
            self.names = []         # CBS tracks nothing by default
        self.save = (w.case.get('track') or {}).get('save_int', 1)
        for n in self.names:
            self.want[n] = []
        if 'x' in self.names:
            self.want['x'] = [arr(d.x)]
        if 'drift' in self.names or 'consensus' in self.names:
            self.want['particle_idx'] = []
        self.probe = [] if w.case.get('faultytrack') else None
        self.compare(w)

    def on_step(self, w, st):
        k = int(st.S0.it)
        if k % self.save == 0:
            d = w.dyn
            for n in self.names:
                if n == 'update_norm':
                    v = st.S1.update_diff
                elif n == 'drift_mean':
                    dr = st.S1.drift
                    v = np.array([np.mean(np.abs(row)) for row in dr])
                elif n in ('it', 't'):
                    v = st.S0[n]
                elif n in st.S1:
                    v = st.S1[n]
                elif hasattr(d, n):
                    v = arr(getattr(d, n))
                else:
                    continue
                self.want[n].append(v)
            if 'particle_idx' in self.want:
                p = model.plan_step(st, w.case)
                self.want['particle_idx'].append(None if p.error or p.ambiguous or p.repeated else p)
            if self.probe is not None:
                self.probe.append(k)
        self.compare(w, last=True)

    def compare(self, w, last=False):
        h = w.dyn.history
        want = set(self.want) | ({'probe'} if self.probe is not None else set())
        if set(h) != want:
            bad('keys', 'the history holds %s, requested %s', sorted(h), sorted(want))
        if self.probe is not None and h['probe'] != self.probe:
            bad('extra', 'an extra track saw the iterations %s instead of %s', h['probe'], self.probe)
        for n, vals in self.want.items():
            if len(h[n]) != len(vals):
                bad('length', 'history[%r] has %d entries after %d steps with save_int %d', n, len(h[n]), w.steps, self.save)
            rng_ = range(len(vals) - 1, len(vals)) if last else range(len(vals))
            for i in rng_:
                if i < 0:
                    continue
                if n == 'particle_idx':
                    self.pidx(w, i, h[n][i], vals[i])
                elif n == 'drift_mean':
                    if not np.allclose(arr(h[n][i]), vals[i], rtol=1e-9, atol=1e-300, equal_nan=True):
                        bad('entry', 'history[%r][%d] is not the state after its step', n, i)
                elif not same(h[n][i], vals[i]):
                    bad('entry', 'history[%r][%d] is not the state after its step: %s, %s', n, i, arr(h[n][i]).ravel()[:6], vals[i].ravel()[:6])

    def pidx(self, w, i, got, p):
        if p is None or w.case['dyn'] in ('ParticleDynamic', 'CBXDynamic'):
            return
        # selects, per active run, the updated particles
        probe = np.arange(w.case['M'] * w.case['N']).reshape(w.case['M'], w.case['N'])
        sel = probe[got]
        want = np.array([[r * w.case['N'] + j for j in p.P[r]] for r in p.active])
        if sel.shape != want.shape or not np.array_equal(sel, want):
            bad('pidx', 'history[particle_idx][%d] does not select the updated particles', i)

    def on_end(self, w):
        self.compare(w)
        if w.case.get('reset'):
            reset(w)
            for n in self.want:
                self.want[n] = []
            if 'x' in self.names:
                self.want['x'] = [arr(w.dyn.x)]
            if self.probe is not None:
                self.probe = []
            self.compare(w)
            w.drive(max_steps=3)
            self.compare(w)


@register
class C09(Check):
    id = 'C09'
    extra = ('reg', 'resample', 'prox', 'sched', 'post')
    quick = 22500
    thorough = 300000
    rule = ('Random sets of tracked quantities (built-in and attribute names, extra tracks), save intervals, batches, per-run '
            'termination and resets; every entry is compared when written and again at the end of the run. Non-trivial: something '
            'is tracked and a step was taken.')

    def gen(self, rng):
        c = gen_case(rng, p_long=.01)
        names = ['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean', 'best_energy', 'best_particle', 'f_min', 'alpha',
                 'num_f_eval', 'best_cur_energy', 't', 'it']
        k = int(rng.integers(0, 7))
        sel = [names[i] for i in rng.permutation(len(names))[:k]]
        if c['dyn'] in MEMORY and rng.random() < .5:
            sel.append('y')
        if c['dyn'] == 'MirrorCBO' and rng.random() < .5:
            sel.append('y')
        if c['dyn'] == 'AdamCBO' and rng.random() < .4:
            sel += ['m', 'v'][int(rng.integers(0, 2)):]
        if c['dyn'] == 'PSO' and rng.random() < .3:
            sel.append('v')
        c['track'] = {'names': sel, 'save_int': int(pick(rng, [1, 2, 3, 5], [3, 2, 1, 1]))}
        if rng.random() < .1:
            c['track'].pop('save_int')
        u = rng.random()
        if u < .08:
            c['track'] = None
        elif u < .16:
            c['track'].pop('names')
        c['faultytrack'] = bool(rng.random() < .3) and c['track'] is not None
        c['mode'] = pick(rng, ['loop', 'optimize'])
        if c['mode'] == 'loop' and rng.random() < .3:
            c['reset'] = True
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        sig, t, nt = self.simple(case, stats, [HistoryOracle()])
        return sig, t, nt


# ---------------------------------------------------------------------------------------
class SchedOracle(Oracle):
    def on_init(self, w):
        self.bnd = 0

    def on_sched(self, w, st):
        case = w.case
        A, B = st.S1, st.S2
        s = case.get('sched')
        want = {k: A[k] for k in A}
        ups = s if isinstance(s, list) else []
        if s == 'default':
            ups = [] if case['dyn'] == 'CBS' else [{'k': 'multiply', 'name': 'alpha', 'factor': 1.05, 'maximum': 1e5}]
        elif s == 'effective':
            ups = [{'k': 'effective', 'eta': .5, 'maximum': 1e5, 'solve_max_it': 15}]
        reg = [u for u in ups if u['k'] == 'reg']
        ups = [u for u in ups if u['k'] != 'reg']
        named = {u.get('name', 'alpha') for u in ups}
        for k in ('x', 'y', 'v', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'it', 't', 'sigma', 'dt', 'lamda', 'alpha',
                  'consensus', 'f_min', 'update_diff'):
            if k in A and k not in named and not same(A[k], B[k]) and not (reg and k == 'num_f_eval'):
                bad('other', 'the schedule of %s changed %s', sorted(named), k)
        if reg:
            self.alpha_first = s.index(reg[0]) > 0
            self.regularisation(w, st, A, B, reg[0])
        cur = {k: np.array(A[k], float) for k in named}
        loose = None
        for u in ups:
            n = u.get('name', 'alpha')
            if u['k'] == 'multiply':
                cur[n] = np.minimum(u.get('maximum', 1e5), u['factor'] * cur[n])
            else:
                loose = u
                cur[n] = None
        for n in named:
            got = np.array(B[n], float)
            if loose is not None and n == loose.get('name', 'alpha'):
                self.effective(w, A, got, loose, ups[ups.index(loose) + 1:])
            elif got.shape != cur[n].shape or not np.allclose(got, cur[n], rtol=1e-13, atol=0):
                bad('multiply', '%s went from %s to %s, the schedule gives %s', n, A[n].ravel().tolist(), got.ravel().tolist(), cur[n].ravel().tolist())
            w.stats['reach.schedule_updates'] += 1

    def regularisation(self, w, st, A, B, u):
        """the parameters of the active runs whose particles violate more than 1/sqrt(theta) grow,
        the thresholds of the others"""
        case = w.case
        rows = w.obj.F[A.nrows:B.nrows]
        weighted = u.get('rule_mean', 'weighted') == 'weighted'
        N = case['N']
        reg = model.reg_rows
        if 'reg_lamda' in st.S0:
            lam0 = st.S0.reg_lamda
            p = model.plan_step(st, case)
            if p.error is None and case['dyn'] not in MEMORY and not p.ambiguous and not p.repeated:
                for r in p.active:
                    for i, want in zip(p.B[r], p.E[r]):
                        e = want - lam0[r, 0] * reg(case, st.S0.x[r, i], True)
                        if np.isfinite(want) and not abs(want - A.energy[r, i]) <= 1e-9 * (abs(e) + abs(want)) + lam0[r, 0] * 1e-12 * (1 + float(np.sum(st.S0.x[r, i] ** 2))):
                            bad('regularised', 'run %d: the energy of a particle is %r, its regularised value is %r', r, A.energy[r, i], want)
        if len(rows) != (N * len(st.active) if weighted else 0):
            bad('evaluations', 'the schedule evaluated %d points for %d active runs', len(rows), len(st.active))
        for r in range(case['M']):
            lam, th = float(A.reg_lamda[r, 0]), float(A.reg_theta[r])
            inc = int(B.num_f_eval[r] - A.num_f_eval[r])
            if inc != (N if weighted and r in st.active else 0):
                bad('charged', 'run %d is charged %d evaluations of the schedule', r, inc)
            if r not in st.active:
                want = (lam, th)
            else:
                R = np.array([reg(case, v) for v in A.x[r]], float)
                m = R.mean()
                if weighted:
                    a = st.active.index(r)
                    E = np.array(rows[a * N:(a + 1) * N]) + lam * np.array([reg(case, v, True) for v in A.x[r]])
                    al = float(B.alpha[r, 0] if self.alpha_first else A.alpha[r, 0])
                    wts = model.softmax(E, al)
                    if wts is None or al == 0 and not np.isfinite(E).all():
                        continue
                    m = float((wts * R).sum())
                if abs(m - th ** -.5) <= 1e-7 * (1 + np.abs(R).max()) * (1 if not weighted else 1 + np.abs(E).max() * al):
                    continue
                if m <= th ** -.5:
                    want = (lam, th * u.get('factor_theta', 1.1))
                else:
                    want = (lam * u.get('factor_lamda', 1.1), min(th / u.get('factor_theta', 1.1), u.get('theta_max', 1e5)))
            want = (min(want[0], u.get('lamda_max', 1e15)), want[1])
            got = (float(B.reg_lamda[r, 0]), float(B.reg_theta[r]))
            if not np.allclose(got, want, rtol=1e-12, atol=0):
                bad('regularisation', 'run %d: the regularisation parameter and its threshold went from %r to %r instead of %r', r, (lam, th), got, want)
            w.stats['reach.regularisation_updates'] += 1

    alpha_first = False

    def on_missed(self, w, S):
        bad('skipped', 'optimize() went from step %s to %s without applying the schedule', w.S0.it, S.it)

    def effective(self, w, A, got, u, after):
        M, N = w.case['M'], w.case['N']
        if got.shape != (M, 1):
            bad('shape', 'alpha has shape %s for %d runs', got.shape, M)
        if after:
            return
        mx, n = float(u.get('maximum', 1e5)), int(u.get('solve_max_it', 15))
        width = mx / 2. ** (n + 1)
        for r in range(M):
            E = A.energy[r]
            if not np.isfinite(E).any() or np.isnan(E).any() or np.any(E == -np.inf):
                continue
            a = float(got[r, 0])
            if not (1e-5 * (1 - 1e-9) <= a <= mx * (1 + 1e-9)):
                bad('range', 'run %d: alpha = %r is outside of [1e-5, %r]', r, a, mx)

            def J(al):
                wts = model.softmax(E, al)
                return 1. / float((wts ** 2).sum())
            goal = u['eta'] * N
            # rounding of the exponents when energies are huge
            fin = E[np.isfinite(E)]
            slack = 1e-2 + 1e-9 + N * 64 * 2.3e-16 * np.abs(fin).max() * a
            if slack > .3 * N:
                continue
            if abs(J(a) - goal) <= slack:
                continue
            # otherwise the root is within the resolution of the solver, or outside of the range
            w.stats['reach.schedule_at_resolution'] += 1
            lo, hi = max(a - 1.01 * width, 1e-5), min(a + 1.01 * width, mx)
            ok_low = J(lo) >= goal - slack or lo <= 1e-5 * (1 + 1e-9)
            ok_high = J(hi) <= goal + slack or hi >= mx * (1 - 1e-9)
            if not (ok_low and ok_high):
                bad('effective', 'run %d: alpha = %r gives an effective sample size of %.4g of %d particles, wanted %.4g '
                    '(%.4g at %r, %.4g at %r)', r, a, J(a), N, goal, J(lo), lo, J(hi), hi)


@register
class C14(Check):
    id = 'C14'
    extra = ('resample', 'prox', 'post', 'blind')
    quick = 22500
    thorough = 300000
    rule = ('Random schedules (default, multiplicative for alpha, sigma, dt or lamda with maxima, effective sample size with random '
            'targets, combinations) on random runs with batches, termination and injected energies. Non-trivial: a schedule was applied.')

    def gen(self, rng):
        c = gen_case(rng, corr=False, p_long=.01)
        k = pick(rng, ['default', 'effective', 'list', None], [2, 2, 5, .3])
        if k == 'list':
            ups = []
            for _ in range(int(pick(rng, [1, 2, 3], [4, 2, 1]))):
                if rng.random() < .5:
                    name = pick(rng, ['alpha', 'sigma', 'dt', 'lamda'], [4, 1, 1, 1])
                    if any(u['k'] == 'effective' for u in ups) and name == 'alpha':
                        name = 'sigma'
                    ups.append({'k': 'multiply', 'name': name, 'factor': float(pick(rng, [1.05, 2., .5, 1., 10.])),
                                'maximum': float(pick(rng, [1e5, 50., 1.]))})
                elif not any(u.get('name', 'alpha') == 'alpha' for u in ups):
                    ups.append({'k': 'effective', 'eta': float(pick(rng, [.5, .1, .9, .3])), 'maximum': float(pick(rng, [1e5, 1e3, 10.])),
                                'solve_max_it': int(pick(rng, [15, 5, 40]))})
            c['sched'] = ups
            c['kw'].pop('sigma_memory', None)
        else:
            c['sched'] = k
        if c['dyn'] in ('CBOMemory', 'PSO') and isinstance(c['sched'], list):
            c['kw']['sigma_memory'] = .3
        if c['dyn'] == 'PSO':
            pass
        if rng.random() < (.6 if c['dyn'] == 'RegCombinationCBO' else .08):
            gen_reg_sched(rng, c)
        if rng.random() < .25 and not gen.fragile(c) and c['dyn'] != 'HyperSurfaceCBO':
            c['faults'] = [{'at': 'obj', 'row': int(rng.integers(0, c['M'] * c['N'] * 5)), 'kind': 'value',
                            'value': pick(rng, [math.inf, 1e7, -1e7])} for _ in range(2)]
        return c

    def run(self, case, stats):
        o = [SchedOracle()]
        if not (case.get('faults') or case.get('resample') or 'prox' in (case.get('pp') or ()) or case.get('sched') == 'effective'):
            o.append(RefineOracle())      # the step uses the scheduled values
        return self.simple(case, stats, o)


# ---------------------------------------------------------------------------------------
def gen_reg_sched(rng, c):
    """a regularised objective whose parameter adapts to each run"""
    if len(c['d']) > 1 or c['dyn'] == 'RegCombinationCBO' and not c['kw']['constraints']:
        return False
    u = {'k': 'reg', 'theta': float(pick(rng, [1., .1, 100.])), 'factor_theta': float(pick(rng, [1.1, 2.])),
         'factor_lamda': float(pick(rng, [1.1, 3.])), 'rule_mean': pick(rng, ['weighted', 'simple'])}
    if rng.random() < .3:
        u['lamda_max'] = float(pick(rng, [1.5, 10.]))
    if rng.random() < .3:
        u['theta_max'] = float(pick(rng, [.05, 5., 50.]))
    ups = c['sched'] if isinstance(c.get('sched'), list) else []
    c['sched'] = [u] + ups if rng.random() < .5 else ups + [u]
    if c['dyn'] != 'RegCombinationCBO':
        n = c['d'][0]
        c['reg'] = {'func': pick(rng, ['L1', 'L0', {'name': 'Sphere', 'r': .7}, {'name': 'L1'},
                                       'Sphere', {'name': 'L0', 'lamda': .5}, {'name': 'L1', 'lamda': 2.}, gen_quadric(rng, n),
                                       {'name': 'Plane', 'a': [float(v) for v in np.round(rng.uniform(.2, 1.5, n), 2)], 'b': .5}]),
                    'lamda': float(pick(rng, [1., .1, 5.])), 'p': pick(rng, [1, 2, 1.5, 3.])}
        c['check_f_dims'] = bool(rng.random() < .5)
    return True


def gen_quadric(rng, n):
    q = {'name': 'Quadric', 'A': np.round(rng.uniform(-1, 1, (n, n)), 2).tolist(), 'b': [float(v) for v in np.round(rng.uniform(-1, 1, n), 2)]}
    if rng.random() < .7:
        q['c'] = float(pick(rng, [-1., .5]))
    return q


class ResampleOracle(Oracle):
    def on_init(self, w):
        self.n = np.zeros(w.case['M'])
        self.bc = None

        self.state = {}

    def criterion(self, j, q, w, st, res):
        M, k = w.case['M'], q['k']
        if k == 'custom':
            return set(q['at'].get(str(w.steps - 1), []))
        if k == 'ensemble':
            return {r for r in range(M) if res['update_diff'][r] < q['thr']}
        if k == 'loss':
            s = self.state.setdefault(j, {'wait': np.zeros(M, int), 'best': np.full(M, np.inf)})
            s['wait'] += 1
            for r in range(M):
                if s['best'][r] > res['best_energy'][r]:
                    s['best'][r] = res['best_energy'][r]
                    s['wait'][r] = 0
            hit = {r for r in range(M) if s['wait'][r] >= q['wait']}
            s['wait'] = np.mod(s['wait'], q['wait'])
            return hit
        # the consensus moved less than the threshold in each of the last steps
        s = self.state.setdefault(j, {'moves': {}, 'old': {}})
        hit = set()
        for a, r in enumerate(st.active):
            c = model.vec(st.S1.consensus[a])
            if r in s['old']:
                m = s['moves'].setdefault(r, [])
                m.append(math.sqrt(float(((c - s['old'][r]) ** 2).sum())))
                if max(m[-q['patience']:]) < q['thr']:
                    hit.add(r)
            s['old'][r] = c
        return hit

    def on_step(self, w, st):
        res, spec, M = st.res, w.case['resample'], w.case['M']
        if res is None:
            bad('missing', 'post processing was not called in step %d', w.steps)
        hit = set()
        for j, q in enumerate(spec['crits']):
            hit |= self.criterion(j, q, w, st, res)
        hit = sorted(hit & set(st.active))
        for r in hit:
            self.n[r] += 1
        if not same(res['num1'] if res['num1'] is not None else np.zeros(M), self.n):
            bad('count', 'step %d: resampled %s times, the criterion selected %s', w.steps, res['num1'], self.n.tolist())
        pre, post_ = res['pre'], res['post']
        draws = w.sampler.draws[res['draw0']:]
        for r in range(M):
            if r not in hit and not same(pre[r], post_[r]):
                bad('other', 'step %d: the resampling of runs %s moved run %d', w.steps, hit, r)
        if hit:
            w.stats['reach.resamplings'] += len(hit)
            if spec.get('apply'):
                if len(draws) or not same(pre[hit] + 1.5, post_[hit]):
                    bad('apply', 'step %d: the given function was not applied once to the runs %s', w.steps, hit)
                draws = ()
            elif len(draws) != 1 or draws[0].shape != (len(hit),) + pre.shape[1:]:
                bad('draws', 'step %d: draws of shape %s for the resampled runs %s', w.steps, [d.shape for d in draws], hit)
            for a, r in enumerate(hit if len(draws) else ()):
                want = pre[r] + spec['sigma'] * math.sqrt(float(st.S0.dt)) * draws[0][a]
                if not np.allclose(want, post_[r], rtol=1e-9, atol=1e-12):
                    bad('noise', 'step %d: run %d was not moved by sigma*sqrt(dt) times its draws', w.steps, r)
        moved = {spec.get('var', 'x')}
        for q in ('x', 'y', 'v', 'm', 'energy', 'alpha', 'best_particle', 'best_energy', 'consensus', 'drift', 'it', 't', 'update_diff'):
            if q not in moved and q in res['snap'] and not same(res['snap'][q], res['snap1'][q]):
                bad('changes', 'step %d: resampling changed %s', w.steps, q)
        if spec['best']:
            rows = w.obj.X[res['row0']:res['row1']]
            F = w.obj.F[res['row0']:res['row1']]
            per = len(rows) // max(len(hit), 1)
            if self.bc is None:
                self.bc = {}
            for a, r in enumerate(hit):
                for j in range(per):
                    x, e = rows[a * per + j], F[a * per + j]
                    if w.case['dyn'] != 'PolarCBO':
                        c = model.vec(st.S1.consensus[st.active.index(r)])
                        if not np.array_equal(c, x, equal_nan=True):
                            bad('best', 'step %d: the consensus of run %d was not evaluated on resampling', w.steps, r)
                    g = model.reg_value(w.case, x, model.run_lam(res['snap'], r))
                    mag = 1e-12 * (abs(e) + abs(g))
                    e += g
                    if math.isnan(e):
                        e = math.inf              # no number: nothing was found
                    old = self.bc.get((r, j))
                    if old is None or e < old[0]:
                        self.bc[(r, j)] = (e, x, mag)
            rs = w.resampling
            if self.bc and hasattr(rs, 'best_consensus_energy') and w.case['dyn'] != 'PolarCBO':
                for (r, j), (e, x, mag) in self.bc.items():
                    got = float(rs.best_consensus_energy[r, j])
                    if got != e and not abs(got - e) <= mag:
                        bad('best', 'step %d: best consensus energy of run %d is %r, the smallest found on resampling is %r',
                            w.steps, r, float(rs.best_consensus_energy[r, j]), e)
                    if np.isfinite(e) and not same(model.vec(rs.best_consensus[r, j]), x):
                        bad('best', 'step %d: best consensus of run %d is not the point its energy belongs to', w.steps, r)


@register
class C15(Check):
    id = 'C15'
    extra = ('reg', 'sched', 'obs', 'blind')
    quick = 22500
    thorough = 300000
    rule = ('Resampling as post processing with built-in and scheduled criteria, several runs, batches, per-run termination. '
            'Non-trivial: some run was resampled.')

    def gen(self, rng):
        c = gen_case(rng, dyns=[d for d in ALL if d != 'HyperSurfaceCBO'], max_steps=10,
                     extreme_alpha=False, x_none=.05, M=int(pick(rng, [1, 2, 3, 4], [1, 2, 2, 1])))
        c['resample'] = gen_resample(rng, c)
        c['pp'] = None
        return c

    def run(self, case, stats):
        o = ResampleOracle()
        sig, t, nt = self.simple(case, stats, [o])
        return sig, t, bool(o.n.sum() > 0)


# ---------------------------------------------------------------------------------------
class FeasibleOracle(Oracle):
    def on_step(self, w, st):
        case = w.case
        X = st.S1.x
        moved = [(r, i) for r in st.active for i in range(case['N'])]
        if case['dyn'] == 'HyperSurfaceCBO':
            s = case['kw'].get('sdf') or {'name': 'sphere'}
            p = model.plan_step(st, case)
            if p.error or p.repeated:
                return
            for r in p.active:
                for i in p.P[r]:
                    x = model.vec(X[r, i])
                    if np.any(np.abs(x) >= 1e8):
                        continue
                    if s['name'] == 'sphere':
                        e = abs(np.linalg.norm(x) - 1.)
                    elif s['name'] == 'plane':
                        a = np.array(s['a'], float)
                        e = abs(float(a @ x) - s.get('b', 1.)) / (np.linalg.norm(a) * (1 + np.linalg.norm(x)))
                    else:
                        Q = x.reshape(s['nk'])
                        e = np.abs(Q.T @ Q - np.eye(s['nk'][1])).max()
                    if not e <= 1e-9:
                        bad('surface', 'step %d: particle %d of run %d is %.3g away from the surface', w.steps, i, r, e)
                    w.stats['reach.points_checked'] += 1
            self.best(w, st)
            return
        pre = st.pp_pre if isinstance(case.get('pp'), dict) else st.S1.y    # what was projected
        self.stepped |= set(st.active)
        for r in sorted(self.stepped):      # (runs that never took a step stay where the caller put them)
            for i in range(case['N']):
                e = outside(case, model.vec(X[r, i]))
                big = np.abs(pre[r, i]).max() if pre is not None else 0.
                if e is not None and not e <= 1e-9 + 1e-14 * (big if big < 1e12 else 1e12):
                    bad('domain', 'step %d: particle %d of run %d violates the constraint by %.3g: %s', w.steps, i, r, e, X[r, i].tolist())
                w.stats['reach.points_checked'] += 1

    def on_init(self, w):
        self.stepped = set()

    def best(self, w, st):
        pass


def outside(case, x):
    m = case['pp']['prox'] if isinstance(case.get('pp'), dict) else model.mirror_spec(case)
    n = m['name']
    if np.any(np.abs(x) >= 1e8):
        return None
    if n == 'ProjectionBall':
        return np.linalg.norm(x - np.array(m.get('center', 0.))) - m.get('radius', 1.)
    if n == 'ProjectionHyperplane':
        a = np.array(m['a'], float)
        return abs(float(a @ x) - m.get('b', 0)) / (np.linalg.norm(a) * (1 + np.linalg.norm(x)))
    if n == 'ProjectionSphere':
        return abs(np.linalg.norm(x) - m.get('r', 1.))
    if n == 'ProjectionSquare':
        return abs(np.abs(x).max() - m.get('r', 1.))
    if n in ('LogBarrierBox', 'NonsmoothBarrier'):
        return np.abs(x).max() - 1.
    if n == 'Entropy':
        return -x.min()
    if n == 'ProjectionStiefel':
        Q = x.reshape(m['nk'])
        return np.abs(Q.T @ Q - np.eye(m['nk'][1])).max()
    if n == 'EntropySimplex':
        return max(abs(x.sum() - 1.), -x.min())
    return None


@register
class C13(Check):
    id = 'C13'
    extra = ('reg', 'sched', 'post', 'obs', 'blind')
    quick = 22500
    thorough = 300000
    rule = ('MirrorCBO with every constraining mirror map and HyperSurfaceCBO on spheres, planes and Stiefel manifolds, with large '
            'noise, extreme draws, batches and per-run termination; feasibility of every particle after every step. Non-trivial: a step.')

    def gen(self, rng):
        if rng.random() < .2:
            return self.gen_prox(rng)
        while True:
            c = gen_case(rng, dyns=['MirrorCBO', 'HyperSurfaceCBO'], weights={'MirrorCBO': 1.4, 'HyperSurfaceCBO': 1.})
            if c['dyn'] == 'HyperSurfaceCBO' or model.mirror_spec(c)['name'] not in ('L2', 'None', 'ElasticNet'):
                break
        if rng.random() < .4:
            c['kw']['sigma'] = float(pick(rng, [5.1, 30.]))
        return c

    def gen_prox(self, rng):
        while True:
            m = gen.gen_mirror(rng, [int(pick(rng, [1, 2, 3]))])
            m = {'name': m} if isinstance(m, str) else m
            if m and m['name'].startswith('Projection'):
                break
        c = gen_case(rng, dyns=['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'CBS'], multi_d=False, heavy_draws=False, x_none=0)
        n = len(m['a']) if 'a' in m else len(m['center']) if 'center' in m else int(np.prod(m['nk'])) if 'nk' in m else c['d'][0]
        c['d'] = [n]
        c['obj'] = gen_objective(rng, c['d'])
        c['x'].update(kind='uniform' if rng.random() < .7 or m['name'] == 'ProjectionStiefel' else 'dup')
        c['pp'] = {'prox': m}
        return c

    def run(self, case, stats):
        return self.simple(case, stats, [FeasibleOracle()])


# ---------------------------------------------------------------------------------------
class SegWorld(World):
    pass


@register
class C20(Check):
    id = 'C20'
    extra = ('reg', 'resample', 'prox', 'sched', 'post')
    quick = 8750
    thorough = 150000
    rule = ('The same run is executed by one optimize() call, by a loop of steps, and by optimize() calls cut at random steps with '
            'all runs paused and the call repeated (with repeated criteria evaluations in between). Non-trivial: at least one cut '
            'inside of the run.')

    def gen(self, rng):
        c = gen_case(rng, x_none=.1, max_steps=9, p_long=.01)
        T = [t['v'] for t in c['term'] if t['k'] == 'max_it'][0]
        if rng.random() < .3 and c['dyn'] not in ('CBS',):
            c['term'].append({'k': 'stagnation', 'patience': int(pick(rng, [1, 2, 3])), 'thr': float(pick(rng, [1e-9, 1e-2, 1.])), 'style': 'inst'})
        if rng.random() < .2:
            c['resample'] = gen_resample(rng, c)
            c['pp'] = None
        c['cuts'] = sorted({int(v) for v in rng.integers(1, max(T, 2), int(rng.integers(1, 4)))})
        c['extra'] = int(rng.integers(0, 3))
        c['how'] = pick(rng, ['loop', 'pulse', 'pulse'])
        if rng.random() < .15:          # nobody asks whether to go on
            c['how'] = 'steps'
            c['term'] = [{'k': 'max_it', 'v': max(T, 1), 'style': 'inst'}]
            c['cuts'] = [int(rng.integers(0, max(T, 1)))]
        c['schedname'] = pick(rng, ['default', 'effective', None, 'omit'])
        c['lib_rng'] = bool(rng.random() < .3)
        if c['lib_rng']:
            c['seed'] = int(rng.integers(1000))
        c['track'] = {'names': ['x', 'energy', 'update_norm', 'consensus', 'best_energy'], 'save_int': int(pick(rng, [1, 2]))}
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        a = self.once(case, stats, 'whole')
        b = self.once(case, stats, case['how'])
        k = diff_state(a[0], b[0])
        if k:
            bad('state', 'cut at %s (%s): %s differs from the uninterrupted run: %s, %s', case['cuts'], case['how'], k,
                np.ravel(b[0].get(k))[:5], np.ravel(a[0].get(k))[:5])
        for n in a[1]:
            if len(a[1][n]) != len(b[1].get(n, [])) or any(not same(u, v) for u, v in zip(a[1][n], b[1][n])):
                bad('history', 'cut at %s (%s): history[%r] differs from the uninterrupted run', case['cuts'], case['how'], n)
        if a[2] is not None and b[2] is not None and not same(a[2], b[2]):
            bad('result', 'the returned particle differs')
        cutin = any(k < int(a[0]['it']) for k in case['cuts'])
        return h64(a[3], case['cuts'], case['how']), a[4], cutin

    def once(self, case, stats, how):
        c = dict(case, mode='loop')
        if case['lib_rng']:
            c['sampler'] = None
        w = World(c, [], stats)
        cbs = c['dyn'] == 'CBS'
        pulse = None
        if how == 'pulse':
            pulse = CutTerm(case['cuts'], case['M'])
            w.extra_term = [pulse]
        w.build()
        name = case['schedname']
        if cbs or how in ('pulse', 'steps'):
            import cbx.scheduler as cs
            sched = w.dyn.default_sched() if name in ('default', 'omit') else cs.scheduler([cs.effective_sample_size()]) if name == 'effective' else cs.scheduler([])
        else:
            sched = name
        res = None
        if how == 'loop':
            import cbx.scheduler as cs
            if not cbs:
                sched = w.dyn.default_sched() if name in ('default', 'omit') else cs.scheduler([cs.effective_sample_size()]) if name == 'effective' else cs.scheduler([])
            n = 0
            while True:
                for _ in range(case['extra'] if n in case['cuts'] else 0):
                    w.lib(w.dyn.terminate)
                if w.lib(w.dyn.terminate):
                    break
                w.lib(w.dyn.step)
                w.lib(sched.update, w.dyn)
                n += 1
                if n > 400:
                    bad('nonterminating', 'no termination')
        elif how == 'steps':
            for i in range(case['term'][0]['v']):
                w.lib(w.dyn.step)
                w.lib(sched.update, w.dyn)
            if not w.lib(w.dyn.terminate):
                bad('nonterminating', 'after %d steps, the run does not end', case['term'][0]['v'])
        elif how == 'pulse':
            for _ in range(len(case['cuts']) + 1):
                pulse.fired_now = False
                res = w.lib(w.dyn.optimize, sched=sched)
                for _ in range(case['extra']):
                    pulse.hold = True
                    w.lib(w.dyn.terminate)
                    pulse.hold = False
                if not pulse.fired_now:
                    break
        else:
            res = w.lib(w.dyn.optimize, **({} if name == 'omit' else {'sched': sched}))
        fin = final(w)
        return fin, {k: list(v) for k, v in w.dyn.history.items()}, None if cbs or how in ('loop', 'steps') else arr(res), w.signature(), w.simtime()


class CutTerm:
    """stops all runs once at each of the given steps"""

    def __init__(self, cuts, M):
        self.cuts, self.M = set(cuts), M
        self.fired_now = False
        self.hold = False

    def __call__(self, dyn):
        k = int(dyn.it)
        if not self.hold and k in self.cuts:
            self.cuts.discard(k)
            self.fired_now = True
            return np.ones((self.M,), dtype=bool)
        return np.zeros((self.M,), dtype=bool)
