"""Properties decided step by step on simulated runs."""
import copy
import math

import numpy as np

from . import gen, model
from .checks import Check, register, bad, fval_of, key, gen_case
from .gen import ALL
from .util import pick, same
from .world import Oracle, MEMORY, OwnPost

PER_PARTICLE = ('x', 'y', 'v', 'm', 'energy')


# ---------------------------------------------------------------------------------------
def feasible(c):
    """start MirrorCBO in the image of its mirror map, where the first step changes nothing by itself"""
    if c['dyn'] == 'MirrorCBO':
        n = model.mirror_spec(c)['name']
        c['x']['project'] = n.startswith('Projection')


def gen_prox(rng, c):
    """the map of a mirror dynamic as post processing"""
    for _ in range(20):
        m = gen.gen_mirror(rng, c['d'])
        m = {'name': m} if isinstance(m, str) else m
        if not m or m['name'] in ('None', 'weighted_L2', 'EntropySimplex'):
            continue
        k, mode = c['kw'], (c.get('sampler') or {}).get('mode', 'normal')
        if m['name'] == 'Entropy' and not (k.get('dt', .01) <= .1 and k.get('sigma', 5.1) <= 1 and k.get('noise') in ('isotropic', 'anisotropic')
                                           and mode == 'normal' and c['dyn'] != 'PSO' and (c.get('x') or {}).get('scale', 1.) <= 3):
            continue            # (exponentials)
        if m['name'] == 'ProjectionStiefel' and (c.get('faults') or c['obj'].get('poison')):
            continue            # (it needs finite numbers)
        if c['dyn'] == 'DriftConstrainedCBO' or (c['dyn'] == 'MirrorCBO' or gen.fragile(c)) and not (
                m['name'].startswith('Projection') and m['name'] != 'ProjectionStiefel'):
            continue            # (it would not keep them near the constraint, or within bounds)
        n = len(m['a']) if 'a' in m else len(m['center']) if 'center' in m else int(np.prod(m['nk'])) if 'nk' in m else c['d'][-1]
        if len(c['d']) == 1 and n == c['d'][0]:
            c['pp'] = {'prox': m}
            return


class FrozenOracle(Oracle):
    """runs without a row in this step are bitwise the same afterwards"""

    def __init__(self):
        self.term = TermOracle()

    def on_init(self, w):
        self.term.on_init(w)

    def on_step(self, w, st):
        M = w.case['M']
        C = self.term.criteria(w, st.S0)
        for r in range(M):
            if not C[:, r].any() and r not in st.active:
                bad('resume', 'step %d: no criterion holds for run %d, but it does not continue', w.steps - 1, r)
        if len(st.active) < M:
            w.stats['reach.partially_terminated_step'] += 1
        for r in range(M):
            if r in st.active:
                continue
            for k in PER_PARTICLE + ('best_particle', 'best_energy', 'num_f_eval', 'alpha'):
                a, b = st.S0.get(k), st.S1.get(k)
                if a is None or b is None or np.ndim(a) == 0:
                    continue
                if k in ('best_particle', 'best_energy') and w.steps == 1:
                    continue        # the initial energies are first reported after the first step
                if not same(a[r], b[r]):
                    if k == 'x' and w.case.get('resample') and same(np.clip(a[r], -1e8, 1e8), b[r]):
                        continue        # (resampled beyond what the post-processing allows)
                    bad('frozen', 'terminated run %d: %s changed in step %d', r, k, w.steps)
        p = model.plan_step(st, w.case)
        if p.error:
            bad('evaluated', p.error)
        if w.case['dyn'] in ('ParticleDynamic', 'CBXDynamic'):
            return
        # every point asked for belongs to an active run
        if any(e != e for e in st.F) or p.ambiguous:
            return
        for r in range(M):
            if r in st.active:
                continue
            rowset = {key(v) for v in st.S0.x[r]} | ({key(v) for v in st.S0.y[r]} if 'y' in st.S0 else set())
            act = {key(v) for q in st.active for v in st.S0.x[q]}
            for x in st.X:
                if key(x) in rowset and key(x) not in act:
                    bad('evaluated', 'the objective was evaluated at a particle of the terminated run %d', r)

    def on_terminate(self, w, B, A, fin):
        for k in B:
            if k in ('num_f_eval', 'nrows', 'ncalls') and any(t['k'] == 'stagnation' for t in w.case.get('term') or []):
                continue
            if k in ('ndraws', 'hist'):
                continue
            if not same(B[k], A[k]):
                bad('terminate', 'terminate() changed %s', k)


@register
class C02(Check):
    id = 'C02'
    extra = ('reg', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 22500
    thorough = 400000
    rule = ('Several runs with random per-run termination schedules, including pauses (a criterion that stops holding), all '
            'dynamics, batches and corrections. Non-trivial: at least one step with some runs terminated and some active.')

    def gen(self, rng):
        c = gen_case(rng, M=int(pick(rng, [2, 3, 4])), p_long=.01)
        T = 8
        if not any(t['k'] == 'sched' for t in c['term']) or rng.random() < .5:
            c['term'] = [t for t in c['term'] if t['k'] != 'sched']
            at = [int(v) for v in rng.integers(0, T, c['M'])]
            c['term'].insert(0, {'k': 'sched', 'at': at})
        if c['x'] is not None and c['x']['kind'] in ('dup', 'same'):
            c['x']['kind'] = 'uniform'
        if rng.random() < .25:
            # pauses: runs stop for single steps and continue later
            at = {str(i): [int(v) for v in range(c['M']) if rng.random() < .5] for i in range(T) if rng.random() < .5}
            c['term'] = [{'k': 'pause', 'at': at}, {'k': 'max_it', 'v': T}]
        c['sched'] = None if rng.random() < .5 else c['sched']
        u = rng.random()
        if u < .15 and c['sampler']['mode'] != 'big':   # (what was resampled beyond the threshold is clipped later)
            c['resample'] = gen_resample(rng, c)
        elif u < .3:
            gen_prox(rng, c)
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        sig, t, _ = self.simple(case, stats, [FrozenOracle()])
        return sig, t, True


# ---------------------------------------------------------------------------------------
class ConsensusOracle(Oracle):
    def on_step(self, w, st):
        p = model.plan_step(st, w.case)
        if p.error:
            bad('evaluation', p.error)
        case, S0 = w.case, st.S0
        C = st.S1.consensus
        if C is None or len(C) != len(p.active):
            bad('shape', 'consensus has %s rows for %d active runs', None if C is None else len(C), len(p.active))
        batched, bs, partial, var = model.batch_conf(case)
        if p.repeated or (p.ambiguous and case['dyn'] == 'PolarCBO'):
            return
        for a, r in enumerate(p.active):
            al = float(S0.alpha[r, 0])
            if case['dyn'] in MEMORY:
                if batched and not partial:
                    # the batch is only visible through the consensus: some batch has to fit it
                    if p.B[r] is None or var == 'concat':
                        continue
                B = p.B[r]
                E, pts = [S0.energy[r, i] for i in B], S0.y[r]
                if p.ambiguous:
                    continue
            else:
                B, E, pts = p.B[r], p.E[r], S0.x[r]
            ref = model.consensus(case, pts, E, B, p.P[r], al)
            got = [model.vec(c) for c in C[a]]
            if len(ref) != len(got):
                bad('shape', 'run %d: %d consensus points for %d updated particles', r, len(got), len(ref))
            XB = np.array([model.vec(pts[i]) for i in B])
            size = np.abs(XB).max() if XB.size else 0.
            for j, (c, wts, mag) in enumerate(ref):
                if c is None:
                    continue
                w.stats['reach.consensus_checked'] += 1
                if mag > 700:
                    w.stats['reach.exponents_beyond_exp_range'] += 1
                if not np.all(np.isfinite(got[j])):
                    bad('nonfinite', 'run %d: consensus %s although a finite weighted mean exists', r, got[j])
                tol = size * (1e-12 + 64 * mag * 2.3e-16) + 1e-300
                lo, hi = XB.min(0), XB.max(0)
                hull = size * (1e-12 + 4 * mag * 2.3e-16)
                if np.any(got[j] < lo - hull) or np.any(got[j] > hi + hull):
                    bad('hull', 'run %d: consensus %s is outside of the range of its particles', r, got[j])
                if tol < .1 * size and np.any(np.abs(got[j] - c) > tol):
                    bad('mean', 'run %d: consensus %s, weighted mean %s', r, got[j].tolist(), c.tolist())


@register
class C04(Check):
    id = 'C04'
    extra = ('reg', 'resample', 'prox', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 22500
    thorough = 400000
    rule = ('Cases stress the weights: exponents from 0 to 1e15, energies scaled to 1e12 and shifted by 1e9, isolated +inf answers, '
            'equal energies, clusters; every consensus point of every step is compared with a per-run reference. Non-trivial: '
            'a step was taken.')

    def gen(self, rng):
        c = gen_case(rng, dyns=[d for d in ALL], corr=rng.random() < .3, p_long=.01)
        k = c['kw']
        c['obj']['scale'] = float(pick(rng, [1., 1e-6, 1e3, 1e9, 1e12, -1.], [5, 1, 1, 1, 1, 1]))
        c['obj']['offset'] = float(pick(rng, [0., -1e3, 1e9, -1e12], [5, 2, 1, 1]))
        if rng.random() < .35:
            big = [0.01, 1., 1e3, 1e7, 1e12, 1e15]
            k['alpha'] = [float(pick(rng, big)) for _ in range(c['M'])] if rng.random() < .5 else float(pick(rng, big))
        if k['noise'] in ('covariance', 'sampling') and c['dyn'] != 'CBS':
            k['noise'] = 'isotropic'
        fragile = c['dyn'] == 'CBS' or gen.fragile(c) and k['noise'] not in ('covariance', 'sampling')
        if np.any(np.array(k['alpha']) == 0):
            fragile = True      # 0 * inf: no weighted mean is defined
        if rng.random() < .3 and not fragile and (k.get('batch_args') or {}).get('var') != 'concat':
            c['faults'] = [{'at': 'obj', 'row': int(rng.integers(0, c['M'] * c['N'] * 5)), 'kind': 'value',
                            'value': pick(rng, [math.inf, 1e200, -1e12])} for _ in range(int(rng.integers(1, 4)))]
        return c

    def run(self, case, stats):
        return self.simple(case, stats, [ConsensusOracle()])


# ---------------------------------------------------------------------------------------
def post(x):
    return model.clip(x)


class RefineOracle(Oracle):
    rtol = 1e-9

    def on_init(self, w):
        if w.case['dyn'] != 'MirrorCBO':
            return
        S = w.snap()
        for r in range(w.case['M']):
            for i in range(w.case['N']):
                ref = model.mirror_grad(w.case, S.x[r, i])
                got = model.vec(S.y[r, i])
                if np.all(np.isfinite(ref)) and not np.allclose(got, ref, rtol=1e-6, atol=2e-5 if model.mirror_spec(w.case)['name'] == 'Entropy' else 1e-9):
                    bad('mirror', 'run %d, particle %d: the mirror variable of %s is %s instead of %s', r, i,
                        model.vec(S.x[r, i]).tolist(), got.tolist(), ref.tolist())
                w.stats['reach.mirror_starts'] += 1

    def on_step(self, w, st):
        case = w.case
        p = model.plan_step(st, case)
        if p.error:
            bad('evaluation', p.error)
        if p.repeated or p.ambiguous:
            return
        if any(p.B[r] is None for r in p.active):
            return
        pr = model.predict(st, case, p, fval_of(w, st.S0))
        if pr is None:
            return
        for (name, r, i, val, scale) in pr.items:
            if name == 'x':
                got = st.pp_pre[r, i] if st.pp_pre is not None else st.S1.x[r, i]
                if st.pp_pre is None:
                    val = model.clip(val)
            else:
                got = getattr(st.S1, name)[r, i]
            got = model.vec(got)
            if not np.all(np.isfinite(val)) or not np.all(np.isfinite(scale)):
                continue
            w.stats['reach.updates_compared'] += 1
            tol = self.rtol * scale + 1e-13
            if not np.all(np.abs(got - val) <= tol):
                bad('update', 'step %d, run %d, particle %d: %s became %s, the scheme gives %s', w.steps, r, i, name,
                    got.tolist(), val.tolist())
        if case['dyn'] == 'MirrorCBO':
            self.mirror(w, st, p)
        if st.pp_pre is not None and st.pp_post is not None:
            pp = case.get('pp')
            want = model.clip(st.pp_pre) if not isinstance(pp, dict) else OwnPost.want(pp, st.pp_pre, st.active)
            if not same(want, st.pp_post):
                bad('post', 'step %d: the post processing gave %s', w.steps, st.pp_post.tolist())

    def mirror(self, w, st, p):
        for r in p.active:
            for i in p.P[r]:
                ref = model.mirror_grad_conj(w.case, st.S1.y[r, i])
                if not np.all(np.isfinite(ref)):
                    continue
                got = model.vec(st.pp_pre[r, i] if st.pp_pre is not None else st.S1.x[r, i])
                ref2 = ref if st.pp_pre is not None else model.clip(ref)
                if not np.allclose(got, ref2, rtol=1e-8, atol=1e-9 * (1 + np.abs(model.vec(st.S1.y[r, i])).max())):
                    bad('mirror', 'step %d, run %d, particle %d: x = %s is not the mirror image %s of y', w.steps, r, i,
                        got.tolist(), ref.tolist())


@register
class C05(Check):
    id = 'C05'
    extra = ('reg', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 22500
    thorough = 400000
    rule = ('All ten dynamics with all noise models, corrections, kernels, mirror maps, constraints, batches and per-run termination; '
            'each observed update is compared with a scalar reference implementation fed the same draws. Non-trivial: a step was taken.')

    def gen(self, rng):
        c = gen_case(rng, x_none=.05, p_long=.01)
        if c['x'] is not None and c['x']['kind'] in ('dup', 'same'):
            c['x']['kind'] = 'uniform'
        if c['dyn'] == 'RegCombinationCBO':
            c['kw'].pop('correction', None)
        if c['kw'].get('correction') == 'heavi_side_reg':
            c['kw']['correction_eps'] = float(pick(rng, [.01, .1, 1.]))
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        return self.simple(case, stats, [RefineOracle()])


# ---------------------------------------------------------------------------------------
class BatchOracle(Oracle):
    def on_init(self, w):
        self.hist = {r: [] for r in range(w.case['M'])}
        self.always = set(range(w.case['M']))
        self.ok = True

    def on_step(self, w, st):
        case = w.case
        N = case['N']
        p = model.plan_step(st, case)
        if p.error:
            bad('evaluation', p.error)
        batched, bs, partial, var = model.batch_conf(case)
        if p.ambiguous:
            self.ok = False
            return
        s = w.steps - 1
        self.always &= set(p.active)
        if case['kw'].get('save_consensus_eval_points'):
            self.points(w, st, p)
        for r in p.active:
            B = p.B[r]
            if B is None:
                continue
            if len(B) != bs:
                bad('size', 'step %d, run %d: %d particles take part instead of %d', s, r, len(B), bs)
            P = set(p.P[r])
            # who moved
            for i in range(N):
                if partial and batched and i not in P:
                    for k in PER_PARTICLE:
                        a, b = st.S0.get(k), st.S1.get(k)
                        if k == 'x' and isinstance(case.get('pp'), dict):
                            b = st.pp_pre       # (a box of the caller holds for all particles)
                        if a is None or np.ndim(a) < 2:
                            continue
                        if k == 'x' and case['dyn'] == 'MirrorCBO' and w.steps == 1:
                            if not np.allclose(a[r, i], b[r, i], rtol=1e-6, atol=1e-6):
                                bad('outside', 'step %d, run %d: particle %d is not in the batch but moved', s, r, i)
                            continue
                        if not same(a[r, i], b[r, i]):
                            bad('outside', 'step %d, run %d: particle %d is not in the batch but its %s changed', s, r, i, k)
                elif case['dyn'] not in MEMORY and i not in B and not same(st.S0.energy[r, i], st.S1.energy[r, i]):
                    bad('outside', 'step %d, run %d: energy of particle %d changed without an evaluation', s, r, i)
            # (a memory drift with lamda_memory * dt = 1 returns to the memory exactly)
            if float(np.ravel(st.S0.sigma)[0]) > 0 and case['kw']['noise'] == 'constant' \
                    and case['kw'].get('lamda_memory', 0.) * float(np.ravel(st.S0.dt)[0]) != 1. \
                    and case['sampler']['mode'] == 'normal' and case['dyn'] not in ('MirrorCBO',) and p.E[r] is not None:
                X1 = st.pp_pre if st.pp_pre is not None else st.S1.x
                for i in P:
                    if np.all(np.isfinite(X1[r, i])) and np.abs(X1[r, i]).max() < 1e7 and same(st.S0.x[r, i], X1[r, i]) \
                            and np.abs(st.S0.x[r, i]).max() < 1e2:
                        bad('missed', 'step %d, run %d: particle %d should have moved', s, r, i)
            if case['dyn'] in MEMORY and not partial:
                continue
            self.hist[r].append((s, list(B)))
            if batched:
                self.passes(case, r, s, N, bs, var)

    def points(self, w, st, p):
        """the stored points are those the energies belong to"""
        C0, C1 = st.S0.get('consensus_eval_points'), st.S1.get('consensus_eval_points')
        if C1 is None:
            bad('points', 'the evaluated points are not stored')
        for r in range(w.case['M']):
            for i in range(w.case['N']):
                if r in p.active and i in p.B[r]:
                    if not same(C1[r, i], st.S0.x[r, i]):
                        bad('points', 'step %d: the stored point of particle %d of run %d is not the one that was evaluated', w.steps, i, r)
                elif C0 is not None and not same(C0[r, i], C1[r, i]):
                    bad('points', 'step %d: the stored point of particle %d of run %d changed without an evaluation', w.steps, i, r)
        w.stats['reach.stored_points'] += 1

    def passes(self, case, r, s, N, bs, var):
        if var == 'resample':
            per = N // bs
            cur = [i for (t, B) in self.hist[r] if t // per == s // per for i in B]
            if len(cur) != len(set(cur)):
                bad('pass', 'run %d: a particle was taken twice in one pass over the ensemble: %s', r, cur)
        elif r in self.always and len(self.hist[r]) == s + 1:
            n = (s + 1) * bs
            cnt = np.bincount([i for (_, B) in self.hist[r] for i in B], minlength=N)
            lo = n // N
            if cnt.min() < lo or cnt.max() > lo + (n % N > 0):
                bad('pass', 'run %d: after %d draws from %d particles the counts are %s', r, n, N, cnt.tolist())


@register
class C06(Check):
    id = 'C06'
    extra = ('reg', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 25000
    thorough = 400000
    rule = ('Batched ensembles (all sizes, partial and full updates, both batch variants) with per-run termination; the batches are '
            'inferred from what the objective was asked. Non-trivial: the batch is a proper subset.')

    def gen(self, rng):
        c = gen_case(rng, dyns=[d for d in ALL if d != 'CBS'], minN=2, batch=1., max_steps=12, p_long=.02)
        b = c['kw'].get('batch_args')
        N = c['N']
        if not b or b.get('size') is None or b['size'] >= N:
            c['kw']['batch_args'] = b = {'size': int(rng.integers(1, N)), 'seed': int(rng.integers(50)),
                                         'var': pick(rng, ['resample', 'concat'])}
        if c['x'] is not None and c['x']['kind'] in ('dup', 'same'):
            c['x']['kind'] = 'uniform'
        feasible(c)
        if c['dyn'] not in MEMORY + ('PolarCBO',) and rng.random() < .3:
            c['kw']['save_consensus_eval_points'] = True
        c['sampler']['mode'] = 'normal'
        if rng.random() < .3 and c['dyn'] not in ('HyperSurfaceCBO',):
            c['kw']['noise'] = 'constant'
        if rng.random() < .5:
            c['term'] = [t for t in c['term'] if t['k'] != 'sched']
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        sig, t, nt = self.simple(case, stats, [BatchOracle()])
        return sig, t, nt and model.batch_conf(case)[0]


# ---------------------------------------------------------------------------------------
class CountOracle(Oracle):
    """reported numbers of evaluations against the log of the objective"""

    def on_init(self, w):
        S = w.snap()
        self.expect(w, S, S['nrows'])
        M = w.case['M']
        if len(set(S.num_f_eval.tolist())) != 1 or int(S.num_f_eval.sum()) != S['nrows']:
            bad('count', 'after construction %s evaluations are reported for %d points', S.num_f_eval.tolist(), S['nrows'])
        self.over = False
        self.lim = [t['v'] for t in w.case.get('term') or [] if t['k'] == 'max_eval']

    def expect(self, w, S, rows):
        if int(np.sum(S.num_f_eval)) != rows:
            bad('count', '%s evaluations are reported, %d points were asked for', S.num_f_eval.tolist(), rows)
        own = getattr(w.dyn.f, 'num_eval', None) if w.case['f_dim'] != '3D' else None
        if own is not None and int(own) != rows:
            bad('own', 'the objective counts %d evaluations, %d points were asked for', own, rows)

    def on_terminate(self, w, B, A, fin):
        self.expect(w, A, A['nrows'])
        self.budget(w, B)
        inc = A.num_f_eval - B.num_f_eval
        for r in range(w.case['M']):
            if inc[r] and r not in getattr(self, 'last', []):
                bad('count', 'a criterion charged evaluations to the terminated run %d', r)

    def budget(self, w, S):
        """exactly the runs that another batch would take over the budget are stopped by it"""
        term = w.case['term']
        for j, t in enumerate(term):
            if t['k'] != 'max_eval' or any(u['k'] == 'stagnation' for u in term):
                continue
            need = model.batch_conf(w.case)[1]
            for r in range(w.case['M']):
                over = int(S.num_f_eval[r]) + need > t['v']
                why = w.dyn.term_reason[r]
                act = r in np.asarray(w.dyn.active_runs_idx)
                got = not act and why is not None and j in np.ravel(why)
                w.stats['reach.budget_checked'] += 1
                if over and act:
                    bad('budget', 'step %d: run %d goes on, after %d evaluations with batches of %d and a budget of %d',
                        w.steps, r, S.num_f_eval[r], need, t['v'])
                if got and not over:
                    bad('budget', 'step %d: run %d was stopped by its budget of %d after %d evaluations with batches of %d',
                        w.steps, r, t['v'], S.num_f_eval[r], need)

    def on_step(self, w, st):
        if w.case['mode'] == 'optimize':
            self.budget(w, st.S0)
        inc = st.S1.num_f_eval - st.S0.num_f_eval
        rows = len(st.F)        # without those of a resampling
        self.expect(w, st.S1, st.S1['nrows'])
        per = rows / max(len(st.active), 1)
        self.last = st.active
        for r in range(w.case['M']):
            want = (per if r in st.active else 0) + st.resampled.get(r, 0)
            if inc[r] != want:
                bad('count', 'step %d: run %d is charged %d evaluations instead of %g', w.steps, r, inc[r], want)
            for lim in self.lim:
                if any(t['k'] == 'stagnation' for t in w.case['term']) or w.case.get('resample'):
                    continue
                if st.S1.num_f_eval[r] > lim and inc[r] and not w.case['kw'].get('correction') \
                        and w.case['dyn'] not in MEMORY:
                    bad('budget', 'step %d: run %d used %d evaluations of at most %d', w.steps, r, st.S1.num_f_eval[r], lim)
        p = model.plan_step(st, w.case)
        if p.error:
            bad('evaluation', p.error)

    def on_sched(self, w, st):
        self.expect(w, st.S2, st.S2['nrows'])

    def on_end(self, w):
        self.expect(w, w.snap(), len(w.obj.F))


@register
class C07(Check):
    id = 'C07'
    extra = ('reg', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 22500
    thorough = 400000
    rule = ('All dynamics, batches, corrections, objective forms (1D/2D/3D), evaluation budgets, energy stagnation criteria and '
            'resampling; the reported counts are compared with the log of the simulated objective after every step. Non-trivial: a step.')

    def gen(self, rng):
        c = gen_case(rng, p_long=.01)
        if rng.random() < .35:
            n = c['N'] * int(rng.integers(0, 8)) + int(rng.integers(0, c['N'] + 1))
            c['term'].insert(0, {'k': 'max_eval', 'v': n, 'style': pick(rng, ['inst', 'dict'])})
        if rng.random() < .3 and c['dyn'] not in ('CBS',):
            c['term'].append({'k': 'stagnation', 'patience': int(pick(rng, [1, 2, 3])), 'thr': float(pick(rng, [1e-9, 1e-2, 1.])),
                              'style': pick(rng, ['inst', 'dict'])})
        if rng.random() < .2:
            c['resample'] = gen_resample(rng, c)
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        return self.simple(case, stats, [CountOracle()])


def gen_resample(rng, c):
    def one(k):
        if k == 'ensemble':
            return {'k': k, 'thr': float(pick(rng, [.05, .5, 1e3]))}
        if k == 'loss':
            return {'k': k, 'wait': int(pick(rng, [1, 2, 3, 5]))}
        if k == 'consensus':
            return {'k': k, 'patience': int(pick(rng, [1, 2, 3, 5])), 'thr': float(pick(rng, [1e-2, .1, .5, 10.]))}
        return {'k': k, 'at': {str(i): [int(v) for v in range(c['M']) if rng.random() < .6] for i in range(10) if rng.random() < .5}}
    ks = ['ensemble', 'loss', 'custom', 'consensus'][:3 if c['dyn'] == 'PolarCBO' or len(c['d']) > 1 else 4]
    r = {'crits': [one(pick(rng, ks, [1, 1, 2, 1][:len(ks)])) for _ in range(pick(rng, [1, 2, 3], [5, 2, .5]))],
         'sigma': float(pick(rng, [.1, 1., 0.])), 'best': bool(rng.random() < .5)}
    if c['dyn'] == 'MirrorCBO':
        r['var'] = 'y'
    elif rng.random() < .1:
        r['apply'] = True
    return r


# ---------------------------------------------------------------------------------------
class TermOracle(Oracle):
    """which runs may continue, why the others stopped, and that the loop ends"""

    def on_init(self, w):
        self.loss = {}
        self.prev_active = list(range(w.case['M']))
        self.last_it = {}
        self.S = None
        self.calls = 0

    def criteria(self, w, S):
        M = w.case['M']
        out = []
        dyn = w.dyn
        for j, t in enumerate(w.case['term']):
            k = t['k']
            if k == 'max_it':
                h = np.full(M, t['v'] is not None and int(S.it) >= t['v'])
            elif k == 'max_time':
                h = np.full(M, float(S.t) >= t['v'])     # (the reported time, itself checked after every step)
            elif k == 'energy_tol':
                h = np.array([S.f_min[r] < t['v'] for r in range(M)])
            elif k == 'diff_tol':
                h = np.array([S.update_diff[r] < t['v'] for r in range(M)])
            elif k == 'max_eval':
                bs = model.batch_conf(w.case)[1]
                h = np.array([S.num_f_eval[r] + bs > t['v'] for r in range(M)], dtype=object)
                n = sum(u['k'] == 'stagnation' for u in w.case['term'])
                for r in range(M):      # a stagnation criterion evaluates in between
                    if n and abs(S.num_f_eval[r] + bs - t['v'] - .5) <= n + .5:
                        h[r] = None
            elif k == 'sched':
                h = np.array([int(S.it) >= a for a in t['at']])
            elif k == 'stagnation':
                h = self.stagnation(w, S, j, t)
            elif k == 'pause':
                h = np.array([r in t['at'].get(str(int(S.it)), []) for r in range(M)])
            else:
                raise ValueError(k)
            out.append(h)
        return np.array(out, dtype=object)

    def stagnation(self, w, S, j, t):
        M = w.case['M']
        n = t['patience']
        buf = self.loss.setdefault(j, {r: [math.inf] * n for r in range(M)})
        C = S.consensus
        if C is None or (C.dtype == object and C.ndim == 0):
            return np.zeros(M, bool)
        it = int(S.it)
        if self.last_it.get(j) != it:
            self.last_it[j] = it
            for a, r in enumerate(self.prev_active):
                f = fval_of(w, S)
                buf[r][it % n] = float(np.mean([f(model.vec(c), r) for c in C[a]]))
        out = []
        for r in range(M):
            v = np.array(buf[r])
            sd = np.std(v) if np.all(np.isfinite(v)) else math.inf
            if np.isfinite(sd) and abs(sd - t['thr']) < 1e-9 * (1 + np.abs(v).max()):
                out.append(None)
            else:
                out.append(bool(sd < t['thr']))
        return np.array(out, dtype=object)

    def decide(self, w, S):
        self.calls += 1
        C = self.criteria(w, S)
        if C is None:
            return None
        return C

    def check(self, w, S, active, reason):
        C = self.decide(w, S)
        M = w.case['M']
        if C is None or any(v is None for v in C.ravel()):
            self.prev_active = active
            return
        want = [r for r in range(M) if not C[:, r].any()]
        if active != want:
            bad('active', 'after %d steps runs %s may continue, but the criteria leave %s', w.steps, active, want)
        for r in range(M):
            if r in want:
                continue
            ids = [j for j in range(len(w.case['term'])) if C[j, r]]
            got = reason[r]
            if got is None or [int(g) for g in np.ravel(got)] != ids:
                bad('reason', 'run %d stopped by criteria %s, the reported reason is %s', r, ids, got)
        self.prev_active = active

    t = 0.

    def on_terminate(self, w, B, A, fin):
        active = [int(a) for a in np.asarray(w.dyn.active_runs_idx)]
        self.check(w, B, active, list(w.dyn.term_reason))
        if bool(fin) != (len(active) == 0):
            bad('fin', 'terminate() returned %s with %d active runs', fin, len(active))

    def on_step(self, w, st):
        if w.case['mode'] == 'optimize':
            # the criteria were evaluated just before this step
            self.check(w, st.S0, st.active, list(w.dyn.term_reason))
        if not st.active:
            bad('fin', 'a step was taken although every run had stopped')
        if int(st.S1.it) != int(st.S0.it) + 1 or int(st.S1.it) != w.steps:
            bad('it', 'it went from %s to %s in step %d', st.S0.it, st.S1.it, w.steps)
        self.quantities(w, st)
        self.t += float(w.dyn.dt)
        if abs(float(st.S1.t) - self.t) > 1e-9 * (1 + self.t):
            bad('t', 't = %r after %d steps of length %r', float(st.S1.t), w.steps, float(w.dyn.dt))

    def quantities(self, w, st):
        """what the criteria look at: the size of the update and the smallest current energy"""
        case, A = w.case, st.S1
        for r in range(case['M']):
            x0, x1 = model.vec(st.S0.x[r]), model.vec(A.x[r])
            want, got = float(np.sqrt(((x1 - x0) ** 2).sum())) / case['N'], float(A.update_diff[r])
            if np.isfinite(want) and not abs(got - want) <= 1e-9 * want + 1e-14 * np.abs(x0).max():
                bad('diff', 'step %d: run %d moved by %r per particle, the reported update difference is %r', w.steps, r, want, got)
            e = np.asarray(A.energy[r], dtype=float)
            if not np.isnan(e).any() and float(A.f_min[r]) != e.min():
                bad('fmin', 'step %d: the smallest energy of run %d is %r, reported is %r', w.steps, r, e.min(), A.f_min[r])
        p = model.plan_step(st, case)
        if p.error is None and case['dyn'] not in MEMORY and not p.ambiguous and not p.repeated:
            for r in p.active:
                for i, e in zip(p.B[r], p.E[r]):
                    # (a squared constraint that is nearly met loses its relative precision)
                    reg, dlt = abs(model.reg_value(case, st.S0.x[r, i].ravel(), model.run_lam(st.S0, r))), 0.
                    if case['dyn'] == 'RegCombinationCBO':
                        lam, g = 1 / case['kw'].get('nu', 1), 1e-13 * (1 + (model.vec(st.S0.x[r, i]) ** 2).sum())
                        dlt = 2 * np.sqrt(reg * lam) * g + lam * g ** 2
                    if np.isfinite(e) and not abs(float(A.energy[r, i]) - e) <= 1e-9 * abs(e) + (
                            1e-12 * model.run_lam(st.S0, r) * (1 + (model.vec(st.S0.x[r, i]) ** 2).sum()) if 'reg_lamda' in st.S0 else 1e-300) \
                            + 1e-12 * reg + dlt:
                        bad('energy', 'step %d: particle %d of run %d was answered %r, its energy is %r', w.steps, i, r, e, A.energy[r, i])

    def on_optimized(self, w, result):
        S = w.snap()
        S.update({k: v for k, v in S.items()})
        active = [int(a) for a in np.asarray(w.dyn.active_runs_idx)]
        # the final decision: no run may continue
        if active:
            bad('fin', 'optimize() returned although runs %s may continue', active)
        if not any(t['k'] == 'stagnation' for t in w.case['term']):
            C = self.criteria(w, S)
            if C is not None:
                want = [r for r in range(w.case['M']) if not C[:, r].any()]
                if want:
                    bad('fin', 'optimize() returned although the criteria leave runs %s', want)


@register
class C08(Check):
    id = 'C08'
    extra = ('reg', 'resample', 'prox', 'sched', 'post', 'obs', 'change', 'blind')
    quick = 25000
    thorough = 400000
    rule = ('Random lists of built-in criteria (instances and dictionaries, any order) plus caller-defined per-run schedules and '
            'pauses; after every check the active runs, the reported reasons and the step counters are compared with a reference. '
            'Non-trivial: at least two criteria or several runs.')

    def gen(self, rng):
        c = gen_case(rng, max_steps=10, p_long=.01)
        T = [t['v'] for t in c['term'] if t['k'] == 'max_it'][0]
        extra = []

        def name(k):
            return pick(rng, [k.replace('_', '-'), k.replace('_', ' '), k])

        def add(k, v, default, p=.1):
            if rng.random() < p:
                extra.append({'k': k, 'v': default, 'style': 'str', 'name': name(k)})
            else:
                extra.append({'k': k, 'v': v, 'style': pick(rng, ['dict', 'inst']), 'name': name(k)})
        if rng.random() < .4:
            flat = c['obj']['offset'] if c['obj']['name'] == 'const' else float(pick(rng, [0., 1.]))
            add('energy_tol', float(pick(rng, [.05, .5, 2., -1., flat], [1, 1, 1, 1, 1.5])), 1e-7)
        if rng.random() < .4:
            add('diff_tol', float(pick(rng, [.01, .1, 1., 1e9, 0.])), 1e-7)
        if rng.random() < .35:
            add('max_time', float(c['kw']['dt'] * (rng.integers(0, T + 2) + pick(rng, [.5, -.3, 0., 0.]))), 10.)
        if rng.random() < .3:
            add('max_eval', int(rng.integers(0, c['N'] * 8)), 1000)
        if rng.random() < .15:
            add('max_it', pick(rng, [0, 1, None, T + 3]), 1000)
        if rng.random() < .3 and c['dyn'] not in ('CBS', 'PolarCBO'):
            extra.append({'k': 'stagnation', 'patience': int(pick(rng, [1, 2, 3])), 'thr': float(pick(rng, [1e-9, 1e-2, 1., 1e3])),
                          'style': pick(rng, ['inst', 'dict']), 'name': name('energy_stagnation')})
        if rng.random() < .2:
            extra.append({'k': 'pause', 'at': {str(i): [int(v) for v in range(c['M']) if rng.random() < .4]
                                               for i in range(T) if rng.random() < .4}})
        for e in extra:
            c['term'].insert(int(rng.integers(0, len(c['term']) + 1)), e)
        if rng.random() < .04:
            c['term'] = [{'k': 'max_it', 'v': int(pick(rng, [0, 1, T])), 'style': 'arg'}]
            c['mode'] = 'loop'
        elif rng.random() < .08:
            self.defaults(rng, c, name)
        elif rng.random() < .05 and not gen.fragile(c) and c['dyn'] in ('CBO', 'AdamCBO', 'RegCombinationCBO', 'PolarCBO'):
            # positions that stay NaN, since the caller does not repair them: no threshold is passed
            c['pp'] = {'own': 'none'}
            c['faults'] = [{'at': 'sampler', 'draw': int(rng.integers(0, 8)), 'kind': 'value', 'pos': int(rng.integers(0, 100)),
                            'value': math.nan} for _ in range(int(pick(rng, [1, 2])))]
        return c

    def defaults(self, rng, c, name):
        """runs that pass the default threshold of a criterion that is given by its name only"""
        k = pick(rng, ['energy_tol', 'diff_tol', 'max_time', 'max_eval', 'stagnation', 'max_it'], [3, 3, 3, 2, 2, .3])
        T = 9
        if c['dyn'] in ('CBS', 'PolarCBO') and k == 'stagnation':
            k = 'max_time'
        e = {'k': k, 'style': 'str', 'name': name('energy_stagnation' if k == 'stagnation' else k)}
        if k == 'energy_tol':
            c['obj'].update(name=pick(rng, ['quad', 'abs']), scale=float(pick(rng, [1e-7, 3e-8, 3e-7])), offset=0.)
            e['v'] = 1e-7
        elif k == 'diff_tol':
            c['x'] = {'kind': 'uniform', 'seed': int(rng.integers(1 << 30)), 'scale': float(pick(rng, [1e-5, 1e-6, 1e-4]))} \
                if c['dyn'] not in ('MirrorCBO', 'HyperSurfaceCBO') else c['x']
            c['kw']['dt'] = .01
            if 'sigma' in c['kw']:
                c['kw']['sigma'] = .1
            e['v'] = 1e-7
        elif k == 'max_time':
            c['kw']['dt'] = float(pick(rng, [1., 2.5, 3.3, 5., 1.25]))
            T, e['v'] = 11, 10.
        elif k == 'max_eval':
            c['M'], c['N'] = min(c['M'], 2), int(pick(rng, [90, 100, 120, 199, 200, 201]))
            c['kw'].pop('batch_args', None)
            c['xdim'] = None
            T, e['v'] = 13, 1000
            if isinstance(c['kw']['alpha'], list):
                c['kw']['alpha'] = 1.
        elif k == 'stagnation':
            c['N'] = min(c['N'], 3)
            c['kw'].pop('batch_args', None)
            c['obj'].update(name=pick(rng, ['const', 'quad', 'step']), scale=float(pick(rng, [1., 1e-8, 1e-9, 3e-9])), offset=0.)
            T = 25
            e.update(patience=20, thr=1e-9)
        else:
            c['M'], c['N'] = 1, 2
            c['kw'].pop('batch_args', None)
            if isinstance(c['kw']['alpha'], list):
                c['kw']['alpha'] = 1.
            T, e['v'], c['cap'] = 1003, 1000, 1100
        c['term'] = [e, {'k': 'max_it', 'v': T}]
        if rng.random() < .5 and c['M'] > 1 and k != 'max_it':
            c['term'].insert(0, {'k': 'sched', 'at': [int(v) for v in rng.integers(1, T + 1, c['M'])]})

    def run(self, case, stats):
        sig, t, nt = self.simple(case, stats, [TermOracle()])
        return sig, t, len(case['term']) > 1 or case['M'] > 1
