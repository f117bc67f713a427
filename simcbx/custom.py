"""C22: parts written by the caller - dynamics, hooks, noise, corrections, consensus, kernels, maps, trackers, schedules."""
import math

import numpy as np

import cbx.dynamics as cd
import cbx.scheduler as csched
import cbx.utils.objective_handling as coh
from cbx.dynamics.pdyn import CBXDynamic, ParticleDynamic

from . import gen, model, world as worldmod
from .checks import Check, register, bad, gen_case, BestOracle, key
from .steps import ConsensusOracle, RefineOracle, feasible, TermOracle
from .twins import Recorder, diff_state, final
from .util import Violation, pick, h64, same, arr
from .world import World, Oracle, MEMORY, DYNS, make_exc

HOOKS = ('pre_step', 'inner_step', 'post_step')
MORE = ('noise', 'correction', 'track', 'update_best_particle', 'update_best_cur_particle', 'compute_update_diff', 'eval_f',
        'compute_consensus', 'terminate', 'select_active_runs', 'default_sched', 'print_cur_state', 'to_numpy', 'init_history',
        'set_noise', 'init_x', 'init_consensus', 'get_reshaped_run_idx', 'update_covariance', 'step', 'optimize', 'reset')
CORRECTED = ('CBO', 'CBOMemory', 'PSO', 'PolarCBO', 'MirrorCBO', 'CBS')


class OwnWorld(World):
    """the dynamic is a class of the caller"""

    def __init__(self, case, oracles, stats, own=True, **kw):
        super().__init__(case, oracles, stats, **kw)
        self.own = own
        self.calls = []
        self.hooked = []

    def kwargs(self):
        kw = super().kwargs()
        if self.own and self.case.get('mytrack'):
            t = dict(kw.get('track_args') or {'names': [] if self.case['dyn'] == 'CBS' else ['update_norm', 'energy']})
            self.trackers = [MyTrack(self, 'mine'), MyTrack(self, 'mine2')]
            t['extra_tracks'] = [self.trackers[0], static_track(self), self.trackers[1]]
            kw['track_args'] = t
        if self.own and self.case.get('objcls') and kw['f_dim'] == '3D':
            self.wrap_objective()
        return kw

    def wrap_objective(self):
        old = self.obj.callable
        w = self

        def made(f_dim):
            fn = old(f_dim)

            class mine(coh.cbx_objective):
                def __init__(self, a=1.0):
                    super().__init__()
                    self.a = a
                    self.n = self.points = 0

                def __call__(self, x):
                    self.points += x.shape[0] * x.shape[1]
                    return super().__call__(x)

                def apply(self, x):
                    fail(w, 'apply', self)
                    return self.a * fn(x)
            w.mine = mine()
            return w.mine
        self.obj.callable = made

    def cls(self):
        base = super().cls()
        if not self.own:
            return base
        if self.case.get('own') in ('docs', 'family'):
            base = documented(self.case['own'])
        hooks = self.case.get('hooks') or []
        w = self
        ns = {}
        self.on = []
        for h in hooks:
            if hasattr(base, h):
                self.on.append(h)
                if not (h in HOOKS and self.case.get('attach')):     # attached to the object later
                    ns[h] = self.through(base, h)
        if ns:
            cls = type('My' + base.__name__, (base,), ns)
        else:
            cls = base
        return cls

    def build(self):
        super().build()
        if self.own and self.case.get('attach'):
            for h in HOOKS:
                if h in self.on:
                    m = self.through(type(self.dyn), h)
                    setattr(self.dyn, h, m.__get__(self.dyn))
        return self.dyn

    def through(self, base, name):
        w = self
        old = getattr(base, name)

        def method(self, *args, **kw):
            n = sum(1 for h in w.hooked if h[0] == name)
            w.hooked.append((name, int(getattr(self, 'it', -1)), arr(self.x) if name in HOOKS else None))
            f = w.cbfault('hook:' + name, n)
            if f is not None:
                raise make_exc(f.get('exc', 'Injected'), name)
            return old(self, *args, **kw)
        return method


def documented(kind):
    if kind == 'family':
        class Mine(cd.CBO):
            def inner_step(self):
                self.mine = getattr(self, 'mine', 0) + 1
                self.cbo_step()
        return Mine

    class Docs(CBXDynamic):
        """the step of the user guide"""

        def inner_step(self):
            self.compute_consensus()
            self.drift = self.correction(self.x[self.particle_idx] - self.consensus)
            self.s = self.sigma * self.noise()
            self.x[self.particle_idx] = (
                self.x[self.particle_idx] -
                self.lamda * self.dt * self.drift +
                self.s)
    return Docs


class MyTrack:
    def __init__(self, w, name):
        self.w = w
        self.name = name
        self.log = []
        self.n = 0

    def init_history(self, dyn):
        dyn.history[self.name] = []
        self.log = []

    def update(self, dyn):
        if self.name == 'mine2':
            fail(self.w, 'tracker', self)
        v = arr(dyn.x).min(axis=-1)
        self.log.append((int(dyn.it), v, arr(dyn.best_energy)))
        dyn.history[self.name].append(v)


def fail(w, at, obj):
    f = w.cbfault(at, obj.n)
    obj.n += 1
    if f is not None:
        raise make_exc(f.get('exc', 'Injected'), at)


def static_track(w):
    class MyCustomTrack:        # the user guide hands over the class itself
        def init_history(dyn):
            dyn.history['guide'] = []

        def update(dyn):
            dyn.history['guide'].append(dyn.x.min(axis=-1))
    return MyCustomTrack


class MySched(csched.param_update):
    """sigma shrinks, as in an annealing schedule of the caller"""

    def __init__(self, w):
        super().__init__(name='sigma')
        self.w = w
        self.n = 0

    def update(self, dyn):
        fail(self.w, 'sched', self)
        self.w.seen = (int(dyn.it), float(np.ravel(dyn.sigma)[0]))
        dyn.sigma = dyn.sigma * .75


class ProtocolOracle(Oracle):
    """when the parts of the caller are called, and with what"""

    def on_init(self, w):
        self.n = len(w.calls)
        self.h = len(w.hooked)
        self.it0 = int(w.dyn.it)
        if w.own and w.case.get('objcls') and w.case['f_dim'] == '3D' and w.case['dyn'] != 'RegCombinationCBO' and not w.case.get('reg'):
            self.counted(w)

    def counted(self, w):
        if w.mine.points != len(w.obj.F):
            bad('objective', 'the objective of the caller was asked for %d points, its call for %d', len(w.obj.F), w.mine.points)

    def on_terminate(self, w, B, A, fin):
        self.n = len(w.calls)

    def on_step(self, w, st):
        c = w.case
        calls, self.n = w.calls[self.n:], len(w.calls)
        hooks, self.h = w.hooked[self.h:], len(w.hooked)
        it = int(st.S0.it)
        mem = c['dyn'] in MEMORY
        p = model.plan_step(st, c)
        if p.error:
            bad('evaluation', p.error)
        kw = c['kw']
        count = lambda k: [q for q in calls if q[0] == k]     # noqa: E731
        for name, at, x, args in calls:
            w.stats['reach.part_%s_called' % name] += 1
            if at != it:
                bad('moment', '%s was called in step %d, but with it = %d', name, it, at)
        # the particles have not moved yet
        before = ['correction', 'consensus', 'kernel'] + ([] if c['dyn'] == 'CBOMemory' else ['noise'])
        for name, at, x, args in calls:
            if name in before and not same(x, st.S0.x):
                bad('moment', 'step %d: %s was called when the particles had moved already', it, name)
        k = len(p.active)
        if kw.get('noise') in worldmod.USER_NOISE and float(np.ravel(st.S0.sigma)[0]) != 0.:
            n = len(count('noise'))
            if n != (2 if mem else 1):
                bad('count', 'step %d: the noise of the caller was called %d times', it, n)
        if kw.get('correction') == 'user' and c['dyn'] in CORRECTED:
            q = count('correction')
            if len(q) != 1:
                bad('count', 'step %d: the correction of the caller was called %d times', it, len(q))
            want = (k, len(p.P[p.active[0]])) + tuple(c['d'])
            if q[0][3][0].shape != want:
                bad('args', 'step %d: the correction was called with an array of shape %s for %s', it, q[0][3][0].shape, want)
        if kw.get('compute_consensus') == 'user':
            q = count('consensus')
            if len(q) != 1:
                bad('count', 'step %d: the consensus of the caller was computed %d times', it, len(q))
            e, x, al = q[0][3]
            if not same(al, st.S0.alpha[st.active]):
                bad('args', 'step %d: the consensus was computed with exponents %s instead of %s', it, al.ravel(), st.S0.alpha[st.active].ravel())
            if not mem and c['dyn'] != 'RegCombinationCBO':
                n = x.shape[0] * x.shape[1]
                if len(st.X) < n or not same(np.array(st.X[:n]).reshape(x.shape), x) or not same(np.array(st.F[:n]).reshape(e.shape), e):
                    bad('args', 'step %d: the consensus was not computed from the points evaluated in this step', it)
        if kw.get('kernel') == 'user' and len(count('kernel')) < 1:
            bad('count', 'step %d: the kernel of the caller was not used', it)
        if kw.get('norm') == 'user' and len(c['d']) == 1 and not (c['dyn'] == 'MirrorCBO' and w.steps == 1):
            for r in range(c['M']):
                d = 2 * math.sqrt(float(((st.S1.x[r] - st.S0.x[r]) ** 2).sum())) / c['N']
                if 'sigma_indep' not in kw and d < 1e6 and not abs(d - float(st.S1.update_diff[r])) <= 1e-9 * (1 + d):
                    bad('norm', 'step %d: the update of run %d is %r in the norm of the caller, reported is %r', it, r, d, float(st.S1.update_diff[r]))
        names = [q[0] for q in hooks if q[0] in HOOKS]
        want = [n for n in HOOKS if n in w.on] if w.own else []
        if names != want:
            bad('hooks', 'step %d: the hooks were called in the order %s', it, names)
        if w.own:
            n = {'noise': 2 if mem else 1, 'compute_consensus': 1, 'correction': int(c['dyn'] in CORRECTED)}
            for m in n:
                if m in w.on and sum(1 for q in hooks if q[0] == m) != n[m]:
                    bad('hooks', 'step %d: the %s method of the caller was called %d times instead of %d', it, m, sum(1 for q in hooks if q[0] == m), n[m])
        if w.own and c.get('objcls') and c['f_dim'] == '3D' and not c.get('reg'):
            self.counted(w)
        for name, at, x in hooks:
            if name in ('noise', 'pre_step', 'inner_step', 'post_step', 'track') and at != it:
                bad('moment', '%s was called in step %d, but with it = %d', name, it, at)
            if name == 'pre_step' and 'sigma_indep' not in kw and not same(x, st.S0.x):
                bad('moment', 'step %d: pre_step was called when the particles had moved already', it)
            if name == 'inner_step' and 'sigma_indep' not in kw and not same(x, st.S0.x):
                bad('moment', 'step %d: inner_step was called when the particles had moved already', it)
            if name == 'post_step' and st.pp_pre is not None and not same(x, st.pp_pre):
                bad('moment', 'step %d: post_step was called before the particles had moved', it)
        if w.own and c.get('mytrack'):
            h = w.dyn.history
            si = (c.get('track') or {}).get('save_int', 1)
            n = len([t for t in range(self.it0, it + 1) if t % si == 0])
            ln = [len(h['mine']), len(h['guide']), len(h['mine2'])] + [len(t.log) for t in w.trackers]
            if any(q != n for q in ln):
                bad('tracks', 'after step %d the trackers of the caller were called %s times instead of %d', it, ln, n)
            for t in w.trackers if it % si == 0 else ():
                at, v, be = t.log[-1]
                if at != it or not same(be, st.S1.best_energy) or not same(v, st.S1.x.min(axis=-1)) or not same(h['guide'][-1], v):
                    bad('tracks', 'the trackers of the caller did not see the end of step %d', it)

    def on_sched(self, w, st):
        if w.case.get('mysched') and w.own:
            self.sched_n = getattr(self, 'sched_n', 0) + 1
            if w.seen[0] != int(st.S1.it) or w.mysched.n != self.sched_n or w.seen[1] != float(np.ravel(st.S1.sigma)[0]):
                bad('sched', 'the schedule of the caller was applied %d times after %d steps, last at it = %d', w.mysched.n, self.sched_n, w.seen[0])
            if float(np.ravel(st.S2.sigma)[0]) != w.seen[1] * .75:
                bad('sched', 'sigma is %r after the schedule of the caller', st.S2.sigma)


class OwnSchedWorld(OwnWorld):
    def make_sched(self):
        s = super().make_sched()
        if self.case.get('mysched') and self.own:
            self.mysched = MySched(self)
            return csched.scheduler([s, self.mysched]) if self.case['mysched'] == 'list' else csched.scheduler([self.mysched])
        return s


# ---------------------------------------------------------------------------------------
class Walk(ParticleDynamic):
    """A particle method of the caller that is no consensus method: a random search around the best particle."""

    def inner_step(self):
        act = self.active_runs_idx
        x = self.x[act]
        e = self.f(x)
        self.num_f_eval[act] += self.N
        self.energy[act] = e
        best = x[np.arange(len(act)), e.argmin(axis=-1)][:, None]
        self.x[act] = x - self.rate * (x - best) + .2 * self.sampler(size=x.shape)

    def __init__(self, f, rate=.3, **kw):
        super().__init__(f, **kw)
        self.rate = rate


class WalkOracle(Oracle):
    def on_init(self, w):
        M = w.case['M']
        self.best = np.full(M, np.inf)
        self.where = [dict() for _ in range(M)]
        self.term = TermOracle()
        self.term.on_init(w)
        self.it = 0
        self.h = len(w.hooked)
        self.evals = np.array(w.dyn.num_f_eval)

    def on_step(self, w, st):
        c = w.case
        M, N = c['M'], c['N']
        hooks, self.h = w.hooked[self.h:], len(w.hooked)
        names = [q[0] for q in hooks if q[0] in HOOKS]
        want = [n for n in HOOKS if n in (c.get('hooks') or [])]
        if names != want:
            bad('hooks', 'step %d: the hooks were called in the order %s', self.it, names)
        S0, S1 = st.S0, st.S1
        k = len(st.active)
        if len(st.X) != k * N:
            bad('evaluation', 'step %d: %d evaluations for %d runs', self.it, len(st.X), k)
        self.it += 1
        if int(S1.it) != self.it:
            bad('it', 'it = %d after %d steps', int(S1.it), self.it)
        draws = st.draws[0]
        for a, r in enumerate(st.active):
            E = np.array(st.F[a * N:(a + 1) * N])
            for i in range(N):
                self.where[r].setdefault(key(st.X[a * N + i]), []).append(E[i])
            self.best[r] = min(self.best[r], E.min())
            b = S0.x[r, int(E.argmin())]
            x = S0.x[r] - .3 * (S0.x[r] - b) + .2 * draws[a]
            if not np.allclose(model.clip(x), S1.x[r], rtol=1e-9, atol=1e-9):
                bad('update', 'step %d: the particles of run %d are %s, the step of the caller gave %s', self.it, r, S1.x[r].ravel()[:5], x.ravel()[:5])
            d = math.sqrt(float(((S1.x[r] - S0.x[r]) ** 2).sum())) / N
            d0 = math.sqrt(float(((x - S0.x[r]) ** 2).sum())) / N
            if not min(abs(d - S1.update_diff[r]), abs(d0 - S1.update_diff[r])) <= 1e-9 * (1 + abs(d)):
                bad('diff', 'step %d: the update of run %d is %r, reported %r', self.it, r, d, S1.update_diff[r])
        for r in range(M):
            if r not in st.active and not (same(S0.x[r], S1.x[r]) and same(S0.energy[r], S1.energy[r])):
                bad('frozen', 'step %d: terminated run %d changed', self.it, r)
            be = float(S1.best_energy[r])
            if be != self.best[r]:
                bad('best', 'step %d: the best energy of run %d is %r, the smallest value found is %r', self.it, r, be, self.best[r])
            if np.isfinite(be) and be not in self.where[r].get(key(S1.best_particle[r]), []):
                bad('best', 'step %d: the best particle of run %d does not attain the best energy', self.it, r)
            self.evals[r] += N if r in st.active else 0
            if int(S1.num_f_eval[r]) != int(self.evals[r]):
                bad('count', 'step %d: run %d reports %d evaluations instead of %d', self.it, r, S1.num_f_eval[r], self.evals[r])
        if c.get('mytrack'):
            si = (c.get('track') or {}).get('save_int', 1)
            n = len([t for t in range(self.it) if t % si == 0])
            h = w.dyn.history
            if len(h['mine']) != n or len(h['guide']) != n:
                bad('tracks', 'after %d steps the trackers of the caller were called %d and %d times instead of %d', self.it, len(h['mine']), len(h['guide']), n)

    def on_terminate(self, w, B, A, fin):
        self.term.on_terminate(w, B, A, fin)

    def on_optimized(self, w, result):
        if not same(result, w.dyn.best_particle):
            bad('returned', 'optimize() did not return the best particle')


class WalkWorld(OwnWorld):
    def cls(self):
        hooks = {h: self.through(Walk, h) for h in (self.case.get('hooks') or []) if hasattr(Walk, h)}
        return type('MyWalk', (Walk,), hooks)


@register
class C22(Check):
    id = 'C22'
    quick = 10000
    thorough = 200000
    rule = ('Cases give the library parts written by the caller: subclasses of the dynamics (the documented step, hooks that pass through, a '
            'particle method of their own), noise, correction, consensus, kernel, mirror map, norm, objective class, trackers and schedules; '
            'parts fail at random calls. Every call is recorded and every step compared with a reference. Non-trivial: a step was taken.')

    def gen(self, rng):
        if rng.random() < .12:
            return self.gen_walk(rng)
        dyns = None
        own = pick(rng, [None, 'docs', 'family'], [4, 1, .5])
        if own:
            dyns = ['CBO']
        c = gen_case(rng, dyns=dyns, max_steps=5, x_none=.05, heavy_draws=False)
        k = c['kw']
        name = c['dyn']
        if c['x'] is not None and c['x']['kind'] in ('dup', 'same'):
            c['x']['kind'] = 'uniform'
        c.pop('inst', None)
        if own:
            c['own'] = own
        if name == 'RegCombinationCBO':
            k.pop('correction', None)
        if k.get('correction') == 'heavi_side_reg':
            k['correction_eps'] = float(pick(rng, [.01, .1, 1.]))
        if name != 'HyperSurfaceCBO':
            if rng.random() < .5:
                k['noise'] = pick(rng, ['user', 'userdet', 'useralias'], [2, 1, 1])
            elif rng.random() < .4:
                k['noise'] = 'isotropic'
                k['norm'] = 'user'
            if k['noise'] in ('covariance', 'sampling'):
                k['noise'] = 'isotropic'
        if name in CORRECTED and rng.random() < .4:
            k['correction'] = 'user'
        if name not in ('PolarCBO', 'HyperSurfaceCBO') and rng.random() < .35 and not (
                name in MEMORY and model.batch_conf(c)[0] and (k['batch_args'].get('partial', True) is False or k['batch_args'].get('var') == 'concat')):
            k['compute_consensus'] = 'user'
        if name == 'PolarCBO' and len(c['d']) == 1 and rng.random() < .6:
            k['kernel'] = 'user'
        if name == 'MirrorCBO' and rng.random() < .6:
            k['mirrormap'] = {'name': 'user'}
            c['x'].update(kind='uniform', scale=.9)
        if rng.random() < .3:
            c['objcls'] = True
            c['f_dim'] = '3D'
        if rng.random() < .15 and not gen.fragile(c) and 'reg' not in c:
            gen.gen_post(rng, c)
        if rng.random() < .4:
            c['mytrack'] = True
            if rng.random() < .5:
                c['track'] = {'names': ['x'] if rng.random() < .5 else [], 'save_int': int(pick(rng, [1, 2, 3]))}
        if name != 'CBS' and rng.random() < .3:
            c['mysched'] = pick(rng, ['list', 'alone'])
            if name in MEMORY and 'sigma_memory' not in k:      # by default from the initial sigma
                k['sigma_memory'] = .3
        if c.get('sched') is not None and c.get('mysched') == 'alone':
            c['sched'] = None
        if rng.random() < .6:
            c['hooks'] = [h for h in HOOKS if rng.random() < .6] + [h for h in MORE if rng.random() < .3]
            if rng.random() < .25:
                c['attach'] = True
        if rng.random() < .3:
            at = [n for n, u in (('noise', k['noise'] in worldmod.USER_NOISE), ('correction', k.get('correction') == 'user'),
                                 ('consensus', k.get('compute_consensus') == 'user'), ('kernel', k.get('kernel') == 'user'),
                                 ('norm', k.get('norm') == 'user'), ('map', k.get('mirrormap') == {'name': 'user'}),
                                 ('sched', c.get('mysched')), ('tracker', c.get('mytrack')), ('apply', c.get('objcls'))) if u]
            at += ['hook:' + h for h in c.get('hooks') or [] if h in HOOKS + ('noise', 'correction', 'compute_consensus')]
            if at:
                c['faults'] = [{'at': pick(rng, at), 'n': int(rng.integers(0, 6)),
                                'exc': pick(rng, ['Injected', 'InjectedBase', 'KeyboardInterrupt', 'ValueError', 'StopIteration', 'IndexError',
                                                'AttributeError', 'TypeError', 'RuntimeError', 'FloatingPointError', 'OSError'])}]
        return c

    def gen_walk(self, rng):
        c = gen_case(rng, dyns=['CBO'], max_steps=6, x_none=0., heavy_draws=False)
        c['walk'] = True
        c['kw'] = {}
        c['x'] = dict(c['x'], scale=1.)
        c['sched'] = None
        c.pop('inst', None)
        c['term'] = [t for t in c['term'] if t['k'] in ('max_it', 'sched', 'energy_tol')]
        if rng.random() < .6:
            c['hooks'] = [h for h in HOOKS if rng.random() < .6] + [h for h in MORE if rng.random() < .3]
        if rng.random() < .4:
            c['mytrack'] = True
            if rng.random() < .5:
                c['track'] = {'names': ['x', 'energy'] if rng.random() < .5 else [], 'save_int': int(pick(rng, [1, 2, 3]))}
        return c

    def run(self, case, stats):
        if case.get('walk'):
            w = WalkWorld(case, [WalkOracle()], stats)
            w.run()
            return w.signature(), w.simtime(), w.steps > 0
        rec = Recorder()
        oracles = [rec, ProtocolOracle(), RefineOracle(), ConsensusOracle(), BestOracle()]
        w = OwnSchedWorld(case, oracles, stats)
        worldmod.MADE.clear()
        got = None
        try:
            w.build()
            w.drive()
        except Violation:
            raise
        except BaseException as e:
            if not worldmod.MADE or not case.get('faults'):
                raise
            got = e
        if worldmod.MADE:
            made = worldmod.MADE[-1]
            f = case['faults'][0]
            if got is None:
                bad('swallowed', 'the %s of the caller raised %r, but the library went on', f['at'], made)
            if got is not made:
                bad('changed', 'the %s of the caller raised %r, the caller was given %r', f['at'], made, got)
            return self.aborted(case, w, rec, f)
        for o in oracles:
            o.on_end(w)
        if case.get('hooks') and not case.get('own') and not case.get('mysched'):
            self.twin(case, w, rec, stats)
        return w.signature(), w.simtime(), w.steps > 0

    def aborted(self, case, w, rec, f):
        if w.dyn is None:
            return h64(case), 0., False
        S = w.snap()
        n = w.steps
        if int(S.it) != n:
            bad('it', 'it = %d after %d completed steps and a failing %s', int(S.it), n, f['at'])
        last = rec.S[-1] if rec.S else None
        if last is not None:
            if not np.all(S.best_energy <= last.best_energy):
                bad('worse', 'the best energy rose when the %s of the caller failed', f['at'])
            if f['at'] in ('consensus', 'correction', 'kernel', 'hook:pre_step', 'hook:compute_consensus') and 'sigma_indep' not in case['kw'] \
                    and not same(S.x, last.x):
                bad('moved', 'the %s of the caller failed before the particles move, but they have moved', f['at'])
            if float(S.t) != float(last.t):
                bad('time', 'the time is %r after an aborted step, it was %r', S.t, last.t)
        # the object can be used further
        w.S0 = None
        w.oracles = [o for o in w.oracles if isinstance(o, RefineOracle) and 'sigma_indep' not in case['kw']]
        w.drive()
        if not w.lib(w.dyn.terminate):
            bad('unfinished', 'the continued run did not terminate')
        w.stats['reach.continued_after_failure'] += 1
        return h64(w.signature(), f), w.simtime(), True

    def twin(self, case, w, rec, stats):
        """a class that only passes its calls on is the class itself"""
        q = Recorder()
        v = OwnSchedWorld(case, [q], stats, own=False)
        v.run()
        for i, (a, b) in enumerate(zip(q.S, rec.S)):
            for k in a:
                if k in b and k != 'hist' and not same(a[k], b[k]):
                    bad('twin', 'with hooks that only pass on (%s), %s differs after step %d: %s, %s', case['hooks'], k, i + 1,
                        np.ravel(b[k])[:5], np.ravel(a[k])[:5])
        if len(q.S) != len(rec.S):
            bad('twin', 'with hooks that only pass on (%s), the run takes %d steps instead of %d', case['hooks'], len(rec.S), len(q.S))
        k = diff_state(final(v), final(w))
        if k:
            bad('twin', 'with hooks that only pass on (%s), %s differs at the end', case['hooks'], k)
        for n in v.dyn.history:
            if n not in w.dyn.history or len(v.dyn.history[n]) != len(w.dyn.history[n]) or any(
                    not same(a, b) for a, b in zip(v.dyn.history[n], w.dyn.history[n])):
                bad('twin', 'with hooks that only pass on (%s), the history of %s differs', case['hooks'], n)
        stats['reach.passthrough_twins'] += 1
