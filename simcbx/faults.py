"""Properties about interleaved callers, aborted steps, poisoned values and caller-owned objects."""
import copy
import math
import os
import random
import sys
import threading

import numpy as np

import cbx

from . import gen, model, world as worldmod
from .checks import Check, register, bad, gen_case
from .gen import ALL
from .steps import gen_resample, gen_prox
from .twins import STATE, Recorder, diff_state, final, gen_reg_sched
from .util import Violation, Injected, InjectedBase, HarnessError, pick, same, arr, h64
from .world import World, Oracle, MEMORY

CBX_DIR = os.path.dirname(os.path.abspath(cbx.__file__)) + os.sep


def in_lib(code):
    return code.co_filename.startswith(CBX_DIR)


# ---------------------------------------------------------------------------------------
class Baton:
    """Real threads of which exactly one runs at any time. The schedule is a list of
    (library lines to run, thread to continue with); when it is exhausted the remaining
    threads run to their end, one after the other."""

    def __init__(self, jobs, switches, onswitch, wall=50.):
        self.jobs, self.n = jobs, len(jobs)
        self.switches = list(switches)
        self.onswitch = onswitch
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.main = threading.Semaphore(0)
        self.alive = set(range(self.n))
        self.exc = [None] * self.n
        self.pos = 0
        self.left = None
        self.lines = 0
        self.taken = 0
        self.wall = wall
        self.arm()

    def arm(self):
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None

    def glob(self, frame, event, arg):
        return self.line if in_lib(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.switch()
        return self.line

    def switch(self):
        me = self.now
        to = self.switches[self.pos][1] % self.n
        self.pos += 1
        self.arm()
        self.onswitch(self.pos)
        while to not in self.alive:
            to = (to + 1) % self.n
        if to != me:
            self.taken += 1
            self.go(to)
            if not self.sem[me].acquire(timeout=self.wall):
                raise HarnessError('a parked thread was never released')

    def go(self, to):
        self.now = to
        self.sem[to].release()

    def body(self, k):
        self.sem[k].acquire()
        sys.settrace(self.glob)
        try:
            with np.errstate(all='ignore'):
                self.jobs[k]()
        except BaseException as e:
            self.exc[k] = e
        finally:
            sys.settrace(None)
            self.alive.discard(k)
            if self.alive:
                self.go(min(self.alive))
            else:
                self.main.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts:
            t.start()
        self.go(0)
        if not self.main.acquire(timeout=self.wall):
            raise HarnessError('the threads did not end')
        for t in ts:
            t.join(5.)
        for e in self.exc:
            if isinstance(e, HarnessError):
                raise e
        for e in self.exc:
            if e is not None:
                raise e


SHAREABLE = ('x', 'alpha', 'batch_args', 'mirrormap', 'sdf', 'constraints', 'betas', 'track_args')


def outcome(w):
    """everything observable of a finished run"""
    out = final(w)
    for k in ('sigma', 'lamda', 'dt'):
        if hasattr(w.dyn, k):
            out[k] = arr(getattr(w.dyn, k))
    out['term_reason'] = np.array([h64(None if r is None else [int(i) for i in r]) for r in w.dyn.term_reason])
    out['asked'] = np.concatenate([x.ravel() for x in w.obj.X]) if w.obj.X else np.zeros(0)
    for k, v in w.dyn.history.items():
        if k == 'particle_idx':
            continue
        out['history.%s.len' % k] = np.array(len(v))
        for i, e in enumerate(v):
            out['history.%s.%d' % (k, i)] = arr(e)
    r = getattr(w, 'resampling', None)
    for k in ('num_resampling', 'best_consensus', 'best_consensus_energy'):
        if getattr(r, k, None) is not None:
            out['resampling.' + k] = arr(getattr(r, k))
    return out


def first_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b or not same(a[k], b[k]):
            return k
    return None


@register
class C10(Check):
    id = 'C10'
    quick = 4000
    thorough = 60000
    chunk = 10
    rule = ('1 to 3 seeded optimizations in caller threads of one process; a seeded scheduler decides after how many library source '
            'lines which thread continues, and disturbs the global random state at every switch. Every optimization must end '
            'bitwise as when run alone. Non-trivial: threads were switched inside of the library, or the global state was disturbed there.')

    def gen(self, rng):
        k = int(pick(rng, [1, 2, 3], [1, 5, 2]))
        cl = [self.client(rng) for _ in range(k)]
        if k > 1 and rng.random() < .5:
            cl[1] = copy.deepcopy(cl[0])
            if rng.random() < .6:
                cl[1]['seed'] = int(rng.integers(1000))
        n = int(pick(rng, [3, 10, 40]))
        scale = float(pick(rng, [20, 120, 500]))
        return {'clients': cl, 'switch': [[int(1 + rng.exponential(scale)), int(rng.integers(k))] for _ in range(n)],
                'shared': bool(rng.random() < .5), 'dyn': cl[0]['dyn'], 'faults': []}

    def client(self, rng):
        c = gen_case(rng, x_none=.4, sampler=None, max_steps=6)
        c['seed'] = int(rng.integers(1000))
        if rng.random() < .15 and c['dyn'] not in ('MirrorCBO', 'HyperSurfaceCBO', 'RegCombinationCBO'):
            c['resample'] = gen_resample(rng, c)
            c['pp'] = None
        elif rng.random() < .1 and not gen.fragile(c):
            gen_prox(rng, c)
        if rng.random() < (.3 if c['dyn'] == 'RegCombinationCBO' else .08) and c.get('sched') != 'effective':
            gen_reg_sched(rng, c)
        if rng.random() < .3:
            c['term'].append({'k': 'stagnation', 'patience': 2, 'thr': 1e-3, 'style': pick(rng, ['inst', 'dict'])})
        c['track'] = {'names': ['x', 'energy', 'update_norm', 'best_energy'], 'save_int': int(pick(rng, [1, 2]))}
        if rng.random() < .2:
            c['track'] = None
        return c

    def run(self, case, stats):
        cl = case['clients']
        base = []
        for i, c in enumerate(cl):
            np.random.seed(99 + i)
            w = World(c, [], stats)
            w.run()
            base.append(outcome(w))
        ws = [World(c, [], stats) for c in cl]
        if case['shared'] and len(cl) > 1:
            src = ws[0].kwargs()
            for w, c in zip(ws, cl):
                if c['dyn'] == cl[0]['dyn'] and {k: c['kw'].get(k) for k in c['kw']} == cl[0]['kw'] and c['x'] == cl[0]['x'] \
                        and c.get('track') == cl[0].get('track') and c['M'] == cl[0]['M'] and c['N'] == cl[0]['N'] and c['d'] == cl[0]['d'] \
                        and c.get('xdim') == cl[0].get('xdim'):
                    w.override = {k: src[k] for k in SHAREABLE if k in src}

        def disturb(i):
            np.random.seed((7 * i + 3) % 1000)
            random.seed(i)
            np.random.standard_normal(i % 5)
            stats['fault.global_random_state_disturbed'] += 1
        np.random.seed(5)
        b = Baton([w.run for w in ws], case['switch'], disturb)
        b.run()
        stats['fault.thread_switch'] += b.taken
        stats['reach.lines_traced'] += b.lines
        for i, w in enumerate(ws):
            k = first_diff(base[i], outcome(w))
            if k:
                bad('differs', 'optimization %d of %d: %s is not as when it runs alone: %s, %s', i, len(ws), k,
                    np.ravel(outcome(w).get(k))[:5], np.ravel(base[i].get(k))[:5])
        return h64([w.signature() for w in ws], case['switch'], b.taken), sum(w.simtime() for w in ws), b.pos > 0

    def shrink(self, case):
        c = case
        sw = c['switch']
        if len(c['clients']) > 1:
            for i in range(len(c['clients'])):
                d = copy.deepcopy(c)
                d['clients'].pop(i)
                d['switch'] = [[a, min(b, len(d['clients']) - 1)] for a, b in sw]
                yield d
        for lo, hi in ((0, len(sw) // 2), (len(sw) // 2, len(sw))):
            if hi > lo:
                d = copy.deepcopy(c)
                d['switch'] = sw[:lo] + sw[hi:]
                yield d
        for i in range(len(sw)):
            d = copy.deepcopy(c)
            d['switch'] = sw[:i] + sw[i + 1:]
            yield d
        if c['shared']:
            yield dict(copy.deepcopy(c), shared=False)
        from . import shrink
        for i, cl in enumerate(c['clients']):
            for s in shrink.candidates(cl):
                if s.get('seed') is None:
                    continue
                d = copy.deepcopy(c)
                d['clients'][i] = s
                if i == 0 and len(d['clients']) > 1 and c['clients'][1] == cl:
                    d['clients'][1] = copy.deepcopy(s)
                yield d


# ---------------------------------------------------------------------------------------
class LineBomb:
    """raises KeyboardInterrupt before the n-th line that the library executes"""

    def __init__(self, n):
        self.left = n
        self.exc = None

    def glob(self, frame, event, arg):
        return self.line if in_lib(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0 and self.exc is None:
                self.exc = KeyboardInterrupt('simulated')
                raise self.exc
        return self.line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


EXC = ['Injected', 'InjectedBase', 'KeyboardInterrupt', 'MemoryError', 'OSError', 'FloatingPointError', 'ValueError', 'StopIteration',
       'RuntimeError', 'IndexError', 'TypeError', 'AttributeError', 'LinAlgError']
FAMILY = ('CBO', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO')


class AbortOracle(Oracle):
    def on_init(self, w):
        self.last = w.snap()
        self.t = 0.
        self.active = list(range(w.case['M']))
        self.byhand = False

    def on_terminate(self, w, before, after, fin):
        self.active = [int(a) for a in w.dyn.active_runs_idx]

    def on_step(self, w, st):
        if self.byhand:     # the criterion failed, the caller takes the step all the same
            self.byhand = False
            got = [r for r in range(w.case['M']) if st.S1.num_f_eval[r] > st.S0.num_f_eval[r]]
            if got != self.active:
                bad('byhand', 'a criterion failed, in the next step runs %s take part, the last check that worked left %s', got, self.active)
        self.t += float(st.S0.dt)
        self.check(w, st.S1)

    def check(self, w, S):
        if np.any(S.best_energy > self.last.best_energy):
            bad('worse', 'the best energy went from %s to %s', self.last.best_energy.tolist(), S.best_energy.tolist())
        self.last = S


def shapes(w):
    d = w.dyn
    M, N = w.case['M'], w.case['N']
    dd = tuple(w.case['d'])
    for k, s in (('x', (M, N) + dd), ('energy', (M, N)), ('best_energy', (M,)), ('best_particle', (M,) + dd), ('num_f_eval', (M,))):
        if np.shape(arr(getattr(d, k))) != s:
            bad('shape', '%s has the shape %s instead of %s after the abort', k, np.shape(arr(getattr(d, k))), s)


@register
class C11(Check):
    id = 'C11'
    extra = ('reg', 'prox', 'sched', 'post')
    quick = 12500
    thorough = 250000
    rule = ('A callback (objective, sampler, post processing, tracker, termination criterion, scheduler) raises an exception of a random '
            'type at a random call, or a KeyboardInterrupt arrives before a random source line of the library; then the same object is '
            'continued. Non-trivial: the fault was hit.')

    def gen(self, rng):
        c = gen_case(rng, x_none=.05, max_steps=7)
        at = pick(rng, ['obj', 'sampler', 'post_process', 'tracker', 'criterion', 'scheduler', 'line'], [4, 2, 1, 1, 1.5, 1, 3])
        f = {'at': at, 'kind': 'raise', 'exc': pick(rng, EXC)}
        per = c['M'] * c['N']
        if at == 'obj':
            f['row'] = int(rng.integers(0, per * 6))
        elif at == 'sampler':
            f['draw'] = int(rng.integers(0, 8))
        elif at == 'line':
            f['line'] = int(rng.integers(1, 500))
        else:
            f['n'] = int(rng.integers(0, 6))
        if at == 'post_process' and c.get('pp') is None:
            c['pp'] = 'wrap'
        c['faultytrack'] = at == 'tracker'
        c['track'] = {'names': ['x', 'energy', 'update_norm', 'consensus'], 'save_int': int(pick(rng, [1, 2]))}
        c['faultyterm'] = at == 'criterion'
        c['faultysched'] = at == 'scheduler'
        c['faults'] = [f]
        if at == 'criterion' and c.get('mode', 'loop') == 'loop' and rng.random() < .4:
            c['byhand'] = True
        return gen.user_parts(rng, c)

    def run(self, case, stats):
        f = case['faults'][0] if case['faults'] else None
        line = f is not None and f['at'] == 'line'
        # the undisturbed run
        plain = dict(case, faults=[])
        t = World(plain, [], stats)
        t.run()
        o = AbortOracle()
        c = dict(case, faults=[]) if line else case
        w = World(c, [o], stats)
        got, stage = None, 'build'
        worldmod.MADE.clear()
        bomb = None
        try:
            if line:
                w.build()
                stage = 'drive'
                with LineBomb(f['line']) as bomb:
                    w.drive()
            else:
                w.build()
                stage = 'drive'
                w.drive()
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            got = e
        made = bomb.exc if bomb is not None else (worldmod.MADE[-1] if worldmod.MADE else None)
        if made is None:
            if got is not None:
                raise got
            return h64(w.signature()), w.simtime(), False
        if line:
            stats['fault.interrupt_at_line'] += 1
        if got is None:
            bad('swallowed', 'the %s raised %r, but the library went on', f['at'], made)
        if got is not made:
            bad('changed', 'the %s raised %r, the caller was given %r', f['at'], made, got)
        if stage == 'build':
            w = World(plain, [], stats)     # nothing was constructed: a second attempt is a plain run
            w.run()
            k = first_diff(outcome(t), outcome(w))
            if k:
                bad('retry', 'after a constructor that failed, %s of a second attempt differs', k)
            return h64(w.signature(), f), w.simtime(), True
        S = w.snap()
        w.steps_at_abort = w.steps
        shapes(w)
        o.check(w, S)
        if not line:
            if int(S.it) != w.steps:
                bad('it', 'it = %d after %d completed steps and an abort', int(S.it), w.steps)
            if abs(float(S.t) - o.t) > 1e-9 * (1e-6 + o.t):
                bad('time', 't = %s after %d completed steps that take %s and an abort', float(S.t), w.steps, o.t)
            for r in range(case['M']):
                e = float(S.best_energy[r])
                if math.isfinite(e) and 'reg_lamda' not in S:    # (the values belong to the parameters of their time)
                    v = w.obj.scalar(S.best_particle[r].ravel()) + model.reg_value(case, S.best_particle[r].ravel())
                    if not abs(v - e) <= 1e-9 * (1 + abs(e)):
                        bad('notattained', 'after the abort the best particle of run %d has the value %r, not %r', r, v, e)
        if f['at'] in ('post_process', 'line') and not all(np.all(np.abs(S[k]) < 1e8) for k in ('x', 'y', 'v') if k in S and S[k] is not None):
            return h64(w.signature(), f), w.simtime(), True     # what was to clean the positions up is what failed
        # continue
        if case.get('byhand') and o.active:
            w.case = dict(w.case, blind={'0': 1})
            o.byhand = True
            stats['reach.step_by_hand_after_failure'] += 1
        try:
            w.drive()
        except (Violation, HarnessError):
            raise
        if not w.lib(w.dyn.terminate):
            bad('unfinished', 'the continued run did not terminate')
        if int(w.dyn.it) < max(int(t.dyn.it), 0) - 1 and not line and case.get('term') and \
                all(q['k'] in ('max_it', 'sched') for q in case['term']):
            bad('short', 'the continued run ended after %d steps instead of %d', int(w.dyn.it), int(t.dyn.it))
        batched = model.batch_conf(case)[0]
        first = f['at'] == 'criterion' and not case.get('byhand') or 'reg_lamda' not in S and (
            f['at'] == 'obj' and not batched and case['dyn'] in FAMILY and 'sigma_indep' not in case['kw'] and 'heavi' not in case['kw'].get('correction', 'none'))
        if first:
            stats['reach.retries_compared'] += 1
            a, b = outcome(t), outcome(w)
            for q in (a, b):
                q.pop('num_f_eval', None)
                q.pop('asked', None)
                q.pop('term_reason', None) if f['at'] != 'criterion' else None
                for k in [k for k in q if k.startswith('history.probe') or k.startswith('history.num_f_eval')]:
                    q.pop(k)
            k = first_diff(a, b)
            if k:
                bad('retry', 'the %s failed in step %d before anything had moved; after the retry %s differs from the undisturbed run: %s, %s',
                    f['at'], w.steps_at_abort, k, np.ravel(b.get(k))[:5], np.ravel(a.get(k))[:5])
        return h64(w.signature(), f), w.simtime(), True


# ---------------------------------------------------------------------------------------
class PoisonOracle(Oracle):
    def on_init(self, w):
        self.prev = np.full(w.case['M'], np.inf)

    def on_step(self, w, st):
        x = st.S1.x
        if not np.isfinite(x).all():
            m = np.argwhere(~np.isfinite(x))[0]
            bad('nonfinite', 'step %d: particle %d of run %d is at %s', w.steps, m[1], m[0], x[m[0], m[1]].tolist())
        if np.abs(x).max() > 1e8 * (1 + 1e-12):
            bad('huge', 'step %d: a particle is at %g', w.steps, np.abs(x).max())
        be = st.S1.best_energy
        if np.isnan(be).any():
            bad('nan', 'step %d: the best energy is NaN', w.steps)
        if np.any(be > self.prev):
            bad('worse', 'step %d: the best energy went from %s to %s', w.steps, self.prev.tolist(), be.tolist())
        for r in range(w.case['M']):
            if math.isfinite(be[r]) and not np.isfinite(st.S1.best_particle[r]).all():
                bad('bestpoint', 'step %d: the best particle of run %d is %s', w.steps, r, st.S1.best_particle[r].tolist())
        self.prev = be


@register
class C12(Check):
    id = 'C12'
    extra = ('reg', 'sched', 'obs')
    quick = 17500
    thorough = 300000
    rule = ('Objectives that answer NaN, inf, -inf or 1e300 in a region or at random evaluations, random draws that are NaN, infinite or '
            'huge, initial particles that are not finite, with all dynamics, batches and per-run termination; half of the cases poison '
            'one run only and compare the others with an unpoisoned twin. Non-trivial: a poisoned value was seen.')

    def gen(self, rng):
        c = gen_case(rng, max_steps=9, p_long=.01)
        k = c['kw']
        if gen.fragile(c):
            return self.gen(rng)
        if rng.random() < .5 and c['M'] > 1 and c['dyn'] not in MEMORY:
            c['one'] = int(rng.integers(c['M']))
            c['sampler'] = {'mode': 'keyed', 'seed': c['sampler']['seed'],
                            'bad': {str(c['one']): {str(int(i)): pick(rng, ['nan', 'inf', '1e300']) for i in rng.integers(0, 6, 2)}}}
            if c['x'] is not None and rng.random() < .4:
                c['x']['poison'] = [c['one'], int(rng.integers(c['N'])), pick(rng, ['nan', 'inf', '1e300'])]
            return c
        kinds = [('nan', math.nan), ('inf', math.inf), ('-inf', -math.inf), ('1e300', 1e300)]
        c['faults'] = []
        if rng.random() < .5:
            c['obj']['poison'] = {'dim': 0, 'thr': float(rng.uniform(-.6, .8)), 'value': pick(rng, kinds)[1], 'above': bool(rng.random() < .5)}
        for _ in range(int(rng.integers(0, 4))):
            c['faults'].append({'at': 'obj', 'row': int(rng.integers(0, c['M'] * c['N'] * 6)), 'kind': 'value', 'value': pick(rng, kinds)[1]})
        for _ in range(int(rng.integers(0, 3))):
            c['faults'].append({'at': 'sampler', 'draw': int(rng.integers(0, 8)), 'kind': 'value', 'pos': int(rng.integers(0, 100)),
                                'value': pick(rng, kinds)[1]})
        return c

    def run(self, case, stats):
        w = World(case, [PoisonOracle()], stats)
        w.run()
        if case.get('one') is None:
            nt = any(f.get('kind') for f in case['faults']) or bool(case['obj'].get('poison'))
            return w.signature(), w.simtime(), nt
        t = copy.deepcopy(case)
        t['sampler'].pop('bad')
        (t['x'] or {}).pop('poison', None)
        A, B = Recorder(), Recorder()
        w = World(case, [A], stats)
        w.run()
        u = World(t, [B], stats)
        u.run()
        q = case['one']
        for k in range(max(len(A.S), len(B.S))):
            for r in range(case['M']):
                if r == q:
                    continue
                ia, ib = (k < len(X.S) and r in X.active[k] for X in (A, B))
                if ia != ib:
                    bad('spread', 'run %d was poisoned; run %d takes step %d: %s, without the poison: %s', q, r, k, ia, ib)
                if not ia:
                    continue
                for key in ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'alpha', 'update_diff', 'f_min'):
                    if key in A.S[k] and np.ndim(A.S[k][key]) and not same(A.S[k][key][r], B.S[k][key][r]):
                        bad('spread', 'run %d was poisoned; step %d: %s of run %d changed', q, k, key, r)
        return h64(w.signature(), u.signature()), w.simtime() + u.simtime(), True


# ---------------------------------------------------------------------------------------
def freeze(v):
    """a comparable deep copy of a caller-owned argument"""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, dict):
        return ('dict', [(k, freeze(e)) for k, e in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(e) for e in v])
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return ('object', id(v))


class OwnedOracle(Oracle):
    def __init__(self):
        self.owned = None

    def note(self, kw):
        self.owned = {k: (v, freeze(v)) for k, v in kw.items()}

    def check(self, when):
        for k, (v, was) in self.owned.items():
            if freeze(v) != was:
                bad('modified', '%s: the argument %s of the caller was modified', when, k)

    def on_init(self, w):
        self.check('construction')

    def on_step(self, w, st):
        self.check('step %d' % w.steps)

    def on_sched(self, w, st):
        self.check('schedule update %d' % w.steps)

    def on_end(self, w):
        self.check('the end of the run')


@register
class C16(Check):
    id = 'C16'
    extra = ('reg', 'resample', 'prox', 'sched', 'post')
    quick = 8750
    thorough = 150000
    rule = ('Arguments owned by the caller (arrays, dictionaries, lists) are compared with deep copies after construction, every step, '
            'schedule updates, resets and aborts at random source lines; then a second object is built from the same arguments. '
            'Non-trivial: array or container arguments were passed.')

    def gen(self, rng):
        c = gen_case(rng, x_none=.02, max_steps=6)
        for t in c['term']:
            t['style'] = 'dict' if t['k'] != 'sched' and rng.random() < .6 else t.get('style', 'inst')
        c['track'] = {'names': ['x', 'energy', 'consensus', 'update_norm', 'best_particle'][int(rng.integers(0, 3)):],
                      'save_int': int(pick(rng, [1, 2]))}
        if rng.random() < .1:
            c['track'].pop('names')
        if rng.random() < .5 and not isinstance(c['kw']['alpha'], list):
            c['kw']['alpha'] = [c['kw']['alpha']] * c['M']
        c['faultytrack'] = bool(rng.random() < .4)      # a tracker of the caller (that does not fail here)
        c.pop('inst', None)
        c['how'] = pick(rng, ['plain', 'abort', 'overwrite', 'readonly'])
        c['line'] = int(rng.integers(1, 600))
        c['faults'] = []
        return c

    def run(self, case, stats):
        ref = World(case, [], stats)
        ref.run()
        want = outcome(ref)
        o = OwnedOracle()
        w = World(case, [o], stats)
        kw = w.kwargs()
        probes = [t for t in kw['term_criteria'] if isinstance(t, worldmod.ProbeTerm)]
        w.override = kw
        o.note(kw)
        how = case['how']
        if how == 'readonly':
            for k in ('x', 'alpha'):
                if isinstance(kw.get(k), np.ndarray):
                    kw[k].flags.writeable = False
        if how == 'abort':
            try:
                with LineBomb(case['line']) as bomb:
                    w.build()
                    w.drive()
            except KeyboardInterrupt as e:
                if e is not bomb.exc:
                    raise
                stats['fault.interrupt_at_line'] += 1
            o.check('an abort')
        elif how == 'overwrite' and 'x' in kw:
            w.build()
            keep = kw['x'].copy()
            kw['x'][...] = np.nan
            o.note(kw)
            w.drive()
            k = first_diff(want, outcome(w))
            if k:
                bad('aliased', 'the caller reused its array of initial particles after the construction; %s of the run changed', k)
            kw['x'][...] = keep
            o.note(kw)
        else:
            w.run()
            k = first_diff(want, outcome(w))
            if k:
                bad('differs', '%s differs from the run with fresh arguments (%s)', k, how)
        old = None if how == 'abort' else outcome(w)
        # a second object from the same arguments
        o2 = OwnedOracle()
        v = World(case, [o2], stats)
        v.override = dict(kw)
        for p in probes:
            p.world = v
        v.override['sampler'] = v.sampler
        if callable(kw.get('post_process')):
            v.override.pop('post_process')
        o2.note(kw)
        v.run()
        k = first_diff(want, outcome(v))
        if k:
            bad('second', 'a second run from the same arguments (first: %s) differs in %s', how, k)
        if old is not None:
            k = first_diff(old, outcome(w))
            if k:
                bad('shared', 'the results of the first object changed while a second one ran: %s', k)
        return h64(ref.signature(), how, case['line']), ref.simtime() + v.simtime(), True
