"""C21: the same problem stated in equivalent ways."""
import numpy as np

import cbx.constraints as ccon
import cbx.correction as ccorr
import cbx.dynamics as cd
import cbx.dynamics.hypersurfacecbo as chyp
import cbx.dynamics.mirrorcbo as cmirror
import cbx.dynamics.pdyn as cp
import cbx.noise as cnoise
import cbx.regularizers as creg
import cbx.scheduler as csched
import cbx.utils.objective_handling as coh
import cbx.utils.termination as cterm

from .checks import Check, register, bad
from .gen import gen_case, MULTI_D
from .twins import final, Recorder, diff_state
from .util import pick, h64, same, arr
from .world import World, to_arrays, DYNS
from . import model

# what is used if nothing is given, according to the documentation of the classes
DEFAULTS = {'dt': .01, 'alpha': 1., 'sigma': 5.1, 'lamda': 1., 'noise': 'isotropic', 'correction': 'no_correction', 'correction_eps': 1e-3}
MORE = {'AdamCBO': {'betas': (.9, .99), 'eps': 1e-8}, 'PolarCBO': {'kappa': 1., 'kernel_factor_mode': 'alpha'}}
BATCH = {'partial': True, 'seed': 42, 'var': 'resample'}


class Num(float):
    """a number that is its own type"""


def integer(v):
    return int(v) if float(v).is_integer() and abs(v) < 2 ** 50 else v


class FormWorld(World):
    """the case, stated in the given forms"""

    def __init__(self, case, forms, *args, **kw):
        self.forms = {f['k']: f for f in forms}
        super().__init__(case, *args, **kw)

    def has(self, k):
        return self.forms.get(k)

    # -- callbacks
    def answers(self):
        """the type of the objective's answers"""
        g = self.has('answers')
        if g is None:
            return
        how, call = g['v'], {k: getattr(self.obj, k) for k in ('call1', 'call2', 'call3')}
        store = {}

        def one(x):
            v = call['call1'](x)
            if how == 'int':
                return integer(v)
            if how == '0d':
                return np.array(v)
            if how == 'numpy':
                return np.float64(v)
            return v

        def more(name):
            def f(x):
                v = call[name](x)
                if how == 'int' and np.isfinite(v).all() and np.all(v == np.round(v)) and np.abs(v).max(initial=0) < 2 ** 50:
                    return v.astype(int)
                if how == 'frozen':
                    v.setflags(write=False)
                if how == 'buffer':
                    u = store.setdefault(v.shape, np.empty(v.shape))
                    u[...] = v
                    return u
                return v
            return f
        self.obj.call1 = one
        self.obj.call2 = more('call2')
        self.obj.call3 = more('call3')

    def kwargs(self):
        self.answers()
        c = self.case
        kw = super().kwargs()
        M, N, d = c['M'], c['N'], c['d']
        g = self.has('f_dim')
        if g:
            kw['f_dim'] = g['v']
        g = self.has('x')
        if g and 'x' in kw:
            x = kw['x']
            if g['v'] == 'int':
                x = x.astype(int)
            elif g['v'] == 'list':
                x = x.tolist()
            elif g['v'] == 'intlist':
                x = x.astype(int).tolist()
            elif g['v'] == 'frozen':
                x.setflags(write=False)
            elif g['v'] in ('2d', '1d'):
                x = x[0] if g['v'] == '2d' else x[0, 0]
            kw['x'] = x
        if self.has('alpha') and 'alpha' in kw:
            a = kw['alpha']
            kw['alpha'] = np.full((M, 1), float(a)) if not isinstance(a, np.ndarray) else a
            if self.has('alpha')['v'] == 'frozen':
                kw['alpha'].setflags(write=False)
        if self.has('integers'):
            for k in ('dt', 'alpha', 'sigma', 'lamda', 'kappa', 'm', 'gamma', 'lamda_memory', 'sigma_memory', 'eps', 'nu', 'correction_eps'):
                if isinstance(kw.get(k), float):
                    kw[k] = integer(kw[k])
                elif k == 'alpha' and isinstance(kw.get(k), np.ndarray) and np.all(kw[k] == np.round(kw[k])):
                    kw[k] = kw[k].astype(int)
        if self.has('omit'):
            for k, v in MORE.get(c['dyn'], {}).items():
                if 'more' in self.has('omit')['v'] and kw.get(k) == v:
                    del kw[k]
            for k in self.has('omit')['v']:
                if k == 'noise' and c['dyn'] == 'CBS':
                    continue
                if k in kw and k in DEFAULTS and not isinstance(kw[k], np.ndarray) and kw[k] == DEFAULTS[k]:
                    del kw[k]
        if self.has('spell'):
            for k, v in {**DEFAULTS, **MORE.get(c['dyn'], {})}.items():
                if k not in kw and not (k in ('noise', 'sigma') and c['dyn'] == 'CBS'):
                    kw[k] = v
        if self.has('explicit'):
            kw.setdefault('copy', np.copy)
            kw.setdefault('norm', np.linalg.norm)
            if c['dyn'] not in ('PolarCBO', 'HyperSurfaceCBO') and kw.get('compute_consensus') is None:
                kw['compute_consensus'] = cp.compute_consensus_default()
            if kw.get('post_process') is None:
                kw['post_process'] = cp.post_process_default(copy_nan_to_num=True) if c['dyn'] == 'RegCombinationCBO' else cp.post_process_default()
            if c['dyn'] != 'CBS' and kw.get('track_args') is None:
                kw['track_args'] = {'names': ['update_norm', 'energy'], 'save_int': 1, 'extra_tracks': []}
        g = self.has('batch')
        if g and c['dyn'] != 'CBS':
            b = dict(kw.get('batch_args') or {})
            size = b.get('size')
            if size is None or size >= N:
                b = {'none': None, 'empty': {}, 'sizenone': {'size': None}, 'full': {'size': N}, 'more': {'size': N + 2, 'seed': 3}}[g['v']]
            elif g['v'] in ('none', 'empty'):     # what is the default need not be said
                b = {k: v for k, v in b.items() if k not in BATCH or v != BATCH[k]}
            else:
                b = {**BATCH, **b}
            kw['batch_args'] = b
        g = self.has('instances')
        if g:
            for k in g['v']:
                self.instance(kw, k)
        g = self.has('callables')
        if g:
            for k in g['v']:
                self.as_callable(kw, k)
        if self.has('maxit') and len(c['term']) == 1 and c['term'][0]['k'] == 'max_it' and len(kw.get('term_criteria', [])) == 1:
            del kw['term_criteria']
            kw['max_it'] = c['term'][0]['v']
        if self.has('drawer') and kw.get('sampler') is not None:
            s = self.sampler
            kw['sampler'] = lambda size: s(size=size)
            if self.has('drawer')['v'] == 'buffer':
                store = {}

                def buffer(size):
                    z = s(size=size)
                    u = store.setdefault(z.shape, np.empty(z.shape))
                    u[...] = z
                    return u
                kw['sampler'] = buffer
            if self.has('drawer')['v'] == 'frozen':
                def frozen(size):
                    z = s(size=size)
                    z.setflags(write=False)
                    return z
                kw['sampler'] = frozen
        if self.has('talk'):
            kw['verbosity'] = self.has('talk')['v']
        if self.has('constraints') and 'constraints' in kw:
            v = kw['constraints']
            kw['constraints'] = (None if not v else tuple(v) if self.has('constraints')['v'] == 'tuple' else [None] + list(v) + [None])
        if self.has('mirror') and c['dyn'] == 'MirrorCBO':
            m = kw.get('mirrormap')
            n = m if isinstance(m, str) else 'None' if m is None else m.get('name') if isinstance(m, dict) else '?'
            if n in ('None', 'L2') and (not isinstance(m, dict) or len(m) == 1):
                kw['mirrormap'] = {'none': None, 'str': 'None', 'L2': 'L2', 'dict': {'name': 'L2'}}[self.has('mirror')['v']]
        return kw

    def instance(self, kw, k):
        """an object instead of its name"""
        c = self.case
        if k == 'noise' and isinstance(kw.get('noise'), str) and c['dyn'] != 'HyperSurfaceCBO':
            kw['noise'] = getattr(cnoise, {'sampling': 'covariance'}.get(kw['noise'], kw['noise']) + '_noise')(
                norm=np.linalg.norm, sampler=self.sampler)
        elif k == 'correction' and isinstance(kw.get('correction'), str):
            kw['correction'] = ccorr.get_correction(kw['correction'], eps=kw.pop('correction_eps', 1e-3))
        elif k == 'kernel' and isinstance(kw.get('kernel'), str):
            kw['kernel'] = DYNS['PolarCBO'].kernel_dict[kw['kernel']](kappa=kw.pop('kappa', 1.))
        elif k == 'mirrormap' and isinstance(kw.get('mirrormap'), (str, dict)):
            m = dict(kw['mirrormap']) if isinstance(kw['mirrormap'], dict) else {'name': kw['mirrormap']}
            kw['mirrormap'] = cmirror.get_mirror_map_by_name(m.pop('name'), **m)
        elif k == 'mirrormap' and kw.get('mirrormap') is None and c['dyn'] == 'MirrorCBO':
            kw['mirrormap'] = cmirror.mirror_dict['L2']()
        elif k == 'mirrorname' and isinstance(kw.get('mirrormap'), str):
            kw['mirrormap'] = {'name': kw['mirrormap']}
        elif k == 'sdf' and c['dyn'] == 'HyperSurfaceCBO':
            s = (kw.get('sdf') or {}).get('name')
            if s is None:
                kw['sdf'] = {'name': 'sphere'}
            elif s == 'sphere':
                kw['sdf'] = None
        elif k == 'term':
            conv = []
            for t, inst in zip(c['term'], kw.get('term_criteria', [])):
                if t['k'] in ('max_it', 'energy_tol', 'diff_tol', 'max_eval', 'max_time'):
                    names = {'max_it': ['max-it', 'max_it', 'max it'], 'energy_tol': ['energy-tol', 'energy_tol', 'energy tol'],
                             'diff_tol': ['diff-tol', 'diff_tol', 'diff tol'], 'max_eval': ['max-eval', 'max_eval', 'max eval'],
                             'max_time': ['max-time', 'max_time', 'max time']}[t['k']]
                    n = names[self.has('instances')['n'] % 3]
                    n = n if n in cterm.term_dict else names[0]
                    conv.append({'name': n, t['k']: t['v']} if t.get('style', 'inst') != 'dict' else
                                {'max_it': cterm.max_it_term, 'energy_tol': cterm.energy_tol_term, 'diff_tol': cterm.diff_tol_term,
                                 'max_eval': cterm.max_eval_term, 'max_time': cterm.max_time_term}[t['k']](**{t['k']: t['v']}))
                else:
                    conv.append(inst)
            if conv:
                kw['term_criteria'] = conv + kw['term_criteria'][len(conv):]

    def as_callable(self, kw, k):
        """a function of the caller instead of the object"""
        c = self.case
        if k == 'noise' and c['dyn'] != 'HyperSurfaceCBO':
            n = kw.get('noise', 'covariance' if c['dyn'] == 'CBS' else 'isotropic')
            obj = n if not isinstance(n, str) else getattr(cnoise, {'sampling': 'covariance'}.get(n, n) + '_noise')(norm=np.linalg.norm, sampler=self.sampler)
            kw['noise'] = lambda dyn: obj(dyn)
        elif k == 'correction':
            n = kw.get('correction', 'no_correction')
            fn = n if not isinstance(n, str) else ccorr.get_correction(n, eps=kw.pop('correction_eps', 1e-3))
            kw['correction'] = lambda dyn, x: fn(dyn, x)
        elif k == 'consensus' and c['dyn'] not in ('PolarCBO', 'HyperSurfaceCBO'):
            fn = kw.get('compute_consensus') or cp.compute_consensus_default()
            kw['compute_consensus'] = lambda energy, x, alpha: fn(energy, x, alpha)
        elif k == 'post' and not self.case.get('resample'):
            fn = kw.get('post_process') or (cp.post_process_default(copy_nan_to_num=True) if c['dyn'] == 'RegCombinationCBO' else cp.post_process_default())
            kw['post_process'] = lambda dyn: fn(dyn)
        elif k == 'term':
            kw['term_criteria'] = [(lambda t: lambda dyn: t(dyn))(cterm.select_term(t)) for t in kw.get('term_criteria', [cterm.max_it_term(kw.get('max_it'))])]

    def build(self):
        g = self.has('object')
        r = self.has('reg')
        if r is not None and self.case.get('reg'):
            f = self.case['reg']['func']
            f = {'name': f} if r['v'] == 'dict' else creg.reg_func_dict[f]() if r['v'] == 'object' else (lambda h: lambda x: h(x))(creg.reg_func_dict[f]())
            self.case = dict(self.case, reg=dict(self.case['reg'], func=f))
        if g is None or self.case.get('reg'):
            dyn = self.build_reg()
        else:
            old = self.obj.callable

            def wrapped(f_dim):
                fn = old(f_dim)
                if g['v'] == 'class':
                    class F:
                        def __call__(self, x):
                            return fn(x)
                    return F()
                if f_dim == '3D' and g['v'] == 'cbx':
                    class G(coh.cbx_objective):
                        def apply(self, x):
                            return fn(x)
                    return G()
                if g['v'] == 'promoted' and len(self.case['d']) == 1:
                    self.promoted = True
                    return {'1D': coh.cbx_objective_f1D, '2D': coh.cbx_objective_f2D, '3D': coh.cbx_objective_fh}[f_dim](fn)
                return fn
            self.obj.callable = wrapped
            dyn = self.build_reg()
        return dyn

    def build_reg(self):
        return super().build()

    def signature(self):
        return h64(self.digest())

    def pre_build(self):
        if getattr(self, 'promoted', False):
            self.inputs['f_dim'] = '3D'

    def make_sched(self):
        s = super().make_sched()
        return s


@register
class C21(Check):
    id = 'C21'
    extra = ('reg', 'resample', 'prox', 'post', 'obs')
    quick = 20000
    thorough = 300000
    rule = ('A random problem is run as given and stated in other, equivalent forms (form of the objective and of its answers, shapes and '
            'types of the positions and parameters, names or objects or functions, defaults left out or spelled out, criteria, schedules); '
            'every step of the two runs is compared bit by bit. Non-trivial: a step was taken and a form was changed.')

    def gen(self, rng):
        c = gen_case(rng, max_steps=5, x_none=0.)
        c.pop('xdim', None)
        c.pop('inst', None)
        c['check_f_dims'] = False
        kw = c['kw']
        for k, v in DEFAULTS.items():
            if k == 'noise' or (k == 'sigma' and c['dyn'] == 'CBS') or (k == 'alpha' and c['dyn'] == 'PolarCBO'):
                continue
            if k in kw and rng.random() < .25:
                kw[k] = v
        # values far from the usual ones
        for k, vals in (('correction_eps', [1e-7, 1e-5, 50.]), ('dt', [1e-6, 3.]), ('lamda', [1e-4, 20.]), ('sigma', [1e-6, 40.]),
                        ('kappa', [1e-3, 300.]), ('eps', [1e-12, 5.]), ('m', [1e-6, 3.]), ('lamda_memory', [1e-5, 9.])):
            if isinstance(kw.get(k), float) and rng.random() < (.4 if k == 'correction_eps' else .06):
                kw[k] = float(pick(rng, vals))
        for k, v in MORE.get(c['dyn'], {}).items():
            if rng.random() < .4:
                kw[k] = list(v) if k == 'betas' else v
            elif rng.random() < .2:
                kw.pop(k, None)
        if kw.get('batch_args') and rng.random() < .4:
            b = kw['batch_args']
            for k, v in BATCH.items():
                if rng.random() < .5 and not (k == 'partial'):
                    b[k] = v
        if rng.random() < .3:
            c['seed'] = int(rng.integers(1000))
        if rng.random() < .3 and c['x']['kind'] == 'uniform' and not c['x'].get('set') and c['dyn'] not in ('MirrorCBO', 'HyperSurfaceCBO') \
                and not kw.get('constraints'):
            c['x'].update(kind='int', scale=1.)
        if rng.random() < .25:
            c['obj'].update(name='kink', scale=1., offset=0., shift=[0.] * len(c['obj']['shift']))
        if rng.random() < .3:
            c['term'] = [t for t in c['term'] if t['k'] == 'max_it']
            c['term'][0].pop('style', None)
        if rng.random() < .1 and len(c['d']) == 1 and not c.get('reg'):
            c['reg'] = {'func': pick(rng, ['L1', 'L0', 'Sphere']), 'lamda': float(pick(rng, [1., .1])), 'p': int(pick(rng, [1, 2]))}
        c['schedule'] = pick(rng, ['default', 'effective', 'none'])
        c['sched'] = None
        if rng.random() < .5:
            c['mode'] = 'optimize'
        forms = []

        def add(k, p, v=True, **more):
            if rng.random() < p:
                forms.append(dict({'k': k, 'v': v}, **more))
        if len(c['d']) == 1:
            add('f_dim', .4, pick(rng, ['1D', '2D', '3D']))
        xf = ['list', 'frozen', 'float']
        if c['x']['kind'] == 'int':
            xf = ['int', 'intlist', 'list']
        if c['M'] == 1 and len(c['d']) == 1:
            xf += ['2d'] + (['1d'] if c['N'] == 1 else [])
        add('x', .5, pick(rng, xf))
        add('alpha', .3, pick(rng, ['array', 'frozen']))
        add('integers', .3)
        add('omit', .4, [k for k in list(DEFAULTS) + ['more'] if rng.random() < .7])
        add('spell', .15)
        add('explicit', .2)
        add('batch', .4, pick(rng, ['none', 'empty', 'sizenone', 'full', 'more']))
        add('instances', .4, [k for k in ('noise', 'correction', 'kernel', 'mirrormap', 'mirrorname', 'sdf', 'term') if rng.random() < .6], n=int(rng.integers(3)))
        add('callables', .3, [k for k in ('noise', 'correction', 'consensus', 'post', 'term') if rng.random() < .5])
        add('maxit', .3)
        add('drawer', .3, pick(rng, ['function', 'frozen', 'buffer']))
        add('talk', .1, int(pick(rng, [1, 2])))
        add('constraints', .3, pick(rng, ['tuple', 'nones']))
        add('mirror', .5, pick(rng, ['none', 'str', 'L2', 'dict']))
        add('answers', .4, pick(rng, ['int', '0d', 'numpy', 'frozen', 'buffer'], [3, 1, 1, 1, 1.5]))
        add('object', .3, pick(rng, ['class', 'cbx', 'promoted']))
        if c.get('reg'):
            add('reg', .8, pick(rng, ['dict', 'object', 'function']))
        add('sched', .4, pick(rng, ['object', 'list', 'plain']))
        c['forms'] = forms
        return c

    def once(self, case, forms, stats):
        w = FormWorld(case, forms, [], stats)
        w.build()
        snaps = []
        g = w.has('sched')
        s = case['schedule']
        eff, mul = csched.effective_sample_size, csched.multiply
        cbs = case['dyn'] == 'CBS'
        if g is None and not (cbs and s == 'effective'):
            sched = None if s == 'none' else s
        elif s == 'none':
            sched = csched.scheduler([])
        elif s == 'default':
            sched = w.dyn.default_sched() if g is None or g['v'] == 'object' else csched.scheduler([] if cbs else [mul(name='alpha', factor=1.05)])
        else:
            sched = eff() if g is not None and g['v'] == 'plain' and not cbs else csched.scheduler([eff(name='alpha', eta=.5, maximum=1e5)])

        post = w.dyn.post_process

        def spy(dyn):
            post(dyn)
            snaps.append({k: arr(getattr(dyn, k)) for k in ('x', 'energy', 'alpha', 'num_f_eval', 'consensus')})
        w.dyn.post_process = spy
        kw = {'sched': sched}
        if g is not None and s == 'default' and g['v'] == 'plain':
            kw = {}
        if case['mode'] == 'optimize':
            res = w.lib(w.dyn.optimize, **kw)
            if cbs:
                res = None
        else:
            if sched is None or isinstance(sched, str):
                sched = {'default': w.dyn.default_sched(), 'effective': eff(), None: csched.scheduler([])}[sched]
            n, res = 0, None
            while not w.lib(w.dyn.terminate):
                w.lib(w.dyn.step)
                w.lib(sched.update, w.dyn)
                n += 1
                if n > 60:
                    bad('nonterminating', 'no termination within %d steps', n)
        return w, snaps, res

    def run(self, case, stats):
        a, sa, ra = self.once(case, [], stats)
        b, sb, rb = self.once(case, case['forms'], stats)
        for f in case['forms']:
            stats['reach.form_' + f['k']] += 1
        who = ', '.join('%s=%s' % (f['k'], f['v']) for f in case['forms'])
        for i, (p, q) in enumerate(zip(sa, sb)):
            for k in p:
                if not same(p[k], q[k]):
                    bad('forms', 'stated with %s, %s differs after %d steps: %s, %s', who, k, i + 1, np.ravel(q[k])[:5], np.ravel(p[k])[:5])
        if len(sa) != len(sb):
            bad('forms', 'stated with %s, the run takes %d steps instead of %d', who, len(sb), len(sa))
        fa, fb = final(a), final(b)
        k = diff_state(fa, fb)
        if k:
            bad('forms', 'stated with %s, %s differs at the end: %s, %s', who, k, np.ravel(fb.get(k))[:5], np.ravel(fa.get(k))[:5])
        if not all(same(u, v) for u, v in zip(a.dyn.term_reason, b.dyn.term_reason)):
            bad('forms', 'stated with %s, the reasons of the termination are %s instead of %s', who, b.dyn.term_reason, a.dyn.term_reason)
        if set(a.dyn.history) != set(b.dyn.history) or any(
                len(v) != len(b.dyn.history[n]) or any(not same(p, q) for p, q in zip(v, b.dyn.history[n])) for n, v in a.dyn.history.items()):
            bad('forms', 'stated with %s, the history differs', who)
        if ra is not None and not same(ra, rb):
            bad('forms', 'stated with %s, the result is %s instead of %s', who, np.ravel(rb)[:5], np.ravel(ra)[:5])
        if case['mode'] == 'optimize':
            stats['steps'] += len(sa) + len(sb)
        return h64(a.signature(), case['forms']), a.simtime() + b.simtime(), bool(sa and case['forms'])
