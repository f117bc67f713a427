"""Swarm-style generation of cases: every run varies the dynamic, sizes, parameters, batches,
termination schedules and enabled fault kinds."""
import numpy as np

from .util import pick

ALL = ['CBO', 'CBOMemory', 'AdamCBO', 'PSO', 'CBS', 'PolarCBO', 'MirrorCBO',
       'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO']
WEIGHT = {'CBO': 3, 'CBOMemory': 2, 'PSO': 2, 'PolarCBO': 2, 'AdamCBO': 1.5, 'CBS': 1, 'MirrorCBO': 1.5,
          'DriftConstrainedCBO': 1, 'HyperSurfaceCBO': 1, 'RegCombinationCBO': 1}
MULTI_D = ('CBO', 'CBOMemory', 'PSO', 'AdamCBO')


FAR = {'dt': [1e-5, 2.], 'sigma': [1e-5, 30.], 'lamda': [0., 1e-3, 8.], 'lamda_memory': [0., 6.], 'sigma_memory': [5.], 'm': [1e-4, 1.5],
       'kappa': [.01, 200.], 'correction_eps': [1e-5, 30.], 'eps': [1e-3, 7.], 'nu': [.05, 30.]}


def fragile(c):
    """the library factorises matrices of values that are not finite (and fails loudly)"""
    k = c['kw']
    return (k['noise'] in ('covariance', 'sampling') or (k.get('sdf') or {}).get('name') == 'Stiefel'
            or isinstance(k.get('mirrormap'), dict) and k['mirrormap']['name'] == 'ProjectionStiefel')


def gen_post(rng, c):
    """post-processing of the caller"""
    k = c['kw']
    if c['dyn'] in ('MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO'):
        return
    tame = k.get('dt', .01) <= .1 and k.get('sigma', 5.1) <= 1 and k.get('noise') in ('isotropic', 'anisotropic', 'constant') and not c.get('faults') \
        and c['dyn'] != 'CBS' and (c.get('sampler') or {}).get('mode', 'normal') == 'normal'
    kind = pick(rng, ['inplace', 'replace', 'none'], [2, 2, 2 if tame else 0])
    c['pp'] = {'own': kind}
    if kind != 'none':
        c['pp']['box'] = float(pick(rng, [1., .5, 4.]))


def gen_objective(rng, d, tame=False):
    n = int(np.prod(d))
    o = {'name': pick(rng, ['quad', 'rastrigin', 'abs', 'lin', 'step', 'quart', 'well', 'const'],
                      [4, 3, 2, 1, 1.5, 1, 1, .3]),
         'shift': [float(np.round(s, 3)) for s in rng.uniform(-1, 1, n)]}
    if not tame:
        o['scale'] = pick(rng, [1., 1e-3, 1e2, 1e6, -1.], [6, 1, 1, .6, .5])
        o['offset'] = pick(rng, [0., -5., 1e3, -1e6], [5, 2, 1, .5])
    return o


def gen_mirror(rng, d):
    n = d[0]
    return pick(rng, [
        None, 'L2', {'name': 'L2', 'lamda': 2.5}, {'name': 'ProjectionBall'},
        {'name': 'ProjectionBall', 'radius': .6, 'center': [float(c) for c in np.round(rng.uniform(-.5, .5, n), 2)]},
        {'name': 'ProjectionHyperplane', 'a': [float(c) for c in np.round(rng.uniform(.2, 1.5, n), 2)], 'b': float(pick(rng, [0, .5, -1]))},
        {'name': 'ProjectionSphere', 'r': float(pick(rng, [1., .5, 2.]))}, 'ProjectionSphere',
        {'name': 'ProjectionSquare', 'r': float(pick(rng, [1., .5, 2.]))}, 'ProjectionSquare',
        'LogBarrierBox', 'NonsmoothBarrier', 'ElasticNet', {'name': 'ElasticNet', 'delta': .5, 'lamda': .2},
        'Entropy', 'EntropySimplex', {'name': 'ProjectionStiefel', 'nk': pick(rng, [[2, 1], [3, 1], [2, 2], [3, 2]])}])


def gen_constraints(rng, d, name):
    n = d[0]

    def one():
        k = pick(rng, ['sphere', 'plane', 'quadric'])
        if k == 'sphere':
            return {'name': 'sphere', 'r': float(pick(rng, [1., .5, 2.]))}
        if k == 'plane':
            return {'name': 'plane', 'a': [float(c) for c in np.round(rng.uniform(.2, 1.5, n), 2)], 'b': float(pick(rng, [0., .5, 1.]))}
        A = np.round(rng.uniform(-1, 1, (n, n)), 2)
        A = (A @ A.T + .2 * np.eye(n)).round(4)
        return {'name': 'quadric', 'A': A.tolist(), 'b': [float(c) for c in np.round(rng.uniform(-1, 1, n), 2)],
                'c': float(pick(rng, [0., -1.]))}
    k = pick(rng, [0, 1, 2, 3], [1, 5, 2, 1] if name == 'DriftConstrainedCBO' else [1, 5, 0, 0])
    return [one() for _ in range(k)]


def gen_case(rng, dyns=None, multi_d=True, batch=0.45, term=True, noises=None, corr=True, max_steps=8,
             tame=False, M=None, sampler='normal', extreme_alpha=True, x_none=0.1, mode=None, sched=True,
             weights=None, minN=1, keep_feasible=False, heavy_draws=True,
             p_multi=.12, p_big=.025, p_far=.06, p_long=0.):
    dyns = dyns or ALL
    name = pick(rng, dyns, [(weights or WEIGHT).get(k, 1) for k in dyns])
    c = {'dyn': name}
    c['M'] = int(M if M is not None else pick(rng, [1, 2, 3, 4], [3, 3, 2, 1]))
    c['N'] = int(max(minN, pick(rng, [1, 2, 3, 4, 5, 6, 7], [.3, 1, 2, 2, 2, 2, 1])))
    c['d'] = [int(pick(rng, [1, 2, 3], [1.5, 3, 2]))]
    kw = {}
    big = rng.random() < p_big
    if big:         # larger than usual in one direction
        k = pick(rng, ['M', 'N', 'd'])
        if k == 'M' and M is None:
            c['M'] = int(rng.integers(5, 11))
        elif k == 'N':
            c['N'] = int(rng.integers(9, 40))
        elif k == 'd':
            c['d'] = [int(rng.integers(4, 9))]
    if multi_d and not big and name in MULTI_D and rng.random() < p_multi:
        c['d'] = pick(rng, [[2, 2], [1, 2], [2, 1], [3, 2], [2, 3], [1, 3], [1, 1], [2, 1, 2], [2, 2, 2]], [6, 2, 2, 1, 1.5, .5, .5, 1, .5])
    if name == 'PolarCBO' and multi_d and not big and rng.random() < .08:
        c['d'] = pick(rng, [[2, 2], [2, 1], [1, 2], [2, 3], [2, 1, 2]], [5, 1, 1, 1, 1])
    multi = len(c['d']) > 1
    c['f_dim'] = '3D' if multi else pick(rng, ['1D', '2D', '3D'], [2, 1, 2])
    c['obj'] = gen_objective(rng, c['d'], tame)
    kw['dt'] = float(pick(rng, [.01, .1, .5, 1.], [2, 4, 2, .5]))
    kw['sigma'] = float(pick(rng, [0., .1, 1., 5.1], [.7, 2, 4, 1.]))
    kw['lamda'] = float(pick(rng, [1., .5, 2.], [4, 1, 1]))
    if name == 'CBS':
        kw.pop('sigma')
    al = [0., .1, 1., 30., 1e3, 1e5] if extreme_alpha else [.1, 1., 5., 30.]
    if rng.random() < .25:
        kw['alpha'] = [float(pick(rng, al)) for _ in range(c['M'])]
    else:
        kw['alpha'] = float(pick(rng, al, [.4, 1, 3, 3, 1, .6] if extreme_alpha else None))
    nz = ['isotropic', 'anisotropic', 'constant', 'covariance', 'sampling']
    if multi:
        nz = nz[:3]
    if name == 'HyperSurfaceCBO':
        nz = nz[:2]
    if name == 'CBS':
        nz = nz[3:] if rng.random() < .7 else nz[:3]
    if noises is not None:
        nz = [n for n in nz if n in noises] or nz[:1]
    kw['noise'] = pick(rng, nz, [4 if n == 'isotropic' else 2 if n == 'anisotropic' else 1 for n in nz])
    if name == 'CBS':
        kw['mode'] = pick(rng, ['sampling', 'optimization'])
    if corr and rng.random() < .25:
        kw['correction'] = pick(rng, ['heavi_side', 'heavi_side_reg'])
        if rng.random() < .5:
            kw['correction_eps'] = float(pick(rng, [1e-3, .1, 1.]))
    N = c['N']
    if name != 'CBS' and N > 1 and rng.random() < batch:
        kw['batch_args'] = {'size': int(rng.integers(1, N + 1)), 'seed': int(rng.integers(0, 50))}
        if rng.random() < .4:
            kw['batch_args']['partial'] = bool(rng.random() < .3)
        if rng.random() < .5:
            kw['batch_args']['var'] = pick(rng, ['resample', 'concat'])
    elif name != 'CBS' and rng.random() < .1:
        kw['batch_args'] = {'size': pick(rng, [None, N, N + 3])}
        if rng.random() < .4:   # entries left out
            kw['batch_args'] = {k: v for k, v in (('partial', bool(rng.random() < .5)), ('seed', 5), ('var', 'concat')) if rng.random() < .5}
    if N > 7 and name in ('CBOMemory', 'PSO') and 'partial' in kw.get('batch_args', {}):
        kw['batch_args']['partial'] = True      # the batch is only seen in the consensus, with too many candidates
    if kw.get('batch_args', {}).get('partial', True) is False:
        # particles that no batch has held yet have energy inf, and 0 * inf has no weight
        fix = (lambda a: .1 if a == 0 else a)
        kw['alpha'] = [fix(a) for a in kw['alpha']] if isinstance(kw['alpha'], list) else fix(kw['alpha'])
    if name in ('CBOMemory', 'PSO'):
        if rng.random() < .6:
            kw['lamda_memory'] = float(pick(rng, [0.1, 1., 2.]))
        if rng.random() < .5:
            kw['sigma_memory'] = float(pick(rng, [0., .3, 1.]))
    if name == 'PSO':
        if rng.random() < .7:
            kw['m'] = float(pick(rng, [0.2, .5, .9]))
        if rng.random() < .4:
            kw['gamma'] = float(pick(rng, [.5, 1.]))
    if name == 'AdamCBO' and rng.random() < .5:
        kw['betas'] = pick(rng, [[.9, .99], [.5, .9], [.0, .5]])
        kw['eps'] = float(pick(rng, [1e-8, 1e-3]))
    if name == 'PolarCBO':
        kw['kernel'] = 'Gaussian' if multi else pick(
            rng, ['Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz'], [3, 1, 1, 1, 1])
        kw['kappa'] = float(pick(rng, [.1, .5, 1., 10.]))
        if rng.random() < .4:
            kw['kernel_factor_mode'] = 'const'
        b = kw.get('batch_args', {})
        if kw['kernel'] == 'Constant' and np.any(np.array(kw['alpha']) == 0):
            kw['alpha'] = 1.
        if kw['kernel'] == 'Constant' and b.get('partial', True) is False:
            b['partial'] = True
    xk = {'kind': 'uniform', 'seed': int(rng.integers(1 << 30)), 'scale': float(pick(rng, [1., 3., 1e-2, 1e3], [6, 2, 1, .5]))}
    if rng.random() < .12:
        xk['kind'] = pick(rng, ['cluster', 'dup', 'same'])
    if name == 'MirrorCBO':
        kw['mirrormap'] = gen_mirror(rng, c['d'])
        mm = kw['mirrormap']
        mn = mm['name'] if isinstance(mm, dict) else (mm or 'L2')
        if mn in ('LogBarrierBox', 'NonsmoothBarrier'):
            xk.update(kind='uniform', scale=.9)
        elif mn == 'Entropy':
            xk.update(kind='pos', scale=1.)
        elif mn == 'ProjectionStiefel':
            c['d'] = [mm['nk'][0] * mm['nk'][1]]
            c['obj'] = gen_objective(rng, c['d'], tame)
            xk['kind'] = 'uniform'
        elif mn == 'EntropySimplex':
            xk.update(kind='simplex', scale=1.)
            if c['d'] == [1]:
                c['d'] = [2]
                c['obj']['shift'] = [.3, .1]
    if name in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        if xk['kind'] == 'dup':     # holds the origin, where the linear system may be singular
            xk['kind'] = 'uniform'
        kw['constraints'] = gen_constraints(rng, c['d'], name)
        kw['eps'] = float(pick(rng, [.01, .1, 1.]))
        if name == 'DriftConstrainedCBO' and rng.random() < .4:
            kw['sigma_indep'] = float(pick(rng, [.3, 1.]))
            kw['eps_indep'] = float(pick(rng, [.001, .01, .05]))
        if name == 'RegCombinationCBO':
            if rng.random() < .5:
                kw['nu'] = float(pick(rng, [.5, 2., 1.]))
            if rng.random() < .1:
                kw['eps'] = 1e16
    if name == 'HyperSurfaceCBO':
        s = pick(rng, ['none', 'sphere', 'plane', 'Stiefel'])
        xk.update(kind='sphere', scale=1.)
        if s == 'sphere':
            kw['sdf'] = {'name': 'sphere'}
        elif s == 'plane':
            kw['sdf'] = {'name': 'plane', 'a': [float(v) for v in np.round(rng.uniform(.2, 1.5, c['d'][0]), 2)],
                         'b': float(pick(rng, [0., .5, 1.]))}
            xk['kind'] = 'uniform'
        elif s == 'Stiefel':
            nk = pick(rng, [[2, 1], [3, 1], [2, 2], [3, 2]])
            kw['sdf'] = {'name': 'Stiefel', 'nk': nk}
            c['d'] = [nk[0] * nk[1]]
            c['obj'] = gen_objective(rng, c['d'], tame)
            xk['kind'] = 'uniform'
    for k, vals in FAR.items():     # values far from the usual ones
        if isinstance(kw.get(k), float) and rng.random() < p_far:
            kw[k] = float(pick(rng, vals))
    c['kw'] = kw
    c['x'] = xk
    simple = name not in ('MirrorCBO', 'HyperSurfaceCBO')
    if simple and not multi and rng.random() < x_none:
        c['x'] = None
        c['seed'] = int(rng.integers(1000))
    elif c['M'] == 1 and not multi and rng.random() < .2:
        c['xdim'] = 2 if c['N'] > 1 or rng.random() < .5 else 1
    if sampler:
        c['sampler'] = {'mode': sampler, 'seed': int(rng.integers(1 << 30))}
        if sampler == 'normal' and heavy_draws and rng.random() < .15:
            c['sampler']['mode'] = pick(rng, ['big', 'coarse', 'sign', 'zero'][:3 if 'sigma_indep' in kw else 4])
    T = int(rng.integers(2, max_steps + 1))
    if p_long and rng.random() < p_long and not big:
        T = int(rng.integers(20, 70))
    if term:
        c['term'] = gen_term(rng, c, T)
    else:
        c['max_it'] = T
    c['mode'] = mode or pick(rng, ['loop', 'optimize'])
    if c['mode'] == 'optimize' and 'term' not in c:
        c['term'] = [{'k': 'max_it', 'v': T}]
    if sched:
        c['sched'] = pick(rng, [None, 'default', 'effective'], [2, 2, .7])
    if rng.random() < .3:
        c['pp'] = 'wrap'
    if name == 'RegCombinationCBO' and rng.random() < .5:
        c['pp'] = 'wrap'
    if rng.random() < .3:
        c['check_f_dims'] = False
    if rng.random() < .15:
        c['inst'] = True
    return c


def gen_term(rng, c, T):
    M = c['M']
    out = []
    if M > 1 and rng.random() < .7:
        at = [int(v) for v in rng.integers(0, T + 1, M)]
        if max(at) < 1:
            at[int(rng.integers(M))] = T
        out.append({'k': 'sched', 'at': at})
    if rng.random() < .12:
        out.append({'k': 'energy_tol', 'v': float(pick(rng, [.1, .5, 1e-7]))})
    if rng.random() < .12:
        out.append({'k': 'diff_tol', 'v': float(pick(rng, [.05, .3, 1e-7]))})
    if rng.random() < .12:
        out.append({'k': 'max_time', 'v': float(c['kw'].get('dt', .01) * rng.integers(1, T + 1) * .999)})
    out.append({'k': 'max_it', 'v': T, 'style': pick(rng, ['inst', 'dict'])})
    order = rng.permutation(len(out))
    return [out[i] for i in order]


CORRECTED = ('CBO', 'CBOMemory', 'PSO', 'PolarCBO', 'MirrorCBO', 'CBS')
USED_NOISE = ('CBO', 'CBS', 'CBOMemory', 'PSO', 'PolarCBO', 'MirrorCBO', 'AdamCBO', 'DriftConstrainedCBO', 'RegCombinationCBO')


def user_parts(rng, c, p=.12):
    """some of the functions are written by the caller"""
    k, name = c['kw'], c['dyn']
    if c.get('inst') or rng.random() >= p:
        return c
    if name in USED_NOISE and rng.random() < .6:
        k['noise'] = pick(rng, ['user', 'userdet', 'useralias'], [2, 1, 1])
    elif k.get('noise') == 'isotropic' and name in USED_NOISE:
        k['norm'] = 'user'
    if name in CORRECTED and rng.random() < .5:
        k['correction'] = 'user'
    b = k.get('batch_args') or {}
    part = b.get('partial', True) is not False and b.get('var') != 'concat'
    if name not in ('PolarCBO', 'HyperSurfaceCBO') and rng.random() < .3 and (name not in ('CBOMemory', 'PSO') or part):
        k['compute_consensus'] = 'user'
    if name == 'PolarCBO' and len(c['d']) == 1 and rng.random() < .5:
        k['kernel'] = 'user'
    if name == 'MirrorCBO' and c.get('x') and rng.random() < .4:
        k['mirrormap'] = {'name': 'user'}
        c['x'].update(kind='uniform', scale=.9)
    return c
