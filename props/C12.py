"""Covariances of predictions and measurements and the fast (Gaussian) likelihood built from them."""
import copy
import json
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, expect_close, fail, Skip
import gen_dist as gd
import C11

RULE = ('A case is a set of toy observables depending linearly on normally distributed parameters and on Wilson coefficients, a set of (overlapping, '
        'possibly correlated) measurements, lists of varied parameters, orders and subsets of observables. Non-trivial: at least two observables or '
        'parameters; distinct by case.')
ASSUMPTIONS = ['covariances estimated from random numbers are compared within 7 standard deviations of the sampling error in the eigenbasis of the expected covariance']
LEVEL_NOTE = 'Generated linear models with exactly known covariance as oracle (exact for loaded covariances, statistical for sampled ones).'

KEYS = C11.KEYS
PARS = ['vpx', 'vpy', 'vpz', 'vpw']
num, pos = C11.num, C11.pos
COEF = {KEYS[0]: [1, .5, 0, 0], KEYS[1]: [0, 1, -1, 0], KEYS[2]: [.3, 0, 1, 0], KEYS[3]: [.3, 0, 2.5, .5], KEYS[4]: [-1, 0, 0, 1], KEYS[5]: [0, 2, .25, .5]}
WCC = {KEYS[0]: 1.0, KEYS[1]: 0, KEYS[2]: -2.0, KEYS[3]: .5, KEYS[4]: 1.0, KEYS[5]: 3.0}


def model(key, par, c9):
    return sum(a * par[p] for a, p in zip(COEF[key], PARS)) + WCC[key] * c9


def register():
    from flavio.classes import Observable, Prediction

    def c9(w):
        return 0 if w is None or w.wc is None else w.wc.dict.get('C9_bsmumu', 0).real
    for n, args, f in [('vobs a', None, lambda w, p: model('vobs a', p, c9(w))),
                       ('vobs b', None, lambda w, p: model('vobs b', p, c9(w))),
                       ('vobs c', ['q2'], lambda w, p, q2: model(('vobs c', q2), p, c9(w))),
                       ('vobs d', ['q2min', 'q2max'], lambda w, p, q2min, q2max: model(('vobs d', q2min, q2max), p, c9(w)))]:
        Observable(n, arguments=args)
        Prediction(n, f)


@st.composite
def corr(draw, n):
    """correlation matrix that is far from singular"""
    m = np.array(draw(gd.corr_matrix(n)))
    m = .7 * m + .3 * np.eye(n)
    return [[float(x) for x in r] for r in m]


@st.composite
def parspec(draw):
    return {'c': [draw(num) for _ in PARS], 's': [draw(pos) for _ in PARS], 'corr': draw(corr(3)), 'dist': draw(st.sampled_from(['normal', 'uniform']))}


def par_obj(s):
    import flavio
    from flavio.statistics.probability import MultivariateNormalDistribution, NormalDistribution, UniformDistribution
    po = flavio.ParameterConstraints()
    cov = np.outer(s['s'][:3], s['s'][:3]) * np.array(s['corr'])
    po.add_constraint(PARS[:3], MultivariateNormalDistribution(s['c'][:3], cov))
    w = NormalDistribution(s['c'][3], s['s'][3]) if s['dist'] == 'normal' else UniformDistribution(s['c'][3], s['s'][3] * math.sqrt(3))
    po.add_constraint(PARS[3:], w)
    full = np.zeros((4, 4))
    full[:3, :3] = cov
    full[3, 3] = s['s'][3]**2
    return po, full


def th_cov(keys, full, vary):
    v = [1 if vary == 'all' or p in vary else 0 for p in PARS]
    A = np.array([COEF[k] for k in keys], float) * np.array(v)
    return A @ full @ A.T


def expect_sampled_cov(got, want, N, what):
    want = np.atleast_2d(want)
    got = np.asarray(got, float)
    if want.shape == (1, 1):
        expect(got.size == 1, '%s: shape %r', what, got.shape)
        got = got.reshape(1, 1)
    expect(got.shape == want.shape, '%s: shape %r expected %r', what, got.shape, want.shape)
    expect(np.allclose(got, got.T, rtol=1e-9, atol=1e-12 * np.abs(want).max()), '%s is not symmetric: %r', what, got.tolist())
    ev, U = np.linalg.eigh(want)
    top = max(ev[-1], 1e-300)
    g = U.T @ got @ U
    for i in range(len(ev)):
        for j in range(len(ev)):
            a, b = max(ev[i], 1e-9 * top), max(ev[j], 1e-9 * top)
            w = ev[i] if i == j else 0
            tol = 7 * math.sqrt((1 + (i == j)) * 1.5 / N) * math.sqrt(a * b) + 1e-9 * top + 1e-20
            expect(abs(g[i, j] - w) <= tol, '%s: %r, expected %r within the sampling error', what, got.tolist(), want.tolist())


# --------------------------------------------------------------------------
@st.composite
def case_sm(draw):
    return {'par': draw(parspec()), 'obs': draw(st.lists(st.integers(0, 5), unique=True, min_size=1, max_size=4)),
            'vary': draw(st.sampled_from(['all', 'none', 'list', 'list', 'list'])), 'list': draw(st.lists(st.sampled_from(PARS), unique=True, max_size=4)),
            'form': draw(st.sampled_from(['tuple', 'dict', 'list'])), 'threads': draw(st.sampled_from([1, 1, 1, 2])), 'cls': draw(st.booleans()),
            'order': draw(st.integers(0, 10**4)), 'seed': draw(st.integers(0, 10**6))}


def check_sm(c, ctx):
    import flavio
    from flavio.statistics.likelihood import SMCovariance
    po, full = par_obj(c['par'])
    keys = [KEYS[i] for i in c['obs']]
    vary = {'all': 'all', 'none': [], 'list': c['list']}[c['vary']]
    want = th_cov(keys, full, vary)
    if len(keys) == 1:
        ctx.trivial()
    ctx.label(c['vary'], 'threads%d' % c['threads'])
    N = 400
    np.random.seed(c['seed'])
    if not c['cls']:
        obs = [C11.form_of(k, c['form']) for k in keys]
        got = flavio.sm_covariance(obs, N=N, par_vary=vary, par_obj=po, threads=c['threads'])
        expect_sampled_cov(got, want, N, 'covariance of %r varying %r' % (keys, vary))
        return
    d = tempfile.mkdtemp(prefix='verif')
    try:
        sc = SMCovariance(list(keys), vary_parameters=vary, par_obj=po)
        try:
            sc.save(os.path.join(d, 'x'))
        except ValueError:
            pass
        else:
            fail('saved a covariance that was not computed')
        got = sc.get(N=N, threads=c['threads'], **({} if c['order'] % 2 else {'force': False}))
        expect_sampled_cov(got, want, N, 'covariance of %r varying %r' % (keys, vary))
        first = np.array(got)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter('always')
            again = sc.get(N=17, force=False)
        expect(np.array_equal(first, again), 'cached covariance differs')
        expect(any('ignored' in str(w.message) for w in wl), 'no warning about the ignored number of computations')
        f = os.path.join(d, 'cov' + ('.p' if c['order'] % 3 else ''))
        sc.save(f)
        # load into another instance, other order or subset
        perm = sorted(range(len(keys)), key=lambda i: (c['order'] * (i + 7) * 7919) % 101)
        if c['order'] % 4 == 0:
            perm = perm[:max(1, len(perm) - 1)]
        new = SMCovariance([keys[i] for i in perm], vary_parameters=vary, par_obj=po)
        new.load(f)
        r = np.asarray(new.get(force=False))
        w = first.reshape(len(keys), len(keys))[np.ix_(perm, perm)]
        expect(r.size == w.size and np.array_equal(r.reshape(w.shape), w), 'loaded covariance %r expected %r', r.tolist(), w.tolist())
        other = [k for k in KEYS if k not in keys]
        if other:
            bad = SMCovariance([keys[0], other[0]])
            try:
                bad.load(f)
            except ValueError:
                pass
            else:
                fail('loaded a covariance without the observable %r', other[0])
        second = np.array(sc.get(N=50))     # recomputed by default
        expect(np.all(want == 0) or not np.array_equal(second, first), 'covariance was not recomputed')
    finally:
        shutil.rmtree(d)


# --------------------------------------------------------------------------
@st.composite
def constraint(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    ks = list(draw(st.permutations(range(6))))[:n]
    return {'k': ks, 'c': [draw(num) for _ in ks], 's': [draw(pos) for _ in ks], 'corr': draw(corr(n)) if n > 1 else None,
            'dist': draw(st.sampled_from(['normal', 'normal', 'uniform']))}


@st.composite
def case_exp(draw):
    # each measurement is one constraint plus an optional second on other observables
    return {'meas': draw(st.lists(st.lists(constraint(), min_size=1, max_size=2), min_size=1, max_size=4)),
            'obs': list(draw(st.permutations(range(6)))), 'nobs': draw(st.sampled_from([1, 2, 2, 3, 3, 4])), 'order': draw(st.integers(0, 10**4)),
            'seed': draw(st.integers(0, 10**6))}


def dist_of(con):
    from flavio.statistics.probability import MultivariateNormalDistribution, NormalDistribution, UniformDistribution
    if len(con['k']) == 1:
        return NormalDistribution(con['c'][0], con['s'][0]) if con['dist'] == 'normal' else UniformDistribution(con['c'][0], con['s'][0] * math.sqrt(3))
    return MultivariateNormalDistribution(con['c'], np.outer(con['s'], con['s']) * np.array(con['corr']))


def exact_combination(c, keys):
    """Gaussian average (mean, covariance) of all measurements, the list of pulls"""
    n = len(keys)
    W = np.zeros((n, n))
    b = np.zeros(n)
    parts = []
    for m in c['meas']:
        seen = {}
        for j, con in enumerate(m):
            for i, k in enumerate(con['k']):
                seen[KEYS[k]] = (j, i)
        own = [k for k in keys if k in seen]
        if not own:
            continue
        mean = np.array([m[seen[k][0]]['c'][seen[k][1]] for k in own])
        cov = np.zeros((len(own), len(own)))
        for a, k in enumerate(own):
            for d, l in enumerate(own):
                (j, i), (jj, ii) = seen[k], seen[l]
                if j == jj:
                    con = m[j]
                    cov[a, d] = con['s'][i] * con['s'][ii] * (1 if i == ii else con['corr'][i][ii])
        idx = [keys.index(k) for k in own]
        w = np.linalg.inv(cov)
        W[np.ix_(idx, idx)] += w
        b[idx] += w @ mean
        parts.append((idx, mean, cov))
    C = np.linalg.inv(W)
    x = C @ b
    pull = max(float(np.sqrt(max(0, (m - x[idx]) @ np.linalg.solve(cv, m - x[idx])))) for idx, m, cv in parts)
    return x, C, pull


def with_measurements(f):
    def g(c, ctx):
        import flavio
        saved = flavio.Measurement.instances
        flavio.Measurement.instances = type(saved)()
        try:
            for i, m in enumerate(c['meas']):
                M = flavio.Measurement('verif measurement %d' % i)
                for con in m:
                    M.add_constraint([KEYS[k] for k in con['k']], dist_of(con))
            measured = {KEYS[k] for m in c['meas'] for con in m for k in con['k']}
            keys = [KEYS[i] for i in c['obs'] if KEYS[i] in measured][:c['nobs']]
            if not keys:
                raise Skip()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(c, ctx, keys)
        finally:
            flavio.Measurement.instances = saved
    return g


def expect_exp(got, x, C, pull, N, what):
    mean, cov = got
    expect(np.size(mean) == len(x) and np.size(cov) == C.size, '%s: shapes %r, %r', what, np.shape(mean), np.shape(cov))
    mean, cov = np.asarray(mean, float).reshape(len(x)), np.asarray(cov, float).reshape(C.shape)
    L = np.linalg.inv(np.linalg.cholesky(C))
    dm = L @ (mean - x)
    dc = L @ cov @ L.T - np.eye(len(x))
    e = 8 * math.sqrt(2. / N) * len(x)
    expect(np.all(np.abs(dc) <= e), '%s: covariance %r expected %r', what, cov.tolist(), C.tolist())
    expect(np.all(np.abs(dm) <= e * (1 + pull)), '%s: central values %r expected %r', what, mean.tolist(), x.tolist())


@with_measurements
def check_exp(c, ctx, keys):
    from flavio.statistics.likelihood import MeasurementCovariance, MeasurementLikelihood
    if len(keys) == 1:
        ctx.trivial()
    ctx.label('obs%d' % len(keys), 'meas%d' % len(c['meas']))
    x, C, pull = exact_combination(c, keys)
    np.random.seed(c['seed'])
    N = 10000
    ml = MeasurementLikelihood(list(keys))
    mc = MeasurementCovariance(ml)
    d = tempfile.mkdtemp(prefix='verif')
    try:
        try:
            mc.save(os.path.join(d, 'x'))
        except ValueError:
            pass
        else:
            fail('saved a covariance that was not computed')
        first = mc.get(N=N, force=bool(c['order'] % 2))
        expect_exp(first, x, C, pull, N, 'combination of the measurements of %r' % (keys,))
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter('always')
            again = mc.get(N=17, force=False)
        expect(np.array_equal(first[0], again[0]) and np.array_equal(first[1], again[1]), 'cached covariance differs')
        expect(any('ignored' in str(w.message) for w in wl), 'no warning about the ignored number of computations')
        f = os.path.join(d, 'cov.p')
        mc.save(f)
        perm = sorted(range(len(keys)), key=lambda i: (c['order'] * (i + 7) * 7919) % 101)
        if c['order'] % 4 == 0:
            perm = perm[:max(1, len(perm) - 1)]
        new = MeasurementCovariance(MeasurementLikelihood([keys[i] for i in perm]))
        new.load(f)
        a, b = new.get(force=False)
        wa = np.asarray(first[0], float).reshape(len(keys))[perm]
        wb = np.asarray(first[1], float).reshape(len(keys), len(keys))[np.ix_(perm, perm)]
        expect(np.size(a) == len(perm) and np.array_equal(np.asarray(a).reshape(-1), wa), 'loaded central values %r expected %r', np.asarray(a).tolist(), wa.tolist())
        expect(np.size(b) == wb.size and np.array_equal(np.asarray(b).reshape(wb.shape), wb), 'loaded covariance %r expected %r', np.asarray(b).tolist(), wb.tolist())
        measured = {KEYS[k] for m in c['meas'] for con in m for k in con['k']}
        other = [k for k in measured if k not in keys]
        if other:
            try:
                MeasurementCovariance(MeasurementLikelihood([keys[0], other[0]])).load(f)
            except ValueError:
                pass
            else:
                fail('loaded a covariance without the observable %r', other[0])
    finally:
        shutil.rmtree(d)


# --------------------------------------------------------------------------
@st.composite
def case_fast(draw):
    d = draw(case_exp())
    d.update({'par': draw(parspec()), 'nuis': draw(st.lists(st.sampled_from(PARS), unique=True, max_size=4)), 'load': draw(st.sampled_from(['both', 'both', 'sm', 'none'])),
              'perm': list(draw(st.permutations(range(6)))), 'asub': draw(st.booleans()), 'pts': draw(st.lists(st.lists(num, min_size=5, max_size=5), min_size=1, max_size=4)),
              'excl': draw(st.lists(st.integers(0, 5), max_size=2, unique=True)), 'sel': draw(st.sampled_from(['all', 'all', 'include'])),
              'fitpars': draw(st.lists(st.sampled_from(PARS), unique=True, max_size=2)), 'remake': draw(st.booleans()), 'name': draw(st.sampled_from(['verif fast', 'verif  fast 2']))})
    return d


@with_measurements
def check_fast(c, ctx, keys):
    import flavio
    from flavio.statistics.likelihood import FastLikelihood, MeasurementLikelihood
    ctx.label('load ' + c['load'], 'obs%d' % len(keys))
    if len(keys) == 1:
        ctx.trivial()
    po, full = par_obj(c['par'])
    kw = {}
    cc = c
    if c['sel'] == 'include':
        # only measurements that cover the observables together
        kw = {'include_measurements': ['verif measurement 0']}
        cc = dict(c, meas=c['meas'][:1])
        m = {KEYS[k] for con in c['meas'][0] for k in con['k']}
        keys = [k for k in keys if k in m]
        if not keys:
            raise Skip()
    fl = FastLikelihood(c['name'], par_obj=po, fit_parameters=list(c['fitpars']), nuisance_parameters=list(c['nuis']), observables=list(keys), **kw)
    try:
        try:
            fl.log_likelihood({}, None)
        except ValueError:
            pass
        else:
            fail('likelihood evaluated before the pseudo-measurement was made')
        expect(FastLikelihood[c['name']] is fl, 'not registered')
        x, C, pull = exact_combination(cc, keys)
        T = th_cov(keys, full, c['nuis'])
        N, Nexp = 100, 10000
        np.random.seed(c['seed'])
        # covariances of more observables in a different order
        big = [KEYS[i] for i in c['perm']]
        big = [k for k in big if k in keys or c['asub']]
        if c['load'] in ('both', 'sm'):
            S = th_cov(big, full, c['nuis'])
            fl.sm_covariance.load_dict({'observables': list(big), 'covariance': S if len(big) > 1 else np.array(S[0, 0])})
        if c['load'] == 'both':
            xb = np.array([x[keys.index(k)] if k in keys else 77. for k in big])
            Cb = np.full((len(big), len(big)), .123) + 5 * np.eye(len(big))
            for i, k in enumerate(big):
                for j, l in enumerate(big):
                    if k in keys and l in keys:
                        Cb[i, j] = C[keys.index(k), keys.index(l)]
            fl.exp_covariance.load_dict({'observables': list(big), 'central': xb if len(big) > 1 else xb[0], 'covariance': Cb if len(big) > 1 else np.array(Cb[0, 0])})
        if c['load'] == 'none':
            N = 400
        fl.make_measurement(N=N, Nexp=Nexp if c['load'] != 'both' else 5000)
        if c['remake']:
            fl.make_measurement(N=N, Nexp=Nexp if c['load'] != 'both' else 5000)
        pm = fl.pseudo_measurement
        expect(pm.name.split(' ')[0] == 'Pseudo-measurement' and flavio.Measurement[pm.name] is pm, 'pseudo-measurement %r', pm.name)
        expect(sorted(map(str, pm.all_parameters)) == sorted(map(str, keys)), 'pseudo-measurement of %r', pm.all_parameters)
        expect(pm.name not in MeasurementLikelihood(list(keys)).get_measurements, 'the pseudo-measurement is taken for an experiment')
        V = C + T
        cen = pm.get_central_all()
        gotx = np.array([float(np.ravel(cen[k])[0]) for k in keys])
        d = pm._constraints[0][0]
        gotV = np.atleast_2d(d.covariance) if len(keys) > 1 else np.array([[float(np.ravel(d.standard_deviation)[0])**2]])
        if c['load'] == 'both':
            expect_close(gotx, x, 'central values', 1e-9, 1e-12)
            expect(np.allclose(gotV, V, rtol=1e-7, atol=1e-9 * np.abs(V).max()), 'covariance %r expected %r', gotV.tolist(), V.tolist())
        else:
            expect_exp((gotx, gotV), x, V, pull, N if c['load'] == 'none' else Nexp, 'pseudo-measurement')
        excl = [KEYS[i] for i in c['excl']]
        use = [i for i, k in enumerate(keys) if k not in excl]
        for pt in c['pts']:
            par = dict(zip(PARS, pt))
            c9 = pt[4]
            wc = flavio.WilsonCoefficients()
            if c9:
                wc.set_initial({'C9_bsmumu': c9}, 4.8)
            p = np.array([model(k, par, c9) for k in keys])
            for delta in (False, True):
                for ex in (False, True):
                    ii = use if ex else list(range(len(keys)))
                    ref = gd.ref_mvn_logpdf(p[ii], gotx[ii], gotV[np.ix_(ii, ii)]) if ii else 0.0
                    if delta and ii:
                        ref -= gd.ref_mvn_logpdf(gotx[ii], gotx[ii], gotV[np.ix_(ii, ii)])
                    kws = dict(({'delta': True} if delta else {}), **({'exclude_observables': excl} if ex else {}))
                    v = float(np.ravel(fl.log_likelihood(par, wc, **kws))[0])
                    expect(abs(v - ref) <= 1e-6 * (1 + abs(ref)), 'log-likelihood %r expected %r (delta=%r, excluding %r)', v, ref, delta, excl if ex else [])
                if not delta:
                    v = float(np.ravel(fl.likelihood.log_likelihood_exp(par, wc))[0])
                    w = float(np.ravel(fl.log_likelihood(par, wc))[0])
                    expect(v == w, 'likelihood of the pseudo-measurement %r differs from %r', v, w)
        if c['load'] == 'none':
            fl.make_measurement(N=N, Nexp=Nexp, force=True, force_exp=True)
            cen2 = fl.pseudo_measurement.get_central_all()
            g2 = np.array([float(np.ravel(cen2[k])[0]) for k in keys])
            expect(not np.array_equal(g2, gotx), 'central values were not recomputed')
    finally:
        FastLikelihood.instances.pop(c['name'], None)


def build():
    return [Sub('sm_covariance', case_sm(), check_sm, quick=160, thorough=3000, shards=8, setup=register),
            Sub('exp_covariance', case_exp(), check_exp, quick=240, thorough=6000, shards=8, setup=register),
            Sub('fast', case_fast(), check_fast, quick=400, thorough=8000, shards=8, setup=register)]
