"""Central predictions, uncertainties, error budgets and dependencies returned by the user functions."""
import collections
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, expect_close, fail, Skip
import phys

RULE = ('toy: a toy observable depending linearly on up to 6 randomly chosen default parameters (normal, correlated, asymmetric, fixed), arguments and Wilson coefficients, '
        'with predictions, uncertainties, budgets and dependencies compared with exact values. api, deps: a real observable at a phase-space point. '
        'Non-trivial: at least one varying parameter; distinct by case.')
ASSUMPTIONS = ['uncertainties estimated from random numbers are compared within 7 standard deviations of the sampling error',
               'dilepton observables (R_13) are not evaluated: they need parton distributions that cannot be downloaded offline']
LEVEL_NOTE = 'Generated linear toy observables with exactly known uncertainties; metamorphic relations for the real observables.'

_P = {}


def pools():
    import flavio
    if not _P:
        po = flavio.default_parameters
        normal, corr, asym, fixed = [], [], [], []
        for d, p in po._constraints:
            p = [x for i, x in enumerate(p) if po._parameters.get(x, (None, None))[1] is d]
            t = type(d).__name__
            if t == 'NormalDistribution' and p:
                normal += p
            elif t == 'MultivariateNormalDistribution' and len(p) > 1:
                corr.append(p)
            elif p and (t == 'AsymmetricNormalDistribution' or t == 'LogNormalDistribution' and float(d.factor) < 1.5):
                asym += p
            elif t == 'DeltaDistribution' and p:
                fixed += p
        _P.update(normal=sorted(normal), corr=sorted(corr), asym=sorted(asym), fixed=sorted(fixed))
    return _P


@st.composite
def toy(draw):
    P = pools()
    pars = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(['normal', 'normal', 'corr', 'corr', 'asym', 'fixed']))
        if k == 'corr':
            g = draw(st.sampled_from(P['corr']))
            pars += draw(st.lists(st.sampled_from(g), unique=True, min_size=1, max_size=3))
        else:
            pars.append(draw(st.sampled_from(P[k])))
    pars = list(dict.fromkeys(pars))
    # coefficients in units of the inverse uncertainty
    return {'pars': pars, 'coef': [draw(st.integers(-30, 30)) / 10. for _ in pars], 'offset': draw(st.sampled_from([0.5, 3.0, -2.0, 40.0])),
            'arg': draw(st.sampled_from([None, 2.0, -1.5])), 'kw': draw(st.booleans()), 'c9': draw(st.sampled_from([0.0, 0.7, -1.2])),
            'via': draw(st.lists(st.sampled_from(['direct', 'copy', 'get', 'aux', 'modcopy']), min_size=6, max_size=6)), 'threads': draw(st.sampled_from([1, 1, 1, 2])),
            'seed': draw(st.integers(0, 10**6))}


def sigma(p):
    import flavio
    d = flavio.default_parameters._parameters[p]
    e = np.ravel((np.asarray(d[1].error_left) + np.asarray(d[1].error_right)) / 2)
    s = float(e[d[0]])
    return s if s > 0 else max(abs(float(np.ravel(d[1].central_value)[d[0]])), 1e-3)


def check_toy(c, ctx):
    import flavio
    from flavio.classes import Observable, Prediction, AuxiliaryQuantity, Implementation
    from flavio.functions import get_dependent_parameters_sm
    co = [a / sigma(p) for p, a in zip(c['pars'], c['coef'])]
    cen = flavio.default_parameters.get_central_all()
    c0 = sum(a * cen[p] for p, a in zip(c['pars'], co))
    AuxiliaryQuantity('verif aux')

    def aux(wc, par, n):
        return par[n]
    Implementation('verif impl', 'verif aux', aux)
    flavio.config['implementation']['verif aux'] = 'verif impl'

    def f(wc, par, x=1.0):
        v = c['offset'] - c0
        for i, (p, a) in enumerate(zip(c['pars'], co)):
            via = c['via'][i % 6]
            if via == 'direct':
                q = par[p]
            elif via == 'copy':
                q = par.copy()[p]
            elif via == 'get':
                q = par.get(p, 0)
            elif via == 'aux':
                q = AuxiliaryQuantity['verif aux'].prediction(par, wc, n=p)
            else:
                r = par.copy()
                r['verif tmp'] = 2.0
                r = r.copy()
                q = r[p] * r['verif tmp'] / 2
            v += a * q
        return x * v + (wc.wc.dict.get('C9_bsmumu', 0).real if wc is not None and wc.wc is not None else 0)
    try:
        Observable('verif toy', arguments=['x'] if c['arg'] is not None else None)
        Prediction('verif toy', f)
        x = 1.0 if c['arg'] is None else c['arg']
        args = () if c['arg'] is None or c['kw'] else (c['arg'],)
        kw = {'x': c['arg']} if c['arg'] is not None and c['kw'] else {}
        want = x * c['offset']
        mag = sum(abs(a * cen[p]) for p, a in zip(c['pars'], co)) + abs(want)
        eps = 1e-12 * mag
        expect(abs(flavio.sm_prediction('verif toy', *args, **kw) - want) <= eps, 'sm_prediction %r expected %r', flavio.sm_prediction('verif toy', *args, **kw), want)
        wc = flavio.WilsonCoefficients()
        if c['c9']:
            wc.set_initial({'C9_bsmumu': c['c9']}, 4.8)
        v = flavio.np_prediction('verif toy', *((wc,) + args if not kw else ()), **(dict(kw, wc_obj=wc) if kw else {}))
        expect(abs(v - want - c['c9']) <= eps + 1e-12, 'np_prediction %r expected %r', v, want + c['c9'])
        # exact covariance of the parameters
        groups = collections.OrderedDict()
        for p, a in zip(c['pars'], co):
            i, d = flavio.default_parameters._parameters[p]
            groups.setdefault(id(d), [d, []])[1].append((p, i, a))
        var = {}
        kurt = 3.0
        for k, (d, l) in groups.items():
            key = frozenset(p for p, i, a in l)
            t = type(d).__name__
            if t == 'MultivariateNormalDistribution':
                ii = [i for p, i, a in l]
                aa = np.array([a for p, i, a in l])
                var[key] = float(aa @ np.asarray(d.covariance)[np.ix_(ii, ii)] @ aa)
            elif t == 'NormalDistribution':
                var[key] = (l[0][2] * float(d.standard_deviation))**2
            elif t == 'DeltaDistribution':
                var[key] = 0.0
            elif t == 'AsymmetricNormalDistribution':
                r, s = float(d.right_deviation), float(d.left_deviation)
                var[key] = l[0][2]**2 * ((1 - 2 / math.pi) * (r - s)**2 + r * s)
            else:
                u = np.exp(np.random.RandomState(0).normal(0, math.log(float(d.factor)), 4000))
                var[key] = (l[0][2] * abs(float(d.central_value)))**2 * float(np.var(u))
                kurt = 12.0
        tot = math.sqrt(sum(var.values())) * abs(x)
        if tot == 0:
            ctx.trivial()
        N = 300
        rel = 7 * math.sqrt((kurt - 1) / 4. / N) + (.1 if kurt > 3 else 0)
        np.random.seed(c['seed'])
        for what, u in (('sm_uncertainty', lambda: flavio.sm_uncertainty('verif toy', *args, N=N, threads=c['threads'], **kw)),
                        ('np_uncertainty', lambda: flavio.np_uncertainty('verif toy', *((wc,) + args if not kw else ()), N=N, threads=c['threads'], **(dict(kw, wc_obj=wc) if kw else {})))):
            v = u()
            expect(abs(v - tot) <= rel * tot + 1e-9 * mag, '%s is %r expected %r', what, v, tot)
        ctx.label('threads%d' % c['threads'], *set(c['via'][:len(c['pars'])]))
        dep = get_dependent_parameters_sm('verif toy', *args, **kw)
        expect(set(dep) == set(c['pars']), 'dependent parameters %r expected %r', dep, c['pars'])
        N = 80
        rel = 7 * math.sqrt((kurt - 1) / 4. / N) + (.15 if kurt > 3 else 0)
        b = flavio.functions.sm_error_budget('verif toy', *args, N=N, **kw)
        got = {frozenset([k] if isinstance(k, str) else k): v for k, v in b.items()}
        expect(set(got) == set(var) and len(b) == len(var), 'contributions to the error budget from %r, expected %r', list(b), [sorted(k) for k in var])
        for k, v in got.items():
            w = math.sqrt(var[k]) * abs(x) / abs(want)
            expect(abs(v - w) <= rel * w + 1e-9 * mag / abs(want), 'relative error of %r is %r expected %r', sorted(k), v, w)
    finally:
        Observable.instances.pop('verif toy', None)
        AuxiliaryQuantity.instances.pop('verif aux', None)
        Implementation.instances.pop('verif impl', None)
        flavio.config['implementation'].pop('verif aux', None)


# --------------------------------------------------------------------------
def check_deps(c, ctx):
    import flavio
    from flavio.functions import get_dependent_parameters_sm, get_dependent_wcs
    n = c['obs']
    cen = phys.central()
    args = phys.args_for(n, cen, c['u'])
    o = phys.Observable[n]
    if o.arguments and c['u'][0] < .5:
        A, K = (), dict(zip(o.arguments, args))
    else:
        A, K = args, {}
    v0 = o.prediction_par(dict(cen), phys._sm(), *args)
    for what, v in (('sm_prediction', flavio.sm_prediction(n, *A, **K)), ('np_prediction without new physics', flavio.np_prediction(n, flavio.WilsonCoefficients(), *A, **K)),
                    ('prediction_central', o.prediction_central(flavio.default_parameters, phys._sm(), *A, **K))):
        expect_close(v, v0, what + ' of ' + n, 1e-11)
    dep = get_dependent_parameters_sm(n, *A, **K)
    expect(all(p in flavio.Parameter.instances for p in dep), '%s depends on unknown parameters %r', n, [p for p in dep if p not in flavio.Parameter.instances])
    # all other parameters have no influence
    par = dict(cen)
    rnd = phys._random_par(1 + int(c['u'][2] * 1000))
    for k in par:
        if k not in dep:
            r = float(rnd[k])
            par[k] = r if r != par[k] else par[k] * 1.1 + (par[k] == 0) * .1
    try:
        v = o.prediction_par(par, phys._sm(), *args)
    except Exception as e:
        fail('%s depends on a parameter missing from the list: with all others changed it fails: %s', n, e)
    expect_close(v, v0, 'prediction of %s with all parameters changed that it does not depend on' % n, 1e-10)
    # Wilson coefficients used
    wcs = get_dependent_wcs(n, *A, **K)
    w = phys.RandWilson(c['wc'], c['size'] * (.1 if n.startswith('lnC(') else 1))
    try:
        o.prediction_par(dict(cen), w, *args)
    except ValueError:
        if n.startswith('lnC('):
            raise Skip()
        raise
    norm = lambda s: {(round(float(a), 6), b, d, e if isinstance(e, str) else tuple(e)) for a, b, d, e in s}
    miss = norm(w.seen) - norm(wcs)
    expect(not miss, '%s uses Wilson coefficients at %r, missing from %r', n, sorted(miss), sorted(norm(wcs)))
    ctx.label('wcs%d' % min(len(wcs), 5))
    if not dep:
        ctx.trivial()


# --------------------------------------------------------------------------
def check_real(c, ctx):
    """error budget and uncertainty of a real observable with a few parameters"""
    import flavio
    n = c['obs']
    cen = phys.central()
    args = phys.args_for(n, cen, c['u'])
    dep = flavio.functions.get_dependent_parameters_sm(n, *args)
    o = phys.Observable[n]
    v0 = o.prediction_par(dict(cen), phys._sm(), *args)
    if not v0:
        raise Skip()
    np.random.seed(c['seed'])
    N = 60
    b = flavio.functions.sm_error_budget(n, *args, N=N)
    names = [p for k in b for p in ([k] if isinstance(k, str) else k)]
    expect(sorted(names) == sorted(dep), 'error budget of %s covers %r, expected %r', n, names, sorted(dep))
    for k, e in b.items():
        ks = [k] if isinstance(k, str) else list(k)
        expect(np.isfinite(e) and e >= 0, 'relative error %r due to %r', e, k)
        vals = []
        for i in range(N):
            r = phys._random_par(10**6 + i)
            p = dict(cen)
            p.update({q: float(r[q]) for q in ks})
            vals.append(o.prediction_par(p, phys._sm(), *args))
        w = float(np.std(vals)) / abs(v0)
        expect(abs(e - w) <= .75 * max(e, w) + 1e-10, 'relative error of %s due to %r is %r, expected about %r', n, k, e, w)
    ctx.label('budget%d' % len(b))


CHEAP = ['BR(Bs->mumu)', 'BR(B0->ee)', 'DeltaM_s', 'DeltaM_d', 'BR(B+->taunu)', 'BR(K+->munu)', 'BR(D+->munu)', 'BR(Ds->taunu)', 'S_psiK', 'tau_B->X' , 'Rmue(K+->lnu)',
         'BR(pi+->enu)', 'BR(KL->mumu)', 'BR(K+->pinunu)', 'BR(KL->pinunu)', 'a_mu', 'm_W', 'GammaZ', 'R_mu', 'A_b', 'BR(Bs->tautau)', 'eps_K', 'BR(B0->mumu)', 'tau_mumu(Bs->mumu)', 'eps_prime/eps',
         'phi_s', 'S_psiphi', 'BR(tau->rhonu)', 'BR(tau->munumunu)', 'lambda_AB', 'tau_n', 'Ft(10C)', 'a_n', 'BR(D+->taunu)']


@st.composite
def real_strategy(draw):
    return {'obs': draw(st.sampled_from([n for n in CHEAP if n in phys.Observable.instances])), 'u': [.3, .6, .5, .5], 'seed': draw(st.integers(0, 10**6))}


def build():
    pools()
    return [Sub('toy', toy(), check_toy, quick=80, thorough=3000, shards=8),
            Sweep('deps', phys.names(), lambda n: phys.point_strategy(n, sizes=(1.0,)), check_deps, quick=1, thorough=1, shards=24, subset=140),
            Sub('budget', real_strategy(), check_real, quick=16, thorough=400, shards=8)]
