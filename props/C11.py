"""Likelihoods are the product of the selected measurements and parameter constraints at the current point."""
import copy
import json
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd
import C09

RULE = ('A case is a set of toy observables (with and without arguments) whose predictions depend on parameters and Wilson coefficients, up to five '
        'measurements (univariate, multivariate, overlapping, pseudo-measurements), a choice of fit observables and of included or excluded '
        'measurements, and a history of evaluations at changing parameter points and Wilson coefficients, interleaved with added, removed and '
        'changed measurements. Non-trivial: at least one measurement contributes; distinct by case.')
ASSUMPTIONS = ['the distributions and constraint containers themselves are checked in C01 to C09',
               'toy observables stand for the real ones, whose predictions are checked elsewhere']
LEVEL_NOTE = 'Model-based generation of likelihoods and evaluation histories against an independent sum over measurements.'

KEYS = ['vobs a', 'vobs b', ('vobs c', 1.0), ('vobs c', 2.5), ('vobs d', 1.0, 6.0), ('vobs d', 6.0, 1.5)]
PARS = ['vpx', 'vpy', 'vpz']
num = st.integers(-300, 300).map(lambda k: k / 100.)
pos = st.integers(20, 300).map(lambda k: k / 100.)


def predict(key, par, wc):
    """model predictions"""
    x, y, z = (par[p] for p in PARS)
    c = wc or {}
    a = c.get('C9_bsmumu', 0)
    b = c.get('CVL_bcenue', 0)
    if key == 'vobs a':
        return x + 0.5 * y * y + a
    if key == 'vobs b':
        return y - x * z + 2 * b
    if key[0] == 'vobs c':
        return z * key[1] + x + a * b
    return y + key[1] - z * key[2] / 4. + a


def dic(wc_obj):
    if wc_obj is None or wc_obj.wc is None:
        return {}
    return {k: v.real for k, v in wc_obj.wc.dict.items()}


def register():
    import flavio
    from flavio.classes import Observable, Prediction
    for n, args, f in [('vobs a', None, lambda w, p: predict('vobs a', p, dic(w))),
                       ('vobs b', None, lambda w, p: predict('vobs b', p, dic(w))),
                       ('vobs c', ['q2'], lambda w, p, q2: predict(('vobs c', q2), p, dic(w))),
                       ('vobs d', ['q2min', 'q2max'], lambda w, p, q2min, q2max: predict(('vobs d', q2min, q2max), p, dic(w)))]:
        o = Observable(n, arguments=args)
        Prediction(n, f)
    for n in PARS:
        flavio.Parameter(n)


@st.composite
def dist1(draw):
    k = draw(st.sampled_from(['normal', 'normal', 'asymmetric_normal', 'uniform', 'half_normal', 'gaussian_upper_limit', 'log_normal']))
    c, s = draw(num), draw(pos)
    a = {'normal': dict(central_value=c, standard_deviation=s),
         'asymmetric_normal': dict(central_value=c, right_deviation=s, left_deviation=draw(pos)),
         'uniform': dict(central_value=c, half_range=2 * s + 3),
         'half_normal': dict(central_value=c, standard_deviation=(s if draw(st.booleans()) else -s)),
         'gaussian_upper_limit': dict(limit=s, confidence_level=draw(st.sampled_from([.9, .95]))),
         'log_normal': dict(central_value=abs(c) + .1, factor=1 + s)}[k]
    return {'dist': k, 'args': a}


@st.composite
def mvn(draw, n):
    m = gd.corr_matrix(n)
    return {'c': [draw(num) for _ in range(n)], 's': [draw(pos) for _ in range(n)], 'corr': [[float(x) for x in r] for r in draw(m)]}


@st.composite
def constraint(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    ks = list(draw(st.permutations(range(len(KEYS)))))[:n]
    if n == 1:
        return {'k': ks, 'd': draw(dist1())}
    return {'k': ks, 'mvn': draw(mvn(n))}


def mk(con):
    from flavio.statistics.probability import MultivariateNormalDistribution
    if 'd' in con:
        return gd.make(con['d'])
    m = con['mvn']
    return MultivariateNormalDistribution(m['c'], np.outer(m['s'], m['s']) * np.array(m['corr']))


@st.composite
def meas(draw):
    return {'pseudo': draw(st.sampled_from([False, False, False, True])), 'con': draw(st.lists(constraint(), min_size=1, max_size=3))}


WC = [None, {}, {'C9_bsmumu': .5}, {'C9_bsmumu': -1.0}, {'C9_bsmumu': -2.0, 'CVL_bcenue': .25}, {'CVL_bcenue': -2.0}]
special = st.sampled_from([-1.0, -2.0, 0.0, 1.0, 2.0, 0.5])


@st.composite
def op(draw):
    k = draw(st.sampled_from(['point', 'point', 'point', 'mutate', 'mutate', 'wc', 'wc', 'wcset', 'wcset', 'wcopt', 'same', 'add', 'del', 'reset', 'yaml', 'excl']))
    if k == 'point':
        return [k, [draw(st.one_of(num, special)) for _ in PARS]]
    if k == 'mutate':
        return [k, draw(st.integers(0, 2)), draw(st.one_of(num, special))]
    if k in ('wc', 'wcset'):
        return [k, draw(st.integers(0, len(WC) - 1))]
    if k == 'add':
        return [k, draw(meas())]
    if k == 'reset':
        return [k, draw(st.integers(0, 4)), draw(constraint())]
    if k == 'del':
        return [k, draw(st.integers(0, 4))]
    if k == 'excl':
        return [k, draw(st.lists(st.integers(0, len(KEYS) - 1), unique=True, max_size=4))]
    return [k]


@st.composite
def case(draw):
    return {'meas': draw(st.lists(meas(), min_size=1, max_size=4)),
            'obs': draw(st.lists(st.integers(0, len(KEYS) - 1), unique=True, min_size=1, max_size=6)),
            'sel': draw(st.sampled_from(['all', 'all', 'exclude', 'include'])), 'which': draw(st.lists(st.integers(0, 3), unique=True, min_size=1, max_size=3)),
            'pseudo': draw(st.booleans()), 'pars': [draw(dist1()) for _ in PARS], 'corr': draw(st.booleans()), 'mvn': draw(mvn(2)),
            'fit': draw(st.lists(st.sampled_from(PARS), unique=True, max_size=3)),
            'full': draw(st.sampled_from([True, True, False])), 'start': [draw(num) for _ in PARS],
            'ops': draw(st.lists(op(), min_size=1, max_size=10))}


def mname(i, m):
    return ('Pseudo-measurement ' if m['pseudo'] else '') + 'verif measurement %d' % i


def ref_terms(con, vals, keep):
    """log density (and at the central value) of the components `keep` of a constraint"""
    if 'd' in con:
        d = mk(con)
        f = lambda v: float(np.ravel(d.logpdf(v))[0])
        return f(vals[0]), f(float(d.central_value))
    m = con['mvn']
    cov = np.outer(m['s'], m['s']) * np.array(m['corr'])
    c = np.array(m['c'])[keep]
    cov = cov[np.ix_(keep, keep)]
    return gd.ref_mvn_logpdf(np.array(vals), c, cov), gd.ref_mvn_logpdf(c, c, cov)


class World:
    def __init__(self):
        self.meas = {}     # name -> list of constraints (model), insertion order
        self.cons = {}

    def add(self, i, m):
        import flavio
        n = mname(i, m)
        M = flavio.Measurement(n)
        mod = C09.Model()
        for con in m['con']:
            M.add_constraint([KEYS[k] for k in con['k']], mk(con))
            mod.add([KEYS[k] for k in con['k']], con)
        self.meas[n] = mod
        return n

    def selected(self, obs, sel, which, pseudo):
        out = []
        for n, mod in self.meas.items():
            if n.startswith('Pseudo-measurement') and not pseudo:
                continue
            if not set(mod.owner) & set(obs):
                continue
            if sel == 'exclude' and n in which:
                continue
            if sel == 'include' and n not in which:
                continue
            out.append(n)
        return out

    def ll(self, names, preds, obs, excl):
        tot = [0.0, 0.0]
        cnt = 0
        mag = 1.0
        for n in names:
            cnt += len([k for k in self.meas[n].owner if k in obs and k not in excl])
            for con, keys, own in self.meas[n].active():
                use = [(k, i) for k, i in own if k in obs and k not in excl]
                if not use:
                    continue
                a, b = ref_terms(con, [preds[k] for k, i in use], [i for k, i in use])
                tot[0] += a
                tot[1] += a - b
                mag += abs(a) + abs(b)
        return tot, cnt, mag


def same(a, b, mag):
    return a == b or abs(a - b) <= 1e-7 * mag


def prior(par_obj_spec, fit, par):
    """list of (log density, at centre)"""
    tot = [0.0, 0.0]
    mag = 1.0
    pars, corr, m = par_obj_spec
    items = []
    if corr:
        items.append(({'mvn': m}, PARS[:2]))
    else:
        items += [({'d': pars[0]}, [PARS[0]]), ({'d': pars[1]}, [PARS[1]])]
    items.append(({'d': pars[2]}, [PARS[2]]))
    for con, names in items:
        keep = [i for i, n in enumerate(names) if n in fit]
        if not keep:
            continue
        a, b = ref_terms(con, [par[names[i]] for i in keep], keep)
        tot[0] += a
        tot[1] += a - b
        mag += abs(a) + abs(b)
    return tot, mag


def warned(world, names, obs):
    """pairs (ignored observable, fit observable) constrained together more than once"""
    from collections import Counter
    c = Counter()
    for n in names:
        for con, keys, own in world.meas[n].active():
            for k, i in own:
                if k in obs:
                    for p in keys:
                        if p not in obs:
                            c[(p, k)] += 1
    return {k for k, v in c.items() if v > 1}


def check(c, ctx):
    import flavio
    from flavio.statistics.likelihood import Likelihood, MeasurementLikelihood
    from flavio.statistics.probability import MultivariateNormalDistribution
    saved = flavio.Measurement.instances
    flavio.Measurement.instances = type(saved)()
    try:
        W = World()
        names = [W.add(i, m) for i, m in enumerate(c['meas'])]
        obs = [KEYS[i] for i in c['obs']]
        which = [names[i] for i in c['which'] if i < len(names)]
        kw = {'exclude_measurements': which} if c['sel'] == 'exclude' else {'include_measurements': which} if c['sel'] == 'include' else {}
        if c['sel'] != 'all' and not which:
            raise Skip()
        po = flavio.ParameterConstraints()
        if c['corr']:
            m = c['mvn']
            po.add_constraint(PARS[:2], MultivariateNormalDistribution(m['c'], np.outer(m['s'], m['s']) * np.array(m['corr'])))
        else:
            po.add_constraint(PARS[:1], gd.make(c['pars'][0]))
            po.add_constraint(PARS[1:2], gd.make(c['pars'][1]))
        po.add_constraint(PARS[2:], gd.make(c['pars'][2]))
        measured = set()
        for n in W.selected(obs, c['sel'], which, c['pseudo']):
            measured |= set(W.meas[n].owner)
        def make():
            if c['full']:
                return Likelihood(par_obj=po, fit_parameters=list(c['fit']), observables=list(obs), include_pseudo_measurements=c['pseudo'], **kw)
            return MeasurementLikelihood(list(obs), include_pseudo_measurements=c['pseudo'], **kw)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter('always')
            try:
                L = make()
            except AssertionError as e:
                expect(not set(obs) <= measured, 'likelihood rejected although every observable is measured: %s', e)
                ctx.label('unmeasured')
                obs = [o for o in obs if o in measured]
                if not obs:
                    ctx.trivial()
                    return
                wl.clear()
                L = make()
            else:
                expect(set(obs) <= measured, 'likelihood accepted although %r are not measured', set(obs) - measured)
        want = warned(W, W.selected(obs, c['sel'], which, c['pseudo']), obs)
        nwarn = len([w for w in wl if 'inconsistent' in str(w.message)])
        expect((nwarn > 0) == bool(want), '%d warnings about correlated measurements, expected for %r', nwarn, want)
        ML = L.measurement_likelihood if c['full'] else L
        par = dict(zip(PARS, c['start']))
        wc = None
        excl = []
        held = []

        def build_wc(i):
            if WC[i] is None:
                return None
            w = flavio.WilsonCoefficients()
            if WC[i]:
                w.set_initial(WC[i], 4.8)
            return w
        cur = {}
        for o in [['start']] + c['ops']:
            k = o[0]
            ctx.label(k)
            if k == 'point':
                par = dict(zip(PARS, o[1]))
            elif k == 'mutate':
                par[PARS[o[1]]] = o[2]
            elif k == 'wc':
                wc = build_wc(o[1])
                cur = WC[o[1]] or {}
            elif k == 'wcset' and wc is not None and WC[o[1]]:
                wc.set_initial(WC[o[1]], 4.8)     # in place
                cur = WC[o[1]]
            elif k == 'wcopt' and wc is not None:
                wc.set_option('mb_matchingscale', 4.0) if wc.wc is not None else None
            elif k == 'add':
                W.add(len(W.meas) + 10, o[1])
            elif k == 'del':
                n = list(W.meas)[o[1] % len(W.meas)]
                if len(W.meas) > 1:
                    flavio.Measurement.del_instance(n)
                    del W.meas[n]
            elif k == 'reset':
                n = list(W.meas)[o[1] % len(W.meas)]
                ks = [KEYS[i] for i in o[2]['k']]
                flavio.Measurement[n].add_constraint(ks, mk(o[2]))
                W.meas[n].add(ks, o[2])
            elif k == 'excl':
                excl = [KEYS[i] for i in o[1]]
            elif k == 'yaml' and c['full'] and not c['pseudo']:
                if not set(obs) <= set().union(*[set(W.meas[n].owner) for n in W.selected(obs, c['sel'], which, c['pseudo'])] or [set()]):
                    continue
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    txt = L.dump()
                    L = Likelihood.load(txt)
                ML = L.measurement_likelihood
                expect(list(L.observables) == list(obs), 'observables after YAML: %r expected %r', L.observables, obs)
                expect(list(L.fit_parameters) == list(c['fit']), 'fit parameters after YAML: %r', L.fit_parameters)
            sel = W.selected(obs, c['sel'], which, c['pseudo'])
            got = list(ML.get_measurements)
            expect(sorted(got) == sorted(sel) and len(set(got)) == len(got), 'measurements used: %r expected %r', got, sel)
            preds = {kk: predict(kk, par, cur) for kk in obs}
            gp = ML.get_predictions_par(par, wc)
            expect(set(gp) == set(obs), 'predictions for %r', list(gp))
            for kk in obs:
                expect(same(float(gp[kk]), preds[kk], 1 + abs(preds[kk])), 'prediction of %r is %r expected %r at %r, %r', kk, gp[kk], preds[kk], par, cur)
            (t, td), cnt, mag = W.ll(sel, preds, obs, excl)
            n = ML.get_number_observations(**({'exclude_observables': excl} if excl else {}))
            expect(n == cnt, 'number of observations %r expected %r', n, cnt)
            if not sel:
                ctx.trivial()
            exk = {'exclude_observables': excl} if excl else {}
            for delta, ref in ((False, t), (True, td)):
                dk = {'delta': True} if delta else {}
                v = float(np.ravel(ML.log_likelihood_pred(dict(preds, **{'unrelated': 5.}) if not isinstance(preds, list) else preds, **exk, **dk))[0])
                expect(same(v, ref, mag) or (math.isnan(v) and math.isnan(ref)), 'log-likelihood of the predictions %r expected %r (delta=%r, excluding %r)', v, ref, delta, excl)
                v = float(np.ravel(ML.log_likelihood_par(par, wc, **exk, **dk))[0])
                expect(same(v, ref, mag) or (math.isnan(v) and math.isnan(ref)), 'log-likelihood at %r, %r is %r expected %r (delta=%r, excluding %r)', par, cur, v, ref, delta, excl)
                if c['full']:
                    (p0, pdl), pmag = prior((c['pars'], c['corr'], c['mvn']), c['fit'], par)
                    pref = pdl if delta else p0
                    v = float(np.ravel(L.log_prior_fit_parameters(par, **dk))[0])
                    expect(same(v, pref, pmag), 'prior of the parameters %r is %r expected %r', c['fit'], v, pref)
                    v = float(np.ravel(L.log_likelihood_exp(par, wc, **exk, **dk))[0])
                    expect(same(v, ref, mag) or (math.isnan(v) and math.isnan(ref)), 'experimental log-likelihood %r expected %r', v, ref)
                    v = float(np.ravel(L.log_likelihood(par, wc, **exk, **dk))[0])
                    tot = ref + pref
                    expect(same(v, tot, mag + pmag) or (math.isnan(v) and math.isnan(tot)), 'total log-likelihood %r expected %r', v, tot)
    finally:
        flavio.Measurement.instances = saved


# --------------------------------------------------------------------------
@st.composite
def case_yaml(draw):
    return {'kind': draw(st.sampled_from(['MeasurementLikelihood', 'ParameterLikelihood', 'Likelihood', 'FastLikelihood'])),
            'obs': draw(st.lists(st.integers(0, len(KEYS) - 1), min_size=1, max_size=6)),
            'form': [draw(st.sampled_from(['tuple', 'list', 'dict'])) for _ in range(6)],
            'sel': draw(st.sampled_from(['all', 'exclude', 'include', 'both'])), 'pars': [draw(dist1()) for _ in PARS],
            'custom': draw(st.booleans()), 'fit': draw(st.lists(st.sampled_from(PARS), unique=True, min_size=1, max_size=3)),
            'nuis': draw(st.sampled_from([None, [], ['m_b'], ['vpx', 'm_b']])), 'drop': draw(st.booleans()), 'json': draw(st.booleans()),
            'bad': draw(st.sampled_from([None, None, None, 'string', 'missing', 'args', 'unknown']))}


def form_of(key, form):
    if isinstance(key, str):
        return {'name': key} if form == 'dict' else key
    if form == 'dict':
        return dict(zip({'vobs c': ['name', 'q2'], 'vobs d': ['name', 'q2min', 'q2max']}[key[0]], key))
    return list(key) if form == 'list' else tuple(key)


def check_yaml(c, ctx):
    import flavio
    import yaml
    from flavio.statistics.likelihood import Likelihood, MeasurementLikelihood, ParameterLikelihood, FastLikelihood
    cls = {'MeasurementLikelihood': MeasurementLikelihood, 'ParameterLikelihood': ParameterLikelihood, 'Likelihood': Likelihood, 'FastLikelihood': FastLikelihood}[c['kind']]
    ctx.label(c['kind'], c['sel'], c['bad'])
    saved = flavio.Measurement.instances
    flavio.Measurement.instances = type(saved)()
    try:
        for i in range(2):
            M = flavio.Measurement('verif measurement %d' % i)
            for kk in KEYS:
                M.set_constraint(kk, '1.0 +- 2.0')
        d = {}
        seen = []
        if c['kind'] != 'ParameterLikelihood':
            ks = [KEYS[i] for i in c['obs']]
            d['observables'] = [form_of(kk, f) for kk, f in zip(ks, c['form'])]
            for kk in ks:
                if kk not in seen:
                    seen.append(kk)
            if c['sel'] in ('exclude', 'both'):
                d['exclude_measurements'] = ['verif measurement 0']
            if c['sel'] in ('include', 'both'):
                d['include_measurements'] = ['verif measurement 1']
        if c['kind'] != 'MeasurementLikelihood' and c['custom']:
            d['par_obj'] = [{'parameters': [n], 'values': dict(s['args'], distribution=s['dist'])} for n, s in zip(PARS, c['pars'])] + [{'m_b': '4.11 \u00b1 0.03'}]
        fit = [p for p in c['fit'] if c['custom']] + ['m_b']
        if c['kind'] == 'ParameterLikelihood':
            d['parameters'] = fit
        elif c['kind'] in ('Likelihood', 'FastLikelihood'):
            d['fit_parameters'] = fit
        if c['kind'] == 'FastLikelihood':
            d['name'] = 'verif fast'
            if c['nuis'] is not None:
                d['nuisance_parameters'] = [p for p in c['nuis'] if c['custom'] or p == 'm_b']
            if c['sel'] == 'exclude' and c['drop']:
                d['fit_parameters'] = []
        if c['bad'] == 'string' and seen:
            d['observables'] = 'vobs a'
        elif c['bad'] == 'missing' and seen:
            del d['observables']
        elif c['bad'] == 'args' and seen:
            d['observables'] = d['observables'] + [['vobs c', 1.0, 2.0]]
        elif c['bad'] == 'unknown' and seen:
            d['observables'] = d['observables'] + ['no such observable']
        reject = (c['bad'] and seen) or (c['sel'] == 'both' and seen)
        d0 = copy.deepcopy(d)
        try:
            if c['json'] and not any(isinstance(x, tuple) for x in d.get('observables', [])):
                L = cls.load(json.dumps(d))
            else:
                L = cls.load_dict(d)
        except Exception as e:
            expect(reject, 'loading %r fails with %s: %s', d, type(e).__name__, e)
            ctx.label('rejected')
            return
        expect(not reject, 'invalid specification %r accepted', d)
        expect(d == d0, 'loading changed the dictionary: %r', d)

        def look(L, what):
            if seen:
                expect(list(L.observables) == seen, '%s: observables %r expected %r', what, L.observables, seen)
                ml = {'MeasurementLikelihood': lambda: L, 'Likelihood': lambda: L.measurement_likelihood, 'FastLikelihood': lambda: L.full_measurement_likelihood}[c['kind']]()
                w = ['verif measurement 0', 'verif measurement 1']
                w = w[1:] if c['sel'] != 'all' else w
                expect(sorted(ml.get_measurements) == w, '%s: measurements %r expected %r', what, ml.get_measurements, w)
            if c['kind'] == 'MeasurementLikelihood':
                return
            cen = L.par_obj.get_central_all()
            default = flavio.default_parameters.get_central_all()
            for p in default:
                if p != 'm_b' or not c['custom']:
                    expect(cen[p] == default[p], '%s: parameter %s', what, p)
            expect(set(cen) == set(default) | (set(PARS) if c['custom'] else set()), '%s: parameters differ', what)
            if c['custom']:
                expect(cen['m_b'] == 4.11, '%s: m_b=%r', what, cen['m_b'])
                for n, s in zip(PARS, c['pars']):
                    r = gd.make(s)
                    x = float(r.central_value) + 0.1
                    a, b = float(np.ravel(L.par_obj.get_logprobability_single(n, x))[0]), float(np.ravel(r.logpdf(x))[0])
                    expect(same(a, b, 1 + abs(b)), '%s: log-probability of %s %r expected %r', what, n, a, b)
            got = L.parameters if c['kind'] == 'ParameterLikelihood' else L.fit_parameters
            want = d0.get('parameters', d0.get('fit_parameters'))
            expect(list(got) == list(want), '%s: parameters %r expected %r', what, got, want)
            if c['kind'] == 'ParameterLikelihood':
                expect([float(x) for x in L.get_central] == [float(cen[p]) for p in want], '%s: central values %r', what, L.get_central)
                r = L.get_random
                expect(np.shape(r) == (len(want),), '%s: random values %r', what, r)
                for p, x in zip(want, r):
                    expect(np.isfinite(float(np.ravel(L.par_obj.get_logprobability_single(p, x))[0])), '%s: random value %r of %s is not in its domain', what, x, p)
            if c['kind'] == 'FastLikelihood':
                expect(L.name == 'verif fast' and (what == 'after dumping' or FastLikelihood['verif fast'] is L), '%s: name %r', what, L.name)
                w = d0.get('nuisance_parameters')
                expect((set(L.nuisance_parameters) == set(L.par_obj.all_parameters)) if w is None else list(L.nuisance_parameters) == w, '%s: nuisance parameters', what)
        look(L, 'loaded')
        y = L.get_yaml_dict()
        expect(yaml.safe_load(yaml.dump(json.loads(json.dumps(y)))) is not None, 'not plain')
        look(cls.load_dict(copy.deepcopy(y)), 'rebuilt from its dictionary')
        look(cls.load(L.dump()), 'rebuilt from YAML')
        look(L, 'after dumping')
    finally:
        flavio.Measurement.instances = saved
        if hasattr(FastLikelihood, 'instances'):
            FastLikelihood.instances.pop('verif fast', None)


def build():
    return [Sub('history', case(), check, quick=1600, thorough=40000, shards=8, setup=register),
            Sub('yaml', case_yaml(), check_yaml, quick=120, thorough=2000, shards=8, setup=register)]
