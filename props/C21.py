"""Predictions are pure functions of parameters, Wilson coefficients and arguments, and tend to the SM without new physics."""
import copy
import functools
import gc
import random
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, fail, Skip
import flavio
import phys

RULE = ('smlimit: one observable at a random parameter point and phase-space point with no, all-zero and tiny Wilson coefficients. '
        'history: 3 to 7 evaluations of one to four observables at different parameter points, arguments and Wilson coefficients, in a warm '
        'process, each repeated after clearing all caches of the package and in a different order. '
        'Non-trivial: displaced parameters (smlimit) or at least two different evaluations (history); distinct by case.')
ASSUMPTIONS = ['dilepton observables (R_13) are not evaluated: they need parton distributions that cannot be downloaded offline',
               'the effect of a tiny Wilson coefficient is bounded relative to the effect of an O(1) coefficient']
LEVEL_NOTE = 'Generated-input search; oracle: bitwise-equal repetition, cleared caches and the explicit SM limit.'


def same(a, b):
    return a == b or (np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-11 * max(abs(a), abs(b)))


def check_sm(c, ctx):
    n = c['obs']
    par, args, wc = phys.setup_point(c)
    par0 = dict(par)
    o = phys.Observable[n]
    v = o.prediction_par(par, phys._sm(), *args)
    expect(par == par0, '%s modifies the parameters: %r', n, {k: par.get(k) for k in set(par) ^ set(par0) or [k for k in par if par[k] != par0[k]]})
    if not c['t']:
        ctx.trivial()
    z = flavio.WilsonCoefficients()
    z.set_initial({'C9_bsmumu': 0, 'CVL_bcenue': 0.0}, 4.8)
    for what, w in (('all-zero coefficients', z), ('an empty coefficient object', phys.StubWilson({}))):
        try:
            r = o.prediction_par(par, w, *args)
        except ValueError as e:
            if 'Running from WET to SMEFT' in str(e):   # a set of WET coefficients cannot be used above the electroweak scale
                continue
            raise
        expect(same(v, r), '%s%r: %r in the SM but %r with %s', n, args, v, r, what)
    if not c['t']:
        r = o.prediction_central(flavio.default_parameters, phys._sm(), *args)
        expect(same(v, r), '%s%r: central prediction %r but %r from the central parameters', n, args, r, v)
        r = flavio.sm_prediction(n, *args)
        expect(same(v, r), '%s%r: sm_prediction %r but %r from the central parameters', n, args, r, v)
    # approaching the SM
    if n.startswith('lnC('):
        c = dict(c, size=0.1)
    big = phys.RandWilson(c['wc'], c['size'] or 1.0, 1.0, c['phase'])
    tiny = phys.RandWilson(c['wc'], 1e-7 * (c['size'] or 1.0), 1.0, c['phase'])
    try:
        b = o.prediction_par(par, big, *args)
    except ValueError:
        if n.startswith('lnC('):
            raise Skip()
        raise
    t = o.prediction_par(par, tiny, *args)
    scale = max(abs(b - v), abs(v), 1e-300)
    expect(np.isfinite(t) and abs(t - v) <= 1e-3 * scale, '%s%r: %r in the SM but %r for tiny Wilson coefficients (and %r for large ones)', n, args, v, t, b)
    ctx.label('sensitive' if abs(b - v) > 1e-6 * abs(v) else 'insensitive')


# --------------------------------------------------------------------------
def clear_caches():
    for o in gc.get_objects():
        if isinstance(o, functools._lru_cache_wrapper):
            m = getattr(o, '__module__', '') or ''
            if m.startswith('flavio'):
                o.cache_clear()


_FAM = {}


def families():
    if not _FAM:
        import collections
        d = collections.defaultdict(list)
        for n in phys.names():
            d[phys.Observable[n].prediction.function.__module__].append(n)
        _FAM.update({k: sorted(v) for k, v in d.items()})
    return _FAM


@st.composite
def history(draw, heavy=True):
    fam = families()
    f = draw(st.sampled_from(sorted(fam)))
    # most of the observables are from one family; total rates with many integrals are rare
    nobs = draw(st.integers(1, 3))
    obs = [draw(st.sampled_from(fam[f])) for _ in range(nobs)]
    if draw(st.booleans()):
        obs.append(draw(st.sampled_from(fam[draw(st.sampled_from(sorted(fam)))])))
    seeds = draw(st.lists(st.integers(1, 9999), min_size=1, max_size=2))
    ev = st.fixed_dictionaries({
        'obs': st.sampled_from(obs), 'seed': st.sampled_from(seeds + [0]), 't': st.just(1.0), 'wc': st.sampled_from(seeds),
        'size': st.sampled_from([0.0, 1.0, 0.3]), 'density': st.just(1.0), 'phase': st.sampled_from([1.0, 0.0]),
        'u': st.sampled_from([[.31, .62, .1, .9], [.05, .77, .5, .2], [.62, .7, .3, .4]]), 'tweak': st.sampled_from([None, None, 'Vcb', 'delta', 'm_b', 'm_Z', 'alpha_s', 'tau_B0', 'm_K*0', 'm_B0', 'm_tau', 'lambda_B'])})
    return {'events': draw(st.lists(ev, min_size=3, max_size=6)), 'perm': draw(st.integers(0, 10**6))}


def one(e):
    par, args, wc = phys.setup_point(e)
    if e['tweak']:
        # change a single parameter: caches must not be keyed on less than they use
        par = dict(par)
        for k in par:
            if k == e['tweak']:
                par[k] *= 1.01
    if e['obs'].startswith('lnC('):
        wc.size *= 0.1
    try:
        return phys.ev(e['obs'], par, wc if e['size'] else None, args)
    except ValueError:
        if e['obs'].startswith('lnC('):
            return 0.0
        raise


def check_history(c, ctx):
    ev = c['events']
    if len({str(e) for e in ev}) < 2:
        ctx.trivial()
    clear_caches()
    got = [one(e) for e in ev]
    again = [one(e) for e in reversed(ev)][::-1]
    idx = list(range(len(ev)))
    random.Random(c['perm']).shuffle(idx)
    ref = {}
    for i in idx:
        clear_caches()
        ref[i] = one(ev[i])
    for i, e in enumerate(ev):
        expect(same(got[i], ref[i]), 'evaluation %d (%s) gives %r after the evaluations before it, %r on its own', i, e['obs'], got[i], ref[i])
        expect(same(again[i], ref[i]), 'evaluation %d (%s) gives %r when repeated later, %r on its own', i, e['obs'], again[i], ref[i])
    ctx.label(phys.Observable[ev[0]['obs']].prediction.function.__module__.split('.')[-1])


def build():
    return [Sweep('smlimit', phys.names(), phys.point_strategy, check_sm, quick=1, thorough=4, shards=32, subset=200),
            Sub('history', history(), check_history, quick=56, thorough=3000, shards=24)]
