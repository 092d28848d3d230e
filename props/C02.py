"""Quoted numbers are recovered: central value, n-sigma errors, upper limits."""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a one-dimensional distribution with drawn parameters and a number of standard deviations in (0.2, 3). '
        'Non-trivial: the errors are finite and non-zero; distinct by parameters.')
ASSUMPTIONS = ['reference CDFs written from the class documentation on top of scipy.stats',
               'highest-density intervals are only demanded for densities with an interior mode, as documented']
LEVEL_NOTE = 'Generated-input search against reference CDFs and the documented meaning of each error convention.'


def CL(n):
    return 2 * scipy.stats.norm.cdf(n) - 1


@st.composite
def case(draw):
    sp = draw(gd.spec(gd.ANALYTIC + gd.DISCRETE))
    n = draw(st.one_of(st.just(1), gd.fl(0.2, 3.0), st.integers(1, 3)))
    return dict(sp, n=n)


def check(c, ctx):
    k, a, n = c['dist'], c['args'], c['n']
    d = gd.make(c)
    ctx.label(k)
    if k in gd.DISCRETE:
        expect(d.get_error_left(nsigma=n) == 0 and d.get_error_right(nsigma=n) == 0, 'discrete distribution has non-zero error')
        expect(d.error_left == 0 and d.error_right == 0, 'discrete distribution has non-zero error')
        ctx.trivial()
        return
    ref = gd.Ref(c)
    cv = float(d.central_value)
    sc = gd.scale_of(c)
    expect(abs(cv - ref.central) <= 1e-9 * max(abs(ref.central), sc), 'central value %r expected %r', cv, ref.central)
    expect(float(d.get_central()) == cv, 'get_central %r', d.get_central())
    if k == 'gamma' and a['a'] < 1.02:
        ctx.trivial()
        return
    if k.startswith('gamma') and n > 2.7:
        n = 2.7
    el, er = float(d.get_error_left(nsigma=n)), float(d.get_error_right(nsigma=n))
    expect(el >= -1e-12 * sc and er >= -1e-12 * sc, 'negative error %r %r', el, er)
    if n == 1:
        expect(close(float(d.error_left), el) and close(float(d.error_right), er), 'default errors %r %r differ from one-sigma errors %r %r',
               d.error_left, d.error_right, el, er)
    cl = CL(n)
    if k == 'uniform':
        wl = wr = cl * a['half_range']
    elif k == 'normal':
        wl = wr = n * a['standard_deviation']
    elif k == 'asymmetric_normal':
        wl, wr = n * a['left_deviation'], n * a['right_deviation']
    elif k in ('half_normal', 'gaussian_upper_limit'):
        sd = a['standard_deviation'] if k == 'half_normal' else a['limit'] / scipy.stats.norm.ppf(0.5 + a['confidence_level'] / 2)
        wl, wr = (0, n * sd) if sd > 0 else (-n * sd, 0)
    elif k == 'log_normal':
        m, f = a['central_value'], a['factor']
        ends = sorted([m * f**n, m / f**n])
        wl, wr = m - ends[0], ends[1] - m
    if not k.startswith('gamma') or k == 'gaussian_upper_limit':
        for got, want, s in ((el, wl, 'left'), (er, wr, 'right')):
            expect(abs(got - want) <= 1e-7 * max(abs(want), abs(sc) * 1e-3), '%s error %r expected %r', s, got, want)
        return
    # gamma family: highest-density interval
    lo, hi = cv - el, cv + er
    cover = float(ref.cdf(hi) - ref.cdf(lo))
    expect(abs(cover - cl) < 2e-5, 'the interval [%r, %r] holds %r of the probability, expected %r', lo, hi, cover, cl)
    pl, pr = float(ref.pdf(lo)), float(ref.pdf(hi))
    if lo > ref.domain[0] + 1e-6 * sc:
        ctx.label('two-sided')
        expect(abs(pl - pr) <= 2e-3 * max(pl, pr), 'densities at the ends differ: %r %r', pl, pr)
    else:
        ctx.label('one-sided')
        expect(pl >= pr * (1 - 1e-3), 'one-sided interval although the density at its lower end is smaller (%r < %r)', pl, pr)


def close(a, b):
    return abs(a - b) <= 1e-10 * max(abs(a), abs(b))


@st.composite
def case_limit(draw):
    return draw(gd.spec(['gaussian_upper_limit', 'gamma_upper_limit', 'general_gamma_upper_limit']))


def check_limit(c, ctx):
    a = c['args']
    d = gd.make(c)
    ctx.label(c['dist'])
    tol = 1e-8 if c['dist'] != 'general_gamma_upper_limit' else 1e-6
    cdf = float(d.cdf(a['limit']))
    expect(abs(cdf - a['confidence_level']) < tol, 'CDF at the limit is %r, expected %r', cdf, a['confidence_level'])
    q = float(d.ppf(a['confidence_level']))
    expect(abs(q - a['limit']) < max(tol, 1e-7) * a['limit'], 'quantile at the confidence level is %r, expected the limit %r', q, a['limit'])
    expect(d.limit == a['limit'] and d.confidence_level == a['confidence_level'], 'limit not stored')
    if c['dist'] == 'gaussian_upper_limit':
        return
    # the three ways of giving the counts are equivalent
    t, b, s = gd.implied_counts(a)
    base = {k: v for k, v in a.items() if not k.startswith('counts')}
    xs = np.array([0.05, 0.3, 0.7, 1.0, 1.4]) * a['limit']
    want = np.asarray(d.logpdf(xs), float)
    fin = want > np.max(want) - 18      # below that the FFT convolution is rounding noise
    for alt in (dict(counts_total=t, counts_background=b), dict(counts_total=t, counts_signal=t - b),
                dict(counts_background=b, counts_signal=t - b)):
        if 'counts_total' not in alt and (t - b) + b != t:
            continue
        e = gd.make({'dist': c['dist'], 'args': dict(base, **alt)})
        got = np.asarray(e.logpdf(xs), float)
        expect(np.all(np.isfinite(got[fin])) and np.all(np.abs(got[fin] - want[fin]) < 1e-4 * (1 + np.abs(want[fin]))),
               'counts given as %r: log-density %r, expected %r', alt, got, want)


@st.composite
def case_num(draw):
    """numerical distributions: bump-like or exact tabulations of a normal"""
    kind = draw(st.sampled_from(['table', 'normal', 'asym']))
    n = draw(st.one_of(st.just(1), gd.fl(0.3, 2.5)))
    if kind == 'table':
        g = draw(gd.grid_pdf(8, 60))
        i = draw(st.one_of(st.none(), st.integers(0, len(g['x']) - 1)))
        if i is not None:
            g['central_value'] = g['x'][i]
        return {'kind': kind, 'args': g, 'n': n}
    c, s = draw(gd.loc_scale(relmax=20))
    l = s if kind == 'normal' else gd.sig(s * draw(gd.fl(0.2, 4)))
    return {'kind': kind, 'c': c, 'r': s, 'l': l, 'n': n}


def check_num(c, ctx):
    import flavio.statistics.probability as p
    n = c['n']
    cl = CL(n)
    ctx.label(c['kind'])
    if c['kind'] == 'table':
        d = gd.make({'dist': 'numerical', 'args': c['args']})
        cv = float(d.central_value)
        Fc = float(d.cdf(cv))
        lo = cv - float(d.get_error_left(nsigma=n))
        hi = cv + float(d.get_error_right(nsigma=n))
        lo2 = cv - float(d.get_error_left(nsigma=n, method='central'))
        expect(lo2 == lo, 'default method is not central')
        expect(abs(float(d.cdf(lo)) - Fc * (1 - cl)) < 1e-8, 'central interval: CDF at the lower end %r, expected %r', d.cdf(lo), Fc * (1 - cl))
        expect(abs(float(d.cdf(hi)) - (Fc + (1 - Fc) * cl)) < 1e-8, 'central interval: CDF at the upper end %r, expected %r', d.cdf(hi), Fc + (1 - Fc) * cl)
        ll = cv - float(d.get_error_left(nsigma=n, method='limit'))
        ul = cv + float(d.get_error_right(nsigma=n, method='limit'))
        expect(abs(float(d.cdf(ll)) - (1 - cl)) < 1e-8, 'lower limit: CDF %r expected %r', d.cdf(ll), 1 - cl)
        expect(abs(float(d.cdf(ul)) - cl) < 1e-8, 'upper limit: CDF %r expected %r', d.cdf(ul), cl)
        try:
            d.get_error_left(method='nonsense')
        except ValueError:
            pass
        else:
            fail('unknown method accepted')
        return
    x = np.linspace(c['c'] - 6 * c['l'], c['c'] + 6 * c['r'], 4001)
    y = np.exp(-0.5 * ((x - c['c']) / np.where(x < c['c'], c['l'], c['r']))**2)
    d = p.NumericalDistribution(x, y, central_value=c['c'])
    w = c['l'] + c['r']
    # central: probability fraction cl of each half -> n standard deviations of each half-Gaussian
    for m in ('central', 'hpd'):
        el, er = float(d.get_error_left(nsigma=n, method=m)), float(d.get_error_right(nsigma=n, method=m))
        # an asymmetric Gaussian has its HPD interval at n sigma on both sides, too
        expect(abs(el - n * c['l']) < 5e-3 * w and abs(er - n * c['r']) < 5e-3 * w,
               '%s errors -%r +%r, expected -%r +%r', m, el, er, n * c['l'], n * c['r'])


def build():
    return [
        Sub('errors', case(), check, quick=2000, thorough=40000, shards=8),
        Sub('limits', case_limit(), check_limit, quick=400, thorough=6000, shards=6),
        Sub('numerical', case_num(), check_num, quick=700, thorough=10000, shards=4),
    ]
