"""Univariate distributions are coherent probability densities."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, expect_close, fail, Skip
import gen_dist as gd

RULE = ('A case is a distribution class with randomly drawn valid parameters (locations up to 50 widths from zero, '
        'widths over 18 decades, all documented parameterisations) and evaluation points inside, at the edge of and '
        'outside the domain. Non-trivial: the parameters are not the class defaults and at least one point is inside '
        'the domain and one outside the bulk; distinct by parameters.')
ASSUMPTIONS = ['scipy.stats closed-form densities and quadrature are trusted',
               'gamma-type distributions are generated with P(x>0) of the untruncated density above about 1e-3',
               'numerical distributions are compared up to the resolution of their grid']
LEVEL_NOTE = ('Generated-input search against closed-form densities/CDFs written from the class documentation and '
              'against numerical quadrature; no guarantee outside the generated parameter ranges.')


def P():
    import flavio.statistics.probability as p
    return p


@st.composite
def case_analytic(draw):
    sp = draw(gd.spec(gd.ANALYTIC))
    u = draw(st.lists(gd.fl(-0.3, 1.3), min_size=3, max_size=8))
    q = draw(st.lists(gd.fl(1e-4, 1 - 1e-4), min_size=2, max_size=5))
    return dict(sp, u=u, q=q)


def check_analytic(c, ctx):
    d = gd.make(c)
    ref = gd.Ref(c)
    ctx.label(c['dist'])
    lo, hi = map(float, d.support)
    cv = float(d.central_value)
    expect(math.isfinite(lo) and math.isfinite(hi) and lo < hi, 'support %r not a finite interval', d.support)
    expect(lo - 1e-9 * abs(lo) <= cv <= hi + 1e-9 * abs(hi), 'central value %r outside support %r', cv, d.support)
    # the support carries essentially all probability, and does not extend past the domain
    mass = float(ref.cdf(hi) - ref.cdf(lo))
    expect(mass > 1 - 1e-6, 'support %r carries only %r of the probability', d.support, mass)
    w = hi - lo
    expect(lo >= ref.domain[0] - 1e-6 * w and hi <= ref.domain[1] + 1e-6 * w,
           'support %r extends outside the domain %r', d.support, ref.domain)
    xs = [lo + u * w for u in c['u']] + [cv]
    # keep away from floating-point coincidence with a hard edge
    xs = [x for x in xs if all(not math.isfinite(e) or abs(x - e) > 1e-9 * w for e in ref.domain)]
    xs = np.array(xs)
    if len(xs) == 0:
        ctx.trivial()
        return
    pref = np.asarray(ref.pdf(xs), float)
    lp = np.asarray(d.logpdf(xs), float)
    expect(lp.shape == xs.shape, 'logpdf of %d points has shape %r', len(xs), lp.shape)
    for x, pr, l in zip(xs, pref, lp):
        if pr * w < 1e-200:
            expect(math.exp(l) * w < 1e-190, 'logpdf(%r)=%r where the density vanishes', x, l)
        else:
            expect(abs(l - math.log(pr)) < 1e-6 + 1e-8 * abs(l), 'logpdf(%r)=%r, expected %r', x, l, math.log(pr))
        ls = float(d.logpdf(x))
        expect(ls == l or abs(ls - l) < 1e-9 * (1 + abs(l)), 'scalar logpdf(%r)=%r differs from array value %r', x, ls, l)
    if hasattr(d, 'pdf'):
        pv = np.asarray(d.pdf(xs), float)
        expect(np.all(np.abs(pv - pref) <= 1e-7 * np.abs(pref) + 1e-14 / w), 'pdf %r expected %r', pv, pref)
    if hasattr(d, 'cdf'):
        cv_ = np.asarray(d.cdf(xs), float)
        cr = np.asarray(ref.cdf(xs), float)
        expect(np.all(np.abs(cv_ - cr) < 1e-8), 'cdf(%r)=%r expected %r', xs, cv_, cr)
    if hasattr(d, 'ppf'):
        for q in c['q']:
            x = float(d.ppf(q))
            expect(abs(float(ref.cdf(x)) - q) < 1e-7, 'ppf(%r)=%r but the CDF there is %r', q, x, float(ref.cdf(x)))
        xa = np.asarray(d.ppf(np.array(c['q'])), float)
        expect(xa.shape == (len(c['q']),), 'ppf on an array has shape %r', xa.shape)
    # relative to the central value
    dl = np.asarray(d.delta_logpdf(xs), float)
    l0 = float(d.logpdf(cv))
    if math.isfinite(l0):
        for x, a, l in zip(xs, dl, lp):
            if math.isfinite(l):
                expect(abs(a - (l - l0)) < 1e-8 * (1 + abs(l)), 'delta_logpdf(%r)=%r expected %r', x, a, l - l0)


@st.composite
def case_numeric(draw):
    sp = draw(gd.spec(gd.NUMERIC))
    q = draw(st.lists(gd.fl(0.002, 0.998), min_size=3, max_size=6))
    return dict(sp, q=q)


def check_numeric(c, ctx):
    d = gd.make(c)
    ctx.label(c['dist'])
    lo, hi = map(float, d.support)
    w = hi - lo
    expect(w > 0, 'empty support %r', d.support)
    x = np.asarray(d.x, float)
    expect(np.all(np.diff(x) > 0), 'grid not increasing')
    y = np.exp(np.asarray(d.logpdf(x), float))
    expect(np.all(y >= 0) and np.all(np.isfinite(y)), 'negative or non-finite density')
    integral = float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
    expect(abs(integral - 1) < 2e-6, 'density integrates to %r', integral)
    # outside
    out = np.asarray(d.logpdf(np.array([lo - 0.1 * w, hi + 0.1 * w])), float)
    expect(np.all(out == -np.inf), 'density outside the support: %r', out)
    cv = float(d.central_value)
    expect(lo <= cv <= hi, 'central value %r outside %r', cv, d.support)
    # pdf proportional to the values supplied
    if c['dist'] == 'numerical':
        yy = np.array(c['args']['y'])
        r = y / yy
        expect(np.all(np.abs(r / r[0] - 1) < 1e-9), 'density not proportional to the y values supplied')
        if 'central_value' not in c['args']:
            expect(abs(yy[list(x).index(cv)] - yy.max()) == 0, 'default central value %r is not the mode', cv)
        else:
            expect(cv == c['args']['central_value'], 'central value %r', cv)
    # cdf is the integral of the density, up to the resolution of the grid
    cum = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
    cdf = np.asarray(d.cdf(x), float)
    expect(np.all(np.diff(cdf) >= -1e-12), 'cdf decreases')
    expect(abs(cdf[0]) < 1e-9 and abs(cdf[-1] - 1) < 1e-9, 'cdf runs from %r to %r', cdf[0], cdf[-1])
    dev = float(np.max(np.abs(cdf - cum)))
    expect(dev < CDF_TOL(x, y), 'cdf differs from the integral of the density by %r', dev)
    for q in c['q']:
        xq = float(d.ppf(q))
        expect(lo <= xq <= hi, 'ppf(%r)=%r outside the support', q, xq)
        expect(abs(float(d.cdf(xq)) - q) < 1e-9, 'cdf(ppf(%r))=%r', q, float(d.cdf(xq)))
    qs = sorted(c['q'])
    xa = np.asarray(d.ppf(np.array(qs)), float)
    expect(np.all(np.diff(xa) >= 0), 'ppf not monotone')


def CDF_TOL(x, y):
    return 1e-9


def check_kde(c, ctx):
    """moments of a kernel density estimate: those of data plus kernel"""
    ctx.label(c['dist'])
    d = gd.make(c)
    x = np.asarray(d.x, float)
    y = np.exp(np.asarray(d.logpdf(x), float))
    dx = np.diff(x)

    def integ(f):
        return float(np.sum((f[1:] + f[:-1]) / 2 * dx))
    data = np.array(c['args']['data'])
    bw = c['args'].get('bandwidth', c['args'].get('kernel_std'))
    nb = c['args'].get('n_bins') or min(1000, len(data))
    h, e = np.histogram(data, bins=nb, density=True)
    xc = (e[1:] + e[:-1]) / 2
    # density before smoothing: linear interpolation of the histogram at the bin centres
    xx = np.linspace(xc[0], xc[-1], 20001)
    yy = np.interp(xx, xc, h)
    yy = yy / np.trapz(yy, xx)
    m0 = np.trapz(xx * yy, xx)
    v0 = np.trapz((xx - m0)**2 * yy, xx)
    m = integ(x * y)
    v = integ((x - m)**2 * y)
    span = x[-1] - x[0]
    expect(abs(m - m0) < 2e-3 * span, 'mean %r of the estimate, expected %r', m, m0)
    expect(abs(v - (v0 + bw**2)) < 1e-2 * (v0 + bw**2), 'variance %r of the estimate, expected %r', v, v0 + bw**2)
    # against the explicit sum of kernels
    pts = np.linspace(x[0], x[-1], 41)
    k = np.exp(-0.5 * ((pts[:, None] - xx[None, ::20]) / bw)**2) / bw / math.sqrt(2 * math.pi)
    ref = np.trapz(k * yy[None, ::20], xx[::20], axis=1)
    got = np.exp(np.asarray(d.logpdf(pts), float))
    expect(np.max(np.abs(got - ref)) < 0.02 * ref.max(), 'smoothed density differs from the sum of kernels by %r of its maximum',
           np.max(np.abs(got - ref)) / ref.max())


@st.composite
def case_discrete(draw):
    sp = draw(gd.spec(gd.DISCRETE))
    return dict(sp, pts=draw(st.lists(st.one_of(st.integers(-70, 70), gd.fl(-70, 70)), min_size=2, max_size=8)))


def check_discrete(c, ctx):
    d = gd.make(c)
    ctx.label(c['dist'])
    a = c['args']
    pts = np.array([float(x) for x in c['pts']] + [float(d.central_value)])
    lp = np.asarray(d.logpdf(pts), float)
    for x, l in zip(pts, lp):
        if c['dist'] == 'delta':
            want = 0.0 if x == a['central_value'] else -np.inf
        else:
            n = a['highest_value'] - a['lowest_value'] + 1
            inside = x == int(x) and a['lowest_value'] <= x <= a['highest_value']
            want = -math.log(n) if inside else -np.inf
        expect(l == want or abs(l - want) < 1e-12, 'log-probability at %r is %r, expected %r', x, l, want)
        expect(float(d.logpdf(x)) == l, 'scalar and array log-probability differ at %r', x)
    if c['dist'] == 'discrete_uniform':
        ks = np.arange(a['lowest_value'] - 3, a['highest_value'] + 4)
        tot = float(np.sum(np.exp(d.logpdf(ks))))
        expect(abs(tot - 1) < 1e-9, 'probabilities sum to %r', tot)
        cv = a.get('central_value', int((a['lowest_value'] + a['highest_value']) / 2))
        expect(d.central_value == cv, 'central value %r expected %r', d.central_value, cv)
    else:
        expect(d.central_value == a['central_value'], 'central value %r', d.central_value)


BAD = st.one_of(
    st.tuples(st.just('NormalDistribution'), st.tuples(gd.fl(-5, 5), st.one_of(st.just(0.0), gd.fl(-5, -1e-3)))),
    st.tuples(st.just('LogNormalDistribution'), st.tuples(st.just(0.0), gd.fl(1.1, 3))),
    st.tuples(st.just('LogNormalDistribution'), st.tuples(gd.fl(-5, 5), gd.fl(-2, 1.0))),
    st.tuples(st.just('AsymmetricNormalDistribution'), st.tuples(gd.fl(-5, 5), gd.fl(-3, 0), gd.fl(0.1, 3))),
    st.tuples(st.just('AsymmetricNormalDistribution'), st.tuples(gd.fl(-5, 5), gd.fl(0.1, 3), gd.fl(-3, 0))),
    st.tuples(st.just('HalfNormalDistribution'), st.tuples(gd.fl(-5, 5), st.just(0.0))),
    st.tuples(st.just('GaussianUpperLimit'), st.tuples(gd.fl(-5, 0), gd.fl(0.1, 0.9))),
    st.tuples(st.just('GaussianUpperLimit'), st.tuples(gd.fl(0.1, 5), st.one_of(gd.fl(1.001, 3), gd.fl(-2, -0.01)))),
    st.tuples(st.just('GammaDistribution'), st.tuples(gd.fl(1, 5), gd.fl(0.01, 3), gd.fl(0.1, 3))),
    st.tuples(st.just('GammaDistributionPositive'), st.tuples(gd.fl(1, 5), gd.fl(0.01, 3), gd.fl(0.1, 3))),
    st.tuples(st.just('DiscreteUniformDistribution'), st.tuples(st.integers(1, 9), st.integers(10, 20), st.one_of(st.integers(-9, 0), st.integers(21, 40)))),
    st.tuples(st.just('NumericalDistribution'), st.tuples(st.just([0.0, 1.0, 2.0]), st.just([1.0, 2.0, 1.0]), st.one_of(gd.fl(2.01, 5), gd.fl(-5, -0.01)))),
)


def check_bad(c, ctx):
    name, args = c
    ctx.label(name)
    args = [np.array(a) if isinstance(a, (list, tuple)) else a for a in args]
    try:
        d = getattr(P(), name)(*args)
    except ValueError:
        return
    fail('%s%r accepted although documented as invalid: %r', name, tuple(args), d)


def build():
    return [
        Sub('analytic', case_analytic(), check_analytic, quick=2400, thorough=40000, shards=8),
        Sub('numeric', case_numeric(), check_numeric, quick=400, thorough=6000, shards=6),
        Sub('kde', gd.spec(['gaussian_kde', 'kernel_density_estimate']).map(lambda s: s), check_kde, quick=100, thorough=1500, shards=4),
        Sub('discrete', case_discrete(), check_discrete, quick=400, thorough=6000, shards=2),
        Sub('invalid', BAD.map(lambda t: [t[0], list(t[1])]), check_bad, quick=400, thorough=4000, shards=1),
    ]
