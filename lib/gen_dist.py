"""Generators of probability-distribution specifications (plain JSON) plus
independent reference densities."""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st


def sig(x, n=6):
    """Round to n significant digits: keeps cases readable and JSON-exact."""
    if x == 0 or not math.isfinite(x):
        return x
    return float('%.*e' % (n - 1, x))


def fl(lo, hi):
    tiny = 1e-9 * max(abs(lo), abs(hi))     # no denormals: they are outside every physical use
    zero = lo <= 0 <= hi

    def f(x):
        x = sig(x)
        return 0.0 if zero and abs(x) < tiny else x
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(f).filter(lambda x: lo <= x <= hi)


@st.composite
def magnitude(draw, emin=-12, emax=6):
    """positive number, log-distributed over many decades"""
    e = draw(st.integers(emin, emax))
    m = draw(fl(1.0, 9.99))
    return sig(m * 10.0**e)


@st.composite
def loc_scale(draw, relmax=50):
    """(location, scale) with |location| up to relmax scales"""
    s = draw(magnitude())
    r = draw(st.one_of(fl(-5, 5), fl(-relmax, relmax), st.just(0.0), st.just(1.0)))
    return sig(r * s), s


@st.composite
def counts(draw):
    """two of (total, background, signal), with the implied third"""
    tot = draw(st.one_of(st.integers(0, 8), st.integers(0, 60), fl(0, 40)))
    # background may exceed the total, but stay where P(x>0) is not negligible
    lim = tot + 2.0 + 2.5 * math.sqrt(tot + 1)
    bg = draw(st.one_of(fl(0, min(lim, tot + 1e-9) if tot else 0.5), fl(0, lim), st.integers(0, int(lim)), st.just(0)))
    pair = draw(st.sampled_from(['tb', 'ts', 'bs']))
    sg = tot - bg
    d = {}
    if 't' in pair:
        d['counts_total'] = tot
    if 'b' in pair:
        d['counts_background'] = bg
    if 's' in pair:
        d['counts_signal'] = sg
    return d


def implied_counts(d):
    t, b, s = d.get('counts_total'), d.get('counts_background'), d.get('counts_signal')
    if t is None:
        t = b + s
    if b is None:
        b = t - s
    if s is None:
        s = t - b
    return t, b, s


@st.composite
def grid_pdf(draw, min_n=5, max_n=60):
    """strictly increasing x and non-negative y (not all zero), smooth-ish or rough"""
    n = draw(st.integers(min_n, max_n))
    c, s = draw(loc_scale(relmax=10))
    even = draw(st.booleans())
    if even:
        t = [i / (n - 1.0) for i in range(n)]
    else:
        steps = draw(st.lists(fl(0.2, 3.0), min_size=n - 1, max_size=n - 1))
        tot = sum(steps)
        acc, t = 0.0, [0.0]
        for d in steps:
            acc += d
            t.append(acc / tot)
    x = [c + s * (2 * u - 1) for u in t]
    kind = draw(st.sampled_from(['bump', 'rough', 'mono']))
    if kind == 'bump':
        mu, w = draw(fl(0.1, 0.9)), draw(fl(0.08, 0.5))
        y = [math.exp(-0.5 * ((u - mu) / w)**2) for u in t]
    elif kind == 'mono':
        a = draw(fl(0.3, 4.0))
        y = [math.exp(-a * u) for u in t]
    else:
        y = draw(st.lists(fl(0.05, 5.0), min_size=n, max_size=n))
    f = draw(st.sampled_from([1.0, 0.01, 37.0]))
    return {'x': x, 'y': [sig(f * v, 8) for v in y]}


@st.composite
def spec(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k == 'uniform':
        c, s = draw(loc_scale())
        a = dict(central_value=c, half_range=s)
    elif k == 'discrete_uniform':
        lo = draw(st.integers(-30, 30))
        hi = lo + draw(st.integers(0, 25))
        a = dict(lowest_value=lo, highest_value=hi)
        if draw(st.booleans()):
            a['central_value'] = draw(st.integers(lo, hi))
    elif k == 'delta':
        a = dict(central_value=draw(st.one_of(st.just(0.0), fl(-1e3, 1e3))))
    elif k == 'normal':
        c, s = draw(loc_scale())
        a = dict(central_value=c, standard_deviation=s)
    elif k == 'log_normal':
        m = draw(magnitude())
        a = dict(central_value=m * draw(st.sampled_from([1, -1])),
                 factor=draw(st.one_of(fl(1.02, 1.5), fl(1.05, 12.0))))
    elif k == 'asymmetric_normal':
        c, s = draw(loc_scale())
        a = dict(central_value=c, right_deviation=s, left_deviation=sig(s * draw(st.one_of(fl(0.05, 20), fl(0.5, 2)))))
    elif k == 'half_normal':
        c, s = draw(loc_scale())
        a = dict(central_value=c, standard_deviation=s * draw(st.sampled_from([1, -1])))
    elif k == 'gaussian_upper_limit':
        a = dict(limit=draw(magnitude()), confidence_level=draw(st.one_of(st.sampled_from([0.9, 0.95, 0.68]), fl(0.05, 0.999))))
    elif k in ('gamma', 'gamma_positive'):
        s = draw(magnitude())
        aa = draw(st.one_of(fl(1.0, 6.0), fl(1.0, 60.0)))
        lim = aa + 1.0 + 2.5 * math.sqrt(aa)
        l = draw(st.one_of(st.just(0.0), fl(0.0, lim)))
        a = dict(a=aa, loc=-sig(l * s), scale=s)
    elif k == 'gamma_counting_process':
        a = dict(draw(counts()), scale_factor=draw(magnitude()))
    elif k == 'gamma_upper_limit':
        a = dict(draw(counts()), limit=draw(magnitude()), confidence_level=draw(st.one_of(st.sampled_from([0.9, 0.95]), fl(0.3, 0.99))))
    elif k == 'numerical':
        a = draw(grid_pdf())
        if draw(st.booleans()):
            i = draw(st.integers(0, len(a['x']) - 1))
            a['central_value'] = a['x'][i]
    elif k in ('general_gamma_positive', 'general_gamma_counting_process', 'general_gamma_upper_limit'):
        c = draw(counts())
        t, b, s_ = implied_counts(c)
        std = sig(math.sqrt(t + 1) * draw(st.one_of(fl(0.02, 0.8), magnitude(-7, -2).filter(lambda v: v < 0.02))))
        if k == 'general_gamma_positive':
            s = draw(magnitude())
            a = dict(a=t + 1, loc=-b * s, scale=s, gaussian_standard_deviation=std)
        elif k == 'general_gamma_counting_process':
            a = dict(c, scale_factor=draw(magnitude()), background_std=std)
        else:
            a = dict(c, limit=draw(magnitude()), confidence_level=draw(st.one_of(st.sampled_from([0.9, 0.95]), fl(0.3, 0.99))), background_std=std)
    elif k in ('gaussian_kde', 'kernel_density_estimate'):
        c, s = draw(loc_scale(relmax=5))
        n = draw(st.integers(20, 60))
        data = [sig(c + s * u) for u in draw(st.lists(fl(-2, 2), min_size=n, max_size=n, unique=True))]
        bw = sig(s * draw(fl(0.1, 0.6)))
        a = dict(data=data, bandwidth=bw) if k == 'gaussian_kde' else dict(data=data, kernel_std=bw)
        if draw(st.booleans()):
            a['n_bins'] = draw(st.integers(10, 50))
    else:
        raise ValueError(k)
    return {'dist': k, 'args': a}


ANALYTIC = ['uniform', 'normal', 'log_normal', 'asymmetric_normal', 'half_normal',
            'gaussian_upper_limit', 'gamma', 'gamma_positive', 'gamma_counting_process',
            'gamma_upper_limit']
NUMERIC = ['numerical', 'general_gamma_positive', 'general_gamma_counting_process',
           'general_gamma_upper_limit', 'gaussian_kde', 'kernel_density_estimate']
DISCRETE = ['discrete_uniform', 'delta']

CLS = {
    'uniform': 'UniformDistribution', 'discrete_uniform': 'DiscreteUniformDistribution',
    'delta': 'DeltaDistribution', 'normal': 'NormalDistribution',
    'log_normal': 'LogNormalDistribution', 'asymmetric_normal': 'AsymmetricNormalDistribution',
    'half_normal': 'HalfNormalDistribution', 'gaussian_upper_limit': 'GaussianUpperLimit',
    'gamma': 'GammaDistribution', 'gamma_positive': 'GammaDistributionPositive',
    'gamma_counting_process': 'GammaCountingProcess', 'gamma_upper_limit': 'GammaUpperLimit',
    'numerical': 'NumericalDistribution', 'general_gamma_positive': 'GeneralGammaDistributionPositive',
    'general_gamma_counting_process': 'GeneralGammaCountingProcess',
    'general_gamma_upper_limit': 'GeneralGammaUpperLimit',
    'gaussian_kde': 'GaussianKDE', 'kernel_density_estimate': 'KernelDensityEstimate',
    'multivariate_normal': 'MultivariateNormalDistribution',
    'multivariate_numerical': 'MultivariateNumericalDistribution',
}


def make(sp):
    """Instantiate the real distribution from a spec."""
    import flavio.statistics.probability as p
    a = dict(sp['args'])
    cls = getattr(p, CLS[sp['dist']])
    if sp['dist'] == 'numerical':
        a['x'] = np.array(a['x'])
        a['y'] = np.array(a['y'])
    if sp['dist'] == 'kernel_density_estimate':
        a['kernel'] = p.NormalDistribution(0, a.pop('kernel_std'))
    if 'data' in a:
        a['data'] = np.array(a['data'])
    return cls(**a)


def scale_of(sp):
    """typical width, to choose test points"""
    a = sp['args']
    k = sp['dist']
    if k == 'uniform':
        return a['half_range']
    if k in ('normal', 'half_normal'):
        return abs(a['standard_deviation'])
    if k == 'asymmetric_normal':
        return a['right_deviation']
    if k == 'log_normal':
        return abs(a['central_value'])
    if k in ('gaussian_upper_limit', 'gamma_upper_limit', 'general_gamma_upper_limit'):
        return a['limit']
    if k in ('gamma', 'gamma_positive', 'general_gamma_positive'):
        return a['scale'] * math.sqrt(a['a'])
    if k in ('gamma_counting_process', 'general_gamma_counting_process'):
        return a['scale_factor'] * math.sqrt(implied_counts(a)[0] + 1)
    if k == 'numerical':
        return a['x'][-1] - a['x'][0]
    return 1.0


class Ref:
    """Reference pdf/cdf written from the class documentation, on top of scipy.stats."""

    def __init__(self, sp):
        a, k = sp['args'], sp['dist']
        s = scipy.stats
        self.domain = (-np.inf, np.inf)
        if k == 'uniform':
            lo, hi = a['central_value'] - a['half_range'], a['central_value'] + a['half_range']
            d = s.uniform(lo, hi - lo)
            self.domain = (lo, hi)
            self.pdf, self.cdf = d.pdf, d.cdf
            self.central = a['central_value']
        elif k == 'normal':
            d = s.norm(a['central_value'], a['standard_deviation'])
            self.pdf, self.cdf, self.central = d.pdf, d.cdf, a['central_value']
        elif k == 'log_normal':
            m, sg = abs(a['central_value']), math.log(a['factor'])
            sgn = 1 if a['central_value'] > 0 else -1

            def pdf(x):
                x = sgn * np.asarray(x, float)
                xx = np.where(x > 0, x, 1.0)
                return np.where(x > 0, np.exp(-(np.log(xx / m))**2 / (2 * sg**2)) / (xx * sg * math.sqrt(2 * math.pi)), 0.0)

            def cdf(x):
                x = sgn * np.asarray(x, float)
                xx = np.where(x > 0, x, 1.0)
                c = np.where(x > 0, s.norm.cdf(np.log(xx / m) / sg), 0.0)
                cs = np.where(x > 0, s.norm.sf(np.log(xx / m) / sg), 1.0)
                return c if sgn == 1 else cs
            self.pdf, self.cdf, self.central = pdf, cdf, a['central_value']
            self.domain = (0, np.inf) if sgn == 1 else (-np.inf, 0)
        elif k == 'asymmetric_normal':
            c, r, l = a['central_value'], a['right_deviation'], a['left_deviation']
            n = 2.0 / ((l + r) * math.sqrt(2 * math.pi))

            def pdf(x):
                x = np.asarray(x, float)
                return n * np.exp(-0.5 * ((x - c) / np.where(x < c, l, r))**2)

            def cdf(x):
                x = np.asarray(x, float)
                left = 2 * l / (l + r) * s.norm.cdf((x - c) / l)
                right = l / (l + r) + 2 * r / (l + r) * (s.norm.cdf((x - c) / r) - 0.5)
                return np.where(x < c, left, right)
            self.pdf, self.cdf, self.central = pdf, cdf, c
        elif k in ('half_normal', 'gaussian_upper_limit'):
            if k == 'half_normal':
                c, sd = a['central_value'], a['standard_deviation']
            else:
                c, sd = 0.0, a['limit'] / s.norm.ppf(0.5 + a['confidence_level'] / 2)
            sgn, w = (1, sd) if sd > 0 else (-1, -sd)

            def pdf(x):
                u = sgn * (np.asarray(x, float) - c) / w
                return np.where(u >= 0, 2 * s.norm.pdf(u) / w, 0.0)

            def cdf(x):
                u = sgn * (np.asarray(x, float) - c) / w
                p = np.where(u > 0, 1 - 2 * s.norm.sf(u), 0.0)
                return p if sgn == 1 else 1 - p
            self.pdf, self.cdf, self.central = pdf, cdf, c
            self.domain = (c, np.inf) if sgn == 1 else (-np.inf, c)
        elif k.startswith('gamma'):
            if k in ('gamma', 'gamma_positive'):
                aa, loc, sc = a['a'], a['loc'], a['scale']
            else:
                t, b, sg = implied_counts(a)
                aa = t + 1
                sc = a.get('scale_factor')
                if sc is None:
                    g = s.gamma(a=aa, loc=-b, scale=1)
                    # CDF of the x>0 part equals the confidence level at the limit
                    sf0 = g.sf(0)
                    sc = a['limit'] / g.isf(sf0 * (1 - a['confidence_level']))
                loc = -b * sc
            g = s.gamma(a=aa, loc=loc, scale=sc)
            if k == 'gamma':
                self.pdf, self.cdf = g.pdf, g.cdf
                self.domain = (loc, np.inf)
                self.central = loc + (aa - 1) * sc
            else:
                sf0 = g.sf(0)
                self.pdf = lambda x: np.where(np.asarray(x, float) >= 0, g.pdf(x) / sf0, 0.0)
                self.cdf = lambda x: np.where(np.asarray(x, float) >= 0, 1 - g.sf(x) / sf0, 0.0)
                self.domain = (0, np.inf)
                self.central = max(0.0, loc + (aa - 1) * sc)
        else:
            raise ValueError(k)


def cdf_solve(ref, p, lo, hi):
    """quantile of a reference cdf by bisection"""
    for _ in range(300):
        m = 0.5 * (lo + hi)
        if ref.cdf(m) < p:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


@st.composite
def corr_matrix(draw, n):
    """random positive definite correlation matrix (list of lists)"""
    rows = []
    for i in range(n):
        rows.append(draw(st.lists(fl(-1, 1), min_size=n, max_size=n)))
    m = np.array(rows)
    w = draw(st.sampled_from([0.3, 1.0, 3.0]))
    c = m @ m.T * w + np.diag(np.full(n, 0.5))
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    c = np.round(c, 6)
    np.fill_diagonal(c, 1.0)
    return c.tolist()


@st.composite
def mvn_spec(draw, nmin=2, nmax=4):
    """multivariate normal, one of the equivalent input forms"""
    n = draw(st.integers(nmin, nmax))
    sd = [draw(magnitude(-9, 4)) for _ in range(n)]
    cv = [sig(s * draw(fl(-8, 8))) for s in sd]
    form = draw(st.sampled_from(['cov', 'cov_upper', 'corr', 'corr_upper', 'number', 'uncorr']))
    corr = draw(corr_matrix(n))
    if form == 'number':
        rho = draw(fl(-0.9 / (n - 1), 0.95))
        corr = [[1.0 if i == j else rho for j in range(n)] for i in range(n)]
    elif form == 'uncorr':
        corr = np.eye(n).tolist()
    return {'n': n, 'cv': cv, 'sd': sd, 'corr': corr, 'form': form}


def mvn_args(s):
    sd = np.array(s['sd'])
    corr = np.array(s['corr'])
    cov = np.outer(sd, sd) * corr
    f = s['form']
    if f == 'cov':
        return dict(covariance=cov.tolist())
    if f == 'cov_upper':
        return dict(covariance=np.triu(cov).tolist())
    if f == 'corr':
        return dict(standard_deviation=list(sd), correlation=corr.tolist())
    if f == 'corr_upper':
        return dict(standard_deviation=list(sd), correlation=np.triu(corr).tolist())
    if f == 'number':
        return dict(standard_deviation=list(sd), correlation=corr[0][1])
    return dict(standard_deviation=list(sd))


def make_mvn(s):
    import flavio.statistics.probability as p
    return p.MultivariateNormalDistribution(s['cv'], **mvn_args(s))


def ref_mvn_logpdf(x, cv, cov):
    """textbook formula with the correlation matrix factored out"""
    cov = np.asarray(cov, float)
    sd = np.sqrt(np.diag(cov))
    u = (np.asarray(x, float) - np.asarray(cv, float)) / sd
    corr = cov / np.outer(sd, sd)
    L = np.linalg.cholesky(corr)
    z = np.linalg.solve(L, u.T)
    return -0.5 * np.sum(z**2, axis=0) - np.sum(np.log(sd)) - np.sum(np.log(np.diag(L))) - 0.5 * len(sd) * math.log(2 * math.pi)


def cov_of(s):
    sd = np.array(s['sd'])
    return np.outer(sd, sd) * np.array(s['corr'])


@st.composite
def mvnum_spec(draw, nmax=3):
    n = draw(st.integers(2, nmax))
    shape = [draw(st.integers(3, 7)) for _ in range(n)]
    xi = []
    ends = draw(st.booleans())
    for m in shape:
        c, s = draw(loc_scale(relmax=3))
        xi.append([c - s, c + s] if ends else list(np.linspace(c - s, c + s, m)))
    y = np.array(draw(st.lists(st.one_of(fl(0.0, 5.0), st.sampled_from([0.0, 1.0])), min_size=int(np.prod(shape)), max_size=int(np.prod(shape)))))
    if y.sum() == 0:
        y[0] = 1.0
    d = {'xi': [[float(v) for v in x] for x in xi], 'shape': shape, 'y': y.tolist()}
    if draw(st.booleans()):
        idx = [draw(st.integers(0, m - 1)) for m in shape]
        d['central_index'] = idx
    return d


def mvnum_grid(s):
    return [np.linspace(x[0], x[-1], m) for x, m in zip(s['xi'], s['shape'])]


def make_mvnum(s):
    import flavio.statistics.probability as p
    y = np.array(s['y']).reshape(s['shape'])
    kw = {}
    if 'central_index' in s:
        kw['central_value'] = [float(g[i]) for g, i in zip(mvnum_grid(s), s['central_index'])]
    return p.MultivariateNumericalDistribution(s['xi'], y.tolist(), **kw)
