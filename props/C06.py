"""Convolving distributions adds the uncertainties."""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd
from C05 import gauss_table, moments2d

RULE = ('A case is a list of 2 to 4 distributions (widths within a factor of 30) either with a common central value '
        '("same") or with different ones ("sum"), in random order. Non-trivial: at least two distributions that are not '
        'point-like; distinct by parameters.')
ASSUMPTIONS = ['tabulated results are compared up to the resolution of the table (10000 steps, 200 per dimension)']
LEVEL_NOTE = ('Generated-input search against exact Gaussian formulas, additivity of means and variances, and an '
              'independently computed convolution integral.')

KINDS = ['normal', 'uniform', 'asymmetric_normal', 'half_normal', 'numerical', 'gamma', 'gaussian_upper_limit', 'log_normal']


@st.composite
def one(draw, kinds, c, s):
    k = draw(st.sampled_from(kinds))
    if k == 'normal':
        a = dict(central_value=c, standard_deviation=s)
    elif k == 'uniform':
        a = dict(central_value=c, half_range=s)
    elif k == 'asymmetric_normal':
        a = dict(central_value=c, right_deviation=s, left_deviation=gd.sig(s * draw(gd.fl(0.2, 5))))
    elif k == 'half_normal':
        a = dict(central_value=c, standard_deviation=s * draw(st.sampled_from([1, -1])))
    elif k == 'log_normal':
        if abs(c) < s / 3:
            return {'dist': 'normal', 'args': dict(central_value=c, standard_deviation=s)}
        a = dict(central_value=c, factor=1 + min(1.0, max(0.02, s / abs(c))))
    elif k == 'gamma':
        # mode = loc + (a-1) scale
        aa = draw(gd.fl(1.5, 8))
        sc = s / math.sqrt(aa)
        loc = c - (aa - 1) * sc
        if loc > 0:
            return {'dist': 'normal', 'args': dict(central_value=c, standard_deviation=s)}
        a = dict(a=aa, loc=loc, scale=sc)
    elif k == 'gaussian_upper_limit':
        if c != 0:
            return {'dist': 'uniform', 'args': dict(central_value=c, half_range=s)}
        a = dict(limit=s, confidence_level=0.9)
    elif k == 'numerical':
        g = draw(gd.grid_pdf(8, 30))
        x = np.array(g['x'])
        i = draw(st.integers(0, len(x) - 1))
        x = (x - x[i]) / (x[-1] - x[0]) * 4 * s + c
        x[i] = c
        if np.any(np.diff(x) <= 0):
            return {'dist': 'normal', 'args': dict(central_value=c, standard_deviation=s)}
        a = dict(x=[float(v) for v in x], y=g['y'], central_value=c)
    return {'dist': k, 'args': a}


@st.composite
def case(draw):
    mode = draw(st.sampled_from(['same', 'sum', 'same']))
    c, s = draw(gd.loc_scale(relmax=15))
    if draw(st.integers(0, 3)) == 0:
        c = 0.0
    n = draw(st.integers(2, 4))
    kinds = draw(st.sampled_from([KINDS, KINDS, ['normal']]))
    ds = []
    for _ in range(n):
        sc = gd.sig(s * 10**draw(gd.fl(-0.7, 0.7)))
        cc = c if mode == 'same' else gd.sig(c + s * draw(gd.fl(-8, 8)))
        ds.append(draw(one(kinds, cc, sc)))
    deltas = draw(st.integers(0, 2)) if mode == 'same' else 0
    return {'mode': mode, 'dists': ds, 'perm': list(draw(st.permutations(list(range(n))))), 'deltas': deltas,
            'default': draw(st.booleans())}


def table(sp, d):
    lo, hi = map(float, d.support)
    if sp['dist'] == 'numerical':
        x = np.linspace(lo, hi, 6001)
        y = np.interp(x, sp['args']['x'], sp['args']['y'])
    else:
        x = np.linspace(lo, hi, 6001)
        r = gd.Ref(sp)
        y = np.asarray(r.pdf(x), float)
        # hard edges: half weight handled by the trapezoidal rule
        y = np.where(np.isfinite(y), y, 0)
    w = np.full(len(x), x[1] - x[0])
    w[0] = w[-1] = w[0] / 2
    p = y * w
    return x, p / p.sum()


def check(c, ctx):
    import flavio.statistics.probability as p
    ds = [gd.make(s) for s in c['dists']]
    cvs = [float(d.central_value) for d in ds]
    mode = c['mode']
    ctx.label(mode, 'deltas%d' % c['deltas'], *sorted({s['dist'] for s in c['dists']}))
    if mode == 'same' and len(set(cvs)) > 1:
        # central values that are computed (gamma) may differ by rounding
        raise Skip()
    lst = list(ds)
    for k in range(c['deltas']):
        lst.insert(k * 2, p.DeltaDistribution(cvs[0]))
    kw = {} if (mode == 'same' and c['default']) else {'central_values': mode}
    r = p.convolve_distributions(lst, **kw)
    target = cvs[0] if mode == 'same' else sum(cvs)
    tabs = [table(s, d) for s, d in zip(c['dists'], ds)]
    widths = [math.sqrt(max(0.0, float(np.sum(q * x * x) - np.sum(q * x)**2))) if False else
              math.sqrt(float(np.sum(q * (x - np.sum(q * x))**2))) for x, q in tabs]
    W = math.sqrt(sum(w * w for w in widths))
    tol_cv = 1e-9 * max(abs(target), W, max(map(abs, cvs)))
    expect(abs(float(r.central_value) - target) <= tol_cv, 'central value %r expected %r', r.central_value, target)
    if all(s['dist'] == 'normal' for s in c['dists']):
        sg = math.sqrt(sum(s['args']['standard_deviation']**2 for s in c['dists']))
        expect(type(r).__name__ == 'NormalDistribution', 'convolution of normals is %r', r)
        expect(abs(r.standard_deviation / sg - 1) < 1e-9, 'standard deviation %r expected %r', r.standard_deviation, sg)
        return
    # means and variances add
    mean = target + sum(float(np.sum(q * x)) - cv for (x, q), cv in zip(tabs, cvs))
    if hasattr(r, 'x'):
        x = np.asarray(r.x, float)
        y = np.exp(np.asarray(r.logpdf(x), float))
        pr = y * np.gradient(x)
        pr = pr / pr.sum()
        m = float(np.sum(pr * x))
        sd = math.sqrt(float(np.sum(pr * (x - m)**2)))
        grid = x[1] - x[0]
        expect(abs(m - mean) < 0.01 * W + 4 * grid, 'mean %r expected %r', m, mean)
        expect(abs(sd / W - 1) < 0.02, 'standard deviation %r expected %r', sd, W)
    # the full distribution, against a direct convolution of two discretised inputs
    if len(ds) == 2:
        (x1, q1), (x2, q2) = tabs
        off = target - cvs[0] - cvs[1]
        lo, hi = map(float, r.support)
        pts = np.linspace(max(lo, mean - 2.5 * W), min(hi, mean + 2.5 * W), 11)
        c2 = np.cumsum(q2) - q2 / 2
        want = np.array([np.sum(q1 * np.interp(t - off - x1, x2, c2, left=0, right=1)) for t in pts])
        if hasattr(r, 'cdf'):
            got = np.asarray(r.cdf(pts), float)
            expect(np.max(np.abs(got - want)) < 0.01, 'CDF of the convolution at %r: %r expected %r', pts, got, want)
            ctx.label('direct')
    r2 = p.convolve_distributions([lst[i] for i in c['perm']] if not c['deltas'] else lst[::-1], **kw)
    if hasattr(r, 'cdf') and hasattr(r2, 'cdf'):
        pts = np.linspace(mean - 1.5 * W, mean + 1.5 * W, 7)
        pts = np.clip(pts, max(float(r.support[0]), float(r2.support[0])), min(float(r.support[1]), float(r2.support[1])))
        a, b = np.asarray(r.cdf(pts), float), np.asarray(r2.cdf(pts), float)
        expect(np.max(np.abs(a - b)) < 0.01, 'convolution depends on the order: %r vs %r', a, b)


@st.composite
def case_special(draw):
    c, s = draw(gd.loc_scale(relmax=10))
    return {'kind': draw(st.sampled_from(['deltas', 'single', 'differ', 'badmode', 'differ_delta', 'dims', 'differ_mv'])), 'c': c, 's': s,
            'k': draw(st.integers(1, 3)), 'd': draw(one(KINDS[:5], c, s))}


def check_special(c, ctx):
    import flavio.statistics.probability as p
    k = c['kind']
    ctx.label(k)
    d = gd.make(c['d'])
    if k == 'deltas':
        r = p.convolve_distributions([p.DeltaDistribution(c['c']) for _ in range(c['k'])])
        expect(type(r).__name__ == 'DeltaDistribution' and r.central_value == c['c'], 'point-like distributions convolve to %r', r)
    elif k == 'single':
        for m in ('same', 'sum'):
            r = p.convolve_distributions([d], m)
            xs = np.linspace(float(d.support[0]), float(d.support[1]), 7)[1:-1]
            expect(r.central_value == d.central_value and np.all(r.logpdf(xs) == d.logpdf(xs)), 'a single distribution is changed')
    else:
        if k == 'differ':
            lst, m = [d, p.NormalDistribution(c['c'] + c['s'], c['s'])], 'same'
        elif k == 'differ_delta':
            lst, m = [d, p.DeltaDistribution(c['c'] + c['s'])], 'same'
        elif k == 'differ_mv':
            lst, m = [p.MultivariateNormalDistribution([c['c'], c['c']], standard_deviation=[c['s'], c['s']]),
                      p.MultivariateNormalDistribution([c['c'], c['c'] + c['s']], standard_deviation=[c['s'], c['s']])], 'same'
        elif k == 'dims':
            lst, m = [d, p.MultivariateNormalDistribution([c['c'], c['c']], standard_deviation=[c['s'], c['s']])], 'sum'
        else:
            lst, m = [d, d], 'average'
        try:
            r = p.convolve_distributions(lst, m)
        except (AssertionError, ValueError):
            return
        fail('%s: accepted, gives %r', k, r)


@st.composite
def case_mvn(draw):
    n = draw(st.integers(2, 4))
    base = draw(gd.mvn_spec(n, n))
    mode = draw(st.sampled_from(['same', 'sum']))
    out = [base]
    for _ in range(draw(st.integers(1, 2))):
        out.append({'n': n, 'form': 'corr', 'sd': [gd.sig(s * 10**draw(gd.fl(-1, 1))) for s in base['sd']],
                    'cv': list(base['cv']) if mode == 'same' else [gd.sig(v + s * draw(gd.fl(-3, 3))) for v, s in zip(base['cv'], base['sd'])],
                    'corr': draw(gd.corr_matrix(n))})
    return {'dists': out, 'mode': mode, 'array': draw(st.booleans())}


def check_mvn(c, ctx):
    import flavio.statistics.probability as p
    ds = []
    for s in c['dists']:
        cv = np.array(s['cv']) if c['array'] else list(s['cv'])
        ds.append(p.MultivariateNormalDistribution(cv, **gd.mvn_args(s)))
    ctx.label(c['mode'], 'array' if c['array'] else 'list')
    r = p.convolve_distributions(ds, c['mode'])
    cov = sum(gd.cov_of(s) for s in c['dists'])
    sd = np.sqrt(np.diag(cov))
    mu = np.array(c['dists'][0]['cv']) if c['mode'] == 'same' else np.sum([s['cv'] for s in c['dists']], axis=0)
    expect(np.all(np.abs(np.asarray(r.central_value, float) - mu) <= 1e-9 * (sd + np.abs(mu))), 'central value %r expected %r', r.central_value, mu)
    expect(np.all(np.abs(np.asarray(r.covariance) - cov) <= 1e-9 * np.outer(sd, sd)), 'covariance %r expected %r', r.covariance, cov)


@st.composite
def case_mvnum(draw):
    sd = [draw(gd.magnitude(-4, 3)) for _ in range(2)]
    cv = [gd.sig(s * draw(gd.fl(-5, 5))) for s in sd]
    mode = draw(st.sampled_from(['same', 'sum']))
    t = {'n': 41, 'r': draw(gd.fl(-0.6, 0.6)), 'w': 1.0, 'sh': [0.0, 0.0], 'cv': draw(st.booleans())}
    g = [{'w': [draw(gd.fl(0.3, 2)), draw(gd.fl(0.3, 2))], 'rho': draw(gd.fl(-0.7, 0.7)),
          'sh': [draw(gd.fl(-2, 2)), draw(gd.fl(-2, 2))]} for _ in range(draw(st.integers(1, 2)))]
    skew = [draw(st.integers(0, 40)), draw(st.integers(0, 40))]
    return {'sd': sd, 'cv': cv, 'mode': mode, 't': t, 'g': g, 'skew': skew, 'center': draw(st.sampled_from(['mode', 'skew']))}


def check_mvnum(c, ctx):
    import flavio.statistics.probability as p
    sd, cv = np.array(c['sd']), np.array(c['cv'])
    num, m, cov = gauss_table(dict(c['t'], cv=False), cv, sd)
    if c['center'] == 'skew':
        # a tabulated density whose central value is not in the middle of the grid
        cen = [float(num.xi[i][c['skew'][i]]) for i in range(2)]
        num = p.MultivariateNumericalDistribution(num.xi, num.y, central_value=cen)
    cen = np.asarray(num.central_value, float)
    ctx.label(c['mode'], c['center'], '%dnormals' % len(c['g']))
    ds = [num]
    mn, kn = moments2d(num, sd)
    mean, tot = mn.copy(), kn.copy()
    target = cen.copy()
    for g in c['g']:
        s = np.array(g['w']) * sd
        gc = np.outer(s, s) * np.array([[1, g['rho']], [g['rho'], 1]])
        gcv = cen if c['mode'] == 'same' else np.array(g['sh']) * sd
        ds.append(p.MultivariateNormalDistribution(list(gcv), covariance=gc))
        tot = tot + gc / np.outer(sd, sd)
        if c['mode'] == 'sum':
            mean = mean + gcv / sd
            target = target + gcv
    r = p.convolve_distributions(ds, c['mode'])
    m, k = moments2d(r, sd)
    sg = np.sqrt(np.diag(tot))
    expect(np.all(np.abs(m - mean) < 0.12 * sg), 'mean of the convolution %r expected %r (width %r)', m, mean, sg)
    expect(np.all(np.abs(k - tot) < 0.12 * np.outer(sg, sg)), 'covariance of the convolution %r expected %r', k, tot)
    expect(np.all(np.abs(np.asarray(r.central_value, float) - target) < 0.25 * sg * sd), 'central value %r expected %r', r.central_value, target)


def build():
    return [
        Sub('univariate', case(), check, quick=700, thorough=10000, shards=8),
        Sub('special', case_special(), check_special, quick=300, thorough=3000, shards=2),
        Sub('multinormal', case_mvn(), check_mvn, quick=400, thorough=8000, shards=4),
        Sub('multinumerical', case_mvnum(), check_mvnum, quick=80, thorough=800, shards=8),
    ]
