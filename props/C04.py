"""Multivariate distributions: input forms, density, ignoring components."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a multivariate normal (2 to 5 dimensions, standard deviations spread over 13 decades, one of six documented '
        'input forms) or a distribution tabulated on a grid (2 or 3 dimensions), with evaluation points and a set of ignored '
        'components. Non-trivial: at least one non-zero off-diagonal element, or a non-constant table; distinct by content.')
ASSUMPTIONS = ['correlation matrices are generated with condition number below about 1e4']
LEVEL_NOTE = 'Generated-input search against the textbook density and direct table lookups.'


@st.composite
def case_mvn(draw):
    s = draw(gd.mvn_spec(2, 5))
    pts = draw(st.lists(st.lists(gd.fl(-4, 4), min_size=s['n'], max_size=s['n']), min_size=1, max_size=4))
    ex = draw(st.lists(st.integers(0, s['n'] - 1), unique=True, max_size=s['n'] - 1))
    return dict(s, pts=pts, exclude=ex, ns=draw(st.one_of(st.just(1), gd.fl(0.3, 4))))


def check_mvn(c, ctx):
    import flavio.statistics.probability as p
    n = c['n']
    cv, sd, cov = np.array(c['cv']), np.array(c['sd']), gd.cov_of(c)
    corr = np.array(c['corr'])
    if np.linalg.cond(corr) > 1e6:
        raise Skip()
    ctx.label(c['form'], 'exclude%d' % len(c['exclude']))
    if np.all(corr == np.eye(n)) and c['form'] not in ('uncorr',):
        ctx.trivial()
    d = gd.make_mvn(c)
    expect(np.all(np.abs(np.asarray(d.covariance) - cov) <= 1e-9 * np.outer(sd, sd)), 'covariance %r expected %r', d.covariance, cov)
    expect(np.all(np.abs(np.asarray(d.correlation) - corr) <= 1e-9), 'correlation %r expected %r', d.correlation, corr)
    expect(np.all(np.abs(np.asarray(d.standard_deviation) / sd - 1) <= 1e-9), 'standard deviations %r expected %r', d.standard_deviation, sd)
    expect(np.all(np.asarray(d.get_central(), float) == cv), 'central value %r expected %r', d.get_central(), cv)
    for e in (d.error_left, d.error_right):
        expect(np.all(np.abs(np.asarray(e) / sd - 1) < 1e-9), 'errors %r expected %r', e, sd)
    for e in (d.get_error_left(nsigma=c['ns']), d.get_error_right(nsigma=c['ns'])):
        expect(np.all(np.abs(np.asarray(e) / (c['ns'] * sd) - 1) < 1e-9), '%r-sigma errors %r', c['ns'], e)
    sup = np.asarray(d.support, float)
    expect(sup.shape == (2, n) and np.all(sup[0] < cv) and np.all(cv < sup[1]), 'support %r', d.support)
    x = cv + np.array(c['pts']) * sd
    want = gd.ref_mvn_logpdf(x, cv, cov)
    got = np.asarray(d.logpdf(x), float).reshape(-1)
    tol = 1e-7 * (1 + np.abs(want))
    expect(got.shape == want.shape and np.all(np.abs(got - want) < tol), 'logpdf %r expected %r', got, want)
    one = d.logpdf(list(x[0]))
    expect(np.ndim(one) == 0 and abs(float(one) - want[0]) < tol[0], 'logpdf of a list of numbers %r expected %r', one, want[0])
    dl = float(d.delta_logpdf(x[0]))
    w0 = float(gd.ref_mvn_logpdf(cv, cv, cov))
    expect(abs(dl - (want[0] - w0)) < 2 * tol[0], 'delta_logpdf %r expected %r', dl, want[0] - w0)
    ex = c['exclude']
    keep = [i for i in range(n) if i not in ex]
    if not ex:
        return
    xr, cr, kr = x[:, keep], cv[keep], cov[np.ix_(keep, keep)]
    want = gd.ref_mvn_logpdf(xr, cr, kr)
    for form in (tuple(ex), list(ex)):
        for i in range(len(xr)):
            g = np.asarray(d.logpdf(list(xr[i]), exclude=form), float)
            expect(g.size == 1 and abs(float(g.reshape(-1)[0]) - want[i]) < 1e-7 * (1 + abs(want[i])),
                   'logpdf ignoring %r at %r: %r, expected %r', ex, list(xr[i]), g, want[i])
    g = np.asarray(d.delta_logpdf(list(xr[0]), exclude=tuple(ex)), float).reshape(-1)
    w0 = float(gd.ref_mvn_logpdf(cr, cr, kr))
    expect(g.size == 1 and abs(g[0] - (want[0] - w0)) < 2e-7 * (1 + abs(want[0])), 'delta_logpdf ignoring %r: %r expected %r', ex, g, want[0] - w0)
    r = d.reduce_dimension(exclude=tuple(ex))
    expect(np.all(np.abs(np.ravel(r.central_value) - cr) <= 1e-12 * np.abs(cr)), 'reduced central value %r', r.central_value)
    if len(keep) == 1:
        expect(type(r).__name__ == 'NormalDistribution', 'reduction to one dimension gives %r', r)
        expect(abs(r.standard_deviation / sd[keep[0]] - 1) < 1e-9, 'reduced standard deviation %r', r.standard_deviation)
    else:
        expect(np.all(np.abs(r.covariance - kr) <= 1e-9 * np.outer(sd[keep], sd[keep])), 'reduced covariance %r', r.covariance)
    expect(len(d.central_value) == n and np.asarray(d.covariance).shape == (n, n), 'distribution changed by ignoring components')


@st.composite
def case_bad(draw):
    n = draw(st.integers(2, 4))
    rho = draw(gd.fl(1.05, 3.0)) * draw(st.sampled_from([1, -1]))
    i = draw(st.integers(0, n - 2))
    sd = [draw(gd.magnitude(-6, 3)) for _ in range(n)]
    return {'n': n, 'rho': rho, 'i': i, 'sd': sd, 'form': draw(st.sampled_from(['cov', 'corr', 'none']))}


def check_bad(c, ctx):
    """a covariance that is not positive definite, or is missing, is refused"""
    import flavio.statistics.probability as p
    n = c['n']
    corr = np.eye(n)
    corr[c['i'], c['i'] + 1] = corr[c['i'] + 1, c['i']] = c['rho']
    sd = np.array(c['sd'])
    kw = {'cov': dict(covariance=np.outer(sd, sd) * corr), 'corr': dict(standard_deviation=sd, correlation=corr), 'none': {}}[c['form']]
    try:
        p.MultivariateNormalDistribution([0.0] * n, **kw)
    except (AssertionError, ValueError):
        return
    fail('accepted a covariance that is not positive definite: %r', kw)


@st.composite
def case_num(draw):
    s = draw(gd.mvnum_spec())
    n = len(s['xi'])
    ex = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n - 1))
    pts = draw(st.lists(st.lists(gd.fl(-0.2, 1.2), min_size=n, max_size=n), min_size=1, max_size=4))
    return dict(s, exclude=ex, pts=pts)


def interp_log(grid, logy, x):
    """multilinear interpolation of logy at x, -inf outside"""
    idx, w = [], []
    for g, v in zip(grid, x):
        if v < g[0] or v > g[-1]:
            return -math.inf
        k = min(int(np.searchsorted(g, v, side='right')) - 1, len(g) - 2)
        idx.append(k)
        w.append((v - g[k]) / (g[k + 1] - g[k]))
    tot = 0.0
    for corner in range(2**len(x)):
        f = 1.0
        pos = []
        for i in range(len(x)):
            b = (corner >> i) & 1
            f *= w[i] if b else 1 - w[i]
            pos.append(idx[i] + b)
        if f:
            tot += f * logy[tuple(pos)]
    return tot


def check_num(c, ctx):
    d = gd.make_mvnum(c)
    grid = gd.mvnum_grid(c)
    y = np.array(c['y']).reshape(c['shape'])
    vol = np.prod([g[1] - g[0] for g in grid])
    norm = y / y.sum() / vol
    if np.all(y == y.flat[0]):
        ctx.trivial()
    ctx.label('dim%d' % len(grid), 'exclude%d' % len(c['exclude']))
    # nodes
    mesh = np.array(np.meshgrid(*grid, indexing='ij')).reshape(len(grid), -1).T
    span = np.array([g[-1] - g[0] for g in grid])
    ctr = np.array([(g[-1] + g[0]) / 2 for g in grid])
    inside = ctr + (mesh - ctr) * (1 - 1e-12)       # not outside by rounding
    got = np.asarray(d.logpdf(inside), float)
    expect(got.shape == (len(mesh),), 'logpdf of %d points has shape %r', len(mesh), got.shape)
    flat = norm.flatten()
    for x, g, w in zip(mesh, got, flat):
        if w > 0:
            # a neighbouring zero pulls the interpolated logarithm down steeply: skip those nodes
            if np.all(norm > 0):
                expect(abs(g - math.log(w)) < 1e-6 * (1 + abs(math.log(w))), 'logpdf at the node %r is %r, expected %r', x, g, math.log(w))
        else:
            expect(g < -1e10, 'logpdf at the node %r with zero density is %r', x, g)
    cv = np.asarray(d.central_value, float)
    if 'central_index' in c:
        want = np.array([g[i] for g, i in zip(grid, c['central_index'])])
    else:
        i = np.unravel_index(np.argmax(y), y.shape)
        want = np.array([g[k] for g, k in zip(grid, i)])
    expect(np.all(np.abs(cv - want) <= 1e-9 * span), 'central value %r expected %r', cv, want)
    sup = np.asarray(d.support, float)
    expect(sup.shape == (2, len(grid)), 'support %r is not a lower and an upper corner', d.support)
    expect(np.all(np.abs(sup[0] - [g[0] for g in grid]) <= 1e-9 * span) and np.all(np.abs(sup[1] - [g[-1] for g in grid]) <= 1e-9 * span),
           'support %r', d.support)
    with np.errstate(divide='ignore'):
        logy = np.log(norm)
    logy[np.isneginf(logy)] = -1e100
    pts = ctr + (np.array(c['pts']) - 0.5) * span
    for x in pts:
        w = interp_log(grid, logy, x)
        g = d.logpdf(list(x))
        expect(np.ndim(g) == 0, 'logpdf of a single point has shape %r', np.shape(g))
        expect(g == w or abs(g - w) < 1e-6 * (1 + abs(w)), 'logpdf(%r)=%r expected %r', x, g, w)
    ex = c['exclude']
    if not ex:
        return
    keep = [i for i in range(len(grid)) if i not in ex]
    prof = np.max(norm, axis=tuple(ex))
    r = d.reduce_dimension(exclude=tuple(ex))
    expect(np.all(np.abs(np.ravel(r.central_value) - cv[keep]) <= 1e-9 * span[keep]), 'reduced central value %r', r.central_value)
    if np.all(prof > 0):
        # profiled: the difference of log-densities between two points is that of the profile
        a = [grid[i][len(grid[i]) // 2] for i in keep]
        ia = tuple(len(grid[i]) // 2 for i in keep)
        b = [grid[i][1] for i in keep]
        ib = tuple(1 for i in keep)
        ga = float(np.ravel(d.logpdf(a, exclude=tuple(ex)))[0])
        gb = float(np.ravel(d.logpdf(b, exclude=tuple(ex)))[0])
        want = math.log(prof[ia] / prof[ib])
        expect(abs(ga - gb - want) < 1e-6 * (1 + abs(want)), 'profiled log-density difference %r expected %r', ga - gb, want)


@st.composite
def case_uneven(draw):
    m = draw(st.integers(4, 7))
    k = draw(st.integers(0, m - 2))
    f = draw(gd.fl(1.01, 3))
    return {'m': m, 'k': k, 'f': f}


def check_uneven(c, ctx):
    import flavio.statistics.probability as p
    st_ = np.ones(c['m'] - 1)
    st_[c['k']] *= c['f']
    x = np.concatenate([[0], np.cumsum(st_)])
    try:
        p.MultivariateNumericalDistribution([list(x), [0.0, 1.0, 2.0]], np.ones((c['m'], 3)))
    except ValueError:
        return
    fail('unevenly spaced grid accepted: %r', x)


def build():
    return [
        Sub('normal', case_mvn(), check_mvn, quick=2400, thorough=40000, shards=8),
        Sub('indefinite', case_bad(), check_bad, quick=200, thorough=2000, shards=1),
        Sub('tabulated', case_num(), check_num, quick=500, thorough=8000, shards=6),
        Sub('uneven', case_uneven(), check_uneven, quick=60, thorough=500, shards=1),
    ]
