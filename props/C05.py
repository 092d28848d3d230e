"""Combining distributions multiplies their densities."""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a list of 2 to 4 distributions of the same quantity with overlapping support (widths within a factor of 30), '
        'in random order. Non-trivial: at least two distributions that are not point-like; distinct by parameters.')
ASSUMPTIONS = ['results that are tabulated (1000 steps, 200 per dimension) are compared up to the resolution of the table: '
               'CDF within 1.5 percent, moments within 2 percent of the width']
LEVEL_NOTE = 'Generated-input search against the normalised product of reference densities and the exact Gaussian formulas.'


@st.composite
def near(draw, kinds, c0, s0, wide=30):
    """a distribution near location c0 with a width comparable to s0"""
    k = draw(st.sampled_from(kinds))
    s = gd.sig(s0 * 10**draw(gd.fl(-math.log10(wide) / 2, math.log10(wide) / 2)))
    c = gd.sig(c0 + s0 * draw(gd.fl(-0.8, 0.8)))
    if k == 'normal':
        a = dict(central_value=c, standard_deviation=s)
    elif k == 'uniform':
        a = dict(central_value=c, half_range=gd.sig(max(s * 2, 1.2 * abs(c - c0))))
    elif k == 'asymmetric_normal':
        a = dict(central_value=c, right_deviation=s, left_deviation=gd.sig(s * draw(gd.fl(0.3, 3))))
    elif k == 'half_normal':
        sg = draw(st.sampled_from([1, -1]))
        a = dict(central_value=gd.sig(c0 - sg * s0), standard_deviation=gd.sig(sg * max(s, s0)))
    elif k == 'numerical':
        g = draw(gd.grid_pdf(10, 40))
        x = np.array(g['x'])
        x = (x - x.mean()) / (x[-1] - x[0]) * 6 * s + c
        g['x'] = [float(v) for v in x]
        a = g
    elif k == 'gamma':
        a = dict(a=draw(gd.fl(2, 8)), loc=-gd.sig(abs(c0) + 3 * s0), scale=s0)
        # shift so that it covers c0: loc must be negative or zero
        if a['loc'] > 0:
            a['loc'] = 0.0
    return {'dist': k, 'args': a}


KINDS = ['normal', 'uniform', 'asymmetric_normal', 'half_normal', 'numerical', 'normal']


@st.composite
def case(draw):
    c0, s0 = draw(gd.loc_scale(relmax=10))
    n = draw(st.integers(2, 4))
    kinds = draw(st.sampled_from([KINDS, ['normal'], KINDS]))
    ds = [draw(near(kinds, c0, s0)) for _ in range(n)]
    perm = draw(st.permutations(list(range(n))))
    return {'dists': ds, 'perm': list(perm)}


def ref_pdf(sp):
    if sp['dist'] == 'numerical':
        x, y = np.array(sp['args']['x']), np.array(sp['args']['y'])
        y = y / np.trapz(y, x)
        return lambda t: np.interp(t, x, y, left=0, right=0), (x[0], x[-1])
    r = gd.Ref(sp)
    return r.pdf, None


def check(c, ctx):
    import flavio.statistics.probability as p
    ds = [gd.make(s) for s in c['dists']]
    kinds = [s['dist'] for s in c['dists']]
    ctx.label(*sorted(set(kinds)))
    comb = p.combine_distributions(list(ds))
    if all(k == 'normal' for k in kinds):
        cv = np.array([s['args']['central_value'] for s in c['dists']])
        sd = np.array([s['args']['standard_deviation'] for s in c['dists']])
        w = 1 / sd**2
        mu, sg = float(np.sum(w * cv) / w.sum()), float(1 / math.sqrt(w.sum()))
        ctx.label('gaussian')
        expect(type(comb).__name__ == 'NormalDistribution', 'combination of normals is %r', comb)
        expect(abs(comb.central_value - mu) < 1e-9 * max(abs(mu), sg, np.max(np.abs(cv))), 'weighted average %r expected %r', comb.central_value, mu)
        expect(abs(comb.standard_deviation / sg - 1) < 1e-9, 'uncertainty %r expected %r', comb.standard_deviation, sg)
        a, u = p.weighted_average(list(cv), list(sd))
        expect(abs(a - mu) < 1e-9 * max(abs(mu), sg, np.max(np.abs(cv))) and abs(u / sg - 1) < 1e-9, 'weighted_average %r expected %r', (a, u), (mu, sg))
        return
    sup = np.array([list(map(float, d.support)) for d in ds])
    lo, hi = sup[:, 0].max(), sup[:, 1].min()
    if hi <= lo:
        raise Skip()
    x = np.linspace(lo, hi, 40001)
    logf = np.zeros_like(x)
    for s in c['dists']:
        f, _ = ref_pdf(s)
        with np.errstate(divide='ignore'):
            logf = logf + np.log(np.asarray(f(x), float))
    f = np.exp(logf - logf.max())
    F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(x))])
    tot = F[-1]
    F = F / tot
    # effective width must be resolved by the 1000-step tables of the inputs
    q16, q84 = np.interp([0.16, 0.84], F, x)
    if (q84 - q16) < 60 * max((s[1] - s[0]) / 1000 for s in sup):
        raise Skip()
    pts = np.interp(np.linspace(0.02, 0.98, 13), F, x)
    got = np.asarray(comb.cdf(np.clip(pts, float(comb.support[0]), float(comb.support[1]))), float)
    want = np.interp(pts, x, F)
    expect(np.max(np.abs(got - want)) < 0.02, 'CDF of the combination %r expected %r at %r', got, want, pts)
    # density ratio to the product is constant where the product is large
    fp = np.interp(pts, x, f) / tot
    big = fp > 0.05 * fp.max()
    gp = np.exp(np.asarray(comb.logpdf(pts[big]), float))
    smooth = not any(k in ('uniform', 'half_normal', 'numerical') for k in kinds)
    expect(np.max(np.abs(gp / fp[big] - 1)) < (0.02 if smooth else 0.12), 'density of the combination %r expected %r', gp, fp[big])
    m = float(comb.central_value)
    fm = float(np.interp(m, x, f))
    expect(fm > (0.99 if smooth else 0.85), 'central value %r of the combination is not at the maximum of the product (%.3g of it)', m, fm)
    other = p.combine_distributions([ds[i] for i in c['perm']])
    g2 = np.asarray(other.cdf(np.clip(pts, float(other.support[0]), float(other.support[1]))), float)
    expect(np.max(np.abs(g2 - got)) < 1e-6, 'combination depends on the order: %r vs %r', g2, got)


@st.composite
def case_special(draw):
    c0, s0 = draw(gd.loc_scale(relmax=10))
    kind = draw(st.sampled_from(['delta', 'deltas', 'deltas_differ', 'disjoint', 'single']))
    others = [draw(near(KINDS, c0, s0)) for _ in range(draw(st.integers(1, 3)))]
    return {'kind': kind, 'c0': c0, 's0': s0, 'others': others, 'pos': draw(st.integers(0, 3))}


def check_special(c, ctx):
    import flavio.statistics.probability as p
    ctx.label(c['kind'])
    ds = [gd.make(s) for s in c['others']]
    if c['kind'] == 'single':
        r = p.combine_distributions(ds[:1])
        xs = np.linspace(float(ds[0].support[0]), float(ds[0].support[1]), 7)[1:-1]
        expect(r.central_value == ds[0].central_value and np.all(r.logpdf(xs) == ds[0].logpdf(xs)), 'a single distribution is changed')
    elif c['kind'] in ('delta', 'deltas'):
        n = 1 if c['kind'] == 'delta' else 2
        for _ in range(n):
            ds.insert(min(c['pos'], len(ds)), p.DeltaDistribution(c['c0']))
        r = p.combine_distributions(ds)
        expect(type(r).__name__ == 'DeltaDistribution' and r.central_value == c['c0'], 'combination with a point-like constraint gives %r', r)
    elif c['kind'] == 'deltas_differ':
        ds += [p.DeltaDistribution(c['c0']), p.DeltaDistribution(c['c0'] + c['s0'])]
        try:
            r = p.combine_distributions(ds)
        except ValueError:
            return
        fail('contradictory point-like constraints combined to %r', r)
    else:
        a = p.UniformDistribution(c['c0'], c['s0'])
        b = p.UniformDistribution(c['c0'] + 5 * c['s0'], c['s0'])
        try:
            r = p.combine_distributions([a, b])
        except ValueError:
            return
        fail('distributions without common support combined to %r', r)


@st.composite
def case_mvn(draw):
    n = draw(st.integers(2, 4))
    m = draw(st.integers(2, 3))
    base = draw(gd.mvn_spec(n, n))
    out = [base]
    for _ in range(m - 1):
        t = [10**draw(gd.fl(-0.7, 0.7)) for _ in range(n)]
        sh = [draw(gd.fl(-2, 2)) for _ in range(n)]
        out.append({'n': n, 'form': 'corr', 'sd': [gd.sig(s * f) for s, f in zip(base['sd'], t)],
                    'cv': [gd.sig(v + s * f) for v, s, f in zip(base['cv'], base['sd'], sh)],
                    'corr': draw(gd.corr_matrix(n))})
    return {'dists': out}


def check_mvn(c, ctx):
    import flavio.statistics.probability as p
    ds = [gd.make_mvn(s) for s in c['dists']]
    ctx.label('dim%d' % c['dists'][0]['n'], 'number%d' % len(ds))
    r = p.combine_distributions(list(ds))
    sd0 = np.array(c['dists'][0]['sd'])
    W, h = 0, 0
    for s in c['dists']:
        cv = np.array(s['cv']) / sd0
        iv = np.linalg.inv(gd.cov_of(s) / np.outer(sd0, sd0))
        W, h = W + iv, h + iv @ cv
    cov = np.linalg.inv(W)
    mu = cov @ h
    sg = np.sqrt(np.diag(cov))
    expect(np.all(np.abs(np.asarray(r.central_value) / sd0 - mu) < 1e-5 * sg + 1e-9 * np.abs(mu)), 'combined mean %r expected %r', r.central_value, mu * sd0)
    expect(np.all(np.abs(np.asarray(r.covariance) / np.outer(sd0, sd0) - cov) < 1e-5 * np.outer(sg, sg)), 'combined covariance %r expected %r', r.covariance, cov * np.outer(sd0, sd0))
    r2 = p.combine_distributions(ds[::-1])
    expect(np.all(np.abs(np.asarray(r2.covariance) / np.outer(sd0, sd0) - cov) < 1e-5 * np.outer(sg, sg)), 'order dependence')


@st.composite
def case_mvnum(draw):
    sd = [draw(gd.magnitude(-4, 3)) for _ in range(2)]
    cv = [gd.sig(s * draw(gd.fl(-5, 5))) for s in sd]
    rho = draw(gd.fl(-0.8, 0.8))
    tabs = []
    for _ in range(draw(st.integers(1, 2))):
        tabs.append({'n': draw(st.sampled_from([31, 41])), 'r': draw(gd.fl(-0.7, 0.7)), 'w': draw(gd.fl(0.7, 2.5)),
                     'sh': [draw(gd.fl(-1, 1)), draw(gd.fl(-1, 1))], 'cv': draw(st.booleans())})
    return {'sd': sd, 'cv': cv, 'rho': rho, 'tabs': tabs, 'gauss': draw(st.booleans()) or len(tabs) == 1}


def gauss_table(t, cv, sd):
    """a tabulated Gaussian: mean cv + sh*sd, widths w*sd, correlation r"""
    import flavio.statistics.probability as p
    m = cv + np.array(t['sh']) * sd
    s = t['w'] * sd
    xi = [np.linspace(m[i] - 4.5 * s[i], m[i] + 4.5 * s[i], t['n']) for i in range(2)]
    X = np.array(np.meshgrid(*xi, indexing='ij')).reshape(2, -1).T
    cov = np.outer(s, s) * np.array([[1, t['r']], [t['r'], 1]])
    y = np.exp(gd.ref_mvn_logpdf(X, m, cov)).reshape(t['n'], t['n'])
    y = y / y.max()
    d = p.MultivariateNumericalDistribution(xi, y, central_value=(list(m) if t['cv'] else None))
    return d, m, cov


def moments2d(d, sd):
    xi = [np.linspace(float(d.support[0][i]), float(d.support[1][i]), 241) for i in range(2)]
    X = np.array(np.meshgrid(*xi, indexing='ij')).reshape(2, -1).T
    c = (np.asarray(d.support[0]) + np.asarray(d.support[1])) / 2
    Xi = c + (X - c) * (1 - 1e-9)
    f = np.exp(np.asarray(d.logpdf(Xi), float))
    f = f / f.sum()
    u = X / sd
    m = f @ u
    cov = (u - m).T @ ((u - m) * f[:, None])
    return m, cov


def check_mvnum(c, ctx):
    import flavio.statistics.probability as p
    sd, cv = np.array(c['sd']), np.array(c['cv'])
    ds, W, h = [], 0, 0
    for t in c['tabs']:
        d, m, cov = gauss_table(t, cv, sd)
        ds.append(d)
        iv = np.linalg.inv(cov / np.outer(sd, sd))
        W, h = W + iv, h + iv @ (m / sd)
    if c['gauss']:
        cov = np.outer(sd, sd) * np.array([[1, c['rho']], [c['rho'], 1]])
        ds.append(p.MultivariateNormalDistribution(list(cv), covariance=cov))
        iv = np.linalg.inv(cov / np.outer(sd, sd))
        W, h = W + iv, h + iv @ (cv / sd)
    ctx.label('%dtables%s' % (len(c['tabs']), '+normal' if c['gauss'] else ''))
    if len(ds) < 2:
        raise Skip()
    r = p.combine_distributions(ds)
    cov = np.linalg.inv(W)
    mu = cov @ h
    m, k = moments2d(r, sd)
    sg = np.sqrt(np.diag(cov))
    expect(np.all(np.abs(m - mu) < 0.06 * sg), 'mean of the combination %r expected %r (width %r)', m, mu, sg)
    expect(np.all(np.abs(k - cov) < 0.08 * np.outer(sg, sg)), 'covariance of the combination %r expected %r', k, cov)


def build():
    return [
        Sub('univariate', case(), check, quick=600, thorough=10000, shards=8),
        Sub('special', case_special(), check_special, quick=300, thorough=3000, shards=2),
        Sub('multinormal', case_mvn(), check_mvn, quick=500, thorough=8000, shards=4),
        Sub('multinumerical', case_mvnum(), check_mvnum, quick=60, thorough=800, shards=8),
    ]
