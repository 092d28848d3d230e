"""Random numbers follow the distribution they are drawn from."""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a distribution (or a set of constraints on parameters) plus a seed for numpy\'s generator; N numbers '
        'are drawn and compared with the distribution by a Kolmogorov-Smirnov or moment test at a 1e-8 level. '
        'Non-trivial: a non-degenerate distribution; distinct by parameters and seed.')
ASSUMPTIONS = ['the generator seeded with numpy.random.seed is a good source of randomness',
               'deviations smaller than about 3.2/sqrt(N) in the CDF are not seen (N = 1500 to 3000)']
LEVEL_NOTE = 'Generated-input search; statistical comparison at a fixed seed, so a run is deterministic.'

N = 1500
KS = 3.3      # P(D > KS/sqrt(N)) ~ 7e-10


def ks_one(r, cdf, what):
    r = np.sort(np.asarray(r, float))
    n = len(r)
    F = np.asarray(cdf(r), float)
    D = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    expect(D < KS / math.sqrt(n), '%s: empirical distribution of %d numbers differs from the CDF by %.3g', what, n, D)


@st.composite
def case_uni(draw):
    sp = draw(gd.spec(gd.ANALYTIC + gd.NUMERIC + gd.DISCRETE))
    return dict(sp, seed=draw(st.integers(0, 2**31)), m=draw(st.integers(1, 5)))


def ref_cdf(c, d):
    if c['dist'] in gd.NUMERIC:
        lo, hi = map(float, d.support)
        return lambda x: d.cdf(np.clip(x, lo, hi))
    return gd.Ref(c).cdf


def check_uni(c, ctx):
    d = gd.make(c)
    ctx.label(c['dist'])
    np.random.seed(c['seed'] % 2**32)
    r1 = [d.get_random() for _ in range(3)]
    for r in r1:
        expect(np.ndim(r) == 0, 'get_random() returned %r instead of a number', r)
        expect(math.isfinite(float(r)), 'get_random() returned %r', r)
    rm = d.get_random(size=c['m'])
    expect(np.shape(rm) == (c['m'],), 'get_random(size=%d) has shape %r', c['m'], np.shape(rm))
    n = N
    r = np.asarray(d.get_random(size=n), float)
    expect(r.shape == (n,), 'get_random(size=%d) has shape %r', n, r.shape)
    if c['dist'] == 'delta':
        expect(np.all(r == c['args']['central_value']) and all(float(x) == c['args']['central_value'] for x in r1), 'delta distribution gives other values')
        ctx.trivial()
        return
    if c['dist'] == 'discrete_uniform':
        lo, hi = c['args']['lowest_value'], c['args']['highest_value']
        ks = np.arange(lo, hi + 1)
        cnt = np.array([np.sum(r == k) for k in ks])
        expect(cnt.sum() == n, 'values outside [%d, %d]', lo, hi)
        p = 1.0 / len(ks)
        sd = math.sqrt(n * p * (1 - p)) if len(ks) > 1 else 0
        expect(np.all(np.abs(cnt - n * p) <= 6.5 * sd + 1e-9), 'counts %r, expected %r each', cnt, n * p)
        return
    # domain
    if c['dist'] in gd.NUMERIC:
        lo, hi = map(float, d.support)
    else:
        lo, hi = gd.Ref(c).domain
    eps = 1e-9 * gd.scale_of(c)
    expect(np.all(r >= lo - eps) and np.all(r <= hi + eps), 'values outside the domain [%r, %r]: %r .. %r', lo, hi, r.min(), r.max())
    cdf = ref_cdf(c, d)
    ks_one(r, cdf, c['dist'])
    # single draws are drawn from the same distribution
    if c['dist'] in ('asymmetric_normal', 'gamma_positive', 'gamma', 'gamma_counting_process', 'uniform', 'half_normal') and c['m'] == 1:
        ks_one([float(d.get_random()) for _ in range(300)], cdf, c['dist'] + ' single draws')
        ctx.label('single')


@st.composite
def case_mvn(draw):
    return dict(draw(gd.mvn_spec()), seed=draw(st.integers(0, 2**31)))


def check_gauss(r, cv, cov, what):
    sd = np.sqrt(np.diag(cov))
    u = (r - cv) / sd
    L = np.linalg.cholesky(cov / np.outer(sd, sd))
    z = np.linalg.solve(L, u.T)
    n = z.shape[1]
    for i in range(z.shape[0]):
        ks_one(z[i], scipy.stats.norm.cdf, '%s whitened component %d' % (what, i))
        for j in range(i):
            cc = float(np.mean(z[i] * z[j]))
            expect(abs(cc) < 6.5 / math.sqrt(n), '%s components %d and %d have residual correlation %.3g', what, i, j, cc)


def check_mvn(c, ctx):
    d = gd.make_mvn(c)
    ctx.label(c['form'], 'dim%d' % c['n'])
    np.random.seed(c['seed'] % 2**32)
    r0 = d.get_random()
    expect(np.shape(r0) == (c['n'],), 'get_random() has shape %r', np.shape(r0))
    r = np.asarray(d.get_random(size=N))
    expect(r.shape == (N, c['n']), 'get_random(size) has shape %r', r.shape)
    check_gauss(r, np.array(c['cv']), gd.cov_of(c), 'multivariate normal')


@st.composite
def case_mvnum(draw):
    return dict(draw(gd.mvnum_spec()), seed=draw(st.integers(0, 2**31)))


def check_mvnum(c, ctx):
    """documented: piecewise constant in hypercubes around the lattice points"""
    d = gd.make_mvnum(c)
    np.random.seed(c['seed'] % 2**32)
    n = 1500
    r0 = d.get_random()
    expect(np.shape(r0) == (len(c['xi']),), 'get_random() has shape %r', np.shape(r0))
    r = np.asarray(d.get_random(size=n))
    expect(r.shape == (n, len(c['xi'])), 'get_random(size) has shape %r', r.shape)
    grid = gd.mvnum_grid(c)
    y = np.array(c['y']).reshape(c['shape'])
    p = y / y.sum()
    idx = []
    for k, g in enumerate(grid):
        h = g[1] - g[0]
        i = np.floor((r[:, k] - g[0]) / h + 0.5).astype(int)
        expect(np.all(i >= 0) and np.all(i < len(g)), 'dimension %d: value outside the cells of the grid', k)
        # uniform within the cell
        ks_one((r[:, k] - g[i]) / h, lambda t: np.clip(t + 0.5, 0, 1), 'position within a cell')
        idx.append(i)
    cnt = np.zeros(c['shape'])
    np.add.at(cnt, tuple(idx), 1)
    dev = np.abs(cnt - n * p)
    bad = dev > 6.5 * np.sqrt(n * p * (1 - p)) + 4 * (p > 0)
    expect(not np.any(bad), 'cell counts %r, expected %r', cnt[bad], (n * p)[bad])
    ctx.label('dim%d' % len(grid))


@st.composite
def case_con(draw):
    blocks = draw(st.lists(st.one_of(
        gd.spec(['normal', 'uniform', 'log_normal', 'asymmetric_normal', 'half_normal', 'delta', 'gamma_positive', 'gamma_upper_limit', 'gaussian_upper_limit', 'numerical', 'discrete_uniform']),
        gd.mvn_spec(2, 3).map(lambda s: dict(s, dist='mvn'))), min_size=2, max_size=5))
    return {'blocks': blocks, 'seed': draw(st.integers(0, 2**31)),
            'cls': draw(st.sampled_from(['ParameterConstraints', 'Measurement', 'WilsonCoefficientPriors']))}


def check_con(c, ctx):
    from flavio import classes
    ctx.label(c['cls'])
    if c['cls'] == 'Measurement':
        con = classes.Measurement('verif tmp')
        classes.Measurement.del_instance('verif tmp')
    else:
        con = getattr(classes, c['cls'])()
    names = []
    dists = []
    for b, sp in enumerate(c['blocks']):
        if sp['dist'] == 'mvn':
            nm = ['b%d_%d' % (b, i) for i in range(sp['n'])]
            d = gd.make_mvn(sp)
        else:
            nm = ['b%d' % b]
            d = gd.make(sp)
        con.add_constraint(nm, d)
        names.append(nm)
        dists.append(d)
    np.random.seed(c['seed'] % 2**32)
    r0 = con.get_random_all()
    allp = [n for nm in names for n in nm]
    expect(sorted(r0) == sorted(allp), 'parameters drawn %r, expected %r', sorted(r0), sorted(allp))
    for k, v in r0.items():
        expect(np.ndim(v) == 0 and math.isfinite(float(v)), 'single draw of %s is %r', k, v)
    n = N
    r = con.get_random_all(size=n)
    expect(sorted(r) == sorted(allp), 'parameters drawn %r, expected %r', sorted(r), sorted(allp))
    for k, v in r.items():
        expect(np.shape(v) == (n,), 'array of %s has shape %r', k, np.shape(v))
    for sp, nm, d in zip(c['blocks'], names, dists):
        if sp['dist'] == 'mvn':
            check_gauss(np.array([r[k] for k in nm]).T, np.array(sp['cv']), gd.cov_of(sp), 'constraints')
        elif sp['dist'] == 'delta':
            expect(np.all(r[nm[0]] == sp['args']['central_value']), 'delta parameter varies')
        elif sp['dist'] != 'discrete_uniform':
            ks_one(r[nm[0]], ref_cdf(sp, d), 'parameter ' + nm[0])
    # independent blocks are uncorrelated
    x = [scipy.stats.rankdata(r[nm[0]]) for nm, sp in zip(names, c['blocks']) if sp['dist'] not in ('delta', 'discrete_uniform')]
    for i in range(len(x)):
        for j in range(i):
            rho = np.corrcoef(x[i], x[j])[0, 1]
            expect(abs(rho) < 6.5 / math.sqrt(n), 'independent parameters have rank correlation %.3g', rho)
    # errors estimated from random numbers
    e = con.get_1d_errors_random(N=120)
    expect(sorted(e) == sorted(allp), 'errors for %r', sorted(e))
    for sp, nm in zip(c['blocks'], names):
        if sp['dist'] == 'mvn':
            for k, s in zip(nm, sp['sd']):
                expect(0.5 < e[k] / s < 1.6, 'standard deviation of %s estimated as %r, expected %r', k, e[k], s)
        elif sp['dist'] == 'normal':
            s = sp['args']['standard_deviation']
            expect(0.5 < e[nm[0]] / s < 1.6, 'standard deviation of %s estimated as %r, expected %r', nm[0], e[nm[0]], s)


def build():
    return [
        Sub('univariate', case_uni(), check_uni, quick=1000, thorough=15000, shards=8),
        Sub('multinormal', case_mvn(), check_mvn, quick=300, thorough=5000, shards=4),
        Sub('multinumerical', case_mvnum(), check_mvnum, quick=240, thorough=2000, shards=8),
        Sub('constraints', case_con(), check_con, quick=240, thorough=3000, shards=8),
    ]
