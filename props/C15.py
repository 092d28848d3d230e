"""Statistical conversions and numerical helpers."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, expect_close, fail, Skip
import gen_dist as gd
from flavio.statistics import functions as sf
from flavio.math import functions as mf
from flavio.math import integrate as mi
from flavio.math import optimize as mo
import mpmath

RULE = ('A case is a number of sigmas / chi^2 / degrees of freedom, an argument of a special function, an integrand with end points, or an '
        'optimisation problem with start point and arguments. Non-trivial: not at an argument where the result is 0 or 1 and, for '
        'optimisation, a start point away from the optimum; distinct by these numbers.')
ASSUMPTIONS = ['mpmath evaluates erf, incomplete gamma, zeta, polylog and Ei correctly',
               'integrals: polynomials times exponentials with their analytic primitive (mpmath quadrature of the same function)']
LEVEL_NOTE = 'Differential testing against arbitrary-precision evaluation and against analytic optima.'


# ------------------------------------------------------------------ statistics
def check_stat(case, ctx):
    n, dof = case['n'], case['dof']
    mp = mpmath.mp
    mp.dps = 60
    N = mpmath.mpf(n)
    two_sided = mpmath.erfc(N / mpmath.sqrt(2))            # p-value of n sigma
    cl = sf.confidence_level(n)
    expect_close(float(cl), float(1 - two_sided), 'confidence_level(%r)' % n, rtol=1e-12, atol=2e-16)
    # delta chi2 from its definition: Q(dof/2, x/2) = two_sided
    x = float(sf.delta_chi2(n, dof))
    q = mpmath.gammainc(mpmath.mpf(dof) / 2, mpmath.mpf(x) / 2, mpmath.inf, regularized=True)
    if n > 1e-3:
        expect(abs(q / two_sided - 1) < 1e-6 * max(1, n**2), 'delta_chi2(%r, %r) = %r has p-value %s instead of %s',
               n, dof, x, mpmath.nstr(q, 8), mpmath.nstr(two_sided, 8))
    back = float(sf.pull(x, dof))
    expect_close(back, n, 'pull(delta_chi2(%r, %d), %d)' % (n, dof, dof), rtol=1e-7, atol=1e-6)
    # pull from its definition
    y = case['chi2']
    qy = mpmath.gammainc(mpmath.mpf(dof) / 2, mpmath.mpf(y) / 2, mpmath.inf, regularized=True)
    pv = float(sf.pvalue(y, dof))
    expect_close(pv, float(qy), 'pvalue(%r, %d)' % (y, dof), rtol=1e-7, atol=1e-300)
    p = float(sf.pull(y, dof))
    e = float(mpmath.erfc(mpmath.mpf(p) / mpmath.sqrt(2)))
    if qy < 0.999999:
        expect_close(math.log(e), float(mpmath.log(qy)), 'log p-value of pull(%r, %d) = %r' % (y, dof, p), rtol=1e-7, atol=1e-7)
    expect(p >= 0, 'pull(%r, %d) = %r is negative', y, dof, p)
    # more degrees of freedom: larger delta chi2 and smaller pull
    if dof < 20 and n > 1e-3:
        expect(sf.delta_chi2(n, dof + 1) > x, 'delta_chi2 does not grow with the degrees of freedom at %r, %r', n, dof)
        if qy < 0.999:
            expect(sf.pull(y, dof + 1) <= p + 1e-12, 'pull grows with the degrees of freedom at %r, %r', y, dof)
    ctx.label('dof%d' % min(dof, 6), 'nsigma>8' if n > 8 else 'nsigma<=8')
    if n < 1e-3:
        ctx.trivial()


stat_case = st.fixed_dictionaries({
    'n': st.one_of(gd.fl(0, 6), gd.fl(0, 25), st.sampled_from([0, 1, 2, 3, 4, 5, 0.5])),
    'dof': st.one_of(st.integers(1, 6), st.integers(1, 200)),
    'chi2': st.one_of(gd.fl(0, 30), gd.fl(-7, 6.4).map(lambda v: gd.sig(math.exp(v))))})


# ------------------------------------------------------------------ special functions
def check_special(case, ctx):
    mpmath.mp.dps = 40
    k, x, y = case['f'], case['x'], case['y']
    if k == 'zeta':
        x = 1.0 + abs(x) + 1e-3
        expect_close(float(mf.zeta(x)), float(mpmath.zeta(x)), 'zeta(%r)' % x, rtol=1e-11)
    elif k == 'li2real':
        x = 1 - abs(x)
        expect_close(float(mf.li2(x)), float(mpmath.polylog(2, x).real), 'li2(%r)' % x, rtol=1e-11, atol=1e-13)
    elif k == 'li2complex':
        if abs(y) < 1e-6:
            raise Skip()
        z = complex(x, y)
        r = complex(mpmath.polylog(2, mpmath.mpc(z)))
        g = complex(mf.li2(z))
        expect(abs(g - r) <= 1e-10 * (1e-3 + abs(r)), 'li2(%r): got %r, expected %r', z, g, r)
    elif k == 'ei':
        if abs(x) < 1e-8:
            raise Skip()
        expect_close(float(mf.ei(x)), float(mpmath.ei(x)), 'ei(%r)' % x, rtol=1e-10, atol=1e-12)
    else:
        s = abs(y) + 1e-3
        mu = case['z']
        xs = [x, x * 0.5, mu, mu + 3 * s]
        ref = [float(-(mpmath.mpf(v) - mu)**2 / (2 * mpmath.mpf(s)**2) - mpmath.log(mpmath.sqrt(2 * mpmath.pi) * s)) for v in xs]
        for form in ('float', 'array', 'list'):
            if form == 'float':
                lg = [float(mf.normal_logpdf(float(v), mu, s)) for v in xs]
                pd = [float(mf.normal_pdf(float(v), mu, s)) for v in xs]
            else:
                arg = np.array(xs) if form == 'array' else list(xs)
                lg = list(mf.normal_logpdf(arg, mu, s))
                pd = list(mf.normal_pdf(arg, mu, s))
            for v, a, b, r in zip(xs, lg, pd, ref):
                expect_close(a, r, 'normal_logpdf(%r, %r, %r) for a %s' % (v, mu, s, form), rtol=1e-10, atol=1e-12)
                expect_close(b, math.exp(r) if r > -700 else 0., 'normal_pdf(%r, %r, %r) for a %s' % (v, mu, s, form),
                             rtol=1e-9 + 1e-13 * abs(r), atol=1e-290)
    ctx.label(k)


special_case = st.fixed_dictionaries({
    'f': st.sampled_from(['zeta', 'li2real', 'li2complex', 'ei', 'normal', 'normal']),
    'x': st.one_of(gd.fl(-4, 4), gd.fl(-40, 40)), 'y': st.one_of(gd.fl(-4, 4), gd.fl(-30, 30)), 'z': gd.fl(-10, 10)})


# ------------------------------------------------------------------ integration
def integrand(c):
    co, k, w = c['coef'], c['k'], c['w']

    def f(x):
        return sum(a * x**i for i, a in enumerate(co)) * np.exp(k * x) + c['osc'] * np.sin(w * x)
    return f


def primitive(c, a, b):
    mpmath.mp.dps = 30
    co, k, w = c['coef'], mpmath.mpf(c['k']), c['w']
    tot = mpmath.mpf(0)
    for i, q in enumerate(co):
        if k == 0:
            tot += q * (mpmath.mpf(b)**(i + 1) - mpmath.mpf(a)**(i + 1)) / (i + 1)
        else:
            def P(x):
                x = mpmath.mpf(x)
                return mpmath.exp(k * x) * sum((-1)**(i - j) * mpmath.factorial(i) / mpmath.factorial(j) * x**j / k**(i - j + 1)
                                               for j in range(i + 1))
            tot += q * (P(b) - P(a))
    if c['osc'] and w:
        tot += c['osc'] * (mpmath.cos(mpmath.mpf(w) * a) - mpmath.cos(mpmath.mpf(w) * b)) / w
    return float(tot)


def check_int(case, ctx):
    a, b = case['a'], case['b']
    if abs(a - b) < 1e-3:
        raise Skip()
    c, d = case['f'], case['g']
    f, g = integrand(c), integrand(d)
    rf, rg = primitive(c, a, b), primitive(d, a, b)
    xs = np.linspace(a, b, 201)
    scale = float(np.max(np.abs([f(x) for x in xs]))) * abs(b - a)
    scale_g = float(np.max(np.abs([g(x) for x in xs]))) * abs(b - a)
    if scale == 0 or scale_g == 0:
        raise Skip()
    k = case['how']
    tol = 0.006
    if k == 'nintegrate':
        eps = case['eps']
        I = mi.nintegrate(f, a, b, epsrel=eps) if eps else mi.nintegrate(f, a, b)
        expect_close(I, rf, 'nintegrate of %r from %r to %r' % (c, a, b), rtol=(eps or 0.005) * 1.1, atol=1e-7 * scale)
        J = mi.nintegrate(f, b, a)
        expect_close(J, -rf, 'nintegrate with exchanged end points', rtol=0.006, atol=1e-7 * scale)
        if eps:
            m = a + case['m'] * (b - a)
            s = mi.nintegrate(f, a, m, epsrel=eps) + mi.nintegrate(f, m, b, epsrel=eps)
            expect(abs(s - I) <= 1.2 * eps * scale * 2, 'nintegrate is not additive')
    elif k == 'complex':
        def h(x):
            return f(x) + 1j * g(x)
        I = mi.nintegrate_complex(h, a, b)
        expect_close(I.real, rf, 'real part of nintegrate_complex', rtol=tol, atol=1e-7 * scale)
        expect_close(I.imag, rg, 'imaginary part of nintegrate_complex', rtol=tol, atol=1e-7 * scale_g)
    elif k == 'quadrature':
        I = mi.nintegrate_quadrature(f, a, b)
        expect_close(I, rf, 'nintegrate_quadrature', rtol=0.03, atol=3e-3 * scale)
        ctx.label('quad')
    else:
        # cubic interpolation on N points integrated with 4N points: exact for cubics up to the trapezoidal error
        N = case['N']
        co = c['coef'][:4]
        p = {'coef': co, 'k': 0., 'w': 1., 'osc': 0.}
        fp = integrand(p)
        I = mi.nintegrate_fast(fp, a, b, N=N) if case['setN'] else mi.nintegrate_fast(fp, a, b)
        Neff = N if case['setN'] else 5
        d2 = max(abs(sum(i * (i - 1) * q * x**(i - 2) for i, q in enumerate(co) if i > 1)) for x in xs) if len(co) > 2 else 0.
        bound = abs(b - a)**3 / 12 / (4 * Neff - 1)**2 * d2
        sc = max(abs(fp(x)) for x in xs) * abs(b - a)
        expect(abs(I - primitive(p, a, b)) <= bound * 1.01 + 1e-9 * sc, 'nintegrate_fast of %r from %r to %r with N=%r: %r instead of %r',
               co, a, b, Neff, I, primitive(p, a, b))
    ctx.label(k)


fn = st.fixed_dictionaries({'coef': st.lists(gd.fl(-3, 3), min_size=1, max_size=5), 'k': st.one_of(st.just(0.), gd.fl(-1.5, 1.5).filter(lambda x: abs(x) > 0.05)),
                            'w': gd.fl(0.2, 3), 'osc': st.one_of(st.just(0.), gd.fl(-2, 2))})
int_case = st.fixed_dictionaries({'how': st.sampled_from(['nintegrate', 'nintegrate', 'complex', 'quadrature', 'fast', 'fast']),
                                  'a': gd.fl(-4, 4), 'b': gd.fl(-4, 4), 'f': fn, 'g': fn, 'm': gd.fl(0.1, 0.9),
                                  'eps': st.sampled_from([None, 1e-2, 1e-5, 1e-8]), 'N': st.integers(4, 12), 'setN': st.booleans()})


# ------------------------------------------------------------------ optimisation
def check_opt(case, ctx):
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    A = rng.randn(n, n)
    H = A @ A.T + case['ridge'] * np.eye(n)
    x0 = np.array(case['x0'][:n])
    xm = np.array(case['xm'][:n])
    off = case['off']
    calls = []

    def f(x, *args):
        calls.append(len(args))
        c, s = args if args else (xm, 1.)
        d = np.asarray(x) - c
        return s * d @ H @ d + off
    s = case['s']
    args = (xm, s)
    start = list(x0) if case['aslist'] else x0.copy()
    keep = list(start)
    how = case['how']
    kw = {}
    if case['method'] and how != 'migrad':
        kw['methods'] = (case['method'],)
    if how == 'min':
        r = mo.minimize_robust(f, start, args=args, **kw)
    elif how == 'max':
        def g(x, c, s):
            return -f(x, c, s)
        r = mo.maximize_robust(g, start, args=args, **kw)
    else:
        r = mo.minimize_migrad(f, start, args=args)
    expect(list(start) == keep, 'the start point was modified: %r -> %r', keep, list(start))
    if not r.success:
        if case['method'] in ('BFGS',):
            # may stop for precision reasons
            ctx.label('no convergence')
        else:
            fail('%s with %r did not converge for a convex quadratic function', how, kw)
    expect(all(k == 2 for k in calls), 'additional arguments were not passed to the function')
    val = f(r.x, xm, s)
    sign = -1 if how == 'max' else 1
    expect_close(float(r.fun), sign * val, 'value at the returned optimum', rtol=1e-9, atol=1e-12)
    start_val = f(x0, xm, s)
    if r.success:
        expect(val - off <= 1e-4 * (1 + abs(off)) + 1e-3 * abs(start_val - off), 'the optimum found is %r (start %r), the true one %r',
               val, start_val, off)
    expect(val <= start_val + 1e-12 * abs(start_val), 'the optimum is worse than the start')
    ctx.label(how, case['method'] or 'default')
    if np.allclose(x0, xm):
        ctx.trivial()


opt_case = st.fixed_dictionaries({
    'how': st.sampled_from(['min', 'max', 'migrad']), 'n': st.integers(1, 4), 'seed': st.integers(0, 10**6),
    'ridge': gd.fl(0.5, 2.), 'x0': st.lists(gd.fl(-3, 3), min_size=4, max_size=4), 'xm': st.lists(gd.fl(-3, 3), min_size=4, max_size=4),
    'off': st.one_of(st.just(0.), gd.fl(-5, 5)), 's': gd.fl(0.3, 3), 'aslist': st.booleans(),
    'method': st.sampled_from([None, None, 'SLSQP', 'BFGS', 'Nelder-Mead', 'MIGRAD'])})


def check_restart(case, ctx):
    """with the number of iterations per try limited, later tries continue where earlier ones stopped"""
    a, b = case['a'], case['b']
    trace = []

    def f(x):
        trace.append((float(x[0]), float(x[1])))
        return (a - x[0])**2 + b * (x[1] - x[0]**2)**2
    x0 = np.array(case['x0'])
    m = case['method']
    it = case['maxiter']
    one = mo.minimize_robust(f, x0, methods=(m,), tries=1, maxiter=it)
    many = mo.minimize_robust(f, x0, methods=(m,), tries=60, maxiter=it)
    if one.success:
        ctx.trivial()
        return
    ctx.label(m, 'converged' if many.success else 'not converged')
    f1, f2 = f(one.x), f(many.x)
    expect_close(float(many.fun), f2, 'fun of the result', rtol=1e-9, atol=1e-15)
    f0 = f(x0)
    expect(f2 <= f1 * (1 + 1e-9) + 1e-9, '60 tries (%r) are worse than one (%r)', f2, f1)
    if f1 < 0.9 * f0 and f1 > 1e-2:
        expect(f2 < f1, '60 tries of %d %s iterations starting at %r do not improve over the first one (%r)', it, m, list(x0), f1)


restart_case = st.fixed_dictionaries({
    'a': gd.fl(0.5, 1.5), 'b': gd.fl(1., 100.), 'x0': st.lists(gd.fl(-2, 2), min_size=2, max_size=2),
    'method': st.sampled_from(['SLSQP', 'BFGS']), 'maxiter': st.integers(3, 8)})


def build():
    return [Sub('statistics', stat_case, check_stat, 1500, 20000, 4),
            Sub('special', special_case, check_special, 1500, 20000, 4),
            Sub('integrate', int_case, check_int, 700, 8000, 8),
            Sub('optimize', opt_case, check_opt, 400, 4000, 8),
            Sub('restart', restart_case, check_restart, 120, 1500, 4)]
