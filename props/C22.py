"""C22: bins and totals are integrals of the differential distributions."""
import re
import numpy as np
import flavio
from flavio.classes import Observable
from hypothesis import strategies as st
import phys
from harness import Sub, Sweep, Skip, expect, fail

LEVEL_NOTE = ('every binned observable that has a differential counterpart and every total that has a binned or differential one is visited; parameter point, '
              'Wilson coefficients and bin are generated, the integral is recomputed with an independent quadrature.')
RULE = 'a case is non-trivial if the bin lies inside the phase space and the integral of the absolute value of the distribution is not zero'
ASSUMPTIONS = ['binned observables are computed with a relative accuracy of 0.5% as set in the code; agreement is required to 1%',
               'bins of normalised observables that overlap with the charmonium region (7 to 15 GeV^2), where the distributions have cusps and jumps, must agree to 5% only',
               'normalised inclusive observables are restricted to low q2 and B->gamma l l to q2 < 8.5 GeV^2']

XG, WG = np.polynomial.legendre.leggauss(6)
# weights of normalised angular observables
EXT = {'dBR/dq2': 'width', 'BR': 'int', 'BR_L': 'int', 'BR_T': 'int'}
SKIP = ('P1', 'P2', 'P3', 'ATIm', 'P4p', 'P5p', 'P6p', 'P8p')


def tables():
    ext, nrm, tot = [], [], []
    names = set(phys.names())
    for n in sorted(names):
        m = re.match(r'^<([^<>]*)>\((.*)\)$', n)
        if m and tuple(Observable[n].arguments or ()) == ('q2min', 'q2max'):
            X, p = m.groups()
            if X in EXT:
                d = X if X == 'dBR/dq2' else 'd' + X + '/dq2'
                d = '%s(%s)' % (d, p)
                if d in names:
                    ext.append((n, d, EXT[X]))
                t = 'BR(%s)' % p if X in ('dBR/dq2', 'BR') else '%s(%s)' % (X, p)
                if t in names and 'll' not in p.split('->')[1][-4:]:
                    tot.append((t, n, EXT[X]))
            elif X not in SKIP and not X.startswith(('R', 'D')):
                d, w = '%s(%s)' % (X, p), 'dBR/dq2(%s)' % p
                if d in names and w in names:
                    nrm.append((n, d, w))
    ang = []
    for n in sorted(names):
        m = re.match(r'^<BR>/<(cl|cV|phi)>\((.*)\)$', n)
        if m:
            ang.append((n, 'dBR/d%s(%s)' % m.groups(), 'BR(%s)' % m.group(2), m.group(1)))
    return ext, nrm, tot, ang


def breaks(name, lo, hi):
    """points at which the distributions are allowed to jump or have a kink"""
    p = [6.0, 14.0, 15.0, 8.0, 10.0, 1.0, 0.1]
    par = phys.central()
    if re.search(r'->(Xs|Xd)', name):
        p += [14.4, 4 * 1.5**2]
    if 'gamma' in name:
        p += list(np.linspace(lo, hi, 12))
        for m, w in ((1.0195, .00427), (.7827, .0087), (.775, .149)):      # light resonances
            p += [m**2 + k * m * w for k in (-30, -10, -4, -1.5, 0, 1.5, 4, 10, 30)]
    p += [4 * m**2 for m in (1.3, 1.4, 1.5, 1.6, 1.77686)]
    return sorted({x for x in p if lo < x < hi})


def quad(f, a, b, name, n=3, log=True):
    pts = [a] + breaks(name, a, b) + [b]
    s = 0
    sa = 0
    for x0, x1 in zip(pts, pts[1:]):
        if log and x1 > 3 * x0 > 0:
            k = max(1, int(np.ceil(np.log(x1 / x0) / 1.6)))
            e = np.geomspace(x0, x1, k + 1)
        else:
            e = np.linspace(x0, x1, n if x1 - x0 > 2 else 2)
        for y0, y1 in zip(e, e[1:]):
            h = (y1 - y0) / 2
            v = np.array([f((y0 + y1) / 2 + h * x) for x in XG])
            s += h * (WG @ v)
            sa += h * (WG @ np.abs(v))
    return s, sa


# the mass of the up- or charm-type final state can make the phase space differ between modes; bins are taken from the middle
def bin_of(c, name, par):
    lo, hi = phys.q2limits(name, par)
    if re.search(r'->(Xs|Xd)', name):
        hi = 8.0 if 'AFB' in name else 22.0      # at high q2, the asymmetry is normalised to the rate without QED corrections
    if 'gamma' in name:
        hi = 8.5                                # narrow charmonium resonances
    x, y = sorted(c['u'][:2])
    if y - x < 0.05:
        x, y = (x, x + 0.05) if x < 0.5 else (y - 0.05, y)
    lo_ = max(lo * 1.02, 0.02) if lo < 0.02 else lo
    a, b = lo_ + x * (hi - lo_) * 0.995, lo_ + y * (hi - lo_) * 0.995
    return a, b


def check_ext(c, ctx):
    n, d, kind = c['rel']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    a, b = bin_of(c, n, par)
    got = phys.ev(n, par, wc, (a, b))
    ref, sa = quad(lambda q: phys.ev(d, par, wc, (q,)), a, b, n)
    if kind == 'width':
        ref, sa = ref / (b - a), sa / (b - a)
    if sa == 0:
        ctx.trivial()
    expect(abs(got - ref) <= 0.01 * sa + 1e-300, '%s in [%.5g, %.5g] is %r, but the integral of %s is %r', n, a, b, got, d, ref)


def check_nrm(c, ctx):
    n, d, w = c['rel']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    a, b = bin_of(c, n, par)
    got = phys.ev(n, par, wc, (a, b))

    def f(q):
        x = phys.ev(w, par, wc, (q,))
        return np.array([x, x * phys.ev(d, par, wc, (q,))])
    s, sa = quad(f, a, b, n)
    if sa[1] == 0:
        ctx.trivial()
        expect(got == 0, '%s vanishes everywhere, but its binned value is %r', d, got)
        return
    tol = 0.05 if 'Xsll' in n or 'Xdll' in n or (b > 7 and a < 15) else 0.01      # charm threshold; ll: the electron and muon rates have different uncertainty factors
    expect(abs(got - s[1] / s[0]) <= tol * sa[1] / sa[0] + 3e-5, '%s in [%.5g, %.5g] is %r, but the average of %s is %r', n, a, b, got, d, s[1] / s[0])


def check_tot(c, ctx):
    t, n, kind = c['rel']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    lo, hi = phys.q2limits(n, par)
    m = lo + (hi - lo) * (0.1 + 0.8 * c['u'][0])
    parts = [phys.ev(n, par, wc, (x, y)) * (y - x if kind == 'width' else 1) for x, y in ((lo, m), (m, hi))]
    got = phys.ev(t, par, wc)
    if not any(parts):
        ctx.trivial()
    expect(abs(got - sum(parts)) <= 0.01 * sum(map(abs, parts)), '%s is %r, but its bins divided at q2=%.5g are %r', t, got, m, parts)


def check_ang(c, ctx):
    n, d, t, v = c['rel']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    lo, hi = {'cl': (-1, 1), 'cV': (-1, 1), 'phi': (0, 2 * np.pi)}[v]
    p = sorted([lo, hi] + [lo + (hi - lo) * x for x in c['u'][:2]])
    bins = [phys.ev(n, par, wc, (x, y)) for x, y in zip(p, p[1:])]
    tot = phys.ev(t, par, wc)
    if tot == 0:
        ctx.trivial()
    expect(abs(sum(bins) - tot) <= 0.01 * abs(tot), '%s: bins %r add up to %r, the total is %r', n, bins, sum(bins), tot)
    i = int(c['u'][2] * 3) % 3
    x0, x1 = p[i], p[i + 1]
    h = (x1 - x0) / 2
    # the distributions are polynomials in cos(theta) or low harmonics of phi: this quadrature is exact
    ref = h * sum(w * phys.ev(d, par, wc, ((x0 + x1) / 2 + h * x,)) for x, w in zip(XG, WG))
    expect(abs(bins[i] - ref) <= 0.01 * max(abs(ref), tot * h * .1), '%s in [%.5g, %.5g] is %r, but the integral of %s is %r', n, x0, x1, bins[i], d, ref)


def narrow_table():
    names = set(phys.names())
    out = []
    for n in sorted(names):
        m = re.match(r'^(Dmue_)?<([^<>]*)>\((.*)\)$', n) or re.match(r'^()<([^<>]*)>\((.*)\)$', n)
        if m and tuple(Observable[n].arguments or ()) == ('q2min', 'q2max') and m.group(2) not in EXT:
            d = '%s%s(%s)' % (m.group(1) or '', m.group(2), m.group(3))
            if d in names and tuple(Observable[d].arguments or ()) == ('q2',):
                out.append((n, d))
    return out


def check_narrow(c, ctx):
    n, d = c['rel']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    lo, hi = phys.q2limits(n, par)
    if re.search(r'->(Xs|Xd)', n):
        hi = 8.0 if 'AFB' in n else 22.0
    q = lo + (hi - lo) * (0.02 + 0.94 * c['u'][0])
    h = min(0.02 * q, 0.01 * (hi - lo), 0.4 * (q - lo))
    if breaks(n, q - 1.05 * h, q + 1.05 * h):
        q += 2.2 * h
    if breaks(n, q - 1.05 * h, q + 1.05 * h):
        raise Skip()
    got = phys.ev(n, par, wc, (q - h, q + h))
    v = [phys.ev(d, par, wc, (q + k * h,)) for k in (-1, -.5, 0, .5, 1)]
    if not any(v):
        ctx.trivial()
    slack = 0.3 * (max(v) - min(v)) + 0.01 * max(map(abs, v)) + 3e-5
    expect(min(v) - slack <= got <= max(v) + slack, '%s in the narrow bin [%.6g, %.6g] is %r, but %s takes the values %r there', n, q - h, q + h, got, d, v)


def strat(rel):
    return phys.point_strategy(rel[0], rel=st.just(list(rel)))


def build():
    ext, nrm, tot, ang = tables()
    if min(len(ext), len(nrm), len(tot), len(ang)) < 10:
        fail('unexpected list of observables: %r', (len(ext), len(nrm), len(tot), len(ang)))
    return [Sweep('extensive', ext, strat, check_ext, quick=1, thorough=6),
            Sweep('normalised', nrm, strat, check_nrm, quick=1, thorough=4),
            Sweep('narrow', narrow_table(), strat, check_narrow, quick=1, thorough=6),
            Sweep('total', tot, strat, check_tot, quick=1, thorough=8),
            Sweep('angular', ang, strat, check_ang, quick=1, thorough=6)]
