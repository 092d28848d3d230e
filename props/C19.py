"""Running couplings and masses, RG evolution, common helpers, units, elements."""
import itertools
import math
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from harness import Sub, expect, expect_close, fail, Skip
import gen_dist as gd
import phys
import flavio
from flavio.physics.running import running, betafunctions, masses
from flavio.physics import common, elements, units

RULE = ('A case is a set of input couplings and quark masses (within 10 standard deviations of the defaults), two or three scales between 1 and 1000 GeV and an explicit or '
        'automatic number of flavours; an anomalous dimension matrix with coefficients; or arguments of the helper functions. Non-trivial: output scale different from the input scale; distinct by these numbers.')
ASSUMPTIONS = ['beta functions and mass anomalous dimension of QCD to three loops and perturbative pole-mass relations, from the literature',
               'thresholds: configured values for the automatic number of flavours and the electromagnetic coupling']
LEVEL_NOTE = 'Analytic one-loop and three-loop formulas, matrix exponentials, composition and inversion relations.'
MZ = 91.1876


def par_of(c):
    p = dict(phys.central())
    for k in ('alpha_s', 'alpha_e', 'm_b', 'm_c', 'm_s', 'm_u', 'm_d', 'm_t'):
        p[k] = p[k] * c.get(k, 1.0)
    return p


base = {'alpha_s': gd.fl(.93, 1.07), 'alpha_e': gd.fl(.9, 1.1), 'm_b': gd.fl(.95, 1.05), 'm_c': gd.fl(.93, 1.07), 'm_s': gd.fl(.7, 1.3),
        'm_u': gd.fl(.5, 1.5), 'm_d': gd.fl(.5, 1.5), 'm_t': gd.fl(.97, 1.03)}


# ------------------------------------------------------------------ alpha_e
def ae_ref(par, mu, nf):
    t = flavio.config['RGE thresholds']
    run = {6: (3, 3, 3), 5: (2, 3, 3), 4: (2, 2, 3), 3: (1, 2, 2)}
    inv, cur = 1 / par['alpha_e'], MZ
    for n, stop in {6: [(5, t['mt']), (6, mu)], 5: [(5, mu)], 4: [(5, t['mb']), (4, mu)], 3: [(5, t['mb']), (4, t['mc']), (3, mu)]}[nf]:
        u, d, e = run[n]
        q2 = 3 * (u * 4 / 9 + d / 9) + e
        inv -= 2 * q2 / (3 * math.pi) * math.log(stop / cur)
        cur = stop
    return 1 / inv


def nf_auto(mu):
    t = flavio.config['RGE thresholds']
    return 3 + (mu >= t['mc']) + (mu >= t['mb']) + (mu >= t['mt'])


def check_coupling(case, ctx):
    par, mu, nf = par_of(case), case['mu'], case['nf']
    n = nf or nf_auto(mu)
    expect(running.get_nf(mu) == nf_auto(mu), 'get_nf(%r) = %r', mu, running.get_nf(mu))
    ae = running.get_alpha_e(par, mu, nf_out=nf)
    expect_close(ae, ae_ref(par, mu, n), 'alpha_e(%r) for nf=%r' % (mu, nf), rtol=1e-10)
    if mu < 2 and n == 6 or mu < 1.3 and n > 4:
        raise Skip()
    al = running.get_alpha_s(par, mu, nf_out=nf)
    both = running.get_alpha(par, mu, nf_out=nf)
    expect(both == {'alpha_s': al, 'alpha_e': ae}, 'get_alpha(%r, nf=%r) = %r', mu, nf, both)
    # three-loop beta function
    e = 1e-2
    l, h = (running.get_alpha_s(par, mu * math.exp(s), nf_out=n) for s in (-e, e))
    a = al / (4 * math.pi)
    b = (11 - 2 * n / 3, 102 - 38 * n / 3, 2857 / 2 - 5033 * n / 18 + 325 * n**2 / 54)
    ref = -2 * a**2 * (b[0] + b[1] * a + b[2] * a**2) * 4 * math.pi
    # the four-loop term is neglected by one and not by the other (or vice versa)
    expect_close((h - l) / (2 * e), ref, 'd alpha_s/d log mu at %r for nf=%r' % (mu, nf), rtol=2e-3 + 60 * a**3 * 100)
    if n == 5:
        expect_close(running.get_alpha_s(par, MZ, nf_out=5), par['alpha_s'], 'alpha_s(m_Z)', rtol=1e-14)
    # continuous up to higher-order matching corrections at the b and c thresholds
    for m, lo in ((4.8, 4), (1.3, 3), (170., 5)):
        x, y = running.get_alpha_s(par, m, nf_out=lo), running.get_alpha_s(par, m, nf_out=lo + 1)
        expect(abs(x / y - 1) < 0.6 * (y / math.pi)**2 + 1e-3, 'alpha_s(%r) is %r with %d and %r with %d flavours', m, x, lo, y, lo + 1)
    d = betafunctions.beta_qcd_qed([al, 0.], mu, n)
    expect_close(float(d[0]) * mu, ref, 'beta_qcd_qed for nf=%d, alpha_e=0' % n, rtol=1e-9)
    d = betafunctions.beta_qcd_qed([al, ae], mu, 5)
    qa, qe = al / 4 / math.pi, ae / 4 / math.pi
    b5 = (23 / 3, 116 / 3, 2857 / 2 - 5033 * 5 / 18 + 325 * 25 / 54)
    refs = -2 * al * qa * (b5[0] + b5[1] * qa + b5[2] * qa**2 - 22 / 9 * qe - 308 / 27 * qa * qe + 4945 / 243 * qe**2)
    refe = 2 * ae * qe * (80 / 9 + 464 / 27 * qe + 176 / 9 * qa)
    expect_close(float(d[0]) * mu, refs, 'beta function of alpha_s for nf=5', rtol=1e-9)
    expect_close(float(d[1]) * mu, refe, 'beta function of alpha_e for nf=5', rtol=1e-9)
    ctx.label('nf=%s' % nf)


def check_masses(case, ctx):
    par, mu, nf, q = par_of(case), case['mu'], case['nf'], case['q']
    n = nf or nf_auto(mu)
    nmin = {'b': 3, 'c': 3, 's': 3, 'u': 3, 'd': 3}[q]
    nmax = {'b': 6, 'c': 5, 's': 5, 'u': 5, 'd': 5}[q]
    if not nmin <= n <= nmax or mu < 1.3 and n > 4:
        raise Skip()
    f = {'b': running.get_mb, 'c': running.get_mc, 's': running.get_ms, 'u': running.get_mu, 'd': running.get_md}[q]
    m = f(par, mu, nf_out=nf)
    expect(running.get_mq(q, par, mu, nf_out=nf) == m, 'get_mq(%r) differs from the mass of that quark', q)
    # fixed points of the definition
    p0 = {'b': (par['m_b'], par['m_b'], 5), 'c': (par['m_c'], par['m_c'], 4), 's': (par['m_s'], 2, 3), 'u': (par['m_u'], 2, 3), 'd': (par['m_d'], 2, 3)}[q]
    expect_close(f(par, p0[1], nf_out=p0[2]), p0[0], 'input value of the %s mass' % q, rtol=1e-14)
    # anomalous dimension
    e = 1e-2
    l, h = (math.log(f(par, mu * math.exp(s), nf_out=n)) for s in (-e, e))
    a = running.get_alpha_s(par, mu, nf_out=n) / math.pi
    z3 = 1.2020569
    g = (1., (202 / 3 - 20 * n / 9) / 16, (1249 + (-2216 / 27 - 160 * z3 / 3) * n - 140 * n**2 / 81) / 64)
    ref = -2 * (g[0] * a + g[1] * a**2 + g[2] * a**3)
    expect_close((h - l) / (2 * e), ref, 'd log m_%s/d log mu at %r for nf=%r' % (q, mu, nf), rtol=1e-2 + 60 * a**3)
    # masses of light quarks all run alike, and the result is proportional to the input
    if q in 'sud':
        r = {k: running.get_mq(k, par, mu, nf_out=nf) / par['m_' + k] for k in 'sud'}
        expect(max(r.values()) / min(r.values()) - 1 < 1e-9, 'light quark masses run differently: %r', r)
    # matching at the thresholds is continuous to O(alpha_s^2)
    for t, lo in ((4.8, 4), (1.3, 3)):
        if lo + 1 <= nmax:
            x, y = f(par, t, nf_out=lo), f(par, t, nf_out=lo + 1)
            a = running.get_alpha_s(par, t, nf_out=lo) / math.pi
            expect(abs(x / y - 1) < 2.5 * a**2 + 2e-3, 'm_%s(%r) is %r with %d and %r with %d flavours', q, t, x, lo, y, lo + 1)
    ctx.label(q, 'nf=%s' % nf)


def check_schemes(case, ctx):
    par = par_of(case)
    z = {'b': (par['m_b'], 4), 'c': (par['m_c'], 3)}
    for q, f in (('b', running.get_mb_pole), ('c', running.get_mc_pole)):
        m, nl = z[q]
        a = running.get_alpha_s(par, m) / math.pi
        c = [4 / 3, 13.4434 - 1.0414 * nl, 190.595 - 26.655 * nl + 0.6527 * nl**2]
        for k in (1, 2, 3):
            ref = m * (1 + sum(c[i] * a**(i + 1) for i in range(k)))
            expect_close(f(par, nl=k), ref, '%s pole mass at %d loops' % (q, k), rtol=2e-5)
        expect_close(f(par), f(par, nl=2), '%s pole mass, default' % q, rtol=1e-14)
    # top
    M = par['m_t']
    mt = running.get_mt_mt(par)
    a = running.get_alpha_s(par, M, nf_out=6) / math.pi
    ref = M * (1 - 4 / 3 * a + (-11.6656 + 1.0414 * 5) * a**2 - 60.27 * a**3)
    expect_close(mt, ref, 'm_t(m_t)', rtol=5e-4)
    mu = case['mut']
    x, y = running.get_mt(par, mu), running.get_mt(par, mt)
    expect_close(y, mt, 'm_t at the scale m_t(m_t)', rtol=2e-3)
    n = running.get_nf(mu)
    a1, a2 = running.get_alpha_s(par, mu, nf_out=6) / math.pi, running.get_alpha_s(par, mt, nf_out=6) / math.pi
    # one-loop exponent with two-loop correction, six flavours
    cc = lambda a: a**(4 / 7) * (1 + 1.398 * a)
    expect_close(x / y, cc(a1) / cc(a2), 'ratio of m_t at %r and m_t' % mu, rtol=6e-3)
    # kinetic scheme
    for q, f, nf in (('b', running.get_mb_KS, 4), ('c', running.get_mc_KS, 3)):
        k = case['kin']
        m = z[q][0]
        as_ = running.get_alpha_s(par, m)
        g = f(par, k)
        expect_close(g, masses.mMS2mKS(m, nf, as_, k, 3), 'kinetic mass of the %s quark' % q, rtol=1e-12)
    K, Nf, mu = case['M'], case['Nf'], case['rel'] * case['M']
    pk = [1.0, -4 / 3, -11.6656 + 1.0414 * Nf]
    # mu -> 0: pole mass
    for nl in (0, 1, 2):
        for as_ in (1e-3, .1, .3):
            r = masses.mKS2mMS(K, Nf, as_, K * 1e-9, nl) / K
            expect_close(r, sum(pk[i] * (as_ / math.pi)**i for i in range(nl + 1)), 'MSbar mass for vanishing kinetic cutoff (nl=%d)' % nl, rtol=2e-5)
    # coefficients of the relation to the MSbar mass
    b0 = 11 - 2 * Nf / 3
    L = math.log(K / (2 * mu))
    f0 = [masses.fKsFromMs1(mu, K, Nf), masses.fKsFromMs2(mu, K, Nf), masses.fKsFromMs3(mu, K, Nf)]
    expect_close(f0[0], -4 / 3 + 16 / 9 * mu / K + 2 / 3 * mu**2 / K**2, 'one-loop coefficient', rtol=1e-9, atol=1e-12)
    c1 = (8 / 9 * b0 * L + 64 / 27 * b0 - 8 / 9 * math.pi**2 + 92 / 27)
    c2 = (b0 * L / 3 + 13 / 18 * b0 - math.pi**2 / 3 + 23 / 18)
    expect_close(f0[1], pk[2] + c1 * mu / K + c2 * mu**2 / K**2, 'two-loop coefficient', rtol=1e-5, atol=5e-4)
    z3 = 1.2020569031595942
    r3 = -(b0 / 2)**2 * (2353 / 2592 + 13 / 36 * math.pi**2 + 7 / 6 * z3 - 16 / 9 * mu / K * ((L + 8 / 3)**2 + 67 / 36 - math.pi**2 / 6)
                         - 2 / 3 * (mu / K)**2 * ((L + 13 / 6)**2 + 10 / 9 - math.pi**2 / 6))
    expect_close(f0[2], r3, 'three-loop coefficient', rtol=1e-8)
    for nl in (0, 1, 2, 3):
        a = case['asm']
        want = K * (1 + sum(f0[i] * (a / math.pi)**(i + 1) for i in range(nl)))
        expect_close(masses.mKS2mMS(K, Nf, a, mu, nl), want, 'MSbar mass from the kinetic mass, nl=%d' % nl, rtol=1e-12)
    # inverse up to higher orders
    for nl in (1, 2):
        d = []
        for a in (.02, .01):
            d.append(abs(masses.mKS2mMS(masses.mMS2mKS(K, Nf, a, mu, nl), Nf, a, mu, nl) / K - 1))
        lim = 60 * (0.02 / math.pi * 2)**(nl + 1)
        expect(d[0] < lim and (d[1] < 0.7 * d[0] * 2.0**(-nl) or d[1] < 1e-9), 'MSbar -> kinetic -> MSbar (nl=%d) is off by %r, %r', nl, d[0], d[1])


# ------------------------------------------------------------------ evolution
def check_evolve(case, ctx):
    par = par_of(case)
    A = np.array(case['A'], dtype=float).reshape(2, 2)
    s1, s2 = case['s1'], case['s2']
    nfo = case['nf']
    t = flavio.config['RGE thresholds']
    th = {3: 0.1, 4: t['mc'], 5: t['mb'], 6: t['mt'], 7: 1e99}
    seen = []

    def adm(nf, a_s, a_e):
        seen.append(nf)
        return A * (1 + 0.3 * (nf - 5))
    der = running.make_wilson_rge_derivative(adm)
    expect(running.make_wilson_rge_derivative(None) is None, 'no anomalous dimension should give no derivative')
    c0 = np.array([complex(*case['c'][:2]), complex(*case['c'][2:])])
    keep = c0.copy()
    if nfo and s2 < s1:
        lo = nf_auto(s2 * (1 + 1e-12))
        if not lo <= nfo <= nf_auto(s1):
            nfo = None
    elif s2 >= s1:
        nfo = None
    out = running.get_wilson(par, c0, der, s1, s2, nf_out=nfo)
    if nfo is None and running.get_nf(s1) != nf_auto(s1):
        raise Skip()
    # reference
    expo = 0.0
    lo, hi = min(s1, s2), max(s1, s2)
    for n in (3, 4, 5, 6):
        if nfo is not None:
            if n < nfo:
                continue
            a = lo if n == nfo else th[n]
            b = th[n + 1]
        else:
            a, b = th[n], th[n + 1]
        x = math.log(min(hi, b) / max(lo, a)) if min(hi, b) > max(lo, a) else 0.0
        expo += x * (1 + 0.3 * (n - 5))
    if s2 < s1:
        expo = -expo
    ref = scipy.linalg.expm(A.T * expo) @ c0
    m = np.max(np.abs(ref)) + np.max(np.abs(c0))
    expect(np.max(np.abs(out - ref)) <= 2e-5 * m, 'evolution from %r to %r (nf_out=%r) with %r: %r, expected %r', s1, s2, nfo, A.tolist(), out, ref)
    expect(np.array_equal(keep, c0), 'the initial condition was modified')
    if s1 == s2:
        out[:] = 99.
        expect(np.array_equal(running.get_wilson(par, c0, der, s1, s2), keep), 'evolution by nothing depends on what was done to the result')
        ctx.trivial()
    else:
        back = running.get_wilson(par, np.array(out), der, s2, s1) if nfo is None else None
        if back is not None:
            expect(np.max(np.abs(back - c0)) <= 1e-4 * m, 'evolution there and back is not the identity: %r -> %r', c0, back)
    try:
        running.rg_evolve_sm(np.array([.3, .0073]), betafunctions.betafunctions_qcd_qed_nf, 5., 0.05)
    except ValueError:
        pass
    else:
        fail('evolution below the strange threshold was accepted')
    # gauge couplings
    a0 = running.get_alpha(par, s1)
    x = running.rg_evolve_sm(np.array([a0['alpha_s'], 0.]), betafunctions.betafunctions_qcd_qed_nf, s1, s2)
    g = running.get_alpha(par, s2)['alpha_s']
    expect(abs(x[0] / g - 1) < 0.01 + 0.1 * abs(g - a0['alpha_s']), 'alpha_s evolved from %r to %r: %r, expected about %r', s1, s2, x[0], g)


def check_fperp(case, ctx):
    par = par_of(case)
    mu, nf = case['mu'], case['nf']
    m = case['meson']
    k = 'f_perp_' + m
    if k not in par:
        raise Skip()
    if nf and nf < nf_auto(mu) or nf and nf > max(3, nf_auto(mu)):
        nf = None
    r = running.get_f_perp(par, m, mu, nf_out=nf) / par[k]
    # leading-log evolution with 3 flavours from 2 GeV and the number of flavours changing at the thresholds
    t = flavio.config['RGE thresholds']
    th = [t['mc'], t['mb'], t['mt']]
    n_end = nf or nf_auto(mu)
    ref, cur = 1.0, 2.0
    if not (nf == 3 or (mu <= th[0])):
        pass
    if mu != 2:
        for n in (3, 4, 5, 6):
            stop = mu if n == n_end else th[n - 3]
            ref *= (running.get_alpha_s(par, stop, nf_out=n) / running.get_alpha_s(par, cur, nf_out=n))**(4 / (3 * (11 - 2 * n / 3)))
            cur = stop
            if n == n_end:
                break
    expect_close(r, ref, 'f_perp of %s at %r (nf=%r) relative to 2 GeV' % (m, mu, nf), rtol=1e-9)
    if mu > 2:
        expect(r < 1.005, 'f_perp grows with the scale')
    ctx.label(m)


# ------------------------------------------------------------------ helpers
def check_helpers(case, ctx):
    a, b, c = case['abc']
    l = common.lambda_K(a, b, c)
    for p in itertools.permutations((a, b, c)):
        expect_close(float(common.lambda_K(*p)), float(l), 'lambda%r' % (p,), rtol=1e-9, atol=1e-9 * max(a, b, c)**2)
    expect(l >= 0, 'lambda%r = %r', (a, b, c), l)
    x, y, z = sorted((a, b, c))
    sx, sy, sz = math.sqrt(x), math.sqrt(y), math.sqrt(z)
    ref = max(0., (z - (sx + sy)**2) * (z - (sx - sy)**2))
    expect_close(float(l), ref, 'lambda%r' % ((a, b, c),), rtol=1e-6, atol=1e-10 * z**2)
    ds = [{k: complex(*v) if isinstance(v, list) else v for k, v in d.items()} for d in case['dicts']]
    before = [dict(d) for d in ds]
    r = common.add_dict(ds)
    keys = set().union(*ds)
    expect(set(r) == keys, 'add_dict: keys %r instead of %r', sorted(r), sorted(keys))
    for k in keys:
        expect_close(complex(r[k]), complex(sum(d.get(k, 0) for d in ds)), 'add_dict: %r of %r' % (k, ds), rtol=1e-12, atol=1e-12)
    expect(ds == before, 'add_dict modified its arguments')
    cc = common.conjugate_wc(r)
    for k in keys:
        expect(complex(cc[k]) == complex(r[k]).conjugate(), 'conjugate_wc: %r', k)
    par = phys.central()
    cp = common.conjugate_par(par)
    expect(set(cp) == set(par), 'conjugate_par changes the set of parameters')
    odd = {k for k in par if cp[k] != par[k]}
    expect(odd <= {'gamma', 'delta', 'etabar', 'beta'} and 'gamma' in odd, 'CP-odd parameters: %r', odd)
    Z = case['Z']
    s = elements.symbol(Z)
    expect(elements.Z(s) == Z, 'element %d is %r is %d', Z, s, elements.Z(s))
    known = {1: 'H', 2: 'He', 6: 'C', 7: 'N', 8: 'O', 9: 'F', 10: 'Ne', 13: 'Al', 14: 'Si', 18: 'Ar', 17: 'Cl', 19: 'K', 20: 'Ca', 21: 'Sc', 22: 'Ti', 23: 'V',
             25: 'Mn', 26: 'Fe', 27: 'Co', 31: 'Ga', 36: 'Kr', 37: 'Rb', 45: 'Rh', 50: 'Sn', 54: 'Xe', 79: 'Au', 80: 'Hg', 82: 'Pb', 92: 'U', 118: 'Og'}
    for k, v in known.items():
        expect(elements.symbol(k) == v, 'element %d is %r', k, elements.symbol(k))
    # units
    u = units
    for x, y, n in ((u.GeV, 1, 'GeV'), (u.MeV, 1e-3, 'MeV'), (u.keV, 1e-6, 'keV'), (u.eV, 1e-9, 'eV'), (u.TeV, 1e3, 'TeV'), (u.hbar, 1, 'hbar'), (u.h, 2 * math.pi, 'h'),
                    (u.J * 1.602176634e-10, 1, 'J'), (u.s * 6.582119569e-25, 1, 's'), (u.meter * 1.973269804e-16, 1, 'm'), (u.fm * 0.1973269804, 1, 'fm'),
                    (u.ps / u.s, 1e-12, 'ps'), (u.ns / u.s, 1e-9, 'ns'), (u.ms / u.s, 1e-3, 'ms'), (u.mm / u.meter, 1e-3, 'mm'), (u.nm / u.meter, 1e-9, 'nm'),
                    (u.pm / u.meter, 1e-12, 'pm'), (u.meter / u.s * 299792458, 1, 'c')):
        expect_close(float(x), y, 'unit %s' % n, rtol=1e-8)


mu_s = st.one_of(gd.fl(0., math.log(1000.)).map(lambda x: gd.sig(math.exp(x))), st.sampled_from([2., 4.8, 4.2, 1.3, 91.1876, 160., 163., 80.]))
mu_b = st.one_of(gd.fl(.5, math.log(500.)).map(lambda x: gd.sig(math.exp(x))), st.sampled_from([2., 4.8, 91.1876, 160., 5.]))


def build():
    fd = st.fixed_dictionaries
    return [
        Sub('couplings', fd({**base, 'mu': mu_s, 'nf': st.sampled_from([None, None, 3, 4, 5, 6])}), check_coupling, quick=500, thorough=10000, shards=4),
        Sub('masses', fd({**base, 'mu': mu_s, 'nf': st.sampled_from([None, None, 3, 4, 5, 6]), 'q': st.sampled_from('bcsud')}), check_masses, quick=600, thorough=10000, shards=4),
        Sub('schemes', fd({**base, 'mut': gd.fl(60, 700), 'kin': gd.fl(.5, 1.5), 'M': gd.fl(1, 6), 'Nf': st.sampled_from([3, 4]), 'rel': gd.fl(.01, .4), 'asm': gd.fl(.05, .35)}),
            check_schemes, quick=300, thorough=5000, shards=4),
        Sub('evolution', fd({**base, 's1': mu_b, 's2': mu_b, 'nf': st.sampled_from([None, None, 3, 4, 5]), 'A': st.lists(gd.fl(-.4, .4), min_size=4, max_size=4),
                             'c': st.lists(gd.fl(-2, 2), min_size=4, max_size=4)}), check_evolve, quick=400, thorough=6000, shards=8),
        Sub('transverse decay constant', fd({**base, 'mu': mu_b, 'nf': st.sampled_from([None, 3, 4, 5]), 'meson': st.sampled_from(['rho0', 'rho+', 'K*0', 'K*+', 'omega', 'phi'])}),
            check_fperp, quick=200, thorough=3000, shards=2),
        Sub('helpers', fd({'abc': st.lists(st.one_of(gd.fl(0, 30), gd.fl(0, 1e-3)), min_size=3, max_size=3), 'Z': st.integers(0, 118),
                           'dicts': st.lists(st.dictionaries(st.sampled_from('abcdef'), st.one_of(gd.fl(-5, 5), st.tuples(gd.fl(-5, 5), gd.fl(-5, 5)).map(list)), max_size=5),
                                             min_size=1, max_size=4)}), check_helpers, quick=300, thorough=3000, shards=2)]
