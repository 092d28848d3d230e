"""C23: distributions vanish outside of the phase space."""
import re
import numpy as np
import flavio
from flavio.classes import Observable
from hypothesis import strategies as st
import phys
from harness import Sub, Sweep, Skip, expect, fail

LEVEL_NOTE = ('every observable with q2 or bin arguments is visited, at points and bins below, above and across the boundaries of the phase space computed from the meson and lepton masses.')
RULE = 'a case is non-trivial if the point or bin is (partly) outside the phase space; every case is'
ASSUMPTIONS = ['inclusive decays end at the square of the kinetic b quark mass, which is between 20 and 23 GeV^2: points up to 23 GeV^2 are not judged',
               'agreement of partly outside bins to 1.5%']


def q2obs():
    d, b = [], []
    for n in phys.names():
        a = tuple(Observable[n].arguments or ())
        if a == ('q2',):
            d.append(n)
        elif a == ('q2min', 'q2max'):
            b.append(n)
    return sorted(d), sorted(b)


def limits(n, par):
    """smallest and largest edges of the allowed region: ((lo, hi) of the observable, i.e. inside for all leptons involved; and the outer one)"""
    lo, hi = phys.q2limits(n, par)
    out_lo = lo
    if re.search(r'(ll|lnu)\)$', n):
        # ratios and averages: the numerator decides for ratios; averages over e and mu start at the electron threshold
        m = re.search(r'R(tau|mu)(e|mu|l)', n)
        if not m:
            out_lo = (par['m_e'] * (2 if n.endswith('ll)') else 1))**2
    if re.search(r'->(Xs|Xd)', n):
        return lo, 20.0, out_lo, 23.5
    return lo, hi, out_lo, hi


def check_diff(c, ctx):
    n = c['obs']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    lo, hi, olo, ohi = limits(n, par)
    for q in [ohi * (1 + 1e-9), ohi * (1.001 + c['u'][0]), ohi + 30 * c['u'][1]] + ([olo * (1 - 1e-9), olo * c['u'][2] * 0.99] if olo > 0 else []):
        if q <= ohi and q >= olo:
            continue
        if q <= 0:
            continue
        v = phys.ev(n, par, wc, (q,))
        expect(v == 0, '%s at q2=%.10g, outside of the phase space [%.10g, %.10g], is %r', n, q, olo, ohi, v)
    q = lo + (hi - lo) * (0.001 + 0.998 * c['u'][3])
    v = phys.ev(n, par, wc, (q,))
    expect(np.isfinite(v), '%s at q2=%.6g is %r', n, q, v)
    if re.match(r'd(BR|G)', n) and not re.search(r'->(Xs|Xd)', n):
        expect(v > 0, '%s at q2=%.6g inside of the phase space [%.6g, %.6g] is %r', n, q, lo, hi, v)


def check_bin(c, ctx):
    n = c['obs']
    par, wc = phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    lo, hi, olo, ohi = limits(n, par)
    u = c['u']
    out = [(ohi * 1.0001, ohi * (1.01 + u[0]))]
    if olo > 1e-3:
        out.append((olo * 0.5 * u[1], olo * (0.5 + 0.499 * u[1])))
    for a, b in out:
        v = phys.ev(n, par, wc, (a, b))
        expect(v == 0, '%s in the bin [%.6g, %.6g] outside of the phase space [%.6g, %.6g] is %r', n, a, b, olo, ohi, v)
    if re.search(r'->(Xs|Xd)|gamma', n):        # the rate with a photon diverges for soft photons at the end of the phase space
        return
    # bins across the upper end; m close to it, because the code integrates over the step
    width = n.startswith('<dBR/dq2>')
    m = lo + (hi - lo) * (0.75 + 0.2 * u[2])
    b = hi + (hi - m) * u[3]
    v1, v2 = phys.ev(n, par, wc, (m, hi)), phys.ev(n, par, wc, (m, b))
    if width:
        v1, v2 = v1 * (hi - m), v2 * (b - m)
    expect(abs(v1 - v2) <= 0.015 * abs(v1) + (0 if width or n.startswith('<BR') else 1e-4), '%s: the bin [%.6g, %.6g] contains %r, but [%.6g, %.6g] reaching beyond the end of the phase space %r', n, m, hi, v1, m, b, v2)


def build():
    d, b = q2obs()
    if len(d) < 200 or len(b) < 300:
        fail('unexpected list of observables: %d, %d', len(d), len(b))
    return [Sweep('differential', d, lambda n: phys.point_strategy(n), check_diff, quick=2, thorough=20),
            Sweep('binned', b, lambda n: phys.point_strategy(n), check_bin, quick=1, thorough=8)]
