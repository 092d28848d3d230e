"""C27: CP conjugation of the fundamental parameters: CP-averaged observables stay the same, CP asymmetries change sign."""
import re
import functools
import numpy as np
import flavio
from flavio.classes import Observable
from flavio.physics.common import conjugate_par
from hypothesis import strategies as st
import phys
from harness import Sweep, Skip, expect, fail

LEVEL_NOTE = 'every observable that is CP-averaged, a CP asymmetry or a sum over charges is visited at generated parameter points and coefficients.'
RULE = 'a case is non-trivial if the Wilson coefficients have phases that enter the observable'
ASSUMPTIONS = ['the CP transformation conjugates the CKM matrix and all coefficients and flips the sign of the coefficients of CP-odd gluonic and bosonic operators',
               'at low q2, B->Vll and B->Vgamma use tabulated corrections that are not functions of the CKM parameters; these are judged at high q2 only',
               'B->Xll, B->llgamma and Lambda_b->Lambda ll describe one charge and have strong phases: judged in the sum only where it is accessible']


class CPWilson(phys.ConjWilson):
    def match_run(self, scale, eft, basis, sectors='all'):
        d = super().match_run(scale, eft, basis, sectors).dict
        return phys._WC(eft, basis, scale, {n: -v if re.search(r'tilde($|B$)', n) or n in ('phiWtildeB',) else v for n, v in d.items()})


ODD = re.compile(r'^(<?ACP>?\(|<?ATIm>?\(|<?A\d\w*>?\(|<?A_\d\w+>?\(|S_psi|S_K\*gamma|S_phigamma|a_fs|eps_K|epsp|omega_|d_Tl|phi12_D|phi_D|x12Im_D|D_n$|R_n$)')
ONE_CHARGE = re.compile(r'B->X[sd](ee|mumu|tautau|ll)|(Bs|B0)->(ee|mumu)gamma|Lambdab->Lambda(ee|mumu)|<?(FL|AFB\w*|dBR/dq2)>?\(Lambdab->Lambda\(1520\)|(K\*|phi)gamma')
PHI = re.compile(r'^(<BR>/<phi>|dBR/dphi)')
LFVQ = re.compile(r'^(BR|R)\((J/psi|psi\(2S\)|Upsilon\(\dS\)|eta_\w\(1S\)|chi_\w0\(\dP\))->(e|mu|tau)(e|mu|tau)(gamma)?\)')
VLL = re.compile(r'(B0|B\+)->K\*(ee|mumu|tautau|ll)\)|Bs->(phi|K\*0)(ee|mumu|tautau|ll)\)')


def kind(n):
    if ONE_CHARGE.search(n) and not re.match(r'<?[SA]_\d', n):
        return None
    if n == 'q/p_D':
        return 'inverse'
    if ODD.match(n):
        return 'odd'
    m = LFVQ.match(n)
    if m and m.group(3) != m.group(4):
        return 'swap'
    if PHI.match(n):
        return 'phi'
    return 'even'


def check(c, ctx):
    n = c['obs']
    k = kind(n)
    par = phys.par_point(c['seed'], c['t'])
    w = phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    u = c['u']
    args = phys.args_for(n, par, u)
    if VLL.search(n) and args:
        hi = phys.q2limits(n, par)[1] - 0.05
        args = tuple(14.6 + x * (hi - 14.6) for x in sorted(u[:len(args)]))
        if len(args) == 2 and args[1] - args[0] < 0.05:
            args = (min(args[0], hi - .05), min(args[0], hi - .05) + .05)
    n2, args2 = n, args
    if k == 'swap':
        m = LFVQ.match(n)
        i, j = m.span(3), m.span(4)
        n2 = n[:i[0]] + m.group(4) + m.group(3) + n[j[1]:]
        if args:
            # coefficients of ll FF and ll FFtilde: (ij, ji, tilde ij, tilde ji)
            args2 = tuple(x for i in range(0, len(args), 2) for x in args[i:i + 2][::-1])
    if args and Observable[n].arguments[0].startswith('Ce'):     # operators with FFtilde or GGtilde are CP-odd
        args2 = tuple(-x if 'tilde' in y or '(eta' in n else x for x, y in zip(args2, Observable[n].arguments))
    if k == 'phi':
        args2 = tuple(2 * np.pi - x for x in args[::-1])
    try:
        a = phys.ev(n, par, w, args)
        b = phys.ev(n2, conjugate_par(par), CPWilson(w), args2)
    except ValueError as e:
        if n.startswith('lnC(') and 'math domain' in str(e):
            raise Skip()
        raise
    if not (np.isfinite(a) and np.isfinite(b)):
        raise Skip()
    if not any(isinstance(w.value('WET', 'flavio', x), complex) and w.value('WET', 'flavio', x).imag for x in w.touched) or a == 0:
        ctx.trivial()
    ctx.label(k)
    if k == 'odd':
        b = -b
    elif k == 'inverse':
        b = 1 / b
    tol = 1e-6 * max(abs(a), abs(b)) + 1e-30
    if n in ('phi12_D', 'phi_D') and abs(a - b) > 6:        # angles
        b += 2 * np.pi * np.sign(a - b)
    if k == 'odd':
        tol += 1e-11 if re.match(r'<?A', n) else 1e-7 * abs(a)
    if k == 'phi' and len(args) == 2 or n.startswith('<'):
        tol += 1e-6
    expect(abs(a - b) <= tol, '%s%s is %r, but %s%s for the CP conjugate parameters is %r (expected: %s)', n, args, a, n2, args2,
           -b if k == 'odd' else 1 / b if k == 'inverse' else b,
           {'odd': 'opposite sign', 'inverse': 'inverse'}.get(k, 'the same'))


def check_sm(c, ctx):
    """with real CKM matrix and real coefficients there is no CP violation"""
    n = c['obs']
    par = phys.par_point(c['seed'], c['t'])
    par['gamma'] = 1e-11
    w = phys.RandWilson(c['wc'], c['size'], c['density'], 0.0)

    class R(phys.RandWilson):
        def value(self, eft, basis, x):
            return 0 if 'tilde' in x else super().value(eft, basis, x)
    w = R(c['wc'], c['size'], c['density'], 0.0)
    args = phys.args_for(n, par, c['u'])
    if VLL.search(n) and args:
        hi = phys.q2limits(n, par)[1] - 0.05
        args = tuple(14.6 + x * (hi - 14.6) for x in sorted(u for u in c['u'][:len(args)]))
        if len(args) == 2 and args[1] - args[0] < 0.05:
            args = (min(args[0], hi - .05), min(args[0], hi - .05) + .05)
    v = phys.ev(n, par, w, args)
    ref = phys.ev(n, phys.par_point(c['seed'], c['t']), phys.RandWilson(c['wc'], c['size'], c['density'], 1.0), args)
    if n in ('phi12_D', 'phi_D'):
        v = np.sin(v)
    if ref == 0:
        ctx.trivial()
    expect(abs(v) <= 1e-7 * max(abs(ref), 1e-6), '%s%s = %r with real CKM matrix and real coefficients (%r with complex ones)', n, args, v, ref)


def build():
    all_ = sorted(n for n in phys.names() if kind(n))
    odd = [n for n in all_ if kind(n) == 'odd' and not re.match(r'D_n|S_', n)]
    return [Sweep('conjugation', all_, lambda n: phys.point_strategy(n, sizes=(1.0, 0.3), density=st.just(1.0), phase=st.sampled_from([1.0, 1.0, 1.0, 0.0])), check, quick=1, thorough=15),
            Sweep('no CP violation', odd, lambda n: phys.point_strategy(n, sizes=(1.0, 0.3), density=st.just(1.0)), check_sm, quick=1, thorough=15)]
